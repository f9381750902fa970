#include "lib.h"
#include <functional>
using namespace pbt;

template<typename F, typename C> struct Record
{
	int calls = 0;
	const C* str = nullptr;
	C** end = nullptr;
	F answer = 0;
	int set_errno = -1;
	long long set_end = -1; // -1: leaves it alone
	bool throws = false;
	F operator()(const C* s, C** e)
	{
		++calls;
		str = s;
		end = e;
		if (set_errno >= 0) errno = set_errno;
		if (e && set_end >= 0) *e = const_cast<C*>(s + set_end);
		if (throws) throw this;
		return answer;
	}
};

template<typename F, typename C> Record<F, C>*& current() { static Record<F, C>* r = nullptr; return r; }
template<typename F, typename C> F plain_function(const C* s, C** e) { return (*current<F, C>())(s, e); }

template<typename F, typename C> void contract(Ctx& c)
{
	const std::string s = c.chance(1, 4) ? gen::text<F>(c) : gen::number<F>(c);
	const auto w = gen::widen<C>(s);
	Record<F, C> rec;
	switch (c.draw(5))
	{
	case 0: rec.answer = std::numeric_limits<F>::quiet_NaN(); break;
	case 1: rec.answer = (c.draw(2) ? -1 : 1) * std::numeric_limits<F>::infinity(); break;
	case 2: rec.answer = c.draw(2) ? F(-0.0) : F(0); break;
	case 3: rec.answer = gen::finite<F>(c); break;
	default: rec.answer = F(42); break;
	}
	if (c.draw(2)) rec.set_errno = c.draw(2) ? ERANGE : static_cast<int>(c.draw(130));
	if (c.draw(2)) rec.set_end = static_cast<long long>(c.draw(w.size() + 1));
	rec.throws = c.draw(8) == 7;
	C sentinel_storage[1] = {C('x')};
	C* end = sentinel_storage;
	const bool null_end = c.chance(1, 4);
	C** endp = null_end ? nullptr : &end;
	c.show([&] { return quoted(s) + (null_end ? ", null end" : "") + ", fallback gives " + oracle::describe(rec.answer) + " end " + std::to_string(rec.set_end) + " errno " + std::to_string(rec.set_errno) + (rec.throws ? ", throws" : ""); });
	floaxie::value_and_status<F> r;
	errno = c.draw(3) == 2 ? ERANGE : 0;
	bool caught = false;
	const auto way = c.draw(4);
	try
	{
		switch (way)
		{
		case 0: r = floaxie::atof<F>(w.c_str(), endp, [&rec](const C* a, C** b) -> F { return rec(a, b); }); break;
		case 1: current<F, C>() = &rec; r = floaxie::atof<F>(w.c_str(), endp, plain_function<F, C>); break;
		case 2: r = floaxie::atof<F>(w.c_str(), endp, std::function<F(const C*, C**)>(std::ref(rec))); break;
		default:
			if (null_end)
				r = floaxie::atof<F>(w.c_str(), nullptr, [&rec](const C* a, C** b) -> F { return rec(a, b); });
			else
				r = floaxie::atof<F>(w.c_str(), endp, std::ref(rec));
			break;
		}
	}
	catch (Record<F, C>* p) { caught = p == &rec; }
	const oracle::Expected<F> x = oracle::expect<F>(w.c_str());
	if (rec.calls > 1)
		c.fail("fallback called " + std::to_string(rec.calls) + " times");
	if (rec.calls == 1)
	{
		c.label("fallback called");
		if (x.scan.what != oracle::kind::number)
			c.fail("fallback called for a text which is not a number");
		if (!x.scan.nonzero)
			c.fail("fallback called for zero");
		if (rec.str != w.c_str())
			c.fail("fallback got another text pointer: offset " + std::to_string(rec.str - w.c_str()));
		if (rec.end != endp)
			c.fail("fallback got another end pointer");
		if (caught != rec.throws)
			c.fail("the exception of the fallback didn't arrive");
		if (rec.throws)
			c.label("fallback throws");
		else
		if (!oracle::same(r.value, rec.answer) || oracle::bits(r.value) != oracle::bits(rec.answer))
			c.fail("returned " + oracle::describe(r.value) + " instead of the answer of the fallback");
		if (!rec.throws)
		{
			const auto status = rec.set_errno != ERANGE ? floaxie::conversion_status::success : std::isinf(rec.answer) ? floaxie::conversion_status::overflow : rec.answer == 0 ? floaxie::conversion_status::underflow : floaxie::conversion_status::success;
			if (r.status != status)
				c.fail(std::string("status is ") + oracle::status_name(r.status) + " instead of " + oracle::status_name(status) + ", which the fallback reports");
			if (status != floaxie::conversion_status::success) c.label("fallback reports out of range");
		}
		if (!null_end)
		{
			C* expected_end = rec.set_end >= 0 ? const_cast<C*>(w.c_str() + rec.set_end) : sentinel_storage;
			if (end != expected_end)
				c.fail("end pointer changed after the fallback");
		}
		c.nontrivial(hash_str(s));
	}
	else
	{
		c.label("fast path");
		if (!oracle::same(r.value, x.value) || r.status != x.status)
			c.fail("without fallback: got " + oracle::describe(r.value) + " " + oracle::status_name(r.status) + ", expected " + lib::expected(x).str());
		if (!null_end && end != w.c_str() + x.scan.end)
			c.fail("end pointer is wrong without fallback");
		if (way == 1)
		{
			// no fallback at all
			C* other = sentinel_storage;
			const auto q = floaxie::atof<F>(w.c_str(), null_end ? nullptr : &other, static_cast<F (*)(const C*, C**)>(nullptr));
			if (!oracle::same(q.value, r.value) || q.status != r.status || other != end)
				c.fail("differs with a null fallback");
		}
		if (x.scan.nonzero)
			c.nontrivial(hash_str(s));
		else
			c.label("not a number, special or zero");
	}
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 3000000, 150000000, contract<double, char>, nullptr},
		{"float char", 3000000, 150000000, contract<float, char>, nullptr},
		{"double wchar_t", 1500000, 80000000, contract<double, wchar_t>, nullptr},
		{"float wchar_t", 1000000, 80000000, contract<float, wchar_t>, nullptr},
		{"double char32_t", 1000000, 80000000, contract<double, char32_t>, nullptr},
		{"float char16_t", 1500000, 80000000, contract<float, char16_t>, nullptr},
	};
	return run(argc, argv, p,
		"random texts with recording fallbacks of several callable kinds, giving arbitrary answers, end pointers and errno, or throwing; non-trivial: the fallback ran, or a non-zero number was resolved without it",
		{"glibc strtod/strtof as the reference for results of the fast path"});
}
