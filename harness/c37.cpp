// Numbers written one after another into one buffer, and read one after another.
#include "lib.h"
#include <cctype>
#include <cstring>
using namespace pbt;

static const char* const separators[] = {" ", ",", ";", "\n", "\t", ", ", "\r\n", " ; ", "|", "/", ":", "=", "]", "}", "\"", "*", "x", "_", " nan", "<td>", "#", "\x01"};

/** Any character which can't continue a number, whatever follows it. */
static std::string separator(Ctx& c)
{
	if (c.draw(3)) return c.pick(separators);
	const char ch = static_cast<char>(1 + c.draw(126));
	return std::string(1, std::isalnum(static_cast<unsigned char>(ch)) || std::strchr(".+-(", ch) ? '\'' : ch);
}

// Values printed by consecutive calls; each one begins where the one before has ended.
template<typename F, typename C> void values(Ctx& c)
{
	const size_t n = 1 + (c.draw(40) ? c.size(12) : c.size(400));
	std::vector<F> v(n);
	std::vector<std::string> sep(n);
	for (size_t i = 0; i < n; ++i)
	{
		const auto k = c.draw(60);
		v[i] = k == 59 ? std::numeric_limits<F>::quiet_NaN() : k == 58 ? std::numeric_limits<F>::infinity() : k == 57 ? -std::numeric_limits<F>::infinity() : gen::finite<F>(c);
		sep[i] = separator(c);
	}
	// a value with a minus ends the one in front of it by itself
	for (size_t i = 0; i + 1 < n; ++i)
		if (v[i + 1] < 0 && c.draw(3) == 0) sep[i].clear();
	c.show([&] { std::string s; for (size_t i = 0; i < n && i < 40; ++i) s += (i ? quoted(sep[i - 1]) + " " : "") + oracle::describe(v[i]) + " "; return s; });
	const size_t capacity = n * 50;
	std::basic_string<C> buffer(capacity, C('7')), apart;
	C* p = &buffer[0];
	for (size_t i = 0; i < n; ++i)
	{
		p += floaxie::ftoa(v[i], p);
		apart += lib::print<C>(v[i]);
		for (char ch : sep[i]) { *p++ = static_cast<C>(ch); apart += static_cast<C>(ch); }
	}
	*p = C(0);
	const size_t len = static_cast<size_t>(p - &buffer[0]);
	if (buffer.substr(0, len) != apart)
		c.fail("printed together: " + lib::show(buffer.substr(0, len)) + ", one by one: " + lib::show(apart));
	const C* q = buffer.data();
	for (size_t i = 0; i < n; ++i)
	{
		C* e = nullptr;
		const auto r = lib::caller<F, C>::call(q, &e);
		if (!(std::isnan(v[i]) ? std::isnan(r.value) : oracle::same(r.value, v[i] == 0 ? F(0) : v[i])))
			c.fail("value " + std::to_string(i) + " is read as " + oracle::describe(r.value) + " instead of " + oracle::describe(v[i]) + " out of " + lib::show(apart));
		if (r.status != floaxie::conversion_status::success)
			c.fail("value " + std::to_string(i) + ": " + oracle::status_name(r.status));
		for (char ch : sep[i])
			if (*e++ != static_cast<C>(ch))
				c.fail("value " + std::to_string(i) + " doesn't end at its separator in " + lib::show(apart));
		q = e;
	}
	if (*q != C(0))
		c.fail("something is left over");
	c.label(n > 100 ? "over 100 values" : n > 10 ? "over 10 values" : n > 1 ? "a few values" : "a single value");
	if (len > gen::text_limit) c.label("over 2048 characters in total");
	if (n > 1) c.nontrivial(hash_bytes(apart.data(), apart.size() * sizeof(C)));
}

// Texts in any notation.
template<typename F, typename C> void texts(Ctx& c)
{
	const size_t n = 2 + (c.draw(40) ? c.size(8) : c.size(100));
	std::string all;
	std::vector<oracle::Expected<F>> x;
	std::vector<size_t> begin, length, number_length;
	std::vector<std::string> t(n);
	for (auto& s : t)
	{
		s = c.draw(12) ? gen::number<F>(c) : gen::special(c);
		const oracle::Scan alone = oracle::scan(s.c_str());
		if (alone.what == oracle::kind::none || alone.end != s.size()) s = c.draw(2) ? "-0.5e1" : "-.5";
	}
	size_t joined = 0, doubted = 0;
	for (size_t i = 0; i < n; ++i)
	{
		std::string sep = separator(c);
		if (sep == " nan") sep = " ";
		// even one that might continue this text, if only the next one were another
		if (i + 1 < n && c.draw(6) == 0)
		{
			static const char* const doubtful[] = {"e", "E+", "e-", ".", "..", "+", "-", "--", "(", "n", "i", "inf", "x", "f", "p1", "0x", "_", "d", "L", "'", ",", "e+-", " "};
			const std::string other = c.pick(doubtful);
			if (oracle::scan((t[i] + other + t[i + 1]).c_str()).end == t[i].size()) { sep = other; ++doubted; }
		}
		// no separator at all, where the next text can't be taken for a part of this one
		if (i + 1 < n && c.draw(2) == 0 && oracle::scan((t[i] + t[i + 1]).c_str()).end == t[i].size()) { sep.clear(); ++joined; }
		begin.push_back(all.size());
		number_length.push_back(t[i].size());
		length.push_back(t[i].size() + sep.size());
		x.push_back(oracle::expect<F>(t[i].c_str()));
		all += t[i] + sep;
	}
	c.show([&] { return quoted(all); });
	const auto w = gen::widen<C>(all);
	const C* q = w.c_str();
	bool fb = false;
	for (size_t i = 0; i < n; ++i)
	{
		// one variable for where to start and where it ended is usual, too
		C* e = const_cast<C*>(q);
		const auto r = i % 2 ? floaxie::atof<F>(e, &e, lib::reference_fallback<F, C>) : lib::caller<F, C>::call(q, &e);
		if (e - q != static_cast<long long>(number_length[i]))
			c.fail("consumed " + std::to_string(e - q) + " characters of number " + std::to_string(i) + ", " + quoted(all.substr(begin[i], length[i])));
		if (!oracle::same(r.value, x[i].value) || r.status != x[i].status)
			c.fail("number " + std::to_string(i) + ", " + quoted(all.substr(begin[i], length[i])) + " is read as " + oracle::describe(r.value) + " " + oracle::status_name(r.status) + " instead of " + oracle::describe(x[i].value) + " " + oracle::status_name(x[i].status));
		fb |= r.status != floaxie::conversion_status::success;
		q += length[i];
	}
	c.label(all.size() > gen::text_limit ? "over 2048 characters in total" : "up to 2048 characters in total");
	if (joined) c.label("some without separator");
	if (doubted) c.label("some with a beginning of a continuation in between");
	if (fb) c.label("some out of range");
	c.nontrivial(hash_str(all));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"values double char", 500000, 30000000, values<double, char>, nullptr},
		{"values float char", 500000, 30000000, values<float, char>, nullptr},
		{"values double wchar_t", 200000, 10000000, values<double, wchar_t>, nullptr},
		{"values float wchar_t", 200000, 10000000, values<float, wchar_t>, nullptr},
		{"values double char16_t", 100000, 10000000, values<double, char16_t>, nullptr},
		{"texts double char", 250000, 15000000, texts<double, char>, nullptr},
		{"texts float char", 250000, 15000000, texts<float, char>, nullptr},
		{"texts double wchar_t", 100000, 8000000, texts<double, wchar_t>, nullptr},
		{"texts float char32_t", 100000, 8000000, texts<float, char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"up to 400 values (special ones included) printed one behind another with separators in between, or directly where a minus follows, and read back one by one; up to 100 texts in any notation with separators, or without, where the next one can't continue the one before; non-trivial: more than one number",
		{"texts are compared with the reference parser in oracle.h"});
}
