// Numbers written with few digits are printed with the same digits.
#include "lib.h"
using namespace pbt;

/** Digits without zeros around them, and the power of ten of the last one. */
static gen::Decimal digits_of(const std::string& t)
{
	gen::Decimal d{"", 0};
	size_t i = t[0] == '-';
	bool dot = false;
	for (; i < t.size() && t[i] != 'e'; ++i)
	{
		if (t[i] == '.') { dot = true; continue; }
		d.digits += t[i];
		d.exp10 -= dot;
	}
	if (i < t.size()) d.exp10 += std::atoll(t.c_str() + i + 1);
	while (d.digits.size() > 1 && d.digits[0] == '0') d.digits.erase(0, 1);
	while (d.digits.size() > 1 && d.digits.back() == '0') { d.digits.pop_back(); ++d.exp10; }
	return d;
}

template<typename F> F nearest(const gen::Decimal& d) { return oracle::libc_parse<F>((d.digits + "e" + std::to_string(d.exp10)).c_str()); }

static std::string written(const gen::Decimal& d) { return d.digits + "e" + std::to_string(d.exp10); }


template<typename F> gen::Decimal few_digits(Ctx& c)
{
	const size_t n = 1 + c.draw(std::numeric_limits<F>::digits10);
	gen::Decimal d{gen::digit_string(c, n), 0};
	d.exp10 = 0;
	while (d.digits.size() > 1 && d.digits[0] == '0') d.digits.erase(0, 1);
	while (d.digits.size() > 1 && d.digits.back() == '0') d.digits.pop_back();
	if (d.digits == "0") d.digits = "1";
	return d;
}

// those which a binary number holds exactly
template<typename F, typename C> void exact(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	gen::Decimal d{"", 0};
	F v;
	switch (c.draw(3))
	{
	case 0: // whole numbers
	{
		const auto limit = static_cast<uint64_t>(std::pow(10.0, L::digits10));
		v = static_cast<F>(c.draw(2) ? c.draw(limit) : c.draw(10000));
		break;
	}
	case 1: // binary fractions
		v = std::ldexp(static_cast<F>(c.draw(c.draw(2) ? 1 << 20 : 1 << 8)), -static_cast<int>(c.draw(24)));
		break;
	default: // whole numbers with zeros behind
		v = nearest<F>(gen::Decimal{few_digits<F>(c).digits, static_cast<long long>(c.draw(L::digits10 + 8))});
		break;
	}
	if (v == 0) { c.label("zero"); return; }
	d = gen::expand(v, 60); // enough for all of these
	c.show([&] { return written(d); });
	if (d.digits.size() > static_cast<size_t>(L::digits10)) { c.label("more digits"); return; }
	if (c.draw(2)) v = -v;
	const auto t = lib::print<C>(v);
	const std::string s(t.begin(), t.end());
	const gen::Decimal p = digits_of(s);
	if ((s[0] == '-') != (v < 0) || p.digits != d.digits || p.exp10 != d.exp10)
		c.fail("printed as " + lib::show(t));
	char l[24];
	std::snprintf(l, sizeof l, "%d digits", static_cast<int>(d.digits.size()));
	static char names[20][24];
	std::memcpy(names[d.digits.size()], l, sizeof l);
	c.label(names[d.digits.size()]);
	c.nontrivial(oracle::bits(v));
}

// all of them
template<typename F, typename C> void any(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	const gen::Decimal d = [&]
	{
		gen::Decimal x{"", 0};
		const size_t n = 1 + c.draw(L::digits10);
		x.digits = std::to_string(1 + c.draw(9));
		while (x.digits.size() < n) x.digits += static_cast<char>('0' + c.draw(10));
		while (x.digits.size() > 1 && x.digits.back() == '0') x.digits.pop_back();
		const auto e = c.draw(3) ? c.range(-10, 10) : c.range(L::min_exponent10 + 1, L::max_exponent10 - 1);
		x.exp10 = e - static_cast<long long>(x.digits.size()) + 1;
		return x;
	}();
	const std::string s = written(d);
	c.show([&] { return s; });
	const auto w = gen::widen<C>(s);
	const auto r = lib::parse<F>(w.c_str());
	const auto t = lib::print<C>(r.value);
	const gen::Decimal p = digits_of(std::string(t.begin(), t.end()));
	const bool same = p.digits == d.digits && p.exp10 == d.exp10;
	if (!same && p.digits.size() <= static_cast<size_t>(L::digits10))
		c.fail("printed as " + lib::show(t) + ", another number of so few digits");
	if (p.digits.size() < d.digits.size())
		c.fail("printed as " + lib::show(t) + ", with fewer digits");
	c.label(same ? "same digits" : "more digits");
	c.nontrivial(hash_str(s));
}

template<typename F> std::string rate(const Stats& s)
{
	const auto more = s.labels.count("more digits") ? s.labels.at("more digits") : 0;
	if (s.evaluated < 100000) return "";
	const double r = static_cast<double>(more) / static_cast<double>(s.evaluated);
	std::fprintf(stderr, "printed with other digits: %.4f%%\n", 100 * r);
	if (r >= (sizeof(F) == 8 ? 0.01 : 0.05))
	{
		char m[120];
		std::snprintf(m, sizeof m, "%.2f%% of %llu numbers are printed with more digits than they were written with", 100 * r, (unsigned long long)s.evaluated);
		return m;
	}
	return "";
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"exact double char", 1500000, 60000000, exact<double, char>, nullptr},
		{"exact float char", 1500000, 60000000, exact<float, char>, nullptr},
		{"exact double wchar_t", 500000, 20000000, exact<double, wchar_t>, nullptr},
		{"exact float char16_t", 500000, 20000000, exact<float, char16_t>, nullptr},
		{"any double char", 4000000, 150000000, any<double, char>, rate<double>},
		{"any float char", 4000000, 150000000, any<float, char>, rate<float>},
		{"any double char32_t", 500000, 30000000, any<double, char32_t>, rate<double>},
		{"any float wchar_t", 500000, 30000000, any<float, wchar_t>, rate<float>},
	};
	return run(argc, argv, p,
		"values which a decimal of up to 15 (6) digits denotes exactly, and random decimals of up to 15 (6) digits, parsed and printed; non-trivial: every distinct value (text)",
		{"two decimals of up to 15 (6) digits are never rounded to the same value, which the C standard guarantees by DBL_DIG and FLT_DIG"});
}
