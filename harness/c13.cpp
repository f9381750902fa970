#include "lib.h"
using namespace pbt;

// Judges the text alone; its digits are taken from the text itself.
static std::string malformed(const std::string& s, bool negative)
{
	size_t p = 0;
	if (negative != (!s.empty() && s[0] == '-')) return "sign";
	p += negative;
	std::string whole, frac;
	bool dot = false;
	for (; p < s.size() && (oracle::digit(s[p]) || s[p] == '.'); ++p)
	{
		if (s[p] == '.')
		{
			if (dot) return "two points";
			dot = true;
		}
		else
			(dot ? frac : whole) += s[p];
	}
	if (whole.empty()) return "no digit before the point";
	if (dot && frac.empty()) return "no digit after the point";
	if (!frac.empty() && frac.back() == '0') return "redundant trailing zero";
	std::string digits = whole + frac;
	long long exp10 = -static_cast<long long>(frac.size());
	bool scientific = false;
	if (p < s.size())
	{
		if (s[p] != 'e') return "unexpected character";
		scientific = true;
		++p;
		const bool neg = s[p] == '-';
		p += neg;
		const std::string e = s.substr(p);
		if (e.empty() || e.size() > 3 || e.find_first_not_of("0123456789") != std::string::npos) return "exponent";
		if (std::atoi(e.c_str()) == 0) return "zero exponent";
		if (e.size() < 2 || (e.size() == 3 && e[0] == '0')) return "number of exponent digits";
		exp10 += (neg ? -1 : 1) * std::atoll(e.c_str());
		if (whole.size() != 1 || whole[0] == '0') return "scientific notation needs one non-zero digit before the point";
	}
	else if (whole.size() > 1 && whole[0] == '0')
		return "redundant leading zero";
	const size_t nz = digits.find_first_not_of('0');
	if (nz == std::string::npos) return "no non-zero digit";
	// significant digits of the text, the trailing zeros in front of the point removed
	digits.erase(0, nz);
	while (digits.size() > 1 && digits.back() == '0') { digits.pop_back(); ++exp10; }
	const long long before = static_cast<long long>(digits.size()) + exp10, after = -exp10;
	const bool decimal = before <= 16 && after <= 16;
	if (decimal == scientific)
		return decimal ? "scientific notation instead of decimal" : "decimal notation instead of scientific";
	return "";
}

template<typename F> void format(Ctx& c)
{
	F v;
	switch (c.draw(3))
	{
	case 0: // around the switch of notations
	{
		char b[64];
		const auto n = c.draw(18);
		std::string d = gen::digit_string(c, 1 + n);
		std::snprintf(b, sizeof b, "%se%d", d.c_str(), static_cast<int>(c.range(-20, 20)) - static_cast<int>(c.draw(n + 1)));
		v = oracle::libc_parse<F>(b);
		if (!(std::isfinite(v) && v != 0)) v = 1;
		if (c.draw(2)) v = -v;
		break;
	}
	default:
		v = gen::finite<F>(c);
		if (v == 0) v = 1;
		break;
	}
	c.show([&] { return oracle::describe(v) + " -> " + lib::print(v); });
	const std::string s = lib::print(v);
	const std::string m = malformed(s, v < 0);
	if (!m.empty())
		c.fail("printed as " + quoted(s) + ": " + m);
	// the digits of the text denote the value, otherwise the format says nothing
	const bool sci = s.find('e') != std::string::npos;
	c.label(sci ? (s.find("e-") != std::string::npos ? "scientific, negative exponent" : "scientific, positive exponent") : s.find('.') == std::string::npos ? "integer" : "decimal with a point");
	c.nontrivial(oracle::bits(v));
}

static void enumerate(Ctx& c)
{
	const uint64_t block = c.draw(1u << 15);
	const auto step = G().thorough ? 1u : 211u;
	c.show([&] { return "floats with the upper half " + std::to_string(block); });
	for (uint64_t i = c.draw(step); i < (1u << 16); i += step)
	{
		const float v = oracle::from_bits<float>(static_cast<uint32_t>(block << 16 | i));
		if (!std::isfinite(v) || v == 0) continue;
		char b[64];
		floaxie::ftoa(v, b);
		const std::string m = malformed(b, false);
		if (!m.empty())
			c.fail(oracle::describe(v) + " printed as " + quoted(b) + ": " + m);
	}
	c.nontrivial(block);
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 10000000, 600000000, format<double>, nullptr},
		{"float", 8000000, 200000000, format<float>, nullptr},
		{"float blocks", 16384, 32768 * 3, enumerate, nullptr},
	};
	return run(argc, argv, p,
		"random non-zero finite values, a third of them short decimals around the limits of decimal notation, and blocks of 2^16 floats; non-trivial: every value",
		{"the notation rule is judged from the significant digits of the printed text itself"});
}
