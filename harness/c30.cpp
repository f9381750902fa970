#include "lib.h"
using namespace pbt;

// the share isn't to be large for any number of digits or range of exponents, either
constexpr int bands = 20;
static char names[2][18 + bands][24];

static void name_labels()
{
	for (int i = 0; i < 18 + bands; ++i)
		for (int f = 0; f < 2; ++f)
		{
			if (i < 18) std::snprintf(names[f][i], sizeof names[f][i], "%d digits%s", i, f ? ", fallback" : "");
			else std::snprintf(names[f][i], sizeof names[f][i], "range %d%s", i - 18, f ? ", fallback" : "");
		}
}

template<typename F> int band(double at) // 0..1
{
	return std::min(bands - 1, std::max(0, static_cast<int>(at * bands)));
}

template<typename F> void count(Ctx& c, const std::string& s, int digits = 0, double at = -1)
{
	c.show([&] { return quoted(s); });
	const bool fb = lib::fallback_used<F>(s.c_str());
	c.label(fb ? "fallback" : "fast path");

	if (at >= 0)
	{
		if (digits > 0) c.label(names[0][digits]);
		c.label(names[0][18 + band<F>(at)]);

		if (fb)
		{
			if (digits > 0) c.label(names[1][digits]);
			c.label(names[1][18 + band<F>(at)]);
		}
	}

	c.nontrivial(hash_str(s));
}

template<typename F> void random_digits(Ctx& c)
{
	const size_t n = 1 + c.draw(gen::traits<F>::dig);
	std::string s;
	for (size_t i = 0; i < n; ++i) s += static_cast<char>('0' + (i == 0 ? 1 + c.draw(9) : c.draw(10)));
	if (n > 1) s.insert(1, ".");
	const int lo = std::numeric_limits<F>::min_exponent10, hi = std::numeric_limits<F>::max_exponent10 - 1;
	const int e = static_cast<int>(c.range(lo, hi));
	s += "e" + std::to_string(e);
	count<F>(c, s, static_cast<int>(n), (e - lo) / (hi - lo + 1.));
}

template<typename F> void printed(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const B inf = oracle::bits(std::numeric_limits<F>::infinity());
	const B b = static_cast<B>(1 + c.draw(inf - 1));
	count<F>(c, lib::print(oracle::from_bits<F>(b)), 0, static_cast<double>(b) / static_cast<double>(inf));
}

template<typename F> void moderate(Ctx& c) // values as they are written every day
{
	char b[64];
	std::snprintf(b, sizeof b, "%.*f", static_cast<int>(c.draw(7)), static_cast<double>(c.draw(1000000000)) / 1000);
	std::string s = b;
	if (s.size() > static_cast<size_t>(gen::traits<F>::dig) + 1) s.resize(static_cast<size_t>(gen::traits<F>::dig) + 1);
	count<F>(c, s);
}

static std::string rate(const Stats& s)
{
	const auto fb = s.labels.count("fallback") ? s.labels.at("fallback") : 0;
	if (s.evaluated < 100000) return "";
	std::fprintf(stderr, "fallback rate %.4f%%\n", 100.0 * static_cast<double>(fb) / static_cast<double>(s.evaluated));
	if (fb * 100 >= s.evaluated * 5)
	{
		char m[120];
		std::snprintf(m, sizeof m, "%.2f%% of %llu parses needed the fallback", 100.0 * static_cast<double>(fb) / static_cast<double>(s.evaluated), (unsigned long long)s.evaluated);
		return m;
	}

	for (int i = 0; i < 18 + bands; ++i)
	{
		const auto a = s.labels.find(names[0][i]), f = s.labels.find(names[1][i]);
		if (a == s.labels.end() || f == s.labels.end() || a->second < 5000) continue;
		const double limit = i >= 18 && s.labels.count(names[0][1]) ? 0.2 : 0.05; // ties of short texts come close together
		const double r = static_cast<double>(f->second) / static_cast<double>(a->second);
		if (std::getenv("C30_RATES") && r > limit / 8) std::fprintf(stderr, "%s: %.4f\n", names[0][i], r);
		if (r >= limit)
		{
			char m[160];
			std::snprintf(m, sizeof m, "%.2f%% of the %llu parses of texts of %s%s needed the fallback", 100 * r, (unsigned long long)a->second, names[0][i], i < 18 ? "" : " (a twentieth of the exponents)");
			return m;
		}
	}

	return "";
}

int main(int argc, char** argv)
{
	name_labels();

	std::vector<Prop> p = {
		{"double, random digits", 8000000, 300000000, random_digits<double>, rate},
		{"float, random digits", 8000000, 300000000, random_digits<float>, rate},
		{"double, printed", 8000000, 300000000, printed<double>, rate},
		{"float, printed", 8000000, 300000000, printed<float>, rate},
		{"double, moderate", 5000000, 200000000, moderate<double>, rate},
		{"float, moderate", 5000000, 200000000, moderate<float>, rate},
	};
	return run(argc, argv, p, "random decimal texts with up to 17 (9) digits and exponents over the normal range, texts printed by the library, and everyday numbers; a counting fallback is passed; non-trivial: every distinct text", {});
}
