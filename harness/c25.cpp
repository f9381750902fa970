// Built with UndefinedBehaviorSanitizer.
#include "lib.h"
using namespace pbt;
typedef unsigned __int128 u128;

template<typename F> struct D
{
	typedef floaxie::diy_fp<F> type;
	typedef typename type::mantissa_storage_type M;
	static constexpr int width = sizeof(M) * 8;

	static M mantissa(Ctx& c)
	{
		const M top = M(1) << (width - 1);
		switch (c.draw(7))
		{
		case 0: return static_cast<M>(c.size(1000));
		case 1: return static_cast<M>(~M(0) - static_cast<M>(c.size(1000)));
		case 2: return static_cast<M>(top + static_cast<M>(c.range(-3, 3)));
		case 3: { const M r = static_cast<M>(c.bits()); return static_cast<M>(r & ~((M(1) << c.draw(width)) - 1)); }
		case 4: return static_cast<M>((M(1) << c.draw(width)) - 1);
		case 5: { // halves made of extreme patterns: carries between the partial products
			static const uint32_t h[] = {0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x55555555};
			const M half = (M(1) << (width / 2)) - 1;
			return static_cast<M>((static_cast<M>(c.pick(h)) & half) << (width / 2) | (static_cast<M>(c.pick(h)) & half)); }
		default: return static_cast<M>(c.bits());
		}
	}
	static int exponent(Ctx& c) { return static_cast<int>(c.draw(2) ? c.range(-1200, 1200) : c.range(-70, 70)); }
	static bool same(const type& a, const type& b) { return a.mantissa() == b.mantissa() && a.exponent() == b.exponent(); }
	static std::string str(const type& d) { return "{" + std::to_string(d.mantissa()) + ", " + std::to_string(d.exponent()) + "}"; }
};

template<typename F> void multiply(Ctx& c)
{
	typedef D<F> T; typedef typename T::M M; typedef typename T::type diy;
	const diy a(T::mantissa(c), T::exponent(c)), b(T::mantissa(c), T::exponent(c));
	c.show([&] { return T::str(a) + " * " + T::str(b); });
	const diy p = a * b;
	const u128 exact = static_cast<u128>(a.mantissa()) * b.mantissa();
	// (p.e - a.e - b.e) bits were dropped
	const int shift = p.exponent() - a.exponent() - b.exponent();
	if (shift != T::width)
		c.fail("exponent is " + std::to_string(p.exponent()));
	const u128 back = static_cast<u128>(p.mantissa()) << shift;
	const u128 diff = back > exact ? back - exact : exact - back;
	if (diff > (u128(1) << (shift - 1)))
		c.fail("product " + T::str(p) + " differs from the exact one by more than a half of its last unit");
	diy q(a);
	q *= b;
	if (q.mantissa() != p.mantissa() || q.exponent() != p.exponent()) c.fail("*= differs from *");
	if (a.mantissa() && b.mantissa()) c.nontrivial(mix(static_cast<uint64_t>(a.mantissa())) ^ static_cast<uint64_t>(b.mantissa()));
	c.label(p.mantissa() ? "product not zero" : "product rounds to zero");
	(void)sizeof(M);
}

template<typename F> void additive(Ctx& c)
{
	typedef D<F> T; typedef typename T::M M; typedef typename T::type diy;
	M x = T::mantissa(c), y = c.draw(4) ? T::mantissa(c) : x;
	const int e = T::exponent(c);
	if (x < y) std::swap(x, y);
	const diy a(x, e), b(y, e);
	c.show([&] { return T::str(a) + ", " + T::str(b); });
	const diy d = a - b;
	if (d.mantissa() != x - y || d.exponent() != e) c.fail("difference is " + T::str(d));
	diy s(a);
	s -= b;
	if (!T::same(s, d)) c.fail("-= differs from -");
	// comparison is exact: another exponent or any other bit of the significand make a difference
	int away = 0;
	M flip = 0;
	switch (c.draw(4))
	{
	case 0: break;
	case 1: away = static_cast<int>(c.draw(2) ? 1 : -1) * (1 << c.draw(13)); break;
	case 2: away = static_cast<int>(c.range(-2400, 2400)); break;
	default: flip = M(1) << c.draw(T::width); break;
	}
	const diy o(x ^ flip, e + away);
	const bool equal = !flip && (!away || !x);
	if (x || !away) // zeros of different exponents are left open
	{
		if ((a == o) != equal || (o == a) != equal) c.fail("comparison with " + T::str(o));
		if ((a != o) == equal || (o != a) == equal) c.fail("inequality with " + T::str(o));
	}
	if ((a == b) != (x == y) || (a != b) != (x != y)) c.fail("comparison of the two");
	// normalisation keeps the value
	if (y)
	{
		diy n(b);
		n.normalize();
		if (!(n.mantissa() >> (T::width - 1)) || !n.is_normalized()) c.fail("not normalised: " + T::str(n));
		const int k = b.exponent() - n.exponent();
		if (k < 0 || k >= T::width || static_cast<u128>(y) << k != n.mantissa()) c.fail("value changed by normalisation: " + T::str(n));
		diy m(n);
		m.normalize();
		if (!T::same(m, n)) c.fail("normalising twice changes the value");
	}
	c.nontrivial(mix(static_cast<uint64_t>(x)) ^ static_cast<uint64_t>(y));
}

template<typename F> void steps(Ctx& c)
{
	typedef D<F> T; typedef typename T::M M; typedef typename T::type diy;
	const M x = T::mantissa(c);
	const int e = T::exponent(c);
	const diy a(x, e);
	const M max = ~M(0), top = M(1) << (T::width - 1);
	c.show([&] { return T::str(a); });
	diy i(a);
	diy& ir = ++i;
	if (&ir != &i) c.fail("++ doesn't return the object");
	diy p(a);
	const diy old = p++;
	if (!T::same(old, a) || !T::same(p, i)) c.fail("postfix ++ differs: " + T::str(old) + " " + T::str(p));
	if (x < max)
	{
		if (i.mantissa() != x + 1 || i.exponent() != e) c.fail("++ gives " + T::str(i));
	}
	else if (i.mantissa() != top || i.exponent() != e + 1) // 2^w * 2^e
		c.fail("++ on overflow gives " + T::str(i));
	if (x > 0)
	{
		diy d(a);
		diy& dr = --d;
		if (&dr != &d) c.fail("-- doesn't return the object");
		diy q(a);
		const diy oldd = q--;
		if (!T::same(oldd, a) || !T::same(q, d)) c.fail("postfix -- differs: " + T::str(oldd) + " " + T::str(q));
		if (x > 1 && (d.mantissa() != x - 1 || d.exponent() != e)) c.fail("-- gives " + T::str(d));
		if (x > 1)
		{
			++d;
			if (!T::same(d, a)) c.fail("++ doesn't undo --: " + T::str(d));
		}
	}
	if (x < max && x > 0)
	{
		--i;
		if (!T::same(i, a)) c.fail("-- doesn't undo ++: " + T::str(i));
	}
	c.label(x == max ? "overflow of ++" : x < 2 ? "0 or 1" : "other");
	c.nontrivial(mix(static_cast<uint64_t>(x)) ^ static_cast<uint64_t>(e));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"product, double", 15000000, 600000000, multiply<double>, nullptr},
		{"product, float", 15000000, 600000000, multiply<float>, nullptr},
		{"difference, comparison, normalisation, double", 6000000, 200000000, additive<double>, nullptr},
		{"difference, comparison, normalisation, float", 6000000, 200000000, additive<float>, nullptr},
		{"steps, double", 6000000, 200000000, steps<double>, nullptr},
		{"steps, float", 6000000, 200000000, steps<float>, nullptr},
	};
	return run(argc, argv, p,
		"pairs of significands (small, huge, sparse, dense, around the top bit, halves of extreme patterns) and exponents, compared with 128-bit integer arithmetic; non-trivial: both factors are not zero, or any pair for the other operations",
		{"compiler's unsigned __int128"});
}
