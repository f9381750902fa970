#include "lib.h"
#include <dlfcn.h>
using namespace pbt;

struct Build
{
	std::string name;
	void (*parse_d)(const char*, double*, int*, long*);
	void (*parse_f)(const char*, float*, int*, long*);
	void (*wparse_d)(const wchar_t*, double*, int*, long*);
	void (*wparse_f)(const wchar_t*, float*, int*, long*);
	int (*fallback_d)(const char*);
	int (*fallback_f)(const char*);
	long (*print_d)(double, char*);
	long (*print_f)(float, char*);
	long (*wprint_d)(double, wchar_t*);
	long (*u16print_f)(float, char16_t*);
	long (*u32print_d)(double, char32_t*);
	long (*sizes)(int);
	long (*string_d)(double, char*);
	void (*from_d)(const char*, double*, int*);
};

static std::vector<Build> builds;

template<typename P> static void bind(void* h, P& p, const char* name)
{
	p = reinterpret_cast<P>(dlsym(h, name));
	if (!p) internal_error(std::string("no symbol ") + name);
}

static void load(const std::string& list)
{
	std::ifstream f(list);
	std::string line;
	while (std::getline(f, line))
	{
		const size_t t = line.find('\t');
		const std::string path = line.substr(0, t);
		void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) internal_error(dlerror());
		Build b;
		b.name = line.substr(t + 1);
#define BIND(x) bind(h, b.x, #x)
		BIND(parse_d); BIND(parse_f); BIND(wparse_d); BIND(wparse_f); BIND(fallback_d); BIND(fallback_f);
		BIND(print_d); BIND(print_f); BIND(wprint_d); BIND(u16print_f); BIND(u32print_d); BIND(sizes); BIND(string_d); BIND(from_d);
#undef BIND
		for (const Build& o : builds)
			if (o.print_d == b.print_d) internal_error("the same build loaded twice");
		builds.push_back(b);
	}
	if (builds.size() < 2) internal_error("no builds to compare");
}

template<typename F> struct Out
{
	F v = 0;
	int st = 0;
	long n = 0;
	bool operator==(const Out& o) const { return oracle::same(v, o.v) && st == o.st && n == o.n; }
	std::string str() const { return oracle::describe(v) + ", " + oracle::status_name(static_cast<floaxie::conversion_status>(st)) + ", consumed " + std::to_string(n); }
};

template<typename R, typename Call> static void all_equal(Ctx& c, const char* what, Call&& call)
{
	const R first = call(builds[0]);
	for (size_t i = 1; i < builds.size(); ++i)
	{
		const R r = call(builds[i]);
		if (!(r == first))
			c.fail(std::string(what) + ": " + r.str() + " [" + builds[i].name + "], " + first.str() + " [" + builds[0].name + "]");
	}
}

struct Number
{
	long n;
	bool operator==(const Number& o) const { return n == o.n; }
	std::string str() const { return std::to_string(n); }
};

template<typename C> struct Text
{
	std::basic_string<C> s;
	long n;
	bool operator==(const Text& o) const { return n == o.n && s == o.s; }
	std::string str() const { return lib::show(s) + " of length " + std::to_string(n); }
};

static std::string input(Ctx& c)
{
	std::string s;
	switch (c.draw(10))
	{
	case 0: s = gen::special(c); break;
	case 1: s = gen::text<float>(c); break;
	case 2: s = gen::notation(c, gen::halfway<double>(c, gen::positive<double>(c))); break;
	case 3: s = gen::notation(c, gen::halfway<float>(c, gen::positive<float>(c))); break;
	case 4: s = gen::number<float>(c); break;
	case 5: s = gen::text<double>(c); break;
	case 6: // bytes beyond ASCII where char signedness matters
	{
		s = c.draw(2) ? gen::number<double>(c) : gen::special(c);
		const size_t n = 1 + c.draw(3);
		for (size_t i = 0; i < n; ++i)
			s.insert(s.begin() + static_cast<long>(c.draw(s.size() + 1)), static_cast<char>(0x80 + c.draw(0x80)));
		c.label("bytes beyond ASCII");
		break;
	}
	default: s = gen::number<double>(c); break;
	}
	const size_t z = s.find('\0');
	if (z != std::string::npos) s.resize(z);
	return s;
}

static void parsing(Ctx& c)
{
	const std::string s = input(c);
	c.show([&] { return quoted(s); });
	all_equal<Out<double>>(c, "parse double", [&](const Build& b) { Out<double> o; b.parse_d(s.c_str(), &o.v, &o.st, &o.n); return o; });
	all_equal<Out<float>>(c, "parse float", [&](const Build& b) { Out<float> o; b.parse_f(s.c_str(), &o.v, &o.st, &o.n); return o; });
	all_equal<Number>(c, "fallback needed, double", [&](const Build& b) { return Number{b.fallback_d(s.c_str())}; });
	all_equal<Number>(c, "fallback needed, float", [&](const Build& b) { return Number{b.fallback_f(s.c_str())}; });
	all_equal<Out<double>>(c, "from_string", [&](const Build& b) { Out<double> o; b.from_d(s.c_str(), &o.v, &o.st); return o; });
	if (c.draw(3) == 0)
	{
		const auto w = gen::widen<wchar_t>(s);
		all_equal<Out<double>>(c, "parse wide double", [&](const Build& b) { Out<double> o; b.wparse_d(w.c_str(), &o.v, &o.st, &o.n); return o; });
		all_equal<Out<float>>(c, "parse wide float", [&](const Build& b) { Out<float> o; b.wparse_f(w.c_str(), &o.v, &o.st, &o.n); return o; });
		c.label("wide");
	}
	c.nontrivial(hash_str(s));
}

template<typename C, typename P, typename F> static Text<C> printed(P print, F v)
{
	C b[96];
	for (auto& x : b) x = C('#');
	Text<C> t;
	t.n = print(v, b);
	size_t l = 0;
	while (l < 95 && b[l]) ++l;
	t.s.assign(b, l);
	return t;
}

static void printing(Ctx& c)
{
	const double d = c.draw(20) ? gen::finite<double>(c) : c.draw(2) ? HUGE_VAL : std::nan("");
	const float f = c.draw(20) ? gen::finite<float>(c) : c.draw(2) ? -HUGE_VALF : std::nanf("");
	c.show([&] { return oracle::describe(d) + ", " + oracle::describe(f); });
	all_equal<Text<char>>(c, "print double", [&](const Build& b) { return printed<char>(b.print_d, d); });
	all_equal<Text<char>>(c, "print float", [&](const Build& b) { return printed<char>(b.print_f, f); });
	if (c.draw(3) == 0)
	{
		all_equal<Text<wchar_t>>(c, "print wide double", [&](const Build& b) { return printed<wchar_t>(b.wprint_d, d); });
		all_equal<Text<char16_t>>(c, "print float as char16_t", [&](const Build& b) { return printed<char16_t>(b.u16print_f, f); });
		all_equal<Text<char32_t>>(c, "print double as char32_t", [&](const Build& b) { return printed<char32_t>(b.u32print_d, d); });
		all_equal<Text<char>>(c, "to_string", [&](const Build& b) { return printed<char>(b.string_d, d); });
		all_equal<Number>(c, "buffer size", [&](const Build& b) { return Number{b.sizes(static_cast<int>(oracle::bits(d) & 1))}; });
		c.label("wide");
	}
	c.nontrivial(mix(oracle::bits(d)) ^ oracle::bits(f));
}

int main(int argc, char** argv)
{
	const char* list = std::getenv("VERIF_BUILDS");
	if (!list) internal_error("VERIF_BUILDS is not set");
	load(list);
	std::vector<Prop> p = {
		{"parsing", 700000, 15000000, parsing, nullptr},
		{"printing", 3000000, 20000000, printing, nullptr},
	};
	return run(argc, argv, p,
		"generated texts (incl. bytes beyond ASCII) and values, each converted by " + std::to_string(builds.size()) + " builds of the library, all of which have to agree on value, status, length, characters and need of the fallback; non-trivial: every distinct input",
		{"builds on this machine (x86-64 Linux) with the installed GCC and Clang only"});
}
