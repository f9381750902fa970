#include "lib.h"
using namespace pbt;

// Results of the inputs of the pool are calculated each in a pristine process.
constexpr int pool_size = 1536;
constexpr int text_max = 400;

struct Item
{
	int op;                 // 0..3: parse d/f as char/wchar_t, 4..5: print double/float
	char text[text_max];
	double d;
	float f;
	int root;               // where it was derived from
	// results
	double rd;
	float rf;
	int status;
	long long consumed;
	char out[64];
	long long len;
};

static Item* pool;
static std::vector<size_t> family[pool_size];

// Buffers and strings which live on between the operations, so that an input
// often has the address and the length of an earlier one.
static char kept_chars[text_max];
static wchar_t kept_wide[text_max];
static std::string* kept_string;
static std::wstring* kept_wstring;
static char kept_out[256];

enum route { fresh, kept, by_string, by_kept_string, no_end, routes };

template<typename F> static void parse_char(const char* text, int way, F& v, Item& r)
{
	if (way == by_string || way == by_kept_string)
	{
		std::string local;
		std::string& s = way == by_string ? local : *kept_string;
		s.assign(text);
		const auto p = floaxie::from_string<F>(s);
		v = p.value; r.status = static_cast<int>(p.status);
		return;
	}
	if (way == kept)
		text = std::strcpy(kept_chars, text);
	char* e = nullptr;
	const auto p = way == no_end ? floaxie::atof<F>(text, nullptr) : floaxie::atof<F>(text, &e);
	v = p.value; r.status = static_cast<int>(p.status);
	if (way != no_end) r.consumed = e ? e - text : -1;
}

template<typename F> static void parse_wide(const char* narrow, int way, F& v, Item& r)
{
	const auto w = gen::widen<wchar_t>(narrow);
	if (way == by_string || way == by_kept_string)
	{
		std::wstring local;
		std::wstring& s = way == by_string ? local : *kept_wstring;
		s.assign(w.c_str());
		const auto p = floaxie::from_string<F>(s);
		v = p.value; r.status = static_cast<int>(p.status);
		return;
	}
	const wchar_t* text = way == kept ? std::wmemcpy(kept_wide, w.c_str(), w.size() + 1) : w.c_str();
	wchar_t* e = nullptr;
	const auto p = way == no_end ? floaxie::atof<F>(text, nullptr) : floaxie::atof<F>(text, &e);
	v = p.value; r.status = static_cast<int>(p.status);
	if (way != no_end) r.consumed = e ? e - text : -1;
}

template<typename F> static void print_it(F v, int way, Item& r)
{
	std::string s;
	if (way == by_string || way == by_kept_string)
	{
		s = floaxie::to_string(v);
		if (way == by_kept_string)
		{
			const std::wstring w = floaxie::to_wstring(v);
			const std::u32string u = floaxie::to_u32string(v);
			if (std::string(w.begin(), w.end()) != s || std::string(u.begin(), u.end()) != s) s += " (other in wide)";
		}
		r.len = static_cast<long long>(s.size());
	}
	else
	{
		char local[256];
		char* b = way == kept ? kept_out : local;
		r.len = static_cast<long long>(floaxie::ftoa(v, b));
		s = b;
	}
	std::snprintf(r.out, sizeof r.out, "%s", s.c_str());
}

/** Leaves what the route doesn't tell as it is in the item. */
static void evaluate(const Item& i, Item& r, int way)
{
	r = i;
	switch (i.op)
	{
	case 0: parse_char(i.text, way, r.rd, r); break;
	case 1: parse_char(i.text, way, r.rf, r); break;
	case 2: parse_wide(i.text, way, r.rd, r); break;
	case 3: parse_wide(i.text, way, r.rf, r); break;
	case 4: print_it(i.d, way, r); break;
	default: print_it(i.f, way, r); break;
	}
}

static bool equal(const Item& a, const Item& b)
{
	return oracle::same(a.rd, b.rd) && oracle::same(a.rf, b.rf) && a.status == b.status && a.consumed == b.consumed && a.len == b.len && std::strcmp(a.out, b.out) == 0;
}

static std::string name(const Item& i, int way = fresh)
{
	static const char* ways[] = {"", " in a reused buffer", " by a new string", " by a reused string", " without an end pointer"};
	static const char* ops[] = {"atof<double>", "atof<float>", "atof<double>(wide)", "atof<float>(wide)", "ftoa<double>", "ftoa<float>"};
	return std::string(ops[i.op]) + "(" + (i.op < 4 ? quoted(i.text) : i.op == 4 ? oracle::describe(i.d) : oracle::describe(i.f)) + ")" + ways[way];
}

static std::string result(const Item& i)
{
	if (i.op >= 4) return std::string(i.out) + " length " + std::to_string(i.len);
	return (i.op % 2 == 0 ? oracle::describe(i.rd) : oracle::describe(i.rf)) + " " + oracle::status_name(static_cast<floaxie::conversion_status>(i.status)) + " consumed " + std::to_string(i.consumed);
}

static void relate(Ctx& o, Item& it)
{
	if (o.draw(3) == 0)
		it.op = static_cast<int>(o.draw(6));
	const size_t n = std::strlen(it.text);
	auto is_digit = [&](size_t p) { return it.text[p] >= '0' && it.text[p] <= '9'; };
	switch (o.draw(8))
	{
	case 0: // another digit
		for (int k = 0; k < 8 && n; ++k)
		{
			const size_t p = o.draw(n);
			if (!is_digit(p)) continue;
			it.text[p] = static_cast<char>('0' + o.draw(10));
			break;
		}
		break;
	case 1: if (it.text[0] == '-') it.text[0] = '+'; else if (it.text[0] == '+') it.text[0] = '-'; break;
	case 2: if (n) it.text[o.draw(n)] = 0; break;
	case 3: // two digits exchanged
		for (int k = 0; k < 8 && n; ++k)
		{
			const size_t p = o.draw(n), q = o.draw(n);
			if (!is_digit(p) || !is_digit(q) || it.text[p] == it.text[q]) continue;
			std::swap(it.text[p], it.text[q]);
			break;
		}
		break;
	case 4: // another number which is equal modulo a power of two, in as many digits
	{
		size_t p = 0;
		while (p < n && !is_digit(p)) ++p;
		size_t q = p;
		while (q < n && is_digit(q) && q - p < 18) ++q;
		if (q - p < 3) break;
		uint64_t v = 0, limit = 1;
		for (size_t k = p; k < q; ++k) { v = v * 10 + static_cast<uint64_t>(it.text[k] - '0'); limit *= 10; }
		const uint64_t step = uint64_t(1) << (8 * (1 + o.draw(6)));
		if (step >= limit) break;
		v = (v + step * (1 + o.draw(limit / step))) % limit;
		for (size_t k = q; k-- > p; v /= 10) it.text[k] = static_cast<char>('0' + v % 10);
		break;
	}
	case 5: // the point elsewhere
		for (size_t p = 1; p + 1 < n; ++p)
			if (it.text[p] == '.') { std::swap(it.text[p], it.text[o.draw(2) ? p + 1 : p - 1]); break; }
		break;
	case 6: // another exponent
		for (size_t p = n; p-- > 0;)
			if (is_digit(p)) { it.text[p] = static_cast<char>('0' + (it.text[p] - '0' + 1 + o.draw(9)) % 10); break; }
			else if (it.text[p] != 'e' && it.text[p] != 'E') break;
		break;
	default: break;
	}
	switch (o.draw(7))
	{
	case 0: it.d = -it.d; it.f = -it.f; break;
	case 1: it.d = std::nextafter(it.d, 0.0); it.f = std::nextafter(it.f, 0.0f); break;
	case 2: it.f = static_cast<float>(it.d); break;
	case 3: it.d *= 10; it.f *= 10; break;
	case 4: // another bit
		it.d = oracle::from_bits<double>(oracle::bits(it.d) ^ uint64_t(1) << o.draw(63));
		it.f = oracle::from_bits<float>(static_cast<uint32_t>(oracle::bits(it.f) ^ 1u << o.draw(31)));
		break;
	case 5: // the same low bits
	{
		const int k = 8 + static_cast<int>(o.draw(48)), l = 8 + static_cast<int>(o.draw(16));
		const uint64_t low = (uint64_t(1) << k) - 1;
		const uint32_t flow = (uint32_t(1) << l) - 1;
		it.d = oracle::from_bits<double>((oracle::bits(it.d) & low) | (o.bits() & ~low));
		it.f = oracle::from_bits<float>(static_cast<uint32_t>((oracle::bits(it.f) & flow) | (o.bits() & ~flow)));
		break;
	}
	default: // the same high bits
	{
		const int k = 8 + static_cast<int>(o.draw(48)), l = 4 + static_cast<int>(o.draw(18));
		const uint64_t low = (uint64_t(1) << k) - 1;
		const uint32_t flow = (uint32_t(1) << l) - 1;
		it.d = oracle::from_bits<double>((oracle::bits(it.d) & ~low) | (o.bits() & low));
		it.f = oracle::from_bits<float>(static_cast<uint32_t>((oracle::bits(it.f) & ~flow) | (o.bits() & flow)));
		break;
	}
	}
}

static void make_pool(uint64_t seed)
{
	pool = static_cast<Item*>(mmap(nullptr, sizeof(Item) * pool_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	int running = 0;
	for (int i = 0; i < pool_size; ++i)
	{
		if (running == 8) { int st; wait(&st); --running; }
		if (fork() == 0)
		{
			// some are close relatives of others
			Ctx o(mix(seed * 1000003 + static_cast<uint64_t>(i)) ^ 0x5851f42d4c957f2dull);
			const bool relative = i && o.draw(2) == 0;
			const uint64_t root = relative ? o.draw(static_cast<uint64_t>(i)) : static_cast<uint64_t>(i);
			Ctx c(mix(seed * 1000003 + root));
			Item it;
			std::memset(static_cast<void*>(&it), 0, sizeof it);
			it.root = static_cast<int>(root);
			it.op = static_cast<int>(c.draw(6));
			std::string s;
			switch (c.draw(6))
			{
			case 0: s = gen::special(c); break;
			case 1: s = gen::text<float>(c); break;
			case 2: s = gen::number<float>(c); break;
			case 3: // subnormal or out of range by the fallback: errno gets set
			{
				gen::Decimal d = c.draw(2) ? gen::halfway<double>(c, oracle::from_bits<double>(1 + c.size(9))) : gen::halfway<float>(c, oracle::from_bits<float>(static_cast<uint32_t>(1 + c.size(9))));
				s = gen::notation(c, d);
				break;
			}
			case 4: s = gen::notation(c, gen::halfway<double>(c, gen::positive<double>(c))); break;
			default: s = gen::number<double>(c); break;
			}
			if (s.size() >= text_max) s.resize(text_max - 1);
			std::snprintf(it.text, sizeof it.text, "%s", s.c_str());
			it.d = c.draw(12) ? gen::finite<double>(c) : c.draw(2) ? HUGE_VAL : std::nan("");
			it.f = c.draw(12) ? gen::finite<float>(c) : c.draw(2) ? -HUGE_VALF : std::nanf("");
			if (relative)
				relate(o, it);
			errno = 0;
			evaluate(it, pool[i], fresh);
			_exit(0);
		}
		++running;
	}
	while (running--) { int st; wait(&st); }
	for (int i = 0; i < pool_size; ++i)
		family[pool[i].root].push_back(static_cast<size_t>(i));
}

static void history(Ctx& c)
{
	std::string trace;
	const size_t n = 2 + c.draw(40);
	// a few inputs repeated often
	size_t few[4] = {0, 0, 0, 0};
	for (auto& f : few)
	{
		const std::vector<size_t>& kin = family[pool[few[0]].root];
		if (&f != few && c.draw(2)) f = kin[c.draw(kin.size())];
		else f = c.draw(pool_size);
	}
	int fallbacks = 0, disturbed = 0;
	const int kinds[] = {0, ERANGE, EINVAL, ENOMEM, ERANGE};
	errno = 0;
	for (size_t k = 0; k < n; ++k)
	{
		const auto what = c.draw(10);
		if (what == 9) // caller touches errno
		{
			const int e = c.pick(kinds);
			trace += "errno = " + std::to_string(e) + "; ";
			errno = e;
			++disturbed;
			continue;
		}
		if (what == 8) // the caller uses the C library itself, errno may be left set
		{
			static const char* t[] = {"1e400", "1e-400", "1.5", "4e-324"};
			const char* s = c.pick(t);
			trace += std::string("strtod(") + s + "); ";
			volatile double d = std::strtod(s, nullptr);
			(void)d;
			++disturbed;
			continue;
		}
		if (what == 7 && c.draw(2)) // a custom fallback which converts something itself, or throws
		{
			static const char* const doubtful = "0.500000000000000166533453693773481063544750213623046875";
			const size_t i = c.draw(3) ? few[c.draw(4)] : c.draw(pool_size);
			const Item& it = pool[i];
			const int way = static_cast<int>(c.draw(routes));
			const bool throws = c.draw(3) == 0;
			if (c.want_show) trace += "custom fallback" + std::string(throws ? " which throws" : "") + " using " + name(it, way) + "; ";
			Item r;
			bool called = false;
			char* e = nullptr;
			floaxie::value_and_status<double> v;
			try
			{
				v = floaxie::atof<double>(doubtful, &e, [&](const char* s, char** te) -> double
				{
					called = true;
					evaluate(it, r, way);
					errno = 0;
					if (throws) throw 7;
					return strtod_l(s, te, oracle::classic());
				});
			}
			catch (int) {}
			if (called && !equal(it, r))
				c.fail(trace + "-> inside: got " + result(r) + ", alone: " + result(it));
			if (!(called && throws) && (v.value != oracle::libc_parse<double>(doubtful) || v.status != floaxie::conversion_status::success || e != doubtful + std::strlen(doubtful)))
				c.fail(trace + "-> outside: " + oracle::describe(v.value) + " " + oracle::status_name(v.status));
			if (called) { c.label(throws ? "throwing fallback" : "nested conversion"); ++disturbed; }
			continue;
		}
		if (what == 7) // a custom fallback leaves errno set
		{
			const int leave = c.pick(kinds);
			const int before = errno;
			char* e;
			const auto r = floaxie::atof<double>("0.500000000000000166533453693773481063544750213623046875", &e, [&](const char* s, char** te) -> double { errno = leave; return strtod_l(s, te, oracle::classic()); });
			trace += "custom fallback with errno " + std::to_string(leave) + "; ";
			if (r.status == floaxie::conversion_status::success && errno != before && errno != leave)
				c.fail(trace + "-> errno is " + std::to_string(errno));
			errno = c.draw(2) ? leave : 0;
			++disturbed;
			continue;
		}
		const size_t i = c.draw(3) ? few[c.draw(4)] : c.draw(pool_size);
		const Item& it = pool[i];
		Item r;
		const int way = static_cast<int>(c.draw(routes));
		const int before = errno;
		evaluate(it, r, way);
		const int after = errno;
		if (c.want_show) trace += name(it, way) + "; ";
		if (!equal(it, r))
			c.fail(trace + name(it, way) + ": got " + result(r) + ", alone: " + result(it));
		if (it.op < 4 && r.status == 0 && after != before)
			c.fail(trace + name(it, way) + ": successful, but errno changed from " + std::to_string(before) + " to " + std::to_string(after));
		if (it.op >= 4 && after != before)
			c.fail(trace + name(it, way) + ": errno changed from " + std::to_string(before) + " to " + std::to_string(after));
		if (after == ERANGE) c.label("ERANGE pending");
		fallbacks += it.op < 4 && r.status != 0;
		errno = after;
	}
	c.show_text(trace);
	if (fallbacks) c.label("with out-of-range results");
	if (disturbed) c.label("errno disturbed by the caller");
	if (fallbacks || disturbed) c.nontrivial(hash_bytes(c.record().data(), c.record().size() * 8));
}

int main(int argc, char** argv)
{
	uint64_t seed = 1;
	for (int i = 1; i + 1 < argc; ++i)
	{
		if (std::string(argv[i]) == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
		if (std::string(argv[i]) == "--replay") // the pool belongs to the seed of the replay
		{
			std::ifstream f(argv[i + 1]);
			std::stringstream ss; ss << f.rdbuf();
			const size_t p = ss.str().find("\"seed\": ");
			if (p != std::string::npos) seed = std::strtoull(ss.str().c_str() + p + 8, nullptr, 10);
		}
	}
	kept_string = new std::string;
	kept_string->reserve(text_max);
	kept_wstring = new std::wstring;
	kept_wstring->reserve(text_max);
	make_pool(seed);
	std::vector<Prop> p = {
		{"history", 1500000, 60000000, history, nullptr},
	};
	return run(argc, argv, p,
		"sequences of 2..41 operations (parse/print of 1536 pooled inputs, errno set by the caller, C library calls, custom fallbacks leaving errno set, converting something themselves or throwing), each result compared with that of the same input in a pristine process; non-trivial: the sequence has an out-of-range result or a disturbed errno",
		{"the reference result of each pooled input is computed by the library itself in a process forked before any other use of it"});
}
