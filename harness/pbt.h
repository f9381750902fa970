// Small choice-sequence property-based testing engine.
//
// A case is a function of a sequence of bounded choices drawn from `Ctx`. In a
// run, case number i of a property draws from a generator seeded by
// hash(VERIF_SEED, property, i), so that the set of cases is a pure function of
// the seed. Cases run in forked workers: a crash, an assertion, a sanitizer
// report or a hang (CPU time) of the code under test is a failure of the case
// that caused it. A failing choice sequence is shrunk (in forked children, too)
// and written to a replay file; the replay has to fail three times before the
// violation is reported.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef PBT_GUIDED
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*callback)(const uint8_t* data, size_t size));
#endif

namespace pbt
{

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i)
		h = (h ^ c[i]) * 1099511628211ull;
	return mix(h);
}

inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

inline double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Failure { std::string msg; };

/** The check itself is broken (not the code under test). */
[[noreturn]] inline void internal_error(const std::string& msg)
{
	std::fprintf(stderr, "internal error of the check: %s\n", msg.c_str());
	std::fflush(stderr);
	_exit(78);
}

constexpr int max_labels = 96;
constexpr int max_samples = 6; // per worker and property
constexpr size_t sample_len = 600;
constexpr size_t mirror_cap = 1 << 20;

struct WorkerShm
{
	std::atomic<uint64_t> current;  // index being evaluated + 1
	std::atomic<uint64_t> evaluated;
	std::atomic<uint64_t> nontrivial_new;
	std::atomic<uint64_t> nontrivial;
	std::atomic<int> failed;        // 1: property failure reported
	uint64_t failed_index;
	char msg[4096];
	struct { char name[48]; uint64_t count; } labels[max_labels];
	int label_count;
	char samples[max_samples][sample_len];
	int sample_count;
};

struct Shm
{
	std::atomic<uint64_t> next;
	std::atomic<int> stop;
	std::atomic<int> capped;
	WorkerShm w[64];
	char single_msg[8192];
	char single_shown[65536];
};

struct Globals
{
	uint64_t seed = 1;
	bool thorough = false;
	std::string id, out, replay_dir, replay;
	int jobs = 8;
	double cap = 1e9;
	double scale = 1;
	Shm* shm = nullptr;
	std::atomic<uint64_t>* bitmap = nullptr;
	uint64_t bitmap_bits = 0;
};
inline Globals& G() { static Globals g; return g; }

class Ctx
{
public:
	// generation
	explicit Ctx(uint64_t seed) : m_state(seed), m_replay(nullptr) { }
	explicit Ctx(const std::vector<uint64_t>& choices) : m_state(0), m_replay(&choices) { }
	/** Choices out of bytes; zeros when they run out. */
	Ctx(const uint8_t* data, size_t n) : m_state(0), m_replay(nullptr), m_data(data), m_left(n) { }

	/** Uniform choice out of [0, n). */
	uint64_t draw(uint64_t n)
	{
		uint64_t v;
		if (m_replay)
			v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
		else if (m_data)
		{
			const size_t w = width(n);
			v = 0;
			for (size_t i = 0; i < w && m_left; ++i, --m_left)
				v |= static_cast<uint64_t>(*m_data++) << 8 * i;
		}
		else
		{
			m_state += 0x9e3779b97f4a7c15ull;
			v = mix(m_state);
		}
		++m_pos;
		if (n)
			v = (m_replay && v < n) ? v : v % n;
		m_rec.push_back(v);
		if (m_bytes)
			for (size_t i = 0; i < width(n); ++i)
				m_bytes->push_back(static_cast<uint8_t>(v >> 8 * i));
		if (m_mirror && m_rec.size() < mirror_cap)
		{
			m_mirror[m_rec.size()] = v;
			m_mirror[0] = m_rec.size();
		}
		return v;
	}
	/** Number of bytes which hold a choice out of [0, n). */
	static size_t width(uint64_t n) { return n == 0 || n > 0x100000000ull ? 8 : n > 0x10000 ? 4 : n > 0x100 ? 2 : n > 1 ? 1 : 0; }
	std::vector<uint8_t>* m_bytes = nullptr;  // the choices as bytes
	uint64_t* m_mirror = nullptr;             // the choices in memory which outlives a crash
	uint64_t bits() { return draw(0); }
	int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 => false
	template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
	template<typename T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
	/** Size with small values being much more likely. */
	size_t size(size_t max)
	{
		const size_t r = draw(4);
		const size_t m = r == 0 ? std::min<size_t>(max, 4) : r == 1 ? std::min<size_t>(max, 16) : r == 2 ? std::min<size_t>(max, 64) : max;
		return draw(m + 1);
	}

	// reporting
	[[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
	void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
	void label(const char* name)
	{
		for (int i = 0; i < m_label_count; ++i)
			if (m_labels[i] == name)
				return;
		if (m_label_count < 16)
			m_labels[m_label_count++] = name;
	}
	/** Marks the case as non-trivial, identified by the fingerprint. */
	void nontrivial(uint64_t fingerprint) { m_nontrivial = true; m_fingerprint = fingerprint; }
	/** Describes the input; evaluated only for samples and failures. */
	template<typename F> void show(F&& f) { if (want_show) shown += f(); }
	void show_text(const std::string& s) { if (want_show) shown += s; }

	bool want_show = false;
	std::string shown;

	const std::vector<uint64_t>& record() const { return m_rec; }
	void reset(uint64_t seed)
	{
		m_state = seed; m_pos = 0; m_rec.clear(); m_nontrivial = false;
		m_label_count = 0; shown.clear(); want_show = false;
	}

	uint64_t m_fingerprint = 0;
	bool m_nontrivial = false;
	const char* m_labels[16];
	int m_label_count = 0;

private:
	uint64_t m_state;
	const std::vector<uint64_t>* m_replay;
	size_t m_pos = 0;
	std::vector<uint64_t> m_rec;
	const uint8_t* m_data = nullptr;
	size_t m_left = 0;
};

struct Stats
{
	uint64_t evaluated = 0, nontrivial = 0, distinct = 0;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	bool capped = false;
	double wall = 0;
};

struct Prop
{
	std::string name;
	uint64_t quick, thorough;       // number of cases
	std::function<void(Ctx&)> fn;
	// aggregate judgement over all the cases (rates); empty string: fine
	std::function<std::string(const Stats&)> judge;
};

inline std::string json_escape(const std::string& s)
{
	std::string r;
	char b[8];
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

/** Printable form of arbitrary bytes. */
inline std::string quoted(const std::string& s, size_t limit = 4000)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s.substr(0, limit))
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	r += "\"";
	if (s.size() > limit) r += "...(" + std::to_string(s.size()) + " chars)";
	return r;
}

inline uint64_t case_seed(const Prop& p, uint64_t index)
{
	return mix(mix(G().seed ^ hash_str(G().id + "/" + p.name)) + index * 0xd1342543de82ef95ull);
}

inline std::atomic<uint64_t>*& watched() { static std::atomic<uint64_t>* w = nullptr; return w; }
inline void on_tick(int)
{
	// CPU time consumed by one and the same case
	static uint64_t last = ~0ull;
	static int ticks = 0;
	const uint64_t c = watched() ? watched()->load() : 1;
	if (c == last)
	{
		if (++ticks >= 20)
			_exit(77);
	}
	else
	{
		last = c;
		ticks = 0;
	}
}
inline void watch(std::atomic<uint64_t>* w)
{
	watched() = w;
	struct sigaction sa;
	std::memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, nullptr);
	itimerval t;
	t.it_interval.tv_sec = 1; t.it_interval.tv_usec = 0;
	t.it_value = t.it_interval;
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline void worker(const Prop& p, uint64_t total, int id, double deadline)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	WorkerShm& w = G().shm->w[id];
	watch(&w.current);
	Ctx c(uint64_t(0));
	constexpr uint64_t block = 64;
	std::map<const char*, int> slots;
	int samples_taken = 0;
	const uint64_t salt = hash_str(p.name); // the bitmap is shared by all the properties of a check
	for (;;)
	{
		const uint64_t start = G().shm->next.fetch_add(total < 8 * block * 8 ? 1 : block);
		const uint64_t stop = std::min(total, start + (total < 8 * block * 8 ? 1 : block));
		if (start >= total || G().shm->stop.load())
			break;
		if (now() > deadline)
		{
			G().shm->capped = 1;
			break;
		}
		for (uint64_t i = start; i < stop; ++i)
		{
			w.current.store(i + 1);
			c.reset(case_seed(p, i));
			c.want_show = samples_taken < max_samples;
			std::string msg;
			bool bad = false;
			try
			{
				p.fn(c);
			}
			catch (const Failure& f)
			{
				bad = true;
				msg = f.msg;
			}
			catch (const std::exception& e)
			{
				bad = true;
				msg = std::string("unexpected exception: ") + e.what();
			}
			w.evaluated.fetch_add(1, std::memory_order_relaxed);
			if (bad)
			{
				w.failed_index = i;
				std::snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
				w.failed = 1;
				G().shm->stop = 1;
				_exit(42);
			}
			for (int l = 0; l < c.m_label_count; ++l)
			{
				auto it = slots.find(c.m_labels[l]);
				if (it == slots.end())
				{
					if (w.label_count >= max_labels)
						continue;
					std::snprintf(w.labels[w.label_count].name, 48, "%s", c.m_labels[l]);
					it = slots.emplace(c.m_labels[l], w.label_count++).first;
				}
				++w.labels[it->second].count;
			}
			if (c.m_nontrivial)
			{
				w.nontrivial.fetch_add(1, std::memory_order_relaxed);
				const uint64_t b = mix(c.m_fingerprint ^ salt) & (G().bitmap_bits - 1);
				const uint64_t m = uint64_t(1) << (b & 63);
				if (!(G().bitmap[b >> 6].fetch_or(m, std::memory_order_relaxed) & m))
					w.nontrivial_new.fetch_add(1, std::memory_order_relaxed);
				if (c.want_show && !c.shown.empty() && (i & 7) == 0)
				{
					std::snprintf(w.samples[w.sample_count++], sample_len, "%s", c.shown.c_str());
					++samples_taken;
				}
			}
		}
	}
	_exit(0);
}

struct Outcome { bool failed; std::string msg, shown; std::vector<uint64_t> choices; };

/** Runs a single case in a child process; with `from`, the cases [from, index)
 * of the run are evaluated before it in the same process. */
inline Outcome run_single(const Prop& p, const std::vector<uint64_t>* choices, uint64_t index, bool verbose, uint64_t from = ~0ull)
{
	Outcome o;
	std::fflush(stdout); std::fflush(stderr);
	// choices made are passed back through a shared mapping
	constexpr size_t cap = 1 << 20;
	static uint64_t* rec = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	rec[0] = 0;
	G().shm->single_msg[0] = 0;
	G().shm->single_shown[0] = 0;
	char errfile[] = "/tmp/pbt_err_XXXXXX";
	const int efd = mkstemp(errfile);
	const pid_t pid = fork();
	if (pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (efd >= 0) dup2(efd, 2);
		watch(nullptr);
		for (; from < index; ++from)
		{
			Ctx before(case_seed(p, from));
			try { p.fn(before); }
			catch (const Failure&) { }
		}
		std::unique_ptr<Ctx> c(choices ? new Ctx(*choices) : new Ctx(case_seed(p, index)));
		c->want_show = true;
		int code = 0;
		struct Saver
		{
			Ctx& c;
			void save()
			{
				const auto& r = c.record();
				const size_t n = std::min(r.size(), cap - 1);
				std::memcpy(rec + 1, r.data(), n * 8);
				rec[0] = n;
				std::snprintf(G().shm->single_shown, sizeof G().shm->single_shown, "%s", c.shown.c_str());
			}
		} saver{*c};
		try
		{
			p.fn(*c);
		}
		catch (const Failure& f)
		{
			std::snprintf(G().shm->single_msg, sizeof G().shm->single_msg, "%s", f.msg.c_str());
			code = 42;
		}
		catch (const std::exception& e)
		{
			std::snprintf(G().shm->single_msg, sizeof G().shm->single_msg, "unexpected exception: %s", e.what());
			code = 42;
		}
		saver.save();
		_exit(code);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	o.failed = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78));
	o.msg = G().shm->single_msg;
	o.shown = G().shm->single_shown;
	o.choices.assign(rec + 1, rec + 1 + rec[0]);
	if (o.failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 42))
	{
		std::string err;
		if (efd >= 0)
		{
			char buf[3000];
			const ssize_t n = pread(efd, buf, sizeof buf, 0);
			if (n > 0) err.assign(buf, n);
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
			o.msg = "does not terminate (20 s of CPU time)";
		else if (WIFSIGNALED(st))
			o.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st));
		else
			o.msg = "process aborted with exit code " + std::to_string(WEXITSTATUS(st));
		o.msg += "\n" + err;
	}
	if (efd >= 0) { close(efd); unlink(errfile); }
	if (verbose)
		std::fprintf(stderr, "case: %s\n%s: %s\n", o.shown.c_str(), o.failed ? "FAILED" : "passed", o.msg.c_str());
	return o;
}

/** Choices of a case, obtained without running the code under test to the end:
 * the generator is the same function, so on a crash the record is lost; choices
 * are then regenerated from the seed lazily by the replay of the raw stream. */
inline std::vector<uint64_t> raw_choices(const Prop& p, uint64_t index, size_t n)
{
	std::vector<uint64_t> r;
	uint64_t state = case_seed(p, index);
	for (size_t i = 0; i < n; ++i)
	{
		state += 0x9e3779b97f4a7c15ull;
		r.push_back(mix(state));
	}
	return r;
}

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, int& attempts)
{
	const double deadline = now() + 60;
	const int budget = 4000;
	auto fails = [&](const std::vector<uint64_t>& v) -> bool
	{
		if (attempts >= budget || now() > deadline)
			return false;
		++attempts;
		return run_single(p, &v, 0, false).failed;
	};
	bool progress = true;
	while (progress && attempts < budget && now() < deadline)
	{
		progress = false;
		for (size_t len = std::min<size_t>(best.size(), 64); len >= 1; len /= 2)
			for (size_t i = best.size(); i-- > 0 && attempts < budget;)
			{
				if (i + len > best.size())
					continue;
				std::vector<uint64_t> v(best);
				v.erase(v.begin() + i, v.begin() + i + len);
				if (fails(v)) { best = v; progress = true; }
			}
		for (size_t len = 16; len >= 1; len /= 2)
			for (size_t i = 0; i + len <= best.size() && attempts < budget; i += len)
			{
				std::vector<uint64_t> v(best);
				bool zero = true;
				for (size_t k = i; k < i + len; ++k) { zero &= v[k] == 0; v[k] = 0; }
				if (!zero && fails(v)) { best = v; progress = true; }
			}
		for (size_t i = 0; i < best.size() && attempts < budget; ++i)
		{
			uint64_t lo = 0; // fails at best[i]; look for the smallest failing one
			int steps = 0;
			while (lo < best[i] && steps++ < 24 && attempts < budget)
			{
				std::vector<uint64_t> v(best);
				v[i] = lo + (best[i] - lo) / 2;
				if (fails(v)) { best = v; progress = true; }
				else lo = v[i] + 1;
			}
		}
	}
	return best;
}

inline Stats collect()
{
	Stats s;
	for (int i = 0; i < G().jobs; ++i)
	{
		const WorkerShm& w = G().shm->w[i];
		s.evaluated += w.evaluated;
		s.nontrivial += w.nontrivial;
		s.distinct += w.nontrivial_new;
		for (int l = 0; l < w.label_count; ++l)
			s.labels[w.labels[l].name] += w.labels[l].count;
		for (int k = 0; k < w.sample_count && s.samples.size() < 8; ++k)
			if (k < 2)
				s.samples.push_back(w.samples[k]);
	}
	s.capped = G().shm->capped;
	return s;
}

inline std::string write_replay(const Prop& p, uint64_t index, const Outcome& o, uint64_t from = ~0ull)
{
	mkdir(G().replay_dir.c_str(), 0777);
	const std::string path = G().replay_dir + "/" + G().id + ".json";
	std::ofstream f(path);
	f << "{\n \"property\": \"" << G().id << "\",\n \"prop\": \"" << p.name << "\",\n \"seed\": " << G().seed
	  << ",\n \"index\": " << index;
	if (from != ~0ull)
		f << ",\n \"from\": " << from;
	f << ",\n \"input\": \"" << json_escape(o.shown) << "\",\n \"message\": \"" << json_escape(o.msg)
	  << "\",\n \"choices\": [";
	for (size_t i = 0; i < o.choices.size(); ++i)
		f << (i ? "," : "") << o.choices[i];
	f << "]\n}\n";
	return path;
}

inline int violation(const Prop& p, uint64_t index)
{
	Outcome o = run_single(p, nullptr, index, false);
	std::vector<uint64_t> choices = o.choices;
	if (o.failed && choices.empty()) // crashed before the record could be saved
		choices = raw_choices(p, index, 20000);
	int attempts = 0;
	if (o.failed)
	{
		Outcome again = run_single(p, &choices, 0, false);
		if (again.failed)
		{
			if (choices.size() == 20000)
			{
				// cut the unused part first
				size_t lo = 0, hi = choices.size();
				while (lo < hi)
				{
					const size_t mid = (lo + hi) / 2;
					std::vector<uint64_t> v(choices.begin(), choices.begin() + mid);
					if (run_single(p, &v, 0, false).failed) { hi = mid; choices = v; } else lo = mid + 1;
				}
			}
			choices = shrink(p, choices, attempts);
		}
	}
	int failures = 0;
	Outcome last = o;
	for (int i = 0; i < 3; ++i)
	{
		Outcome r = run_single(p, &choices, 0, false);
		if (r.failed) { ++failures; last = r; last.choices = choices; }
	}
	uint64_t from = ~0ull;
	if (failures < 3)
		std::fprintf(stderr, "%s/%s: case %llu failed in the run, but %d of 3 replays failed\n", G().id.c_str(), p.name.c_str(), (unsigned long long)index, failures);
	if (failures == 0)
	{
		// it may depend on the cases before it
		for (uint64_t back : {uint64_t(63), uint64_t(4096), uint64_t(300000)})
		{
			const uint64_t start = index > back ? index - back : 0;
			failures = 0;
			for (int i = 0; i < 3; ++i)
			{
				Outcome r = run_single(p, nullptr, index, false, start);
				if (!r.failed) break;
				++failures;
				last = r;
			}
			if (failures == 3)
			{
				from = start;
				last.msg += " (only after the preceding cases " + std::to_string(from) + "..)";
				break;
			}
			failures = 0;
		}
		if (failures == 0)
			return 4;
	}
	const std::string path = write_replay(p, index, last, from);
	std::printf("%s/%s: case %llu fails (%d shrinking attempts)\n input: %s\n %s\n", G().id.c_str(), p.name.c_str(), (unsigned long long)index, attempts, last.shown.c_str(), last.msg.c_str());
	std::printf("VIOLATION property=%s replay=%s\n", G().id.c_str(), path.c_str());
	std::fflush(stdout);
	return 1;
}

/** Shrinks and reports choices which came from elsewhere; 0 if they pass. */
inline int found_violation(const Prop& p, std::vector<uint64_t> choices)
{
	if (!run_single(p, &choices, 0, false).failed)
		return 0;
	int attempts = 0, failures = 0;
	choices = shrink(p, choices, attempts);
	Outcome last;
	for (int i = 0; i < 3; ++i)
	{
		Outcome r = run_single(p, &choices, 0, false);
		if (r.failed) { ++failures; last = r; last.choices = choices; }
	}
	if (!failures)
		return 4;
	const std::string path = write_replay(p, 0, last);
	std::printf("%s/%s: found by the guided search (%d shrinking attempts)\n input: %s\n %s\n", G().id.c_str(), p.name.c_str(), attempts, last.shown.c_str(), last.msg.c_str());
	std::printf("VIOLATION property=%s replay=%s\n", G().id.c_str(), path.c_str());
	std::fflush(stdout);
	return 1;
}

inline int run_prop_once(const Prop& p, Stats& stats, double deadline)
{
	Shm& shm = *G().shm;
	std::memset(static_cast<void*>(&shm), 0, sizeof shm);
	const uint64_t total = std::max<uint64_t>(1, static_cast<uint64_t>((G().thorough ? p.thorough : p.quick) * G().scale));
	const double t0 = now();
	int errfds[64];
	std::fflush(stdout);
	std::vector<pid_t> pids;
	for (int i = 0; i < G().jobs; ++i)
	{
		char errfile[] = "/tmp/pbt_w_XXXXXX";
		errfds[i] = mkstemp(errfile);
		unlink(errfile);
		const pid_t pid = fork();
		if (pid == 0)
		{
			dup2(errfds[i], 2);
			worker(p, total, i, deadline);
		}
		pids.push_back(pid);
	}
	std::vector<uint64_t> bad;
	bool infra = false;
	for (int i = 0; i < G().jobs; ++i)
	{
		int st = 0;
		waitpid(pids[i], &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
			continue;
		WorkerShm& w = shm.w[i];
		if (WIFEXITED(st) && WEXITSTATUS(st) == 78)
		{
			infra = true;
			shm.stop = 1;
			char buf[2000] = "";
			const ssize_t n = pread(errfds[i], buf, sizeof buf - 1, 0);
			std::fprintf(stderr, "%.*s", static_cast<int>(n > 0 ? n : 0), buf);
		}
		else if (w.failed)
			bad.push_back(w.failed_index);
		else
		{
			shm.stop = 1;
			if (w.current)
				bad.push_back(w.current - 1);
			else
				infra = true;
			std::fprintf(stderr, "%s/%s: worker ended abnormally (status %x) at case %llu\n", G().id.c_str(), p.name.c_str(), st, (unsigned long long)(w.current - 1));
		}
	}
	for (int i = 0; i < G().jobs; ++i)
		close(errfds[i]);
	stats = collect();
	stats.wall = now() - t0;
	if (!bad.empty())
	{
		std::sort(bad.begin(), bad.end());
		int r = 3;
		for (uint64_t b : bad)
			if ((r = violation(p, b)) == 1)
				break;
		return r;
	}
	if (infra)
		return 3;
	if (p.judge)
	{
		const std::string verdict = p.judge(stats);
		if (!verdict.empty())
		{
			Outcome o;
			o.failed = true;
			o.msg = verdict;
			o.shown = "aggregate over " + std::to_string(stats.evaluated) + " cases of seed " + std::to_string(G().seed);
			const std::string path = write_replay(p, ~0ull, o);
			std::printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", G().id.c_str(), p.name.c_str(), verdict.c_str(), G().id.c_str(), path.c_str());
			return 1;
		}
	}
	return 0;
}

/** A failure, which doesn't reproduce on its own, has to come back in two more
 * runs over all the cases; the whole run is the replay then. */
inline int run_prop(const Prop& p, Stats& stats, double share, double deadline)
{
	int rc = run_prop_once(p, stats, share);
	for (int i = 0; i < 2 && rc == 4; ++i)
	{
		Stats again;
		if ((rc = run_prop_once(p, again, deadline)) == 0)
			return 3;
	}
	if (rc == 4)
	{
		Outcome o;
		o.failed = true;
		o.msg = "three of three runs over the same cases fail, each at a case which passes when it's evaluated alone";
		o.shown = "all the cases of seed " + std::to_string(G().seed);
		const std::string path = write_replay(p, ~0ull, o);
		std::printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", G().id.c_str(), p.name.c_str(), o.msg.c_str(), G().id.c_str(), path.c_str());
		std::fflush(stdout);
		rc = 1;
	}
	return rc;
}

#ifdef PBT_GUIDED
/** Coverage-guided search over the choices of a property: libFuzzer provides
 * the bytes they are made of. The choices of a failing case are left in a file. */
struct Guided
{
	const Prop* prop = nullptr;
	std::string dir;
	uint64_t* mirror = nullptr;
	uint64_t nontrivial = 0;
};
inline Guided& guided() { static Guided g; return g; }

[[noreturn]] inline void guided_failure(const std::string& msg)
{
	std::fprintf(stderr, "GUIDED FAILURE %s\n", msg.c_str());
	std::fflush(stderr);
	__builtin_trap();
}

inline void guided_case(Ctx& c)
{
	Guided& g = guided();
	g.mirror[0] = 0;
	c.m_mirror = g.mirror;
	try { g.prop->fn(c); }
	catch (const Failure& f) { guided_failure(f.msg); }
	catch (const std::exception& e) { guided_failure(std::string("unexpected exception: ") + e.what()); }
	g.nontrivial += c.m_nontrivial;
}

inline int guided_input(const uint8_t* data, size_t size)
{
	const uint8_t none = 0;
	Ctx c(size ? data : &none, size);
	guided_case(c);
	return 0;
}

/** Usage: --guided PROP DIR JOB RUNS, or --guided-one PROP DIR FILE. */
inline int run_guided(const std::vector<Prop>& props, const std::vector<std::string>& a, char* self)
{
	Guided& g = guided();
	g.prop = &props.at(std::stoul(a.at(0)));
	g.dir = a.at(1);
	const std::string path = g.dir + "/choices";
	const int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
	if (fd < 0 || ftruncate(fd, mirror_cap * 8))
		internal_error("no file for the choices");
	g.mirror = static_cast<uint64_t*>(mmap(nullptr, mirror_cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	if (a.size() == 3)
	{
		std::ifstream f(a[2], std::ios::binary);
		const std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		guided_input(reinterpret_cast<const uint8_t*>(s.data()), s.size());
		return 0;
	}
	const uint64_t job = std::stoull(a.at(2));
	if (g.prop->judge || g.prop->quick < 50000)
	{
		std::fprintf(stderr, "GUIDED SKIPPED: %s\n", g.prop->judge ? "judged over all the cases" : "many evaluations in a case");
		return 0;
	}
	// the corpus starts with random cases
	size_t longest = 64;
	for (int n = 0; n < 240; ++n)
	{
		std::vector<uint8_t> bytes;
		Ctx c(mix(case_seed(*g.prop, n) + 0x6775696465640000ull + job));
		c.m_bytes = &bytes;
		guided_case(c);
		if (bytes.size() > 4096)
			continue;
		longest = std::max(longest, bytes.size());
		std::ofstream f(g.dir + "/corpus/r" + std::to_string(n), std::ios::binary);
		f.write(reinterpret_cast<const char*>(bytes.data()), bytes.size());
	}
	std::vector<std::string> args = {self, "-seed=" + std::to_string(mix(G().seed * 1000 + job) % 2000000000 + 1), "-runs=" + a.at(3), "-max_len=" + std::to_string(longest),
		"-use_value_profile=" + std::to_string(job % 2), "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=1", "-len_control=0", "-max_total_time=" + a.at(4), "-artifact_prefix=" + g.dir + "/", g.dir + "/corpus"};
	std::vector<char*> v;
	for (auto& x : args)
		v.push_back(&x[0]);
	int argc = static_cast<int>(v.size());
	v.push_back(nullptr);
	char** argv = v.data();
	std::atexit([]{ std::fprintf(stderr, "GUIDED NONTRIVIAL: %llu\n", (unsigned long long)guided().nontrivial); });
	return LLVMFuzzerRunDriver(&argc, &argv, guided_input);
}
#endif

inline int run(int argc, char** argv, const std::vector<Prop>& props, const std::string& rule, const std::vector<std::string>& assumptions = {}, bool exhaustive = false)
{
	Globals& g = G();
	std::string found;
	for (int i = 1; i < argc; ++i)
	{
		const std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") g.seed = std::strtoull(next().c_str(), nullptr, 10);
		else if (a == "--tier") g.thorough = next() == "thorough";
		else if (a == "--id") g.id = next();
		else if (a == "--out") g.out = next();
		else if (a == "--replay") g.replay = next();
		else if (a == "--replay-dir") g.replay_dir = next();
		else if (a == "--jobs") g.jobs = std::atoi(next().c_str());
		else if (a == "--cap") g.cap = std::atof(next().c_str());
		else if (a == "--scale") g.scale = std::atof(next().c_str());
#ifdef PBT_GUIDED
		else if (a == "--guided")
			return run_guided(props, std::vector<std::string>(argv + i + 1, argv + argc), argv[0]);
#endif
		else if (a == "--props")
		{
			for (const Prop& p : props)
				std::printf("%s\n", p.name.c_str());
			return 0;
		}
		else if (a == "--found") found = next();
	}
	g.jobs = std::max(1, std::min(g.jobs, 64));
	g.shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	g.bitmap_bits = uint64_t(1) << 30;
	g.bitmap = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, g.bitmap_bits / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

	if (!found.empty()) // "prop\n" and the choices found by a guided search: shrink and report them
	{
		std::ifstream f(found);
		std::string name;
		std::getline(f, name);
		std::vector<uint64_t> choices;
		for (uint64_t v; f >> v;)
			choices.push_back(v);
		for (const Prop& p : props)
			if (p.name == name)
				return found_violation(p, choices);
		return 2;
	}

	if (!g.replay.empty())
	{
		std::ifstream f(g.replay);
		std::stringstream ss;
		ss << f.rdbuf();
		const std::string s = ss.str();
		auto field = [&](const std::string& k) -> std::string
		{
			size_t p = s.find("\"" + k + "\": \"");
			if (p == std::string::npos) return "";
			p += k.size() + 5;
			return s.substr(p, s.find('"', p) - p);
		};
		const std::string name = field("prop");
		std::vector<uint64_t> choices;
		size_t p = s.find("\"choices\": [");
		if (p != std::string::npos)
			for (p += 12; p < s.size() && s[p] != ']';)
			{
				char* e;
				choices.push_back(std::strtoull(s.c_str() + p, &e, 10));
				p = e - s.c_str();
				if (s[p] == ',') ++p;
			}
		auto number = [&](const std::string& k, uint64_t def) -> uint64_t
		{
			const size_t p = s.find("\"" + k + "\": ");
			return p == std::string::npos ? def : std::strtoull(s.c_str() + p + k.size() + 4, nullptr, 10);
		};
		g.seed = number("seed", g.seed);
		const uint64_t from = number("from", ~0ull), index = number("index", 0);
		for (const Prop& pr : props)
			if (pr.name == name)
			{
				if (index == ~0ull) // verdict over the whole run
				{
					Stats st;
					g.replay_dir += "/again";
					const int rc = run_prop_once(pr, st, now() + g.cap);
				if (rc == 4)
					std::printf("VIOLATION property=%s replay=%s\n", g.id.c_str(), g.replay.c_str());
				return rc ? 1 : 0;
				}
				const Outcome o = from == ~0ull ? run_single(pr, &choices, 0, true) : run_single(pr, nullptr, index, true, from);
				if (o.failed)
					std::printf("VIOLATION property=%s replay=%s\n", g.id.c_str(), g.replay.c_str());
				return o.failed ? 1 : 0;
			}
		std::fprintf(stderr, "no property '%s' in this harness\n", name.c_str());
		return 2;
	}

	const double t0 = now();
	int rc = 0;
	Stats all;
	std::ostringstream parts;
	// where the time doesn't suffice, every part gets its share, so that none is left out
	double weight = 0;
	auto weight_of = [&](const Prop& p) { return std::sqrt(static_cast<double>(g.thorough ? p.thorough : p.quick)) + 1; };
	for (const Prop& p : props)
		weight += weight_of(p);
	for (const Prop& p : props)
	{
		Stats s;
		const double left = t0 + g.cap - now(), w = weight_of(p) / weight;
		weight -= weight_of(p);
		rc = run_prop(p, s, std::min(t0 + g.cap, now() + std::max(left * w * (g.thorough ? 1 : 1.5), 1.0)), t0 + g.cap);
		all.evaluated += s.evaluated;
		all.nontrivial += s.nontrivial;
		all.distinct += s.distinct;
		all.capped |= s.capped;
		for (size_t k = 0; k < s.samples.size() && k < 4; ++k)
			all.samples.push_back(p.name + ": " + s.samples[k]);
		parts << (parts.tellp() ? "," : "") << "{\"prop\":\"" << json_escape(p.name) << "\",\"evaluations\":" << s.evaluated
		      << ",\"nontrivial\":" << s.nontrivial << ",\"distinct_nontrivial\":" << s.distinct << ",\"wall_s\":" << s.wall << ",\"classes\":{";
		bool first = true;
		for (auto& l : s.labels)
		{
			parts << (first ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second;
			first = false;
		}
		parts << "}}";
		std::fprintf(stderr, "%s/%s: %llu cases, %llu distinct non-trivial, %.1f s%s -> %d\n", g.id.c_str(), p.name.c_str(), (unsigned long long)s.evaluated, (unsigned long long)s.distinct, s.wall, s.capped ? " (capped)" : "", rc);
		if (rc)
			break;
	}
	if (!g.out.empty())
	{
		std::ofstream f(g.out);
		f << "{\"evaluations\":" << all.evaluated << ",\"distinct_nontrivial\":" << all.distinct << ",\"nontrivial_total\":" << all.nontrivial
		  << ",\"rule\":\"" << json_escape(rule) << "\",\"time_capped\":" << (all.capped ? "true" : "false")
		  << ",\"exhaustive\":" << (exhaustive && !all.capped ? "true" : "false") << ",\"samples\":[";
		for (size_t i = 0; i < all.samples.size(); ++i)
			f << (i ? "," : "") << "\"" << json_escape(all.samples[i]) << "\"";
		f << "],\"parts\":[" << parts.str() << "],\"assumptions\":[";
		for (size_t i = 0; i < assumptions.size(); ++i)
			f << (i ? "," : "") << "\"" << json_escape(assumptions[i]) << "\"";
		f << "],\"wall_s\":" << now() - t0 << ",\"rc\":" << rc << "}\n";
	}
	return rc;
}

}

#endif
