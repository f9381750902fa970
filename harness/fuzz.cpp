// libFuzzer target: the first byte selects the types, the rest is the text.
// With SEMANTIC, the result is compared with that of the reference recogniser
// and of the C library; otherwise only safety is watched (by the sanitizers).
#include "lib.h"
#include <memory>

static void report(const char* what, const std::string& s, const std::string& detail)
{
	std::fprintf(stderr, "FUZZ FAILURE %s for %s: %s\n", what, pbt::quoted(s).c_str(), detail.c_str());
	std::fflush(stderr);
	__builtin_trap();
}

template<typename F, typename C> static void one(const uint8_t* data, size_t size)
{
	std::basic_string<C> s;
	if (sizeof(C) == 1 || (size && data[0] & 1))
		for (size_t i = 0; i < size; ++i)
			s += static_cast<C>(static_cast<char>(data[i]) & (sizeof(C) == 1 ? 0xff : 0x7f));
	else // code units out of pairs of bytes
		for (size_t i = 0; i + 1 < size; i += 2)
			s += static_cast<C>(data[i] | data[i + 1] << 8);
	s = s.substr(0, s.find(C(0)));
	std::unique_ptr<C[]> b(new C[s.size() + 1]);
	std::memcpy(b.get(), s.c_str(), (s.size() + 1) * sizeof(C));
	errno = 0;
	const auto r = lib::parse<F>(static_cast<const C*>(b.get()));
	if (r.consumed < 0 || r.consumed > static_cast<long long>(s.size()))
		report("end pointer outside of the text", lib::show(s), r.str());
	if (std::memcmp(b.get(), s.c_str(), (s.size() + 1) * sizeof(C)) != 0)
		report("text modified", lib::show(s), "");
#ifdef SEMANTIC
	if (s.size() <= gen::text_limit)
	{
		const auto x = lib::expected(oracle::expect<F>(s.c_str()));
		if (!(r == x))
			report("wrong result", lib::show(s), "got " + r.str() + "; expected " + x.str());
	}
#endif
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	if (!size)
		return 0;
	const uint8_t t = *data++;
	--size;
	switch (t % 6)
	{
	case 0: one<double, char>(data, size); break;
	case 1: one<float, char>(data, size); break;
	case 2: one<double, wchar_t>(data, size); break;
	case 3: one<float, wchar_t>(data, size); break;
	case 4: one<double, char16_t>(data, size); break;
	default: one<float, char32_t>(data, size); break;
	}
	return 0;
}
