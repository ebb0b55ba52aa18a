#pragma once
#include "pbt.h"
#include "vl.h"
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <type_traits>
#include <algorithm>

// true if f reported an error through the library's error channel
template<typename F>
inline bool ThrowsError(F&& f)
{
	try { f(); }
	catch (const vl::Error&) { return true; }
	return false;
}

// characters: mostly from a tiny alphabet so that collisions happen, sometimes anything
template<typename T>
inline T GenChar(pbt::Ctx& c, bool allowZero = false)
{
	T r;
	switch (c.draw(8))
	{
	case 0: case 1: case 2: case 3: r = (T)('a' + c.draw(3)); break;
	case 4: r = (T)('0' + c.draw(10)); break;
	case 5: r = (T)(1 + c.draw(126)); break;
	case 6: { uint64_t v = c.draw(0x110000); r = (T)v; break; }
	default:
	{
		static const uint32_t special[] = { 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x7FFFFFFF, 0xFFFFFFFF, 0x80000000u, 0x8000 };
		r = (T)special[c.draw(sizeof(special) / sizeof(*special))];
	}
	}
	if (r == 0 && !allowZero) r = (T)'z';
	return r;
}

// sizes far beyond the usual ones: up to 600, up to 5000, or around a power of two
inline size_t GenLargeSize(pbt::Ctx& c, unsigned maxPower = 16)
{
	switch (c.draw(3))
	{
	case 0: return (size_t)c.draw(600);
	case 1: return (size_t)c.draw(maxPower > 12 ? 5000 : (1u << maxPower) + 2);
	default: { unsigned k = 6 + (unsigned)c.draw(maxPower - 5); return ((size_t)1 << k) + (size_t)c.draw(5) - 2; }
	}
}
// a size beyond what 15, 16 or 17 bits hold, for cases with a cheap oracle
inline size_t GenHugeSize(pbt::Ctx& c) { static const size_t base[] = { 32768, 65536, 100000, 131072 }; return base[c.draw(4)] + (size_t)c.draw(5) - 2; }

// an object for smart pointers: as a COM-style object it holds its own count
struct PtrObj { int v; int refs = 1; static inline int live = 0; PtrObj(int x) :v(x) { live++; } ~PtrObj() { live--; } void AddRef() { refs++; } void Release() { if (--refs == 0) delete this; } };
inline PtrObj* RawOf(PtrObj* p) { return p; }
template<typename T> PtrObj* RawOf(const T& p) { return p.Obj(); }
// while one of these is alive, GenStr often makes long texts
struct LargeTexts { static bool& On() { static bool on = false; return on; } LargeTexts() { On() = true; } ~LargeTexts() { On() = false; } };

template<typename T>
inline std::basic_string<T> GenLargeStr(pbt::Ctx& c, unsigned zeroPercent)
{
	size_t n = GenLargeSize(c); uint64_t kind = c.draw(4), state = c.draw(1000) * 2654435761u + 1;
	T pattern[5]; for (auto& x : pattern) x = GenChar<T>(c);
	std::basic_string<T> s(n, pattern[0]);
	if (kind) for (size_t i = 0; i < n; i++) { state = state * 6364136223846793005ull + 1442695040888963407ull; s[i] = kind == 1 ? pattern[i % 5] : kind == 2 ? pattern[(state >> 33) % 5] : (T)('a' + (state >> 33) % 26); }
	if (n && zeroPercent) switch (c.draw(6)) { case 3: s[0] = 0; break; case 4: s[c.draw(n)] = 0; break; case 5: s[n - 1] = 0; break; default:; }
	return s;
}

template<typename T>
inline std::basic_string<T> GenStr(pbt::Ctx& c, size_t max, unsigned zeroPercent = 0)
{
	if (LargeTexts::On() && c.chance(1, 3)) return GenLargeStr<T>(c, zeroPercent);
	std::basic_string<T> s;
	size_t n = c.size(max);
	for (size_t i = 0; i < n; i++)
	{
		if (zeroPercent && c.chance(zeroPercent, 100)) s.push_back(0);
		else s.push_back(GenChar<T>(c));
	}
	return s;
}

template<typename T>
inline std::string Show(const std::basic_string<T>& s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size() && i < 60; i++)
	{
		uint64_t v = (uint64_t)(std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char8_t>, unsigned char, T>>)s[i];
		if (v >= 32 && v < 127) r += (char)v;
		else { char b[20]; snprintf(b, sizeof(b), "\\x%llx;", (unsigned long long)v); r += b; }
	}
	r += s.size() > 60 ? "...\"" : "\"";
	return r;
}
