// C04: arbitrary code units never make a conversion read or write outside its buffers, loop, or disagree with itself;
// the well-formed prefix is always converted
#include "utf.h"
#include <optional>
#include <clocale>
#include <cstdlib>
using namespace vl;
using namespace vl::encoding;
using namespace utfm;
using pbt::Ctx;

PBT_RULE(C04,
	"Cases are arbitrary sequences of up to 40 non-zero code units (in the large cases after up to 65538 valid code points): valid text with injected faults (truncation, lone surrogates, stray continuation or lead bytes, out-of-range values), "
	"in exactly sized heap buffers, pushed through every conversion and reader, with every destination capacity from 0 to needed+3. Oracle: no sanitizer report, bounded output, "
	"size pass equals write pass, all conversion paths agree, the well-formed prefix is converted exactly, a truncated or unpaired unit stops the conversion, no output contains a surrogate code point. "
	"Non-trivial: the input is ill-formed.");

namespace
{
	// strict decoding of one code point; nullopt if ill-formed at this position
	std::optional<std::pair<uint32_t, size_t>> Dec(const std::vector<char8_t>& v, size_t i)
	{
		unsigned b = v[i];
		if (b < 0x80) return { { b, 1 } };
		if (b < 0xC2) return {};
		int n = b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : b < 0xFE ? 6 : 0;
		if (!n || i + n > v.size()) return {};
		uint32_t cp = b & ((1u << (7 - n)) - 1);
		for (int k = 1; k < n; k++) { if ((v[i + k] & 0xC0) != 0x80) return {}; cp = cp * 64 + (v[i + k] & 0x3F); }
		if (Enc<char8_t>::Put(cp).size() != (size_t)n || Surrogate(cp)) return {};
		return { { cp, n } };
	}
	std::optional<std::pair<uint32_t, size_t>> Dec16(unsigned u, bool hasNext, unsigned next)
	{
		if (u >= 0xD800 && u < 0xDC00)
		{
			if (!hasNext || next < 0xDC00 || next > 0xDFFF) return {};
			return { { 0x10000 + (u - 0xD800) * 0x400 + (next - 0xDC00), 2 } };
		}
		if (u >= 0xDC00 && u <= 0xDFFF) return {};
		return { { u, 1 } };
	}
	std::optional<std::pair<uint32_t, size_t>> Dec(const std::vector<char16_t>& v, size_t i)
	{
		return Dec16(v[i], i + 1 < v.size(), i + 1 < v.size() ? v[i + 1] : 0);
	}
	unsigned Sw(char16be_t x) { return ((unsigned)x.value % 256) * 256 + (unsigned)x.value / 256; }
	std::optional<std::pair<uint32_t, size_t>> Dec(const std::vector<char16be_t>& v, size_t i)
	{
		return Dec16(Sw(v[i]), i + 1 < v.size(), i + 1 < v.size() ? Sw(v[i + 1]) : 0);
	}
	template<typename T> std::optional<std::pair<uint32_t, size_t>> Dec32(const std::vector<T>& v, size_t i)
	{
		uint32_t cp = Val<T>(v[i]);
		if (Surrogate(cp)) return {};
		return { { cp, 1 } };
	}
	std::optional<std::pair<uint32_t, size_t>> Dec(const std::vector<char32_t>& v, size_t i) { return Dec32(v, i); }
	std::optional<std::pair<uint32_t, size_t>> Dec(const std::vector<wchar_t>& v, size_t i) { return Dec32(v, i); }

	template<typename To> constexpr uint32_t Limit() { return sizeof(To) == 1 ? 0x7FFFFFFF : sizeof(To) == 2 ? 0x10FFFF : 0xFFFFFFFF; }

	template<typename T> struct IsUtf32 { static constexpr bool value = std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t>; };

	template<typename T>
	std::vector<T> GenUnits(Ctx& c)
	{
		std::vector<T> v;
		if (LargeTexts::On()) v = Encode<T>(GenText(c, 3));
		size_t parts = 1 + c.size(12), limit = v.size() + 40;
		for (size_t p = 0; p < parts && v.size() < limit; p++)
		{
			switch (c.draw(6))
			{
			case 0: case 1: { auto e = Encode<T>(GenText(c, 3)); v.insert(v.end(), e.begin(), e.end()); break; }
			case 2: { auto e = Enc<T>::Put(GenCp(c)); size_t n = c.draw(e.size() + 1); v.insert(v.end(), e.begin(), e.begin() + n); break; }
			case 3:
				if constexpr (sizeof(T) == 2) { unsigned u = 0xD800 + (unsigned)c.draw(0x800); char16_t x = (char16_t)u; if constexpr (std::is_same_v<T, char16be_t>) x = (char16_t)((u % 256) * 256 + u / 256); v.push_back(T(x)); }
				else if constexpr (sizeof(T) == 1) v.push_back((T)(0x80 + c.draw(0x80)));
				else { static const uint32_t bad[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x1FFFFF, 0x200000 }; v.push_back((T)bad[c.draw(10)]); }
				break;
			case 4:
				if constexpr (sizeof(T) == 1)
				{
					// encoded surrogates, overlong forms, 0xFE and 0xFF
					static const std::vector<std::vector<int>> odd = { {0xED,0xA0,0x80},{0xED,0xBF,0xBF},{0xC0,0xAF},{0xE0,0x80,0xAF},{0xF0,0x8D,0xA0,0x80},{0xF8,0x80,0x8D,0xA0,0x80},{0xFC,0x80,0x80,0x8D,0xA0,0x80},{0xFE},{0xFF,0xFF},{0xF4,0x90,0x80,0x80},{0xFD,0xBF,0xBF,0xBF,0xBF,0xBF} };
					for (auto x : odd[c.draw(odd.size())]) v.push_back((T)x);
				}
				else v.push_back((T)(1 + c.draw(0xFFFF)));
				break;
			default: v.push_back((T)(char16_t)(1 + c.draw(sizeof(T) == 1 ? 0xFF : 0xFFFF)));
			}
		}
		for (auto& x : v) if (Val<T>(x) == 0) x = (T)'q';
		return v;
	}

	template<typename From, typename To, typename R>
	std::vector<To> Drain(Ctx& c, R& r, size_t bound, const char* what)
	{
		std::vector<To> out;
		while (true)
		{
			To x = r.Read();
			if (Val<To>(x) == 0) break;
			out.push_back(x);
			PBT_CHECK(out.size() <= bound, "%s %s->%s produces unbounded output", what, Enc<From>::name, Enc<To>::name);
		}
		// an overlong (ill-formed) UTF-8 zero decodes to a zero that does not end the stream, so this is asked of the other encodings only
		if (!std::is_same_v<From, char8_t>) for (int i = 0; i < 4; i++) { To x = r.Read(); PBT_CHECK(Val<To>(x) == 0, "%s %s->%s continues after it ended", what, Enc<From>::name, Enc<To>::name); }
		return out;
	}

	template<typename From, typename To>
	std::vector<To> Check(Ctx& c, const std::vector<From>& src, const U32& prefix, bool illformed, bool truncatedTail)
	{
		size_t bound = src.size() * 6 + 6;
		std::unique_ptr<From[]> exact(new From[src.size()]); std::copy(src.begin(), src.end(), exact.get());
		std::unique_ptr<From[]> z(new From[src.size() + 1]); std::copy(src.begin(), src.end(), z.get()); z[src.size()] = (From)0;
		UtfStringToStringReader<From, To> r1(z.get());
		auto out = Drain<From, To>(c, r1, bound, "reader");
		UtfStringRangeToStringRangeReader<From, To> r2(exact.get(), exact.get() + src.size());
		auto out2 = Drain<From, To>(c, r2, bound, "range reader");
		PBT_CHECK(Vals(out) == Vals(out2), "reader and range reader disagree %s->%s on %s", Enc<From>::name, Enc<To>::name, ShowUnits(src).c_str());
		// the well-formed prefix, as far as the target can represent it
		U32 representable; bool all = true;
		for (auto cp : prefix) { if (cp > Limit<To>()) { all = false; break; } representable.push_back(cp); }
		auto want = Vals(Encode<To>(representable)); auto got = Vals(out);
		PBT_CHECK(got.size() >= want.size() && std::equal(want.begin(), want.end(), got.begin()), "%s->%s loses part of the well-formed prefix of %s: got %s", Enc<From>::name, Enc<To>::name, ShowUnits(src).c_str(), ShowUnits(out).c_str());
		{
			// positions are exact up to the fault
			UtfStringToStringReader<From, To> r3(z.get()); vint units = 0, at = 0;
			for (auto cp : representable)
			{
				vint size = (vint)Enc<From>::Put(cp).size(), n = (vint)Enc<To>::Put(cp).size();
				for (vint k = 0; k < n; k++)
				{
					r3.Read(); auto cl = r3.SourceCluster();
					PBT_CHECK(r3.ReadingIndex() == units && cl.index == at && cl.size == size, "%s->%s: unit %lld of the well-formed prefix of %s is reported at %lld from (%lld,%lld)", Enc<From>::name, Enc<To>::name, (long long)units, ShowUnits(src).c_str(), (long long)r3.ReadingIndex(), (long long)cl.index, (long long)cl.size);
					units++;
				}
				at += size;
			}
			for (int k = 0; k < 3; k++) { r3.Read(); auto cl = r3.SourceCluster(); PBT_CHECK(cl.index >= 0 && cl.size >= 0 && cl.index + cl.size <= (vint)src.size(), "%s->%s: source cluster (%lld,%lld) outside of %s", Enc<From>::name, Enc<To>::name, (long long)cl.index, (long long)cl.size, ShowUnits(src).c_str()); }
		}
		constexpr bool plainCopy = IsUtf32<From>::value && IsUtf32<To>::value;
		if (!all || (!illformed && !plainCopy) || (truncatedTail && !plainCopy))
			PBT_CHECK(got.size() == want.size(), "%s->%s continues past what cannot be converted in %s: got %s", Enc<From>::name, Enc<To>::name, ShowUnits(src).c_str(), ShowUnits(out).c_str());
		// whatever is produced is itself free of surrogate code points (UTF-32 to UTF-32 is a plain copy)
		if constexpr (!plainCopy)
		{
			for (size_t i = 0; i < out.size();)
			{
				if constexpr (std::is_same_v<To, char16_t> || std::is_same_v<To, char16be_t> || IsUtf32<To>::value)
				{
					auto d = Dec(out, i);
					PBT_CHECK(d.has_value(), "%s->%s produces an ill-formed unit at %zu from %s: %s", Enc<From>::name, Enc<To>::name, i, ShowUnits(src).c_str(), ShowUnits(out).c_str());
					i += d->second;
				}
				else
				{
					auto d = Dec(out, i);
					PBT_CHECK(d.has_value(), "%s->%s produces ill-formed UTF-8 at %zu from %s: %s", Enc<From>::name, Enc<To>::name, i, ShowUnits(src).c_str(), ShowUnits(out).c_str());
					i += d->second;
				}
			}
		}
		return out;
	}

	template<typename From, typename To>
	void Buffers(Ctx& c, const std::vector<From>& src, const std::vector<To>& out)
	{
		std::unique_ptr<From[]> z(new From[src.size() + 1]); std::copy(src.begin(), src.end(), z.get()); z[src.size()] = (From)0;
		vint need = _utftoutf<From, To>(z.get(), nullptr, 0);
		PBT_CHECK(need == (vint)out.size() + 1, "_utftoutf %s->%s needs %lld, the reader gives %zu; input %s", Enc<From>::name, Enc<To>::name, (long long)need, out.size(), ShowUnits(src).c_str());
		vint cap = c.chance(1, 3) ? need + (vint)c.draw(4) : (vint)c.draw(need + 1);
		std::unique_ptr<To[]> buf(new To[cap]);
		vint got = _utftoutf<From, To>(z.get(), buf.get(), cap);
		PBT_CHECK(got == std::min(cap, need), "_utftoutf %s->%s with capacity %lld returns %lld, needed %lld", Enc<From>::name, Enc<To>::name, (long long)cap, (long long)got, (long long)need);
		for (vint i = 0; i < got; i++) PBT_CHECK(Val<To>(buf[i]) == (i < (vint)out.size() ? Val<To>(out[i]) : 0), "_utftoutf %s->%s differs from the reader at %lld", Enc<From>::name, Enc<To>::name, (long long)i);
		if (cap < need) c.label("truncated destination");
	}

	template<typename To, typename From>
	void Fn(Ctx& c, const char* name, ObjectString<To>(*f)(const ObjectString<From>&), const std::vector<From>& src, const std::vector<To>& out)
	{
		auto r = f(Str<From>(c, src));
		PBT_CHECK(Vals(r) == Vals(out), "%s disagrees with the reader on %s", name, ShowUnits(src).c_str());
	}

	template<typename From>
	U32 Prefix(Ctx& c, const std::vector<From>& src, bool& ill, bool& truncated)
	{
		U32 p; size_t i = 0; ill = false; truncated = false;
		while (i < src.size())
		{
			auto d = Dec(src, i);
			if (!d) { ill = true; break; }
			p.push_back(d->first); i += d->second;
		}
		if (ill)
		{
			if constexpr (sizeof(From) == 2) truncated = true;      // unpaired surrogate: must stop here
			if constexpr (std::is_same_v<From, char8_t>)
			{
				unsigned b = src[i]; size_t need = b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6;
				if (i + need > src.size()) truncated = true;         // the text ends inside a sequence
			}
			if constexpr (IsUtf32<From>::value) truncated = true;     // a surrogate code point
			c.nontrivial();
			if (truncated) c.label("must stop at the fault");
		}
		c.note("%s units %s", Enc<From>::name, ShowUnits(src).c_str());
		return p;
	}
}

static void T_from_utf8(Ctx& c);
PBT_TEST(C04, from_utf8, 30000, pbt::F_NONE) { T_from_utf8(c); }
PBT_TEST(C04, large_from_utf8, 100, pbt::F_NOFUZZ) { LargeTexts large; T_from_utf8(c); }
static void T_from_utf8(Ctx& c)
{
	auto s = GenUnits<char8_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
	auto w = Check<char8_t, wchar_t>(c, s, p, ill, tr); auto u16 = Check<char8_t, char16_t>(c, s, p, ill, tr);
	auto u32 = Check<char8_t, char32_t>(c, s, p, ill, tr); Check<char8_t, char16be_t>(c, s, p, ill, tr); Check<char8_t, char8_t>(c, s, p, ill, tr);
	Buffers(c, s, w); Buffers(c, s, u16); Buffers(c, s, u32);
	Fn<wchar_t, char8_t>(c, "u8tow", u8tow, s, w); Fn<char16_t, char8_t>(c, "u8tou16", u8tou16, s, u16); Fn<char32_t, char8_t>(c, "u8tou32", u8tou32, s, u32);
}

static void T_from_utf16(Ctx& c);
PBT_TEST(C04, from_utf16, 30000, pbt::F_NONE) { T_from_utf16(c); }
PBT_TEST(C04, large_from_utf16, 100, pbt::F_NOFUZZ) { LargeTexts large; T_from_utf16(c); }
static void T_from_utf16(Ctx& c)
{
	auto s = GenUnits<char16_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
	auto w = Check<char16_t, wchar_t>(c, s, p, ill, tr); auto u8 = Check<char16_t, char8_t>(c, s, p, ill, tr);
	auto u32 = Check<char16_t, char32_t>(c, s, p, ill, tr); Check<char16_t, char16be_t>(c, s, p, ill, tr); Check<char16_t, char16_t>(c, s, p, ill, tr);
	Buffers(c, s, w); Buffers(c, s, u8); Buffers(c, s, u32);
	Fn<wchar_t, char16_t>(c, "u16tow", u16tow, s, w); Fn<char8_t, char16_t>(c, "u16tou8", u16tou8, s, u8); Fn<char32_t, char16_t>(c, "u16tou32", u16tou32, s, u32);
}

static void T_from_utf16be(Ctx& c);
PBT_TEST(C04, from_utf16be, 20000, pbt::F_NONE) { T_from_utf16be(c); }
PBT_TEST(C04, large_from_utf16be, 100, pbt::F_NOFUZZ) { LargeTexts large; T_from_utf16be(c); }
static void T_from_utf16be(Ctx& c)
{
	auto s = GenUnits<char16be_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
	Check<char16be_t, wchar_t>(c, s, p, ill, tr); Check<char16be_t, char8_t>(c, s, p, ill, tr);
	Check<char16be_t, char32_t>(c, s, p, ill, tr); Check<char16be_t, char16be_t>(c, s, p, ill, tr); Check<char16be_t, char16_t>(c, s, p, ill, tr);
}

static void T_from_utf32(Ctx& c);
PBT_TEST(C04, from_utf32, 30000, pbt::F_NONE) { T_from_utf32(c); }
PBT_TEST(C04, large_from_utf32, 100, pbt::F_NOFUZZ) { LargeTexts large; T_from_utf32(c); }
static void T_from_utf32(Ctx& c)
{
	auto s = GenUnits<char32_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
	auto w = Check<char32_t, wchar_t>(c, s, p, ill, tr); auto u8 = Check<char32_t, char8_t>(c, s, p, ill, tr);
	auto u16 = Check<char32_t, char16_t>(c, s, p, ill, tr); Check<char32_t, char16be_t>(c, s, p, ill, tr); Check<char32_t, char32_t>(c, s, p, ill, tr);
	Buffers(c, s, w); Buffers(c, s, u8); Buffers(c, s, u16);
	Fn<char8_t, char32_t>(c, "u32tou8", u32tou8, s, u8); Fn<char16_t, char32_t>(c, "u32tou16", u32tou16, s, u16); Fn<wchar_t, char32_t>(c, "u32tow", u32tow, s, w);
}

static void T_from_wide(Ctx& c);
PBT_TEST(C04, from_wide, 20000, pbt::F_NONE) { T_from_wide(c); }
PBT_TEST(C04, large_from_wide, 100, pbt::F_NOFUZZ) { LargeTexts large; T_from_wide(c); }
static void T_from_wide(Ctx& c)
{
	auto s = GenUnits<wchar_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
	auto u32 = Check<wchar_t, char32_t>(c, s, p, ill, tr); auto u8 = Check<wchar_t, char8_t>(c, s, p, ill, tr);
	auto u16 = Check<wchar_t, char16_t>(c, s, p, ill, tr); Check<wchar_t, char16be_t>(c, s, p, ill, tr); Check<wchar_t, wchar_t>(c, s, p, ill, tr);
	Buffers(c, s, u32); Buffers(c, s, u8); Buffers(c, s, u16);
	Fn<char8_t, wchar_t>(c, "wtou8", wtou8, s, u8); Fn<char16_t, wchar_t>(c, "wtou16", wtou16, s, u16); Fn<char32_t, wchar_t>(c, "wtou32", wtou32, s, u32);
}

// one decoding or encoding step on arbitrary input of arbitrary length
namespace
{
	template<typename T>
	void Step(Ctx& c)
	{
		auto v = GenUnits<T>(c);
		size_t n = c.draw(v.size() + 1);
		std::unique_ptr<T[]> exact(new T[n]); std::copy(v.begin(), v.begin() + n, exact.get());
		std::vector<T> u(v.begin(), v.begin() + n);
		char32_t d = 0;
		vint r = UtfConversion<T>::To32(exact.get(), (vint)n, d);
		c.note("To32 %s %s = %lld", Enc<T>::name, ShowUnits(u).c_str(), (long long)r);
		PBT_CHECK(r == -1 || (r >= 1 && r <= (vint)n && r <= UtfConversion<T>::BufferLength), "To32 %s of %s consumes %lld of %zu", Enc<T>::name, ShowUnits(u).c_str(), (long long)r, n);
		if (n == 0) { PBT_CHECK(r == -1, "To32 of nothing succeeds"); return; }
		auto e = Dec(u, 0);
		if (e) PBT_CHECK(r == (vint)e->second && (uint32_t)d == e->first, "To32 %s of %s gives U+%X", Enc<T>::name, ShowUnits(u).c_str(), (uint32_t)d);
		else
		{
			c.nontrivial();
			if constexpr (sizeof(T) == 2) PBT_CHECK(r == -1, "To32 %s accepts %s", Enc<T>::name, ShowUnits(u).c_str());
			if constexpr (sizeof(T) == 1) PBT_CHECK(r == -1 || !Surrogate((uint32_t)d), "To32 %s of %s gives the surrogate U+%X", Enc<T>::name, ShowUnits(u).c_str(), (uint32_t)d);
		}
	}
	template<typename T>
	void Bad32(Ctx& c)
	{
		static const uint32_t edge[] = { 0xD800, 0xDFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu };
		uint32_t cp = c.boolean() ? edge[c.draw(8)] : (uint32_t)c.draw(1ull << 32);
		T out[UtfConversion<T>::BufferLength] = {};
		vint r = UtfConversion<T>::From32((char32_t)cp, out);
		bool ok = !Surrogate(cp) && cp <= Limit<T>();
		c.note("From32 %s U+%X = %lld", Enc<T>::name, cp, (long long)r);
		if (sizeof(T) == 4) return;
		if (!ok) c.nontrivial();
		PBT_CHECK((r != -1) == ok, "From32 %s of U+%X gives %lld", Enc<T>::name, cp, (long long)r);
		if (ok) PBT_CHECK(r == (vint)Enc<T>::Put(cp).size(), "From32 %s of U+%X gives %lld", Enc<T>::name, cp, (long long)r);
	}
}
PBT_TEST(C04, steps, 60000, pbt::F_NONE)
{
	switch (c.draw(3)) { case 0: Step<char8_t>(c); Bad32<char8_t>(c); break; case 1: Step<char16_t>(c); Bad32<char16_t>(c); break; default: Step<char16be_t>(c); Bad32<char16be_t>(c); }
}

// the narrow encoding of the locale: neither the buffer functions nor the string functions leave their buffers, and well-formed text is converted
namespace
{
	template<typename From, typename To>
	void Narrow(Ctx& c, const char* name, vint(*f)(const From*, To*, vint), ObjectString<To>(*g)(const ObjectString<From>&), const std::vector<From>& src, bool wellFormed, const std::vector<To>& out)
	{
		std::unique_ptr<From[]> z(new From[src.size() + 1]); std::copy(src.begin(), src.end(), z.get()); z[src.size()] = (From)0;
		vint need = f(z.get(), nullptr, 0);
		if (wellFormed) PBT_CHECK(need == (vint)out.size() + 1, "%s needs %lld for %zu", name, (long long)need, out.size());
		PBT_CHECK(need >= 0 && need <= (vint)src.size() * 8 + 1, "%s needs %lld units for %zu", name, (long long)need, src.size());
		vint cap = c.chance(1, 3) ? need + (vint)c.draw(4) : (vint)c.draw(need + 1);
		std::unique_ptr<To[]> buf(new To[cap]());
		vint got = f(z.get(), buf.get(), cap);
		c.note("%s of %zu units into %lld of %lld gives %lld", name, src.size(), (long long)cap, (long long)need, (long long)got);
		PBT_CHECK(got >= 0 && got <= cap, "%s with capacity %lld returns %lld", name, (long long)cap, (long long)got);
		if (wellFormed)
		{
			for (vint i = 0; i + 1 < got; i++) PBT_CHECK(buf[i] == out[i], "%s wrong at %lld", name, (long long)i);
			if (cap >= need) PBT_CHECK(got == need && buf[need - 1] == 0, "%s with capacity %lld of %lld returns %lld", name, (long long)cap, (long long)need, (long long)got);
			if (cap < need) { c.label("truncated destination"); c.nontrivial(); }
		}
		auto r = g(Str<From>(c, src));
		if (wellFormed) PBT_CHECK(Vals(r) == Vals(out), "the string function beside %s is wrong", name);
		else { c.nontrivial(); PBT_CHECK(r.Length() <= (vint)src.size() * 8 && r.Buffer()[r.Length()] == 0, "the string function beside %s gives no valid string", name); }
	}
}
PBT_TEST(C04, narrow, 30000, pbt::F_NONE)
{
	setlocale(LC_ALL, c.chance(1, 8) ? "C" : "C.UTF-8"); bool utf8 = MB_CUR_MAX > 1;
	if (c.boolean())
	{
		auto s8 = GenUnits<char8_t>(c); bool ill, tr; auto p = Prefix(c, s8, ill, tr);
		std::vector<char> s(s8.begin(), s8.end()); bool ok = !ill; for (auto x : p) if (x > (utf8 ? 0x10FFFFu : 0x7Fu)) ok = false;
		Narrow<char, wchar_t>(c, "_atow", _atow, atow, s, ok, Encode<wchar_t>(p));
	}
	else
	{
		auto s = GenUnits<wchar_t>(c); bool ill, tr; auto p = Prefix(c, s, ill, tr);
		bool ok = !ill; for (auto x : p) if (x > (utf8 ? 0x10FFFFu : 0x7Fu)) ok = false;
		std::vector<char> out; if (ok) { auto o = Encode<char8_t>(p); out.assign(o.begin(), o.end()); }
		Narrow<wchar_t, char>(c, "_wtoa", _wtoa, wtoa, s, ok, out);
	}
	setlocale(LC_ALL, "C");
}
