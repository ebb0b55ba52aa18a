#pragma once
#include "util.h"
#include <array>

// independent codecs, written from the Unicode standard (UTF-8 extended to 31 bits as in the original definition)
namespace utfm
{
	using U32 = std::vector<uint32_t>;
	using vl::char16be_t;

	inline bool Surrogate(uint32_t cp) { return cp >= 0xD800 && cp <= 0xDFFF; }

	template<typename T> struct Enc;
	template<> struct Enc<char8_t>
	{
		static constexpr const char* name = "u8";
		static std::vector<char8_t> Put(uint32_t cp)
		{
			std::vector<char8_t> r;
			if (cp < 0x80) { r.push_back((char8_t)cp); return r; }
			int n = cp < 0x800 ? 2 : cp < 0x10000 ? 3 : cp < 0x200000 ? 4 : cp < 0x4000000 ? 5 : 6;
			static const unsigned lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
			r.resize(n);
			for (int i = n - 1; i > 0; i--) { r[i] = (char8_t)(0x80 + cp % 64); cp /= 64; }
			r[0] = (char8_t)(lead[n] + cp);
			return r;
		}
	};
	template<> struct Enc<char16_t>
	{
		static constexpr const char* name = "u16";
		static std::vector<char16_t> Put(uint32_t cp)
		{
			if (cp < 0x10000) return { (char16_t)cp };
			uint32_t x = cp - 0x10000;
			return { (char16_t)(0xD800 + x / 0x400), (char16_t)(0xDC00 + x % 0x400) };
		}
	};
	template<> struct Enc<char16be_t>
	{
		static constexpr const char* name = "u16be";
		static std::vector<char16be_t> Put(uint32_t cp)
		{
			std::vector<char16be_t> r;
			for (auto u : Enc<char16_t>::Put(cp)) { char16be_t b; b.value = (char16_t)(((unsigned)u / 256) + ((unsigned)u % 256) * 256); r.push_back(b); }
			return r;
		}
	};
	template<> struct Enc<char32_t>
	{
		static constexpr const char* name = "u32";
		static std::vector<char32_t> Put(uint32_t cp) { return { (char32_t)cp }; }
	};
	template<> struct Enc<wchar_t>
	{
		static constexpr const char* name = "w";
		static std::vector<wchar_t> Put(uint32_t cp) { return { (wchar_t)cp }; }
	};

	template<typename T> inline uint32_t Val(T x) { return (uint32_t)(std::make_unsigned_t<std::conditional_t<std::is_same_v<T, char8_t>, unsigned char, T>>)x; }
	template<> inline uint32_t Val<char16be_t>(char16be_t x) { return x.value; }

	template<typename T>
	inline std::vector<T> Encode(const U32& s)
	{
		std::vector<T> r;
		for (auto cp : s) { auto u = Enc<T>::Put(cp); r.insert(r.end(), u.begin(), u.end()); }
		return r;
	}
	// cluster (start, size) in source units for each code point
	template<typename T>
	inline std::vector<std::pair<vl::vint, vl::vint>> Clusters(const U32& s)
	{
		std::vector<std::pair<vl::vint, vl::vint>> r; vl::vint at = 0;
		for (auto cp : s) { auto n = (vl::vint)Enc<T>::Put(cp).size(); r.push_back({ at, n }); at += n; }
		return r;
	}

	inline uint32_t GenCp(pbt::Ctx& c, uint32_t max = 0x10FFFF)
	{
		uint32_t cp;
		switch (c.draw(8))
		{
		case 0: case 1: cp = 'a' + (uint32_t)c.draw(26); break;
		case 2: cp = 1 + (uint32_t)c.draw(0x7F); break;
		case 3: cp = 0x80 + (uint32_t)c.draw(0x800 - 0x80); break;
		case 4: cp = 0x800 + (uint32_t)c.draw(0x10000 - 0x800); break;
		case 5: cp = 0x10000 + (uint32_t)c.draw(0x100000); break;
		case 6:
		{
			static const uint32_t edge[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF, 0xFF, 0x100, 0x3F, 0x40, 0xDBFF + 0x2000,
				0xFEFF, 0xFEFF, 0xFFFE, 0x0A, 0x0D, 0x1A, 0x1B, 0x85, 0xA0, 0xAD, 0x200B, 0x200D, 0x2028, 0xFDD0, 0xFFF9, 0xFFFC, 0x1FFFE, 0x2FFFF };
			cp = edge[c.draw(sizeof(edge) / sizeof(*edge))]; break;
		}
		default: cp = 1 + (uint32_t)c.draw(max); break;
		}
		if (cp > max) cp = max;
		if (Surrogate(cp)) cp = 0xE000 + (cp - 0xD800);
		return cp;
	}
	inline U32 GenText(pbt::Ctx& c, size_t max, uint32_t maxCp = 0x10FFFF)
	{
		if (LargeTexts::On())
		{
			// few choices, many code points
			size_t n = GenLargeSize(c, c.chance(1, 8) ? 16 : 13); uint32_t pool[6]; for (auto& x : pool) x = GenCp(c, maxCp);
			uint64_t state = c.draw(1000) * 2654435761u + 1; U32 r(n);
			for (auto& x : r) { state = state * 6364136223846793005ull + 1442695040888963407ull; x = pool[(state >> 33) % 6]; }
			return r;
		}
		U32 r; size_t n = c.size(max);
		for (size_t i = 0; i < n; i++) r.push_back(GenCp(c, maxCp));
		if (n && maxCp >= 0xFFFF && c.chance(1, 30)) r[c.boolean() ? 0 : n - 1] = 0xFEFF; // a byte order mark is text like any other
		return r;
	}
	inline std::string ShowU(const U32& s)
	{
		std::string r;
		for (auto x : s) { char b[16]; snprintf(b, sizeof(b), "U+%04X ", x); r += b; if (r.size() > 400) { r += "..."; break; } }
		return r;
	}
	template<typename T> inline std::string ShowUnits(const std::vector<T>& s)
	{
		std::string r;
		for (auto x : s) { char b[16]; snprintf(b, sizeof(b), "%X ", Val(x)); r += b; if (r.size() > 400) { r += "..."; break; } }
		return r;
	}
	template<typename T> inline std::vector<uint32_t> Vals(const std::vector<T>& v) { std::vector<uint32_t> r; for (auto x : v) r.push_back(Val(x)); return r; }
	template<typename T> inline std::vector<uint32_t> Vals(const vl::ObjectString<T>& v) { std::vector<uint32_t> r; for (vl::vint i = 0; i < v.Length(); i++) r.push_back(Val(v[i])); return r; }

	template<typename T> inline vl::ObjectString<T> Str(pbt::Ctx& c, const std::vector<T>& v)
	{
		// sometimes a slice of a larger string, to be sure slices convert like whole strings
		if (c.chance(1, 3))
		{
			std::vector<T> w; w.push_back((T)'<'); w.insert(w.end(), v.begin(), v.end()); w.push_back((T)'>');
			return vl::ObjectString<T>::CopyFrom(w.data(), (vl::vint)w.size()).Sub(1, (vl::vint)v.size());
		}
		return vl::ObjectString<T>::CopyFrom(v.data(), (vl::vint)v.size());
	}
}
