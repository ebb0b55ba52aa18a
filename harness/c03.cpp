// C03: well-formed text survives conversion between every pair of encodings, and readers report exact positions
#include "utf.h"
#include <clocale>
using namespace vl;
using namespace vl::encoding;
using namespace utfm;
using pbt::Ctx;

PBT_RULE(C03,
	"Cases are sequences of up to 60 (in the large cases up to 65538) Unicode scalar values biased to encoding boundaries (plus an exhaustive sweep of all scalar values, and UCS-4 values up to 0x7FFFFFFF for UTF-8/32), "
	"converted between all pairs of UTF-8, UTF-16, UTF-16BE, UTF-32 and wide encodings by the string functions, the buffer functions and both readers. "
	"Oracle: encoders written independently from the standard, and the cluster of every output unit. Non-trivial: the text mixes at least two encoded lengths (a 1-unit and a multi-unit code point).");

namespace
{
	template<typename From, typename To, typename R>
	void CheckReader(Ctx& c, R& reader, const U32& text, const char* what)
	{
		auto clusters = Clusters<From>(text);
		vint out = 0, total = 0;
		PBT_CHECK(reader.ReadingIndex() == -1, "%s: ReadingIndex before the first Read is %lld", what, (long long)reader.ReadingIndex());
		for (size_t i = 0; i < text.size(); i++)
		{
			for (auto u : Enc<To>::Put(text[i]))
			{
				To x = reader.Read();
				PBT_CHECK(Val<To>(x) == Val<To>(u), "%s %s->%s: unit %lld is %X, expected %X; text %s", what, Enc<From>::name, Enc<To>::name, (long long)out, Val<To>(x), Val<To>(u), ShowU(text).c_str());
				PBT_CHECK(reader.ReadingIndex() == out, "%s %s->%s: ReadingIndex %lld, expected %lld", what, Enc<From>::name, Enc<To>::name, (long long)reader.ReadingIndex(), (long long)out);
				auto cl = reader.SourceCluster();
				PBT_CHECK(cl.index == clusters[i].first && cl.size == clusters[i].second, "%s %s->%s: SourceCluster of unit %lld is (%lld,%lld), expected (%lld,%lld); text %s", what, Enc<From>::name, Enc<To>::name,
					(long long)out, (long long)cl.index, (long long)cl.size, (long long)clusters[i].first, (long long)clusters[i].second, ShowU(text).c_str());
				out++;
			}
			total = clusters[i].first + clusters[i].second;
		}
		for (int k = 0; k < 3; k++)
		{
			To x = reader.Read();
			PBT_CHECK(Val<To>(x) == 0, "%s %s->%s: Read after the end gives %X", what, Enc<From>::name, Enc<To>::name, Val<To>(x));
			PBT_CHECK(reader.ReadingIndex() == out, "%s %s->%s: ReadingIndex at the end %lld, expected %lld", what, Enc<From>::name, Enc<To>::name, (long long)reader.ReadingIndex(), (long long)out);
			auto cl = reader.SourceCluster();
			PBT_CHECK(cl.index == total && cl.size == 0, "%s %s->%s: SourceCluster at the end (%lld,%lld), expected (%lld,0)", what, Enc<From>::name, Enc<To>::name, (long long)cl.index, (long long)cl.size, (long long)total);
		}
	}

	template<typename From, typename To>
	void Readers(Ctx& c, const U32& text)
	{
		auto src = Encode<From>(text);
		{
			auto z = src; z.push_back((From)0); z.shrink_to_fit();
			UtfStringToStringReader<From, To> r(z.data());
			CheckReader<From, To>(c, r, text, "reader");
		}
		{
			std::unique_ptr<From[]> exact(new From[src.size()]);
			std::copy(src.begin(), src.end(), exact.get());
			UtfStringRangeToStringRangeReader<From, To> r(exact.get(), exact.get() + src.size());
			CheckReader<From, To>(c, r, text, "range reader");
			UtfStringRangeToStringRangeReader<From, To> r2(exact.get(), (vint)src.size());
			CheckReader<From, To>(c, r2, text, "counted range reader");
		}
	}

	template<typename From>
	void ReadersFrom(Ctx& c, const U32& text)
	{
		Readers<From, char8_t>(c, text);
		Readers<From, char16_t>(c, text);
		Readers<From, char16be_t>(c, text);
		Readers<From, char32_t>(c, text);
		Readers<From, wchar_t>(c, text);
	}

	template<typename From, typename To>
	void Buffers(Ctx& c, const U32& text)
	{
		auto src = Encode<From>(text); auto dst = Encode<To>(text);
		src.push_back((From)0); src.shrink_to_fit();
		dst.push_back((To)0);
		vint need = _utftoutf<From, To>(src.data(), nullptr, 0);
		PBT_CHECK(need == (vint)dst.size(), "_utftoutf %s->%s reports size %lld, expected %zu; text %s", Enc<From>::name, Enc<To>::name, (long long)need, dst.size(), ShowU(text).c_str());
		std::unique_ptr<To[]> buf(new To[need]);
		vint got = _utftoutf<From, To>(src.data(), buf.get(), need);
		PBT_CHECK(got == need, "_utftoutf %s->%s writes %lld of %lld", Enc<From>::name, Enc<To>::name, (long long)got, (long long)need);
		PBT_CHECK(Vals(std::vector<To>(buf.get(), buf.get() + got)) == Vals(dst), "_utftoutf %s->%s wrong for %s", Enc<From>::name, Enc<To>::name, ShowU(text).c_str());
	}

	template<typename To, typename From>
	void Fn(Ctx& c, const char* name, ObjectString<To>(*f)(const ObjectString<From>&), const U32& text)
	{
		auto s = Str<From>(c, Encode<From>(text));
		auto before = Vals(s);
		auto r = f(s);
		PBT_CHECK(Vals(r) == Vals(Encode<To>(text)), "%s is wrong for %s: got %s", name, ShowU(text).c_str(), ShowU(Vals(r)).c_str());
		PBT_CHECK(r.Buffer()[r.Length()] == 0, "%s result is not zero terminated", name);
		PBT_CHECK(Vals(s) == before, "%s changed its argument", name);
	}

	bool Mixed(const U32& t)
	{
		bool a = false, b = false;
		for (auto x : t) { if (x < 0x80) a = true; if (x >= 0x80) b = true; }
		return a && b;
	}
}

static void T_functions(Ctx& c);
static void AllFunctions(Ctx& c, const U32& text);
PBT_TEST(C03, functions, 40000, pbt::F_NONE) { T_functions(c); }
PBT_TEST(C03, large_functions, 150, pbt::F_NOFUZZ) { LargeTexts large; T_functions(c); }
static void T_functions(Ctx& c)
{
	auto text = GenText(c, 60);
	c.note("text %s", ShowU(text).c_str());
	if (Mixed(text)) c.nontrivial();
	for (auto x : text) if (x > 0xFFFF) { c.label("has supplementary"); break; }
	AllFunctions(c, text);
	Buffers<wchar_t, char8_t>(c, text); Buffers<wchar_t, char16_t>(c, text); Buffers<wchar_t, char32_t>(c, text);
	Buffers<char8_t, wchar_t>(c, text); Buffers<char8_t, char16_t>(c, text); Buffers<char8_t, char32_t>(c, text);
	Buffers<char16_t, wchar_t>(c, text); Buffers<char16_t, char8_t>(c, text); Buffers<char16_t, char32_t>(c, text);
	Buffers<char32_t, char8_t>(c, text); Buffers<char32_t, char16_t>(c, text); Buffers<char32_t, wchar_t>(c, text);
}
static void AllFunctions(Ctx& c, const U32& text)
{
	Fn<char32_t, wchar_t>(c, "wtou32", wtou32, text);
	Fn<wchar_t, char32_t>(c, "u32tow", u32tow, text);
	Fn<char32_t, char8_t>(c, "u8tou32", u8tou32, text);
	Fn<char8_t, char32_t>(c, "u32tou8", u32tou8, text);
	Fn<char32_t, char16_t>(c, "u16tou32", u16tou32, text);
	Fn<char16_t, char32_t>(c, "u32tou16", u32tou16, text);
	Fn<char8_t, wchar_t>(c, "wtou8", wtou8, text);
	Fn<wchar_t, char8_t>(c, "u8tow", u8tow, text);
	Fn<char16_t, wchar_t>(c, "wtou16", wtou16, text);
	Fn<wchar_t, char16_t>(c, "u16tow", u16tow, text);
	Fn<char16_t, char8_t>(c, "u8tou16", u8tou16, text);
	Fn<char8_t, char16_t>(c, "u16tou8", u16tou8, text);
}

static void T_readers(Ctx& c);
PBT_TEST(C03, readers, 20000, pbt::F_NONE) { T_readers(c); }
PBT_TEST(C03, large_readers, 150, pbt::F_NOFUZZ) { LargeTexts large; T_readers(c); }
static void T_readers(Ctx& c)
{
	auto text = GenText(c, 40);
	c.note("text %s", ShowU(text).c_str());
	if (Mixed(text)) c.nontrivial();
	ReadersFrom<char8_t>(c, text);
	ReadersFrom<char16_t>(c, text);
	ReadersFrom<char16be_t>(c, text);
	ReadersFrom<char32_t>(c, text);
	ReadersFrom<wchar_t>(c, text);
}

// the narrow encoding is the locale's: UTF-8 in a UTF-8 locale, ASCII in the "C" locale
static void T_narrow(Ctx& c);
PBT_TEST(C03, narrow, 20000, pbt::F_NONE) { T_narrow(c); }
PBT_TEST(C03, large_narrow, 150, pbt::F_NOFUZZ) { LargeTexts large; T_narrow(c); }
static void T_narrow(Ctx& c)
{
	bool utf8 = !c.chance(1, 4);
	const char* loc = setlocale(LC_ALL, utf8 ? "C.UTF-8" : "C");
	auto text = GenText(c, 40, utf8 && loc ? 0x10FFFF : 0x7F);
	c.note("locale %s text %s", loc ? loc : "?", ShowU(text).c_str());
	if (Mixed(text)) c.nontrivial();
	auto narrow8 = Encode<char8_t>(text);
	std::vector<char> narrow(narrow8.begin(), narrow8.end());
	auto w = Str<wchar_t>(c, Encode<wchar_t>(text));
	auto a = Str<char>(c, narrow);
	{
		// the buffer functions
		auto zw = Encode<wchar_t>(text); zw.push_back(0); zw.shrink_to_fit(); auto za = narrow; za.push_back(0); za.shrink_to_fit();
		vint na = _wtoa(zw.data(), nullptr, 0), nw = _atow(za.data(), nullptr, 0);
		PBT_CHECK(na == (vint)za.size() && nw == (vint)zw.size(), "_wtoa needs %lld of %zu, _atow needs %lld of %zu", (long long)na, za.size(), (long long)nw, zw.size());
		std::unique_ptr<char[]> ba(new char[na]()); std::unique_ptr<wchar_t[]> bw(new wchar_t[nw]());
		PBT_CHECK(_wtoa(zw.data(), ba.get(), na) == na && std::equal(za.begin(), za.end(), ba.get()), "_wtoa is wrong for %s", ShowU(text).c_str());
		PBT_CHECK(_atow(za.data(), bw.get(), nw) == nw && std::equal(zw.begin(), zw.end(), bw.get()), "_atow is wrong for %s", ShowU(text).c_str());
	}
	auto wa = wtoa(w);
	PBT_CHECK(Vals(wa) == Vals(narrow), "wtoa is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(atow(a)) == Vals(Encode<wchar_t>(text)), "atow is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(atou8(a)) == Vals(Encode<char8_t>(text)), "atou8 is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(atou16(a)) == Vals(Encode<char16_t>(text)), "atou16 is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(atou32(a)) == Vals(Encode<char32_t>(text)), "atou32 is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(u8toa(Str<char8_t>(c, Encode<char8_t>(text)))) == Vals(narrow), "u8toa is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(u16toa(Str<char16_t>(c, Encode<char16_t>(text)))) == Vals(narrow), "u16toa is wrong for %s", ShowU(text).c_str());
	PBT_CHECK(Vals(u32toa(Str<char32_t>(c, Encode<char32_t>(text)))) == Vals(narrow), "u32toa is wrong for %s", ShowU(text).c_str());
	if (!utf8 || !loc)
		c.label("C locale");
	setlocale(LC_ALL, "C");
}

namespace
{
	template<typename T>
	void OneCp(Ctx& c, uint32_t cp)
	{
		auto e = Enc<T>::Put(cp);
		T out[UtfConversion<T>::BufferLength] = {};
		vint n = UtfConversion<T>::From32((char32_t)cp, out);
		PBT_CHECK(n == (vint)e.size(), "From32(U+%X) to %s gives %lld units", cp, Enc<T>::name, (long long)n);
		for (vint i = 0; i < n; i++) PBT_CHECK(Val<T>(out[i]) == Val<T>(e[i]), "From32(U+%X) to %s: unit %lld is %X", cp, Enc<T>::name, (long long)i, Val<T>(out[i]));
		char32_t back = 0;
		vint m = UtfConversion<T>::To32(out, n, back);
		PBT_CHECK(m == n && (uint32_t)back == cp, "To32 of U+%X in %s gives %lld units, U+%X", cp, Enc<T>::name, (long long)m, (uint32_t)back);
		// followed by other text the same code point is decoded
		std::vector<T> more(e); for (int i = 0; i < 6; i++) more.push_back(Enc<T>::Put('x')[0]);
		back = 0;
		m = UtfConversion<T>::To32(more.data(), (vint)more.size(), back);
		PBT_CHECK(m == n && (uint32_t)back == cp, "To32 of U+%X followed by text in %s gives %lld units, U+%X", cp, Enc<T>::name, (long long)m, (uint32_t)back);
	}
}

// every scalar value, exhaustively: 0x1100 blocks of 256
PBT_TEST(C03, every_scalar, 0x1100, pbt::F_ENUM)
{
	uint32_t block = (uint32_t)c.draw(0x1100);
	c.note("block U+%04X00", block);
	if (block > 0) c.nontrivial();
	for (uint32_t i = 0; i < 256; i++)
	{
		uint32_t cp = block * 256 + i;
		if (Surrogate(cp)) continue;
		OneCp<char8_t>(c, cp); OneCp<char16_t>(c, cp); OneCp<char16be_t>(c, cp); OneCp<wchar_t>(c, cp);
	}
	// each as the only, the first, the middle and the last one of a text
	U32 all; for (uint32_t i = 0; i < 256; i++) { uint32_t cp = block * 256 + i; if (cp && !Surrogate(cp)) all.push_back(cp); }
	if (all.empty()) return;
	AllFunctions(c, all);
	for (auto cp : all) { U32 one = { cp }; AllFunctions(c, one); if (cp % 16 == block % 16) { ReadersFrom<char8_t>(c, one); ReadersFrom<char16_t>(c, one); ReadersFrom<char32_t>(c, one); } }
	std::reverse(all.begin(), all.end()); ReadersFrom<char8_t>(c, all); ReadersFrom<char16_t>(c, all); ReadersFrom<char16be_t>(c, all); ReadersFrom<char32_t>(c, all); ReadersFrom<wchar_t>(c, all);
}

// UCS-4 values above Unicode are representable in UTF-8 (5 and 6 byte forms) and UTF-32
PBT_TEST(C03, ucs4, 20000, pbt::F_NONE)
{
	U32 text; size_t n = 1 + c.size(20);
	for (size_t i = 0; i < n; i++)
	{
		static const uint32_t edge[] = { 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF };
		uint32_t cp = c.boolean() ? GenCp(c) : c.boolean() ? edge[c.draw(6)] : 0x110000 + (uint32_t)c.draw(0x7FFFFFFF - 0x110000 + 1);
		text.push_back(cp);
		OneCp<char8_t>(c, cp);
	}
	c.note("text %s", ShowU(text).c_str());
	c.nontrivial();
	Fn<char32_t, char8_t>(c, "u8tou32", u8tou32, text);
	Fn<char8_t, char32_t>(c, "u32tou8", u32tou8, text);
	Fn<char8_t, wchar_t>(c, "wtou8", wtou8, text);
	Fn<wchar_t, char8_t>(c, "u8tow", u8tow, text);
	Readers<char8_t, char32_t>(c, text);
	Readers<char32_t, char8_t>(c, text);
	Readers<wchar_t, char8_t>(c, text);
	Readers<char8_t, char8_t>(c, text);
}
