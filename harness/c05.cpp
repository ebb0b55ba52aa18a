// C05: numbers survive the round trip through text, only canonical in-range text is accepted, case mapping is per character
#include "util.h"
#include <clocale>
#include <cwctype>
#include <cctype>
#include <cmath>
#include <cfloat>
#include <limits>
using namespace vl;
using pbt::Ctx;

PBT_RULE(C05,
	"Cases are integers of 32 and 64 bits biased to powers of two, powers of ten and range limits, doubles of all magnitudes, decimal texts with injected faults (signs, leading zeros, spaces, overflow, garbage, "
	"empty text), and texts for case mapping; narrow and wide functions, whole strings and slices. Oracle: independent decimal printing and parsing with exact 128 bit arithmetic, and per-character case mapping of the C library. "
	"Non-trivial: at least two digits or a rejected text (numbers), at least one cased letter (texts).");

namespace
{
	// independent decimal printer
	std::string Print(bool neg, unsigned __int128 v)
	{
		std::string r;
		do { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
		if (neg) r.insert(r.begin(), '-');
		return r;
	}
	std::string PrintS(int64_t v) { return v < 0 ? Print(true, (unsigned __int128)(-(__int128)v)) : Print(false, (unsigned __int128)v); }
	std::string PrintU(uint64_t v) { return Print(false, v); }

	// canonical integer text: 0 or [-]nonzero digits
	bool Parse(const std::string& s, bool& neg, unsigned __int128& v)
	{
		size_t i = 0; neg = false; v = 0;
		if (s.size() > 40) return false;
		if (i < s.size() && s[i] == '-') { neg = true; i++; }
		if (i == s.size()) return false;
		if (s[i] == '0' && (s.size() > i + 1 || neg)) return false;
		for (; i < s.size(); i++)
		{
			if (s[i] < '0' || s[i] > '9') return false;
			if (v > (((unsigned __int128)1) << 120)) return false;
			v = v * 10 + (s[i] - '0');
		}
		return true;
	}

	uint64_t GenU64(Ctx& c)
	{
		switch (c.draw(7))
		{
		case 0: return c.draw(200);
		case 1: { uint64_t p = 1; for (uint64_t k = c.draw(20); k > 0; k--) p *= 10; return p + c.draw(3) - 1; }
		case 2: return (1ull << c.draw(64)) + c.draw(3) - 1;
		case 3: return 0x7FFFFFFFull + c.draw(3) - 1;
		case 4: return 0xFFFFFFFFull + c.draw(3) - 1;
		case 5: return 0x7FFFFFFFFFFFFFFFull + c.draw(3) - 1;
		default: return c.bits64() >> c.draw(64);
		}
	}
	int64_t GenI64(Ctx& c)
	{
		uint64_t v = GenU64(c);
		return c.boolean() ? (int64_t)(0 - v) : (int64_t)v;
	}

	AString A(Ctx& c, const std::string& s)
	{
		if (c.chance(1, 3)) { auto t = "9" + s + "9"; return AString::CopyFrom(t.c_str(), (vint)t.size()).Sub(1, (vint)s.size()); }
		return AString::CopyFrom(s.c_str(), (vint)s.size());
	}
	WString W(Ctx& c, const std::string& s)
	{
		std::wstring w(s.begin(), s.end());
		if (c.chance(1, 3)) { auto t = L"9" + w + L"9"; return WString::CopyFrom(t.c_str(), (vint)t.size()).Sub(1, (vint)s.size()); }
		return WString::CopyFrom(w.c_str(), (vint)w.size());
	}
	std::string Of(const AString& s) { return std::string(s.Buffer(), (size_t)s.Length()); }
	std::string Of(const WString& s) { std::string r; for (vint i = 0; i < s.Length(); i++) r += s[i] < 128 ? (char)s[i] : '?'; return r; }

	template<typename R, typename S>
	void CheckParse(Ctx& c, const char* name, R(*test)(const S&, bool&), R(*plain)(const S&), const S& s, const std::string& text, bool ok, R value)
	{
		bool success = !ok;
		R r = test(s, success);
		PBT_CHECK(success == ok, "%s_test(\"%s\") %s", name, text.c_str(), ok ? "rejects a valid number" : "accepts an invalid or out of range number");
		if (ok) PBT_CHECK(r == value, "%s_test(\"%s\") gives the wrong value", name, text.c_str());
		R q = plain(s);
		PBT_CHECK(q == (ok ? value : (R)0), "%s(\"%s\") gives the wrong value", name, text.c_str());
	}

	void CheckAllParsers(Ctx& c, const std::string& text)
	{
		bool neg = false; unsigned __int128 v = 0;
		bool canon = Parse(text, neg, v);
		__int128 sv = neg ? -(__int128)v : (__int128)v;
		bool i32 = canon && sv >= INT32_MIN && sv <= INT32_MAX;
		bool i64 = canon && sv >= INT64_MIN && sv <= INT64_MAX;
		bool u32 = canon && !neg && v <= UINT32_MAX;
		bool u64 = canon && !neg && v <= UINT64_MAX;
		CheckParse<vint, AString>(c, "atoi", atoi_test, atoi, A(c, text), text, i32, (vint)sv);
		CheckParse<vint, WString>(c, "wtoi", wtoi_test, wtoi, W(c, text), text, i32, (vint)sv);
		CheckParse<vint64_t, AString>(c, "atoi64", atoi64_test, atoi64, A(c, text), text, i64, (vint64_t)sv);
		CheckParse<vint64_t, WString>(c, "wtoi64", wtoi64_test, wtoi64, W(c, text), text, i64, (vint64_t)sv);
		CheckParse<vuint, AString>(c, "atou", atou_test, atou, A(c, text), text, u32, (vuint)v);
		CheckParse<vuint, WString>(c, "wtou", wtou_test, wtou, W(c, text), text, u32, (vuint)v);
		CheckParse<vuint64_t, AString>(c, "atou64", atou64_test, atou64, A(c, text), text, u64, (vuint64_t)v);
		CheckParse<vuint64_t, WString>(c, "wtou64", wtou64_test, wtou64, W(c, text), text, u64, (vuint64_t)v);
	}
}

PBT_TEST(C05, integers_round_trip, 150000, pbt::F_NONE)
{
	int64_t v = GenI64(c); uint64_t u = GenU64(c);
	c.note("%lld %llu", (long long)v, (unsigned long long)u);
	if (v >= 10 || v <= -10 || u >= 10) c.nontrivial();
	auto sv = PrintS(v), su = PrintU(u);
	PBT_CHECK(Of(itoa(v)) == sv, "itoa(%lld) gives %s", (long long)v, Of(itoa(v)).c_str());
	PBT_CHECK(Of(itow(v)) == sv, "itow(%lld) gives %s", (long long)v, Of(itow(v)).c_str());
	PBT_CHECK(Of(i64toa(v)) == sv, "i64toa(%lld) gives %s", (long long)v, Of(i64toa(v)).c_str());
	PBT_CHECK(Of(i64tow(v)) == sv, "i64tow(%lld) gives %s", (long long)v, Of(i64tow(v)).c_str());
	PBT_CHECK(Of(utoa(u)) == su, "utoa(%llu) gives %s", (unsigned long long)u, Of(utoa(u)).c_str());
	PBT_CHECK(Of(utow(u)) == su, "utow(%llu) gives %s", (unsigned long long)u, Of(utow(u)).c_str());
	PBT_CHECK(Of(u64toa(u)) == su, "u64toa(%llu) gives %s", (unsigned long long)u, Of(u64toa(u)).c_str());
	PBT_CHECK(Of(u64tow(u)) == su, "u64tow(%llu) gives %s", (unsigned long long)u, Of(u64tow(u)).c_str());
	CheckAllParsers(c, sv);
	CheckAllParsers(c, su);
}

PBT_TEST(C05, integer_texts, 150000, pbt::F_NONE)
{
	std::string t = c.boolean() ? PrintS(GenI64(c)) : PrintU(GenU64(c));
	size_t faults = c.draw(3);
	for (size_t i = 0; i < faults; i++)
	{
		size_t at = c.draw(t.size() + 1);
		switch (c.draw(9))
		{
		case 0: t.insert(at, 1, (char)('0' + c.draw(10))); break;
		case 1: if (t.size()) t.erase(c.draw(t.size()), 1); break;
		case 2: t.insert(t.size() && t[0] == '-' ? 1 : 0, 1 + c.draw(3), '0'); break;
		case 3: t.insert(0, 1, "+- \t\n\v"[c.draw(6)]); break;
		case 4: t += " \t\n.eaxL"[c.draw(8)]; break;
		case 5: t.insert(at, 1, (char)(1 + c.draw(127))); break;
		case 6: t = ""; break;
		case 7: t = std::string("0x") + t; break;
		default: { static const char* lim[] = { "2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","9223372036854775808","-9223372036854775808","-9223372036854775809","18446744073709551615","18446744073709551616","-0","99999999999999999999999" }; t = lim[c.draw(14)]; }
		}
	}
	for (auto& ch : t) if (ch == 0) ch = '0';
	c.note("\"%s\"", t.c_str());
	bool neg; unsigned __int128 v;
	if (!Parse(t, neg, v)) { c.label("rejected text"); c.nontrivial(); }
	else if (t.size() >= 2) c.nontrivial();
	CheckAllParsers(c, t);
}

// wide characters that are not ASCII are never digits or signs, and texts much longer than any number are rejected
PBT_TEST(C05, odd_texts, 30000, pbt::F_NONE)
{
	std::string t = c.boolean() ? PrintS(GenI64(c)) : PrintU(GenU64(c)); c.nontrivial();
	if (c.chance(1, 3))
	{
		// a number followed by a zero character is not a number
		t += '\0'; size_t k = c.draw(4); for (size_t i = 0; i < k; i++) t += (char)('0' + c.draw(10)); if (c.chance(1, 4)) t = t.substr(0, t.find('\0')) + ".5" + t.substr(t.find('\0')); c.note("%s", Show(t).c_str());
		std::wstring w(t.begin(), t.end()); AString a = AString::CopyFrom(t.c_str(), (vint)t.size()); WString s = WString::CopyFrom(w.c_str(), (vint)w.size()); bool ok;
#define ZERO_REJECTED(F, X) ok = true; F##_test(X, ok); PBT_CHECK(!ok && F(X) == 0, #F " accepts %s", Show(t).c_str())
		ZERO_REJECTED(vl::atoi, a); ZERO_REJECTED(atoi64, a); ZERO_REJECTED(atou, a); ZERO_REJECTED(atou64, a); ZERO_REJECTED(vl::atof, a);
		ZERO_REJECTED(wtoi, s); ZERO_REJECTED(wtoi64, s); ZERO_REJECTED(wtou, s); ZERO_REJECTED(wtou64, s); ZERO_REJECTED(wtof, s);
		return;
	}
	if (c.boolean())
	{
		std::wstring w(t.begin(), t.end()); size_t at = c.draw(w.size()); static const wchar_t add[] = { 0x80, 0x100, 0x200, 0x630, 0xFEE0, 0x10000, 0x100000, 0x1D79E };
		w[at] = w[at] + add[c.draw(8)]; c.note("%s", Show(w).c_str()); WString s = WString::CopyFrom(w.c_str(), (vint)w.size()); bool ok;
		ok = true; wtoi_test(s, ok); PBT_CHECK(!ok && wtoi(s) == 0, "wtoi accepts %s", Show(w).c_str());
		ok = true; wtoi64_test(s, ok); PBT_CHECK(!ok && wtoi64(s) == 0, "wtoi64 accepts %s", Show(w).c_str());
		ok = true; wtou_test(s, ok); PBT_CHECK(!ok && wtou(s) == 0, "wtou accepts %s", Show(w).c_str());
		ok = true; wtou64_test(s, ok); PBT_CHECK(!ok && wtou64(s) == 0, "wtou64 accepts %s", Show(w).c_str());
		ok = true; wtof_test(s, ok); PBT_CHECK(!ok && wtof(s) == 0, "wtof accepts %s", Show(w).c_str());
	}
	else
	{
		size_t n = c.boolean() ? GenLargeSize(c) : 20 + c.draw(60); std::string z; uint64_t kind = c.draw(4); bool neg = c.boolean(); if (neg) z = "-";
		for (size_t i = 0; i < n; i++) z += kind == 0 ? '0' : kind == 1 ? '9' : kind == 2 ? (char)('0' + (i * 7 + n) % 10) : i == 0 ? '1' : '0';
		if (c.boolean() || (n < 20 && kind)) z = (neg ? "-" : "") + std::string(n, '0') + t.substr(t[0] == '-'); // leading zeros
		if (z.size() < 21 + neg && !(z.size() > 1 + neg && z[neg] == '0')) z = "0" + std::string(30, '5');
		c.note("%zu digits", z.size()); 
		bool valid; { bool pn; unsigned __int128 pv; valid = Parse(z, pn, pv) && pv <= UINT64_MAX; } PBT_CHECK(!valid, "generator"); CheckAllParsers(c, z);
		double want = strtod(z.c_str(), nullptr); bool ok = false; if (std::isfinite(want)) { double r = atof_test(A(c, z), ok); PBT_CHECK(ok && r == want, "atof of %zu digits", z.size()); ok = false; r = wtof_test(W(c, z), ok); PBT_CHECK(ok && r == want, "wtof of %zu digits", z.size()); }
	}
}

PBT_TEST(C05, doubles, 100000, pbt::F_NONE)
{
	double x;
	switch (c.draw(6))
	{
	case 0: x = (double)GenI64(c); break;
	case 1: x = (double)(int64_t)c.draw(2000000000) / 1000000; break;
	case 2: x = (double)(int64_t)c.draw(1u << 20) / (double)(1u << c.draw(7)); break;
	case 3: { uint64_t b = c.bits64(); memcpy(&x, &b, 8); if (!std::isfinite(x)) x = 0.5; break; }
	case 4: { static const double e[] = { 0, 1, 0.1, 0.5, 1e-6, 5e-7, 4e-7, 1e-7, DBL_MAX, DBL_MIN, 1e15, 123456789.125, 1e22, 0.999999, 0.9999999, 9.9999995, 1e300 }; x = e[c.draw(17)]; break; }
	default: x = (double)(int64_t)c.draw(1000000) / 1000000;
	}
	if (c.boolean()) x = -x;
	c.note("%.17g", x);
	c.nontrivial();
	auto s = Of(ftoa(x));
	PBT_CHECK(Of(ftow(x)) == s, "ftoa and ftow differ for %.17g", x);
	// shape: [-]digits[.digits without trailing zero], at most 6 decimals
	size_t i = 0, n = s.size();
	if (i < n && s[i] == '-') i++;
	size_t d = i; while (i < n && s[i] >= '0' && s[i] <= '9') i++;
	PBT_CHECK(i > d, "ftoa(%.17g) = \"%s\" is not a decimal number", x, s.c_str());
	if (i < n)
	{
		PBT_CHECK(s[i] == '.', "ftoa(%.17g) = \"%s\" is not a decimal number", x, s.c_str());
		size_t f = ++i; while (i < n && s[i] >= '0' && s[i] <= '9') i++;
		PBT_CHECK(i == n && i > f && s[n - 1] != '0', "ftoa(%.17g) = \"%s\" is not a trimmed decimal number", x, s.c_str());
	}
	bool ok = false; double back = atof_test(A(c, s), ok);
	PBT_CHECK(ok, "atof rejects ftoa(%.17g) = \"%s\"", x, s.c_str());
	double tol = 5.0000001e-7 + std::fabs(x) * 4e-16;
	PBT_CHECK(std::fabs(back - x) <= tol, "ftoa(%.17g) = \"%s\" is not within 5e-7", x, s.c_str());
	if (std::fabs(x) >= 9007199254740992.0 || x == std::floor(x)) PBT_CHECK(back == x, "integral double %.17g does not round trip: \"%s\"", x, s.c_str());
	if (std::fabs(x) < 1e6) { double m = std::round(x * 1e6); if (std::fabs(x) < 1e6 && m / 1e6 == x) PBT_CHECK(back == x, "%.17g has 6 decimals and does not round trip: \"%s\"", x, s.c_str()); }
	ok = false; double wback = wtof_test(W(c, s), ok);
	PBT_CHECK(ok && wback == back, "wtof and atof differ on \"%s\"", s.c_str());
	PBT_CHECK(atof(A(c, s)) == back && wtof(W(c, s)) == back, "atof/wtof differ from their _test variants on \"%s\"", s.c_str());
	// non-finite values must not crash
	if (c.chance(1, 20)) { ftoa(std::numeric_limits<double>::infinity()); ftoa(-std::numeric_limits<double>::infinity()); ftow(std::numeric_limits<double>::quiet_NaN()); }
}

PBT_TEST(C05, double_texts, 60000, pbt::F_NONE)
{
	std::string t;
	if (c.boolean()) t += '-';
	size_t a = 1 + c.size(18), b = c.size(18);
	for (size_t i = 0; i < a; i++) t += (char)('0' + c.draw(10));
	if (b) { t += '.'; for (size_t i = 0; i < b; i++) t += (char)('0' + c.draw(10)); }
	if (c.chance(1, 3)) { t += c.boolean() ? 'e' : 'E'; int64_t e = c.range(-320, 310); t += std::to_string(e); }
	std::string bad = t;
	bool isBad = c.chance(1, 3);
	if (isBad) { static const char* tail[] = { " ", "x", ".", "..", "-", "a1", ",0", "e", "\t" }; const char* q = tail[c.draw(9)]; bad = t + q; if (*q == '.' && t.find_first_of(".eE") == std::string::npos && q[1] == 0) { bad = t + "x"; } }
	if (c.chance(1, 20)) { isBad = true; static const char* no[] = { "", "", "-", ".", "-.", "e5", "x", "+", "1 2", "--1", "1-1" }; bad = no[c.draw(11)]; }
	c.note("\"%s\"", bad.c_str());
	if (isBad) c.label("rejected text");
	c.nontrivial();
	double want = strtod(t.c_str(), nullptr);
	bool ok = isBad; double r = atof_test(A(c, bad), ok);
	PBT_CHECK(ok == !isBad, "atof_test(\"%s\") success = %d", bad.c_str(), ok);
	bool wok = isBad; double wr = wtof_test(W(c, bad), wok);
	PBT_CHECK(wok == !isBad, "wtof_test(\"%s\") success = %d", bad.c_str(), wok);
	if (!isBad) PBT_CHECK(r == want && wr == want, "value of \"%s\" is wrong", bad.c_str());
	PBT_CHECK(atof(A(c, bad)) == (isBad ? 0 : want), "atof(\"%s\")", bad.c_str());
	PBT_CHECK(wtof(W(c, bad)) == (isBad ? 0 : want), "wtof(\"%s\")", bad.c_str());
}

static void LetterCase(Ctx& c, bool large)
{
	bool utf = c.boolean();
	setlocale(LC_ALL, utf ? "C.UTF-8" : "C");
	std::string a; size_t n = c.size(20);
	for (size_t i = 0; i < n; i++) a += c.chance(3, 4) ? (char)((c.boolean() ? 'a' : 'A') + c.draw(26)) : (char)(1 + c.draw(utf ? 127 : 255));
	std::wstring w; n = c.size(20);
	for (size_t i = 0; i < n; i++)
	{
		wchar_t x;
		switch (c.draw(4)) { case 0: case 1: x = (wchar_t)((c.boolean() ? 'a' : 'A') + c.draw(26)); break; case 2: x = (wchar_t)(1 + c.draw(0x17F)); break; default: x = (wchar_t)(1 + c.draw(0x10FFFF)); }
		w += x;
	}
	if (large)
	{
		size_t reps = GenLargeSize(c); std::string a0 = a; std::wstring w0 = w; if (a.size()) while (a.size() < reps) a += a0; if (w.size()) while (w.size() < reps) w += w0;
		a += "Zz"; w += L"Zz";
	}
	c.note("%s %s locale %s", Show(a).c_str(), Show(w).c_str(), utf ? "C.UTF-8" : "C");
	AString as = A(c, a); WString ws = WString::CopyFrom(w.c_str(), (vint)w.size());
	if (c.boolean() && w.size() > 1) { ws = ws.Sub(1, (vint)w.size() - 1); w = w.substr(1); }
	AString al = alower(as), au = aupper(as); WString wl = wlower(ws), wu = wupper(ws);
	PBT_CHECK(al.Length() == (vint)a.size() && au.Length() == (vint)a.size(), "case mapping changes the length of %s", Show(a).c_str());
	PBT_CHECK(wl.Length() == (vint)w.size() && wu.Length() == (vint)w.size(), "case mapping changes the length of %s", Show(w).c_str());
	for (size_t i = 0; i < a.size(); i++)
	{
		if (isalpha((unsigned char)a[i])) c.nontrivial();
		unsigned char ch = (unsigned char)a[i];
		char lo = ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : (char)ch, up = ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : (char)ch;
		PBT_CHECK(al[(vint)i] == lo, "alower of %s wrong at %zu", Show(a).c_str(), i);
		PBT_CHECK(au[(vint)i] == up, "aupper of %s wrong at %zu", Show(a).c_str(), i);
		PBT_CHECK(as[(vint)i] == a[i], "case mapping changes its argument");
	}
	for (size_t i = 0; i < w.size(); i++)
	{
		if (w[i] > 127) c.label("wide non-ASCII");
		PBT_CHECK(wl[(vint)i] == (wchar_t)towlower(w[i]), "wlower of %s wrong at %zu", Show(w).c_str(), i);
		PBT_CHECK(wu[(vint)i] == (wchar_t)towupper(w[i]), "wupper of %s wrong at %zu", Show(w).c_str(), i);
		PBT_CHECK(ws[(vint)i] == w[i], "case mapping changes its argument");
	}
	setlocale(LC_ALL, "C");
}
PBT_TEST(C05, letter_case, 60000, pbt::F_NONE) { LetterCase(c, false); }
PBT_TEST(C05, large_letter_case, 1500, pbt::F_NONE) { LetterCase(c, true); }
