// C02: comparison of strings is a total order, lexicographic by character, and == means same text
#include "util.h"
using namespace vl;
using pbt::Ctx;

PBT_RULE(C02,
	"Each case builds three strings of one character type that share long prefixes (mutations of a common base), represents each as an independent buffer, a slice of a "
	"larger string, a shared copy or an unmanaged string, and compares every pair with ==, !=, <, <=, >, >=, <=> and against raw zero-terminated pointers on either side. "
	"Oracle: element-wise lexicographic comparison written independently, plus antisymmetry and transitivity. Non-trivial: some pair has a common non-empty prefix and differs, or is equal with different storage.");

namespace
{
	template<typename T>
	int Cmp(const std::basic_string<T>& a, const std::basic_string<T>& b)
	{
		for (size_t i = 0; i < a.size() && i < b.size(); i++)
		{
			if (a[i] < b[i]) return -1;
			if (b[i] < a[i]) return 1;
		}
		return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
	}
	int Sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

	template<typename T>
	ObjectString<T> Repr(Ctx& c, const std::basic_string<T>& v, const std::basic_string<T>& stable)
	{
		using S = ObjectString<T>;
		switch (c.draw(4))
		{
		case 0: return S::CopyFrom(v.data(), (vint)v.size());
		case 1:
		{
			auto pre = GenStr<T>(c, 6), post = GenStr<T>(c, 6);
			auto all = pre + v + post;
			return S::CopyFrom(all.data(), (vint)all.size()).Sub((vint)pre.size(), (vint)v.size());
		}
		case 2: if (v.find((T)0) == v.npos) return S::Unmanaged(stable.c_str()); return S::CopyFrom(v.data(), (vint)v.size());
		default:
		{
			auto all = v + v;
			auto s = S::CopyFrom(all.data(), (vint)all.size());
			return c.boolean() ? s.Left((vint)v.size()) : s.Right((vint)v.size());
		}
		}
	}

	template<typename T>
	void Run(Ctx& c)
	{
		using S = ObjectString<T>;
		using M = std::basic_string<T>;
		M m[3]; S s[3];
		bool zeros = c.chance(1, 5); unsigned zp = zeros ? 20 : 0;
		M base = GenStr<T>(c, 24, zp);
		for (int i = 0; i < 3; i++)
		{
			m[i] = base;
			switch (c.draw(6))
			{
			case 0: break;
			case 1: m[i] = m[i].substr(0, c.draw(m[i].size() + 1)); break;
			case 2: m[i] += GenStr<T>(c, 3, zp); break;
			case 3: case 4: if (m[i].size()) m[i][c.draw(m[i].size())] = zeros && c.boolean() ? (T)0 : GenChar<T>(c); break;
			case 5: m[i] = GenStr<T>(c, 24, zp); break;
			}
		}
		for (int i = 0; i < 3; i++) { s[i] = Repr<T>(c, m[i], m[i]); c.note("s%d = %s", i, Show(m[i]).c_str()); }
		if (c.chance(1, 4)) { // slices of the very same storage
			auto w = m[0] + m[0]; auto whole = S::CopyFrom(w.data(), (vint)w.size());
			vint n = (vint)m[0].size(); vint i0 = (vint)c.draw(n + 1), i1 = (vint)c.draw(n + 1), n0 = (vint)c.draw(n + 1), n1 = (vint)c.draw(n + 1);
			if (c.boolean()) i1 = i0;
			s[0] = whole.Sub(i0, n0); s[1] = whole.Sub(i1, n1);
			M a = w.substr(i0, n0), b = w.substr(i1, n1); m[0] = a; m[1] = b;
			c.label("same storage");
			c.note("s0,s1 are slices of one string: %s %s", Show(a).c_str(), Show(b).c_str());
		}
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
			{
				int e = Cmp(m[i], m[j]);
				if (i != j && e != 0 && m[i].size() && m[j].size() && m[i][0] == m[j][0]) c.nontrivial();
				if (i != j && e == 0 && m[i].size()) { c.nontrivial(); c.label("equal"); }
				PBT_CHECK(Sign(s[i] <=> s[j]) == e, "s%d <=> s%d gives %d, expected %d", i, j, Sign(s[i] <=> s[j]), e);
				PBT_CHECK((s[i] == s[j]) == (e == 0), "== s%d s%d expected %d", i, j, e);
				PBT_CHECK((s[i] != s[j]) == (e != 0), "!= s%d s%d expected %d", i, j, e);
				PBT_CHECK((s[i] < s[j]) == (e < 0), "< s%d s%d expected %d", i, j, e);
				PBT_CHECK((s[i] <= s[j]) == (e <= 0), "<= s%d s%d expected %d", i, j, e);
				PBT_CHECK((s[i] > s[j]) == (e > 0), "> s%d s%d expected %d", i, j, e);
				PBT_CHECK((s[i] >= s[j]) == (e >= 0), ">= s%d s%d expected %d", i, j, e);
				// a raw pointer denotes the same text unless it contains a zero character
				if (m[i].find((T)0) != M::npos || m[j].find((T)0) != M::npos) { c.label("zero characters"); continue; }
				const T* raw = m[j].c_str();
				PBT_CHECK(Sign(s[i] <=> raw) == e, "s%d <=> raw s%d", i, j);
				PBT_CHECK((s[i] == raw) == (e == 0), "s%d == raw s%d", i, j);
				PBT_CHECK((s[i] != raw) == (e != 0), "s%d != raw s%d", i, j);
				PBT_CHECK((s[i] < raw) == (e < 0), "s%d < raw s%d", i, j);
				PBT_CHECK((s[i] <= raw) == (e <= 0), "s%d <= raw s%d", i, j);
				PBT_CHECK((s[i] > raw) == (e > 0), "s%d > raw s%d", i, j);
				PBT_CHECK((s[i] >= raw) == (e >= 0), "s%d >= raw s%d", i, j);
				const T* rawi = m[i].c_str();
				PBT_CHECK((rawi == s[j]) == (e == 0), "raw s%d == s%d", i, j);
				PBT_CHECK((rawi != s[j]) == (e != 0), "raw s%d != s%d", i, j);
				PBT_CHECK((rawi < s[j]) == (e < 0), "raw s%d < s%d", i, j);
				PBT_CHECK((rawi <= s[j]) == (e <= 0), "raw s%d <= s%d", i, j);
				PBT_CHECK((rawi > s[j]) == (e > 0), "raw s%d > s%d", i, j);
				PBT_CHECK((rawi >= s[j]) == (e >= 0), "raw s%d >= s%d", i, j);
			}
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
			{
				if (m[i].find((T)0) != M::npos || m[j].find((T)0) != M::npos) continue;
				// a pointer into the storage of one of the strings
				size_t k = c.draw(m[j].size() + 1); const T* p = s[j].Buffer() + k; int e = Cmp(m[i], m[j].substr(k));
				PBT_CHECK(Sign(s[i] <=> p) == e && (s[i] == p) == (e == 0) && (s[i] < p) == (e < 0), "s%d compared with the buffer of s%d from %zu", i, j, k);
				PBT_CHECK(Sign(p <=> s[i]) == -e && (p == s[i]) == (e == 0) && (p < s[i]) == (e > 0), "the buffer of s%d from %zu compared with s%d", j, k, i);
			}
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
			{
				PBT_CHECK(Sign(s[i] <=> s[j]) == -Sign(s[j] <=> s[i]), "comparison is not antisymmetric");
				for (int k = 0; k < 3; k++)
					if (s[i] <= s[j] && s[j] <= s[k]) PBT_CHECK(s[i] <= s[k], "comparison is not transitive");
			}
	}
}

#define ONE(NAME, T) PBT_TEST(C02, NAME, 40000, pbt::F_NONE) { Run<T>(c); } \
	PBT_TEST(C02, large_##NAME, 150, pbt::F_NOFUZZ) { LargeTexts large; Run<T>(c); }
ONE(order_char, char)
ONE(order_wchar, wchar_t)
ONE(order_char8, char8_t)
ONE(order_char16, char16_t)
ONE(order_char32, char32_t)
