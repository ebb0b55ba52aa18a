// C07: SortedList is always an ordered multiset under every history
#include "tracked.h"
#include <limits>
#include <cmath>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C07,
	"Each case is a history of up to 80 operations (add, bulk add ascending/descending/random, remove by value, at an index or by range, search, clear, copy, move, aliased arguments, rejected calls) on two sorted lists of int (including the limits), tracked, counted or self-addressed objects, strings, "
	"smart pointers or doubles with NaN, mirrored by a sorted std::vector and compared completely after every operation. Non-trivial: a list held at least 5 elements, at least two of them equal, and an element was removed or searched.");

namespace
{
	vint BadIndex(Ctx& c, vint hi)
	{
		switch (c.draw(4)) { case 0: return -1; case 1: return hi + 1; case 2: return (vint)0x8000000000000000ull; default: return (vint)0x7FFFFFFFFFFFFFFFll; }
	}

	template<typename T>
	struct SortedModel
	{
		Ctx& c;
		SortedList<T> l[2];
		std::vector<int> m[2];
		bool touched = false;
		int spread;
		bool large;
		// strings are ordered as text, so the model keeps values whose text order equals their numeric order
		bool extreme = false;
		int Val(int v) { return std::is_same_v<T, WString> ? (v == 0 ? 0 : 1000 + v) : extreme && v % 11 == 9 ? std::numeric_limits<int>::min() + v / 11 : extreme && v % 11 == 10 ? std::numeric_limits<int>::max() - v / 11 : v - 3; }
		SortedModel(Ctx& _c, bool _large = false) :c(_c), large(_large) { spread = (int)(c.boolean() ? 6 : large ? 3000 : 40); extreme = c.boolean(); }

		void Verify(const char* op)
		{
			CheckFault(c, op);
			for (int a = 0; a < 2; a++)
			{
				PBT_CHECK(l[a].Count() == (vint)m[a].size(), "after %s: list %d has %lld elements, expected %zu", op, a, (long long)l[a].Count(), m[a].size());
				for (size_t i = 0; i < m[a].size(); i++)
				{
					int g = Elem<T>::Read(l[a].Get((vint)i));
					PBT_CHECK(g == m[a][i], "after %s: element %zu of list %d is %d, expected %d", op, i, a, g, m[a][i]);
					PBT_CHECK(Elem<T>::Read(l[a][(vint)i]) == g, "after %s: operator[] and Get differ at %zu", op, i);
				}
				if (m[a].size() >= 5 && touched) for (size_t i = 1; i < m[a].size(); i++) if (m[a][i] == m[a][i - 1]) { c.nontrivial(); break; }
			}
		}
		void AddOne(int a, int v)
		{
			auto& M = m[a]; T x = Elem<T>::Make(v);
			vint r = (large ? M.size() % 2 == 0 : c.boolean()) ? l[a].Add(x) : l[a].Add(std::move(x));
			auto lo = std::lower_bound(M.begin(), M.end(), v) - M.begin(), hi = std::upper_bound(M.begin(), M.end(), v) - M.begin();
			PBT_CHECK(lo <= r && r <= hi, "Add(%d) returns %lld, which does not keep the order (allowed %lld..%lld)", v, (long long)r, (long long)lo, (long long)hi);
			M.insert(M.begin() + lo, v);
			PBT_CHECK(Elem<T>::Read(l[a].Get(r)) == v, "Add(%d) returns %lld, but that element is something else", v, (long long)r);
		}
		void Search(int a, int v)
		{
			auto& M = m[a]; auto it = std::lower_bound(M.begin(), M.end(), v); bool has = it != M.end() && *it == v; vint e = has ? it - M.begin() : -1;
			T x = Elem<T>::Make(v); vint g = l[a].IndexOf(x);
			PBT_CHECK(g == e, "IndexOf(%d) in %zu elements is %lld, expected %lld", v, M.size(), (long long)g, (long long)e);
			PBT_CHECK(l[a].Contains(x) == has, "Contains(%d) is %d", v, !has);
		}
		void Step()
		{
			int a = (int)c.draw(2), b = 1 - a; auto& L = l[a]; auto& M = m[a]; vint n = (vint)M.size(); int v = Val((int)c.draw(spread));
			const char* op = "";
			switch (c.draw(15))
			{
			case 0: case 1: case 2: op = "Add"; c.note("s%d.Add(%d)", a, v); AddOne(a, v); break;
			case 3: case 4:
			{
				op = "bulk Add"; size_t k = large ? GenLargeSize(c, 11) : c.size(40); int mode = (int)c.draw(4); unsigned state = large ? (unsigned)c.draw(1000) : 0; c.note("s%d.Add x%zu mode %d", a, k, mode);
				for (size_t i = 0; i < k && M.size() < (large ? 4000 : 200); i++)
					AddOne(a, mode == 0 ? Val((int)(large ? (state = state * 1664525u + 1013904223u) % 65536 % spread : c.draw(spread))) : mode == 1 ? Val((int)(i % spread)) : mode == 2 ? Val((int)(spread - 1 - i % spread)) : v);
				break;
			}
			case 5: case 6:
			{
				op = "Remove"; c.note("s%d.Remove(%d)", a, v); auto it = std::lower_bound(M.begin(), M.end(), v); bool has = it != M.end() && *it == v;
				bool r = L.Remove(Elem<T>::Make(v)); PBT_CHECK(r == has, "Remove(%d) returns %d", v, r); if (has) { M.erase(it); touched = true; } break;
			}
			case 7: { op = "RemoveAt"; if (!n) break; vint i = (vint)c.draw(n); c.note("s%d.RemoveAt(%lld)", a, (long long)i); PBT_CHECK(L.RemoveAt(i), "RemoveAt returns false"); M.erase(M.begin() + i); touched = true; break; }
			case 8: { op = "RemoveRange"; vint i = (vint)c.draw(n + 1), k = (vint)c.draw(n - i + 1); c.note("s%d.RemoveRange(%lld,%lld)", a, (long long)i, (long long)k); PBT_CHECK(L.RemoveRange(i, k), "RemoveRange returns false"); M.erase(M.begin() + i, M.begin() + i + k); if (k) touched = true; break; }
			case 9: { op = "Clear"; if (!c.chance(1, 4)) break; c.note("s%d.Clear()", a); L.Clear(); M.clear(); break; }
			case 10:
			{
				op = "move/copy";
				switch (c.draw(3))
				{
				case 0: c.note("s%d = move(s%d)", a, b); L = std::move(l[b]); M = m[b]; m[b].clear(); break;
				case 1: { c.note("s%d = SortedList(move(s%d))", a, b); SortedList<T> t(std::move(l[b])); L = std::move(t); M = m[b]; m[b].clear(); break; }
				default: { c.note("s%d = copy of s%d", a, b); SortedList<T> t(l[b]); PBT_CHECK(t.Count() == (vint)m[b].size(), "the copy has a different size"); L = std::move(t); M = m[b]; break; }
				}
				break;
			}
			case 11: case 12: { op = "search"; c.note("s%d search", a); Search(a, v); for (int i = 0; i < spread; i += large ? 7 : 1) Search(a, Val(i)); if (n >= 5) touched = true; break; }
			case 13:
			{
				op = "aliased argument"; if (!n) break; vint j = (vint)c.draw(n); int val = M[j]; c.note("s%d.Add/Remove(s%d[%lld])", a, a, (long long)j);
				if (c.boolean()) { L.Add(L[j]); M.insert(std::lower_bound(M.begin(), M.end(), val), val); }
				else { bool r = L.Remove(L[j]); PBT_CHECK(r, "Remove of an element of the list returns false"); M.erase(std::lower_bound(M.begin(), M.end(), val)); touched = true; }
				break;
			}
			default:
			{
				op = "a rejected call"; c.label("error path"); vint i = BadIndex(c, n - 1), j = BadIndex(c, n); c.note("s%d rejected call", a);
				switch (c.draw(5))
				{
				case 0: PBT_CHECK(ThrowsError([&] { L.RemoveAt(i); }), "RemoveAt(%lld) of %lld is accepted", (long long)i, (long long)n); break;
				case 1: PBT_CHECK(ThrowsError([&] { L.RemoveRange(j, 0); }), "RemoveRange(%lld,0) of %lld is accepted", (long long)j, (long long)n); break;
				case 2: { vint s = (vint)c.draw(n + 1); vint k = BadIndex(c, n - s); PBT_CHECK(ThrowsError([&] { L.RemoveRange(s, k); }), "RemoveRange(%lld,%lld) of %lld is accepted", (long long)s, (long long)k, (long long)n); break; }
				case 3: PBT_CHECK(ThrowsError([&] { L.Get(i); }), "Get(%lld) of %lld is accepted", (long long)i, (long long)n); break;
				default: PBT_CHECK(ThrowsError([&] { L[i]; }), "operator[](%lld) of %lld is accepted", (long long)i, (long long)n); break;
				}
			}
			}
			Verify(op); CheckLive<T>(c, m[0].size() + m[1].size(), op);
		}
		void Run() { size_t steps = 1 + c.size(large ? 16 : 80); for (size_t i = 0; i < steps; i++) Step(); }
	};
}

PBT_TEST(C07, sorted_int, 20000, pbt::F_NONE) { SortedModel<int> m(c); m.Run(); }
PBT_TEST(C07, sorted_tracked, 20000, pbt::F_NONE) { Tr::Reset(); SortedModel<Tr> m(c); m.Run(); }
PBT_TEST(C07, sorted_string, 10000, pbt::F_NONE) { SortedModel<WString> m(c); m.Run(); }

PBT_TEST(C07, sorted_selfref, 8000, pbt::F_NONE) { Tr::Reset(); SortedModel<Sr> m(c); m.Run(); }
PBT_TEST(C07, sorted_counted, 8000, pbt::F_NONE) { Cn::live = 0; { SortedModel<Cn> m(c); m.Run(); } PBT_CHECK(Cn::live == 0, "%ld objects are alive", Cn::live); }
PBT_TEST(C07, sorted_odd_size, 5000, pbt::F_NONE) { SortedModel<Odd> m(c); m.Run(); }

// texts of which one may be the beginning of another
PBT_TEST(C07, texts, 8000, pbt::F_NONE)
{
	SortedList<WString> l; std::vector<std::wstring> m; size_t steps = 1 + c.size(60); bool eq = false, touched = false;
	for (size_t s = 0; s < steps; s++)
	{
		std::wstring k = GenTextKey(c); WString key = WString::CopyFrom(k.c_str(), (vint)k.size()); if (c.chance(1, 4) && k.size()) { WString t = L"#" + key + L"#"; key = t.Sub(1, t.Length() - 2); }
		auto it = std::lower_bound(m.begin(), m.end(), k); bool has = it != m.end() && *it == k;
		switch (c.draw(4))
		{
		case 0: case 1: { if (has) eq = true; l.Add(key); m.insert(it, k); break; }
		case 2: { bool r = l.Remove(key); PBT_CHECK(r == has, "Remove returns %d", (int)r); if (has) { m.erase(it); touched = true; } break; }
		default: PBT_CHECK(l.IndexOf(key) == (has ? it - m.begin() : -1) && l.Contains(key) == has, "IndexOf is %lld", (long long)l.IndexOf(key));
		}
		c.note("%s: %zu", std::string(k.begin(), k.end()).c_str(), m.size());
		PBT_CHECK(l.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)l.Count(), m.size());
		for (size_t i = 0; i < m.size(); i++) PBT_CHECK(std::wstring(l[(vint)i].Buffer(), (size_t)l[(vint)i].Length()) == m[i], "element %zu is wrong", i);
	}
	if (m.size() >= 5 && eq && touched) c.nontrivial();
}

PBT_TEST(C07, large_int, 800, pbt::F_NONE) { SortedModel<int> m(c, true); m.Run(); }
PBT_TEST(C07, large_tracked, 500, pbt::F_NONE) { Tr::Reset(); SortedModel<Tr> m(c, true); m.Run(); }

// lists of smart pointers are ordered by address and searched by raw pointer
namespace
{
template<typename P>
void SortedPointers(Ctx& c)
{
	SortedList<P> l; std::vector<PtrObj*> m; std::vector<P> all;
	for (int i = 0; i < 8; i++) all.push_back(P(new PtrObj(i)));
	size_t steps = c.size(60); bool eq = false;
	for (size_t s = 0; s < steps; s++)
	{
		auto& p = all[c.draw(8)]; auto it = std::lower_bound(m.begin(), m.end(), RawOf(p)); bool has = it != m.end() && *it == RawOf(p);
		switch (c.draw(3))
		{
		case 0: { if (has) eq = true; vint r = l.Add(p); m.insert(it, RawOf(p)); PBT_CHECK(r >= 0 && r < l.Count() && RawOf(l[r]) == RawOf(p), "Add returns a wrong index"); break; }
		case 1: { bool r = l.Remove(RawOf(p)); PBT_CHECK(r == has, "Remove(raw pointer) returns %d", r); if (m.size() >= 5 && eq) c.nontrivial(); if (has) m.erase(it); break; }
		default: { vint e = has ? it - m.begin() : -1; PBT_CHECK(l.IndexOf(RawOf(p)) == e, "IndexOf(raw pointer) is %lld, expected %lld", (long long)l.IndexOf(RawOf(p)), (long long)e); PBT_CHECK(l.Contains(RawOf(p)) == has, "Contains is wrong"); }
		}
		PBT_CHECK(l.Count() == (vint)m.size(), "Count is wrong");
		for (size_t i = 0; i < m.size(); i++) PBT_CHECK(RawOf(l[(vint)i]) == m[i], "element %zu is wrong", i);
		c.note("%zu elements", m.size());
	}
	l.Clear();
	for (size_t i = 0; i < all.size(); i++) PBT_CHECK(all[i]->v == (int)i, "an object changed");
}
}
PBT_TEST(C07, sorted_pointers, 15000, pbt::F_NONE) { PtrObj::live = 0; SortedPointers<Ptr<PtrObj>>(c); PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live); }
PBT_TEST(C07, sorted_com_pointers, 8000, pbt::F_NONE) { PtrObj::live = 0; SortedPointers<ComPtr<PtrObj>>(c); PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live); }

// doubles: NaN has no place in the order and must be refused without any effect
PBT_TEST(C07, sorted_double, 15000, pbt::F_NONE)
{
	SortedList<double> l; std::vector<double> m;
	const double inf = std::numeric_limits<double>::infinity();
	const double vals[] = { 0.0, 1.0, -1.0, 0.5, inf, -inf, 1e300, -1e-300, 2.0 };
	size_t steps = c.size(60);
	for (size_t s = 0; s < steps; s++)
	{
		double v = vals[c.draw(9)];
		auto it = std::lower_bound(m.begin(), m.end(), v); bool has = it != m.end() && *it == v; vint e = has ? it - m.begin() : -1;
		switch (c.draw(5))
		{
		case 0: case 1: l.Add(v); m.insert(it, v); break;
		case 2: { bool r = l.Remove(v); PBT_CHECK(r == has, "Remove returns %d", r); if (has) m.erase(it); break; }
		case 3: PBT_CHECK(l.IndexOf(v) == e, "IndexOf(%g) is %lld, expected %lld", v, (long long)l.IndexOf(v), (long long)e); break;
		default:
			if (m.empty()) break;
			c.label("NaN"); if (m.size() >= 5) c.nontrivial();
			switch (c.draw(4))
			{
			case 0: PBT_CHECK(ThrowsError([&] { l.Add(NAN); }), "Add(NaN) is accepted"); break;
			case 1: PBT_CHECK(ThrowsError([&] { l.IndexOf(NAN); }), "IndexOf(NaN) is accepted"); break;
			case 2: PBT_CHECK(ThrowsError([&] { l.Contains(NAN); }), "Contains(NaN) is accepted"); break;
			default: PBT_CHECK(ThrowsError([&] { l.Remove(NAN); }), "Remove(NaN) is accepted"); break;
			}
		}
		PBT_CHECK(l.Count() == (vint)m.size(), "Count is wrong");
		for (size_t i = 0; i < m.size(); i++) PBT_CHECK(l[(vint)i] == m[i], "element %zu is %g, expected %g", i, l[(vint)i], m[i]);
		c.note("%zu elements", m.size());
	}
}

PBT_TEST(C07, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); SortedList<int> l; std::vector<int> m; int gap = 1 + (int)c.draw(3), dup = 1 + (int)c.draw(3); c.note("%zu elements, gap %d, every value %d times", n, gap, dup); c.nontrivial();
	for (size_t i = 0; i < n; i++) { int v = (int)(i / dup) * gap; vint r = l.Add(v); PBT_CHECK(r >= 0 && r <= (vint)i && l[r] == v, "Add %zu returns %lld", i, (long long)r); m.push_back(v); }
	size_t steps = 1 + c.size(10); int top = m.back() + 3;
	for (size_t s = 0; s < steps; s++)
	{
		int v = (int)c.draw(top) - 1; switch (c.draw(4)) { case 0: v = top - (int)c.draw(6); break; case 1: v = (int)c.draw(6) - 2; break; default:; }
		auto lo = std::lower_bound(m.begin(), m.end(), v); bool has = lo != m.end() && *lo == v; size_t first = (size_t)(lo - m.begin());
		switch (c.draw(4))
		{
		case 0: { vint r = l.Add(v); PBT_CHECK(r >= 0 && r < l.Count() && l[r] == v, "Add(%d) returns %lld", v, (long long)r); m.insert(lo, v); c.note("Add(%d)", v); break; }
		case 1: { bool r = l.Remove(v); PBT_CHECK(r == has, "Remove(%d) returns %d", v, (int)r); if (has) m.erase(lo); c.note("Remove(%d)", v); break; }
		case 2: { size_t at = (size_t)c.draw(m.size()); l.RemoveAt((vint)at); m.erase(m.begin() + at); c.note("RemoveAt(%zu)", at); break; }
		default: PBT_CHECK(l.Contains(v) == has && l.IndexOf(v) == (has ? (vint)first : -1), "IndexOf(%d) is %lld", v, (long long)l.IndexOf(v)); c.note("IndexOf(%d)", v);
		}
		PBT_CHECK(l.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)l.Count(), m.size());
		for (size_t i = 0; i < m.size(); i++) if (l.Get((vint)i) != m[i]) c.fail("element %zu of %zu is %d, expected %d", i, m.size(), l.Get((vint)i), m[i]);
	}
	for (size_t i = 0; i < m.size(); i += 37) { size_t e = (size_t)(std::lower_bound(m.begin(), m.end(), m[i]) - m.begin()); if (l.IndexOf(m[i]) != (vint)e) c.fail("IndexOf(%d) is %lld, expected %zu", m[i], (long long)l.IndexOf(m[i]), e); }
}
