// C06: List and Array behave as plain sequences under every history; failing calls change nothing
#include "tracked.h"
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C06,
	"Each case is a history of up to 80 operations on two lists (or two arrays): add, insert, bulk growth, remove by value, at an index or by range, set, clear, move, search, read, arguments that alias elements of the same list, "
	"and out-of-range calls on both sides of every bound, for int, a lifetime-tracking type, strings and types that know their address, are counted or have an odd size, mirrored by std::vector and compared completely after every operation. "
	"Non-trivial: the history removed elements from, or inserted in the middle of, a list of at least 5 elements.");

namespace
{
	vint Bad(Ctx& c, vint hi) // an index outside [0, hi]
	{
		switch (c.draw(5)) { case 0: return -1; case 1: return hi + 1; case 2: return hi + 1 + (vint)c.draw(5); case 3: return (vint)0x8000000000000000ull; default: return (vint)0x7FFFFFFFFFFFFFFFll; }
	}

	template<typename T>
	struct ListModel
	{
		Ctx& c;
		List<T> l[2];
		std::vector<int> m[2];
		bool interesting = false, large;

		ListModel(Ctx& _c, bool _large = false) :c(_c), large(_large) {}

		void Verify(int a, const char* op)
		{
			CheckFault(c, op);
			PBT_CHECK(l[a].Count() == (vint)m[a].size(), "after %s: Count() is %lld, expected %zu", op, (long long)l[a].Count(), m[a].size());
			for (size_t i = 0; i < m[a].size(); i++)
			{
				int g = Elem<T>::Read(l[a].Get((vint)i));
				PBT_CHECK(g == m[a][i], "after %s: element %zu of %zu is %d, expected %d", op, i, m[a].size(), g, m[a][i]);
				PBT_CHECK(Elem<T>::Read(((const List<T>&)l[a])[(vint)i]) == g, "after %s: operator[] and Get differ at %zu", op, i);
			}
		}

		void Step()
		{
			int a = (int)c.draw(2), b = 1 - a;
			auto& L = l[a]; auto& M = m[a];
			vint n = (vint)M.size();
			int v = large && n && c.boolean() ? M[c.draw(n)] : (int)c.draw(12);
			const char* op = "";
			switch (c.draw(20))
			{
			case 0: { op = "Add"; c.note("l%d.Add(%d)", a, v); T x = Elem<T>::Make(v); vint r = c.boolean() ? L.Add(x) : L.Add(std::move(x)); PBT_CHECK(r == n, "Add returns %lld, expected %lld", (long long)r, (long long)n); M.push_back(v); break; }
			case 1: case 2:
			{
				op = "Insert"; vint i = (vint)c.draw(n + 1); c.note("l%d.Insert(%lld,%d)", a, (long long)i, v);
				T x = Elem<T>::Make(v); vint r = c.boolean() ? L.Insert(i, x) : L.Insert(i, std::move(x));
				PBT_CHECK(r == i, "Insert(%lld) returns %lld", (long long)i, (long long)r); M.insert(M.begin() + i, v); if (n >= 5 && i < n) interesting = true; break;
			}
			case 3: case 4: { op = "bulk Add"; size_t k = large ? GenLargeSize(c, 12) : c.size(50); c.note("l%d.Add x%zu", a, k); for (size_t i = 0; i < k && M.size() < (large ? 9000 : 300); i++) { L.Add(Elem<T>::Make(v + (int)i)); M.push_back(v + (int)i); } break; }
			case 5: case 6:
			{
				op = "RemoveAt"; if (!n) break; vint i = (vint)c.draw(n); c.note("l%d.RemoveAt(%lld)", a, (long long)i);
				PBT_CHECK(L.RemoveAt(i), "RemoveAt returns false"); M.erase(M.begin() + i); if (n >= 5) interesting = true; break;
			}
			case 7: case 8: case 9:
			{
				op = "RemoveRange"; vint i = (vint)c.draw(n + 1), k = (vint)c.draw(n - i + 1); c.note("l%d.RemoveRange(%lld,%lld)", a, (long long)i, (long long)k);
				PBT_CHECK(L.RemoveRange(i, k), "RemoveRange returns false"); M.erase(M.begin() + i, M.begin() + i + k); if (n >= 5 && k) interesting = true; break;
			}
			case 10:
			{
				op = "Remove"; c.note("l%d.Remove(%d)", a, v); auto it = std::find(M.begin(), M.end(), v);
				bool r = L.Remove(Elem<T>::Make(v)); PBT_CHECK(r == (it != M.end()), "Remove(%d) returns %d", v, r); if (it != M.end()) M.erase(it); break;
			}
			case 11: { op = "Set"; if (!n) break; vint i = (vint)c.draw(n); c.note("l%d.Set(%lld,%d)", a, (long long)i, v); T x = Elem<T>::Make(v); bool r = c.boolean() ? L.Set(i, x) : L.Set(i, std::move(x)); PBT_CHECK(r, "Set returns false"); M[i] = v; break; }
			case 12: { op = "operator[] ="; if (!n) break; vint i = (vint)c.draw(n); c.note("l%d[%lld] = %d", a, (long long)i, v); L[i] = Elem<T>::Make(v); M[i] = v; break; }
			case 13: { op = "Clear"; if (!c.chance(1, 4)) break; c.note("l%d.Clear()", a); PBT_CHECK(L.Clear(), "Clear returns false"); M.clear(); break; }
			case 14:
			{
				op = "move";
				if (c.boolean()) { c.note("l%d = move(l%d)", a, b); L = std::move(l[b]); M = m[b]; m[b].clear(); }
				else { c.note("l%d = List(move(l%d))", a, b); List<T> t(std::move(l[b])); PBT_CHECK(t.Count() == (vint)m[b].size(), "a moved list has a different size"); L = std::move(t); M = m[b]; m[b].clear(); }
				break;
			}
			case 15: case 16:
			{
				op = "search"; auto it = std::find(M.begin(), M.end(), v); vint e = it == M.end() ? -1 : (vint)(it - M.begin()); T x = Elem<T>::Make(v);
				PBT_CHECK(L.IndexOf(x) == e, "IndexOf(%d) is %lld, expected %lld", v, (long long)L.IndexOf(x), (long long)e);
				PBT_CHECK(L.Contains(x) == (e != -1), "Contains(%d) is wrong", v);
				break;
			}
			case 17: // arguments that refer to elements of the list itself
			{
				op = "aliased argument"; if (!n) break; vint j = (vint)c.draw(n), i = (vint)c.draw(n + 1); int val = M[j]; c.label("aliased argument");
				vint e = (vint)(std::find(M.begin(), M.end(), val) - M.begin());
				switch (c.draw(6))
				{
				case 3: { c.note("l%d.Remove(l%d[%lld])", a, a, (long long)j); bool r = L.Remove(L[j]); PBT_CHECK(r, "Remove of an element of the list returns false"); M.erase(M.begin() + e); if (n >= 5) interesting = true; break; }
				case 4: c.note("l%d.IndexOf(l%d[%lld])", a, a, (long long)j); PBT_CHECK(L.IndexOf(L[j]) == e && L.Contains(L[j]), "IndexOf of element %lld is %lld, expected %lld", (long long)j, (long long)L.IndexOf(L[j]), (long long)e); break;
				case 5: i = (vint)c.draw(n); c.note("l%d[%lld] = l%d[%lld]", a, (long long)i, a, (long long)j); L[i] = L[j]; M[i] = val; break;
				case 0: c.note("l%d.Add(l%d[%lld])", a, a, (long long)j); L.Add(L[j]); M.push_back(val); break;
				case 1: c.note("l%d.Insert(%lld,l%d[%lld])", a, (long long)i, a, (long long)j); L.Insert(i, L[j]); M.insert(M.begin() + i, val); break;
				default: i = (vint)c.draw(n); c.note("l%d.Set(%lld,l%d[%lld])", a, (long long)i, a, (long long)j); L.Set(i, L[j]); M[i] = val; break;
				}
				break;
			}
			default: // out of range
			{
				op = "a rejected call"; c.label("error path");
				T x = Elem<T>::Make(v); vint i = Bad(c, n - 1), j = Bad(c, n);
				switch (c.draw(8))
				{
				case 0: c.note("l%d.Insert(%lld) -> error", a, (long long)j); PBT_CHECK(ThrowsError([&] { if (c.boolean()) L.Insert(j, x); else L.Insert(j, std::move(x)); }), "Insert(%lld) into %lld elements is accepted", (long long)j, (long long)n); break;
				case 1: c.note("l%d.RemoveAt(%lld) -> error", a, (long long)i); PBT_CHECK(ThrowsError([&] { L.RemoveAt(i); }), "RemoveAt(%lld) of %lld elements is accepted", (long long)i, (long long)n); break;
				case 2: c.note("l%d.RemoveRange(%lld,0) -> error", a, (long long)j); PBT_CHECK(ThrowsError([&] { L.RemoveRange(j, 0); }), "RemoveRange(%lld,0) of %lld elements is accepted", (long long)j, (long long)n); break;
				case 3: { vint s = (vint)c.draw(n + 1); vint k = Bad(c, n - s); c.note("l%d.RemoveRange(%lld,%lld) -> error", a, (long long)s, (long long)k); PBT_CHECK(ThrowsError([&] { L.RemoveRange(s, k); }), "RemoveRange(%lld,%lld) of %lld elements is accepted", (long long)s, (long long)k, (long long)n); break; }
				case 4: c.note("l%d.Set(%lld) -> error", a, (long long)i); PBT_CHECK(ThrowsError([&] { if (c.boolean()) L.Set(i, x); else L.Set(i, std::move(x)); }), "Set(%lld) of %lld elements is accepted", (long long)i, (long long)n); break;
				case 5: c.note("l%d.Get(%lld) -> error", a, (long long)i); PBT_CHECK(ThrowsError([&] { L.Get(i); }), "Get(%lld) of %lld elements is accepted", (long long)i, (long long)n); break;
				case 6: c.note("l%d[%lld] -> error", a, (long long)i); PBT_CHECK(ThrowsError([&] { L[i]; }), "operator[](%lld) of %lld elements is accepted", (long long)i, (long long)n); break;
				default: c.note("const l%d[%lld] -> error", a, (long long)i); PBT_CHECK(ThrowsError([&] { ((const List<T>&)L)[i]; }), "operator[](%lld) of %lld elements is accepted", (long long)i, (long long)n); break;
				}
			}
			}
			Verify(0, op); Verify(1, op); CheckLive<T>(c, m[0].size() + m[1].size(), op);
		}
		void Run()
		{
			if (c.boolean()) { size_t k = c.size(30); for (size_t i = 0; i < k; i++) { int v = (int)c.draw(12); l[0].Add(Elem<T>::Make(v)); m[0].push_back(v); } c.note("l0 starts with %zu elements", k); }
			if (large) { size_t k = GenLargeSize(c, 12); for (size_t i = 0; i < k; i++) { int v = (int)(i * 7 % 1000); l[0].Add(Elem<T>::Make(v)); m[0].push_back(v); } c.note("l0 starts with %zu elements", m[0].size()); }
			size_t steps = 1 + c.size(large ? 16 : 80);
			for (size_t i = 0; i < steps; i++) Step();
			if (interesting) c.nontrivial();
		}
	};

	template<typename T>
	struct ArrayModel
	{
		Ctx& c;
		Array<T> l[2];
		std::vector<std::optional<int>> m[2]; // nullopt: never written (trivial types are not initialised)
		bool interesting = false, large;
		ArrayModel(Ctx& _c, bool _large = false) :c(_c), large(_large) {}
		vint Size(size_t max) { return (vint)(large ? GenLargeSize(c, 12) : c.size(max)); }

		void Verify(int a, const char* op)
		{
			CheckFault(c, op);
			PBT_CHECK(l[a].Count() == (vint)m[a].size(), "after %s: Count() is %lld, expected %zu", op, (long long)l[a].Count(), m[a].size());
			for (size_t i = 0; i < m[a].size(); i++)
				if (m[a][i])
				{
					int g = Elem<T>::Read(l[a].Get((vint)i));
					PBT_CHECK(g == *m[a][i], "after %s: element %zu of %zu is %d, expected %d", op, i, m[a].size(), g, *m[a][i]);
					PBT_CHECK(Elem<T>::Read(((const Array<T>&)l[a])[(vint)i]) == g, "after %s: operator[] and Get differ at %zu", op, i);
				}
		}
		std::optional<int> Fresh() { if (Elem<T>::hasDefault) return 0; return {}; }
		bool AllKnown(int a) { for (auto& x : m[a]) if (!x) return false; return true; }
		void Step()
		{
			int a = (int)c.draw(2), b = 1 - a; auto& L = l[a]; auto& M = m[a]; vint n = (vint)M.size(); int v = (int)c.draw(large ? 700 : 8);
			const char* op = "";
			switch (c.draw(11))
			{
			case 0: { op = "construct"; vint k = Size(40); c.note("a%d = Array(%lld)", a, (long long)k); L = Array<T>(k); M.assign(k, Fresh()); break; }
			case 1:
			{
				op = "construct from buffer"; size_t k = (size_t)Size(40); std::unique_ptr<T[]> raw(new T[k]); M.clear();
				int x0 = (int)c.draw(8); for (size_t i = 0; i < k; i++) { int x = large ? x0 + (int)(i % 700) : (int)c.draw(8); raw[i] = Elem<T>::Make(x); M.push_back(x); }
				c.note("a%d = Array(buffer,%zu)", a, k); L = Array<T>(raw.get(), (vint)k); break;
			}
			case 2: case 3: { op = "Resize"; vint k = Size(60); c.note("a%d.Resize(%lld)", a, (long long)k); L.Resize(k); if (n >= 5 && k != n) interesting = true; M.resize(k, Fresh()); break; }
			case 10: { op = "aliased argument"; if (!n) break; vint i = (vint)c.draw(n), j = (vint)c.draw(n); if (!M[j]) break; c.note("a%d[%lld] = a%d[%lld]", a, (long long)i, a, (long long)j); if (c.boolean()) L.Set(i, L[j]); else L[i] = L[j]; M[i] = M[j]; if (AllKnown(a)) { vint e = (vint)(std::find(M.begin(), M.end(), M[i]) - M.begin()); PBT_CHECK(L.IndexOf(L[i]) == e && L.Contains(L[i]), "IndexOf of an element of the array is wrong"); } break; }
			case 4: { op = "Set"; if (!n) break; vint i = (vint)c.draw(n); c.note("a%d.Set(%lld,%d)", a, (long long)i, v); T x = Elem<T>::Make(v); PBT_CHECK(c.boolean() ? L.Set(i, x) : L.Set(i, std::move(x)), "Set returns false"); M[i] = v; break; }
			case 5: { op = "operator[]="; if (!n) break; vint i = (vint)c.draw(n); c.note("a%d[%lld]=%d", a, (long long)i, v); L[i] = Elem<T>::Make(v); M[i] = v; break; }
			case 6: { op = "fill"; int x0 = (int)c.draw(8); for (vint i = 0; i < n; i++) { int x = large ? x0 + (int)(i * 3 % 700) : (int)c.draw(8); L[i] = Elem<T>::Make(x); M[i] = x; } c.note("fill a%d", a); break; }
			case 7: { op = "move"; c.note("a%d = move(a%d)", a, b); if (c.boolean()) { L = std::move(l[b]); } else { Array<T> t(std::move(l[b])); L = std::move(t); } M = m[b]; m[b].clear(); break; }
			case 8:
			{
				op = "search"; if (!AllKnown(a)) break; vint e = -1; for (vint i = 0; i < n; i++) if (*M[i] == v) { e = i; break; }
				T x = Elem<T>::Make(v); PBT_CHECK(L.IndexOf(x) == e, "IndexOf(%d) is %lld, expected %lld", v, (long long)L.IndexOf(x), (long long)e); PBT_CHECK(L.Contains(x) == (e != -1), "Contains(%d) is wrong", v); break;
			}
			default:
			{
				op = "a rejected call"; c.label("error path"); vint i = Bad(c, n - 1); T x = Elem<T>::Make(v);
				vint neg = c.boolean() ? -1 : -(vint)(1 + c.draw(1ull << 40));
				switch (c.draw(6))
				{
				case 0: PBT_CHECK(ThrowsError([&] { if (c.boolean()) L.Set(i, x); else L.Set(i, std::move(x)); }), "Set(%lld) of %lld is accepted", (long long)i, (long long)n); break;
				case 1: PBT_CHECK(ThrowsError([&] { L.Get(i); }), "Get(%lld) of %lld is accepted", (long long)i, (long long)n); break;
				case 2: PBT_CHECK(ThrowsError([&] { L[i]; }), "operator[](%lld) of %lld is accepted", (long long)i, (long long)n); break;
				case 3: PBT_CHECK(ThrowsError([&] { L.Resize(neg); }), "Resize(%lld) is accepted", (long long)neg); break;
				case 4: PBT_CHECK(ThrowsError([&] { Array<T> t(neg); }), "Array(%lld) is accepted", (long long)neg); break;
				default: PBT_CHECK(ThrowsError([&] { Array<T> t(&x, neg); }), "Array(buffer,%lld) is accepted", (long long)neg); break;
				}
				c.note("a%d rejected call %lld", a, (long long)i);
			}
			}
			Verify(0, op); Verify(1, op); CheckLive<T>(c, m[0].size() + m[1].size(), op);
		}
		void Run()
		{
			size_t steps = 1 + c.size(large ? 16 : 60);
			for (size_t i = 0; i < steps; i++) Step();
			if (interesting) c.nontrivial();
		}
	};
}

PBT_TEST(C06, list_int, 15000, pbt::F_NONE) { ListModel<int> m(c); m.Run(); }
PBT_TEST(C06, list_tracked, 15000, pbt::F_NONE) { Tr::Reset(); ListModel<Tr> m(c); m.Run(); }
PBT_TEST(C06, list_string, 10000, pbt::F_NONE) { ListModel<WString> m(c); m.Run(); }
PBT_TEST(C06, array_int, 15000, pbt::F_NONE) { ArrayModel<int> m(c); m.Run(); }
PBT_TEST(C06, array_tracked, 15000, pbt::F_NONE) { Tr::Reset(); ArrayModel<Tr> m(c); m.Run(); }
PBT_TEST(C06, array_string, 10000, pbt::F_NONE) { ArrayModel<WString> m(c); m.Run(); }

// element types whose construction, assignment and destruction are not trivial together
PBT_TEST(C06, list_selfref, 6000, pbt::F_NONE) { Tr::Reset(); ListModel<Sr> m(c); m.Run(); }
PBT_TEST(C06, list_counted, 6000, pbt::F_NONE) { Cn::live = 0; { ListModel<Cn> m(c); m.Run(); } PBT_CHECK(Cn::live == 0, "%ld objects are alive", Cn::live); }
PBT_TEST(C06, list_odd_size, 4000, pbt::F_NONE) { ListModel<Odd> m(c); m.Run(); }
PBT_TEST(C06, array_selfref, 6000, pbt::F_NONE) { Tr::Reset(); ArrayModel<Sr> m(c); m.Run(); }
PBT_TEST(C06, array_counted, 6000, pbt::F_NONE) { Cn::live = 0; { ArrayModel<Cn> m(c); m.Run(); } PBT_CHECK(Cn::live == 0, "%ld objects are alive", Cn::live); }
PBT_TEST(C06, array_odd_size, 4000, pbt::F_NONE) { ArrayModel<Odd> m(c); m.Run(); }

// thousands of elements
PBT_TEST(C06, large_list_int, 1500, pbt::F_NONE) { ListModel<int> m(c, true); m.Run(); }
PBT_TEST(C06, large_list_tracked, 1000, pbt::F_NONE) { Tr::Reset(); ListModel<Tr> m(c, true); m.Run(); }
PBT_TEST(C06, large_array_int, 1500, pbt::F_NONE) { ArrayModel<int> m(c, true); m.Run(); }
PBT_TEST(C06, large_array_tracked, 1000, pbt::F_NONE) { Tr::Reset(); ArrayModel<Tr> m(c, true); m.Run(); }

// lists of smart pointers are searched by raw pointer
namespace
{
template<typename P>
void ListOfPointers(Ctx& c)
{
	List<P> l; std::vector<PtrObj*> m; std::vector<P> all;
	for (int i = 0; i < 6; i++) all.push_back(P(new PtrObj(i)));
	size_t steps = c.size(40);
	for (size_t s = 0; s < steps; s++)
	{
		auto& p = all[c.draw(6)]; size_t n = m.size();
		switch (c.draw(4))
		{
		case 0: l.Add(p); m.push_back(RawOf(p)); break;
		case 1: { vint i = (vint)c.draw(n + 1); l.Insert(i, p); m.insert(m.begin() + i, RawOf(p)); if (n >= 5) c.nontrivial(); break; }
		case 2: { auto it = std::find(m.begin(), m.end(), RawOf(p)); bool r = l.Remove(RawOf(p)); PBT_CHECK(r == (it != m.end()), "Remove(raw pointer) returns %d", r); if (it != m.end()) { m.erase(it); if (n >= 5) c.nontrivial(); } break; }
		default: { auto it = std::find(m.begin(), m.end(), RawOf(p)); vint e = it == m.end() ? -1 : it - m.begin(); PBT_CHECK(l.IndexOf(RawOf(p)) == e, "IndexOf(raw pointer) is wrong"); PBT_CHECK(l.Contains(RawOf(p)) == (e != -1), "Contains(raw pointer) is wrong"); }
		}
		PBT_CHECK(l.Count() == (vint)m.size(), "Count is wrong");
		for (size_t i = 0; i < m.size(); i++) PBT_CHECK(RawOf(l[(vint)i]) == m[i] && m[i]->v == (int)(std::find_if(all.begin(), all.end(), [&](auto& q) { return RawOf(q) == m[i]; }) - all.begin()), "element %zu is wrong", i);
		c.note("%zu elements", m.size());
	}
}
}
PBT_TEST(C06, list_of_pointers, 10000, pbt::F_NONE) { PtrObj::live = 0; ListOfPointers<Ptr<PtrObj>>(c); PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live); }
PBT_TEST(C06, list_of_com_pointers, 5000, pbt::F_NONE) { PtrObj::live = 0; ListOfPointers<ComPtr<PtrObj>>(c); PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live); }

PBT_TEST(C06, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); List<int> l; std::vector<int> m; c.note("%zu elements", n); c.nontrivial();
	for (size_t i = 0; i < n; i++) { vint r = l.Add((int)i * 3); PBT_CHECK(r == (vint)i, "Add %zu returns %lld", i, (long long)r); m.push_back((int)i * 3); }
	size_t steps = 1 + c.size(8);
	for (size_t s = 0; s < steps; s++)
	{
		// positions near the ends and near powers of two as well
		size_t at = (size_t)c.draw(m.size()); switch (c.draw(4)) { case 0: at = m.size() - 1 - c.draw(3); break; case 1: at = std::min(m.size() - 1, ((size_t)1 << (12 + c.draw(6))) + c.draw(5) - 2); break; default:; }
		switch (c.draw(6))
		{
		case 0: { vint r = l.Insert((vint)at, -5); m.insert(m.begin() + at, -5); PBT_CHECK(r == (vint)at, "Insert(%zu) returns %lld", at, (long long)r); c.note("Insert(%zu)", at); break; }
		case 1: l.RemoveAt((vint)at); m.erase(m.begin() + at); c.note("RemoveAt(%zu)", at); break;
		case 2: { size_t k = (size_t)c.draw(std::min<size_t>(m.size() - at, 40000) + 1); if (k > m.size() / 2) k /= 4; l.RemoveRange((vint)at, (vint)k); m.erase(m.begin() + at, m.begin() + at + k); c.note("RemoveRange(%zu,%zu)", at, k); break; }
		case 3: { int v = m[at]; size_t e = (size_t)(std::find(m.begin(), m.end(), v) - m.begin()); PBT_CHECK(l.IndexOf(v) == (vint)e && l.Contains(v), "IndexOf finds element %zu at %lld", e, (long long)l.IndexOf(v)); c.note("IndexOf(%zu)", at); break; }
		case 4: { int v = m[at]; size_t e = (size_t)(std::find(m.begin(), m.end(), v) - m.begin()); PBT_CHECK(l.Remove(v), "Remove of element %zu fails", e); m.erase(m.begin() + e); c.note("Remove(%zu)", e); break; }
		default: { List<int> x(std::move(l)); PBT_CHECK(l.Count() == 0, "a moved list has elements"); l = std::move(x); c.note("move"); }
		}
		PBT_CHECK(l.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)l.Count(), m.size());
		for (size_t i = 0; i < m.size(); i++) if (l.Get((vint)i) != m[i]) c.fail("element %zu of %zu is %d, expected %d", i, m.size(), l.Get((vint)i), m[i]);
	}
	Array<int> a((vint)n); for (size_t i = 0; i < n; i++) a[(vint)i] = (int)i; size_t k = GenHugeSize(c); a.Resize((vint)k); PBT_CHECK(a.Count() == (vint)k, "Resize(%zu)", k);
	for (size_t i = 0; i < std::min(n, k); i++) if (a[(vint)i] != (int)i) c.fail("element %zu of an array resized from %zu to %zu is %d", i, n, k, a[(vint)i]);
	size_t e = std::min(n, k) - 1 - c.draw(1000); PBT_CHECK(a.IndexOf((int)e) == (vint)e, "IndexOf(%zu) in an array is %lld", e, (long long)a.IndexOf((int)e));
}
