// C09: Group is a multimap ordered by key; GroupInnerJoin visits every key of both sides exactly once
#include <limits>
#include <set>
#include "tracked.h"
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C09,
	"Each case is a history of up to 80 operations (Add in all value categories, Remove of a key, Remove of a value, Contains, Get, Clear, move, aliased arguments) on two groups, with integer (including the limits), text or pointer keys, mirrored by std::map of std::vector and compared "
	"completely after every operation, including enumeration with Clone and Reset; at the end the two groups are joined. Non-trivial: some key held at least two values and a value or key was removed.");

namespace
{
	template<typename K, typename V>
	struct GroupModel
	{
		Ctx& c;
		Group<K, V> g[2];
		std::map<int, std::vector<int>> m[2];
		bool removed = false, multi = false;
		int spread;
		static int Norm(int k) { return std::is_same_v<K, WString> ? (k == 0 ? 0 : 100 + k) : k % 7 == 5 ? std::numeric_limits<int>::min() + k / 7 : k % 7 == 6 ? std::numeric_limits<int>::max() - k / 7 : k % 2 ? -k : k; }
		bool large;
		GroupModel(Ctx& _c, bool _large = false) :c(_c), large(_large) { spread = large ? (c.boolean() ? 5 : 700) : c.boolean() ? 4 : 15; }
		void Fill(int a)
		{
			size_t n = GenLargeSize(c, 10); int mode = (int)c.draw(3), start = (int)c.draw(spread); unsigned state = (unsigned)c.draw(1000); c.note("g%d: %zu values, mode %d", a, n, mode);
			for (size_t i = 0; i < n; i++)
			{
				state = state * 1664525u + 1013904223u; int k = Norm(mode == 0 ? (int)((start + i) % spread) : mode == 1 ? (int)((start + 2 * spread - i % spread) % spread) : (int)(state / 65536 % spread)), v = (int)(state / 65536 % 5);
				g[a].Add(Elem<K>::Make(k), Elem<V>::Make(v)); m[a][k].push_back(v);
			}
		}

		void Verify(const char* op)
		{
			CheckFault(c, op);
			for (int a = 0; a < 2; a++)
			{
				auto& G = g[a]; auto& M = m[a];
				PBT_CHECK(G.Count() == (vint)M.size() && G.Keys().Count() == (vint)M.size(), "after %s: Count() is %lld, Keys().Count() is %lld, expected %zu", op, (long long)G.Count(), (long long)G.Keys().Count(), M.size());
				vint i = 0;
				for (auto& [k, vs] : M)
				{
					int gk = Elem<K>::Read(G.Keys()[i]);
					PBT_CHECK(gk == k, "after %s: key %lld is %d, expected %d", op, (long long)i, gk, k);
					auto& L = G.GetByIndex(i);
					PBT_CHECK(L.Count() == (vint)vs.size(), "after %s: key %d has %lld values, expected %zu", op, k, (long long)L.Count(), vs.size());
					for (size_t j = 0; j < vs.size(); j++) PBT_CHECK(Elem<V>::Read(L[(vint)j]) == vs[j], "after %s: value %zu of key %d is %d, expected %d", op, j, k, Elem<V>::Read(L[(vint)j]), vs[j]);
					if (vs.size() >= 2) multi = true;
					i++;
				}
			}
			if (multi && removed) c.nontrivial();
		}
		void Lookup(int a)
		{
			const auto& G = g[a]; auto& M = m[a];
			int v0 = (int)c.draw(5);
			for (int i = 0; i < spread; i++)
			{
				int k = Norm(i); auto it = M.find(k); K key = Elem<K>::Make(k);
				PBT_CHECK(G.Contains(key) == (it != M.end()), "Contains(%d) is wrong", k);
				int v = large ? (v0 + i) % 5 : (int)c.draw(5); bool has = it != M.end() && std::find(it->second.begin(), it->second.end(), v) != it->second.end();
				PBT_CHECK(G.Contains(key, Elem<V>::Make(v)) == has, "Contains(%d,%d) is %d", k, v, !has);
				if (it != M.end())
				{
					vint index = G.Keys().IndexOf(key);
					PBT_CHECK(&G.Get(key) == &G.GetByIndex(index) && &G[key] == &G.GetByIndex(index), "Get, operator[] and GetByIndex give different values of key %d", k);
				}
				else if (large ? i % 8 == 0 : c.chance(1, 8)) PBT_CHECK(ThrowsError([&] { G.Get(key); }) && ThrowsError([&] { G[key]; }), "Get(%d) of an absent key succeeds", k);
			}
			PBT_CHECK(ThrowsError([&] { G.GetByIndex(-1); }) && ThrowsError([&] { G.GetByIndex(G.Count()); }), "GetByIndex out of range succeeds");
		}
		void Enumerate(int a)
		{
			auto& G = g[a]; std::vector<std::pair<int, int>> e;
			for (auto& [k, vs] : m[a]) for (int v : vs) e.push_back({ k, v });
			Ptr<IEnumerator<Pair<const K&, const V&>>> en(G.CreateEnumerator());
			auto same = [&](size_t i, auto& x) { return Elem<K>::Read(x->Current().key) == e[i].first && Elem<V>::Read(x->Current().value) == e[i].second && x->Index() == (vint)i; };
			size_t stop = c.draw(e.size() + 1);
			for (size_t i = 0; i < stop; i++) { PBT_CHECK(en->Next(), "the enumeration ends after %zu of %zu", i, e.size()); PBT_CHECK(same(i, en), "the enumeration gives a wrong pair at %zu", i); }
			Ptr<IEnumerator<Pair<const K&, const V&>>> cl(en->Clone());
			if (stop) PBT_CHECK(same(stop - 1, cl), "a clone is not at the position of the original (%zu)", stop);
			for (size_t i = stop; i < e.size(); i++) { PBT_CHECK(cl->Next() && same(i, cl), "a cloned enumerator gives a wrong pair at %zu", i); }
			PBT_CHECK(!cl->Next(), "a cloned enumerator does not end"); for (int r = 0; r < 3; r++) PBT_CHECK(!cl->Next(), "Next() gives an element again after the end");
			en->Reset();
			for (size_t i = 0; i < e.size(); i++) { PBT_CHECK(en->Next() && same(i, en), "a reset enumerator gives a wrong pair at %zu", i); }
			PBT_CHECK(!en->Next() && !en->Next() && !en->Next(), "a reset enumerator does not end, or goes on after its end");
			{ Ptr<IEnumerator<Pair<const K&, const V&>>> ended(cl->Clone()); PBT_CHECK(!ended->Next() && !ended->Next(), "a clone of an ended enumerator gives an element"); ended->Reset(); for (size_t i = 0; i < e.size() && i < 3; i++) PBT_CHECK(ended->Next() && same(i, ended), "a clone of an ended enumerator gives a wrong pair after Reset at %zu", i); }
		}
		void Step()
		{
			int a = (int)c.draw(2), b = 1 - a; auto& G = g[a]; auto& M = m[a]; int k = Norm((int)c.draw(spread)), v = (int)c.draw(5);
			const char* op = "";
			switch (c.draw(large ? 13 : 12))
			{
			case 0: case 1: case 2: case 3: case 4:
			{
				op = "Add"; c.note("g%d.Add(%d,%d)", a, k, v); K key = Elem<K>::Make(k); V val = Elem<V>::Make(v); bool r = false;
				switch (c.draw(6)) { case 0: r = G.Add(key, val); break; case 1: r = G.Add(key, std::move(val)); break; case 2: r = G.Add(std::move(key), val); break; case 3: r = G.Add(std::move(key), std::move(val)); break;
				case 4: { Pair<K, V> p(key, val); r = G.Add(p); break; } default: { Pair<K, V> p(key, val); r = G.Add(std::move(p)); } }
				PBT_CHECK(r, "Add returns false"); M[k].push_back(v); break;
			}
			case 5: case 6:
			{
				op = "Remove(key,value)"; c.note("g%d.Remove(%d,%d)", a, k, v); auto it = M.find(k); bool has = false;
				if (it != M.end()) { auto p = std::find(it->second.begin(), it->second.end(), v); if (p != it->second.end()) { has = true; it->second.erase(p); if (it->second.empty()) M.erase(it); removed = true; } }
				bool r = G.Remove(Elem<K>::Make(k), Elem<V>::Make(v)); PBT_CHECK(r == has, "Remove(%d,%d) returns %d", k, v, r); break;
			}
			case 7: { op = "Remove(key)"; c.note("g%d.Remove(%d)", a, k); bool r = G.Remove(Elem<K>::Make(k)); PBT_CHECK(r == (M.count(k) > 0), "Remove(%d) returns %d", k, r); if (M.erase(k)) removed = true; break; }
			case 8:
				op = "Clear/move";
				if (c.chance(1, 4)) { c.note("g%d.Clear()", a); PBT_CHECK(G.Clear(), "Clear returns false"); M.clear(); }
				else if (c.boolean()) { c.note("g%d = move(g%d)", a, b); G = std::move(g[b]); M = m[b]; m[b].clear(); }
				else { c.note("g%d = Group(move(g%d))", a, b); Group<K, V> t(std::move(g[b])); G = std::move(t); M = m[b]; m[b].clear(); }
				break;
			case 9:
			{
				op = "aliased argument"; if (M.empty()) break; c.label("aliased argument"); vint i = (vint)c.draw(M.size()), j = (vint)c.draw(M.size());
				auto it = std::next(M.begin(), i); auto jt = std::next(M.begin(), j); vint jj = (vint)c.draw(jt->second.size()); int vj = jt->second[jj]; c.note("g%d aliased", a);
				auto first = std::find(jt->second.begin(), jt->second.end(), vj);
				switch (c.draw(7))
				{
				case 0: case 1: G.Add(G.Keys()[i], G.GetByIndex(j)[jj]); it->second.push_back(vj); break;
				case 2: case 3: G.Add(Elem<K>::Make(k), G.GetByIndex(j)[jj]); M[k].push_back(vj); break;
				case 4: { bool r = G.Remove(G.Keys()[i]); PBT_CHECK(r, "Remove of a key of the group returns false"); M.erase(it); removed = true; break; }
				case 5: { bool r = G.Remove(G.Keys()[j], G.GetByIndex(j)[jj]); PBT_CHECK(r, "Remove of a key and a value of the group returns false"); jt->second.erase(first); if (jt->second.empty()) M.erase(jt); removed = true; break; }
				default: PBT_CHECK(G.Contains(G.Keys()[j], G.GetByIndex(j)[jj]) && G.Contains(G.Keys()[i]) && &G.Get(G.Keys()[i]) == &G.GetByIndex(i), "a key or value of the group is not found");
				}
				break;
			}
			case 10: op = "lookup"; c.note("lookup g%d", a); Lookup(a); break;
			case 12: op = "fill"; Fill(a); break;
			default: op = "enumeration"; c.note("enumerate g%d", a); Enumerate(a);
			}
			Verify(op);
		}
		void Join()
		{
			std::vector<int> order; // keys in the order they were visited
			std::vector<int> seen1, seen2;
			auto match = [&](const List<V>& l, const std::vector<int>& e) { if (l.Count() != (vint)e.size()) return false; for (vint i = 0; i < l.Count(); i++) if (Elem<V>::Read(l[i]) != e[i]) return false; return true; };
			GroupInnerJoin(g[0], g[1],
				[&](const K& k, const List<V>& l) { int x = Elem<K>::Read(k); order.push_back(x); seen1.push_back(x); PBT_CHECK(m[0].count(x) && !m[1].count(x), "key %d is reported as only in the first group", x); PBT_CHECK(match(l, m[0][x]), "wrong values for key %d", x); },
				[&](const K& k, const List<V>& l) { int x = Elem<K>::Read(k); order.push_back(x); seen2.push_back(x); PBT_CHECK(m[1].count(x) && !m[0].count(x), "key %d is reported as only in the second group", x); PBT_CHECK(match(l, m[1][x]), "wrong values for key %d", x); },
				[&](const K& k, const List<V>& l1, const List<V>& l2) { int x = Elem<K>::Read(k); order.push_back(x); seen1.push_back(x); seen2.push_back(x); PBT_CHECK(m[0].count(x) && m[1].count(x), "key %d is reported as in both groups", x); PBT_CHECK(match(l1, m[0][x]) && match(l2, m[1][x]), "wrong values for key %d", x); });
			PBT_CHECK(std::is_sorted(order.begin(), order.end()) && std::adjacent_find(order.begin(), order.end()) == order.end(), "keys are not visited once each in order");
			PBT_CHECK(seen1.size() == m[0].size() && seen2.size() == m[1].size(), "%zu of %zu and %zu of %zu keys were visited", seen1.size(), m[0].size(), seen2.size(), m[1].size());
			if (m[0].size() >= 2 && m[1].size() >= 2) c.label("join");
		}
		void Run() { if (large) { Fill(0); if (c.boolean()) Fill(1); } size_t steps = 1 + c.size(large ? 20 : 80); for (size_t i = 0; i < steps; i++) Step(); for (int a = 0; a < 2; a++) { Lookup(a); Enumerate(a); } Join(); CheckFault(c, "join"); }
	};
}

PBT_TEST(C09, group_int_int, 12000, pbt::F_NONE) { GroupModel<int, int> m(c); m.Run(); }
PBT_TEST(C09, group_int_tracked, 12000, pbt::F_NONE) { Tr::Reset(); GroupModel<int, Tr> m(c); m.Run(); }
PBT_TEST(C09, group_tracked_string, 8000, pbt::F_NONE) { Tr::Reset(); GroupModel<Tr, WString> m(c); m.Run(); }
PBT_TEST(C09, group_string_int, 8000, pbt::F_NONE) { GroupModel<WString, int> m(c); m.Run(); }
PBT_TEST(C09, large_int_int, 1000, pbt::F_NONE) { GroupModel<int, int> m(c, true); m.Run(); }
PBT_TEST(C09, large_tracked_tracked, 600, pbt::F_NONE) { Tr::Reset(); GroupModel<Tr, Tr> m(c, true); m.Run(); }

PBT_TEST(C09, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); Group<int, int> g; std::map<int, std::vector<int>> m; int keys = c.boolean() ? 1 + (int)c.draw(4) : (int)n / (1 + (int)c.draw(3)); c.note("%zu values, %d keys", n, keys); c.nontrivial();
	for (size_t i = 0; i < n; i++) { int k = (int)((uint64_t)i * keys / n); g.Add(k, (int)i % 40000); m[k].push_back((int)i % 40000); }
	size_t steps = 1 + c.size(12);
	for (size_t s = 0; s < steps; s++)
	{
		int k = (int)c.draw(keys + 1); if (c.chance(1, 3)) k = std::max(0, keys - (int)c.draw(4)); auto it = m.find(k); int v = it == m.end() || c.chance(1, 5) ? -1 : it->second[c.boolean() ? it->second.size() - 1 - c.draw(std::min<size_t>(it->second.size(), 3)) : c.draw(it->second.size())];
		switch (c.draw(4))
		{
		case 0: g.Add(k, (int)s); m[k].push_back((int)s); c.note("Add(%d)", k); break;
		case 1: if (c.chance(3, 4) && keys < 10) break; { bool r = g.Remove(k); PBT_CHECK(r == (it != m.end()), "Remove(%d) returns %d", k, (int)r); m.erase(k); c.note("Remove(%d)", k); break; }
		case 2: { bool has = false; if (it != m.end()) { auto f = std::find(it->second.begin(), it->second.end(), v); if (f != it->second.end()) { has = true; it->second.erase(f); if (it->second.empty()) m.erase(it); } } bool r = g.Remove(k, v); PBT_CHECK(r == has, "Remove(%d,%d) returns %d", k, v, (int)r); c.note("Remove(%d,%d)", k, v); break; }
		default: { bool has = it != m.end() && std::find(it->second.begin(), it->second.end(), v) != it->second.end(); PBT_CHECK(g.Contains(k) == (it != m.end()) && g.Contains(k, v) == has, "Contains(%d,%d)", k, v); c.note("Contains(%d,%d)", k, v); }
		}
	}
	PBT_CHECK(g.Count() == (vint)m.size() && g.Keys().Count() == g.Count(), "Count() is %lld, expected %zu", (long long)g.Count(), m.size());
	size_t i = 0;
	for (auto& [k, v] : m)
	{
		auto& l = g.GetByIndex((vint)i); if (g.Keys()[(vint)i] != k || l.Count() != (vint)v.size()) c.fail("key %zu is %d with %lld values, expected %d with %zu", i, g.Keys()[(vint)i], (long long)l.Count(), k, v.size());
		if (i % 7 == 0 && &g.Get(k) != &l) c.fail("Get(%d) is not the list of key %zu", k, i);
		for (size_t j = 0; j < v.size(); j++) if (l[(vint)j] != v[j]) c.fail("value %zu of %d is %d, expected %d", j, k, l[(vint)j], v[j]);
		i++;
	}
	auto e = Ptr(g.CreateEnumerator()); size_t at = 0, last = 0; for (auto& [k, v] : m) last += v.size();
	for (auto& [k, v] : m) for (int x : v) { if (!e->Next() || e->Current().key != k || e->Current().value != x) c.fail("enumeration is wrong at %zu", at); if (at % 4096 == 0 || at + 1 == last) if (e->Index() != (vint)at) c.fail("Index is %lld at %zu", (long long)e->Index(), at); at++; }
	PBT_CHECK(!e->Next(), "enumeration does not end");
}

// text keys of which one may be the beginning of another, and text values
PBT_TEST(C09, text_keys, 8000, pbt::F_NONE)
{
	Group<WString, WString> g; std::map<std::wstring, std::vector<std::wstring>> m; size_t steps = 1 + c.size(60); bool changed = false, multi = false;
	auto W = [](const std::wstring& x) { return WString::CopyFrom(x.c_str(), (vint)x.size()); }; auto S = [](const WString& x) { return std::wstring(x.Buffer(), (size_t)x.Length()); };
	for (size_t s = 0; s < steps; s++)
	{
		std::wstring k = GenTextKey(c), v = GenTextKey(c); auto it = m.find(k); bool has = it != m.end() && std::count(it->second.begin(), it->second.end(), v);
		switch (c.draw(6))
		{
		case 0: case 1: case 2: g.Add(W(k), W(v)); m[k].push_back(v); if (m[k].size() >= 2) multi = true; break;
		case 3: { bool r = g.Remove(W(k)); PBT_CHECK(r == (it != m.end()), "Remove(key) returns %d", (int)r); if (it != m.end()) { m.erase(it); changed = true; } break; }
		case 4: { bool r = g.Remove(W(k), W(v)); PBT_CHECK(r == has, "Remove(key,value) returns %d", (int)r); if (has) { it->second.erase(std::find(it->second.begin(), it->second.end(), v)); if (it->second.empty()) m.erase(it); changed = true; } break; }
		default: PBT_CHECK(g.Contains(W(k)) == (it != m.end()) && g.Contains(W(k), W(v)) == has, "Contains is wrong"); if (it == m.end()) PBT_CHECK(ThrowsError([&] { g.Get(W(k)); }), "Get of an absent text succeeds"); else PBT_CHECK(g[W(k)].Count() == (vint)it->second.size(), "Get is wrong");
		}
		c.note("%s: %zu", std::string(k.begin(), k.end()).c_str(), m.size());
		PBT_CHECK(g.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)g.Count(), m.size());
		vint at = 0; for (auto& [q, vs] : m) { auto& l = g.GetByIndex(at); PBT_CHECK(S(g.Keys()[at]) == q && l.Count() == (vint)vs.size(), "key %lld is wrong", (long long)at); for (size_t j = 0; j < vs.size(); j++) PBT_CHECK(S(l[(vint)j]) == vs[j], "value %zu of key %lld is wrong", j, (long long)at); at++; }
	}
	if (multi && changed) c.nontrivial();
}

// keys and values that are pointers
namespace
{
	template<typename P>
	void PointerGroup(Ctx& c)
	{
		PtrObj::live = 0;
		{
			std::vector<P> all; all.push_back(P()); for (int i = 0; i < 5; i++) all.push_back(P(new PtrObj(i)));
			Group<P, P> g; std::map<PtrObj*, std::vector<PtrObj*>, std::less<PtrObj*>> m; size_t steps = 1 + c.size(50); int removed = 0;
			for (size_t s = 0; s < steps; s++)
			{
				P& p = all[c.draw(all.size())]; P& q = all[c.draw(all.size())]; PtrObj* k = RawOf(p); PtrObj* v = RawOf(q); auto it = m.find(k); const char* op = "";
				switch (c.draw(7))
				{
				case 0: case 1: case 2: op = "Add"; PBT_CHECK(g.Add(p, q), "Add returns false"); m[k].push_back(v); break;
				case 3: { op = "Remove(key,value)"; bool has = false; if (it != m.end()) { auto f = std::find(it->second.begin(), it->second.end(), v); if (f != it->second.end()) { has = true; removed++; it->second.erase(f); if (it->second.empty()) m.erase(it); } } bool r = g.Remove(k, v); PBT_CHECK(r == has, "Remove(key,value) returns %d", (int)r); break; }
				case 4: { op = "Remove(key)"; bool r = g.Remove(k); PBT_CHECK(r == (it != m.end()), "Remove(key) returns %d", (int)r); if (it != m.end()) { m.erase(it); removed++; } break; }
				case 5: op = "Contains"; PBT_CHECK(g.Contains(k) == (it != m.end()) && g.Contains(k, v) == (it != m.end() && std::count(it->second.begin(), it->second.end(), v) > 0), "Contains is wrong"); break;
				default: op = "Get"; if (it == m.end()) PBT_CHECK(ThrowsError([&] { g.Get(k); }) && ThrowsError([&] { g[k]; }), "Get of an absent pointer succeeds"); else PBT_CHECK(g.Get(k).Count() == (vint)it->second.size() && &g.Get(k) == &g[k], "Get is wrong");
				}
				c.note("%s: %zu", op, m.size());
				PBT_CHECK(g.Count() == (vint)m.size() && PtrObj::live == 5, "after %s: Count is wrong, or %d objects are alive", op, PtrObj::live);
				vint at = 0; for (auto& [x, vs] : m) { auto& l = g.GetByIndex(at); PBT_CHECK(RawOf(g.Keys()[at]) == x && l.Count() == (vint)vs.size(), "after %s: key %lld is wrong", op, (long long)at); for (size_t j = 0; j < vs.size(); j++) PBT_CHECK(RawOf(l[(vint)j]) == vs[j], "after %s: value %zu is wrong", op, j); at++; }
			}
			if (removed >= 2 && m.size() >= 2) c.nontrivial();
			std::set<PtrObj*> kept; for (auto& [x, vs] : m) { if (x) kept.insert(x); for (auto v : vs) if (v) kept.insert(v); } all.clear();
			PBT_CHECK(PtrObj::live == (int)kept.size(), "%d objects are alive, %zu are keys or values", PtrObj::live, kept.size());
		}
		PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live);
	}
}
PBT_TEST(C09, pointers, 6000, pbt::F_NONE) { PointerGroup<Ptr<PtrObj>>(c); }
PBT_TEST(C09, com_pointers, 4000, pbt::F_NONE) { PointerGroup<ComPtr<PtrObj>>(c); }
