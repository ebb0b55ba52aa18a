// C08: Dictionary is a map ordered by key under every history
#include <limits>
#include <memory>
#include <set>
#include "tracked.h"
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C08,
	"Each case is a history of up to 80 operations (Set and Add in all value categories, Add of an existing key, Remove, Clear, Get of present and absent keys, move, arguments aliasing the dictionary's own keys and values) on two dictionaries with integer (including the limits), text, pointer or owning keys, "
	"mirrored by std::map; keys, values, enumeration (with Reset and Clone at a random position) and lookups of every key are compared after every operation. Non-trivial: at least 4 keys were present and at least one was replaced or removed.");

namespace
{
	// negative, small and extreme keys
	template<typename K> struct KeyOf { static int Norm(int k) { return k % 7 == 5 ? std::numeric_limits<int>::min() + k / 7 : k % 7 == 6 ? std::numeric_limits<int>::max() - k / 7 : k % 2 ? -k : k; } };
	template<> struct KeyOf<WString> { static int Norm(int k) { return k == 0 ? 0 : 100 + k; } };

	template<typename K, typename V>
	struct DictModel
	{
		Ctx& c;
		Dictionary<K, V> d[2];
		std::map<int, int> m[2];
		bool changed = false;
		int spread;
		bool large;
		DictModel(Ctx& _c, bool _large = false) :c(_c), large(_large) { spread = large ? (c.boolean() ? 300 : 1500) : c.boolean() ? 6 : 30; }
		void Fill(int a)
		{
			size_t n = GenLargeSize(c, 10); int mode = (int)c.draw(3), start = (int)c.draw(spread); unsigned state = (unsigned)c.draw(1000); c.note("d%d: %zu keys, mode %d", a, n, mode);
			for (size_t i = 0; i < n; i++)
			{
				state = state * 1664525u + 1013904223u; int k = KeyOf<K>::Norm(mode == 0 ? (int)((start + i) % spread) : mode == 1 ? (int)((start + 2 * spread - i % spread) % spread) : (int)(state / 65536 % spread)), v = (int)(state / 65536 % 90);
				if (i % 3 == 0 && !m[a].count(k)) d[a].Add(Elem<K>::Make(k), Elem<V>::Make(v)); else d[a].Set(Elem<K>::Make(k), Elem<V>::Make(v));
				m[a][k] = v;
			}
		}

		void Verify(const char* op)
		{
			CheckFault(c, op);
			for (int a = 0; a < 2; a++)
			{
				auto& D = d[a]; auto& M = m[a];
				PBT_CHECK(D.Count() == (vint)M.size(), "after %s: Count() is %lld, expected %zu", op, (long long)D.Count(), M.size());
				PBT_CHECK(D.Keys().Count() == (vint)M.size() && D.Values().Count() == (vint)M.size(), "after %s: Keys() and Values() have %lld and %lld elements, expected %zu", op, (long long)D.Keys().Count(), (long long)D.Values().Count(), M.size());
				vint i = 0;
				for (auto& [k, v] : M)
				{
					int gk = Elem<K>::Read(D.Keys()[i]), gv = Elem<V>::Read(D.Values()[i]);
					PBT_CHECK(gk == k, "after %s: key %lld is %d, expected %d", op, (long long)i, gk, k);
					PBT_CHECK(gv == v, "after %s: value %lld (key %d) is %d, expected %d", op, (long long)i, k, gv, v);
					i++;
				}
				if (M.size() >= 4 && changed) c.nontrivial();
			}
		}
		void Lookup(int a)
		{
			const auto& D = d[a]; auto& M = m[a];
			for (int i = large ? (int)c.draw(5) : 0; i < spread; i += large ? 5 : 1)
			{
				int k = KeyOf<K>::Norm(i); auto it = M.find(k); K key = Elem<K>::Make(k);
				vint index = D.Keys().IndexOf(key); vint e = it == M.end() ? -1 : std::distance(M.begin(), it);
				PBT_CHECK(index == e, "Keys().IndexOf(%d) is %lld, expected %lld", k, (long long)index, (long long)e);
				if (it != M.end())
				{
					PBT_CHECK(Elem<V>::Read(D.Get(key)) == it->second, "Get(%d) is %d, expected %d", k, Elem<V>::Read(D.Get(key)), it->second);
					PBT_CHECK(Elem<V>::Read(D[key]) == it->second, "operator[](%d) is wrong", k);
				}
				else if (large ? i % 8 == 0 : c.chance(1, 8))
				{
					c.label("absent key");
					PBT_CHECK(ThrowsError([&] { D.Get(key); }), "Get(%d) of an absent key succeeds", k);
					PBT_CHECK(ThrowsError([&] { D[key]; }), "operator[](%d) of an absent key succeeds", k);
				}
			}
		}
		void Enumerate(int a)
		{
			auto& D = d[a]; auto& M = m[a]; std::vector<std::pair<int, int>> e(M.begin(), M.end());
			Ptr<IEnumerator<Pair<const K&, const V&>>> en(D.CreateEnumerator());
			auto same = [&](size_t i, auto& x) { return Elem<K>::Read(x->Current().key) == e[i].first && Elem<V>::Read(x->Current().value) == e[i].second && x->Index() == (vint)i; };
			size_t stop = c.draw(e.size() + 1);
			PBT_CHECK(en->Index() == -1, "Index() before the first element is %lld", (long long)en->Index());
			for (size_t i = 0; i < stop; i++) { PBT_CHECK(en->Next(), "the enumeration ends after %zu of %zu", i, e.size()); PBT_CHECK(same(i, en), "the enumeration gives a wrong pair at %zu", i); }
			Ptr<IEnumerator<Pair<const K&, const V&>>> cl(en->Clone());
			if (stop) PBT_CHECK(same(stop - 1, cl), "a clone is not at the position of the original (%zu)", stop);
			for (size_t i = stop; i < e.size(); i++) { PBT_CHECK(cl->Next() && same(i, cl), "a cloned enumerator gives a wrong pair at %zu", i); }
			PBT_CHECK(!cl->Next(), "a cloned enumerator does not end"); for (int r = 0; r < 3; r++) PBT_CHECK(!cl->Next(), "Next() gives an element again after the end");
			PBT_CHECK(en->Index() == (vint)stop - 1, "using the clone moved the original");
			en->Reset();
			for (size_t i = 0; i < e.size(); i++) { PBT_CHECK(en->Next() && same(i, en), "a reset enumerator gives a wrong pair at %zu", i); }
			PBT_CHECK(!en->Next() && !en->Next() && !en->Next(), "a reset enumerator does not end, or goes on after its end");
			{ Ptr<IEnumerator<Pair<const K&, const V&>>> ended(cl->Clone()); PBT_CHECK(!ended->Next() && !ended->Next(), "a clone of an ended enumerator gives an element"); ended->Reset(); for (size_t i = 0; i < e.size() && i < 3; i++) PBT_CHECK(ended->Next() && same(i, ended), "a clone of an ended enumerator gives a wrong pair after Reset at %zu", i); }
			size_t i = 0;
			for (auto [k, v] : D) { PBT_CHECK(i < e.size() && Elem<K>::Read(k) == e[i].first && Elem<V>::Read(v) == e[i].second, "for gives a wrong pair at %zu", i); i++; }
			PBT_CHECK(i == e.size(), "for visits %zu of %zu pairs", i, e.size());
		}
		void Step()
		{
			int a = (int)c.draw(2), b = 1 - a; auto& D = d[a]; auto& M = m[a]; int k = KeyOf<K>::Norm((int)c.draw(spread)), v = (int)c.draw(100);
			const char* op = "";
			switch (c.draw(large ? 13 : 12))
			{
			case 0: case 1: case 2:
			{
				op = "Set"; c.note("d%d.Set(%d,%d)", a, k, v); K key = Elem<K>::Make(k); V val = Elem<V>::Make(v); bool r = false;
				switch (c.draw(4)) { case 0: r = D.Set(key, val); break; case 1: r = D.Set(key, std::move(val)); break; case 2: r = D.Set(std::move(key), val); break; default: r = D.Set(std::move(key), std::move(val)); }
				PBT_CHECK(r, "Set returns false"); if (M.count(k)) changed = true; M[k] = v; break;
			}
			case 3: case 4: case 5:
			{
				op = "Add"; c.note("d%d.Add(%d,%d)", a, k, v); K key = Elem<K>::Make(k); V val = Elem<V>::Make(v); bool r = false;
				auto f = [&] {
					switch (c.draw(6)) { case 0: r = D.Add(key, val); break; case 1: r = D.Add(key, std::move(val)); break; case 2: r = D.Add(std::move(key), val); break; case 3: r = D.Add(std::move(key), std::move(val)); break;
					case 4: { Pair<K, V> p(key, val); r = D.Add(p); break; } default: { Pair<K, V> p(key, val); r = D.Add(std::move(p)); } }
				};
				if (M.count(k)) { c.label("Add of an existing key"); PBT_CHECK(ThrowsError(f), "Add of the existing key %d is accepted", k); }
				else { f(); PBT_CHECK(r, "Add returns false"); M[k] = v; }
				break;
			}
			case 6: case 7: { op = "Remove"; c.note("d%d.Remove(%d)", a, k); bool r = D.Remove(Elem<K>::Make(k)); PBT_CHECK(r == (M.count(k) > 0), "Remove(%d) returns %d", k, r); if (M.erase(k)) changed = true; break; }
			case 8:
				op = "Clear/move";
				if (c.chance(1, 4)) { c.note("d%d.Clear()", a); PBT_CHECK(D.Clear(), "Clear returns false"); M.clear(); }
				else if (c.boolean()) { c.note("d%d = move(d%d)", a, b); D = std::move(d[b]); M = m[b]; m[b].clear(); }
				else { c.note("d%d = Dictionary(move(d%d))", a, b); Dictionary<K, V> t(std::move(d[b])); D = std::move(t); M = m[b]; m[b].clear(); }
				break;
			case 9:
			{
				op = "aliased argument"; if (M.empty()) break; c.label("aliased argument"); vint i = (vint)c.draw(M.size()), j = (vint)c.draw(M.size());
				int ki = std::next(M.begin(), i)->first, vj = std::next(M.begin(), j)->second; c.note("d%d aliased %lld %lld", a, (long long)i, (long long)j);
				switch (c.draw(6))
				{
				case 0: case 1: D.Set(D.Keys()[i], D.Values()[j]); M[ki] = vj; changed = true; break;
				case 2: D.Set(Elem<K>::Make(k), D.Values()[j]); M[k] = vj; break;
				case 3: if (!M.count(k)) { D.Add(Elem<K>::Make(k), D.Values()[j]); M[k] = vj; } else PBT_CHECK(ThrowsError([&] { D.Add(D.Keys()[i], D.Values()[j]); }), "Add of the key %d of the dictionary is accepted", ki); break;
				case 4: { bool r = D.Remove(D.Keys()[i]); PBT_CHECK(r, "Remove of the key %d of the dictionary returns false", ki); M.erase(ki); changed = true; break; }
				default: PBT_CHECK(&D.Get(D.Keys()[i]) == &D.Values()[i] && &D[D.Keys()[i]] == &D.Values()[i] && D.Keys().IndexOf(D.Keys()[i]) == i, "Get of the key %d of the dictionary is wrong", ki);
				}
				break;
			}
			case 10: op = "lookup"; c.note("lookup d%d", a); Lookup(a); break;
			case 12: op = "fill"; Fill(a); break;
			default: op = "enumeration"; c.note("enumerate d%d", a); Enumerate(a);
			}
			Verify(op);
		}
		void Run() { if (large) Fill(0); size_t steps = 1 + c.size(large ? 20 : 80); for (size_t i = 0; i < steps; i++) Step(); for (int a = 0; a < 2; a++) { Lookup(a); Enumerate(a); } }
	};
}

PBT_TEST(C08, dict_int_int, 12000, pbt::F_NONE) { DictModel<int, int> m(c); m.Run(); }
PBT_TEST(C08, dict_int_tracked, 12000, pbt::F_NONE) { Tr::Reset(); DictModel<int, Tr> m(c); m.Run(); }
PBT_TEST(C08, dict_tracked_string, 8000, pbt::F_NONE) { Tr::Reset(); DictModel<Tr, WString> m(c); m.Run(); }
PBT_TEST(C08, dict_string_int, 8000, pbt::F_NONE) { DictModel<WString, int> m(c); m.Run(); }
PBT_TEST(C08, large_int_int, 1000, pbt::F_NONE) { DictModel<int, int> m(c, true); m.Run(); }
PBT_TEST(C08, large_tracked_tracked, 600, pbt::F_NONE) { Tr::Reset(); DictModel<Tr, Tr> m(c, true); m.Run(); }

PBT_TEST(C08, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); Dictionary<int, int> d; std::map<int, int> m; int gap = 1 + (int)c.draw(3); c.note("%zu keys, gap %d", n, gap); c.nontrivial();
	for (size_t i = 0; i < n; i++) { int k = (int)i * gap; if (i % 2) d.Add(k, (int)i + 7); else d.Set(k, (int)i + 7); m[k] = (int)i + 7; }
	size_t steps = 1 + c.size(12); int top = (int)n * gap + 3;
	for (size_t s = 0; s < steps; s++)
	{
		int k = (int)c.draw(top) - 1; if (c.chance(1, 3)) k = top - (int)c.draw(8); bool has = m.count(k) > 0;
		switch (c.draw(4))
		{
		case 0: d.Set(k, -(int)s); m[k] = -(int)s; c.note("Set(%d)", k); break;
		case 1: { bool r = d.Remove(k); PBT_CHECK(r == has, "Remove(%d) returns %d", k, (int)r); m.erase(k); c.note("Remove(%d)", k); break; }
		case 2: if (has) PBT_CHECK(ThrowsError([&] { d.Add(k, 1); }), "Add of the present key %d succeeds", k); else { d.Add(k, 3); m[k] = 3; } c.note("Add(%d)", k); break;
		default: { Dictionary<int, int> x(std::move(d)); d = std::move(x); c.note("move"); }
		}
	}
	PBT_CHECK(d.Count() == (vint)m.size() && d.Keys().Count() == d.Count() && d.Values().Count() == d.Count(), "Count() is %lld, expected %zu", (long long)d.Count(), m.size());
	size_t i = 0; for (auto& [k, v] : m) { if (d.Keys()[(vint)i] != k || d.Values()[(vint)i] != v) c.fail("pair %zu is (%d,%d), expected (%d,%d)", i, d.Keys()[(vint)i], d.Values()[(vint)i], k, v); if (i % 7 == 0 && d[k] != v) c.fail("the value of %d is %d, expected %d", k, d[k], v); i++; }
	auto e = Ptr(d.CreateEnumerator()); i = 0; for (auto& [k, v] : m) { if (!e->Next() || e->Current().key != k || e->Current().value != v || e->Index() != (vint)i) c.fail("enumeration is wrong at %zu", i); i++; } PBT_CHECK(!e->Next(), "enumeration does not end");
}

// keys and values that are pointers: ordered by address, looked up by pointer or raw pointer; a null key is a key like any other
namespace
{
	template<typename P>
	void PointerKeys(Ctx& c)
	{
		PtrObj::live = 0;
		{
			std::vector<P> all; all.push_back(P()); for (int i = 0; i < 7; i++) all.push_back(P(new PtrObj(i)));
			Dictionary<P, int> d; Dictionary<int, P> r; std::map<PtrObj*, int, std::less<PtrObj*>> m; std::map<int, size_t> mr; size_t steps = 1 + c.size(50); int hits = 0;
			for (size_t s = 0; s < steps; s++)
			{
				size_t i = c.draw(all.size()); P& p = all[i]; PtrObj* raw = RawOf(p); int v = (int)c.draw(100), k = (int)c.draw(6); bool has = m.count(raw) > 0; const char* op = "";
				switch (c.draw(8))
				{
				case 0: op = "Set"; if (has) hits++; if (c.boolean()) d.Set(p, v); else { P q = p; d.Set(std::move(q), v); } m[raw] = v; break;
				case 1: op = "Add"; if (has) { PBT_CHECK(ThrowsError([&] { d.Add(p, v); }), "Add of a present pointer succeeds"); hits++; } else { d.Add(p, v); m[raw] = v; } break;
				case 2: { op = "Remove"; bool x = d.Remove(raw); PBT_CHECK(x == has, "Remove returns %d", (int)x); m.erase(raw); break; }
				case 3: op = "Get"; if (has) PBT_CHECK(d.Get(raw) == m[raw] && d[raw] == m[raw], "Get is wrong"); else PBT_CHECK(ThrowsError([&] { d.Get(raw); }) && ThrowsError([&] { d[raw]; }), "Get of an absent pointer succeeds"); break;
				case 4: op = "Contains"; PBT_CHECK(d.Keys().Contains(raw) == has && d.Keys().IndexOf(raw) == (has ? (vint)std::distance(m.begin(), m.find(raw)) : -1), "Keys().Contains or IndexOf is wrong"); break;
				case 5: op = "Set value"; r.Set(k, p); mr[k] = i; break;
				case 6: { op = "Remove value"; bool x = r.Remove(k); PBT_CHECK(x == (mr.erase(k) > 0), "Remove of the key of a pointer returns %d", (int)x); break; }
				default: { op = "search values"; vint e = -1, at = 0; for (auto& [q, j] : mr) { if (j == i) { e = at; break; } at++; } PBT_CHECK(r.Values().IndexOf(raw) == e && r.Values().Contains(raw) == (e != -1), "Values().IndexOf is %lld, expected %lld", (long long)r.Values().IndexOf(raw), (long long)e); }
				}
				c.note("%s %zu: %zu", op, i, m.size());
				PBT_CHECK(d.Count() == (vint)m.size() && r.Count() == (vint)mr.size(), "after %s: Count is wrong", op);
				vint at = 0; for (auto& [q, x] : m) { PBT_CHECK(RawOf(d.Keys()[at]) == q && d.Values()[at] == x, "after %s: pair %lld is wrong", op, (long long)at); at++; }
				at = 0; for (auto [q, x] : r) { PBT_CHECK(mr.count(q) && RawOf(x) == RawOf(all[mr[q]]), "after %s: a pointer is wrong", op); at++; }
				PBT_CHECK(at == (vint)mr.size() && PtrObj::live == 7, "after %s: %d objects are alive", op, PtrObj::live);
			}
			if (hits >= 2 && m.size() >= 3) c.nontrivial();
			// the dictionary alone keeps its keys alive
			std::set<PtrObj*> kept; for (auto& [q, x] : m) if (q) kept.insert(q); for (auto& [q, j] : mr) if (RawOf(all[j])) kept.insert(RawOf(all[j])); all.clear();
			PBT_CHECK(PtrObj::live == (int)kept.size(), "%d objects are alive, %zu are keys or values", PtrObj::live, kept.size());
			for (auto k : kept) PBT_CHECK(k->v >= 0 && k->v < 7, "a key died");
		}
		PBT_CHECK(PtrObj::live == 0, "%d objects are alive", PtrObj::live);
	}
}
PBT_TEST(C08, pointers, 6000, pbt::F_NONE) { PointerKeys<Ptr<PtrObj>>(c); }
PBT_TEST(C08, com_pointers, 4000, pbt::F_NONE) { PointerKeys<ComPtr<PtrObj>>(c); }

// text keys of which one may be the beginning of another
PBT_TEST(C08, text_keys, 8000, pbt::F_NONE)
{
	Dictionary<WString, int> d; std::map<std::wstring, int> m; size_t steps = 1 + c.size(60); bool changed = false;
	for (size_t s = 0; s < steps; s++)
	{
		std::wstring k = GenTextKey(c); WString key = WString::CopyFrom(k.c_str(), (vint)k.size()); if (c.chance(1, 4) && k.size()) { WString l = L"#" + key + L"#"; key = l.Sub(1, l.Length() - 2); } int v = (int)c.draw(100); auto it = m.find(k);
		switch (c.draw(5))
		{
		case 0: case 1: d.Set(key, v); if (it != m.end()) changed = true; m[k] = v; break;
		case 2: if (it == m.end()) { d.Add(key, v); m[k] = v; } else PBT_CHECK(ThrowsError([&] { d.Add(key, v); }), "Add of a present text succeeds"); break;
		case 3: { bool r = d.Remove(key); PBT_CHECK(r == (it != m.end()), "Remove returns %d", (int)r); if (it != m.end()) { m.erase(it); changed = true; } break; }
		default: { vint i = d.Keys().IndexOf(key); PBT_CHECK(i == (it == m.end() ? -1 : (vint)std::distance(m.begin(), it)), "Keys().IndexOf is %lld", (long long)i); if (it != m.end()) PBT_CHECK(d[key] == it->second, "the value is wrong"); else PBT_CHECK(ThrowsError([&] { d.Get(key); }), "Get of an absent text succeeds"); }
		}
		c.note("%s: %zu", std::string(k.begin(), k.end()).c_str(), m.size());
		PBT_CHECK(d.Count() == (vint)m.size() && d.Values().Count() == d.Count(), "Count() is %lld, expected %zu", (long long)d.Count(), m.size());
		vint at = 0; for (auto& [q, x] : m) { PBT_CHECK(std::wstring(d.Keys()[at].Buffer(), (size_t)d.Keys()[at].Length()) == q && d.Values()[at] == x, "pair %lld is wrong", (long long)at); at++; }
	}
	if (m.size() >= 4 && changed) c.nontrivial();
}

// keys that have no place in the order are refused without any effect
PBT_TEST(C08, doubles, 8000, pbt::F_NONE)
{
	Dictionary<double, WString> d; std::map<double, int> m; const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN(); const double vals[] = { 0.0, 1.0, -1.0, 0.5, inf, -inf, 1e300, -1e-300, 2.0 };
	size_t steps = 1 + c.size(40); int refused = 0;
	for (size_t s = 0; s < steps; s++)
	{
		double k = vals[c.draw(9)]; int v = (int)c.draw(100); bool has = m.count(k) > 0;
		switch (c.draw(6))
		{
		case 0: d.Set(k, itow(v)); m[k] = v; break;
		case 1: { bool r = d.Remove(k); PBT_CHECK(r == has, "Remove(%g) returns %d", k, (int)r); m.erase(k); break; }
		case 2: if (has) PBT_CHECK(d[k] == itow(m[k]), "d[%g] is wrong", k); else PBT_CHECK(ThrowsError([&] { d[k]; }), "d[%g] succeeds", k); break;
		case 3: if (!has) { d.Add(k, itow(v)); m[k] = v; } else PBT_CHECK(ThrowsError([&] { d.Add(k, itow(v)); }), "Add(%g) succeeds twice", k); break;
		default:
			if (m.empty()) break; refused++; // a key without order, among others
			if (c.boolean()) PBT_CHECK(ThrowsError([&] { d.Set(nan, itow(v)); }), "Set(NaN) succeeds"); else PBT_CHECK(ThrowsError([&] { d.Add(nan, itow(v)); }), "Add(NaN) succeeds");
		}
		PBT_CHECK(d.Count() == (vint)m.size() && d.Keys().Count() == d.Count() && d.Values().Count() == d.Count(), "%lld keys, %lld values, expected %zu", (long long)d.Keys().Count(), (long long)d.Values().Count(), m.size());
		vint at = 0; for (auto& [q, x] : m) { PBT_CHECK(d.Keys()[at] == q && d.Values()[at] == itow(x), "pair %lld is wrong", (long long)at); at++; }
		c.note("%g: %zu", k, m.size());
	}
	if (refused >= 1 && m.size() >= 3) c.nontrivial();
}

// keys that are equal but can be told apart: a refused Add leaves the pair that is there, lookups find it by any equal key
namespace
{
	struct TaggedKey { int k = 0; std::shared_ptr<int> tag; TaggedKey() = default; TaggedKey(int _k, int t) : k(_k), tag(std::make_shared<int>(t)) {} std::strong_ordering operator<=>(const TaggedKey& o) const { return k <=> o.k; } bool operator==(const TaggedKey& o) const { return k == o.k; } };
}
PBT_TEST(C08, tagged_keys, 6000, pbt::F_NONE)
{
	Dictionary<TaggedKey, WString> d; std::map<int, std::pair<int, int>> m; size_t steps = 1 + c.size(40); int tags = 0, refused = 0;
	for (size_t s = 0; s < steps; s++)
	{
		int k = (int)c.draw(8), v = (int)c.draw(100), tag = ++tags; TaggedKey key(k, tag); WString value = itow(v); bool has = m.count(k) > 0;
		switch (c.draw(5))
		{
		case 0: case 1: case 2:
		{
			int form = (int)c.draw(5); c.note("Add form %d", form);
			auto add = [&] { switch (form) { case 0: d.Add(key, value); break; case 1: d.Add(std::move(key), value); break; case 2: d.Add(key, std::move(value)); break; case 3: d.Add(std::move(key), std::move(value)); break; default: d.Add(Pair<TaggedKey, WString>(key, value)); } };
			if (has) { refused++; PBT_CHECK(ThrowsError([&] { add(); }), "Add of a present key succeeds"); }
			else { add(); m[k] = { v, tag }; }
			break;
		}
		case 3: { d.Set(key, value); c.note("Set"); vint i = d.Keys().IndexOf(TaggedKey(k, 0)); PBT_CHECK(i >= 0, "a key that was set is absent"); int t = *d.Keys()[i].tag; PBT_CHECK(t == tag || (has && t == m[k].second), "Set stores a key that was never given"); m[k] = { v, t }; break; }
		default: { bool r = d.Remove(key); c.note("Remove"); PBT_CHECK(r == has, "Remove returns %d", (int)r); m.erase(k); }
		}
		PBT_CHECK(d.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)d.Count(), m.size()); vint i = 0;
		for (auto& [q, p] : m) { const TaggedKey& g = d.Keys()[i]; PBT_CHECK(g.k == q && g.tag && *g.tag == p.second && d.Values()[i] == itow(p.first), "pair %lld is not the one that was stored", (long long)i); i++; }
	}
	if (refused >= 1 && m.size() >= 2) c.nontrivial();
}
