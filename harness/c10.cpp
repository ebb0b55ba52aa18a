// C10: containers and value types construct and destroy every element exactly once
#include "tracked.h"
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C10,
	"Each case builds a set of containers (List, Array, SortedList, Dictionary, Group, lists of Pair, Nullable, Variant and Tuple, lists of shared lists) of a lifetime-tracking element type that owns heap memory and knows its own address (or of one that is only counted, or has a trivial destructor and knows its address), applies up to 60 "
	"operations, queries, moves and rejected calls, and after every one compares the number of live elements with the number the containers report. Non-trivial: at least 10 elements were live at some point and at least 5 were destroyed before the end.");

namespace
{
	template<typename Tr>
	struct World
	{
		using VarT = Variant<int, Tr>;
		List<Tr> l[2];
		Array<Tr> arr[2];
		SortedList<Tr> s[2];
		Dictionary<Tr, Tr> d[2];
		Group<Tr, Tr> g[2];
		List<Pair<Tr, Tr>> pairs;
		List<Nullable<Tr>> nulls;
		List<VarT> vars;
		List<Tuple<Tr, int, Tr>> tuples;
		List<Ptr<List<Tr>>> shared;
		Nullable<Tr> n[2];
		VarT v{ 0 };

		long Expected()
		{
			long e = 0;
			for (int i = 0; i < 2; i++)
			{
				e += l[i].Count() + arr[i].Count() + s[i].Count() + 2 * d[i].Count() + g[i].Count();
				for (vint j = 0; j < g[i].Count(); j++) e += g[i].GetByIndex(j).Count();
				if (n[i]) e++;
			}
			e += 2 * pairs.Count() + 2 * tuples.Count();
			for (vint i = 0; i < nulls.Count(); i++) if (nulls[i]) e++;
			for (vint i = 0; i < vars.Count(); i++) if (vars[i].Index() == 1) e++;
			std::vector<List<Tr>*> seen;
			for (vint i = 0; i < shared.Count(); i++) if (std::find(seen.begin(), seen.end(), shared[i].Obj()) == seen.end()) { seen.push_back(shared[i].Obj()); e += shared[i]->Count(); }
			if (v.Index() == 1) e++;
			return e;
		}
	};

template<typename Tr>
void InWorld(Ctx& c)
{
	using VarT = Variant<int, Tr>; using World = ::World<Tr>;
	constexpr bool counts = !std::is_same_v<Tr, Sr>;
	Tr::Reset();
	long peak = 0, dropped = 0;
	{
		auto w = std::make_unique<World>();
		size_t steps = 1 + c.size(60);
		for (size_t st = 0; st < steps; st++)
		{
			int a = (int)c.draw(2), b = 1 - a; int k = (int)c.draw(6), v = (int)c.draw(6); long before = w->Expected();
			const char* op = "";
			World& W = *w;
			switch (c.draw(24))
			{
			case 0: { op = "List grow"; size_t q = c.size(25); for (size_t i = 0; i < q && W.l[a].Count() < 80; i++) { vint at = c.boolean() ? W.l[a].Count() : (vint)c.draw(W.l[a].Count() + 1); Tr x(v); if (c.boolean()) W.l[a].Insert(at, x); else W.l[a].Insert(at, std::move(x)); } break; }
			case 1: { op = "List.RemoveRange"; vint nn = W.l[a].Count(), i = (vint)c.draw(nn + 1); W.l[a].RemoveRange(i, (vint)c.draw(nn - i + 1)); break; }
			case 2: { op = "List.RemoveAt/Set/Remove"; vint nn = W.l[a].Count(); if (!nn) break; vint i = (vint)c.draw(nn); switch (c.draw(3)) { case 0: W.l[a].RemoveAt(i); break; case 1: W.l[a].Set(i, Tr(v)); break; default: W.l[a].Remove(Tr(v)); } break; }
			case 3: { op = "List move/clear"; switch (c.draw(3)) { case 0: W.l[a] = std::move(W.l[b]); break; case 1: { List<Tr> t(std::move(W.l[b])); break; } default: if (c.boolean()) W.l[a].Clear(); } break; }
			case 4: { op = "Array.Resize"; W.arr[a].Resize((vint)c.size(30)); break; }
			case 5: { op = "Array replace"; switch (c.draw(4)) { case 0: W.arr[a] = Array<Tr>((vint)c.size(10)); break; case 1: W.arr[a] = std::move(W.arr[b]); break; case 2: CopyFrom(W.arr[a], W.l[b], c.boolean()); break; default: if (W.arr[a].Count()) W.arr[a].Set((vint)c.draw(W.arr[a].Count()), Tr(v)); } if (W.arr[a].Count() > 100) W.arr[a].Resize(5); break; }
			case 6: { op = "SortedList.Add"; size_t q = c.size(12); for (size_t i = 0; i < q && W.s[a].Count() < 60; i++) { Tr x((int)c.draw(6)); if (c.boolean()) W.s[a].Add(x); else W.s[a].Add(std::move(x)); } break; }
			case 7: { op = "SortedList remove/copy"; switch (c.draw(4)) { case 0: W.s[a].Remove(Tr(v)); break; case 1: { vint nn = W.s[a].Count(), i = (vint)c.draw(nn + 1); W.s[a].RemoveRange(i, (vint)c.draw(nn - i + 1)); break; } case 2: { SortedList<Tr> t(W.s[b]); W.s[a] = std::move(t); break; } default: W.s[a] = std::move(W.s[b]); } break; }
			case 8: { op = "Dictionary.Set"; switch (c.draw(4)) { case 0: W.d[a].Set(Tr(k), Tr(v)); break; case 1: { Tr x(k), y(v); W.d[a].Set(x, y); break; } case 2: { Tr x(k); W.d[a].Set(x, Tr(v)); break; } default: { Tr y(v); W.d[a].Set(Tr(k), y); } } break; }
			case 9: { op = "Dictionary.Add"; ThrowsError([&] { W.d[a].Add(Tr(k), Tr(v)); }); break; }
			case 10: { op = "Dictionary remove/move"; switch (c.draw(4)) { case 0: case 1: W.d[a].Remove(Tr(k)); break; case 2: W.d[a] = std::move(W.d[b]); break; default: W.d[a].Clear(); } break; }
			case 11: case 12: { op = "Group.Add"; if (c.boolean()) W.g[a].Add(Tr(k), Tr(v)); else { Tr x(k), y(v); W.g[a].Add(x, y); } break; }
			case 13: { op = "Group remove/move"; switch (c.draw(6)) { case 0: case 1: W.g[a].Remove(Tr(k)); break; case 2: case 3: W.g[a].Remove(Tr(k), Tr(v)); break; case 4: W.g[a] = std::move(W.g[b]); break; default: W.g[a].Clear(); } break; }
			case 14: { op = "List<Pair>"; if (c.boolean()) W.pairs.Add(Pair<Tr, Tr>(Tr(k), Tr(v))); else if (W.pairs.Count()) W.pairs.RemoveAt((vint)c.draw(W.pairs.Count())); break; }
			case 15: { op = "List<Nullable>"; switch (c.draw(4)) { case 0: W.nulls.Add(Nullable<Tr>(Tr(v))); break; case 1: W.nulls.Add(Nullable<Tr>()); break; case 2: if (W.nulls.Count()) W.nulls[(vint)c.draw(W.nulls.Count())].Reset(); break; default: if (W.nulls.Count()) { vint i = (vint)c.draw(W.nulls.Count()); if (c.boolean()) W.nulls.RemoveAt(i); else W.nulls[i] = Tr(v); } } break; }
			case 16: { op = "List<Variant>"; switch (c.draw(4)) { case 0: W.vars.Add(VarT(Tr(v))); break; case 1: W.vars.Add(VarT(3)); break; case 2: if (W.vars.Count()) W.vars[(vint)c.draw(W.vars.Count())] = 5; break; default: if (W.vars.Count()) { vint i = (vint)c.draw(W.vars.Count()); if (c.boolean()) W.vars.RemoveAt(i); else W.vars[i] = Tr(v); } } break; }
			case 17: { op = "List<Tuple>"; if (c.boolean()) W.tuples.Add(Tuple<Tr, int, Tr>(Tr(k), 1, Tr(v))); else if (W.tuples.Count()) W.tuples.RemoveAt((vint)c.draw(W.tuples.Count())); break; }
			case 18: { op = "shared lists"; switch (c.draw(4)) { case 0: { auto p = Ptr(new List<Tr>); for (int i = 0; i < v; i++) p->Add(Tr(i)); W.shared.Add(p); break; } case 1: if (W.shared.Count()) W.shared.Add(W.shared[(vint)c.draw(W.shared.Count())]); break; default: if (W.shared.Count()) W.shared.RemoveAt((vint)c.draw(W.shared.Count())); } break; }
			case 19: { op = "Nullable"; switch (c.draw(5)) { case 0: W.n[a] = Tr(v); break; case 1: W.n[a].Reset(); break; case 2: W.n[a] = W.n[b]; break; case 3: { Nullable<Tr> t(std::move(W.n[b])); W.n[b].Reset(); W.n[a] = std::move(t); break; } default: { Nullable<Tr> t; W.n[a] = t; } } break; }
			case 20: { op = "Variant"; switch (c.draw(4)) { case 0: W.v = Tr(v); break; case 1: W.v = 1; break; case 2: { VarT t(W.v); W.v = t; break; } default: { VarT t(std::move(W.v)); W.v = std::move(t); } } break; }
			case 21:
			{
				op = "query"; auto q = From(W.l[a]).Concat(W.s[b]);
				switch (c.draw(6))
				{
				case 0: q.Distinct().Count(); break;
				case 1: q.Reverse().Skip(1).Evaluate(true).Count(); break;
				case 2: q.Intersect(W.l[b]).Union(W.s[a]).Count(); break;
				case 3: q.OrderBySelf().First(Tr(0)); break;
				case 4: q.Select([](const Tr& x) { return Pair<Tr, int>(x, x.Value()); }).Where([](const Pair<Tr, int>& p) { return p.value % 2 == 0; }).Last(Pair<Tr, int>(Tr(1), 1)); break;
				default: { List<Tr> t; CopyFrom(t, q.Except(W.arr[a])); CopyFrom(t, W.arr[b], true); }
				}
				PBT_CHECK(W.Expected() == before, "a query changed a container");
				break;
			}
			case 22:
			{
				op = "rejected call"; Tr x(v); vint bad = c.boolean() ? -1 : 1000;
				switch (c.draw(6))
				{
				case 0: ThrowsError([&] { W.l[a].Insert(bad, x); }); break;
				case 1: ThrowsError([&] { W.l[a].RemoveRange(0, bad); }); break;
				case 2: ThrowsError([&] { W.arr[a].Set(bad, x); }); break;
				case 3: ThrowsError([&] { W.arr[a].Resize(-1); }); break;
				case 4: ThrowsError([&] { W.s[a].RemoveAt(bad); }); break;
				default: ThrowsError([&] { W.d[a].Get(Tr(99)); });
				}
				PBT_CHECK(W.Expected() == before, "a rejected call changed a container");
				break;
			}
			default: { op = "swap worlds"; if (!c.chance(1, 5)) break; w = std::make_unique<World>(); break; }
			}
			CheckFault(c, op);
			long e = w->Expected();
			c.note("%s -> %ld live", op, e);
			if (counts) PBT_CHECK(Tr::live == e, "after %s: %ld elements are alive, the containers hold %ld", op, Tr::live, e);
			if (e > peak) peak = e;
			if (e < before) dropped += before - e;
		}
	}
	CheckFault(c, "destruction");
	if (counts) PBT_CHECK(Tr::live == 0, "%ld elements are alive after every container is gone", Tr::live);
	if (peak >= 10 && dropped >= 5) c.nontrivial();
}
}
PBT_TEST(C10, world, 40000, pbt::F_NONE) { InWorld<Tr>(c); }
// element types of which only some of construction, assignment and destruction are trivial
PBT_TEST(C10, world_counted, 10000, pbt::F_NONE) { InWorld<Cn>(c); }
PBT_TEST(C10, world_selfref, 10000, pbt::F_NONE) { InWorld<Sr>(c); }

// over-aligned, large and trivially copyable element types behave the same
namespace
{
	struct Big { long v; char pad[200]; Big(long x = 0) :v(x) { memset(pad, (int)x & 0x7F, sizeof(pad)); } bool Ok() const { for (char q : pad) if (q != (char)(v & 0x7F)) return false; return true; } bool operator==(const Big& o) const { return v == o.v; } auto operator<=>(const Big& o) const { return v <=> o.v; } };
	struct Tiny { unsigned char v = 0; bool operator==(const Tiny&) const = default; auto operator<=>(const Tiny&) const = default; };
}
PBT_TEST(C10, pod_shapes, 20000, pbt::F_NONE)
{
	List<Big> l; std::vector<long> m; List<Tiny> t; std::vector<unsigned char> tm;
	size_t steps = 1 + c.size(40); long peak = 0, dropped = 0;
	for (size_t s = 0; s < steps; s++)
	{
		size_t n = m.size();
		switch (c.draw(4))
		{
		case 0: { size_t q = c.size(20); for (size_t i = 0; i < q && m.size() < 100; i++) { long v = (long)c.draw(1000); vint at = (vint)c.draw(m.size() + 1); l.Insert(at, Big(v)); m.insert(m.begin() + at, v); t.Insert(at, Tiny{ (unsigned char)v }); tm.insert(tm.begin() + at, (unsigned char)v); } break; }
		case 1: { size_t i = c.draw(n + 1), k = c.draw(n - i + 1); l.RemoveRange((vint)i, (vint)k); m.erase(m.begin() + i, m.begin() + i + k); t.RemoveRange((vint)i, (vint)k); tm.erase(tm.begin() + i, tm.begin() + i + k); dropped += (long)k; break; }
		case 2: if (n) { size_t i = c.draw(n); l[(vint)i] = l[(vint)(n - 1 - i)]; m[i] = m[n - 1 - i]; t[(vint)i] = t[(vint)(n - 1 - i)]; tm[i] = tm[n - 1 - i]; } break;
		default: { List<Big> x(std::move(l)); l = std::move(x); List<Tiny> y(std::move(t)); t = std::move(y); }
		}
		PBT_CHECK(l.Count() == (vint)m.size() && t.Count() == (vint)tm.size(), "sizes differ");
		for (size_t i = 0; i < m.size(); i++) PBT_CHECK(l[(vint)i].v == m[i] && l[(vint)i].Ok() && t[(vint)i].v == tm[i], "element %zu is damaged", i);
		if ((long)m.size() > peak) peak = (long)m.size();
		c.note("%zu elements", m.size());
	}
	if (peak >= 10 && dropped >= 5) c.nontrivial();
}

// containers of containers: a container is replaced by one of those it contains
namespace
{
	struct LNode { Tr v; List<LNode> kids; };
	struct ANode { Tr v; Array<ANode> kids; };
	struct DNode { Tr v; Ptr<Dictionary<int, DNode>> kids; };
	struct GNode { Tr v; Ptr<Group<int, GNode>> kids; };
	long Size(const List<LNode>& x) { long r = 0; for (vint i = 0; i < x.Count(); i++) r += 1 + Size(x[i].kids); return r; }
	long Size(const Array<ANode>& x) { long r = 0; for (vint i = 0; i < x.Count(); i++) r += 1 + Size(x[i].kids); return r; }
	long Size(const Dictionary<int, DNode>& x) { long r = 0; for (vint i = 0; i < x.Count(); i++) r += 1 + (x.Values()[i].kids ? Size(*x.Values()[i].kids.Obj()) : 0); return r; }
	long Size(const Group<int, GNode>& x) { long r = 0; for (vint i = 0; i < x.Count(); i++) for (vint j = 0; j < x.GetByIndex(i).Count(); j++) r += 1 + (x.GetByIndex(i)[j].kids ? Size(*x.GetByIndex(i)[j].kids.Obj()) : 0); return r; }
	// trees as text, for comparison before and after
	std::string Text(const List<LNode>& x) { std::string r = "("; for (vint i = 0; i < x.Count(); i++) r += std::to_string(x[i].v.Value()) + Text(x[i].kids); return r + ")"; }
	std::string Text(const Array<ANode>& x) { std::string r = "("; for (vint i = 0; i < x.Count(); i++) r += std::to_string(x[i].v.Value()) + Text(x[i].kids); return r + ")"; }
	std::string Text(const Dictionary<int, DNode>& x) { std::string r = "("; for (vint i = 0; i < x.Count(); i++) r += std::to_string(x.Keys()[i]) + ":" + std::to_string(x.Values()[i].v.Value()) + (x.Values()[i].kids ? Text(*x.Values()[i].kids.Obj()) : ""); return r + ")"; }
	std::string Text(const Group<int, GNode>& x) { std::string r = "("; for (vint i = 0; i < x.Count(); i++) for (vint j = 0; j < x.GetByIndex(i).Count(); j++) r += std::to_string(x.Keys()[i]) + ":" + std::to_string(x.GetByIndex(i)[j].v.Value()) + (x.GetByIndex(i)[j].kids ? Text(*x.GetByIndex(i)[j].kids.Obj()) : ""); return r + ")"; }
	void Build(Ctx& c, List<LNode>& x, int depth, int& left) { vint n = (vint)c.draw(4); for (vint i = 0; i < n && left > 0; i++) { left--; LNode k{ Tr((int)c.draw(9)), {} }; if (depth) Build(c, k.kids, depth - 1, left); x.Insert((vint)c.draw(x.Count() + 1), std::move(k)); } }
	void Build(Ctx& c, Array<ANode>& x, int depth, int& left) { vint n = (vint)c.draw(4); if (n > left) n = left; left -= (int)n; x.Resize(n); for (vint i = 0; i < n; i++) { x[i].v = Tr((int)c.draw(9)); if (depth) Build(c, x[i].kids, depth - 1, left); } }
	void Build(Ctx& c, Dictionary<int, DNode>& x, int depth, int& left) { vint n = (vint)c.draw(4); for (vint i = 0; i < n && left > 0; i++) { left--; DNode k{ Tr((int)c.draw(9)), nullptr }; if (depth && c.boolean()) { k.kids = Ptr(new Dictionary<int, DNode>); Build(c, *k.kids.Obj(), depth - 1, left); } x.Set((int)c.draw(9), std::move(k)); } }
	void Build(Ctx& c, Group<int, GNode>& x, int depth, int& left) { vint n = (vint)c.draw(4); for (vint i = 0; i < n && left > 0; i++) { left--; GNode k{ Tr((int)c.draw(9)), nullptr }; if (depth && c.boolean()) { k.kids = Ptr(new Group<int, GNode>); Build(c, *k.kids.Obj(), depth - 1, left); } x.Add((int)c.draw(3), std::move(k)); } }
	List<LNode>* Pick(Ctx& c, List<LNode>& x) { return x.Count() ? &x[(vint)c.draw(x.Count())].kids : nullptr; }
	Array<ANode>* Pick(Ctx& c, Array<ANode>& x) { return x.Count() ? &x[(vint)c.draw(x.Count())].kids : nullptr; }
	Dictionary<int, DNode>* Pick(Ctx& c, Dictionary<int, DNode>& x) { return x.Count() ? x.Values()[(vint)c.draw(x.Count())].kids.Obj() : nullptr; }
	Group<int, GNode>* Pick(Ctx& c, Group<int, GNode>& x) { if (!x.Count()) return nullptr; auto& l = x.GetByIndex((vint)c.draw(x.Count())); return l[(vint)c.draw(l.Count())].kids.Obj(); }
	template<typename T>
	void Nested(Ctx& c)
	{
		Tr::Reset();
		long before = 0, after = 0; int moves = 0;
		{
			T x;
			for (size_t k = 1 + c.draw(3); k > 0; k--)
			{
				int left = 40; { T t; Build(c, t, 3, left); x = std::move(t); }
				if (Size(x) > before) before = Size(x);
				for (size_t q = c.draw(4); q > 0; q--)
				{
					T* inner = Pick(c, x); if (!inner) break;
					if (c.boolean()) if (T* deeper = Pick(c, *inner)) inner = deeper;
					std::string e = Text(*inner);
					x = std::move(*inner); moves++;
					CheckFault(c, "replacing a container by one it contains");
					std::string g = Text(x); c.note("replaced by %s", g.c_str());
					PBT_CHECK(g == e, "a container replaced by one it contains is %s, expected %s", g.c_str(), e.c_str());
					after = Size(x);
					PBT_CHECK(Tr::live == after, "%ld elements are alive, the container holds %ld", Tr::live, after);
				}
			}
		}
		CheckFault(c, "destruction");
		PBT_CHECK(Tr::live == 0, "%ld elements are alive after every container is gone", Tr::live);
		if (before >= 10 && moves && before - after >= 5) c.nontrivial();
	}
}
PBT_TEST(C10, nested_list, 8000, pbt::F_NONE) { Nested<List<LNode>>(c); }
PBT_TEST(C10, nested_array, 8000, pbt::F_NONE) { Nested<Array<ANode>>(c); }
PBT_TEST(C10, nested_dictionary, 8000, pbt::F_NONE) { Nested<Dictionary<int, DNode>>(c); }
PBT_TEST(C10, nested_group, 8000, pbt::F_NONE) { Nested<Group<int, GNode>>(c); }
