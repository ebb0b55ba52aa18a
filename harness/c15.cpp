// C15: PartialOrderingProcessor orders dependencies before dependents and groups exactly the cycles
#include "tracked.h"
#include <map>
#include <set>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C15,
	"Each case is a random directed graph of up to 14 items, some of up to 104 items (acyclic, sparse, dense, cyclic, self loops, duplicate edges, isolated items), given by a group, a function or sub classes over int, string or pointer items in a random order. The components are compared "
	"with the strongly connected components computed by transitive closure, the order with the dependency relation, and every node field with the relation. Non-trivial: at least 4 items and 3 edges.");

namespace
{
	struct Graph { int n; std::vector<std::vector<char>> dep; std::vector<std::pair<int, int>> edges; };
	Graph Gen(Ctx& c, bool large = false)
	{
		Graph g; g.n = large ? 15 + (int)c.draw(90) : (int)c.size(14); g.dep.assign(g.n, std::vector<char>(g.n, 0)); int mode = (int)c.draw(5);
		size_t m = g.n ? c.draw(mode == 3 && !large ? (size_t)g.n * g.n / 2 + 1 : (size_t)g.n * 2 + 1) : 0;
		std::vector<int> perm(g.n); for (int i = 0; i < g.n; i++) perm[i] = i; for (int i = g.n - 1; i > 0; i--) std::swap(perm[i], perm[c.draw(i + 1)]);
		for (size_t k = 0; k < m; k++)
		{
			int a = (int)c.draw(g.n), b = (int)c.draw(g.n);
			if (mode == 1) { if (a == b) continue; if (a < b) std::swap(a, b); a = perm[a]; b = perm[b]; } // acyclic
			if (mode == 2 && k + 1 < (size_t)g.n) { a = perm[k]; b = perm[k + 1]; } // a long path
			g.edges.push_back({ a, b }); g.dep[a][b] = 1;
		}
		if (g.n >= 4 && g.edges.size() >= 3) c.nontrivial();
		std::string s; for (auto& e : g.edges) s += std::to_string(e.first) + "->" + std::to_string(e.second) + " "; c.note("%d items: %s", g.n, s.c_str());
		return g;
	}
	// node graph given by dep; processor already initialised and sorted
	// an edge is recorded at least once, and not more often than it was given (times)
	void Verify(Ctx& c, PartialOrderingProcessor& pop, const std::vector<std::vector<char>>& dep, const std::map<std::pair<int, int>, int>& times)
	{
		int n = (int)dep.size(); auto r = dep; for (int i = 0; i < n; i++) r[i][i] = 1;
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = 1;
		PBT_CHECK(pop.nodes.Count() == n, "%lld nodes for %d items", (long long)pop.nodes.Count(), n);
		std::vector<int> comp(n, -1); size_t total = 0;
		for (vint i = 0; i < pop.components.Count(); i++)
		{
			auto& k = pop.components[i]; PBT_CHECK(k.nodeCount > 0, "component %lld is empty", (long long)i);
			for (vint j = 0; j < k.nodeCount; j++) { vint node = k.firstNode[j]; PBT_CHECK(node >= 0 && node < n, "component %lld has node %lld of %d", (long long)i, (long long)node, n); PBT_CHECK(comp[node] == -1, "node %lld is in two components", (long long)node); comp[node] = (int)i; total++; }
		}
		PBT_CHECK(total == (size_t)n, "%zu of %d nodes are in a component", total, n);
		for (int i = 0; i < n; i++)
		{
			PBT_CHECK(pop.nodes[i].component == comp[i], "node %d says component %lld but is in %d", i, (long long)pop.nodes[i].component, comp[i]);
			std::set<vint> ins, outs, ei, eo; for (vint j = 0; j < pop.nodes[i].ins->Count(); j++) ins.insert(pop.nodes[i].ins->Get(j)); for (vint j = 0; j < pop.nodes[i].outs->Count(); j++) outs.insert(pop.nodes[i].outs->Get(j));
			for (int j = 0; j < n; j++) { if (dep[i][j]) ei.insert(j); if (dep[j][i]) eo.insert(j); }
			PBT_CHECK(ins == ei && outs == eo, "node %d has wrong dependencies or dependents", i);
			std::map<vint, int> ni, no; for (vint j = 0; j < pop.nodes[i].ins->Count(); j++) ni[pop.nodes[i].ins->Get(j)]++; for (vint j = 0; j < pop.nodes[i].outs->Count(); j++) no[pop.nodes[i].outs->Get(j)]++;
			auto given = [&](int a, int b) { auto it = times.find({ a, b }); return it == times.end() ? 1 : it->second; };
			for (auto& [j, k] : ni) PBT_CHECK(k <= given(i, (int)j), "the dependency of node %d on %lld is recorded %d times", i, (long long)j, k);
			for (auto& [j, k] : no) PBT_CHECK(k <= given((int)j, i), "node %lld is recorded %d times as a dependent of node %d", (long long)j, k, i);
			for (int j = 0; j < n; j++)
			{
				bool together = r[i][j] && r[j][i];
				PBT_CHECK((comp[i] == comp[j]) == together, "nodes %d and %d %s each other but are %s", i, j, together ? "depend on" : "do not depend on", comp[i] == comp[j] ? "in the same component" : "in different components");
				if (dep[i][j] && !together) PBT_CHECK(comp[j] < comp[i], "node %d depends on %d but is placed in component %d, before %d", i, j, comp[i], comp[j]);
			}
		}
	}
	template<typename T, typename K, typename L> void InitAndSortIn(Ctx& c, const Graph& g, const std::vector<T>& items, K kind, const L& l);
	template<typename T, typename K>
	void InitAndSort(Ctx& c, const Graph& g, const std::vector<T>& items, K kind)
	{
		// the items in an array, or in a list
		if (c.chance(1, 3)) { Array<T> a((vint)items.size()); for (size_t i = 0; i < items.size(); i++) a[(vint)i] = items[i]; InitAndSortIn(c, g, items, kind, a); }
		else { List<T> l; for (auto& x : items) l.Add(x); InitAndSortIn(c, g, items, kind, l); }
	}
	template<typename T, typename K, typename L>
	void InitAndSortIn(Ctx& c, const Graph& g, const std::vector<T>& items, K kind, const L& l)
	{
		PartialOrderingProcessor pop;
		if (kind == 0)
		{
			Group<T, T> dep; for (auto& e : g.edges) dep.Add(items[e.first], items[e.second]); pop.InitWithGroup(l, dep);
			if (g.n) PBT_CHECK(ThrowsError([&] { pop.InitWithGroup(l, dep); }), "initialising twice is accepted");
		}
		else
		{
			auto idx = [&](const T& x) { for (int i = 0; i < g.n; i++) if (items[i] == x) return i; return -1; };
			pop.InitWithFunc(l, [&](const T& a, const T& b) { return g.dep[idx(a)][idx(b)] != 0; });
		}
		pop.Sort(); if (g.n) PBT_CHECK(ThrowsError([&] { pop.Sort(); }), "sorting twice is accepted");
		std::map<std::pair<int, int>, int> times; if (kind == 0) for (auto& e : g.edges) times[e]++;
		Verify(c, pop, g.dep, times);
	}
	std::vector<int> Shuffled(Ctx& c, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[c.draw(i + 1)]); return v; }
}

PBT_TEST(C15, ints, 30000, pbt::F_NONE) { auto g = Gen(c); std::vector<int> items; for (int i : Shuffled(c, g.n)) items.push_back(i * 3 - 7); InitAndSort(c, g, items, (int)c.draw(2)); }
PBT_TEST(C15, large_ints, 600, pbt::F_NONE) { auto g = Gen(c, true); std::vector<int> items; for (int i : Shuffled(c, g.n)) items.push_back(i * 3 - 7); InitAndSort(c, g, items, (int)c.draw(2)); }
PBT_TEST(C15, large_pointers, 200, pbt::F_NONE) { struct Obj { int v; }; auto g = Gen(c, true); std::vector<Ptr<Obj>> items; for (int i = 0; i < g.n; i++) items.push_back(Ptr<Obj>(new Obj{ i })); InitAndSort(c, g, items, (int)c.draw(2)); }
PBT_TEST(C15, strings, 15000, pbt::F_NONE) { auto g = Gen(c); std::vector<WString> items; for (int i : Shuffled(c, g.n)) items.push_back(WString(L"item") + itow(i)); InitAndSort(c, g, items, (int)c.draw(2)); }
PBT_TEST(C15, pointers, 15000, pbt::F_NONE) { struct Obj { int v; }; auto g = Gen(c); std::vector<Ptr<Obj>> items; for (int i = 0; i < g.n; i++) items.push_back(Ptr<Obj>(new Obj{ i })); InitAndSort(c, g, items, (int)c.draw(2)); }

// unknown items in the relation are reported
PBT_TEST(C15, unknown_items, 10000, pbt::F_NONE)
{
	auto g = Gen(c); List<int> l; for (int i = 0; i < g.n; i++) l.Add(i); Group<int, int> dep; for (auto& e : g.edges) dep.Add(e.first, e.second);
	bool key = c.boolean(); int other = g.n ? (int)c.draw(g.n) : 0; if (key) dep.Add(100, other); else dep.Add(other, 100);
	PartialOrderingProcessor pop; PBT_CHECK(ThrowsError([&] { pop.InitWithGroup(l, dep); }), "a relation with an unknown %s is accepted", key ? "key" : "value");
}

// sub classes: items of a class become one node
static void SubClasses(Ctx& c, bool large)
{
	auto g = Gen(c, large); auto order = Shuffled(c, g.n); std::vector<int> items; for (int i : order) items.push_back(i * 2 + 5);
	List<int> l; for (int x : items) l.Add(x); Group<int, int> dep; for (auto& e : g.edges) dep.Add(items[e.first], items[e.second]);
	Dictionary<int, WString> sc; std::vector<int> cls(g.n, -1); int classes = 1 + (int)c.draw(large ? 40 : 4);
	for (int i = 0; i < g.n; i++) if (c.chance(2, 3)) { cls[i] = (int)c.draw(classes); sc.Add(items[i], WString(L"class") + itow(cls[i])); }
	PartialOrderingProcessor pop; pop.InitWithSubClass(l, dep, sc);
	if (g.n) PBT_CHECK(ThrowsError([&] { pop.InitWithSubClass(l, dep, sc); }), "initialising twice is accepted");
	pop.Sort();
	// nodes must partition the items by class
	std::vector<int> nodeOf(g.n, -1); int nn = (int)pop.nodes.Count();
	for (int i = 0; i < nn; i++)
	{
		auto& node = pop.nodes[i]; PBT_CHECK(node.subClassItemCount > 0 && node.firstSubClassItem, "node %d represents no item", i);
		int k = -2;
		for (vint j = 0; j < node.subClassItemCount; j++)
		{
			vint item = node.firstSubClassItem[j]; PBT_CHECK(item >= 0 && item < g.n && nodeOf[item] == -1, "node %d represents item %lld, which is out of range or represented twice", i, (long long)item); nodeOf[item] = i;
			if (k == -2) k = cls[item]; else PBT_CHECK(k != -1 && k == cls[item], "node %d mixes items of different classes", i);
		}
	}
	std::map<int, int> nodeOfClass; size_t expected = 0;
	for (int i = 0; i < g.n; i++) { PBT_CHECK(nodeOf[i] != -1, "item %d is in no node", i); if (cls[i] == -1) expected++; else if (nodeOfClass.count(cls[i])) PBT_CHECK(nodeOfClass[cls[i]] == nodeOf[i], "class %d is split over two nodes", cls[i]); else { nodeOfClass[cls[i]] = nodeOf[i]; expected++; } }
	PBT_CHECK((size_t)nn == expected, "%d nodes for %zu classes and single items", nn, expected);
	std::vector<std::vector<char>> nd(nn, std::vector<char>(nn, 0)); for (auto& e : g.edges) nd[nodeOf[e.first]][nodeOf[e.second]] = 1;
	Verify(c, pop, nd, {});
}
PBT_TEST(C15, subclasses, 30000, pbt::F_NONE) { SubClasses(c, false); }
PBT_TEST(C15, large_subclasses, 600, pbt::F_NONE) { SubClasses(c, true); }

PBT_TEST(C15, huge, 24, pbt::F_NOFUZZ)
{
	// shallow relations between many items: stars, bundles of pairs, layers
	size_t n = GenHugeSize(c) / (1 + c.draw(3)); int kind = (int)c.draw(3); SortedList<int> items; for (size_t i = 0; i < n; i++) items.Add((int)i); Group<int, int> deps; std::vector<std::pair<int, int>> edges; c.note("%zu items, relation %d", n, kind); c.nontrivial();
	size_t centre = (size_t)c.draw(n);
	for (size_t i = 0; i < n; i++)
	{
		if (kind == 0) { if (i != centre) edges.push_back({ (int)i, (int)centre }); }
		else if (kind == 1) { size_t o = i ^ 1; if (o < n && (i % 2 == 0 || i % 6 == 1)) edges.push_back({ (int)i, (int)o }); }
		else if (i >= 5) edges.push_back({ (int)i, (int)(i % 5) });
	}
	for (auto [a, b] : edges) deps.Add(a, b);
	PartialOrderingProcessor pop; pop.InitWithGroup(items, deps); pop.Sort();
	std::vector<int> where(n, -1); size_t total = 0;
	for (vint k = 0; k < pop.components.Count(); k++) for (vint j = 0; j < pop.components[k].nodeCount; j++) { vint x = pop.components[k].firstNode[j]; if (x < 0 || x >= (vint)n || where[x] != -1) c.fail("item %lld is in two components or does not exist", (long long)x); where[x] = (int)k; total++; }
	PBT_CHECK(total == n && pop.nodes.Count() == (vint)n, "%zu of %zu items are in components", total, n);
	std::set<std::pair<int, int>> both(edges.begin(), edges.end()); size_t same = 0;
	for (auto [a, b] : edges) { bool cycle = both.count({ b, a }) > 0; if (cycle) same++; if (cycle ? where[a] != where[b] : where[b] >= where[a]) c.fail("%d depends on %d, but they are in components %d and %d", a, b, where[a], where[b]); if (pop.nodes[a].component != where[a]) c.fail("the component of node %d is wrong", a); }
	PBT_CHECK(pop.components.Count() == (vint)(n - same / 2), "%lld components instead of %zu", (long long)pop.components.Count(), n - same / 2);
}
