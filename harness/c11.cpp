// C11: sorting yields an ordered permutation for every input, comparator and kind of ordering
#include "tracked.h"
#include <cmath>
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C11,
	"Each case sorts a random array (random, few distinct values, sorted, reversed, organ pipe, constant, nearly sorted; up to 300 elements) with a random comparator (ascending, descending, by key, weak and partial orderings) through SortLambda, Sort and OrderBy, "
	"checks order, multiset and untouched neighbours, and also comparators that throw after a random number of calls and incomparable elements. Non-trivial: at least 4 elements, not already in order.");

namespace
{
	struct Item { int key; int id; };

	std::vector<int> Keys(Ctx& c, bool large = false)
	{
		size_t n = large ? GenLargeSize(c, 12) : c.size(c.chance(1, 6) ? 300 : 24); std::vector<int> k(n);
		unsigned state = large ? (unsigned)c.draw(10000) : 0; auto rnd = [&](int bound) { state = state * 1664525u + 1013904223u; return large ? (int)(state / 65536 % bound) : (int)c.draw(bound); };
		int spread = c.boolean() ? 4 : 1000;
		switch (c.draw(7))
		{
		case 0: case 1: for (auto& x : k) x = rnd(spread); break;
		case 2: for (size_t i = 0; i < n; i++) k[i] = (int)i; break;
		case 3: for (size_t i = 0; i < n; i++) k[i] = (int)(n - i); break;
		case 4: for (size_t i = 0; i < n; i++) k[i] = (int)(i < n / 2 ? i : n - i); break;
		case 5: { int v = (int)c.draw(5); for (auto& x : k) x = v; break; }
		default: for (size_t i = 0; i < n; i++) k[i] = (int)i; for (int j = 0; j < 3 && n; j++) std::swap(k[c.draw(n)], k[c.draw(n)]); break;
		}
		// negative and extreme keys
		switch (c.draw(6)) { case 0: for (auto& x : k) x = 400 - x; break; case 1: for (auto& x : k) x = x % 3 == 0 ? x : x % 3 == 1 ? 2147483647 - x : -2147483647 + x; break; default:; }
		return k;
	}
	template<typename T>
	bool Guarded(const std::vector<T>& v, size_t from, size_t to, int mark) { for (size_t i = 0; i < v.size(); i++) if ((i < from || i >= to) && Elem<T>::Read(v[i]) != mark) return false; return true; }
}

namespace
{
void Permutation(Ctx& c, bool large)
{
	auto keys = Keys(c, large); size_t n = keys.size();
	// guard elements on both sides: sorting must not look beyond the range it is given
	const Item guard{ -77777, -1 }; for (auto& k : keys) if (k == guard.key) k++;
	std::vector<Item> v; v.push_back(guard); for (size_t i = 0; i < n; i++) v.push_back({ keys[i], (int)i }); v.push_back(guard);
	int how = (int)c.draw(6); long outside = 0;
	auto look = [&](const Item& a) { if (a.id == -1) outside++; };
	auto asc = [&](const Item& a, const Item& b) { look(a); look(b); return a.key <=> b.key; };
	auto desc = [&](const Item& a, const Item& b) -> std::weak_ordering { look(a); look(b); return b.key <=> a.key; };
	auto mod = [&](const Item& a, const Item& b) -> std::partial_ordering { look(a); look(b); return (double)(a.key % 7) <=> (double)(b.key % 7); };
	auto rank = [&](const Item& a) { return how == 0 || how == 3 ? a.key : how == 1 || how == 4 ? -a.key : a.key % 7; };
	switch (how)
	{
	case 0: SortLambda(v.data() + 1, (vint)n, asc); break;
	case 1: SortLambda(v.data() + 1, (vint)n, desc); break;
	case 2: SortLambda(v.data() + 1, (vint)n, mod); break;
	case 3: Sort(v.data() + 1, (vint)n, Func<std::strong_ordering(Item, Item)>([&](Item a, Item b) { return asc(a, b); })); break;
	case 4: Sort(v.data() + 1, (vint)n, desc); break;
	default: Sort(v.data() + 1, (vint)n, mod); break;
	}
	c.note("%zu elements, comparator %d", n, how);
	PBT_CHECK(outside == 0, "the comparator was given elements outside the range");
	PBT_CHECK(v.front().key == guard.key && v.front().id == -1 && v.back().key == guard.key && v.back().id == -1, "elements outside the range were changed");
	std::vector<bool> seen(n); bool sortedBefore = true;
	for (size_t i = 1; i <= n; i++)
	{
		PBT_CHECK(v[i].id >= 0 && v[i].id < (int)n && !seen[v[i].id], "the result is not a permutation: element %zu", i - 1); seen[v[i].id] = true;
		PBT_CHECK(v[i].key == keys[v[i].id], "an element was torn apart");
		if (i > 1) PBT_CHECK(rank(v[i - 1]) <= rank(v[i]), "elements %zu and %zu of %zu are out of order (%d, %d)", i - 2, i - 1, n, v[i - 1].key, v[i].key);
		if (i > 1 && rank(Item{ keys[i - 2], 0 }) > rank(Item{ keys[i - 1], 0 })) sortedBefore = false;
	}
	if (n >= 4 && !sortedBefore) c.nontrivial();
}
}
PBT_TEST(C11, permutation, 40000, pbt::F_NONE) { Permutation(c, false); }
PBT_TEST(C11, large_permutation, 1000, pbt::F_NONE) { Permutation(c, true); }

namespace
{
	template<typename T>
	void SortKind(Ctx& c, bool large = false)
	{
		auto keys = Keys(c, large); if (!large && keys.size() > 60) keys.resize(60); if (keys.size() > 1500) keys.resize(1500);
		if constexpr (std::is_same_v<T, WString>) for (auto& k : keys) k = 100 + (k & 0x7FFFFFFF) % 900; // text order equals numeric order
		auto e = keys; std::sort(e.begin(), e.end());
		if (e != keys && keys.size() >= 4) c.nontrivial();
		List<T> l; for (int k : keys) l.Add(Elem<T>::Make(k));
		if (l.Count()) { if (c.boolean()) Sort(&l[0], l.Count()); else SortLambda(&l[0], l.Count(), [](const T& a, const T& b) { return a <=> b; }); }
		for (size_t i = 0; i < e.size(); i++) PBT_CHECK(Elem<T>::Read(l[(vint)i]) == e[i], "element %zu is %d, expected %d", i, Elem<T>::Read(l[(vint)i]), e[i]);
		c.note("%zu elements", keys.size()); CheckFault(c, "sort");
		// the lazy variants leave the source alone
		List<T> src; for (int k : keys) src.Add(Elem<T>::Make(k));
		vint i = 0; for (auto& x : From(src).OrderBySelf()) { PBT_CHECK(i < (vint)e.size() && Elem<T>::Read(x) == e[i], "OrderBySelf is wrong at %lld", (long long)i); i++; }
		PBT_CHECK(i == (vint)e.size(), "OrderBySelf has %lld elements", (long long)i);
		i = (vint)e.size(); for (auto& x : From(src).OrderByKey([](const T& x) { return -(int64_t)Elem<T>::Read(x); })) { i--; PBT_CHECK(i >= 0 && Elem<T>::Read(x) == e[i], "OrderByKey is wrong"); }
		for (size_t j = 0; j < keys.size(); j++) PBT_CHECK(Elem<T>::Read(src[(vint)j]) == keys[j], "ordering changed its source");
	}
}
PBT_TEST(C11, elements_int, 15000, pbt::F_NONE) { SortKind<int>(c); }
PBT_TEST(C11, elements_tracked, 15000, pbt::F_NONE) { Tr::Reset(); SortKind<Tr>(c); }
PBT_TEST(C11, elements_string, 10000, pbt::F_NONE) { SortKind<WString>(c); }

PBT_TEST(C11, large_elements_int, 600, pbt::F_NONE) { SortKind<int>(c, true); }
PBT_TEST(C11, large_elements_tracked, 400, pbt::F_NONE) { Tr::Reset(); SortKind<Tr>(c, true); }

// a comparator that throws leaves a permutation behind
PBT_TEST(C11, throwing, 20000, pbt::F_NONE)
{
	struct Stop {}; Tr::Reset();
	auto keys = Keys(c); if (keys.size() > 40) keys.resize(40);
	{
		List<Tr> l; for (int k : keys) l.Add(Tr(k)); long budget = (long)c.draw(200), calls = 0; bool threw = false;
		if (l.Count()) try { SortLambda(&l[0], l.Count(), [&](const Tr& a, const Tr& b) { if (calls++ >= budget) throw Stop(); return a <=> b; }); } catch (const Stop&) { threw = true; }
		if (threw) { c.label("threw"); if (keys.size() >= 4) c.nontrivial(); }
		std::vector<int> g; for (vint i = 0; i < l.Count(); i++) g.push_back(l[i].Value());
		auto a = keys; std::sort(a.begin(), a.end()); auto b = g; std::sort(b.begin(), b.end());
		PBT_CHECK(a == b, "after the comparator threw, elements were lost or duplicated"); if (!threw) PBT_CHECK(std::is_sorted(g.begin(), g.end()), "not sorted");
		PBT_CHECK(Tr::live == l.Count(), "%ld elements are alive, the list has %lld", Tr::live, (long long)l.Count()); CheckFault(c, "sort"); c.note("%zu elements, %ld calls", keys.size(), calls);
	}
	PBT_CHECK(Tr::live == 0, "%ld elements leaked", Tr::live);
}

// incomparable elements are reported whenever the sort compares them, never sorted silently
PBT_TEST(C11, unordered, 20000, pbt::F_NONE)
{
	size_t n = 2 + c.size(20); std::vector<double> v; size_t nans = 0;
	for (size_t i = 0; i < n; i++) { if (c.chance(1, 8)) { v.push_back(NAN); nans++; } else v.push_back((double)c.draw(10)); }
	auto src = v; bool threw = ThrowsError([&] { Sort(v.data(), (vint)n); });
	if (nans) { c.label("NaN"); if (n >= 4) c.nontrivial(); }
	// with two or more elements, a NaN is always compared with something
	PBT_CHECK(threw == (nans > 0), "%zu of %zu elements are NaN, an error is %sreported", nans, n, threw ? "" : "not ");
	auto key = [](double d) { return d != d ? -1.0 : d; }; std::map<double, int> a, b; for (double d : src) a[key(d)]++; for (double d : v) b[key(d)]++;
	PBT_CHECK(a == b, "elements were lost or duplicated"); if (!threw) PBT_CHECK(std::is_sorted(v.begin(), v.end()), "not sorted");
	c.note("%zu elements, %zu NaN", n, nans);
}

PBT_TEST(C11, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); unsigned state = (unsigned)c.draw(100000); int range = c.boolean() ? 1 << (6 + c.draw(14)) : 1 << 30; std::vector<int> v(n + 4); for (auto& x : v) { state = state * 1664525u + 1013904223u; x = (int)((state >> 8) % (unsigned)range); }
	std::vector<int> e = v; c.note("%zu elements of %d values", n, range); c.nontrivial();
	if (c.boolean()) Sort(v.data() + 2, (vint)n); else SortLambda(v.data() + 2, (vint)n, [](int a, int b) { return a <=> b; });
	std::sort(e.begin() + 2, e.end() - 2); if (v != e) { size_t i = 0; while (v[i] == e[i]) i++; c.fail("element %zu of %zu is wrong after sorting", i, n); }
}
