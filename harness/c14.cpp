// C14: copying, comparing and iterating collections agree for every combination of kinds
#include "linq.h"
#include <cmath>
using namespace linq;

PBT_RULE(C14,
	"Each case copies between random kinds of collections (List, Array, SortedList, LazyList, pointer range, Dictionary, Group, list of pairs, strings), with and without append, onto a target with previous content, and compares target and source with the expected "
	"sequences; compares two random collections with CompareEnumerable; iterates with range-for and indexed, with early exits. Non-trivial: source and previous target content are both non-empty, or the compared sequences share a prefix of at least 2 elements.");

namespace
{
	// replacing is also the default
	struct Copier { bool append, dflt; Copier(Ctx& c) { append = c.boolean(); dflt = c.boolean(); } template<typename D, typename... A> void operator()(D& d, const A&... a) { if (append || !dflt) CopyFrom(d, a..., append); else CopyFrom(d, a...); } };
	template<typename T, typename D>
	void Into(Ctx& c, D& d, const Seq& before, bool sorted, bool large)
	{
		Builder<T> b(c, large); Seq s = b.Values(20); Copier copy(c); bool append = copy.append; const char* kind = "";
		if (!s.empty() && !before.empty()) c.nontrivial();
		auto fill = [&](auto& l) { for (int v : s) l.Add(Elem<T>::Make(v)); };
		auto verifySource = [&](auto& l, const Seq& e) { PBT_CHECK(l.Count() == (vint)e.size(), "CopyFrom changed its source"); for (size_t i = 0; i < e.size(); i++) PBT_CHECK(Elem<T>::Read(l[(vint)i]) == e[i], "CopyFrom changed its source"); };
		switch (c.draw(7))
		{
		case 0: { kind = "List"; List<T> l; fill(l); copy(d, l); verifySource(l, s); break; }
		case 1: { kind = "Array"; Array<T> l((vint)s.size()); for (size_t i = 0; i < s.size(); i++) l[(vint)i] = Elem<T>::Make(s[i]); copy(d, l); verifySource(l, s); break; }
		case 2: { kind = "SortedList"; SortedList<T> l; fill(l); std::sort(s.begin(), s.end()); copy(d, l); verifySource(l, s); break; }
		case 3: { kind = "pointer and count"; std::vector<T> v; for (int x : s) v.push_back(Elem<T>::Make(x)); copy(d, (const T*)v.data(), (vint)v.size()); break; }
		case 4: { kind = "pointers"; std::vector<T> v; for (int x : s) v.push_back(Elem<T>::Make(x)); copy(d, (const T*)v.data(), (const T*)v.data() + v.size()); break; }
		case 5: { kind = "LazyList"; auto x = b.Build(3); s = x.s; copy(d, x.q); break; }
		default: { kind = "shared list"; auto l = Ptr(new List<T>); fill(*l.Obj()); copy(d, LazyList<T>(l)); verifySource(*l.Obj(), s); break; }
		}
		Seq e = append ? before : Seq(); e.insert(e.end(), s.begin(), s.end()); if (sorted) std::sort(e.begin(), e.end());
		c.note("from %s, append %d: %zu onto %zu", kind, append, s.size(), before.size());
		PBT_CHECK(d.Count() == (vint)e.size(), "copying %zu elements from %s onto %zu (append %d) gives %lld elements", s.size(), kind, before.size(), append, (long long)d.Count());
		for (size_t i = 0; i < e.size(); i++) PBT_CHECK(Elem<T>::Read(d[(vint)i]) == e[i], "copying from %s (append %d): element %zu is %d, expected %d", kind, append, i, Elem<T>::Read(d[(vint)i]), e[i]);
		CheckFault(c, "CopyFrom");
	}
	template<typename T>
	void Copy(Ctx& c, bool large = false)
	{
		Builder<T> b(c, large); Seq before = b.Values(12);
		switch (c.draw(3))
		{
		case 0: { List<T> l; for (int v : before) l.Add(Elem<T>::Make(v)); Into<T>(c, l, before, false, large); break; }
		case 1: { Array<T> l((vint)before.size()); for (size_t i = 0; i < before.size(); i++) l[(vint)i] = Elem<T>::Make(before[i]); Into<T>(c, l, before, false, large); break; }
		default: { SortedList<T> l; for (int v : before) l.Add(Elem<T>::Make(v)); std::sort(before.begin(), before.end()); Into<T>(c, l, before, true, large); }
		}
	}
}
PBT_TEST(C14, copy_int, 20000, pbt::F_NONE) { Copy<int>(c); }
PBT_TEST(C14, copy_tracked, 15000, pbt::F_NONE) { Tr::Reset(); Copy<Tr>(c); }
PBT_TEST(C14, large_copy_int, 1500, pbt::F_NONE) { Copy<int>(c, true); }
PBT_TEST(C14, large_copy_tracked, 800, pbt::F_NONE) { Tr::Reset(); Copy<Tr>(c, true); }
PBT_TEST(C14, copy_string_elements, 10000, pbt::F_NONE) { Copy<WString>(c); }

PBT_TEST(C14, copy_maps, 20000, pbt::F_NONE)
{
	std::map<int, int> m; Dictionary<int, WString> d; size_t n = c.size(10);
	for (size_t i = 0; i < n; i++) { int k = (int)c.draw(12), v = (int)c.draw(500); m[k] = v; d.Set(k, itow(v)); }
	Copier copy(c); bool append = copy.append; const char* kind = "";
	std::vector<std::pair<int, int>> ps; size_t k = c.size(12); for (size_t i = 0; i < k; i++) ps.push_back({ (int)c.draw(12), (int)c.draw(500) });
	if (n && k) c.nontrivial();
	if (!append) m.clear();
	switch (c.draw(4))
	{
	case 0: { kind = "list of pairs"; List<Pair<int, WString>> l; for (auto& p : ps) l.Add(Pair<int, WString>(p.first, itow(p.second))); copy(d, l); for (auto& p : ps) m[p.first] = p.second; break; }
	case 1: { kind = "dictionary"; Dictionary<int, WString> s; for (auto& p : ps) s.Set(p.first, itow(p.second)); copy(d, s); std::map<int, int> t; for (auto& p : ps) t[p.first] = p.second; for (auto& p : t) m[p.first] = p.second; break; }
	case 2: { kind = "lazy pairs"; List<int> ks; for (auto& p : ps) ks.Add(p.first * 1000 + p.second); copy(d, From(ks).Select([](int x) { return Pair<int, WString>(x / 1000, itow(x % 1000)); })); for (auto& p : ps) m[p.first] = p.second; break; }
	default: { kind = "lazy dictionary"; Dictionary<int, WString> s; std::map<int, int> t; for (auto& p : ps) { s.Set(p.first, itow(p.second)); t[p.first] = p.second; } copy(d, From(s).Where([](Pair<const int&, const WString&> p) { return p.key % 2 == 0; })); for (auto& p : t) if (p.first % 2 == 0) m[p.first] = p.second; }
	}
	c.note("from %s, append %d", kind, append);
	PBT_CHECK(d.Count() == (vint)m.size(), "copying from %s (append %d): %lld keys, expected %zu", kind, append, (long long)d.Count(), m.size());
	vint i = 0; for (auto& [kk, v] : m) { PBT_CHECK(d.Keys()[i] == kk && d.Values()[i] == itow(v), "copying from %s (append %d): pair %lld is wrong", kind, append, (long long)i); i++; }
	// back into a list of pairs
	List<Pair<int, WString>> back; CopyFrom(back, d); i = 0;
	PBT_CHECK(back.Count() == d.Count(), "copying a dictionary to a list gives %lld pairs", (long long)back.Count());
	for (auto& [kk, v] : m) { PBT_CHECK(back[i].key == kk && back[i].value == itow(v), "pair %lld of the copied list is wrong", (long long)i); i++; }
	// elements of a different type convert; a group takes pairs
	{
		List<long> wide; wide.Add(-1); List<int> ks; for (auto& p : ps) ks.Add(p.first); Copier cw(c); if (c.boolean()) cw(wide, ks); else cw(wide, From(ks)); vint base = cw.append ? 1 : 0;
		PBT_CHECK(wide.Count() == (vint)ps.size() + base && (!base || wide[0] == -1), "copying int to long gives %lld elements", (long long)wide.Count());
		for (size_t j = 0; j < ps.size(); j++) PBT_CHECK(wide[(vint)j + base] == ps[j].first, "copying int to long: element %zu", j);
		Group<int, WString> g2; std::map<int, std::vector<int>> gm2; size_t q = c.draw(4); for (size_t j = 0; j < q; j++) { int kk = (int)c.draw(12), v = (int)c.draw(500); g2.Add(kk, itow(v)); gm2[kk].push_back(v); }
		Copier cg(c); if (!cg.append) gm2.clear(); List<Pair<int, WString>> l; for (auto& p : ps) { l.Add(Pair<int, WString>(p.first, itow(p.second))); gm2[p.first].push_back(p.second); }
		if (c.boolean()) cg(g2, l); else cg(g2, From(l));
		PBT_CHECK(g2.Count() == (vint)gm2.size(), "copying pairs to a group gives %lld keys, expected %zu", (long long)g2.Count(), gm2.size()); vint kx = 0;
		for (auto& [kk, vs] : gm2) { PBT_CHECK(g2.Keys()[kx] == kk && g2.GetByIndex(kx).Count() == (vint)vs.size(), "copying pairs to a group: key %d", kk); for (size_t j = 0; j < vs.size(); j++) PBT_CHECK(g2.GetByIndex(kx)[(vint)j] == itow(vs[j]), "copying pairs to a group: value %zu of key %d", j, kk); kx++; }
	}
	if (c.boolean())
	{
		Group<int, WString> g; std::map<int, std::vector<int>> gm; for (auto& p : ps) { g.Add(p.first, itow(p.second)); gm[p.first].push_back(p.second); }
		List<Pair<int, WString>> gl; CopyFrom(gl, From(g).Select([](Pair<const int&, const WString&> p) { return Pair<int, WString>(p.key, p.value); })); vint j = 0;
		for (auto& [kk, vs] : gm) for (int v : vs) { PBT_CHECK(j < gl.Count() && gl[j].key == kk && gl[j].value == itow(v), "pair %lld of a group is wrong", (long long)j); j++; }
		PBT_CHECK(j == gl.Count(), "a group gives %lld pairs, expected %lld", (long long)gl.Count(), (long long)j);
	}
}

namespace
{
	template<typename Ch>
	void CopyText(Ctx& c)
	{
		unsigned zeros = c.chance(1, 4) ? 15 : 0; auto src = GenStr<Ch>(c, 12, zeros), before = GenStr<Ch>(c, 8, zeros); Copier cp(c); bool append = cp.append; if (!src.empty() && !before.empty()) c.nontrivial();
		auto e = append ? before + src : src; c.note("append %d: %zu onto %zu", append, src.size(), before.size());
		ObjectString<Ch> s = ObjectString<Ch>::CopyFrom(src.c_str(), (vint)src.size());
		if (c.boolean() && src.size() >= 1) { ObjectString<Ch> longer = s + s; s = longer.Right((vint)src.size()); } // a slice of a larger buffer
		List<Ch> l; for (Ch x : before) l.Add(x); Array<Ch> a((vint)before.size()); for (size_t i = 0; i < before.size(); i++) a[(vint)i] = before[i];
		cp(l, s); cp(a, s);
		PBT_CHECK(l.Count() == (vint)e.size() && a.Count() == (vint)e.size(), "copying a string gives %lld and %lld characters, expected %zu", (long long)l.Count(), (long long)a.Count(), e.size());
		for (size_t i = 0; i < e.size(); i++) PBT_CHECK(l[(vint)i] == e[i] && a[(vint)i] == e[i], "character %zu is wrong", i);
		List<Ch> chars; for (Ch x : src) chars.Add(x);
		ObjectString<Ch> d = ObjectString<Ch>::CopyFrom(before.c_str(), (vint)before.size()), copy = d, d2 = d;
		cp(d, chars); cp(d2, From(chars).Where([](Ch x) { return x != 'a'; }));
		auto e2 = append ? before : std::basic_string<Ch>(); for (Ch x : src) if (x != 'a') e2 += x;
		auto same = [](const ObjectString<Ch>& s, const std::basic_string<Ch>& e) { if (s.Length() != (vint)e.size()) return false; for (size_t i = 0; i < e.size(); i++) if (s[(vint)i] != e[i]) return false; return s.Buffer()[e.size()] == 0; };
		PBT_CHECK(same(d, e), "copying a list to a string is wrong"); PBT_CHECK(same(d2, e2), "copying a lazy list to a string is wrong"); PBT_CHECK(same(copy, before), "copying changed another string");
	}
}
PBT_TEST(C14, text_wide, 10000, pbt::F_NONE) { CopyText<wchar_t>(c); }
PBT_TEST(C14, large_text_wide, 1000, pbt::F_NONE) { LargeTexts large; CopyText<wchar_t>(c); }
PBT_TEST(C14, text_narrow, 10000, pbt::F_NONE) { CopyText<char>(c); }
PBT_TEST(C14, text_u16, 5000, pbt::F_NONE) { CopyText<char16_t>(c); }
PBT_TEST(C14, text_u8, 5000, pbt::F_NONE) { CopyText<char8_t>(c); }
PBT_TEST(C14, text_u32, 5000, pbt::F_NONE) { CopyText<char32_t>(c); }

static void Compare(Ctx& c, bool large)
{
	Builder<int> b(c, large); Seq x = b.Values(8), y = c.boolean() ? x : b.Values(8);
	if (!y.empty() && c.boolean()) { if (c.boolean()) y.resize(c.draw(y.size() + 1)); else y[c.draw(y.size())]++; }
	if (c.boolean()) y.push_back(b.Value());
	size_t common = 0; while (common < x.size() && common < y.size() && x[common] == y[common]) common++;
	if (common >= 2) c.nontrivial();
	auto make = [&](const Seq& s) -> LazyList<int> { auto l = b.Own(new List<int>); for (int v : s) l->Add(v); return c.boolean() ? From(*l) : From(*l).Select([](int v) { return v; }); };
	auto lx = make(x), ly = make(y); auto e = x < y ? -1 : x == y ? 0 : 1;
	auto g = CompareEnumerable(lx, ly); auto h = CompareEnumerable(ly, lx);
	c.note("%s ? %s", ShowSeq(x).c_str(), ShowSeq(y).c_str());
	PBT_CHECK((e < 0 && g < 0) || (e == 0 && g == 0) || (e > 0 && g > 0), "CompareEnumerable(%s,%s) is wrong", ShowSeq(x).c_str(), ShowSeq(y).c_str());
	PBT_CHECK((e < 0 && h > 0) || (e == 0 && h == 0) || (e > 0 && h < 0), "CompareEnumerable is not antisymmetric for %s and %s", ShowSeq(x).c_str(), ShowSeq(y).c_str());
	// partial ordering
	List<double> dx, dy; for (int v : x) dx.Add(v / 10.0); for (int v : y) dy.Add(v / 10.0);
	size_t at = 100000; if (dx.Count() && dy.Count() && c.boolean()) { at = c.draw(std::min(dx.Count(), dy.Count())); (c.boolean() ? dx : dy)[(vint)at] = NAN; c.label("NaN"); }
	std::partial_ordering p = CompareEnumerable(dx, dy);
	std::partial_ordering ep = common < at ? std::partial_ordering(e <=> 0) : std::partial_ordering::unordered;
	PBT_CHECK(p == ep, "CompareEnumerable over doubles is wrong");
}
PBT_TEST(C14, compare, 30000, pbt::F_NONE) { Compare(c, false); }
PBT_TEST(C14, large_compare, 2000, pbt::F_NONE) { Compare(c, true); }

static void Loops(Ctx& c, bool large)
{
	Builder<Tr> b(c, large); Tr::Reset(); auto x = b.Build(4); size_t stop = c.boolean() ? c.draw(x.s.size() + 1) : 100000; size_t i = 0;
	if (x.s.size() >= 3) c.nontrivial();
	for (auto& v : x.q) { if (i == stop) break; PBT_CHECK(i < x.s.size() && v.Value() == x.s[i], "for visits a wrong element at %zu", i); i++; }
	PBT_CHECK(i == std::min(stop, x.s.size()), "for visits %zu of %zu elements", i, x.s.size());
	i = 0;
	for (auto [v, j] : indexed(x.q)) { if (i == stop) break; PBT_CHECK(j == (vint)i, "indexed gives index %lld at %zu", (long long)j, i); PBT_CHECK(i < x.s.size() && v.Value() == x.s[i], "indexed gives a wrong element at %zu", i); i++; }
	PBT_CHECK(i == std::min(stop, x.s.size()), "indexed visits %zu of %zu elements", i, x.s.size());
	List<int> l; for (int v : x.s) l.Add(v); i = 0;
	for (auto [v, j] : indexed(l)) { if (i == stop) break; PBT_CHECK(j == (vint)i && v == x.s[i] && &v == &l[j], "indexed over a list is wrong at %zu", i); i++; }
	i = 0; for (auto& v : l) { PBT_CHECK(&v == &l[(vint)i], "for over a list gives a copy"); i++; }
	PBT_CHECK(i == x.s.size(), "for over a list visits %zu of %zu elements", i, x.s.size());
	i = 0; for (auto [v, j] : indexed(From(l).Skip(1))) { PBT_CHECK(j == (vint)i && v == x.s[i + 1], "indexed over a temporary lazy list is wrong"); i++; }
	{
		// the iterators themselves, compared in every way
		auto it = begin(x.q); auto ending = end(x.q); auto idx = indexed(x.q); auto it2 = begin(idx); auto ending2 = end(idx); size_t upto = std::min(stop, x.s.size());
		for (i = 0; i <= upto; i++)
		{
			bool over = i == x.s.size();
			PBT_CHECK((it == ending) == over && (it != ending) == !over && (ending == it) == over && (ending != it) == !over, "comparing a loop iterator with the end after %zu of %zu elements", i, x.s.size());
			PBT_CHECK((it2 == ending2) == over && (it2 != ending2) == !over && (ending2 == it2) == over && (ending2 != it2) == !over, "comparing an indexed loop iterator with the end after %zu of %zu elements", i, x.s.size());
			if (over) break;
			auto&& [v, j] = *it2; PBT_CHECK((*it).Value() == x.s[i] && v.Value() == x.s[i] && j == (vint)i, "a loop iterator gives a wrong element at %zu", i); ++it; ++it2;
		}
	}
	{
		// containers of pairs, and the other containers
		Dictionary<int, WString> d; Group<int, int> g; std::map<int, int> dm; std::map<int, Seq> gm; for (size_t k = 0; k < x.s.size() && k < 12; k++) { int v = x.s[k]; d.Set(v % 7, itow(v)); dm[v % 7] = v; g.Add(v % 3, v); gm[v % 3].push_back(v); }
		auto it = dm.begin(); i = 0; for (auto [p, j] : indexed(d)) { PBT_CHECK(it != dm.end() && j == (vint)i && p.key == it->first && p.value == itow(it->second), "indexed over a dictionary is wrong at %zu", i); ++it; i++; } PBT_CHECK(it == dm.end(), "indexed over a dictionary visits %zu pairs", i);
		Seq flat; for (auto& [k, vs] : gm) for (int v : vs) flat.push_back(k * 1000 + v); i = 0; for (auto [p, j] : indexed(g)) { PBT_CHECK(i < flat.size() && j == (vint)i && p.key * 1000 + p.value == flat[i], "indexed over a group is wrong at %zu", i); i++; } PBT_CHECK(i == flat.size(), "indexed over a group visits %zu pairs", i);
		i = 0; for (auto [k, v] : g) { PBT_CHECK(i < flat.size() && k * 1000 + v == flat[i], "for over a group is wrong at %zu", i); i++; } PBT_CHECK(i == flat.size(), "for over a group visits %zu pairs", i);
		Array<int> a((vint)x.s.size()); for (size_t k = 0; k < x.s.size(); k++) a[(vint)k] = x.s[k]; i = 0; for (auto& v : a) { PBT_CHECK(&v == &a[(vint)i], "for over an array gives a copy"); i++; } PBT_CHECK(i == x.s.size(), "for over an array visits %zu of %zu elements", i, x.s.size());
		SortedList<int> so; for (int v : x.s) so.Add(v); i = 0; for (auto [v, j] : indexed(so)) { PBT_CHECK(&v == &so[(vint)i] && j == (vint)i, "indexed over a sorted list is wrong at %zu", i); i++; } PBT_CHECK(i == x.s.size(), "indexed over a sorted list visits %zu of %zu elements", i, x.s.size());
	}
	CheckFault(c, "loop"); c.note("%zu elements, stop at %zu", x.s.size(), stop);
}
PBT_TEST(C14, loops, 30000, pbt::F_NONE) { Loops(c, false); }
PBT_TEST(C14, large_loops, 800, pbt::F_NONE) { Loops(c, true); }

PBT_TEST(C14, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); std::vector<int> m; for (size_t i = 0; i < n; i++) m.push_back((int)i * 2); Array<int> a; List<int> l; SortedList<int> s; c.note("%zu elements", n); c.nontrivial();
	CopyFrom(a, (const int*)m.data(), (vint)n); CopyFrom(l, a); CopyFrom(s, l); if (c.boolean()) { CopyFrom(l, a, true); auto r = m; m.insert(m.end(), r.begin(), r.end()); } 
	PBT_CHECK(a.Count() == (vint)n && s.Count() == (vint)n && l.Count() == (vint)m.size(), "copied %lld, %lld and %lld elements", (long long)a.Count(), (long long)s.Count(), (long long)l.Count());
	for (size_t i = 0; i < n; i++) if (a[(vint)i] != m[i] || s[(vint)i] != m[i]) c.fail("copied element %zu is wrong", i); for (size_t i = 0; i < m.size(); i++) if (l[(vint)i] != m[i]) c.fail("copied element %zu is wrong", i);
	size_t at = 0; for (auto x : l) { if (x != m[at]) c.fail("the loop gives %d at %zu", x, at); at++; } PBT_CHECK(at == m.size(), "the loop ends after %zu", at);
	at = 0; for (auto [x, i] : indexed(a)) { if (x != m[at] || i != (vint)at) c.fail("the indexed loop gives %d, %lld at %zu", x, (long long)i, at); at++; } PBT_CHECK(at == n, "the indexed loop ends after %zu", at);
	List<int> o; CopyFrom(o, l); size_t p = m.size() - 1 - (c.boolean() ? c.draw(3) : c.draw(m.size())); int delta = (int)c.draw(3) - 1; o[(vint)p] += delta;
	auto r = CompareEnumerable(l, o); PBT_CHECK((r < 0) == (delta > 0) && (r > 0) == (delta < 0) && (r == 0) == (delta == 0), "comparison of long lists that differ at %zu of %zu", p, m.size());
	o[(vint)p] -= delta; o.RemoveAt(o.Count() - 1); PBT_CHECK(CompareEnumerable(l, o) > 0 && CompareEnumerable(o, l) < 0, "a long prefix is not less");
}

// a list or array appended to itself is there twice
namespace
{
	template<typename T>
	void AppendSelf(Ctx& c)
	{
		Builder<T> b(c); Seq s = b.Values(20), e = s; e.insert(e.end(), s.begin(), s.end()); bool array = c.boolean(); c.note("%zu elements, array %d", s.size(), array); if (s.size() >= 2) c.nontrivial();
		auto verify = [&](auto& d) { PBT_CHECK(d.Count() == (vint)e.size(), "appending %zu elements to themselves gives %lld", s.size(), (long long)d.Count()); for (size_t i = 0; i < e.size(); i++) PBT_CHECK(Elem<T>::Read(d[(vint)i]) == e[i], "appending to itself: element %zu is wrong", i); };
		if (array) { Array<T> a((vint)s.size()); for (size_t i = 0; i < s.size(); i++) a[(vint)i] = Elem<T>::Make(s[i]); CopyFrom(a, a, true); verify(a); }
		else { List<T> l; for (int v : s) l.Add(Elem<T>::Make(v)); CopyFrom(l, l, true); verify(l); }
		CheckFault(c, "CopyFrom");
	}
}
PBT_TEST(C14, append_self_int, 2000, pbt::F_NONE) { AppendSelf<int>(c); }
PBT_TEST(C14, append_self_tracked, 2000, pbt::F_NONE) { Tr::Reset(); AppendSelf<Tr>(c); }
PBT_TEST(C14, append_self_string, 2000, pbt::F_NONE) { AppendSelf<WString>(c); }
