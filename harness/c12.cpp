// C12: LINQ pipelines produce exactly the sequence their definition says, lazily, without touching their sources
#include "linq.h"
using namespace linq;

PBT_RULE(C12,
	"Each case composes a random pipeline of up to about a dozen LINQ operations (Select, Where, Take, Skip, Repeat, Distinct, Reverse, Concat, Intersect, Except, Union, OrderBy*, Evaluate, Pairwise, SelectMany, GroupBy, copies) over random sources (List, Array, "
	"SortedList, Dictionary, shared list, pointer range, Range, empty) of int, tracked objects or strings, and compares its content (iterated twice), every aggregate and the call counts of user functions with a reference evaluation. Non-trivial: the pipeline has at least one operation over a source or result of at least 3 elements.");

namespace
{
	template<typename T>
	void Run(Ctx& c, bool large = false)
	{
		Builder<T> b(c, large);
		auto x = b.Build(5);
		for (int round = 0; round < 2; round++)
		{
			Seq g = Drain<T>(x.q, x.s.size() + 5);
			PBT_CHECK(g == x.s, "iteration %d gives %s, expected %s", round, ShowSeq(g).c_str(), ShowSeq(x.s).c_str());
		}
		const Seq& s = x.s; auto& q = x.q; auto Rd = [](const T& v) { return Elem<T>::Read(v); };
		if (s.size() >= 3) c.nontrivial();
		int m = 2 + (int)c.draw(3); auto even = [&](const T& v) { return Rd(v) % m == 0; };
		PBT_CHECK(q.Count() == (vint)s.size(), "Count() is %lld, expected %zu", (long long)q.Count(), s.size());
		PBT_CHECK(q.IsEmpty() == s.empty(), "IsEmpty() is wrong");
		PBT_CHECK(q.All(even) == std::all_of(s.begin(), s.end(), [&](int v) { return v % m == 0; }), "All() is wrong");
		PBT_CHECK(q.Any(even) == std::any_of(s.begin(), s.end(), [&](int v) { return v % m == 0; }), "Any() is wrong");
		{
			int64_t e = 7; for (int v : s) e = (e * 31 + v) % 1000003;
			int64_t g = q.Aggregate((int64_t)7, [&](int64_t a, const T& v) { return (a * 31 + Rd(v)) % 1000003; });
			PBT_CHECK(g == e, "Aggregate(init) is %lld, expected %lld", (long long)g, (long long)e);
		}
		T dflt = Elem<T>::Make(555);
		PBT_CHECK(Rd(q.First(dflt)) == (s.empty() ? 555 : s.front()), "First(default) is wrong");
		PBT_CHECK(Rd(q.Last(dflt)) == (s.empty() ? 555 : s.back()), "Last(default) is wrong");
		if (s.empty())
		{
			c.label("empty result");
			PBT_CHECK(ThrowsError([&] { q.First(); }), "First() of an empty sequence succeeds");
			PBT_CHECK(ThrowsError([&] { q.Last(); }), "Last() of an empty sequence succeeds");
			PBT_CHECK(ThrowsError([&] { q.Max(); }), "Max() of an empty sequence succeeds");
			PBT_CHECK(ThrowsError([&] { q.Min(); }), "Min() of an empty sequence succeeds");
			PBT_CHECK(ThrowsError([&] { q.Aggregate([](const T& a, const T&) { return a; }); }), "Aggregate(f) of an empty sequence succeeds");
		}
		else
		{
			PBT_CHECK(Rd(q.First()) == s.front() && Rd(q.Last()) == s.back(), "First() or Last() is wrong");
			PBT_CHECK(Rd(q.Max()) == *std::max_element(s.begin(), s.end()), "Max() is %d", Rd(q.Max()));
			PBT_CHECK(Rd(q.Min()) == *std::min_element(s.begin(), s.end()), "Min() is %d", Rd(q.Min()));
			int e = s[0]; for (size_t i = 1; i < s.size(); i++) e = Dom((int64_t)e * 7 + s[i]);
			PBT_CHECK(Rd(q.Aggregate([&](const T& a, const T& v) { return Elem<T>::Make(Dom((int64_t)Rd(a) * 7 + Rd(v))); })) == e, "Aggregate(f) is wrong");
		}
		// laziness: building calls nothing; iterating once calls the function once per element; an evaluated list calls nothing
		{
			long calls = 0; auto sel = q.Select([&](const T& v) { calls++; return Rd(v); });
			PBT_CHECK(calls == 0, "building a Select calls the function");
			Seq g = Drain<int>(sel, s.size() + 5);
			PBT_CHECK(g == s && calls == (long)s.size(), "iterating a Select over %zu elements calls the function %ld times", s.size(), calls);
			// Take computes only what it gives
			vint k = (vint)c.draw(s.size() + 2); calls = 0; Seq tg; auto take = sel.Take(k); size_t want = std::min((size_t)k, s.size());
			{
				Ptr<IEnumerator<int>> te(take.CreateEnumerator());
				while (te->Next()) { tg.push_back(te->Current()); PBT_CHECK(calls <= (long)tg.size(), "Take(%lld) computed %ld elements to give %zu", (long long)k, calls, tg.size()); if (tg.size() > s.size()) break; }
				for (int r = 0; r < 3; r++) PBT_CHECK(!te->Next(), "Take(%lld) goes on after its end", (long long)k);
			}
			PBT_CHECK(tg == Seq(s.begin(), s.begin() + want) && calls == (long)want, "Take(%lld) of %zu elements gives %s and computes %ld elements", (long long)k, s.size(), ShowSeq(tg).c_str(), calls);
			// the first element needs only one element; Any and All stop at the deciding element
			calls = 0; PBT_CHECK(sel.IsEmpty() == s.empty() && calls <= 1, "IsEmpty() computes %ld elements", calls);
			calls = 0; if (!s.empty()) PBT_CHECK(sel.First() == s[0] && calls == 1, "First() computes %ld elements", calls);
			auto ev = sel.Evaluate(); calls = 0;
			PBT_CHECK(Drain<int>(ev, s.size() + 5) == s && Drain<int>(ev, s.size() + 5) == s, "an evaluated list has different content");
			PBT_CHECK(calls == 0, "reading an evaluated list calls the function %ld times", calls);
			Ptr<IEnumerator<T>> en(q.CreateEnumerator());
			if (en->Evaluated())
			{
				c.label("evaluated"); long before = b.calls; Drain<T>(q, s.size() + 5);
				PBT_CHECK(b.calls == before, "reading a list that says it is evaluated calls user functions");
			}
			else PBT_CHECK(!x.evaluated, "a list documented to be evaluated says it is not");
			{
				// pairs are as evaluated as their parts
				auto pq = c.boolean() ? q.Pairwise(sel) : q.Pairwise(sel.Evaluate()); auto pr = sel.Pairwise(q);
				for (int side = 0; side < 2; side++)
				{
					auto check = [&](auto pl, auto key, auto value)
					{
						auto pe = Ptr(pl.CreateEnumerator()); auto done = pl.Evaluate();
						for (int twice = 0; twice < 2; twice++)
						{
							long before = b.calls, beforeSel = calls; size_t i = 0; const auto& list = twice ? done : pl;
							for (auto p : list) { PBT_CHECK(i < s.size() && key(p) == s[i] && value(p) == s[i], "pair %zu of a list with itself is wrong", i); i++; }
							PBT_CHECK(i == s.size(), "a list with itself makes %zu pairs of %zu elements", i, s.size());
							if (twice || pe->Evaluated()) PBT_CHECK(b.calls == before && calls == beforeSel, "reading pairs that are said to be evaluated calls user functions");
						}
					};
					if (side) check(pr, [](auto& p) { return p.key; }, [&](auto& p) { return Rd(p.value); }); else check(pq, [&](auto& p) { return Rd(p.key); }, [](auto& p) { return p.value; });
				}
			}
			auto cut = q.Evaluate(true);
			{
				// Evaluate(true) has no connection to the sources
				for (auto& f : b.keep) f();
				b.keep.clear();
				Seq h = Drain<T>(cut, s.size() + 5);
				PBT_CHECK(h == s, "Evaluate(true) gives %s after its sources are gone, expected %s", ShowSeq(h).c_str(), ShowSeq(s).c_str());
			}
		}
		CheckFault(c, "pipeline");
	}
}
PBT_TEST(C12, pipeline_int, 30000, pbt::F_NONE) { Run<int>(c); }
PBT_TEST(C12, pipeline_tracked, 20000, pbt::F_NONE) { Tr::Reset(); Run<Tr>(c); }
PBT_TEST(C12, pipeline_string, 15000, pbt::F_NONE) { Run<WString>(c); }

PBT_TEST(C12, large_int, 2500, pbt::F_NONE) { Run<int>(c, true); }
PBT_TEST(C12, large_tracked, 1500, pbt::F_NONE) { Tr::Reset(); Run<Tr>(c, true); }

// Cast and FindType over class hierarchies
namespace
{
	struct Base : Object { int v = 0; };
	struct D1 : virtual Base { };
	struct D2 : virtual Base { };
	struct D12 : D1, D2 { };
}
PBT_TEST(C12, cast_findtype, 20000, pbt::F_NONE)
{
	List<Ptr<Base>> l; std::vector<int> kind; size_t n = c.size(15);
	for (size_t i = 0; i < n; i++)
	{
		int k = (int)c.draw(5); kind.push_back(k);
		Ptr<Base> p; switch (k) { case 0: p = Ptr(new Base); break; case 1: p = Ptr(new D1); break; case 2: p = Ptr(new D2); break; case 3: p = Ptr(new D12); break; default: break; }
		if (p) p->v = (int)i; l.Add(p); c.note("%d", k);
	}
	if (n >= 3) c.nontrivial();
	auto isD1 = [&](int k) { return k == 1 || k == 3; };
	size_t i = 0, found = 0;
	for (auto& p : From(l).Cast<D1>()) { PBT_CHECK(i < n && (bool)p == isD1(kind[i]) && (!p || p->v == (int)i), "Cast is wrong at %zu", i); i++; }
	PBT_CHECK(i == n, "Cast gives %zu of %zu elements", i, n);
	std::vector<int> e; for (size_t j = 0; j < n; j++) if (isD1(kind[j])) e.push_back((int)j);
	for (auto& p : From(l).FindType<D1>()) { PBT_CHECK(found < e.size() && p && p->v == e[found], "FindType is wrong at %zu", found); found++; }
	PBT_CHECK(found == e.size(), "FindType gives %zu of %zu elements", found, e.size());
	// distinct by identity
	List<Ptr<Base>> dup; std::vector<Base*> order; size_t k = n ? c.size(20) : 0;
	for (size_t j = 0; j < k; j++) { auto& p = l[(vint)c.draw(n)]; dup.Add(p); if (std::find(order.begin(), order.end(), p.Obj()) == order.end()) order.push_back(p.Obj()); }
	size_t d = 0; for (auto& p : From(dup).Distinct()) { PBT_CHECK(d < order.size() && p.Obj() == order[d], "Distinct over pointers is wrong at %zu", d); d++; }
	PBT_CHECK(d == order.size(), "Distinct over pointers gives %zu of %zu", d, order.size());
}

PBT_TEST(C12, huge, 60, pbt::F_NOFUZZ)
{
	size_t n = GenHugeSize(c); std::vector<int> m; List<int> src; int period = c.boolean() ? (int)n : 30000 + (int)c.draw(40000); for (size_t i = 0; i < n; i++) { m.push_back((int)(i % period)); src.Add((int)(i % period)); }
	LazyList<int> q(src); c.note("%zu elements", n); c.nontrivial(); size_t steps = 1 + c.size(4);
	for (size_t s = 0; s < steps; s++)
	{
		size_t at = c.boolean() ? (size_t)c.draw(m.size() + 3) : std::min(m.size(), ((size_t)1 << (12 + c.draw(6))) + c.draw(5) - 2);
		switch (c.draw(11))
		{
		case 0: q = q.Skip((vint)at); m.erase(m.begin(), m.begin() + std::min(at, m.size())); c.note("Skip(%zu)", at); break;
		case 1: q = q.Take((vint)at); if (at < m.size()) m.resize(at); c.note("Take(%zu)", at); break;
		case 2: q = q.Select([](int x) { return x + 1; }); for (auto& x : m) x++; c.note("Select"); break;
		case 3: { int k = 2 + (int)c.draw(5); q = q.Where([k](int x) { return x % k != 0; }); m.erase(std::remove_if(m.begin(), m.end(), [k](int x) { return x % k == 0; }), m.end()); c.note("Where(%d)", k); break; }
		case 4: if (!std::is_sorted(m.begin(), m.end()) && !std::is_sorted(m.begin(), m.begin() + std::min(m.size(), (size_t)period))) break; /* adding in descending order takes quadratic time */ { q = q.Distinct(); std::vector<int> r; std::set<int> seen; for (int x : m) if (seen.insert(x).second) r.push_back(x); m = r; c.note("Distinct"); break; }
		case 5: q = q.Reverse(); std::reverse(m.begin(), m.end()); c.note("Reverse"); break;
		case 6: if (m.size() < 140000) { q = q.Concat(src); for (int x : src) m.push_back(x); } c.note("Concat"); break;
		case 7: if (m.size() < 140000) { q = q.Repeat(2); auto r = m; m.insert(m.end(), r.begin(), r.end()); } c.note("Repeat(2)"); break;
		case 8: q = q.Evaluate(); c.note("Evaluate"); break;
		case 9: q = q.Pairwise(Range<vint>(0, (vint)m.size())).Select([](Pair<int, vint> p) { return (int)(p.key ^ (int)p.value); }); for (size_t i = 0; i < m.size(); i++) m[i] ^= (int)i; c.note("Pairwise"); break;
		default: if (!std::is_sorted(m.begin(), m.end())) break; q = q.Union(src); { std::set<int> seen; std::vector<int> r; for (int x : m) if (seen.insert(x).second) r.push_back(x); for (int x : src) if (seen.insert(x).second) r.push_back(x); m = r; } c.note("Union"); steps = 0;
		}
		if (m.size() > 4) continue; else break;
	}
	auto e = Ptr(q.CreateEnumerator()); for (size_t i = 0; i < m.size(); i++) { if (!e->Next()) c.fail("the query ends at %zu instead of %zu", i, m.size()); if (e->Current() != m[i] || e->Index() != (vint)i) c.fail("element %zu is %d with index %lld, expected %d", i, e->Current(), (long long)e->Index(), m[i]); }
	PBT_CHECK(!e->Next(), "the query does not end after %zu elements", m.size()); PBT_CHECK(q.Count() == (vint)m.size(), "Count() is %lld, expected %zu", (long long)q.Count(), m.size());
	if (m.size()) PBT_CHECK(q.Last() == m.back() && q.First() == m[0] && q.Max() == *std::max_element(m.begin(), m.end()) && q.Min() == *std::min_element(m.begin(), m.end()), "an aggregate of a long query is wrong");
}

// a lazy list computes when it is iterated: it gives what its definition says about the content its sources have then
PBT_TEST(C12, changing_sources, 15000, pbt::F_NONE)
{
	List<int> src[2]; Seq m[2]; for (int k = 0; k < 2; k++) for (size_t n = c.size(10); n > 0; n--) { int v = (int)c.draw(20); src[k].Add(v); m[k].push_back(v); }
	LazyList<int> q; std::vector<std::function<Seq(Seq)>> ops; q = From(src[0]); size_t steps = 1 + c.size(5);
	for (size_t s = 0; s < steps; s++)
	{
		int a = (int)c.draw(6);
		switch (c.draw(9))
		{
		case 0: q = q.Select([=](int x) { return x * 2 + a; }); ops.push_back([=](Seq s) { for (int& x : s) x = x * 2 + a; return s; }); c.note("Select"); break;
		case 1: q = q.Where([=](int x) { return x % 3 != a % 3; }); ops.push_back([=](Seq s) { Seq r; for (int x : s) if (x % 3 != a % 3) r.push_back(x); return r; }); c.note("Where"); break;
		case 2: q = q.Take(a); ops.push_back([=](Seq s) { if (s.size() > (size_t)a) s.resize(a); return s; }); c.note("Take(%d)", a); break;
		case 3: q = q.Skip(a); ops.push_back([=](Seq s) { s.erase(s.begin(), s.begin() + std::min((size_t)a, s.size())); return s; }); c.note("Skip(%d)", a); break;
		case 4: q = q.Repeat(a % 3); ops.push_back([=](Seq s) { Seq r; for (int i = 0; i < a % 3; i++) r.insert(r.end(), s.begin(), s.end()); return r; }); c.note("Repeat(%d)", a % 3); break;
		case 5: q = q.Distinct(); ops.push_back([](Seq s) { return DistinctOf(s); }); c.note("Distinct"); break;
		case 6: q = q.Concat(From(src[1])); ops.push_back([&m](Seq s) { s.insert(s.end(), m[1].begin(), m[1].end()); return s; }); c.note("Concat"); break;
		case 7: q = q.Union(src[1]); ops.push_back([&m](Seq s) { s.insert(s.end(), m[1].begin(), m[1].end()); return DistinctOf(s); }); c.note("Union"); break;
		default: q = q.Pairwise(src[1]).Select([](Pair<int, int> p) { return (p.key * 3 + p.value) % 1000; }); ops.push_back([&m](Seq s) { Seq r; for (size_t i = 0; i < std::min(s.size(), m[1].size()); i++) r.push_back((s[i] * 3 + m[1][i]) % 1000); return r; }); c.note("Pairwise"); break;
		}
	}
	auto expect = [&] { Seq s = m[0]; for (auto& f : ops) s = f(s); return s; };
	Seq first = expect(); auto snapshot = q.Evaluate(true); size_t changes = 0;
	for (int round = 0; round < 3; round++)
	{
		Seq e = expect(), g = Drain<int>(q, e.size() + 5); PBT_CHECK(g == e, "after %zu changes of the sources the lazy list gives %s, expected %s", changes, ShowSeq(g).c_str(), ShowSeq(e).c_str());
		PBT_CHECK(q.Count() == (vint)e.size() && q.IsEmpty() == e.empty() && q.First(-1) == (e.empty() ? -1 : e[0]) && q.Last(-1) == (e.empty() ? -1 : e.back()), "Count, IsEmpty, First or Last does not see the changed sources");
		PBT_CHECK(Drain<int>(snapshot, first.size() + 5) == first, "an evaluated copy changed with the sources of its definition");
		if (changes && e.size() >= 2 && e != first) c.nontrivial();
		for (size_t n = c.size(4); n > 0; n--)
		{
			int k = (int)c.draw(2), v = (int)c.draw(20); changes++;
			switch (c.draw(4))
			{
			case 0: { size_t at = c.draw(m[k].size() + 1); src[k].Insert((vint)at, v); m[k].insert(m[k].begin() + at, v); break; }
			case 1: if (m[k].size()) { size_t at = c.draw(m[k].size()); src[k].RemoveAt((vint)at); m[k].erase(m[k].begin() + at); } break;
			case 2: if (m[k].size()) { size_t at = c.draw(m[k].size()); src[k].Set((vint)at, v); m[k][at] = v; } break;
			default: if (c.chance(1, 4)) { src[k].Clear(); m[k].clear(); } else { src[k].Add(v); m[k].push_back(v); }
			}
		}
	}
}
PBT_TEST(C12, changing_casts, 4000, pbt::F_NONE)
{
	List<Ptr<Base>> l; std::vector<int> kind; auto add = [&](size_t at) { int k = (int)c.draw(4); Ptr<Base> p = k == 0 ? Ptr<Base>(new Base) : k == 1 ? Ptr<Base>(new D1) : k == 2 ? Ptr<Base>(new D2) : Ptr<Base>(); l.Insert((vint)at, p); kind.insert(kind.begin() + at, k); };
	for (size_t n = c.size(6); n > 0; n--) add(kind.size());
	auto cast = From(l).Cast<D1>(); auto found = From(l).FindType<D1>(); auto again = From(l).Cast<Base>().FindType<D2>(); c.note("%zu", kind.size());
	for (int round = 0; round < 3; round++)
	{
		size_t i = 0; for (auto p : cast) { PBT_CHECK(i < kind.size() && (bool)p == (kind[i] == 1), "Cast does not see the changed source at %zu", i); i++; } PBT_CHECK(i == kind.size(), "Cast gives %zu elements of %zu after a change", i, kind.size());
		PBT_CHECK(found.Count() == (vint)std::count(kind.begin(), kind.end(), 1) && again.Count() == (vint)std::count(kind.begin(), kind.end(), 2), "FindType gives %lld and %lld elements after a change of the source", (long long)found.Count(), (long long)again.Count());
		if (round && kind.size() >= 2) c.nontrivial();
		for (size_t n = c.size(3); n > 0; n--) if (kind.size() && c.boolean()) { size_t at = c.draw(kind.size()); l.RemoveAt((vint)at); kind.erase(kind.begin() + at); } else add(c.draw(kind.size() + 1));
	}
}
