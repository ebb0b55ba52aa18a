// C28: an exception thrown by the user's functions passes through unchanged and leaves no damage
#include "linq.h"
using namespace linq;

PBT_RULE(C28,
	"Each case gives functions that throw at a random call to a random query, loop, aggregate, copy, comparison, sort, join, Func, event, Variant callback or dependency query; checks that exactly the thrown exception arrives at the caller, that sources and handlers are as before, "
	"that running it again without the exception gives the right result, that every tracked element is destroyed and that nothing is leaked. Non-trivial: an exception was thrown and crossed the library.");

namespace
{
	template<typename T>
	void Eager(Ctx& c)
	{
		// the pipeline itself is built while functions throw: what was built so far is released
		Builder<T> b(c); b.token = 1 + (int)c.draw(1000); b.budget = (long)c.draw(c.boolean() ? 6 : 60); bool threw = false; Seq g, e;
		try { auto x = b.Build(5); e = x.s; g = Drain<T>(x.q, e.size() + 5); }
		catch (const Stop& s) { threw = true; PBT_CHECK(s.token == b.token, "the exception carries %d instead of %d", s.token, b.token); PBT_CHECK(b.budget < 0, "an exception appeared that was not thrown"); }
		if (threw) c.nontrivial(); else PBT_CHECK(g == e, "no function threw, the query gives %s instead of %s", ShowSeq(g).c_str(), ShowSeq(e).c_str());
		PBT_CHECK(threw || b.budget >= 0 || b.budget == -1, "an exception disappeared"); CheckFault(c, "a query");
	}
	template<typename T>
	void Again(Ctx& c)
	{
		Builder<T> b(c); auto x = b.Build(4); auto& q = x.q; auto& s = x.s; b.token = 1 + (int)c.draw(1000); bool swallowed = false, threw = false; long budget; const char* op = "";
		auto own = [&b] { b.Tick(); };
		for (int round = 0; round < 3; round++)
		{
			// how often functions are called is up to the query: sometimes the first call throws
			budget = (long)c.draw(c.boolean() ? 3 : s.size() + 5); b.budget = budget; long before = b.calls; bool t = false; uint64_t what = c.draw(19);
			try
			{
				switch (what)
				{
				case 0: op = "loop"; for (auto& v : q) Elem<T>::Read(v); break;
				case 1: op = "indexed loop"; for (auto [v, i] : indexed(q)) { Elem<T>::Read(v); (void)i; } break;
				case 2: op = "enumerator"; { Ptr<IEnumerator<T>> en(q.CreateEnumerator()); try { while (en->Next()) en->Current(); } catch (const Stop&) { b.budget = -1; en->Reset(); Seq g; while (en->Next()) { g.push_back(Elem<T>::Read(en->Current())); if (g.size() > s.size()) break; } PBT_CHECK(g == s, "after an exception and Reset, an enumerator gives %s instead of %s", ShowSeq(g).c_str(), ShowSeq(s).c_str()); throw; } break; }
				case 3: op = "Evaluate"; q.Evaluate(true); break;
				case 4: op = "OrderBy"; q.OrderBy([&](const T& a, const T& y) { own(); return a <=> y; }); break;
				case 5: op = "OrderByKey"; q.OrderByKey([&](const T& a) { own(); return Elem<T>::Read(a); }); break;
				case 6: op = "GroupBy"; q.GroupBy([&](const T& a) { own(); return Elem<T>::Read(a) % 3; }); break;
				case 7: op = "SelectMany"; q.SelectMany([&](const T& v) { auto l = Ptr(new List<T>); l->Add(v); own(); return LazyList<T>(l); }); break;
				case 8: op = "SelectMany of a throwing list"; q.SelectMany([&](const T& v) { auto l = Ptr(new List<T>); l->Add(v); l->Add(v); return LazyList<T>(l).Select([&](const T& y) { own(); return y; }); }); break;
				case 9: op = "Aggregate"; if (s.size()) q.Aggregate([&](const T& a, const T& y) { own(); return c.boolean() ? a : y; }); break;
				case 10: op = "Aggregate from a value"; q.Aggregate(Tr(1), [&](const Tr& a, const T& y) { own(); return Tr(a.Value() + Elem<T>::Read(y)); }); break;
				case 11: op = "All"; q.All([&](const T& v) { own(); return Elem<T>::Read(v) > 0; }); break;
				case 12: op = "Any"; q.Any([&](const T& v) { own(); return Elem<T>::Read(v) < 0; }); break;
				case 13: { op = "CopyFrom"; List<T> l; l.Add(Elem<T>::Make(5)); CopyFrom(l, q, c.boolean()); SortedList<T> sl; CopyFrom(sl, q); Array<T> a(3); CopyFrom(a, q); break; }
				case 14: op = "CompareEnumerable"; CompareEnumerable(q, q); break;
				case 15: op = "Max and Last"; if (s.size()) { q.Max(); q.Last(); q.First(); } q.IsEmpty(); q.Count(); break;
				case 16: { op = "sets"; auto sel = q.Select([&](const T& v) { own(); return v; }); for (auto& v : q.Union(sel)) { (void)v; } for (auto& v : sel.Intersect(q)) { (void)v; } for (auto& v : q.Except(sel)) { (void)v; } for (auto& v : sel.Distinct()) { (void)v; } break; }
				case 17: { op = "pairs"; auto sel = q.Where([&](const T& v) { own(); return Elem<T>::Read(v) % 2 == 0; }); for (auto v : q.Pairwise(sel)) { (void)v; } for (auto& v : sel.Concat(q).Skip(1).Repeat(2)) { (void)v; } sel.Reverse(); break; }
				default: { op = "Select and Where"; auto l = q.Select([&](const T& v) { own(); return v; }).Where([&](const T&) { own(); return true; }); Drain<T>(l, s.size() + 5); break; }
				}
			}
			catch (const Stop& st) { t = true; PBT_CHECK(st.token == b.token, "%s: the exception carries %d instead of %d", op, st.token, b.token); }
			catch (const Error&) { PBT_CHECK(false, "%s: an Error appeared instead of the exception of the user", op); }
			swallowed = !t && b.calls - before > budget; PBT_CHECK(!swallowed, "%s: the exception of the user disappeared", op);
			PBT_CHECK(!t || b.calls - before > budget, "%s: an exception that was not thrown", op);
			threw |= t; b.budget = -1; c.note("%s, budget %ld, threw %d", op, budget, (int)t);
			Seq g = Drain<T>(q, s.size() + 5); PBT_CHECK(g == s, "after %s threw, the query gives %s instead of %s", op, ShowSeq(g).c_str(), ShowSeq(s).c_str());
			CheckFault(c, op);
		}
		if (threw) c.nontrivial();
	}
	void Alive(Ctx& c) { CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld elements are alive after everything is gone", Tr::live); }
}
PBT_TEST(C28, eager_int, 15000, pbt::F_NONE) { Eager<int>(c); }
PBT_TEST(C28, eager_tracked, 15000, pbt::F_NONE) { Tr::Reset(); Eager<Tr>(c); Alive(c); }
PBT_TEST(C28, again_int, 15000, pbt::F_NONE) { Again<int>(c); }
PBT_TEST(C28, again_tracked, 15000, pbt::F_NONE) { Tr::Reset(); Again<Tr>(c); Alive(c); }
PBT_TEST(C28, again_string, 5000, pbt::F_NONE) { Again<WString>(c); }

PBT_TEST(C28, sort, 15000, pbt::F_NONE)
{
	Tr::Reset();
	{
		Builder<Tr> b(c); Seq s = b.Values(30); b.token = (int)c.draw(1000); b.budget = (long)c.draw(1 + 3 * s.size()); List<Tr> l; for (int v : s) l.Add(Tr(v)); bool t = false;
		try { if (l.Count()) { if (c.boolean()) SortLambda(&l[0], l.Count(), [&](const Tr& x, const Tr& y) { b.Tick(); return x <=> y; }); else Sort<Tr>(&l[0], l.Count(), Func<std::strong_ordering(Tr, Tr)>([&](Tr x, Tr y) { b.Tick(); return x <=> y; })); } }
		catch (const Stop& st) { t = true; PBT_CHECK(st.token == b.token, "another exception arrived"); }
		PBT_CHECK(t == (b.calls > 0 && b.budget == -1), "the exception disappeared"); if (t) c.nontrivial();
		Seq g; for (auto& x : l) g.push_back(x.Value()); Seq e = s; std::sort(e.begin(), e.end()); if (t) std::sort(g.begin(), g.end());
		PBT_CHECK(g == e, "after the sort ended with an exception (%d) elements were lost", (int)t);
		b.budget = -1; if (l.Count()) SortLambda(&l[0], l.Count(), [&](const Tr& x, const Tr& y) { return x <=> y; });
		for (size_t i = 0; i < e.size(); i++) PBT_CHECK(l[(vint)i].Value() == e[i], "sorting again fails"); c.note("%zu elements, threw %d", s.size(), (int)t);
	}
	Alive(c);
}

PBT_TEST(C28, join, 10000, pbt::F_NONE)
{
	Tr::Reset();
	{
		Group<int, Tr> a, z; std::map<int, std::vector<int>> ma, mz; size_t n = c.size(10); for (size_t i = 0; i < n; i++) { int k = (int)c.draw(6), v = (int)c.draw(100); if (c.boolean()) { a.Add(k, Tr(v)); ma[k].push_back(v); } else { z.Add(k, Tr(v)); mz[k].push_back(v); } }
		long budget = (long)c.draw(8), calls = 0; bool t = false; int token = (int)c.draw(100); auto tick = [&] { if (calls++ == budget) throw Stop{ token }; };
		auto same = [](const Group<int, Tr>& g, std::map<int, std::vector<int>>& m) { if (g.Count() != (vint)m.size()) return false; vint i = 0; for (auto& [k, vs] : m) { if (g.Keys()[i] != k || g.GetByIndex(i).Count() != (vint)vs.size()) return false; for (size_t j = 0; j < vs.size(); j++) if (g.GetByIndex(i)[(vint)j].Value() != vs[j]) return false; i++; } return true; };
		try { GroupInnerJoin(a, z, [&](int, const List<Tr>&) { tick(); }, [&](int, const List<Tr>&) { tick(); }, [&](int, const List<Tr>&, const List<Tr>&) { tick(); }); }
		catch (const Stop& s) { t = true; PBT_CHECK(s.token == token, "another exception arrived"); }
		PBT_CHECK(t == (calls > budget), "the exception disappeared"); PBT_CHECK(same(a, ma) && same(z, mz), "a join changed its groups"); if (t) c.nontrivial();
		c.note("%zu and %zu keys, threw %d", ma.size(), mz.size(), (int)t);
	}
	Alive(c);
}

PBT_TEST(C28, function, 20000, pbt::F_NONE)
{
	Tr::Reset(); bool threw = false;
	{
		long budget = (long)c.draw(6); int token = 1 + (int)c.draw(1000); auto tick = [&budget, &token] { if (budget-- == 0) throw Stop{ token }; };
		struct Obj { std::function<void()> tick; Tr v{ 7 }; Tr M(const Tr& a, Tr b) { tick(); return Tr(a.Value() + b.Value() + v.Value() - 7); } } obj; obj.tick = tick;
		Tr cap(0); Func<Tr(const Tr&, Tr)> f = c.boolean() ? Func<Tr(const Tr&, Tr)>([tick, cap](const Tr& a, Tr b) { tick(); return Tr(a.Value() + b.Value() + cap.Value()); }) : Func<Tr(const Tr&, Tr)>(&obj, &Obj::M);
		Func<Tr(Tr, Tr)> conv(f); Func<void(const Tr&, Tr)> drop([f](const Tr& a, Tr b) { f(a, b); }); Func<Tr(const Tr&, Tr)> copy = f;
		Func<Func<Tr(Tr)>(Tr)> curried([f](Tr a) { return Func<Tr(Tr)>([f, a](Tr b) { return f(a, b); }); });
		Func<Tr(const Tr&)> part([f](const Tr& a) { return f(a, Tr(1)); });
		int calls = 4 + (int)c.draw(6);
		for (int i = 0; i < calls; i++)
		{
			long before = budget; bool t = false; int x = (int)c.draw(100), y = (int)c.draw(100), g = x + y; int kind = (int)c.draw(6);
			try
			{
				Tr a(x);
				switch (kind)
				{
				case 0: g = f(a, Tr(y)).Value(); break;
				case 1: g = conv(a, Tr(y)).Value(); break;
				case 2: drop(a, Tr(y)); break;
				case 3: g = copy(a, a).Value() - x + y; break;
				case 4: g = curried(a)(Tr(y)).Value(); break;
				default: g = part(a).Value() - 1 + y; break;
				}
			}
			catch (const Stop& s) { t = true; PBT_CHECK(s.token == token, "another exception arrived"); budget = c.boolean() ? (long)c.draw(3) : -1; token++; }
			PBT_CHECK(t == (before == 0), "kind %d: an exception %s", kind, t ? "appeared that was not thrown" : "disappeared"); threw |= t; if (!t) PBT_CHECK(g == x + y, "kind %d: the function returned %d instead of %d", kind, g, x + y);
			CheckFault(c, "a call"); c.note("kind %d, threw %d", kind, (int)t);
		}
	}
	Alive(c); if (threw) c.nontrivial();
}

PBT_TEST(C28, event, 15000, pbt::F_NONE)
{
	Tr::Reset(); bool threw = false;
	{
		Event<void(const Tr&, Tr)> ev; struct H { Ptr<EventHandler> h; bool on; bool throws; int calls; }; std::vector<H> hs(1 + c.draw(6)); int token = (int)c.draw(1000);
		for (size_t i = 0; i < hs.size(); i++) { hs[i].on = true; hs[i].throws = c.chance(1, 4); hs[i].calls = 0; auto ph = &hs[i]; Tr cap((int)i); hs[i].h = ev.Add(Func<void(const Tr&, Tr)>([ph, cap, &token](const Tr& a, Tr b) { ph->calls++; (void)cap.Value(); if (ph->throws) throw Stop{ token }; if (a.Value() != 3 || b.Value() != 4) ph->calls += 100; })); }
		for (int r = 0; r < 5; r++)
		{
			bool any = false, t = false; for (auto& h : hs) { h.calls = 0; any |= h.on && h.throws; }
			try { ev(Tr(3), Tr(4)); } catch (const Stop& s) { t = true; PBT_CHECK(s.token == token, "another exception arrived"); }
			PBT_CHECK(t == any, "an exception thrown by a handler %s", t ? "appeared" : "disappeared"); threw |= t;
			for (size_t i = 0; i < hs.size(); i++)
			{
				auto& h = hs[i]; PBT_CHECK(h.calls == 0 || h.calls == 1, "handler %zu was called %d times", i, h.calls); PBT_CHECK(h.on || !h.calls, "a detached handler was called"); PBT_CHECK(t || h.calls == (int)h.on, "handler %zu was not called", i);
				PBT_CHECK(h.h->IsAttached() == h.on, "handler %zu reports attached=%d after an exception", i, (int)!h.on);
			}
			auto& h = hs[c.draw(hs.size())];
			if (c.boolean()) h.throws = !h.throws; else { PBT_CHECK(ev.Remove(h.h) == h.on, "Remove"); h.on = false; }
			c.note("raised, threw %d", (int)t); CheckFault(c, "raising");
		}
	}
	Alive(c); if (threw) c.nontrivial();
}

PBT_TEST(C28, callbacks, 15000, pbt::F_NONE)
{
	Tr::Reset(); bool threw = false;
	{
		int token = (int)c.draw(1000);
		// a variant keeps its value when a callback throws
		Variant<int, Tr, WString> v; int kind = (int)c.draw(3), val = (int)c.draw(100); if (kind == 0) v = val; else if (kind == 1) v = Tr(val); else v = itow(val);
		auto holds = [&] { return v.Index() == kind && (kind == 0 ? v.Get<int>() == val : kind == 1 ? v.Get<Tr>().Value() == val : v.Get<WString>() == itow(val)); };
		int which = (int)c.draw(4); bool t = false; const auto& cv = v;
		auto all = Overloading([&](const int&) { throw Stop{ token }; }, [&](const Tr&) { throw Stop{ token }; }, [&](const WString&) { throw Stop{ token }; });
		try { if (which == 0) v.Apply(all); else if (which == 1) cv.Apply(all); else if (which == 2) v.TryApply([&](Tr&) { throw Stop{ token }; }); else cv.TryApply([&](const Tr&) { throw Stop{ token }; }); }
		catch (const Stop& s) { t = true; PBT_CHECK(s.token == token, "another exception arrived"); }
		PBT_CHECK(t == (which < 2 || kind == 1), "an exception of a callback disappeared"); PBT_CHECK(holds(), "a variant lost its value after a callback threw"); threw |= t; c.note("variant kind %d callback %d threw %d", kind, which, (int)t);
		// loops over containers whose body throws
		List<Tr> l; size_t n = 1 + c.size(6); for (size_t i = 0; i < n; i++) l.Add(Tr((int)i)); size_t stop = c.draw(n), seen = 0; t = false; Dictionary<int, Tr> d; for (size_t i = 0; i < n; i++) d.Add((int)i, Tr((int)i));
		try
		{
			switch (c.draw(4))
			{
			case 0: for (auto& x : l) { seen++; if (x.Value() == (int)stop) throw Stop{ token }; } break;
			case 1: for (auto [x, i] : indexed(l)) { seen++; if (i == (vint)stop && x.Value() == (int)stop) throw Stop{ token }; } break;
			case 2: for (auto [k, x] : d) { seen++; if (k == (int)stop && x.Value() == k) throw Stop{ token }; } break;
			default: for (auto& x : From(l).Where([](const Tr&) { return true; }).Skip(0)) { seen++; if (x.Value() == (int)stop) throw Stop{ token }; } break;
			}
		}
		catch (const Stop&) { t = true; }
		PBT_CHECK(t && seen == stop + 1, "a loop whose body throws at element %zu saw %zu elements", stop, seen);
		// dependencies found by a function that throws
		List<int> items; size_t m = 2 + c.draw(5); for (size_t i = 0; i < m; i++) items.Add((int)i * 3); long budget = (long)c.draw(m * m + 2), calls = 0; bool pt = false;
		for (int round = 0; round < 2; round++)
		{
			PartialOrderingProcessor p; pt = false;
			try { p.InitWithFunc(items, [&](int a, int b) { if (calls++ == budget) throw Stop{ token }; return a == b + 3; }); p.Sort(); }
			catch (const Stop& s) { pt = true; PBT_CHECK(s.token == token, "another exception arrived"); }
			if (!pt) { PBT_CHECK(p.components.Count() == (vint)m, "%lld components instead of %zu", (long long)p.components.Count(), m); for (size_t i = 0; i < m; i++) PBT_CHECK(p.components[(vint)i].nodeCount == 1 && p.components[(vint)i].firstNode[0] == (vint)i, "component %zu is wrong", i); }
			threw |= pt;
		}
		for (size_t i = 0; i < m; i++) PBT_CHECK(items[(vint)i] == (int)i * 3, "items changed"); CheckFault(c, "callbacks");
	}
	Alive(c); if (threw) c.nontrivial();
}

// the library's own exceptions carry exactly the texts they were given, through every place user code runs in
PBT_TEST(C28, exception_texts, 8000, pbt::F_NONE)
{
	auto text = [&] { auto s = GenStr<wchar_t>(c, 12); return std::wstring(s.c_str(), s.size()); };
	std::wstring m = text(), f = text(), n = text(); int kind = (int)c.draw(4), place = (int)c.draw(6); bool sliced = c.boolean();
	static const wchar_t* const descriptions[] = { L"", L"an error", L"100% \x4E2D\x6587", L"vl::f()#reason" }; const wchar_t* description = descriptions[c.draw(4)];
	auto make = [&](const std::wstring& s) { WString w = WString::CopyFrom(s.c_str(), (vint)s.size()); if (sliced) { WString l = L"<" + w + L">"; w = l.Sub(1, w.Length()); } return w; };
	auto same = [](const WString& w, const std::wstring& s) { return std::wstring(w.Buffer(), (size_t)w.Length()) == s; };
	auto raise = [&]
	{
		switch (kind)
		{
		case 0: throw Exception(make(m));
		case 1: throw ArgumentException(make(m), make(f), make(n));
		case 2: { ArgumentException e(make(m), make(f), make(n)), copy(e); e = ArgumentException(L"other", L"other", L"other"); ArgumentException moved(std::move(copy)); throw moved; }
		default: throw Error(description);
		}
	};
	List<int> l; for (int i = 0; i < 3; i++) l.Add(i); bool arrived = false;
	auto run = [&]
	{
		switch (place)
		{
		case 0: raise(); break;
		case 1: { auto q = From(l).Select([&](int x) { if (x == 1) raise(); return x; }); for (int x : q) (void)x; break; }
		case 2: { Func<int(int)> g([&](int x) { raise(); return x; }); g(1); break; }
		case 3: { Event<void()> ev; ev.Add(Func<void()>([&] { raise(); })); ev(); break; }
		case 4: { Variant<int, WString> v(1); v.Apply([&](auto&&) { raise(); }); break; }
		default: From(l).OrderBy([&](int a, int b) { raise(); return a <=> b; });
		}
	};
	try { run(); }
	catch (const ArgumentException& e) { arrived = true; PBT_CHECK(kind == 1 || kind == 2, "an ArgumentException arrives that was not thrown"); PBT_CHECK(same(e.Message(), m) && same(e.GetFunction(), f) && same(e.GetName(), n), "an ArgumentException lost its message, function or name"); }
	catch (const Exception& e) { arrived = true; PBT_CHECK(kind == 0 && same(e.Message(), m), "an Exception lost its message"); }
	catch (const Error& e) { arrived = true; PBT_CHECK(kind == 3 && !wcscmp(e.Description(), description), "an Error lost its description"); }
	PBT_CHECK(arrived, "an exception disappeared");
	if (kind == 1) { try { run(); } catch (const Exception& e) { PBT_CHECK(same(e.Message(), m), "an ArgumentException caught as an Exception lost its message"); } }
	{ Exception e; ArgumentException a; PBT_CHECK(e.Message() == L"" && a.Message() == L"" && a.GetFunction() == L"" && a.GetName() == L"", "a default exception has a text"); }
	c.note("kind %d in place %d", kind, place); if (place) c.nontrivial();
}
