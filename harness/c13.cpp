// C13: every enumerator is an independent cursor: Clone, Reset, Index and Evaluated keep their contract
#include "linq.h"
using namespace linq;

PBT_RULE(C13,
	"Each case builds a random container or LINQ pipeline and drives up to 5 enumerators of it with a random interleaving of Next, Clone, Reset, Current and Index, including calls after the end, mirrored by a position in the reference sequence. "
	"Non-trivial: the sequence has at least 3 elements and an enumerator was cloned or reset strictly inside it.");

namespace
{
	template<typename T>
	void Drive(Ctx& c, const IEnumerable<T>& q, const Seq& s, bool large = false)
	{
		struct Cur { Ptr<IEnumerator<T>> e; size_t pos; bool ended; }; // pos: number of elements read
		std::vector<Cur> cs; cs.push_back({ Ptr<IEnumerator<T>>(q.CreateEnumerator()), 0, false });
		size_t steps = 5 + c.size(60);
		for (size_t st = 0; st < steps; st++)
		{
			size_t i = c.draw(cs.size()); auto& u = cs[i]; bool inside = u.pos > 0 && u.pos < s.size() && !u.ended;
			switch (c.draw(large ? 10 : 8))
			{
			case 8: case 9:
			{
				size_t k = u.ended || u.pos >= s.size() ? 0 : c.draw(s.size() - u.pos + 1); c.note("e%zu.Next() x%zu", i, k);
				for (size_t t = 0; t < k; t++) { PBT_CHECK(u.e->Next(), "enumerator %zu: Next() is false after %zu of %zu elements", i, u.pos, s.size()); u.pos++; PBT_CHECK(u.e->Index() == (vint)u.pos - 1 && Elem<T>::Read(u.e->Current()) == s[u.pos - 1], "enumerator %zu: Index() or Current() is wrong after %zu elements", i, u.pos); }
				break;
			}
			case 0: case 1: case 2: case 3:
			{
				bool g = u.e->Next(); bool e = !u.ended && u.pos < s.size(); c.note("e%zu.Next() = %d", i, g);
				PBT_CHECK(g == e, "enumerator %zu: Next() is %d after %zu of %zu elements%s", i, g, u.pos, s.size(), u.ended ? " (already ended)" : "");
				if (g) u.pos++; else u.ended = true;
				break;
			}
			case 4: { if (cs.size() >= 5) break; c.note("e%zu = e%zu.Clone()", cs.size(), i); if (inside && s.size() >= 3) { c.nontrivial(); c.label("clone inside"); } Cur n{ Ptr<IEnumerator<T>>(u.e->Clone()), u.pos, u.ended }; cs.push_back(n); break; }
			case 5: c.note("e%zu.Reset()", i); if (inside && s.size() >= 3) { c.nontrivial(); c.label("reset inside"); } u.e->Reset(); u.pos = 0; u.ended = false; break;
			case 6: if (cs.size() >= 2 && c.chance(1, 3)) { c.note("drop e%zu", i); cs.erase(cs.begin() + i); } break;
			default: { if (cs.size() >= 5) break; c.note("e%zu = new", cs.size()); cs.push_back({ Ptr<IEnumerator<T>>(q.CreateEnumerator()), 0, false }); }
			}
			for (size_t j = 0; j < cs.size(); j++)
			{
				auto& v = cs[j];
				if (v.ended) continue;
				PBT_CHECK(v.e->Index() == (vint)v.pos - 1, "enumerator %zu: Index() is %lld after %zu elements", j, (long long)v.e->Index(), v.pos);
				if (v.pos) { int g = Elem<T>::Read(v.e->Current()); PBT_CHECK(g == s[v.pos - 1], "enumerator %zu: Current() is %d at index %zu, expected %d", j, g, v.pos - 1, s[v.pos - 1]); }
			}
		}
		CheckFault(c, "enumeration");
	}
}
PBT_TEST(C13, pipeline_int, 30000, pbt::F_NONE) { Builder<int> b(c); auto x = b.Build(4); Drive<int>(c, x.q, x.s); }
PBT_TEST(C13, pipeline_tracked, 20000, pbt::F_NONE) { Tr::Reset(); Builder<Tr> b(c); auto x = b.Build(4); Drive<Tr>(c, x.q, x.s); }
PBT_TEST(C13, pipeline_string, 10000, pbt::F_NONE) { Builder<WString> b(c); auto x = b.Build(4); Drive<WString>(c, x.q, x.s); }

PBT_TEST(C13, large_int, 3000, pbt::F_NONE) { Builder<int> b(c, true); auto x = b.Build(4); Drive<int>(c, x.q, x.s, true); }
PBT_TEST(C13, large_tracked, 1500, pbt::F_NONE) { Tr::Reset(); Builder<Tr> b(c, true); auto x = b.Build(4); Drive<Tr>(c, x.q, x.s, true); }

// containers themselves, and the remaining enumerator classes
PBT_TEST(C13, containers, 20000, pbt::F_NONE)
{
	Builder<int> b(c); Seq s = b.Values(15);
	switch (c.draw(6))
	{
	case 0: { List<int> l; for (int v : s) l.Add(v); Drive<int>(c, l, s); break; }
	case 1: { Array<int> l((vint)s.size()); for (size_t i = 0; i < s.size(); i++) l[(vint)i] = s[i]; Drive<int>(c, l, s); break; }
	case 2: { SortedList<int> l; for (int v : s) l.Add(v); std::sort(s.begin(), s.end()); Drive<int>(c, l, s); break; }
	case 3: { Drive<int>(c, Range<vint>(7, (vint)s.size()).Select([](vint v) { return (int)v; }), [&] { Seq r; for (size_t i = 0; i < s.size(); i++) r.push_back(7 + (int)i); return r; }()); break; }
	case 4: { auto w = FromPointer((const int*)s.data(), (const int*)s.data() + s.size()); Drive<int>(c, w, s); break; }
	default: { int arr[4] = { 101, 102, 103, (int)s.size() }; Drive<int>(c, From(arr), Seq(arr, arr + 4)); }
	}
}
namespace
{
	template<typename P, typename F>
	void DrivePairs(Ctx& c, const IEnumerable<P>& q, const Seq& s, F f)
	{
		auto l = LazyList<P>(q).Select([f](P p) { return f(p); });
		Drive<int>(c, l, s);
		if (s.size() >= 1)
		{
			// direct use of the pair enumerator
			Ptr<IEnumerator<P>> e(q.CreateEnumerator()); size_t k = 1 + c.draw(s.size());
			for (size_t i = 0; i < k; i++) PBT_CHECK(e->Next() && f(e->Current()) == s[i] && e->Index() == (vint)i, "pair %zu is wrong", i);
			Ptr<IEnumerator<P>> cl(e->Clone());
			PBT_CHECK(cl->Index() == (vint)k - 1 && f(cl->Current()) == s[k - 1], "a clone is not at the position of the original");
			for (size_t i = k; i < s.size(); i++) PBT_CHECK(cl->Next() && f(cl->Current()) == s[i], "pair %zu of the clone is wrong", i);
			PBT_CHECK(!cl->Next(), "the clone does not end"); cl->Reset();
			for (size_t i = 0; i < s.size(); i++) PBT_CHECK(cl->Next() && f(cl->Current()) == s[i], "pair %zu after Reset is wrong", i);
		}
	}
}
PBT_TEST(C13, pairs, 20000, pbt::F_NONE)
{
	switch (c.draw(3))
	{
	case 0: { Dictionary<int, int> d; std::map<int, int> m; size_t n = c.size(12); for (size_t i = 0; i < n; i++) { int k = (int)c.draw(20), v = (int)c.draw(20); d.Set(k, v); m[k] = v; } Seq s; for (auto& [k, v] : m) s.push_back(100 + k * 20 + v); DrivePairs<Pair<const int&, const int&>>(c, d, s, [](const Pair<const int&, const int&>& p) { return 100 + p.key * 20 + p.value; }); break; }
	case 1: { Group<int, int> d; std::map<int, Seq> m; size_t n = c.size(20); for (size_t i = 0; i < n; i++) { int k = (int)c.draw(6), v = (int)c.draw(20); d.Add(k, v); m[k].push_back(v); } Seq s; for (auto& [k, vs] : m) for (int v : vs) s.push_back(100 + k * 20 + v); DrivePairs<Pair<const int&, const int&>>(c, d, s, [](const Pair<const int&, const int&>& p) { return 100 + p.key * 20 + p.value; }); break; }
	default: { Builder<int> b(c); auto x = b.Build(2), y = b.Build(2); Seq s; for (size_t i = 0; i < std::min(x.s.size(), y.s.size()); i++) s.push_back(x.s[i] * 1000 + y.s[i]); DrivePairs<Pair<int, int>>(c, x.q.Pairwise(y.q), s, [](const Pair<int, int>& p) { return p.key * 1000 + p.value; }); }
	}
}

// a collection reports its reference and notifies it exactly once, when it dies
namespace
{
	struct Ref : Object, ICollectionReference { int disposed = 0; void OnDisposed() override { disposed++; } };
	struct Ref2 : Object, ICollectionReference { void OnDisposed() override {} };
}
PBT_TEST(C13, collection_reference, 10000, pbt::F_NONE)
{
	std::vector<std::unique_ptr<List<int>>> ls; std::vector<Ptr<Ref>> rs; std::vector<int> cnt; // rs[i]: null if none is set
	for (int i = 0; i < 3; i++) { ls.emplace_back(new List<int>); rs.push_back(nullptr); }
	size_t steps = 3 + c.size(20);
	for (size_t st = 0; st < steps; st++)
	{
		size_t i = c.draw(3); auto& l = ls[i];
		switch (c.draw(5))
		{
		case 0: { auto r = Ptr(new Ref); if (rs[i]) { PBT_CHECK(ThrowsError([&] { l->SetCollectionReference(r); }), "a second reference is accepted"); c.label("second reference"); } else { l->SetCollectionReference(r); rs[i] = r; } c.note("set %zu", i); break; }
		case 1: { auto g = l->GetCollectionReference(); PBT_CHECK(g.Obj() == (ICollectionReference*)rs[i].Obj(), "GetCollectionReference is wrong"); PBT_CHECK(l->TryGetCollectionReference<Ref>().Obj() == rs[i].Obj(), "TryGetCollectionReference is wrong"); if (rs[i]) PBT_CHECK(ThrowsError([&] { l->TryGetCollectionReference<Ref2>(); }), "TryGetCollectionReference of a different type succeeds"); break; }
		case 2: { l->Add((int)st); if (l->Count() >= 2) l->RemoveAt(0); break; }
		case 3: { auto old = rs[i]; l.reset(new List<int>); rs[i] = nullptr; if (old) { PBT_CHECK(old->disposed == 1, "OnDisposed was called %d times", old->disposed); c.nontrivial(); } c.note("dispose %zu", i); break; }
		default: { PBT_CHECK(l->GetCollectionObject() == static_cast<const Object*>(l.get()), "GetCollectionObject is wrong"); From(*l).Where([](int v) { return v > 1; }).Count(); break; }
		}
		for (auto& r : rs) if (r) PBT_CHECK(r->disposed == 0, "OnDisposed was called early");
	}
}

// containers are evaluated, and reading where there is no element is an Error
PBT_TEST(C13, evaluated, 3000, pbt::F_NONE)
{
	Builder<int> b(c); Seq s = b.Values(10); List<int> l; Array<int> a((vint)s.size()); SortedList<int> so; Dictionary<int, int> d; Group<int, int> g; for (size_t i = 0; i < s.size(); i++) { l.Add(s[i]); a[(vint)i] = s[i]; so.Add(s[i]); d.Set(s[i], 1); g.Add(s[i], 1); }
	auto yes = [&](const auto& q, const char* what) { auto e = Ptr(q.CreateEnumerator()); PBT_CHECK(e->Evaluated(), "a %s says it is not evaluated", what); auto cl = Ptr(e->Clone()); PBT_CHECK(cl->Evaluated(), "the clone of an enumerator of a %s says it is not evaluated", what); };
	yes(l, "List"); yes(a, "Array"); yes(so, "SortedList"); yes(d, "Dictionary"); yes(g, "Group"); yes(From(l), "query of a List"); yes(From(d), "query of a Dictionary"); yes(Range<vint>(1, 5), "Range"); yes(From(s.data(), s.data() + s.size()), "pointer range"); yes(LazyList<int>(Ptr(new List<int>)), "shared list");
	{ long calls = 0; auto q = From(d).Select([&](auto p) { calls++; return p.key; }); PBT_CHECK(!Ptr(q.CreateEnumerator())->Evaluated(), "a Select says it is evaluated"); auto v = q.Evaluate(); calls = 0; for (auto x : v) (void)x; PBT_CHECK(calls == 0, "an evaluated list calls user functions"); }
	LazyList<int> none; auto e = Ptr(none.CreateEnumerator()); for (int i = 0; i < 3; i++) { PBT_CHECK(!e->Next(), "an empty collection has an element"); PBT_CHECK(ThrowsError([&] { e->Current(); }), "the current element of an empty collection is readable"); }
	c.note("%zu elements", s.size()); if (s.size() >= 3) c.nontrivial();
}
