#pragma once
// random LINQ pipelines over values 100..999 together with the sequence they must produce
#include "tracked.h"
#include <map>
#include <set>

namespace linq
{
	using namespace vl;
	using namespace vl::collections;
	using pbt::Ctx;
	using Seq = std::vector<int>;

	inline int Dom(int64_t v) { return 100 + (int)(((v % 900) + 900) % 900); }

	inline Seq DistinctOf(const Seq& s) { Seq r; std::set<int> seen; for (int v : s) if (seen.insert(v).second) r.push_back(v); return r; }

	template<typename T>
	struct Q
	{
		LazyList<T> q;
		Seq s;
		bool pure = true;       // no user function anywhere in the pipeline
		bool evaluated = true;  // documented to be evaluated
	};

	struct Stop { int token; };

	template<typename T>
	struct Builder
	{
		Ctx& c;
		long calls = 0;          // user function invocations
		long budget = -1;        // user functions throw a Stop when this many calls are made
		int token = 0;
		void Tick() { calls++; if (budget >= 0 && budget-- == 0) throw Stop{ token }; }
		std::vector<std::function<void()>> keep; // owns the source containers
		bool large;              // some sources have hundreds of elements
		size_t limit;
		Builder(Ctx& _c, bool _large = false) : c(_c), large(_large), limit(_large ? 1500 : 200) {}
		~Builder() { for (auto& f : keep) f(); }
		static T Mk(int v) { return Elem<T>::Make(v); }
		static int Rd(const T& x) { return Elem<T>::Read(x); }

		static constexpr vint MaxInt = (vint)0x7FFFFFFFFFFFFFFFll;
		vint Outside() { switch (c.draw(6)) { case 0: return MaxInt; case 1: return -MaxInt - 1; case 2: return -MaxInt; default: return -1 - (vint)c.draw(3); } } // counts that no sequence has
		int Value() { return 100 + (int)(c.boolean() ? c.draw(5) : c.draw(900)); }
		Seq Values(size_t max)
		{
			if (large && c.boolean())
			{
				size_t n = std::min(GenLargeSize(c, 10), limit); unsigned state = (unsigned)c.draw(1000); int spread = c.boolean() ? 5 : 900; Seq s;
				for (size_t i = 0; i < n; i++) { state = state * 1664525u + 1013904223u; s.push_back(100 + (int)(state / 65536 % spread)); }
				return s;
			}
			Seq s; size_t n = c.size(max); for (size_t i = 0; i < n; i++) s.push_back(Value()); return s;
		}
		template<typename C> C* Own(C* p) { keep.push_back([p] { delete p; }); return p; }

		Q<T> Source()
		{
			Q<T> r;
			switch (c.draw(9))
			{
			case 0: case 1: { auto l = Own(new List<T>); r.s = Values(12); for (int v : r.s) l->Add(Mk(v)); r.q = From(*l); c.note("List(%zu)", r.s.size()); break; }
			case 2: { r.s = Values(12); auto l = Own(new Array<T>((vint)r.s.size())); for (size_t i = 0; i < r.s.size(); i++) l->Set((vint)i, Mk(r.s[i])); r.q = From(*l); c.note("Array(%zu)", r.s.size()); break; }
			case 3: { auto l = Own(new SortedList<T>); r.s = Values(12); for (int v : r.s) l->Add(Mk(v)); std::sort(r.s.begin(), r.s.end()); r.q = From(*l); c.note("SortedList(%zu)", r.s.size()); break; }
			case 4: { auto l = Ptr(new List<T>); r.s = Values(12); for (int v : r.s) l->Add(Mk(v)); r.q = LazyList<T>(l); c.note("Ptr<List>(%zu)", r.s.size()); break; }
			case 5: { r.s = Values(12); auto v = Own(new std::vector<T>); v->reserve(20); for (int x : r.s) v->push_back(Mk(x)); r.q = From((const T*)v->data(), (const T*)v->data() + v->size()); c.note("pointers(%zu)", r.s.size()); break; }
			case 6: { r.q = LazyList<T>(); c.note("empty"); break; }
			case 7:
			{
				vint start = 100 + (vint)c.draw(50), n = (vint)c.draw(large ? 700 : 12), count = n;
				switch (c.draw(16))
				{
				case 0: case 1: count = -n; n = 0; break;
				case 2: count = MaxInt; break;                        // endless for all purposes; only the beginning is used
				case 3: start = -MaxInt - 1 + (vint)c.draw(3); break; // the smallest numbers
				case 4: start = MaxInt - n + (n ? 1 : 0); break;      // the largest numbers
				case 5: start = -(vint)c.draw(20); break;
				case 6: count = -MaxInt - 1; n = 0; break;
				default:;
				}
				for (vint i = 0; i < n; i++) r.s.push_back(Dom(start + i)); c.note("Range(%lld,%lld)", (long long)start, (long long)count);
				LazyList<vint> ll = Range<vint>(start, count); if (count > n) ll = ll.Take(n); r.q = ll.Select([this](vint x) { Tick(); return Mk(Dom(x)); }); r.pure = false; r.evaluated = false; break;
			}
			default:
			{
				auto d = Own(new Dictionary<int, T>); std::map<int, int> m; size_t n = c.size(8); for (size_t i = 0; i < n; i++) { int k = (int)c.draw(10), v = Value(); d->Set(k, Mk(v)); m[k] = v; }
				for (auto& [k, v] : m) r.s.push_back(v);
				r.q = From(*d).Select([this](Pair<const int&, const T&> p)->T { Tick(); return p.value; }); r.pure = false; r.evaluated = false; c.note("Dictionary(%zu)", m.size());
			}
			}
			return r;
		}

		// wraps x in one more operation
		Q<T> Wrap(Q<T> x, int depth)
		{
			Q<T> r; const Seq& s = x.s; vint n = (vint)s.size(); Builder* self = this;
			r.pure = x.pure;
			auto count = [&]() { vint k; switch (c.draw(5)) { case 0: k = 0; break; case 1: k = n; break; case 2: k = n + 1 + (vint)c.draw(3); break; default: k = (vint)c.draw(n + 1); } return k; };
			switch (c.draw(21))
			{
			case 0: { int a = 1 + (int)c.draw(5), b = (int)c.draw(50); c.note("Select"); r.q = x.q.Select([=](const T& v) { self->Tick(); return Mk(Dom((int64_t)Rd(v) * a + b)); }); for (int v : s) r.s.push_back(Dom((int64_t)v * a + b)); r.pure = false; r.evaluated = false; break; }
			case 1: case 2: { int m = 1 + (int)c.draw(4), k = (int)c.draw(m); c.note("Where(%%%d!=%d)", m, k); r.q = x.q.Where([=](const T& v) { self->Tick(); return Rd(v) % m != k; }); for (int v : s) if (v % m != k) r.s.push_back(v); r.pure = false; r.evaluated = false; break; }
			case 3: case 4: { vint k = count(); if (c.chance(1, 10)) k = Outside(); c.note("Take(%lld)", (long long)k); r.q = x.q.Take(k); for (vint i = 0; i < k && i < n; i++) r.s.push_back(s[i]); r.evaluated = x.evaluated; break; }
			case 5: case 6: { vint k = count(); if (c.chance(1, 10)) k = Outside(); c.note("Skip(%lld)", (long long)k); r.q = x.q.Skip(k); for (vint i = k < 0 ? 0 : k; i < n; i++) r.s.push_back(s[i]); r.evaluated = x.evaluated; break; }
			case 7: { vint k = (vint)c.draw(4); if (n * k > (vint)limit * 3 / 4) k = 1; if (c.chance(1, 10)) k = -1; if (n && c.chance(1, 12)) { vint t = (vint)c.draw(3 * n + 1); c.note("Repeat(max).Take(%lld)", (long long)t); r.q = x.q.Repeat(MaxInt).Take(t); for (vint i = 0; i < t; i++) r.s.push_back(s[i % n]); r.evaluated = x.evaluated; break; } if (!n && c.chance(1, 3)) k = MaxInt - (vint)c.draw(2); c.note("Repeat(%lld)", (long long)k); r.q = x.q.Repeat(k); for (vint i = 0; n && i < k; i++) r.s.insert(r.s.end(), s.begin(), s.end()); r.evaluated = x.evaluated; break; }
			case 8: c.note("Distinct"); r.q = x.q.Distinct(); r.s = DistinctOf(s); r.evaluated = false; break;
			case 9: c.note("Reverse"); r.q = x.q.Reverse(); r.s = Seq(s.rbegin(), s.rend()); r.evaluated = x.evaluated; r.pure = true; break;
			case 10: case 11: { c.note("Concat("); auto y = Build(depth - 1); c.note(")"); r.q = x.q.Concat(y.q); r.s = s; r.s.insert(r.s.end(), y.s.begin(), y.s.end()); r.pure = x.pure && y.pure; r.evaluated = x.evaluated && y.evaluated; break; }
			case 12: { c.note("Intersect("); auto y = Build(depth - 1); c.note(")"); r.q = x.q.Intersect(y.q); std::set<int> ys(y.s.begin(), y.s.end()); for (int v : DistinctOf(s)) if (ys.count(v)) r.s.push_back(v); r.evaluated = false; break; }
			case 13: { c.note("Except("); auto y = Build(depth - 1); c.note(")"); r.q = x.q.Except(y.q); std::set<int> ys(y.s.begin(), y.s.end()); for (int v : DistinctOf(s)) if (!ys.count(v)) r.s.push_back(v); r.evaluated = false; break; }
			case 14: { c.note("Union("); auto y = Build(depth - 1); c.note(")"); r.q = x.q.Union(y.q); r.s = s; r.s.insert(r.s.end(), y.s.begin(), y.s.end()); r.s = DistinctOf(r.s); r.pure = x.pure && y.pure; r.evaluated = false; break; }
			case 15:
			{
				r.s = s;
				switch (c.draw(3))
				{
				case 0: c.note("OrderBySelf"); r.q = x.q.OrderBySelf(); std::sort(r.s.begin(), r.s.end()); break;
				case 1: c.note("OrderByKey(-x)"); r.q = x.q.OrderByKey([self](const T& v) { self->Tick(); return -Rd(v); }); std::sort(r.s.rbegin(), r.s.rend()); break;
				default: c.note("OrderBy(desc)"); r.q = x.q.OrderBy([self](const T& a, const T& b) { self->Tick(); return Rd(b) <=> Rd(a); }); std::sort(r.s.rbegin(), r.s.rend()); break;
				}
				r.pure = true; r.evaluated = true; break;
			}
			case 16: { bool force = c.boolean(); c.note("Evaluate(%d)", force); r.q = x.q.Evaluate(force); r.s = s; r.pure = true; r.evaluated = true; break; }
			case 17:
			{
				c.note("Pairwise("); auto y = Build(depth - 1); c.note(")"); auto pq = x.q.Pairwise(y.q);
				r.q = pq.Select([self](const Pair<T, T>& p) { self->Tick(); return Mk(Dom((int64_t)Rd(p.key) * 3 + Rd(p.value))); });
				for (size_t i = 0; i < std::min(s.size(), y.s.size()); i++) r.s.push_back(Dom((int64_t)s[i] * 3 + y.s[i]));
				r.pure = false; r.evaluated = false; break;
			}
			case 18:
			{
				if (n > (large ? 400 : 20)) { r = x; c.note("same"); break; }
				c.note("SelectMany");
				r.q = x.q.SelectMany([self](const T& v) { self->Tick(); auto l = Ptr(new List<T>); int k = Rd(v) % 4; for (int i = 0; i < k; i++) l->Add(Mk(Dom(Rd(v) + i))); return LazyList<T>(l); });
				for (int v : s) for (int i = 0; i < v % 4; i++) r.s.push_back(Dom(v + i));
				r.evaluated = true; r.pure = true; break;
			}
			case 19:
			{
				int m = 1 + (int)c.draw(4); c.note("GroupBy(%%%d)", m);
				auto gq = x.q.GroupBy([=](const T& v) { self->Tick(); return Rd(v) % m; });
				// flatten: the key as a marker followed by its members
				auto flat = Ptr(new List<T>);
				for (auto& g : gq) { flat->Add(Mk(100 + g.key)); for (auto& v : g.value) flat->Add(v); }
				r.q = LazyList<T>(flat);
				Seq keys; for (int v : s) if (std::find(keys.begin(), keys.end(), v % m) == keys.end()) keys.push_back(v % m);
				for (int k : keys) { r.s.push_back(100 + k); for (int v : s) if (v % m == k) r.s.push_back(v); }
				r.pure = true; r.evaluated = true; break;
			}
			default: { c.note("copy"); LazyList<T> a(x.q), b; b = a; LazyList<T> d(std::move(a)); r.q = c.boolean() ? b : d; r.s = s; r.evaluated = x.evaluated; break; }
			}
			return r;
		}

		Q<T> Build(int depth)
		{
			auto r = Source();
			size_t ops = depth <= 0 ? 0 : c.draw(depth + 1);
			for (size_t i = 0; i < ops; i++)
			{
				auto w = Wrap(r, depth - 1);
				if (w.s.size() > limit) { auto t = w; t.q = w.q.Take((vint)limit / 4); t.s.resize(limit / 4); t.evaluated = w.evaluated; w = t; }
				r = w;
			}
			return r;
		}
	};

	template<typename T>
	Seq Drain(const IEnumerable<T>& q, size_t limit = 2000)
	{
		Seq r; Ptr<IEnumerator<T>> e(q.CreateEnumerator());
		while (e->Next()) { r.push_back(Elem<T>::Read(e->Current())); if (r.size() > limit) break; }
		return r;
	}
	inline std::string ShowSeq(const Seq& s) { std::string r = "["; for (size_t i = 0; i < s.size() && i < 20; i++) { if (i) r += ","; r += std::to_string(s[i]); } return r + (s.size() > 20 ? ",...]" : "]"); }
}
