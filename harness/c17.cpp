// C17: objects that share storage behind the scenes can be used from different threads
#include "util.h"
#include <atomic>
#include <thread>
#include <pthread.h>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C17,
	"Each case generates one program per thread (2 to 4 threads, up to 16 operations each, repeated up to 60 times after a common start) over strings, Ptr, ComPtr and Func values that were copied from common originals, plus collections that all threads only read, or over values of each thread's own (numbers as text, conversions, date times, containers) whose results must be those of running alone; "
	"it runs under ThreadSanitizer and compares every value, the number of living objects and the heap balance. Non-trivial: at least two threads copied and released values with the same original.");

namespace
{
	std::atomic<int> liveObjects, lastDestroyed;
	std::atomic<int> threadFault;      // 0 = none, otherwise a code
	const char* const faultText[] = { "", "a string changed", "a Ptr points to a wrong or destroyed object", "a Cast gave a wrong object", "a Func returned a wrong value", "a ComPtr points to a wrong or destroyed object", "a collection read by several threads gave a wrong answer", "a conversion gave a wrong text", "an exception was thrown", "a lazy list gave a wrong answer" };
	void Fault(int k) { int z = 0; threadFault.compare_exchange_strong(z, k); }

	class Base : public Object { public: int id; Base(int i) : id(i) { liveObjects++; } Base(const Base&) = delete; ~Base() { id = -1; liveObjects--; } };
	class IMark : public virtual Interface { public: virtual int Mark() = 0; };
	class Derived : public Base, public IMark { public: Derived(int i) : Base(i) {} int Mark() override { return id; } };
	// a COM like object: thread safe count
	class Com
	{
		std::atomic<int> n{ 1 };
	public:
		int id; Com(int i) : id(i) { liveObjects++; }
		~Com() { id = -1; liveObjects--; }
		void Release() { if (n.fetch_sub(1) == 1) delete this; }
	};

	struct Barrier
	{
		std::atomic<int> waiting{ 0 }; int total;
		Barrier(int t) : total(t) {}
		void Wait() { waiting.fetch_add(1); int spins = 0; while (waiting.load() < total) if (++spins > 200) std::this_thread::yield(); }
	};

	struct Op { uint8_t kind, a, b; };
	const int K = 3;      // originals of each kind
	const int N = 3;      // private slots of each kind
}

PBT_TEST(C17, refcounts, 640, pbt::F_SCHEDULE)
{
	liveObjects = 0; threadFault = 0;
	int threads = (int)c.range(2, 4), repeat = 1 + (int)c.size(60);
	bool handOff = c.boolean();       // the originals are released by the threads, not by the main thread at the end
	std::vector<std::vector<Op>> prog(threads);
	int sharing = 0;
	for (auto& p : prog)
	{
		size_t n = 1 + c.size(15); bool copies = false;
		for (size_t i = 0; i < n; i++) { Op o{ (uint8_t)c.draw(18), (uint8_t)c.draw(K), (uint8_t)c.draw(N) }; if (o.kind < 10) copies = true; p.push_back(o); }
		if (copies) sharing++;
	}
	std::wstring text[K];
	for (auto& t : text) { t = GenStr<wchar_t>(c, 20); if (t.empty()) t = L"x"; }
	{
		struct Originals { WString s[K]; AString a[K]; Ptr<Base> p[K]; Ptr<Derived> d[K]; Func<int(int)> f[K]; ComPtr<Com> com[K]; };
		Originals o; List<int> list; SortedList<WString> sorted; Dictionary<int, WString> dict;
		for (int k = 0; k < K; k++)
		{
			o.s[k] = WString::CopyFrom(text[k].c_str(), (vint)text[k].size());
			o.a[k] = itoa(k * 1000 + 7);
			o.p[k] = Ptr<Base>(new Base(k)); o.d[k] = Ptr<Derived>(new Derived(100 + k));
			Ptr<Base> captured = o.p[k];
			o.f[k] = [captured](int x) { return captured->id + x; };
			o.com[k] = ComPtr<Com>(new Com(200 + k));
			list.Add(k); sorted.Add(o.s[k]); dict.Add(k, o.s[k]);
		}
		auto lazy = From(list).Select([](int x) { return x * 2; });
		// every thread gets its own copy of every original
		std::vector<Originals> mine(threads, o);
		if (handOff) o = Originals();
		Barrier barrier(threads);
		auto body = [&](int t)
		{
			try
			{
				Originals& my = mine[t];
				{
					WString s[N]; AString a[N]; Ptr<Base> p[N]; Ptr<Derived> d[N]; Ptr<IMark> m[N]; Func<int(int)> f[N]; ComPtr<Com> com[N];
					int ms[N] = { -1,-1,-1 }, mp[N] = { -1,-1,-1 }, mm[N] = { -1,-1,-1 }, mf[N] = { -1,-1,-1 }, mc[N] = { -1,-1,-1 };
					barrier.Wait();
					for (int r = 0; r < repeat; r++)
						for (auto& op : prog[t])
						{
							int k = op.a, i = op.b;
							switch (op.kind)
							{
							case 0: s[i] = my.s[k]; ms[i] = k; break;
							case 1: { WString x = my.s[k].Left(my.s[k].Length()); WString y = x.Right(x.Length() / 2); if (y.Length() != (vint)text[k].size() / 2) Fault(1); s[i] = x; ms[i] = k; break; }
							case 2: { WString x = my.s[k]; if (x != my.s[k]) Fault(1); break; }
							case 3: { AString x = my.a[k], y = x + x; if (y.Length() != 2 * x.Length()) Fault(1); a[i] = x; break; }
							case 4: p[i] = my.p[k]; mp[i] = k; break;
							case 5: p[i] = my.d[k]; mp[i] = 100 + k; break;
							case 6: { Ptr<Base> x = my.d[k]; m[i] = x.Cast<IMark>(); mm[i] = 100 + k; if (!m[i] || m[i]->Mark() != 100 + k) Fault(3); break; }
							case 7: f[i] = my.f[k]; mf[i] = k; break;
							case 8: com[i] = my.com[k]; mc[i] = 200 + k; break;
							case 9: { Ptr<Base> x = my.p[k]; Ptr<Base> y = std::move(x); if (x || y->id != k) Fault(2); break; }
							case 10: s[i] = WString(); ms[i] = -1; p[i] = nullptr; mp[i] = -1; break;
							case 11: m[i] = nullptr; mm[i] = -1; f[i] = {}; mf[i] = -1; com[i] = nullptr; mc[i] = -1; break;
							case 12: if (ms[i] >= 0) { auto b = s[i].Buffer(); for (size_t z = 0; z <= text[ms[i]].size(); z++) if (b[z] != text[ms[i]].c_str()[z]) Fault(1); } break;
							case 13: if (mp[i] >= 0 && p[i]->id != mp[i]) Fault(2); if (mm[i] >= 0 && m[i]->Mark() != mm[i]) Fault(3); break;
							case 14: if (mf[i] >= 0 && f[i](5) != mf[i] + 5) Fault(4); if (mc[i] >= 0 && com[i]->id != mc[i]) Fault(5); break;
							case 15: if (!list.Contains(k) || list.IndexOf(k) != k || !dict.Keys().Contains(k) || dict[k] != my.s[k] || !sorted.Contains(my.s[k]) || dict.Count() != K) Fault(6); break;
							case 16: { if (atow(my.a[k]) != itow(k * 1000 + 7) || u8tow(wtou8(L"\x4E2D\x6587")) != L"\x4E2D\x6587") Fault(7); break; }
							default: { int sum = 0; for (auto x : lazy) sum += x; if (sum != 6) Fault(9); auto copy = lazy; if (copy.Count() != 3) Fault(9); WString q; for (auto&& [key, v] : dict) q = v; }
							}
						}
				}
				if (handOff) my = Originals();
			}
			catch (...) { Fault(8); }
		};
		std::vector<std::thread> ts;
		for (int t = 0; t < threads; t++) ts.emplace_back(body, t);
		for (auto& t : ts) t.join();
		if (threadFault) c.fail("%s while %d threads used values with common originals", faultText[threadFault], threads);
		c.note("%d threads, %d repetitions, %s, %d programs copy", threads, repeat, handOff ? "originals released by the threads" : "originals kept", sharing);
		if (handOff)
		{
			// the functions still own their captured objects through o only if not handed off
			mine.clear();
		}
	}
	PBT_CHECK(liveObjects == 0, "%d objects alive after every owner is gone", liveObjects.load());
	c.label(handOff ? "handOff" : "kept");
	if (sharing >= 2) c.nontrivial();
}

// the last owners race for the release of one object: exactly one destruction, no survivor
PBT_TEST(C17, last_release, 640, pbt::F_SCHEDULE)
{
	liveObjects = 0; threadFault = 0;
	int threads = (int)c.range(2, 4), rounds = 1 + (int)c.size(60), kind = (int)c.draw(5), extra = (int)c.draw(3);
	std::vector<int> own(threads);
	{
		std::vector<Barrier*> bars; for (int r = 0; r < rounds; r++) bars.push_back(new Barrier(threads));
		std::vector<std::vector<WString>> ss(threads); std::vector<std::vector<Ptr<Base>>> ps(threads); std::vector<std::vector<Ptr<IMark>>> ms(threads); std::vector<std::vector<Func<int()>>> fs(threads); std::vector<std::vector<ComPtr<Com>>> cs(threads);
		for (int r = 0; r < rounds; r++)
		{
			WString s = L"prefix" + itow(r); Ptr<Derived> p(new Derived(r)); ComPtr<Com> com(new Com(r)); Ptr<Derived> q = p;
			for (int t = 0; t < threads; t++)
			{
				ss[t].push_back(t % 2 ? s.Right(s.Length() - 6) : s); ps[t].push_back(p); ms[t].push_back(p); cs[t].push_back(com); fs[t].push_back(Func<int()>([q] { return q->id; }));
			}
		}
		auto body = [&](int t)
		{
			try
			{
				for (int r = 0; r < rounds; r++)
				{
					bars[r]->Wait();
					for (int e = 0; e < extra; e++) { auto s = ss[t][r]; auto p = ps[t][r]; auto f = fs[t][r]; if (f() != r || p->id != r) Fault(2); }
					switch (kind)
					{
					case 0: { auto x = ss[t][r]; ss[t][r] = WString(); if (x != (t % 2 ? itow(r) : L"prefix" + itow(r))) Fault(1); break; }
					case 1: ps[t][r] = nullptr; ms[t][r] = nullptr; fs[t][r] = {}; break;
					case 2: { auto f = std::move(fs[t][r]); if (f() != r) Fault(4); break; }
					case 3: cs[t][r] = nullptr; break;
					default: { Ptr<IMark> m = std::move(ms[t][r]); if (m->Mark() != r) Fault(3); m = nullptr; ps[t][r] = {}; ss[t][r] = L"other"; }
					}
				}
				ss[t].clear(); ps[t].clear(); ms[t].clear(); fs[t].clear(); cs[t].clear();
			}
			catch (...) { Fault(8); }
		};
		std::vector<std::thread> th;
		for (int t = 0; t < threads; t++) th.emplace_back(body, t);
		for (auto& t : th) t.join();
		for (auto b : bars) delete b;
		if (threadFault) c.fail("%s while %d threads released the last owners", faultText[threadFault], threads);
		PBT_CHECK(liveObjects == 0, "%d objects alive after all threads released them", liveObjects.load());
	}
	c.note("%d threads, %d rounds, kind %d, %d extra copies per round", threads, rounds, kind, extra);
	c.nontrivial();
}

// every thread works on values of its own: whatever the library does must not be visible to the others
namespace
{
	// a program over private values; the same program gives the same digest, alone or among others
	uint64_t Work(const std::vector<Op>& prog, uint64_t seed, int repeat)
	{
		uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
		auto mixText = [&](const auto& t) { mix((uint64_t)t.Length()); for (vint i = 0; i < t.Length(); i++) mix((uint64_t)t[i]); };
		uint64_t state = seed; auto rnd = [&](int bound) { state = state * 6364136223846793005ull + 1442695040888963407ull; return (int)((state >> 33) % (uint64_t)bound); };
		WString s = L"abc"; List<int> l; SortedList<WString> so; Dictionary<int, WString> d; Group<int, int> g; Event<void(int)> ev; Nullable<WString> nul; Variant<int, WString, Ptr<int>> var(1); Ptr<List<int>> sh = Ptr(new List<int>);
		int handled = 0; auto handler = ev.Add(Func<void(int)>([&](int x) { handled += x; }));
		for (int r = 0; r < repeat; r++)
			for (auto& op : prog)
			{
				int a = rnd(1000) + op.a, b = rnd(100) + op.b;
				switch (op.kind)
				{
				case 0: { WString t = itow(a - 500) + L"," + i64tow((vint64_t)a << 40) + L"," + u64tow((vuint64_t)b << 50); mixText(t); bool ok = false; mix((uint64_t)wtoi_test(itow(a - 500), ok)); mix(ok); mix((uint64_t)wtoi64(i64tow(-a))); break; }
				case 1: { double x = a / 7.0 - b; mixText(ftow(x)); mixText(ftoa(x)); bool ok = false; mix((uint64_t)(int64_t)(wtof_test(ftow(x), ok) * 1000)); mix(ok); break; }
				case 2: { WString t = wupper(s) + wlower(s); mixText(t); mixText(alower(aupper(itoa(a)))); break; }
				case 3: { WString t = s + itow(a); if (t.Length() > 40) t = t.Right(20); s = t.Insert(t.Length() / 2, L"\x4E2D\xE9"); mixText(s); mix((uint64_t)s.IndexOf(L'1')); break; }
				case 4: { U8String u8 = wtou8(s); U16String u16 = wtou16(s); U32String u32 = wtou32(s); mixText(u8); mixText(u16); mixText(u32); mixText(u16tow(u8tou16(u8))); mixText(u32tow(u16tou32(u16))); break; }
				case 5: { l.Insert((vint)rnd((int)l.Count() + 1), a); if (l.Count() > 30) l.RemoveRange(5, 20); for (int x : l) mix((uint64_t)x); break; }
				case 6: { so.Add(itow(a % 37)); if (so.Count() > 20) so.RemoveRange(3, 12); mix((uint64_t)so.IndexOf(itow(b % 37))); for (auto& x : so) mixText(x); break; }
				case 7: { d.Set(a % 13, itow(b)); d.Remove(b % 13); for (auto [k, v] : d) { mix((uint64_t)k); mixText(v); } break; }
				case 8: { g.Add(a % 5, b); if (g.Contains(b % 5)) { g.Remove(b % 5); } for (auto [k, v] : g) mix((uint64_t)(k * 1000 + v)); break; }
				case 9: { for (auto x : From(l).Where([=](int x) { return x % 3 != b % 3; }).Select([=](int x) { return x * 2 + a; }).Distinct().Reverse().Take(9)) mix((uint64_t)x); mix((uint64_t)From(l).OrderBySelf().First(-1)); break; }
				case 10: { Array<int> t(l.Count()); CopyFrom(t, l); if (t.Count()) Sort(&t[0], t.Count()); for (int x : t) mix((uint64_t)x); break; }
				case 11: { ev(a); mix((uint64_t)handled); if (b % 4 == 0) { ev.Remove(handler); handler = ev.Add(Func<void(int)>([&](int x) { handled += x; })); } break; }
				case 12: { nul = s; if (b % 3 == 0) nul.Reset(); if (nul) mixText(nul.Value()); var = s; if (b % 2) var = a; mix((uint64_t)var.Index()); var.Apply(Overloading([&](int x) { mix((uint64_t)x); }, [&](const WString& x) { mixText(x); }, [&](const Ptr<int>&) {})); break; }
				case 13: { Func<int(int)> f([=](int x) { return x + a; }), q = f; mix((uint64_t)q(b)); break; }
				case 14: { bool failed = false; try { if (b % 2) l.RemoveAt(1000 + a); else d.Get(5000 + a); } catch (const Error& e) { failed = true; mix((uint64_t)(e.Description() != nullptr)); } mix(failed); break; }
				case 15: { Group<int, int> dep; List<int> items; for (int i = 0; i < 6; i++) { items.Add(i); if (i) dep.Add(i, rnd(6)); } PartialOrderingProcessor pop; pop.InitWithGroup(items, dep); pop.Sort(); for (vint i = 0; i < pop.nodes.Count(); i++) mix((uint64_t)pop.nodes[i].component); break; }
				case 16: { auto dt = DateTime::FromDateTime(1975 + a % 100, 1 + b % 12, 1 + a % 28, a % 24, b % 60, a % 60, a % 1000); auto m = dt.Forward((vuint64_t)a * 86400000ull); auto u = m.ToUtcTime(); mix((uint64_t)m.year * 10000 + (uint64_t)m.month * 100 + (uint64_t)m.day); mix((uint64_t)m.dayOfWeek); mix(u.osInternal); mix(u.ToLocalTime() == m); mix(DateTime::FromOSInternal(m.osInternal) == m); break; }
				case 17: { WString f = WString::FromChar((wchar_t)(L'a' + a % 26)), g1 = f, e = WString::Empty, un = WString::Unmanaged(L"text"), cp = WString::CopyFrom(un.Buffer(), un.Length() - a % 4); AString n = AString::FromChar((char)('0' + a % 10)); U8String w8 = wtou8(f + cp); U16String u = U16String::FromChar((char16_t)(u'a' + b % 26)); mixText(f + g1 + e); mixText(un + cp); mixText(n + n + itoa(b)); mixText(w8); mixText(u + u); mixText(cp.Sub(0, cp.Length() / 2)); mixText(un.Insert(a % 5, f)); mixText(un.Remove(0, a % 5)); if (b % 3 == 0) { f = e; e = un; } mixText(f + e); break; }
				default: { sh->Add(a); auto copy = sh; LazyList<int> lazy(sh); mix((uint64_t)lazy.Count()); if (sh->Count() > 20) sh = Ptr(new List<int>); break; }
				}
			}
		return h;
	}
}
PBT_TEST(C17, own_values, 320, pbt::F_SCHEDULE)
{
	int threads = (int)c.range(2, 4), repeat = 1 + (int)c.size(30); threadFault = 0; std::vector<std::vector<Op>> prog(threads); std::vector<uint64_t> seed(threads), alone(threads), among(threads, 0);
	std::vector<Op> common; for (size_t n = 1 + c.size(6); n > 0; n--) common.push_back(Op{ (uint8_t)c.draw(19), (uint8_t)c.draw(9), (uint8_t)c.draw(9) });
	for (int t = 0; t < threads; t++)
	{
		prog[t] = common; for (size_t n = c.size(6); n > 0; n--) prog[t].push_back(Op{ (uint8_t)c.draw(19), (uint8_t)c.draw(9), (uint8_t)c.draw(9) });
		seed[t] = c.draw(100000); alone[t] = Work(prog[t], seed[t], repeat);
	}
	Barrier barrier(threads); std::vector<std::thread> ts;
	for (int t = 0; t < threads; t++) ts.emplace_back([&, t] { try { barrier.Wait(); among[t] = Work(prog[t], seed[t], repeat); } catch (...) { Fault(8); } });
	for (auto& t : ts) t.join();
	if (threadFault) c.fail("%s in a thread that uses only values of its own", faultText[threadFault]);
	for (int t = 0; t < threads; t++) PBT_CHECK(among[t] == alone[t], "the results of thread %d differ from those of the same program running alone", t);
	c.note("%d threads, %zu common operations, %d repetitions", threads, common.size(), repeat); c.nontrivial();
}
