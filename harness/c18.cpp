// C18: Func and Event
#include "tracked.h"
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C18,
	"Each case builds Func values from functions, member functions, lambdas with captured state, functors, function pointers and other Func types, copies, moves, converts, compares, stores and calls them; or attaches and detaches handlers on several events of three signatures, "
	"raises them with generated lvalue and rvalue arguments and compares the calls with a model. Non-trivial: at least two Func values sharing one callable were called, or an event with at least two handlers was raised after a handler was detached.");

namespace
{
	int StaticAdd(int a, int b) { return a * 3 + b; }
	int StaticSub(int a, int b) { return a - b * 5; }
	struct Obj { int base; int Method(int a, int b) { base++; return base * 100 + a - b; } };
	struct Functor { Tr t; int operator()(int a, int b) const { return t.Value() + a * b; } };
	struct MutableFunctor { int calls = 0; Tr t; MutableFunctor(int v) : t(v) {} int operator()(int a, int b) { calls++; return calls * 10 + t.Value() + a + b; } };
	struct F // model of one callable
	{
		int kind = -1; int arg = 0; int calls = 0; int objIndex = -1; int wraps = -1; // wraps: index of the callable behind a converting Func
	};
}

PBT_TEST(C18, func, 40000, pbt::F_NONE)
{
	Tr::Reset();
	Obj objs[2] = { { 0 }, { 1000 } }; int mbase[2] = { 0, 1000 };
	bool sharedCall = false;
	{
		const int N = 5;
		Func<int(int, int)> f[N]; int mf[N]; for (int& x : mf) x = -1;
		Func<long(short, int)> g[2]; int mg[2] = { -1, -1 };   // built from f by conversion
		Func<void(int, int)> h[2]; int mh[2] = { -1, -1 };
		List<Func<int(int, int)>> stored; std::vector<int> mstored;
		std::vector<F> model;
		std::function<int(int, int, int)> call = [&](int k, int a, int b) -> int {
			F& m = model[k]; m.calls++;
			switch (m.kind) {
			case 0: return StaticAdd(a, b); case 1: return StaticSub(a, b);
			case 2: mbase[m.objIndex]++; return mbase[m.objIndex] * 100 + a - b;
			case 3: return m.arg + a + b; case 4: return m.arg + a * b;
			case 5: return m.calls * 10 + m.arg + a + b;
			case 6: return m.calls * 1000 + m.arg + a - b;
			default: return call(m.wraps, a, b);
			}
		};
		auto owners = [&](int k) { int n = 0; for (int x : mf) n += x == k; for (int x : mg) n += x == k; for (int x : mh) n += x == k; for (int x : mstored) n += x == k; return n; };
		// number of tracked elements owned by reachable callables
		auto expectedLive = [&] {
			std::vector<int> todo; std::vector<bool> seen(model.size());
			for (int x : mf) todo.push_back(x); for (int x : mg) todo.push_back(x); for (int x : mh) todo.push_back(x); for (int x : mstored) todo.push_back(x);
			long n = 0;
			while (todo.size()) { int k = todo.back(); todo.pop_back(); if (k < 0 || seen[k]) continue; seen[k] = true; if (model[k].kind >= 3 && model[k].kind <= 6) n++; if (model[k].kind == 7) todo.push_back(model[k].wraps); }
			return n;
		};
		auto fresh = [&](int kind, int arg) { F m; m.kind = kind; m.arg = arg; model.push_back(m); return (int)model.size() - 1; };
		size_t steps = 2 + c.size(40);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(N), j = (int)c.draw(N), q = (int)c.draw(2); int a = (int)c.range(-9, 9), b = (int)c.range(-9, 9), v = (int)c.draw(50); const char* op = "";
			switch (c.draw(16))
			{
			case 0: op = "from function"; if (c.boolean()) { f[i] = Func<int(int, int)>(&StaticAdd); mf[i] = fresh(0, 0); } else { f[i] = Func(&StaticSub); mf[i] = fresh(1, 0); } break;
			case 1: op = "from member"; f[i] = Func<int(int, int)>(&objs[q], &Obj::Method); mf[i] = fresh(2, 0); model.back().objIndex = q; break;
			case 2: { op = "from lambda"; Tr t(v); if (c.boolean()) f[i] = [t](int x, int y) { return t.Value() + x + y; }; else { auto l = [t](int x, int y) { return t.Value() + x + y; }; f[i] = Func<int(int, int)>(l); } mf[i] = fresh(3, v); break; }
			case 3: { op = "from functor"; Functor fn{ Tr(v) }; if (c.boolean()) f[i] = Func<int(int, int)>(fn); else f[i] = Func<int(int, int)>(std::move(fn)); mf[i] = fresh(4, v); break; }
			case 4: op = "from stateful functor"; f[i] = Func<int(int, int)>(MutableFunctor(v)); mf[i] = fresh(5, v); break;
			case 5: { op = "from mutable lambda"; Tr t(v); f[i] = Func<int(int, int)>([t, n = 0](int x, int y) mutable { n++; return n * 1000 + t.Value() + x - y; }); mf[i] = fresh(6, v); break; }
			case 6: op = "copy"; switch (c.draw(3)) { case 0: f[i] = f[j]; break; case 1: { Func<int(int, int)> t(f[j]); f[i] = t; break; } default: { const auto& t = f[j]; f[i] = t; } } mf[i] = mf[j]; break;
			case 7: op = "move"; { Func<int(int, int)> t(std::move(f[j])); int k = mf[j]; mf[j] = -1; f[j] = {}; f[i] = std::move(t); mf[i] = k; } break;
			case 8: op = "empty"; f[i] = Func<int(int, int)>(); mf[i] = -1; break;
			case 9: op = "convert"; { g[q] = Func<long(short, int)>(f[i]); if (mf[i] < 0) mg[q] = -1; else { mg[q] = fresh(7, 0); model.back().wraps = mf[i]; } } break;
			case 10: op = "convert to void"; { const auto& src = f[i]; h[q] = Func<void(int, int)>(src); if (mf[i] < 0) mh[q] = -1; else { mh[q] = fresh(7, 0); model.back().wraps = mf[i]; } } break;
			case 11: op = "store"; if (c.boolean() && stored.Count() < 6) { stored.Add(f[i]); mstored.push_back(mf[i]); } else if (stored.Count()) { vint k = (vint)c.draw(stored.Count()); if (c.boolean()) { f[j] = stored[k]; mf[j] = mstored[k]; } else { stored.RemoveAt(k); mstored.erase(mstored.begin() + k); } } break;
			case 12: op = "call converted"; if (mg[q] >= 0) { long e = call(mg[q], a, b); long r = g[q]((short)a, b); PBT_CHECK(r == e, "converted Func returned %ld instead of %ld", r, e); } else PBT_CHECK(!g[q], "a Func converted from an empty one is not empty"); break;
			case 13: op = "call void"; if (mh[q] >= 0) { call(mh[q], a, b); h[q](a, b); } else PBT_CHECK(!h[q], "a Func converted from an empty one is not empty"); break;
			case 14:
				op = "compare";
				PBT_CHECK((f[i] == f[j]) == (mf[i] == mf[j]) && (f[i] != f[j]) == (mf[i] != mf[j]), "equality of Func %d and %d", mf[i], mf[j]);
				break;
			default: op = "call"; if (mf[i] >= 0) { if (owners(mf[i]) > 1) sharedCall = true; int e = call(mf[i], a, b); const auto& cf = f[i]; int r = c.boolean() ? f[i](a, b) : cf(a, b); PBT_CHECK(r == e, "Func of kind %d returned %d instead of %d", model[mf[i]].kind, r, e); } break;
			}
			CheckFault(c, op);
			c.note("%s (%ld tracked)", op, Tr::live);
			for (int k = 0; k < N; k++) PBT_CHECK((bool)f[k] == (mf[k] >= 0), "after %s: Func %d is%s empty", op, k, f[k] ? " not" : "");
			PBT_CHECK(objs[0].base == mbase[0] && objs[1].base == mbase[1], "after %s: the objects behind member functions were called %d/%d times instead of %d/%d", op, objs[0].base, objs[1].base - 1000, mbase[0], mbase[1] - 1000);
			PBT_CHECK(Tr::live == expectedLive(), "after %s: %ld captured values are alive instead of %ld", op, Tr::live, expectedLive());
		}
	}
	CheckFault(c, "destruction");
	PBT_CHECK(Tr::live == 0, "%ld captured values are alive after all Func are gone", Tr::live);
	if (sharedCall) c.nontrivial();
}

// arguments and results pass through unchanged, references stay references, nothing is copied more often than by value semantics
PBT_TEST(C18, arguments, 20000, pbt::F_NONE)
{
	Tr::Reset();
	{
		int v = (int)c.range(-1000, 1000); Tr x(v); bool viaConversion = c.boolean();
		switch (c.draw(7))
		{
		case 0: { Func<int(const Tr&)> f([&](const Tr& t) { return &t == &x ? t.Value() : -12345; }); if (viaConversion) f = Func<int(const Tr&)>(Func<long(const Tr&)>(f)); PBT_CHECK(f(x) == v, "a const reference argument was copied"); PBT_CHECK(Tr::copies == 0, "a reference argument was copied"); break; }
		case 1: { Func<void(Tr&)> f([](Tr& t) { t = Tr(t.Value() + 1); }); if (viaConversion) f = Func<void(Tr&)>(Func<void(Tr&)>(f)); f(x); PBT_CHECK(x.Value() == v + 1, "a reference argument does not reach the callee"); break; }
		case 2: { Func<Tr(Tr)> f([](Tr t) { return Tr(t.Value() * 2); }); Tr r = f(x); PBT_CHECK(r.Value() == v * 2 && x.Value() == v, "a value argument was changed"); PBT_CHECK(Tr::copies <= 1, "a value argument was copied %ld times", Tr::copies); break; }
		case 3: { Func<Tr(Tr&&)> f([](Tr&& t) { Tr u(std::move(t)); return u; }); Tr r = f(std::move(x)); PBT_CHECK(r.Value() == v, "a moved argument lost its value"); PBT_CHECK(Tr::copies == 0, "a moved argument was copied"); break; }
		case 4: { Func<Tr&(Tr&)> f([](Tr& t) -> Tr& { return t; }); PBT_CHECK(&f(x) == &x, "a reference result was copied"); break; }
		case 5: { Func<Ptr<Tr>(Ptr<Tr>)> f([](Ptr<Tr> p) { return p; }); auto p = Ptr(new Tr(v)); auto r = f(p); PBT_CHECK(r == p && p->Value() == v, "a shared pointer argument was lost"); break; }
		default: { List<Func<WString(WString, int)>> fs; fs.Add(Func([](WString s, int n) { return s + itow(n); })); WString s = itow(v); PBT_CHECK(fs[0](s, 7) == itow(v) + L"7" && s == itow(v), "string argument"); }
		}
		CheckFault(c, "call");
		c.note("value %d", v); if (v) c.nontrivial();
	}
	PBT_CHECK(Tr::live == 0, "%ld values leaked", Tr::live);
}

namespace
{
	struct Sink { std::vector<std::pair<int, int>> calls; void On(int v) { calls.push_back({ -1, v }); } };
	int staticCalls = 0, staticSum = 0;
	void StaticHandler(int v) { staticCalls++; staticSum += v; }
}
PBT_TEST(C18, event, 30000, pbt::F_NONE)
{
	Tr::Reset(); staticCalls = staticSum = 0; bool good = false;
	{
		Event<void(int)> ev[2]; Event<void(const Tr&)> evt; Event<void(Tr, WString)> evm; Sink sink; std::vector<int> commonCalls; Func<void(int)> common([&](int v) { commonCalls.push_back(v); });
		struct H { Ptr<EventHandler> handle; int event; int id; bool attached; int kind; };
		std::vector<H> hs; std::map<int, std::vector<std::string>> log; bool detachedSome = false; int nextId = 0;
		size_t steps = 2 + c.size(40);
		for (size_t s = 0; s < steps; s++)
		{
			int e = (int)c.draw(4); const char* op = "";
			switch (c.draw(8))
			{
			case 0: case 1: case 2:
			{
				op = "Add"; if (hs.size() > 15) break; int id = nextId++; H h; h.event = e; h.id = id; h.attached = true; h.kind = 0; Tr cap(id);
				auto* lg = &log;
				if (e < 2)
				{
					h.kind = (int)c.draw(5); if (h.kind == 3) h.kind = 0;
					if (h.kind == 4) h.handle = ev[e].Add(common); // the same Func again and again
					else if (h.kind == 0) h.handle = ev[e].Add(Func<void(int)>([lg, cap](int v) { (*lg)[cap.Value()].push_back(std::to_string(v)); }));
					else if (h.kind == 1) h.handle = ev[e].Add(&StaticHandler);
					else h.handle = ev[e].Add(&sink, &Sink::On);
				}
				else if (e == 2) h.handle = evt.Add(Func<void(const Tr&)>([lg, cap](const Tr& t) { (*lg)[cap.Value()].push_back(std::to_string(t.Value())); }));
				else h.handle = evm.Add([lg, cap](Tr t, WString w) { Tr mine(std::move(t)); WString u(std::move(w)); (*lg)[cap.Value()].push_back(std::to_string(mine.Value()) + "/" + std::to_string(wtoi(u))); });
				PBT_CHECK(h.handle && h.handle->IsAttached(), "a new handler is not attached");
				hs.push_back(h); break;
			}
			case 3: case 4:
			{
				op = "Remove"; if (hs.empty()) { PBT_CHECK(!ev[0].Remove(nullptr), "Remove(nullptr)"); break; }
				H& h = hs[c.draw(hs.size())]; bool r = e == 0 || e == 1 ? ev[e].Remove(h.handle) : e == 2 ? evt.Remove(h.handle) : evm.Remove(h.handle);
				bool expect = h.attached && h.event == e;
				PBT_CHECK(r == expect, "Remove of handler %d (attached to event %d: %d) from event %d returned %d", h.id, h.event, (int)h.attached, e, (int)r);
				if (r) { h.attached = false; detachedSome = true; }
				break;
			}
			case 5: { op = "drop handle"; if (hs.size() && c.chance(1, 3)) { size_t k = c.draw(hs.size()); if (!hs[k].attached) hs.erase(hs.begin() + k); } break; }
			default:
			{
				op = "raise"; log.clear(); sink.calls.clear(); commonCalls.clear(); staticCalls = staticSum = 0; int v = (int)c.range(-99, 99); std::string expect = std::to_string(v);
				int lvalue = (int)c.draw(3); Tr t(v); WString w = itow(v + 1);
				if (e < 2) { if (lvalue) ev[e](v); else ev[e](v + 0); }
				else if (e == 2) { if (lvalue) evt(t); else evt(Tr(v)); }
				else { expect += "/" + std::to_string(v + 1); if (lvalue == 1) evm(t, w); else if (lvalue == 2) evm(t, itow(v + 1)); else evm(std::move(t), std::move(w)); if (lvalue == 1) PBT_CHECK(t.Value() == v && wtoi(w) == v + 1, "raising an event changed the argument"); }
				int statics = 0, sinks = 0, commons = 0, n = 0;
				for (auto& h : hs)
				{
					bool on = h.attached && h.event == e; n += on;
					if (h.kind == 1) { statics += on; continue; }
					if (h.kind == 2) { sinks += on; continue; }
					if (h.kind == 4) { commons += on; continue; }
					auto it = log.find(h.id); size_t calls = it == log.end() ? 0 : it->second.size();
					PBT_CHECK(calls == (on ? 1u : 0u), "handler %d of event %d was called %zu times when event %d was raised, attached: %d", h.id, h.event, calls, e, (int)h.attached);
					if (on) PBT_CHECK(it->second[0] == expect, "handler %d received %s instead of %s", h.id, it->second[0].c_str(), expect.c_str());
					if (it != log.end()) log.erase(it);
				}
				PBT_CHECK(log.empty(), "a handler that was dropped was called");
				PBT_CHECK(staticCalls == statics && staticSum == statics * (e < 2 ? v : 0), "a function was called %d times instead of %d, sum %d", staticCalls, statics, staticSum);
				PBT_CHECK((int)sink.calls.size() == sinks, "a member function was called %zu times instead of %d", sink.calls.size(), sinks);
				PBT_CHECK(commonCalls == std::vector<int>(commons, v), "a Func that is attached %d times was called %zu times or with other arguments", commons, commonCalls.size());
				for (auto& p : sink.calls) PBT_CHECK(p.second == v, "a member function received %d instead of %d", p.second, v);
				if (n >= 2 && detachedSome) good = true;
			}
			}
			CheckFault(c, op);
			for (auto& h : hs) PBT_CHECK(h.handle->IsAttached() == h.attached, "handler %d reports attached=%d after %s", h.id, (int)h.handle->IsAttached(), op);
			c.note("%s on event %d, %zu handlers", op, e, hs.size());
		}
	}
	CheckFault(c, "destruction");
	PBT_CHECK(Tr::live == 0, "%ld captured values are alive after everything is gone", Tr::live);
	if (good) c.nontrivial();
}

// handlers that attach, detach and raise while they are being called
PBT_TEST(C18, event_reentrant, 12000, pbt::F_NONE)
{
	Tr::Reset(); bool good = false;
	{
		struct Act { int what; size_t target; };
		struct H { Ptr<EventHandler> handle; bool attached = true; bool dropped = false; std::vector<Act> script; bool once = false; };
		struct Frame { std::map<size_t, int> calls; std::vector<bool> before; };
		struct World { Event<void(int)> ev; std::vector<H> hs; std::vector<Frame> frames; std::string error; int value = 0; int changed = 0; Ctx* c; } w; w.c = &c;
		std::function<void(std::vector<Act>, bool)> add; std::function<void(int)> raise; std::function<void(size_t)> detach;
		auto fail = [&](const std::string& s) { if (w.error.empty()) w.error = s; };
		detach = [&](size_t k)
		{
			if (w.hs[k].dropped) return; bool r = w.ev.Remove(w.hs[k].handle);
			if (r != w.hs[k].attached) fail("Remove of handler " + std::to_string(k) + " returned " + std::to_string(r));
			if (r && w.frames.size()) w.changed++;
			w.hs[k].attached = false; if (w.hs[k].handle->IsAttached()) fail("a detached handler reports that it is attached");
		};
		add = [&](std::vector<Act> script, bool once)
		{
			size_t id = w.hs.size(); H h; h.script = script; h.once = once; w.hs.push_back(h); Tr cap((int)id); auto pw = &w; auto pdetach = &detach; auto padd = &add; auto praise = &raise; auto pfail = &fail;
			w.hs[id].handle = w.ev.Add(Func<void(int)>([=](int v)
			{
				size_t me = (size_t)cap.Value();
				if (v != pw->value) (*pfail)("a handler received " + std::to_string(v));
				if (pw->frames.empty()) { (*pfail)("a handler was called without a raise"); return; }
				pw->frames.back().calls[me]++;
				if (!pw->hs[me].attached) (*pfail)("handler " + std::to_string(me) + " was called after it was detached");
				auto acts = pw->hs[me].script; // by value, handlers could be added below
				for (auto& a : acts)
				{
					size_t t = a.target % pw->hs.size();
					switch (a.what)
					{
					case 0: (*pdetach)(me); break;
					case 1: (*pdetach)(t); break;
					case 2: if (pw->hs.size() < 20) { (*padd)({}, false); pw->changed++; } break;
					case 3: if (pw->frames.size() < 3) (*praise)(v + 1); pw->value = v; break;
					case 4: (*pdetach)(me); pw->hs[me].handle = nullptr; pw->hs[me].dropped = true; break;
					default: (*pdetach)(t); pw->hs[t].handle = nullptr; pw->hs[t].dropped = true; break;
					}
				}
				if ((size_t)cap.Value() != me) (*pfail)("a captured value changed while a handler was running");
			}));
		};
		raise = [&](int v)
		{
			Frame f; for (auto& h : w.hs) f.before.push_back(h.attached);
			w.frames.push_back(f); w.value = v; w.ev(v); w.value = v; f = w.frames.back(); w.frames.pop_back();
			for (size_t k = 0; k < w.hs.size(); k++)
			{
				int n = f.calls.count(k) ? f.calls[k] : 0; bool before = k < f.before.size() && f.before[k];
				if (before && w.hs[k].attached && n != 1) fail("handler " + std::to_string(k) + " was attached all the time and was called " + std::to_string(n) + " times");
				if (n > 1) fail("handler " + std::to_string(k) + " was called " + std::to_string(n) + " times");
				if (k < f.before.size() && !before && n) fail("handler " + std::to_string(k) + " was called though it was detached before");
			}
		};
		size_t n = c.chance(1, 40) ? 20 + c.size(100) : 1 + c.size(8);
		for (size_t i = 0; i < n; i++)
		{
			std::vector<Act> script; size_t k = c.chance(1, 2) ? 0 : 1 + c.draw(2); std::string text;
			for (size_t j = 0; j < k; j++) { Act a{ (int)c.draw(6), (size_t)c.draw(n + 2) }; if (n > 8 && a.what == 3) a.what = 1; script.push_back(a); text += std::to_string(a.what) + ":" + std::to_string(a.target) + " "; }
			c.note("handler %zu: %s", i, text.c_str()); add(script, false);
		}
		size_t raises = 1 + c.draw(3);
		for (size_t i = 0; i < raises; i++)
		{
			c.note("raise"); raise((int)c.draw(100)); CheckFault(c, "raising"); PBT_CHECK(w.error.empty(), "%s", w.error.c_str());
			for (size_t k = 0; k < w.hs.size(); k++) if (!w.hs[k].dropped) PBT_CHECK(w.hs[k].handle->IsAttached() == w.hs[k].attached, "handler %zu reports attached=%d", k, (int)!w.hs[k].attached);
		}
		good = w.changed >= 1 && n >= 2;
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld captured values are alive after everything is gone", Tr::live);
	if (good) c.nontrivial();
}

// every way to make a callable: other signatures, many parameters, base classes, smart pointers, recursion
namespace
{
	struct FBase { int tag; FBase(int t) : tag(t) {} virtual ~FBase() {} virtual int V(int a) { return tag + a; } int NV(int a) { return tag - a; } void Note(int& a) { a += tag; } };
	struct FMid { int mid; FMid(int m) : mid(m) {} virtual ~FMid() {} virtual int M(int a) { return mid * 2 + a; } };
	struct FDer : FBase, FMid { FDer(int t) : FBase(t), FMid(t + 7) {} int V(int a) override { return tag * 3 + a; } int M(int a) override { return mid * 5 + tag + a; } };
	struct SB : Object { int id; static inline int live = 0; SB(int i) : id(i) { live++; } ~SB() { live--; } };
	struct SD : SB { SD(int i) : SB(i) {} };
	int ZeroArgs() { return 41; }
	long long Six(char a, short b, int c, long d, long long e, unsigned f) { return a + b * 3LL + c * 7LL + d * 11LL + e * 13LL + f * 17LL; }
	struct Rec { int calls = 0; int operator()(int a) { return ++calls * 100 + a; } };
}
PBT_TEST(C18, forms, 25000, pbt::F_NONE)
{
	Tr::Reset(); SB::live = 0;
	{
		int v = (int)c.range(-500, 500), w = (int)c.range(-500, 500); int kind = (int)c.draw(17); c.note("form %d with %d %d", kind, v, w);
		switch (kind)
		{
		case 0: { Func<long(short, int)> f(&StaticAdd); PBT_CHECK(f && f((short)v, w) == StaticAdd(v, w), "a function pointer of another signature"); Func<void(int, int)> g(&StaticAdd); g(v, w); Func<double(int, int)> h(StaticSub); PBT_CHECK(h(v, w) == StaticSub(v, w), "a function of another result type"); break; }
		case 1: { Func<int()> f(&ZeroArgs); int n = 0; Func<void()> g([&n] { n++; }); Func<void()> h(f); auto k = Func(&ZeroArgs); g(); g(); h(); PBT_CHECK(f() == 41 && n == 2 && k() == 41, "a callable without parameters"); break; }
		case 2:
		{
			Func<long long(char, short, int, long, long long, unsigned)> f(&Six); auto g = Func([](char a, short b, int d, long e, long long x, unsigned y) { return Six(a, b, d, e, x, y); });
			char a = (char)v; short b = (short)w; int d = v * 3; long e = w * 5; long long x = (long long)v << 33; unsigned y = (unsigned)w;
			PBT_CHECK(f(a, b, d, e, x, y) == Six(a, b, d, e, x, y) && g(a, b, d, e, x, y) == Six(a, b, d, e, x, y), "six parameters are confused");
			Func<WString(const WString&, const WString&, WString, WString&, int, wchar_t, bool)> s([](const WString& p, const WString& q, WString r, WString& t, int i, wchar_t ch, bool bo) { t = t + L"!"; return p + L"," + q + L"," + r + L"," + t + L"," + itow(i) + L"," + WString::FromChar(ch) + (bo ? L"t" : L"f"); });
			WString t = L"t"; WString r = s(L"p", L"q", itow(v), t, w, L'c', (v & 1) != 0);
			PBT_CHECK(r == WString(L"p,q,") + itow(v) + L",t!," + itow(w) + L",c" + (v & 1 ? L"t" : L"f") && t == L"t!", "seven parameters are confused"); break;
		}
		case 3:
		{
			FDer d(v); Func<int(int)> f((FBase*)&d, &FBase::V), g((FMid*)&d, &FMid::M), h((FBase*)&d, &FBase::NV), k(&d, &FDer::M), l(&d, &FDer::V);
			PBT_CHECK(f(w) == d.V(w) && l(w) == d.V(w), "a virtual member function through its base"); PBT_CHECK(g(w) == d.M(w) && k(w) == d.M(w), "a virtual member function of the second base"); PBT_CHECK(h(w) == d.NV(w), "a member function of a base");
			auto m = Func((FMid*)&d, &FMid::M); d.mid = w; PBT_CHECK(m(1) == d.M(1), "a member function sees an old object"); break;
		}
		case 4:
		{
			auto p = Ptr(new SD(v)); Func<Ptr<SB>(Ptr<SD>)> f([](Ptr<SB> x) { return x.Cast<SD>(); }); Ptr<SB> q = f(p); PBT_CHECK(q == p && SB::live == 1, "pointers are not converted between classes");
			Func<Ptr<SB>()> mk([v] { return Ptr(new SD(v + 1)); }); auto z = mk(); PBT_CHECK(z && z->id == v + 1 && SB::live == 2, "the result is not converted"); Func<Ptr<SB>()> mk2 = mk; mk = {}; { auto y = mk2(); PBT_CHECK(y && y->id == v + 1 && SB::live == 3, "a copied Func"); } PBT_CHECK(SB::live == 2, "a result is not released"); break;
		}
		case 5:
		{
			Func<int(int)> f([=, t = Tr(v)](int x) { return t.Value() + x; }); bool empty = c.boolean(); if (empty) f = {}; long before = Tr::live;
			Func<long(short)> g(std::move(f)); PBT_CHECK((bool)g == !empty, "conversion of a moved Func"); if (!empty) PBT_CHECK(g((short)w) == v + w && Tr::live == before, "a converted Func lost its callable"); f = {}; if (!empty) PBT_CHECK(g((short)w) == v + w, "a converted Func lost its callable");
			Func<void(int)> h = g; Func<void(short)> i = std::move(h); PBT_CHECK((bool)i == !empty, "conversion of a converted Func"); g = {}; h = {}; PBT_CHECK(Tr::live == (empty ? 0 : 1), "a converted Func lost or kept its callable"); if (!empty) i(3); break;
		}
		case 6: { Func<int(int)> fact; auto pf = &fact; fact = [pf](int n) -> int { return n <= 1 ? 1 : n * (*pf)(n - 1); }; int n = (int)c.draw(11), e = 1; for (int k = 2; k <= n; k++) e *= k; PBT_CHECK(fact(n) == e, "recursion gives %d", fact(n)); break; }
		case 7: { auto copy = std::make_shared<Func<int()>>(); int n = 0; *copy = Func<int()>([&n, v, t = Tr(v)] { n++; return t.Value(); }); Func<int()> a = *copy, b = a; copy->operator=(Func<int()>()); PBT_CHECK(a() == v && b() == v && n == 2 && a == b && Tr::live == 1, "copies of a Func"); break; }
		case 8:
		{ // a callable that replaces the Func it is called through, while somebody else still holds it
			Func<int()> f, keep; auto pf = &f; keep = [pf, t = Tr(v)] { *pf = {}; return t.Value(); }; f = keep; PBT_CHECK(f() == v && !f && keep() == v, "a callable that clears its Func"); break;
		}
		case 9: { int x = v; Func<int& ()> f([&x]() -> int& { return x; }); f() = w; PBT_CHECK(x == w && &f() == &x, "a reference result"); Func<const int& ()> g(f); PBT_CHECK(&g() == &x, "a converted reference result"); break; }
		case 10: { Tr t(v); Func<Tr()> f([&t] { return std::move(t); }); Tr r = f(); PBT_CHECK(r.Value() == v && Tr::copies == 0, "a result was copied"); Func<Tr(Tr)> g([](Tr a) { return a; }); Tr u = g(std::move(r)); PBT_CHECK(u.Value() == v && Tr::copies == 0, "a moved argument was copied %ld times", Tr::copies); break; }
		case 11: { std::function<int(int)> sf = [v](int a) { return a * 2 + v; }; Func<int(int)> f(sf); std::function<int(int)> back = f; PBT_CHECK(f(w) == w * 2 + v && back(w) == w * 2 + v, "a std::function"); break; }
		case 12: { Rec r; Func<int(int)> f(r); Func<int(int)> g(f); PBT_CHECK(f(v) == 100 + v && g(v) == 200 + v && r.calls == 0, "a functor given by value is shared between copies of the Func only"); Func<int(int)> h(std::ref(r)); h(v); h(v); PBT_CHECK(r.calls == 2, "a functor given by reference"); break; }
		case 13:
		{
			Event<void(int&)> ev; int n = 2 + (int)c.draw(4), expect = v; List<Ptr<EventHandler>> hs; for (int k = 0; k < n; k++) hs.Add(ev.Add([k](int& x) { x += 1 << k; })); FDer d(1000); hs.Add(ev.Add((FBase*)&d, &FBase::Note));
			int x = v; ev(x); expect = v + (1 << n) - 1 + 1000; PBT_CHECK(x == expect, "handlers changed a reference argument to %d instead of %d", x, expect); int gone = (int)c.draw(n); PBT_CHECK(ev.Remove(hs[gone]), "Remove"); ev(x); expect += (1 << n) - 1 - (1 << gone) + 1000; PBT_CHECK(x == expect, "handlers changed a reference argument to %d instead of %d", x, expect); break;
		}
		case 14:
		{
			Event<void()> ev; int n = 0; auto h1 = ev.Add([&n] { n += 1; }); auto h2 = ev.Add(Func<void()>([&n, t = Tr(v)] { n += 10; })); ev(); PBT_CHECK(n == 11, "an event without parameters"); ev.Remove(h1); ev(); PBT_CHECK(n == 21 && !h1->IsAttached() && h2->IsAttached(), "an event without parameters"); break;
		}
		case 15:
		{ // arguments of other types are converted for each handler
			Event<void(WString, double, Ptr<SB>)> ev; int n = 2 + (int)c.draw(3), calls = 0; for (int k = 0; k < n; k++) ev.Add([&calls, v, w](WString s, double d, Ptr<SB> p) { WString own(std::move(s)); if (own == itow(v) && d == w && p && p->id == v) calls++; p = nullptr; });
			auto p = Ptr(new SD(v)); WString s = itow(v); ev(s, w, p); PBT_CHECK(calls == n && s == itow(v) && p->id == v, "%d of %d handlers received the converted arguments", calls, n); ev(itow(v), (float)w, Ptr(new SD(v))); PBT_CHECK(calls == 2 * n && SB::live == 1, "%d of %d handlers received temporary arguments", calls - n, n); break;
		}
		default: { Dictionary<WString, Func<int(int)>> d; int n = 1 + (int)c.draw(12); for (int k = 0; k < n; k++) d.Add(itow(k), Func<int(int)>([t = Tr(k * 3)](int a) { return t.Value() + a; })); for (int k = 0; k < n; k++) PBT_CHECK(d[itow(k)](v) == k * 3 + v, "a Func from a dictionary"); PBT_CHECK(Tr::live == n, "%ld captured values", Tr::live); }
		}
		CheckFault(c, "the call"); if (v && w) c.nontrivial();
	}
	PBT_CHECK(Tr::live == 0 && SB::live == 0, "%ld captured values and %d objects are alive after everything is gone", Tr::live, SB::live);
}
