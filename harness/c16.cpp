// C16: shared ownership
#include "util.h"
#include <set>
#include <stdexcept>
#include <map>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C16,
	"Each case runs up to 70 operations on Ptr slots of a class hierarchy with virtual multiple inheritance (construct, copy, move, convert up, Cast down and sideways, reset, comparisons, pointers stored inside the objects, in lists, dictionaries and captured by Func) "
	"or of classes without virtual functions, or on ComPtr slots, and compares the set of living objects with a reference counting model after every operation. Non-trivial: at least two objects were destroyed because their last owner changed, and one object had two owners of different static type or was owned by another object.");

namespace
{
	struct Node;
	std::set<int>* alive = nullptr;
	const char* fault = nullptr;

	class INamed : public virtual Interface { public: virtual int Named() = 0; Ptr<INamed> named; };
	class ICounted : public virtual Interface { public: virtual int Counted() = 0; };
	class Node : public Object
	{
	public:
		int id; Ptr<Node> next; char pad[24];
		Node(int i) : id(i) { if (alive) alive->insert(i); }
		Node(const Node&) = delete;
		~Node() { if (!alive) return; if (!alive->erase(id)) fault = "an object was destroyed twice"; id = -1; }
	};
	// Node is not at offset 0 of INamed, and both interfaces are at different addresses
	class Both : public Node, public INamed, public ICounted { public: Both(int i) : Node(i) {} int Named() override { return id; } int Counted() override { return id; } };
	class Plain : public Node { public: Plain(int i) : Node(i) {} };

	struct Model
	{
		std::map<int, int> count;      // id -> owners
		std::map<int, bool> both;
		std::map<int, int> next, named; // pointers inside objects
		int destroyed = 0;
		void inc(int id) { if (id >= 0) count[id]++; }
		void dec(int id)
		{
			if (id < 0) return;
			if (--count[id] == 0)
			{
				destroyed++;
				int n = next[id], m = named[id];
				count.erase(id); next.erase(id); named.erase(id);
				dec(n); dec(m);
			}
		}
		void set(int& slot, int id) { int old = slot; inc(id); slot = id; dec(old); }
		// a pointer inside an object (the map entry can die while it is assigned)
		void setIn(std::map<int, int>& m, int owner, int id) { int old = m[owner]; inc(id); m[owner] = id; dec(old); }
	};
}

PBT_TEST(C16, ptr_graph, 40000, pbt::F_NONE)
{
	std::set<int> live; alive = &live; fault = nullptr;
	Model m; int nextId = 0; bool interesting = false;
	const int N = 3;
	{
		Ptr<Node> node[N]; Ptr<Both> both[N]; Ptr<INamed> named[N]; Ptr<ICounted> counted[N];
		List<Ptr<Node>> list; SortedList<Ptr<Node>> sorted; Dictionary<int, Ptr<INamed>> dict; List<Func<int()>> funcs;
		int mnode[N] = { -1,-1,-1 }, mboth[N] = { -1,-1,-1 }, mnamed[N] = { -1,-1,-1 }, mcounted[N] = { -1,-1,-1 };
		std::vector<int> mlist, msorted, mfuncs; std::map<int, int> mdict;
		std::map<int, Node*> raw;
		auto isBoth = [&](int id) { return id >= 0 && m.both[id]; };
		size_t steps = 1 + c.size(70);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(N), j = (int)c.draw(N); const char* op = "";
			switch (c.draw(26))
			{
			case 0: case 1:
			{
				op = "new"; int id = nextId++;
				if (c.boolean()) { m.both[id] = true; m.next[id] = -1; m.named[id] = -1; m.count[id] = 0; auto p = new Both(id); raw[id] = p;
					switch (c.draw(4)) { case 0: both[i] = Ptr(p); m.set(mboth[i], id); break; case 1: { Ptr<INamed> q(p); named[i] = q; m.set(mnamed[i], id); break; } case 2: counted[i] = Ptr<ICounted>(p); m.set(mcounted[i], id); break; default: { Ptr<Both> q(p); node[i] = q; m.set(mnode[i], id); } } }
				else { m.both[id] = false; m.next[id] = -1; m.named[id] = -1; m.count[id] = 0; auto p = new Plain(id); raw[id] = p; if (c.boolean()) node[i] = Ptr(p); else node[i] = Ptr<Node>(p); m.set(mnode[i], id); }
				break;
			}
			case 2: op = "copy assign"; switch (c.draw(4)) { case 0: node[i] = node[j]; m.set(mnode[i], mnode[j]); break; case 1: both[i] = both[j]; m.set(mboth[i], mboth[j]); break; case 2: named[i] = named[j]; m.set(mnamed[i], mnamed[j]); break; default: counted[i] = counted[j]; m.set(mcounted[i], mcounted[j]); } break;
			case 3: op = "move assign"; if (i == j) break; switch (c.draw(3)) { case 0: node[i] = std::move(node[j]); { int t = mnode[j]; m.set(mnode[i], t); m.set(mnode[j], -1); } PBT_CHECK(!node[j], "a moved from pointer still points"); break; case 1: both[i] = std::move(both[j]); { int t = mboth[j]; m.set(mboth[i], t); m.set(mboth[j], -1); } PBT_CHECK(!both[j], "a moved from pointer still points"); break; default: named[i] = std::move(named[j]); { int t = mnamed[j]; m.set(mnamed[i], t); m.set(mnamed[j], -1); } } break;
			case 4: op = "convert copy"; switch (c.draw(3)) { case 0: node[i] = both[j]; m.set(mnode[i], mboth[j]); break; case 1: named[i] = both[j]; m.set(mnamed[i], mboth[j]); break; default: counted[i] = both[j]; m.set(mcounted[i], mboth[j]); } if (mboth[j] >= 0) interesting = true; break;
			case 5: op = "convert move"; switch (c.draw(2)) { case 0: { int t = mboth[j]; node[i] = std::move(both[j]); m.set(mnode[i], t); m.set(mboth[j], -1); PBT_CHECK(!both[j], "a moved from pointer still points"); break; } default: { int t = mboth[j]; Ptr<INamed> q(std::move(both[j])); named[i] = q; m.set(mnamed[i], t); m.set(mboth[j], -1); } } break;
			case 6: { op = "Cast node to Both"; auto q = node[j].Cast<Both>(); PBT_CHECK((bool)q == isBoth(mnode[j]), "Cast<Both> of object %d gives %d", mnode[j], (int)(bool)q); both[i] = q; m.set(mboth[i], isBoth(mnode[j]) ? mnode[j] : -1); break; }
			case 7: { op = "Cast node to INamed"; auto q = node[j].Cast<INamed>(); PBT_CHECK((bool)q == isBoth(mnode[j]), "Cast<INamed> of object %d gives %d", mnode[j], (int)(bool)q); named[i] = std::move(q); m.set(mnamed[i], isBoth(mnode[j]) ? mnode[j] : -1); break; }
			case 8: { op = "Cast INamed to ICounted"; counted[i] = named[j].Cast<ICounted>(); m.set(mcounted[i], mnamed[j]); if (mnamed[j] >= 0) interesting = true; break; }
			case 9: { op = "Cast ICounted to Node"; node[i] = counted[j].Cast<Node>(); m.set(mnode[i], mcounted[j]); break; }
			case 10: op = "Cast to Plain"; { auto q = node[j].Cast<Plain>(); PBT_CHECK((bool)q == (mnode[j] >= 0 && !isBoth(mnode[j])), "Cast<Plain> of object %d", mnode[j]); node[i] = q; m.set(mnode[i], q ? mnode[j] : -1); } break;
			case 11: case 12: op = "reset"; switch (c.draw(5)) { case 0: node[i] = nullptr; m.set(mnode[i], -1); break; case 1: both[i] = nullptr; m.set(mboth[i], -1); break; case 2: named[i] = {}; m.set(mnamed[i], -1); break; case 3: counted[i] = Ptr<ICounted>(); m.set(mcounted[i], -1); break; default: { Ptr<Node> q; q = node[i]; node[i] = nullptr; q = nullptr; m.set(mnode[i], -1); } } break;
			case 13: op = "node->next = node"; if (mnode[i] >= 0) { node[i]->next = node[j]; m.setIn(m.next, mnode[i], mnode[j]); if (mnode[j] >= 0) interesting = true; } break;
			case 14: op = "node = node->next"; if (mnode[i] >= 0) { node[i] = node[i]->next; m.set(mnode[i], m.next[mnode[i]]); } break;
			case 15: op = "node = move(node->next)"; if (mnode[i] >= 0 && m.next[mnode[i]] != mnode[i]) { int owner = mnode[i], t = m.next[owner]; node[i] = std::move(node[i]->next); m.inc(t); m.setIn(m.next, owner, -1); m.set(mnode[i], t); m.dec(t); } break;
			case 16: op = "node->next = nullptr"; if (mnode[i] >= 0) { node[i]->next = nullptr; m.setIn(m.next, mnode[i], -1); } break;
			case 17: op = "named->named"; if (mnamed[i] >= 0) { named[i]->named = named[j]; m.setIn(m.named, mnamed[i], mnamed[j]); } break;
			case 18: op = "list"; if (list.Count() < 10 && c.boolean()) { list.Add(node[i]); mlist.push_back(mnode[i]); m.inc(mnode[i]); } else if (list.Count()) { vint k = (vint)c.draw(list.Count()); if (c.boolean()) { list.RemoveAt(k); int t = mlist[k]; mlist.erase(mlist.begin() + k); m.dec(t); } else { node[j] = list[k]; m.set(mnode[j], mlist[k]); } } break;
			case 19: op = "sorted";
				if (sorted.Count() < 10 && c.boolean()) { sorted.Add(node[i]); msorted.push_back(mnode[i]); m.inc(mnode[i]); }
				else { bool there = std::find(msorted.begin(), msorted.end(), mnode[i]) != msorted.end(); PBT_CHECK(sorted.Contains(node[i].Obj()) == there, "SortedList of pointers looks up object %d wrongly", mnode[i]); PBT_CHECK(sorted.Remove(node[i].Obj()) == there, "SortedList of pointers removes object %d wrongly", mnode[i]); if (there) { msorted.erase(std::find(msorted.begin(), msorted.end(), mnode[i])); m.dec(mnode[i]); } }
				break;
			case 20: { op = "dictionary"; int k = (int)c.draw(4); if (c.chance(2, 3)) { dict.Set(k, named[i]); if (!mdict.count(k)) mdict[k] = -1; m.set(mdict[k], mnamed[i]); } else { bool there = mdict.count(k); PBT_CHECK(dict.Remove(k) == there, "dictionary of pointers"); if (there) { int t = mdict[k]; mdict.erase(k); m.dec(t); } } break; }
			case 21: op = "capture"; if (funcs.Count() < 5 && c.boolean()) { auto p = node[i]; funcs.Add(Func<int()>([p] { return p ? p->id : -1; })); mfuncs.push_back(mnode[i]); m.inc(mnode[i]); } else if (funcs.Count()) { vint k = (vint)c.draw(funcs.Count()); if (c.boolean()) { PBT_CHECK(funcs[k]() == mfuncs[k], "a captured pointer changed"); } else { funcs.RemoveAt(k); int t = mfuncs[k]; mfuncs.erase(mfuncs.begin() + k); m.dec(t); } } break;
			case 22: op = "swap through temporaries"; { Ptr<Node> t(std::move(node[i])); node[i] = std::move(node[j]); node[j] = std::move(t); std::swap(mnode[i], mnode[j]); if (i == j) {} } break;
			case 23: op = "self assign"; { auto& r = node[i]; node[i] = r; auto& b = both[i]; both[i] = b; } break;
			default:
			{
				op = "compare";
				PBT_CHECK((node[i] == node[j]) == (mnode[i] == mnode[j]), "== of pointers to %d and %d", mnode[i], mnode[j]);
				PBT_CHECK((node[i] != node[j]) == (mnode[i] != mnode[j]), "!= of pointers");
				auto o = node[i] <=> node[j], r = node[j] <=> node[i];
				PBT_CHECK((o == 0) == (mnode[i] == mnode[j]) && (o < 0) == (r > 0), "<=> of pointers to %d and %d", mnode[i], mnode[j]);
				PBT_CHECK((node[i] == (Node*)raw[mnode[j]]) == (mnode[i] == mnode[j]) || mnode[j] < 0, "== with a raw pointer");
				break;
			}
			}
			if (fault) c.fail("after %s: %s", op, fault);
			c.note("%s: %zu alive", op, live.size());
			PBT_CHECK(live.size() == m.count.size(), "after %s: %zu objects are alive, %zu have owners", op, live.size(), m.count.size());
			for (auto& [id, n] : m.count) PBT_CHECK(live.count(id), "after %s: object %d with %d owners was destroyed", op, id, n);
			for (int k = 0; k < N; k++)
			{
				PBT_CHECK((bool)node[k] == (mnode[k] >= 0) && (bool)both[k] == (mboth[k] >= 0) && (bool)named[k] == (mnamed[k] >= 0) && (bool)counted[k] == (mcounted[k] >= 0), "after %s: an empty pointer is not empty or vice versa", op);
				if (node[k]) PBT_CHECK(node[k]->id == mnode[k] && node[k].Obj() == raw[mnode[k]], "after %s: pointer leads to object %d instead of %d", op, node[k]->id, mnode[k]);
				if (both[k]) PBT_CHECK(both[k]->id == mboth[k] && both[k]->Named() == mboth[k], "after %s: pointer leads to a wrong object", op);
				if (named[k]) PBT_CHECK(named[k]->Named() == mnamed[k], "after %s: interface pointer leads to object %d instead of %d", op, named[k]->Named(), mnamed[k]);
				if (counted[k]) PBT_CHECK(counted[k]->Counted() == mcounted[k], "after %s: interface pointer leads to object %d instead of %d", op, counted[k]->Counted(), mcounted[k]);
			}
		}
		// objects that only own each other stay alive by definition: break the cycles through raw access
		node[0] = node[1] = node[2] = nullptr; for (int k = 0; k < N; k++) { both[k] = nullptr; named[k] = nullptr; counted[k] = nullptr; m.set(mnode[k], -1); m.set(mboth[k], -1); m.set(mnamed[k], -1); m.set(mcounted[k], -1); }
		list.Clear(); for (int t : mlist) m.dec(t); sorted.Clear(); for (int t : msorted) m.dec(t); dict.Clear(); for (auto& p : mdict) m.dec(p.second); funcs.Clear(); for (int t : mfuncs) m.dec(t);
		if (m.destroyed >= 2 && interesting) c.nontrivial();
		while (m.count.size())
		{
			PBT_CHECK(live.size() == m.count.size(), "%zu objects are alive, %zu have owners", live.size(), m.count.size());
			int id = -1; for (auto& [q, n] : m.count) if (m.next[q] >= 0 || m.named[q] >= 0) { id = q; break; }
			if (id < 0) throw std::logic_error("model");
			PBT_CHECK(live.count(id), "object %d was destroyed while owned", id);
			c.label("cycle broken from inside");
			if (m.next[id] >= 0) { raw[id]->next = nullptr; m.setIn(m.next, id, -1); }
			else { ((Both*)raw[id])->named = nullptr; m.setIn(m.named, id, -1); }
			if (fault) c.fail("breaking a cycle: %s", fault);
		}
	}
	PBT_CHECK(live.empty(), "%zu objects are alive without owner", live.size());
	alive = nullptr;
}

// Detach hands the object over without destroying it; the counter of a detached sole owner is not reclaimed (see DESIGN.md), so no heap balance here
PBT_TEST(C16, detach, 15000, pbt::F_NOLEAK)
{
	std::set<int> live; alive = &live; fault = nullptr; int nextId = 0, released = 0, shared = 0;
	{
		std::vector<Ptr<Node>> v(4); std::vector<int> mv(4, -1); std::set<int> owned;
		auto owners = [&](int id) { int n = 0; for (int x : mv) if (x == id) n++; return n; };
		size_t steps = 1 + c.size(40);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(4), j = (int)c.draw(4);
			int old = mv[i];
			switch (c.draw(5))
			{
			case 0: case 1: { int id = nextId++; owned.insert(id); if (c.boolean()) v[i] = Ptr(new Plain(id)); else v[i] = Ptr<Node>(new Both(id)); mv[i] = id; break; }
			case 2: v[i] = v[j]; mv[i] = mv[j]; break;
			case 3: v[i] = nullptr; mv[i] = -1; break;
			default:
			{
				Node* p = v[i].Detach(); mv[i] = -1;
				PBT_CHECK(!v[i] && v[i].Obj() == nullptr, "the pointer is not empty after Detach");
				if (old < 0) { PBT_CHECK(p == nullptr, "Detach of an empty pointer"); break; }
				PBT_CHECK(live.count(old), "Detach destroyed object %d", old);
				PBT_CHECK(p && p->id == old, "Detach returned another object");
				if (owners(old) == 0) { if (c.boolean()) { v[i] = Ptr<Node>(p); mv[i] = old; } else { delete p; } released++; }
				else shared++;
				c.note("Detach object %d, %d owners left", old, owners(old));
			}
			}
			if (fault) c.fail("%s", fault);
			for (auto it = owned.begin(); it != owned.end();) if (owners(*it) == 0) it = owned.erase(it); else ++it;
			PBT_CHECK(live == owned, "%zu objects are alive, %zu have owners", live.size(), owned.size());
		}
	}
	PBT_CHECK(live.empty() && !fault, "objects are alive without owner");
	if (released && shared) c.nontrivial();
	alive = nullptr;
}

// bases without virtual functions: the object still dies as what it was created
namespace
{
	struct QA { int a; QA(int i) : a(i) {} };
	struct QB { WString b; int bid; QB(int i) : b(itow(i)), bid(i) {} };
	struct QD : QA, QB { static inline std::set<int>* live = nullptr; static inline bool twice = false; int id; WString text; QD(int i) : QA(i), QB(i), id(i), text(itow(i)) { if (live) live->insert(i); } ~QD() { if (live && !live->erase(id)) twice = true; id = -1; } };
	struct QE : QD { WString more; QE(int i) : QD(i), more(itow(i)) {} };
}
PBT_TEST(C16, plain_bases, 20000, pbt::F_NONE)
{
	std::set<int> live; QD::live = &live; QD::twice = false; int nextId = 0, destroyed = 0; bool mixed = false;
	{
		Ptr<QA> a[2]; Ptr<QB> b[2]; Ptr<QD> d[2]; Ptr<QE> e[2]; int ma[2] = { -1,-1 }, mb[2] = { -1,-1 }, md[2] = { -1,-1 }, me[2] = { -1,-1 }; std::set<int> isE;
		List<Ptr<QB>> list; std::vector<int> ml;
		size_t steps = 1 + c.size(50);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(2), j = (int)c.draw(2); size_t before = live.size(); bool made = false; const char* op = "";
			switch (c.draw(20))
			{
			case 0: op = "new derived"; made = true; d[i] = Ptr(new QD(nextId)); md[i] = nextId++; break;
			case 1: op = "new most derived"; made = true; e[i] = Ptr(new QE(nextId)); me[i] = nextId++; break;
			case 2: op = "new into a second base"; made = true; b[i] = Ptr(new QE(nextId)); mb[i] = nextId++; break;
			case 3: op = "new into a first base"; made = true; a[i] = Ptr(new QD(nextId)); ma[i] = nextId++; break;
			case 4: op = "convert copy to the first base"; a[i] = d[j]; ma[i] = md[j]; break;
			case 5: op = "convert copy to the second base"; b[i] = d[j]; mb[i] = md[j]; break;
			case 6: op = "construct by move to the second base"; { Ptr<QB> q(std::move(d[j])); PBT_CHECK(!d[j], "a moved from pointer still points"); b[i] = q; mb[i] = md[j]; md[j] = -1; } break;
			case 7: op = "move to the first base"; a[i] = std::move(e[j]); PBT_CHECK(!e[j], "a moved from pointer still points"); ma[i] = me[j]; me[j] = -1; break;
			case 8: op = "move to the second base"; b[i] = std::move(e[j]); PBT_CHECK(!e[j], "a moved from pointer still points"); mb[i] = me[j]; me[j] = -1; break;
			case 9: op = "move to the derived class"; d[i] = std::move(e[j]); md[i] = me[j]; me[j] = -1; break;
			case 10: op = "copy"; b[i] = b[j]; mb[i] = mb[j]; break;
			case 11: op = "move"; if (i != j) { b[i] = std::move(b[j]); mb[i] = mb[j]; mb[j] = -1; } break;
			case 12: op = "reset"; switch (c.draw(4)) { case 0: a[i] = nullptr; ma[i] = -1; break; case 1: b[i] = nullptr; mb[i] = -1; break; case 2: d[i] = nullptr; md[i] = -1; break; default: e[i] = nullptr; me[i] = -1; } break;
			case 13: case 14: op = "list"; if (list.Count() < 6 && c.boolean()) { switch (c.draw(3)) { case 0: list.Add(b[i]); ml.push_back(mb[i]); break; case 1: list.Add(d[i]); ml.push_back(md[i]); break; default: list.Add(std::move(e[i])); ml.push_back(me[i]); me[i] = -1; } } else if (list.Count()) { vint k = (vint)c.draw(list.Count()); list.RemoveAt(k); ml.erase(ml.begin() + k); } break;
			case 15: op = "return from a function"; { auto f = [&]() -> Ptr<QB> { return d[j]; }; b[i] = f(); mb[i] = md[j]; } break;
			case 16: op = "return by move from a function"; { auto f = [&]() -> Ptr<QA> { Ptr<QE> q = e[j]; return q; }; a[i] = f(); ma[i] = me[j]; } break;
			default: op = "convert copy from the most derived"; if (c.boolean()) { b[i] = e[j]; mb[i] = me[j]; } else { d[i] = e[j]; md[i] = me[j]; } break;
			}
			std::set<int> want; for (int k = 0; k < 2; k++) for (int x : { ma[k], mb[k], md[k], me[k] }) if (x >= 0) { if (want.count(x)) mixed = true; want.insert(x); } for (int x : ml) if (x >= 0) want.insert(x);
			c.note("%s: %zu alive", op, live.size());
			PBT_CHECK(!QD::twice, "after %s: an object was destroyed twice", op);
			PBT_CHECK(live == want, "after %s: %zu objects are alive, %zu have owners", op, live.size(), want.size());
			for (int k = 0; k < 2; k++)
			{
				PBT_CHECK((bool)a[k] == (ma[k] >= 0) && (bool)b[k] == (mb[k] >= 0) && (bool)d[k] == (md[k] >= 0) && (bool)e[k] == (me[k] >= 0), "after %s: an empty pointer is not empty or vice versa", op);
				PBT_CHECK((!a[k] || a[k]->a == ma[k]) && (!b[k] || (b[k]->bid == mb[k] && b[k]->b == itow(mb[k]))) && (!d[k] || (d[k]->id == md[k] && d[k]->text == itow(md[k]))) && (!e[k] || e[k]->more == itow(me[k])), "after %s: a pointer leads to a wrong object", op);
			}
			if (live.size() < before + (made ? 1 : 0)) destroyed++;
		}
	}
	PBT_CHECK(live.empty() && !QD::twice, "%zu objects are alive without owner", live.size());
	if (destroyed >= 2 && mixed) c.nontrivial();
	QD::live = nullptr;
}

// intrusive counters through ReferenceCounterOperator
namespace
{
	class Intrusive : public Object { public: static inline int live = 0; vl::atomic_vint counter{ 0 }; int id; Intrusive(int i) :id(i) { live++; } ~Intrusive() { live--; } };
	class IntrusiveChild : public Intrusive { public: int extra = 7; IntrusiveChild(int i) : Intrusive(i) {} };
}
namespace vl
{
	template<typename T>
	struct ReferenceCounterOperator<T, std::enable_if_t<std::is_base_of_v<Intrusive, T>>>
	{
		static atomic_vint* CreateCounter(T* reference) { return &reference->counter; }
		static void DeleteReference(atomic_vint* counter, void* reference) { delete (T*)reference; }
	};
}
PBT_TEST(C16, intrusive, 15000, pbt::F_NONE)
{
	Intrusive::live = 0; int destroyed = 0; bool rewrapped = false;
	{
		std::vector<Ptr<Intrusive>> v(4); std::vector<Ptr<IntrusiveChild>> w(2); std::vector<int> mv(4, -1), mw(2, -1); int nextId = 0;
		size_t steps = 1 + c.size(50);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(4), j = (int)c.draw(4), k = (int)c.draw(2); int before = Intrusive::live;
			switch (c.draw(7))
			{
			case 0: { int id = nextId++; v[i] = Ptr(new Intrusive(id)); mv[i] = id; break; }
			case 1: { int id = nextId++; w[k] = Ptr(new IntrusiveChild(id)); mw[k] = id; break; }
			case 2: v[i] = v[j]; mv[i] = mv[j]; break;
			case 3: v[i] = w[k]; mv[i] = mw[k]; break;
			case 4: { auto q = v[i].Cast<IntrusiveChild>(); w[k] = q; mw[k] = q ? mv[i] : -1; break; }
			case 5: v[i] = nullptr; mv[i] = -1; break;
			default: if (v[i] && typeid(*v[i].Obj()) == typeid(Intrusive)) { v[j] = Ptr<Intrusive>(v[i].Obj()); mv[j] = mv[i]; rewrapped = true; } // an intrusive counter is shared by independent pointers
			}
			if (Intrusive::live < before) destroyed++;
			std::set<int> ids; for (int x : mv) if (x >= 0) ids.insert(x); for (int x : mw) if (x >= 0) ids.insert(x);
			PBT_CHECK(Intrusive::live == (int)ids.size(), "%d objects are alive, %zu have owners", Intrusive::live, ids.size());
			for (int q = 0; q < 4; q++) PBT_CHECK((bool)v[q] == (mv[q] >= 0) && (!v[q] || v[q]->id == mv[q]), "pointer to %d is wrong", mv[q]);
			for (int q = 0; q < 2; q++) PBT_CHECK((bool)w[q] == (mw[q] >= 0) && (!w[q] || (w[q]->id == mw[q] && w[q]->extra == 7)), "pointer to %d is wrong", mw[q]);
			c.note("%d alive", Intrusive::live);
		}
	}
	PBT_CHECK(Intrusive::live == 0, "%d objects are alive without owner", Intrusive::live);
	if (destroyed >= 2 && rewrapped) c.nontrivial();
}

// ComPtr: each counter block calls Release exactly once, when its last pointer goes
namespace
{
	struct Com
	{
		int refs = 1; int id; ComPtr<Com> next; static inline int live = 0; static inline int releases = 0;
		Com(int i) :id(i) { live++; } ~Com() { live--; }
		void AddRef() { refs++; } void Release() { releases++; if (--refs == 0) delete this; else if (refs < 0) fault = "Release was called too often"; }
	};
}
PBT_TEST(C16, comptr, 20000, pbt::F_NONE)
{
	Com::live = 0; Com::releases = 0; fault = nullptr; int destroyed = 0; bool chained = false, regrouped = false;
	{
		struct Group { int obj; int owners; }; // a counter block
		std::vector<Group> groups; std::map<int, int> refs; std::map<int, int> next; std::map<int, Com*> raw; int releases = 0, nextId = 0;
		std::function<void(int)> dec = [&](int g) { if (g < 0) return; if (--groups[g].owners == 0) { releases++; int o = groups[g].obj; if (--refs[o] == 0) { refs.erase(o); int n = next[o]; next.erase(o); dec(n); } } };
		auto inc = [&](int g) { if (g >= 0) groups[g].owners++; };
		auto set = [&](int& slot, int g) { int old = slot; inc(g); slot = g; dec(old); };
		std::vector<ComPtr<Com>> v(4); std::vector<int> mv(4, -1);
		size_t steps = 1 + c.size(50);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(4), j = (int)c.draw(4); int before = Com::live; const char* op = "";
			switch (c.draw(11))
			{
			case 0: case 1: { op = "new"; int id = nextId++; Com* p = new Com(id); raw[id] = p; refs[id] = 1; next[id] = -1; groups.push_back({ id, 0 }); if (c.boolean()) v[i] = p; else v[i] = ComPtr<Com>(p); set(mv[i], (int)groups.size() - 1); break; }
			case 2: op = "copy"; v[i] = v[j]; set(mv[i], mv[j]); break;
			case 3: op = "move"; if (i != j) { v[i] = std::move(v[j]); int t = mv[j]; set(mv[i], t); set(mv[j], -1); } break;
			case 4: op = "reset"; if (c.boolean()) v[i] = nullptr; else v[i] = (Com*)nullptr; set(mv[i], -1); break;
			case 5: op = "temporary"; { ComPtr<Com> none((Com*)nullptr), none2(nullptr); PBT_CHECK(!none && none == none2 && none.Obj() == nullptr, "a ComPtr of null is not empty"); }
				{ ComPtr<Com> t(v[i]), u(std::move(t)); PBT_CHECK(!t && u == v[i], "temporary"); } break;
			case 6: op = "second counter"; if (mv[i] >= 0) { int o = groups[mv[i]].obj; raw[o]->AddRef(); refs[o]++; groups.push_back({ o, 0 }); int g = (int)groups.size() - 1; groups[g].owners++; if (c.boolean()) v[j] = ComPtr<Com>(raw[o]); else v[j] = raw[o]; { int old = mv[j]; mv[j] = g; dec(old); } regrouped = true; } break;
			case 7: op = "next"; if (mv[i] >= 0) { int o = groups[mv[i]].obj; v[i]->next = v[j]; int old = next[o]; inc(mv[j]); next[o] = mv[j]; dec(old); chained = true; } break;
			case 8: op = "v = v->next"; if (mv[i] >= 0) { v[i] = v[i]->next; set(mv[i], next[groups[mv[i]].obj]); } break;
			case 9: op = "next = nullptr"; if (mv[i] >= 0) { int o = groups[mv[i]].obj; v[i]->next = nullptr; int old = next[o]; next[o] = -1; dec(old); } break;
			default:
			{
				op = "compare"; Com* a = mv[i] < 0 ? nullptr : raw[groups[mv[i]].obj]; Com* b = mv[j] < 0 ? nullptr : raw[groups[mv[j]].obj];
				PBT_CHECK((v[i] == v[j]) == (a == b) && (v[i] == b) == (a == b) && ((v[i] <=> v[j]) == (a <=> b)) && (v[i] < v[j]) == (a < b), "comparison of ComPtr");
			}
			}
			if (fault) c.fail("after %s: %s", op, fault);
			c.note("%s: %d alive, %d releases", op, Com::live, Com::releases);
			PBT_CHECK(Com::live == (int)refs.size(), "after %s: %d objects are alive instead of %zu", op, Com::live, refs.size());
			PBT_CHECK(Com::releases == releases, "after %s: Release was called %d times instead of %d", op, Com::releases, releases);
			for (int q = 0; q < 4; q++) PBT_CHECK((bool)v[q] == (mv[q] >= 0) && (!v[q] || (v[q].Obj() == raw[groups[mv[q]].obj] && v[q]->id == groups[mv[q]].obj)), "after %s: a pointer is wrong", op);
			if (Com::live < before) destroyed++;
		}
		for (int q = 0; q < 4; q++) { v[q] = nullptr; set(mv[q], -1); }
		while (refs.size())
		{
			int o = -1; for (auto& [q, n] : refs) if (next[q] >= 0) { o = q; break; }
			PBT_CHECK(Com::live == (int)refs.size(), "%d objects are alive instead of %zu", Com::live, refs.size());
			if (o < 0) throw std::logic_error("model");
			raw[o]->next = nullptr; int old = next[o]; next[o] = -1; dec(old);
		}
	}
	PBT_CHECK(Com::live == 0 && !fault, "%d objects are alive without owner", Com::live);
	if (destroyed >= 2 && chained && regrouped) c.nontrivial();
}

// very many owners of one object, of several pointer types
PBT_TEST(C16, many_owners, 800, pbt::F_NONE)
{
	std::set<int> live; QD::live = &live; QD::twice = false; Com::live = 0; Com::releases = 0; fault = nullptr;
	{
		size_t n = c.chance(1, 10) ? GenHugeSize(c) : 100 + c.size(900); Ptr<QD> first = Ptr(new QE(7)); std::vector<Ptr<QD>> d; std::vector<Ptr<QA>> a; std::vector<Ptr<QB>> b; auto com = ComPtr<Com>(new Com(3)); std::vector<ComPtr<Com>> cs; c.note("%zu owners", n);
		std::set<int> nlive; alive = &nlive; Ptr<Node> base = Ptr(new Both(9)); std::vector<Ptr<Node>> ns; std::vector<Ptr<Both>> bs;
		unsigned mask = 1 + (unsigned)c.draw(7); size_t keep = c.draw(n);
		for (size_t i = 0; i < n; i++)
		{
			if (mask & 1) d.push_back(first); if (mask & 2) a.push_back(first); if (mask & 4) b.push_back(first); cs.push_back(com);
			ns.push_back(base); auto q = base.Cast<Both>(); if (!q || q.Obj() != dynamic_cast<Both*>(base.Obj())) c.fail("Cast fails with %zu owners", i + 2); bs.push_back(q);
		}
		PBT_CHECK(live.size() == 1 && nlive.size() == 1 && Com::live == 1 && Com::releases == 0, "an object with %zu owners died", n);
		first = nullptr; base = nullptr; com = nullptr;
		bool from = c.boolean(); auto shrink = [&](auto& v) { if (v.empty()) return; if (from) v.resize(keep); else { size_t k = 0; for (auto& p : v) { if (k >= keep) p = nullptr; k++; } v.resize(keep); } };
		shrink(d); shrink(a); shrink(b); shrink(cs); shrink(ns); shrink(bs);
		PBT_CHECK(live.size() == (keep ? 1u : 0u) && nlive.size() == (keep ? 1u : 0u) && Com::live == (keep ? 1 : 0), "%zu owners are left and the object is %s", keep, live.size() || nlive.size() || Com::live ? "alive" : "dead");
		if (keep) { for (auto& p : d) if (p->id != 7) c.fail("an owner leads to a wrong object"); for (auto& p : b) if (p->bid != 7) c.fail("an owner leads to a wrong object"); for (auto& p : cs) if (p->id != 3) c.fail("an owner leads to a wrong object"); }
		d.clear(); a.clear(); b.clear(); cs.clear(); PBT_CHECK(live.empty() && Com::live == 0 && Com::releases == 1, "the object survives its last owner");
		ns.clear(); PBT_CHECK(nlive.size() == (keep ? 1u : 0u), "owners of another type are left and the object died"); bs.clear(); PBT_CHECK(nlive.empty(), "the object survives its last owner"); alive = nullptr;
		c.nontrivial();
	}
	PBT_CHECK(!QD::twice && !fault, "an object was destroyed twice"); QD::live = nullptr;
}

// destructors that change other pointers, create objects and store pointers while the release that started them is under way
namespace
{
	struct Rw;
	struct RAct { int what, i, j; };
	struct RWorld { Ptr<Rw> slot[4]; List<Ptr<Rw>> list; std::set<int> live; std::map<int, Rw*> raw; int nextId = 0, ran = 0, depth = 0; bool on = true; const char* bad = nullptr; };
	RWorld* rworld = nullptr;
	void RRun(const RAct& a);
	struct Rw
	{
		int id; std::vector<RAct> script; Ptr<Rw> member; Rw(const std::vector<RAct>& s) : id(rworld->nextId++), script(s) { rworld->live.insert(id); rworld->raw[id] = this; }
		~Rw()
		{
			if (!rworld->live.erase(id)) rworld->bad = "an object was destroyed twice"; rworld->raw.erase(id);
			if (rworld->on && rworld->depth < 4) { rworld->depth++; auto s = script; for (auto& a : s) { rworld->ran++; RRun(a); } rworld->depth--; }
			id = -1;
		}
	};
	void RRun(const RAct& a)
	{
		auto& w = *rworld;
		switch (a.what)
		{
		case 0: w.slot[a.i] = nullptr; break;
		case 1: w.slot[a.i] = w.slot[a.j]; break;
		case 2: if (a.i != a.j) w.slot[a.i] = std::move(w.slot[a.j]); break;
		case 3: if (w.nextId < 60) w.slot[a.i] = Ptr(new Rw({})); break;
		case 4: if (w.slot[a.i]) { auto keep = w.slot[a.i]; keep->member = w.slot[a.j]; } break;
		case 5: if (w.slot[a.i]) { auto keep = w.slot[a.i]; keep->member = nullptr; } break;
		case 6: { Ptr<Rw> t(w.slot[a.i]); Ptr<Rw> u(std::move(t)); w.slot[a.j] = u; break; }
		case 7: if (w.slot[a.i]) w.slot[a.i] = w.slot[a.i]->member; break;
		default: { Ptr<Rw> t(w.slot[a.i]); if (t && t->id < 0) w.bad = "a pointer leads to a dead object"; } break;
		}
	}
}
PBT_TEST(C16, destructors, 12000, pbt::F_NONE)
{
	int ran = 0, died = 0;
	{
		RWorld w; rworld = &w; size_t steps = 3 + c.size(40);
		auto act = [&] { return RAct{ (int)c.draw(9), (int)c.draw(4), (int)c.draw(4) }; };
		auto verify = [&](const char* op)
		{
			std::set<int> reach; std::vector<Rw*> todo; for (auto& s : w.slot) if (s) todo.push_back(s.Obj()); for (auto& p : w.list) if (p) todo.push_back(p.Obj());
			while (todo.size())
			{
				Rw* p = todo.back(); todo.pop_back(); int id = -1; for (auto& [k, r] : w.raw) if (r == p) id = k;
				PBT_CHECK(id >= 0, "after %s: a pointer leads to an object that was destroyed", op);
				if (!reach.insert(id).second) continue; if (p->member) todo.push_back(p->member.Obj());
			}
			// objects in a cycle own each other: they are reached from themselves
			for (bool more = true; more;) { more = false; for (auto& [k, r] : w.raw) { if (reach.count(k)) continue; bool owned = false; for (auto& [k2, r2] : w.raw) if (r2->member.Obj() == r) owned = true; if (owned) { reach.insert(k); more = true; } } }
			PBT_CHECK(!w.bad, "after %s: %s", op, w.bad);
			PBT_CHECK(reach == w.live, "after %s: %zu objects are alive, %zu have owners", op, w.live.size(), reach.size());
		};
		for (size_t s = 0; s < steps; s++)
		{
			size_t before = w.live.size(); const char* op = "";
			switch (c.draw(5))
			{
			case 0: case 1: { op = "new"; std::vector<RAct> script; size_t n = c.draw(4); for (size_t k = 0; k < n; k++) script.push_back(act()); if (w.nextId < 60) w.slot[c.draw(4)] = Ptr(new Rw(script)); before++; break; }
			case 2: { op = "list"; if (w.list.Count() < 6 && c.boolean()) w.list.Add(w.slot[c.draw(4)]); else if (w.list.Count()) { vint k = (vint)c.draw(w.list.Count()); if (c.boolean()) w.list.RemoveAt(k); else w.list.Set(k, w.slot[c.draw(4)]); } break; }
			default: { op = "pointer operation"; auto a = act(); RRun(a); c.note("action %d %d %d", a.what, a.i, a.j); }
			}
			c.note("%s: %zu alive", op, w.live.size()); if (w.live.size() < before) died++;
			verify(op);
		}
		ran = w.ran; w.on = false; w.list.Clear(); for (auto& s : w.slot) s = nullptr; verify("clearing");
		while (w.raw.size()) { auto p = w.raw.begin()->second; p->member = nullptr; verify("breaking a cycle"); }
	}
	rworld = nullptr; if (ran >= 2 && died >= 2) c.nontrivial();
}

// conversions that add const, pointers to incomplete owners, casts of temporaries and null casts
PBT_TEST(C16, conversions, 8000, pbt::F_NONE)
{
	std::set<int> live; alive = &live; fault = nullptr;
	{
		Ptr<const Node> cn[2]; Ptr<const INamed> ci[2]; Ptr<Node> n[2]; int mcn[2] = { -1, -1 }, mci[2] = { -1, -1 }, mn[2] = { -1, -1 }; int id = 0, mixed = 0;
		size_t steps = 1 + c.size(30);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(2), j = (int)c.draw(2); const char* op = "";
			switch (c.draw(11))
			{
			case 0: op = "temporary cast"; { bool b = c.boolean(); auto q = b ? Ptr<Node>(new Both(id)).Cast<INamed>() : Ptr<Node>(new Plain(id)).Cast<INamed>(); PBT_CHECK((bool)q == b && (!b || q->Named() == id), "Cast of a temporary"); ci[i] = q; mci[i] = b ? id : -1; id++; } break;
			case 1: op = "const copy"; cn[i] = n[j]; mcn[i] = mn[j]; if (mn[j] >= 0) mixed++; break;
			case 2: op = "const move"; cn[i] = std::move(n[j]); mcn[i] = mn[j]; mn[j] = -1; PBT_CHECK(!n[j], "a moved from pointer still points"); break;
			case 3: op = "const temporary"; cn[i] = Ptr(new Both(id)); mcn[i] = id++; break;
			case 4: op = "cast const"; { auto q = cn[j].Cast<const Both>(); PBT_CHECK(!q || q->id == mcn[j], "Cast of a pointer to const"); ci[i] = q; mci[i] = q ? mcn[j] : -1; if (q) mixed++; } break;
			case 5: op = "cast const sideways"; { auto q = ci[j].Cast<const Node>(); PBT_CHECK((bool)q == (mci[j] >= 0), "Cast of an interface pointer to const"); cn[i] = std::move(q); mcn[i] = mci[j]; } break;
			case 6: op = "new"; n[i] = Ptr<Node>(new Both(id)); mn[i] = id++; break;
			case 7: op = "self cast"; n[i] = n[i].Cast<Node>(); break;
			case 8: op = "self chain"; n[i] = n[i].Cast<Both>().Cast<INamed>().Cast<Node>(); { } break;
			case 9: op = "reset"; switch (c.draw(3)) { case 0: cn[i] = nullptr; mcn[i] = -1; break; case 1: ci[i] = nullptr; mci[i] = -1; break; default: n[i] = nullptr; mn[i] = -1; } break;
			default: op = "null cast"; { Ptr<Node> e; auto q = e.Cast<Both>(); auto q2 = q; PBT_CHECK(!q && !q2 && q == nullptr && q.Obj() == nullptr, "Cast of an empty pointer"); auto f = Ptr<Node>(new Plain(id)); { auto g = f.Cast<Both>(); auto g2 = std::move(g); g2 = nullptr; g2 = f.Cast<Both>(); PBT_CHECK(!g2 && live.count(id), "a failed Cast"); } id++; } break;
			}
			std::set<int> want; for (int k = 0; k < 2; k++) for (int x : { mcn[k], mci[k], mn[k] }) if (x >= 0) want.insert(x);
			c.note("%s: %zu alive", op, live.size());
			PBT_CHECK(!fault && live == want, "after %s: %zu objects are alive, %zu have owners", op, live.size(), want.size());
			for (int k = 0; k < 2; k++) PBT_CHECK((bool)cn[k] == (mcn[k] >= 0) && (bool)ci[k] == (mci[k] >= 0) && (bool)n[k] == (mn[k] >= 0) && (!cn[k] || cn[k]->id == mcn[k]) && (!n[k] || n[k]->id == mn[k]), "after %s: a pointer is wrong", op);
		}
		if (mixed >= 2) c.nontrivial();
	}
	PBT_CHECK(live.empty() && !fault, "%zu objects are alive without owner", live.size()); alive = nullptr;
}
