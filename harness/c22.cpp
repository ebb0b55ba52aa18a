// C22: global storages
#include "util.h"
#include "child.h"
using namespace vl;
using pbt::Ctx;

PBT_RULE(C22,
	"Each case runs, in a fresh child process, up to 25 operations (first and later access, explicit finalisation of one storage, FinalizeGlobalStorage) on six global storages in a generated order of first access; two storages use others while they initialise and two use each other. "
	"Initialisations, finalisations and values are compared with a model after each operation and once more after the process ended. Non-trivial: at least two storages were re-created after finalisation, or FinalizeGlobalStorage ran with at least three initialised.");

namespace
{
	const int N = 6;
	struct Sh { int init[N] = {}, fin[N] = {}; char msg[400] = {}; int doubleInit = 0, doubleFin = 0; int reenter = 0; bool stopped = false; };
	Sh* sh = nullptr;
	void OnInit(int i) { if (!sh) return; sh->init[i]++; if (sh->init[i] != sh->fin[i] + 1) sh->doubleInit = i + 1; }
	void OnFin(int i) { if (!sh) return; sh->fin[i]++; if (sh->init[i] != sh->fin[i]) sh->doubleFin = i + 1; }
}
#define STORAGE(NAME, I, EXTRA) \
	BEGIN_GLOBAL_STORAGE_CLASS(NAME) \
		Ptr<WString> data; \
		List<int>* owned = nullptr; \
	INITIALIZE_GLOBAL_STORAGE_CLASS \
		OnInit(I); \
		data = Ptr(new WString(itow(100 + I))); \
		owned = new List<int>; owned->Add(I); \
		EXTRA \
	FINALIZE_GLOBAL_STORAGE_CLASS \
		OnFin(I); \
		data = nullptr; \
		delete owned; owned = nullptr; \
	END_GLOBAL_STORAGE_CLASS(NAME)
namespace
{
	using namespace vl::collections;
	EXTERN_GLOBAL_STORAGE_CLASS(StoE)
	STORAGE(StoA, 0, )
	STORAGE(StoB, 1, if (wtoi(*GetStoA().data.Obj()) != 100) sh->doubleInit = 100; )
	STORAGE(StoC, 2, GetStoB(); )
	STORAGE(StoD, 3, GetStoE(); )
	STORAGE(StoE, 4, if (wtoi(*GetStoD().data.Obj()) != 103) sh->doubleInit = 104; )
	// the finaliser of F leads back to its own finalisation
	BEGIN_GLOBAL_STORAGE_CLASS(StoF)
		Ptr<WString> data;
		List<int>* owned = nullptr;
	INITIALIZE_GLOBAL_STORAGE_CLASS
		OnInit(5);
		data = Ptr(new WString(itow(105)));
		owned = new List<int>; owned->Add(5);
	FINALIZE_GLOBAL_STORAGE_CLASS
		OnFin(5);
		data = nullptr;
		delete owned; owned = nullptr;
		if (sh && !sh->stopped && !sh->doubleFin)
		{
			if (sh->reenter == 1) EnsureFinalized();
			if (sh->reenter == 2) FinalizeGlobalStorage();
		}
	END_GLOBAL_STORAGE_CLASS(StoF)
	struct Acc { GlobalStorage* s; WString* data; int owned; };
	template<typename T> Acc A(T& t) { return { &t, t.data.Obj(), t.owned ? (int)(*t.owned)[0] : -1 }; }
	Acc Access(int i) { switch (i) { case 0: return A(GetStoA()); case 1: return A(GetStoB()); case 2: return A(GetStoC()); case 3: return A(GetStoD()); case 4: return A(GetStoE()); default: return A(GetStoF()); } }
}

PBT_TEST(C22, history, 3000, pbt::F_NOFUZZ)
{
	struct Op { int kind, i; }; std::vector<Op> ops; size_t n = 1 + c.size(25);
	for (size_t k = 0; k < n; k++) { Op o; o.kind = (int)c.weighted({ 6, 2, 1 }); o.i = (int)c.draw(N); ops.push_back(o); }
	bool explicitEnd = c.boolean(); int reenter = (int)c.draw(3); if (reenter) c.note("finaliser of 5 calls %s", reenter == 1 ? "EnsureFinalized" : "FinalizeGlobalStorage");
	for (auto& o : ops) c.note("%s %d", o.kind == 0 ? "access" : o.kind == 1 ? "finalize one" : "FinalizeGlobalStorage", o.i);
	int recreated = 0, bigFinalize = 0; int init[N] = {}, fin[N] = {}; bool on[N] = {};
	// model first
	auto initM = [&](auto& self, int i) -> void { if (on[i]) return; if (fin[i]) recreated++; on[i] = true; init[i]++; if (i == 1) self(self, 0); if (i == 2) self(self, 1); if (i == 3) self(self, 4); if (i == 4) self(self, 3); };
	std::vector<std::vector<bool>> states; bool touched[N] = {}; std::vector<std::vector<bool>> known;
	for (auto& o : ops)
	{
		if (o.kind == 0) { initM(initM, o.i); for (int k = 0; k < N; k++) touched[k] |= on[k]; }
		else if (o.kind == 1) { if (touched[o.i] && on[o.i]) { on[o.i] = false; fin[o.i]++; if (o.i == 5 && reenter == 2) for (int k = 0; k < N; k++) if (on[k]) { on[k] = false; fin[k]++; } } }
		else { int q = 0; for (int k = 0; k < N; k++) if (on[k]) { q++; on[k] = false; fin[k]++; } if (q >= 3) bigFinalize++; }
		states.push_back(std::vector<bool>(on, on + N)); known.push_back(std::vector<bool>(touched, touched + N));
	}
	ChildRun<Sh> run;
	run.Run([&](Sh& s) -> int {
		sh = &s; s.reenter = reenter; GlobalStorage* refs[N] = {};
		auto bad = [&](size_t k, const char* what, int i) { snprintf(s.msg, sizeof(s.msg), "operation %zu: %s (storage %d)", k, what, i); return 1; };
		for (size_t k = 0; k < ops.size(); k++)
		{
			auto o = ops[k];
			if (o.kind == 0)
			{
				Acc a = Access(o.i); refs[o.i] = a.s;
				if (!a.s->IsInitialized()) return bad(k, "not initialised when accessed", o.i);
				if (!a.data || wtoi(*a.data) != 100 + o.i || a.owned != o.i) return bad(k, "the value of an accessed storage is wrong", o.i);
			}
			else if (o.kind == 1) { if (refs[o.i]) { refs[o.i]->EnsureFinalized(); if (refs[o.i]->IsInitialized()) return bad(k, "still initialised after EnsureFinalized", o.i); } else if (known[k][o.i]) { if (states[k][o.i] != (k ? states[k - 1][o.i] : false)) { refs[o.i] = Access(o.i).s; refs[o.i]->EnsureFinalized(); } } }
			else FinalizeGlobalStorage();
			if (s.doubleInit) return bad(k, "initialised twice, or read before it was initialised", s.doubleInit - 1);
			if (s.doubleFin) return bad(k, "finalised without being initialised", s.doubleFin - 1);
			for (int i = 0; i < N; i++)
			{
				if ((s.init[i] - s.fin[i] == 1) != states[k][i]) return bad(k, states[k][i] ? "should be initialised" : "should not be initialised", i);
				if (refs[i] && refs[i]->IsInitialized() != states[k][i]) return bad(k, "IsInitialized is wrong", i);
			}
		}
		if (explicitEnd) FinalizeGlobalStorage();
		s.stopped = true;
		return 0;
	});
	auto& s = *run.shared;
	PBT_CHECK(!s.msg[0], "%s", s.msg);
	PBT_CHECK(run.Exited() && run.Code() == 0 && s.stopped, "the process ended with %d", run.Code());
	PBT_CHECK(!s.doubleInit && !s.doubleFin, "storage %d was initialised or finalised twice", s.doubleInit + s.doubleFin);
	for (int i = 0; i < N; i++)
	{
		PBT_CHECK(s.init[i] == init[i], "storage %d was initialised %d times instead of %d", i, s.init[i], init[i]);
		PBT_CHECK(s.fin[i] == s.init[i], "storage %d was initialised %d times but finalised %d times when the process ended", i, s.init[i], s.fin[i]);
	}
	if (recreated >= 2 || bigFinalize) c.nontrivial();
}

// an initialisation that fails leaves the storage uninitialised: the failure reaches the user and the next access tries again
namespace
{
	struct FSh { int budget[3] = {}; int tried[3] = {}, init[3] = {}, fin[3] = {}; char msg[400] = {}; bool stopped = false; };
	FSh* fsh = nullptr;
	struct InitFailure { int which; };
	void Attempt(int i) { fsh->tried[i]++; if (fsh->budget[i] > 0) { fsh->budget[i]--; throw InitFailure{ i }; } }
}
#define FAILING_STORAGE(NAME, I, EXTRA) \
	BEGIN_GLOBAL_STORAGE_CLASS(NAME) \
		Ptr<WString> data; \
	INITIALIZE_GLOBAL_STORAGE_CLASS \
		EXTRA \
		Attempt(I); \
		data = Ptr(new WString(itow(200 + I))); \
		fsh->init[I]++; \
	FINALIZE_GLOBAL_STORAGE_CLASS \
		if (fsh) fsh->fin[I]++; \
		data = nullptr; \
	END_GLOBAL_STORAGE_CLASS(NAME)
namespace
{
	FAILING_STORAGE(FailA, 0, )
	FAILING_STORAGE(FailB, 1, GetFailA(); )
	FAILING_STORAGE(FailC, 2, )
	Acc FA(int i) { auto f = [](auto& t) { return Acc{ &t, t.data.Obj(), 0 }; }; return i == 0 ? f(GetFailA()) : i == 1 ? f(GetFailB()) : f(GetFailC()); }
}

PBT_TEST(C22, failing, 1500, pbt::F_NOFUZZ)
{
	struct Op { int kind, i; }; std::vector<Op> ops; size_t n = 1 + c.size(20); int failures[3]; for (auto& f : failures) f = (int)c.draw(4);
	for (size_t k = 0; k < n; k++) { Op o; o.kind = (int)c.weighted({ 6, 1, 1 }); o.i = (int)c.draw(3); ops.push_back(o); c.note("%s %d", o.kind == 0 ? "access" : o.kind == 1 ? "finalize one" : "FinalizeGlobalStorage", o.i); }
	int failed = 0, retried = 0, budget[3]; for (int i = 0; i < 3; i++) budget[i] = failures[i];
	ChildRun<FSh> run;
	// the model: which access fails with whose failure
	std::vector<int> expect; std::vector<std::vector<bool>> states; bool on[3] = {}; int init[3] = {}, fin[3] = {}; bool once[3] = {};
	for (auto& o : ops)
	{
		int e = -1;
		auto access = [&](auto& self, int i) -> bool { if (on[i]) return true; if (i == 1 && !self(self, 0)) return false; if (budget[i] > 0) { budget[i]--; e = i; once[i] = true; failed++; return false; } if (once[i]) retried++; on[i] = true; init[i]++; return true; };
		if (o.kind == 0) access(access, o.i);
		else for (int i = 0; i < 3; i++) if (on[i] && (o.kind == 2 || o.i == i)) { on[i] = false; fin[i]++; }
		expect.push_back(e); states.push_back(std::vector<bool>(on, on + 3));
	}
	run.Run([&](FSh& s) -> int {
		fsh = &s; GlobalStorage* refs[3] = {}; for (int i = 0; i < 3; i++) s.budget[i] = failures[i];
		auto bad = [&](size_t k, const char* what, int i) { snprintf(s.msg, sizeof(s.msg), "operation %zu: %s (storage %d)", k, what, i); return 1; };
		for (size_t k = 0; k < ops.size(); k++)
		{
			auto o = ops[k]; int e = -1;
			if (o.kind == 0)
			{
				try { Acc a = FA(o.i); refs[o.i] = a.s; if (!a.data || wtoi(*a.data) != 200 + o.i) return bad(k, "an accessed storage has no value", o.i); }
				catch (const InitFailure& f) { e = f.which; }
				if (e != expect[k]) return bad(k, e == -1 ? "no failure reached the user" : "an unexpected failure reached the user", o.i);
			}
			else if (o.kind == 1) { if (refs[o.i]) refs[o.i]->EnsureFinalized(); else if (k && states[k - 1][o.i]) { refs[o.i] = FA(o.i).s; refs[o.i]->EnsureFinalized(); } }
			else FinalizeGlobalStorage();
			for (int i = 0; i < 3; i++)
			{
				if ((s.init[i] - s.fin[i] == 1) != states[k][i] || s.init[i] < s.fin[i]) return bad(k, states[k][i] ? "should be initialised" : "should not be initialised", i);
				if (refs[i] && refs[i]->IsInitialized() != states[k][i]) return bad(k, "IsInitialized is wrong", i);
			}
		}
		s.stopped = true;
		return 0;
	});
	auto& s = *run.shared;
	PBT_CHECK(!s.msg[0], "%s", s.msg);
	PBT_CHECK(run.Exited() && run.Code() == 0 && s.stopped, "the process ended with %d", run.Code());
	for (int i = 0; i < 3; i++)
	{
		PBT_CHECK(s.init[i] == init[i], "storage %d was initialised %d times instead of %d", i, s.init[i], init[i]);
		PBT_CHECK(s.fin[i] == s.init[i], "storage %d was initialised %d times but finalised %d times when the process ended", i, s.init[i], s.fin[i]);
	}
	if (failed && retried) c.nontrivial();
}

// many storages, first accessed in any order
namespace
{
	const int MN = 40;
	struct MSh { int init[MN] = {}, fin[MN] = {}; char msg[400] = {}; bool stopped = false; };
	MSh* msh = nullptr;
}
#define MANY_STORAGE(NAME, I) \
	BEGIN_GLOBAL_STORAGE_CLASS(NAME) \
		Ptr<int> data; \
	INITIALIZE_GLOBAL_STORAGE_CLASS \
		data = Ptr(new int(I)); \
		if (msh) msh->init[I]++; \
	FINALIZE_GLOBAL_STORAGE_CLASS \
		data = nullptr; \
		if (msh) msh->fin[I]++; \
	END_GLOBAL_STORAGE_CLASS(NAME)
#define MANY4(P, B) MANY_STORAGE(P##0, B) MANY_STORAGE(P##1, B + 1) MANY_STORAGE(P##2, B + 2) MANY_STORAGE(P##3, B + 3)
#define GET4(P) Getter(GetMany##P##0), Getter(GetMany##P##1), Getter(GetMany##P##2), Getter(GetMany##P##3)
namespace
{
	MANY4(ManyA, 0) MANY4(ManyB, 4) MANY4(ManyC, 8) MANY4(ManyD, 12) MANY4(ManyE, 16) MANY4(ManyF, 20) MANY4(ManyG, 24) MANY4(ManyH, 28) MANY4(ManyI, 32) MANY4(ManyJ, 36)
	using G = std::function<std::pair<GlobalStorage*, int>()>;
	template<typename T> G Getter(T& (*f)()) { return [f] { T& t = f(); return std::pair<GlobalStorage*, int>(&t, t.data ? *t.data.Obj() : -1); }; }
}

PBT_TEST(C22, many, 1000, pbt::F_NOFUZZ)
{
	struct Op { int kind, i; }; std::vector<Op> ops; int order[MN]; for (int i = 0; i < MN; i++) order[i] = i; for (int i = MN - 1; i > 0; i--) std::swap(order[i], order[c.draw(i + 1)]);
	size_t count = 1 + c.draw(MN); size_t next = 0; int rounds = 1 + (int)c.draw(3); int all = 0;
	for (int r = 0; r < rounds; r++)
	{
		size_t upto = r + 1 == rounds ? count : next + c.draw(count - next + 1);
		for (; next < upto; next++) ops.push_back({ 0, order[next] });
		size_t extra = c.draw(6); for (size_t k = 0; k < extra && next; k++) ops.push_back({ (int)c.draw(2), order[c.draw(next)] });
		if (r + 1 < rounds || c.boolean()) { ops.push_back({ 2, 0 }); all++; }
	}
	c.note("%zu storages, %zu operations, FinalizeGlobalStorage %d times", count, ops.size(), all);
	int init[MN] = {}; bool on[MN] = {}; std::vector<std::vector<bool>> states; int most = 0;
	for (auto& o : ops)
	{
		if (o.kind == 0) { if (!on[o.i]) { on[o.i] = true; init[o.i]++; } }
		else if (o.kind == 1) on[o.i] = false;
		else { int q = 0; for (auto& x : on) { q += x; x = false; } most = std::max(most, q); }
		states.push_back(std::vector<bool>(on, on + MN));
	}
	ChildRun<MSh> run;
	run.Run([&](MSh& s) -> int {
		msh = &s; G get[MN] = { GET4(A), GET4(B), GET4(C), GET4(D), GET4(E), GET4(F), GET4(G), GET4(H), GET4(I), GET4(J) }; GlobalStorage* refs[MN] = {};
		auto bad = [&](size_t k, const char* what, int i) { snprintf(s.msg, sizeof(s.msg), "operation %zu: %s (storage %d)", k, what, i); return 1; };
		for (size_t k = 0; k < ops.size(); k++)
		{
			auto o = ops[k];
			if (o.kind == 0) { auto [p, v] = get[o.i](); refs[o.i] = p; if (v != o.i) return bad(k, "the value of an accessed storage is wrong", o.i); }
			else if (o.kind == 1) { if (refs[o.i]) refs[o.i]->EnsureFinalized(); }
			else FinalizeGlobalStorage();
			for (int i = 0; i < MN; i++)
			{
				if (s.init[i] - s.fin[i] != (states[k][i] ? 1 : 0)) return bad(k, states[k][i] ? "should be initialised" : "should not be initialised", i);
				if (refs[i] && refs[i]->IsInitialized() != states[k][i]) return bad(k, "IsInitialized is wrong", i);
			}
		}
		s.stopped = true;
		return 0;
	});
	auto& s = *run.shared;
	PBT_CHECK(!s.msg[0], "%s", s.msg);
	PBT_CHECK(run.Exited() && run.Code() == 0 && s.stopped, "the process ended with %d", run.Code());
	for (int i = 0; i < MN; i++) PBT_CHECK(s.init[i] == init[i] && s.fin[i] == init[i], "storage %d was initialised %d and finalised %d times instead of %d", i, s.init[i], s.fin[i], init[i]);
	if (most >= 8) c.nontrivial();
}
