#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sanitizer/allocator_interface.h>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:hard_rss_limit_mb=3000:"
		"max_allocation_size_mb=1500:allocator_may_return_null=0:handle_abort=1:handle_segv=1:symbolize=0:"
		"malloc_context_size=8:quarantine_size_mb=32:detect_container_overflow=1:strict_string_checks=0:"
		"check_initialization_order=0:print_legend=0:print_full_thread_history=0";
}
extern "C" const char* __ubsan_default_options()
{
	return "halt_on_error=1:exitcode=77:symbolize=0:print_stacktrace=0";
}
#endif
#if defined(__SANITIZE_THREAD__) || (defined(__has_feature) && __has_feature(thread_sanitizer))
extern "C" const char* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:symbolize=0:history_size=2";
}
#endif

namespace pbt
{
	// ---------------------------------------------------------------- registry

	static std::vector<SubTest*>& Registry() { static std::vector<SubTest*> r; return r; }
	SubTest::SubTest(const char* c, const char* n, void(*f)(Ctx&), unsigned q, unsigned fl)
		: check(c), name(n), fn(f), quick(q), flags(fl) { Registry().push_back(this); }
	static std::map<std::string, std::string>& Rules() { static std::map<std::string, std::string> r; return r; }
	RuleReg::RuleReg(const char* check, const char* text) { Rules()[check] = text; }

	// ---------------------------------------------------------------- shared state

	const size_t MAX_CHOICES = 1 << 16;
	const size_t MAX_LABELS = 512;
	const size_t HASH_SIZE = 1 << 23;
	const size_t NOTES = 1 << 16;

	struct Slot
	{
		std::atomic<uint64_t> ticks;         // cases started by this worker
		std::atomic<uint64_t> done;          // cases finished
		int subtest;
		uint64_t index;
		std::atomic<uint32_t> n;
		std::atomic<int> state;              // 0 running, 1 failed by oracle, 2 finished ok
		char msg[4096];
		size_t noteLen;
		char notes[NOTES];
		uint64_t choices[MAX_CHOICES];
	};
	struct Label { std::atomic<const char*> name; std::atomic<uint64_t> count; };
	struct SampleRec { std::atomic<int> used; int subtest; uint32_t n; uint64_t choices[2048]; };
	const size_t MAX_SAMPLES = 64;
	struct Shared
	{
		std::atomic<uint64_t> evaluations, nontrivial, distinct, hashFull;
		std::atomic<int> stop;
		Label labels[MAX_LABELS];
		std::atomic<uint64_t> perSub[256], perSubNon[256];
		std::atomic<int> sampleCount[256];
		SampleRec samples[MAX_SAMPLES];
		std::atomic<int> nextSample;
		std::atomic<uint64_t> table[HASH_SIZE];
		Slot slots[65];
	};
	static Shared* sh = nullptr;
	static Slot* slot = nullptr;     // slot of this process

	static double Now()
	{
		using namespace std::chrono;
		return duration<double>(steady_clock::now().time_since_epoch()).count();
	}

	// ---------------------------------------------------------------- choices

	static uint64_t Mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
	static uint64_t rngState;
	static uint64_t Next() { rngState += 0x9e3779b97f4a7c15ull; return Mix(rngState); }

	static bool replaying = false;
	static const uint64_t* replayBuf = nullptr;
	static size_t replayLen = 0, replayPos = 0;
	static bool fuzzing = false;
	static const uint8_t* fuzzBuf = nullptr;
	static size_t fuzzLen = 0, fuzzPos = 0;
	static bool enumFirst = false;
	static uint64_t enumIndex = 0;

	uint64_t Ctx::draw(uint64_t bound)
	{
		uint64_t v;
		if (bound == 0) bound = 1;
		if (enumFirst)
		{
			enumFirst = false;
			v = enumIndex % bound;
		}
		else if (replaying)
		{
			v = replayPos < replayLen ? replayBuf[replayPos] : 0;
			replayPos++;
			if (v >= bound) v = bound - 1;
		}
		else if (fuzzing)
		{
			uint64_t m = bound - 1; v = 0;
			while (m && fuzzPos < fuzzLen) { v = (v << 8) | fuzzBuf[fuzzPos++]; m >>= 8; }
			v %= bound;
		}
		else
		{
			v = (uint64_t)(((unsigned __int128)Next() * bound) >> 64);
		}
		uint32_t i = slot->n.load(std::memory_order_relaxed);
		if (i < MAX_CHOICES) { slot->choices[i] = v; slot->n.store(i + 1, std::memory_order_relaxed); }
		else v = 0;
		return v;
	}

	uint64_t Ctx::bits64()
	{
		uint64_t hi = draw(1ull << 32), lo = draw(1ull << 32);
		return (hi << 32) | lo;
	}

	size_t Ctx::weighted(std::initializer_list<unsigned> ws)
	{
		uint64_t total = 0;
		for (auto w : ws) total += w;
		uint64_t v = draw(total);
		size_t i = 0;
		for (auto w : ws) { if (v < w) return i; v -= w; i++; }
		return ws.size() - 1;
	}

	size_t Ctx::size(size_t max)
	{
		// cap first, then a value: gives many small and some large sizes
		size_t m = max;
		switch (draw(4))
		{
		case 0: m = std::min<size_t>(max, 3); break;
		case 1: m = std::min<size_t>(max, 8); break;
		case 2: m = std::min<size_t>(max, 20); break;
		}
		return (size_t)draw(m + 1);
	}

	void Ctx::label(const char* name)
	{
		if (!sh) return;
		size_t h = 1469598103934665603ull;
		for (const char* p = name; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
		for (size_t k = 0; k < MAX_LABELS; k++)
		{
			auto& l = sh->labels[(h + k) % MAX_LABELS];
			const char* e = nullptr;
			if (l.name.compare_exchange_strong(e, name) || e == name || strcmp(e, name) == 0)
			{
				l.count.fetch_add(1, std::memory_order_relaxed);
				return;
			}
		}
	}

	void Ctx::note(const char* fmt, ...)
	{
		if (!tracing) return;
		size_t left = NOTES - slot->noteLen;
		if (left < 2) return;
		va_list ap; va_start(ap, fmt);
		int k = vsnprintf(slot->notes + slot->noteLen, left - 1, fmt, ap);
		va_end(ap);
		if (k < 0) return;
		slot->noteLen += std::min<size_t>(k, left - 2);
		slot->notes[slot->noteLen++] = '\n';
	}

	void Ctx::fail(const char* fmt, ...)
	{
		char buf[4000];
		va_list ap; va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		throw Failure{ buf };
	}

	// ---------------------------------------------------------------- heap balance

	static std::atomic<int64_t> liveBlocks;
	static void OnMalloc(const volatile void* p, size_t) { if (p) liveBlocks.fetch_add(1, std::memory_order_relaxed); }
	static void OnFree(const volatile void* p) { if (p) liveBlocks.fetch_sub(1, std::memory_order_relaxed); }

	// ---------------------------------------------------------------- running one case in this process

	static void SetFail(const std::string& m)
	{
		strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
		slot->msg[sizeof(slot->msg) - 1] = 0;
		slot->state = 1;
	}

	static bool RunBody(SubTest* st, Ctx& c, int64_t& delta)
	{
		int64_t before = liveBlocks.load();
		bool ok = false;
		try
		{
			st->fn(c);
			ok = true;
		}
		catch (const Failure& f) { SetFail(f.msg); }
		catch (const std::exception& e) { SetFail(std::string("unexpected std::exception: ") + e.what()); }
		catch (...) { SetFail("unexpected exception escaped"); }
		delta = liveBlocks.load() - before;
		return ok;
	}

	// returns true if the case passed; the choices are in the slot
	static bool RunCase(SubTest* st, bool tracing, bool& nontrivial)
	{
		slot->n = 0; slot->noteLen = 0; slot->msg[0] = 0; slot->state = 0;
		int64_t delta = 0;
		{
			Ctx c; c.tracing = tracing;
			if (!RunBody(st, c, delta)) return false;
			nontrivial = c.isNontrivial;
		}
		if (delta != 0 && !(st->flags & F_NOLEAK))
		{
			// lazily initialised statics show up once; a real leak repeats on the same case
			static std::vector<uint64_t> copy;
			for (int k = 0; k < 2 && delta > 0; k++)
			{
				copy.assign(slot->choices, slot->choices + slot->n.load());
				bool sr = replaying; auto sb = replayBuf; auto sl = replayLen, sp = replayPos; bool sf = fuzzing;
				replaying = true; fuzzing = false; replayBuf = copy.data(); replayLen = copy.size(); replayPos = 0;
				slot->n = 0; slot->noteLen = 0;
				Ctx c; c.tracing = tracing;
				bool ok = RunBody(st, c, delta);
				replaying = sr; replayBuf = sb; replayLen = sl; replayPos = sp; fuzzing = sf;
				if (!ok) return false;
			}
			if (delta > 0)
			{
				char b[200];
				snprintf(b, sizeof(b), "memory leak: %lld heap block(s) still allocated after the case ended", (long long)delta);
				SetFail(b);
				return false;
			}
		}
		slot->state = 2;
		return true;
	}

	static uint64_t HashChoices(int sub)
	{
		uint64_t h = Mix(sub + 77);
		uint32_t n = slot->n;
		for (uint32_t i = 0; i < n; i++) h = Mix(h ^ slot->choices[i]) + i;
		return h ? h : 1;
	}

	static void CountNontrivial(int sub)
	{
		sh->nontrivial.fetch_add(1, std::memory_order_relaxed);
		sh->perSubNon[sub].fetch_add(1, std::memory_order_relaxed);
		uint64_t h = HashChoices(sub);
		for (size_t k = 0; k < 64; k++)
		{
			auto& e = sh->table[(h + k) % HASH_SIZE];
			uint64_t x = 0;
			if (e.compare_exchange_strong(x, h)) { sh->distinct.fetch_add(1, std::memory_order_relaxed); break; }
			if (x == h) break;
			if (k == 63) sh->hashFull.fetch_add(1, std::memory_order_relaxed);
		}
		if (sh->sampleCount[sub].load(std::memory_order_relaxed) < 3 && slot->n > 0 && slot->n <= 2048)
		{
			if (sh->sampleCount[sub].fetch_add(1) < 3)
			{
				int k = sh->nextSample.fetch_add(1);
				if (k < (int)MAX_SAMPLES)
				{
					auto& s = sh->samples[k];
					s.subtest = sub; s.n = slot->n;
					memcpy(s.choices, slot->choices, s.n * sizeof(uint64_t));
					s.used = 1;
				}
			}
		}
	}

	struct Plan { int sub; uint64_t cases; };

	static uint64_t seed = 1;
	static std::vector<SubTest*> subs;

	static uint64_t NameHash(const char* s)
	{
		uint64_t h = 1469598103934665603ull;
		for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
		return h;
	}

	static bool RunIndexed(int sub, uint64_t index, bool& nontrivial)
	{
		auto st = subs[sub];
		slot->subtest = sub; slot->index = index;
		slot->ticks.fetch_add(1);
		rngState = Mix(Mix(seed) ^ NameHash(st->name) ^ Mix(index + 0x1234567));
		enumFirst = (st->flags & F_ENUM) != 0; enumIndex = index;
		return RunCase(st, false, nontrivial);
	}

	static void Redirect(const char* path)
	{
		int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
		if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
		int in = open("/dev/null", O_RDONLY);
		if (in >= 0) { dup2(in, 0); if (in > 2) close(in); }
	}

	// worker w of nw: rounds over the plan. upto: stop after this many ticks (sequence replay), 0 = all
	static int WorkerBody(const std::vector<Plan>& plan, int w, int nw, uint64_t upto, double deadline)
	{
		const int ROUNDS = 16;
		uint64_t ticks = 0;
		for (int r = 0; r < ROUNDS; r++)
			for (auto& p : plan)
			{
				uint64_t from = p.cases * r / ROUNDS, to = p.cases * (r + 1) / ROUNDS;
				uint64_t first = from + ((uint64_t)w + nw - from % nw) % nw;
				for (uint64_t i = first; i < to; i += nw)
				{
					if (sh->stop.load(std::memory_order_relaxed)) return 0;
					if ((ticks & 15) == 0 && Now() > deadline) return 0;
					bool nt = false;
					if (!RunIndexed(p.sub, i, nt)) return 1;
					ticks++;
					sh->evaluations.fetch_add(1, std::memory_order_relaxed);
					sh->perSub[p.sub].fetch_add(1, std::memory_order_relaxed);
					if (nt) CountNontrivial(p.sub);
					slot->done.fetch_add(1, std::memory_order_relaxed);
					if (upto && ticks >= upto) return 0;
				}
			}
		return 0;
	}

	static double CpuOf(pid_t pid)
	{
		char path[64]; snprintf(path, sizeof(path), "/proc/%d/stat", (int)pid);
		FILE* f = fopen(path, "r");
		if (!f) return 0;
		char buf[2048]; size_t n = fread(buf, 1, sizeof(buf) - 1, f); buf[n] = 0; fclose(f);
		char* p = strrchr(buf, ')');
		if (!p) return 0;
		unsigned long ut = 0, stt = 0;
		sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stt);
		return (double)(ut + stt) / sysconf(_SC_CLK_TCK);
	}

	static std::string scratch = "/tmp";

	static std::string LogOf(int k) { return scratch + "/w" + std::to_string(k) + ".log"; }

	static std::string Summary(int k)
	{
		std::ifstream f(LogOf(k));
		std::string line, best;
		while (std::getline(f, line))
		{
			if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos
				|| line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("AddressSanitizer:") != std::string::npos
				|| line.find("terminate called") != std::string::npos)
			{ best = line; break; }
		}
		auto p = best.find("==ERROR: ");
		if (p != std::string::npos) best = best.substr(p + 9);
		return best.substr(0, 300);
	}

	struct Outcome
	{
		bool failed = false;
		bool timeout = false;
		std::string msg;
		std::string notes;
		std::vector<uint64_t> choices;
	};

	static std::string DescribeStatus(int status, int k)
	{
		std::string m;
		if (WIFSIGNALED(status)) m = std::string("process killed by signal ") + std::to_string(WTERMSIG(status));
		else m = "process exited with code " + std::to_string(WEXITSTATUS(status));
		auto s = Summary(k);
		if (s.size()) m += ": " + s;
		return m;
	}

	static void ChildSetup(int k)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		slot = &sh->slots[k];
		Redirect(LogOf(k).c_str());
		struct rlimit rl = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
	}

	// waits for pid while its slot makes progress. cpuLimit: CPU seconds one case may burn; wallLimit: wall seconds
	static int Supervise(pid_t pid, Slot* s, double cpuLimit, double wallLimit, bool& hang)
	{
		hang = false;
		uint64_t lastTick = s->ticks; double t0 = Now(), c0 = 0;
		int status = 0; useconds_t nap = 200;
		while (true)
		{
			pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) return status;
			usleep(nap);
			if (nap < 20000) nap = nap * 3 / 2;
			uint64_t t = s->ticks;
			if (t != lastTick) { lastTick = t; t0 = Now(); c0 = CpuOf(pid); continue; }
			if (Now() - t0 > cpuLimit * 0.9 && (CpuOf(pid) - c0 > cpuLimit || Now() - t0 > wallLimit))
			{
				hang = true;
				kill(-pid, SIGKILL); kill(pid, SIGKILL);
				waitpid(pid, &status, 0);
				return status;
			}
		}
	}

	const int ONESHOT = 64;

	static Outcome RunOnce(int sub, const std::vector<uint64_t>& choices, bool tracing, double cpuLimit, double wallLimit)
	{
		Slot* s = &sh->slots[ONESHOT];
		s->n = 0; s->noteLen = 0; s->msg[0] = 0; s->state = 0; s->ticks = 0;
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0)
		{
			ChildSetup(ONESHOT);
			slot->subtest = sub;
			replaying = true; replayBuf = choices.data(); replayLen = choices.size(); replayPos = 0;
			bool nt = false;
			bool ok = RunCase(subs[sub], tracing, nt);
			_exit(ok ? 0 : 1);
		}
		bool hang = false;
		int status = Supervise(pid, s, cpuLimit, wallLimit, hang);
		kill(-pid, SIGKILL);
		Outcome o;
		o.choices.assign(s->choices, s->choices + s->n.load());
		o.notes.assign(s->notes, s->noteLen);
		if (hang) { o.failed = o.timeout = true; o.msg = "case does not terminate (hang or runaway loop)"; }
		else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && s->state == 2) {}
		else
		{
			o.failed = true;
			o.msg = s->state == 1 ? std::string(s->msg) : DescribeStatus(status, ONESHOT);
		}
		return o;
	}

	static Outcome RunMany(int sub, const std::vector<uint64_t>& choices, bool tracing, double cpu, double wall, int tries)
	{
		Outcome o;
		for (int i = 0; i < tries; i++)
		{
			o = RunOnce(sub, choices, tracing, cpu, wall);
			if (o.failed) return o;
		}
		return o;
	}

	static bool Simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
	{
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	}

	static std::vector<uint64_t> Shrink(int sub, std::vector<uint64_t> best, double budget, int tries)
	{
		double end = Now() + budget;
		double cpu = 3, wall = 30;
		auto attempt = [&](const std::vector<uint64_t>& cand)
		{
			if (Now() > end) return false;
			if (!Simpler(cand, best)) return false;
			auto o = RunMany(sub, cand, false, cpu, wall, tries);
			if (!o.failed) return false;
			auto used = o.choices;
			if (used.size() > cand.size()) used.resize(cand.size());
			while (used.size() && used.back() == 0) used.pop_back();
			if (Simpler(used, best)) { best = used; return true; }
			best = cand;
			return true;
		};
		bool progress = true;
		while (progress && Now() < end)
		{
			progress = false;
			for (size_t k = 64; k >= 1; k /= 2)
				for (size_t i = best.size(); i-- > 0 && Now() < end;)
				{
					if (i + k > best.size()) continue;
					auto cand = best;
					cand.erase(cand.begin() + i, cand.begin() + i + k);
					if (attempt(cand)) progress = true;
				}
			for (size_t k = 16; k >= 1; k /= 2)
				for (size_t i = 0; i + k <= best.size() && Now() < end; i++)
				{
					auto cand = best; bool any = false;
					for (size_t j = i; j < i + k; j++) { any |= cand[j] != 0; cand[j] = 0; }
					if (any && attempt(cand)) progress = true;
				}
			for (size_t i = 0; i < best.size() && Now() < end; i++)
			{
				uint64_t lo = 0;
				while (i < best.size() && best[i] > lo && Now() < end)
				{
					uint64_t mid = lo + (best[i] - lo) / 2;
					auto cand = best; cand[i] = mid;
					if (attempt(cand)) progress = true; else lo = mid + 1;
				}
			}
		}
		return best;
	}

	static std::string Json(const std::string& s)
	{
		std::string o = "\"";
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
			else if (ch == '\n') o += "\\n";
			else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); o += b; }
			else o += (char)ch;
		}
		return o + "\"";
	}

	static std::map<std::string, std::string> args;
	static std::string Arg(const char* k, const char* d = "") { auto it = args.find(k); return it == args.end() ? d : it->second; }

	static void InitShared()
	{
		sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (sh == MAP_FAILED) { perror("mmap"); _exit(3); }
		slot = &sh->slots[ONESHOT];
	}

	static void WriteReplay(const std::string& path, const std::string& check, int sub, const std::vector<uint64_t>& ch,
		const std::string& msg, const std::string& notes, const std::string& mode, const std::string& extra)
	{
		std::ofstream f(path);
		f << "pbt-replay 1\nproperty " << check << "\nsubtest " << subs[sub]->check << "." << subs[sub]->name << "\nmode " << mode << "\n" << extra;
		f << "choices " << ch.size();
		for (auto v : ch) f << " " << v;
		f << "\n# failure: ";
		for (char x : msg) f << (x == '\n' ? ' ' : x);
		f << "\n";
		std::istringstream is(notes);
		std::string line;
		while (std::getline(is, line)) f << "# " << line << "\n";
	}

	static int FindSub(const std::string& full)
	{
		for (size_t i = 0; i < subs.size(); i++)
			if (std::string(subs[i]->check) + "." + subs[i]->name == full) return (int)i;
		return -1;
	}

	static std::map<std::string, double> LoadBudget(const std::string& path)
	{
		std::map<std::string, double> m;
		std::ifstream f(path);
		std::string k; double v;
		while (f >> k >> v) m[k] = v;
		return m;
	}

	static std::vector<Plan> MakePlan(const std::map<std::string, double>& budget, double scale)
	{
		std::vector<Plan> plan;
		for (size_t i = 0; i < subs.size(); i++)
		{
			if (subs[i]->flags & F_PROBE) { plan.push_back({ (int)i, 0 }); continue; }
			double n = subs[i]->quick;
			auto it = budget.find(std::string(subs[i]->check) + "." + subs[i]->name);
			if (it != budget.end()) n = it->second;
			auto itCheck = budget.find(subs[i]->check);
			if (itCheck != budget.end() && !(subs[i]->flags & F_ENUM)) n = n * itCheck->second;
			if (!(subs[i]->flags & F_ENUM)) n = n * scale;
			if (n < 1) n = 1;
			plan.push_back({ (int)i, (uint64_t)n });
		}
		return plan;
	}

	static int DoReplay(const std::string& path)
	{
		std::ifstream f(path);
		std::string line, full, mode = "case"; std::vector<uint64_t> ch;
		unsigned long long seqSeed = 1, seqUpto = 0; int seqWorker = 0, seqOf = 1; double seqScale = 1;
		while (std::getline(f, line))
		{
			std::istringstream is(line); std::string k; is >> k;
			if (k == "subtest") is >> full;
			else if (k == "mode") is >> mode;
			else if (k == "sequence") sscanf(line.c_str(), "sequence seed=%llu worker=%d of=%d upto=%llu scale=%lf", &seqSeed, &seqWorker, &seqOf, &seqUpto, &seqScale);
			else if (k == "choices") { size_t n; is >> n; uint64_t v; while (ch.size() < n && (is >> v)) ch.push_back(v); }
		}
		int sub = FindSub(full);
		if (sub < 0) { printf("unknown subtest %s\n", full.c_str()); return 3; }
		if (mode == "sequence")
		{
			seed = seqSeed;
			auto plan = MakePlan(LoadBudget(Arg("budget", "/dev/null")), seqScale);
			auto& z = sh->slots[0];
			z.ticks = 0; z.done = 0; z.state = 0; sh->stop = 0;
			pid_t pid = fork();
			if (pid == 0) { ChildSetup(0); _exit(WorkerBody(plan, seqWorker, seqOf, seqUpto, Now() + 3600)); }
			bool hang = false;
			int status = Supervise(pid, &z, 25, 240, hang);
			bool bad = hang || !WIFEXITED(status) || WEXITSTATUS(status) != 0;
			printf("%s: %s\n", bad ? "FAILED" : "passed", bad ? z.msg : "");
			return bad ? 1 : 0;
		}
		int tries = (subs[sub]->flags & F_SCHEDULE) ? 100 : 1;
		if (args.count("shrinkto"))
		{
			// minimises a failing case found by the coverage guided stage
			auto o = RunMany(sub, ch, false, 20, 240, tries);
			if (!o.failed) return 0;
			auto best = Shrink(sub, ch, 60, tries);
			for (int k = 0; k < 3; k++) { o = RunMany(sub, best, true, 20, 240, tries); if (!o.failed) return 0; }
			WriteReplay(Arg("shrinkto"), Arg("check"), sub, best, o.msg, o.notes, "case", "");
			printf("minimal: %s\n", o.msg.c_str());
			return 1;
		}
		auto o = RunMany(sub, ch, true, 20, 240, tries);
		fputs(o.notes.c_str(), stdout);
		printf("%s: %s\n", o.failed ? "FAILED" : "passed", o.msg.c_str());
		return o.failed ? 1 : 0;
	}

	static int Main(int argc, char** argv)
	{
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			auto p = a.find('=');
			if (a.rfind("--", 0) == 0) args[a.substr(2, p == std::string::npos ? p : p - 2)] = p == std::string::npos ? "1" : a.substr(p + 1);
		}
		std::string check = Arg("check");                 // property to report for
		std::string filter = Arg("filter", check.c_str());// property whose subtests run; "*" = all
		for (auto s : Registry())
			if (filter == "*" || filter == s->check || filter == std::string(s->check) + "." + s->name) subs.push_back(s);
		std::sort(subs.begin(), subs.end(), [](SubTest* a, SubTest* b) { int k = strcmp(a->check, b->check); return k ? k < 0 : strcmp(a->name, b->name) < 0; });
		scratch = Arg("scratch", "/tmp");
		seed = strtoull(Arg("seed", "1").c_str(), nullptr, 10);
		InitShared();
		__sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
		if (args.count("list")) { for (auto s : subs) printf("%s.%s %u\n", s->check, s->name, s->quick); return 0; }
		if (args.count("replay")) return DoReplay(Arg("replay"));

		double t0 = Now();
		auto budget = LoadBudget(Arg("budget", "/dev/null"));
		double scale = atof(Arg("scale", "1").c_str());
		double cap = atof(Arg("cap", "300").c_str());
		int nw = atoi(Arg("workers", "8").c_str());
		if (nw < 1) nw = 1;
		if (nw > 32) nw = 32;
		auto plan = MakePlan(budget, scale);

		std::vector<pid_t> pids(nw);
		std::vector<uint64_t> lastTick(nw); std::vector<double> lastT(nw), lastC(nw);
		fflush(stdout); fflush(stderr);
		for (int w = 0; w < nw; w++)
		{
			pid_t pid = fork();
			if (pid == 0)
			{
				ChildSetup(w);
				int r = WorkerBody(plan, w, nw, 0, t0 + cap);
				_exit(r);
			}
			pids[w] = pid; lastT[w] = Now();
		}
		int failedWorker = -1; std::string failMsg; bool failHang = false;
		int alive = nw;
		double cpuLimit = 25, wallLimit = 240;
		while (alive > 0)
		{
			usleep(20000);
			for (int w = 0; w < nw; w++)
			{
				if (pids[w] < 0) continue;
				int status = 0;
				pid_t r = waitpid(pids[w], &status, WNOHANG);
				bool bad = false; std::string msg;
				if (r == pids[w])
				{
					kill(-pids[w], SIGKILL);
					pids[w] = -1; alive--;
					if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
					{
						bad = true;
						msg = sh->slots[w].state == 1 ? std::string(sh->slots[w].msg) : DescribeStatus(status, w);
					}
				}
				else
				{
					auto& s = sh->slots[w];
					uint64_t t = s.ticks;
					if (t != lastTick[w]) { lastTick[w] = t; lastT[w] = Now(); lastC[w] = -1; }
					else
					{
						if (lastC[w] < 0) lastC[w] = CpuOf(pids[w]);
						double el = Now() - lastT[w];
						if (el > cpuLimit && (CpuOf(pids[w]) - lastC[w] > cpuLimit || el > wallLimit))
						{
							bad = true; failHang = failedWorker < 0; msg = "case does not terminate (hang or runaway loop)";
							kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0);
							pids[w] = -1; alive--;
						}
					}
				}
				if (bad && failedWorker < 0)
				{
					failedWorker = w; failMsg = msg; sh->stop = 1;
					double until = Now() + 5;
					(void)until;
				}
			}
			if (failedWorker >= 0)
			{
				// do not wait for others
				for (int w = 0; w < nw; w++) if (pids[w] > 0) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); pids[w] = -1; }
				alive = 0;
			}
		}

		uint64_t evals = sh->evaluations, nontriv = sh->nontrivial, distinct = sh->distinct;
		double exploreWall = Now() - t0;
		int verdict = 0; std::string replayPath, finalMsg;
		if (failedWorker >= 0)
		{
			auto& s = sh->slots[failedWorker];
			int sub = s.subtest; uint64_t index = s.index;
			std::vector<uint64_t> ch(s.choices, s.choices + s.n.load());
			uint64_t ticks = s.ticks;
			bool sched = (subs[sub]->flags & F_SCHEDULE) != 0;
			int tries = sched ? 60 : 1;
			dprintf(1, "failure in %s.%s case %llu: %s\n", subs[sub]->check, subs[sub]->name, (unsigned long long)index, failMsg.c_str());
			replayPath = Arg("replaydir", "/tmp") + "/" + check + "-" + subs[sub]->name + "-" + Arg("seed", "1") + ".replay";
			Outcome o = RunMany(sub, ch, false, failHang ? 20 : 20, 240, tries);
			if (o.failed)
			{
				auto best = Shrink(sub, ch, sched ? 40 : 60, sched ? 10 : 1);
				int good = 0; Outcome last;
				for (int k = 0; k < 3; k++) { auto x = RunMany(sub, best, true, 20, 240, tries); if (x.failed) { good++; last = x; } }
				if (good < 3) { best = ch; good = 0; for (int k = 0; k < 3; k++) { auto x = RunMany(sub, best, true, 20, 240, tries); if (x.failed) { good++; last = x; } } }
				if (good == 3 || sched)
				{
					if (last.msg.empty()) { last = o; }
					WriteReplay(replayPath, check, sub, best, last.msg, last.notes, "case", "");
					finalMsg = last.msg; verdict = 1;
				}
			}
			if (!verdict)
			{
				// the case alone does not fail: replay the whole history of the worker, three times
				int good = 0;
				for (int k = 0; k < 3; k++)
				{
					auto& z = sh->slots[failedWorker];
					z.ticks = 0; z.done = 0; z.state = 0; sh->stop = 0;
					pid_t pid = fork();
					if (pid == 0) { ChildSetup(failedWorker); _exit(WorkerBody(plan, failedWorker, nw, ticks, Now() + cap)); }
					bool hang = false;
					int status = Supervise(pid, &z, 25, 240, hang);
					if (hang || !WIFEXITED(status) || WEXITSTATUS(status) != 0) good++;
				}
				if (good == 3 || (sched && failMsg.size()))
				{
					char extra[400];
					snprintf(extra, sizeof(extra), "sequence seed=%llu worker=%d of=%d upto=%llu scale=%g\n", (unsigned long long)seed, failedWorker, nw, (unsigned long long)ticks, scale);
					WriteReplay(replayPath, check, sub, ch, failMsg, "the case fails only after the preceding cases of the same worker (state leaks between cases)", "sequence", extra);
					finalMsg = failMsg; verdict = 1;
				}
				else
				{
					printf("failure did not reproduce (%d/3), not reported\n", good);
					verdict = 2;
				}
			}
		}

		// samples
		std::vector<std::string> samples;
		if (verdict == 0)
		{
			int k = std::min<int>(sh->nextSample, MAX_SAMPLES);
			std::map<int, int> per;
			int maxPer = subs.size() <= 6 ? 2 : 1;
			for (int i = 0; i < k; i++)
			{
				auto& s = sh->samples[i];
				if (!s.used || per[s.subtest] >= maxPer) continue;
				per[s.subtest]++;
				std::vector<uint64_t> ch(s.choices, s.choices + s.n);
				auto o = RunOnce(s.subtest, ch, true, 20, 240);
				std::string notes = o.notes.substr(0, 1500);
				samples.push_back(std::string(subs[s.subtest]->name) + ": " + notes);
			}
		}
		std::ofstream f(Arg("out", "/dev/stdout"));
		f << "{\n\"evaluations\": " << evals << ",\n\"nontrivial\": " << nontriv << ",\n\"distinct_nontrivial\": " << distinct
			<< ",\n\"explore_wall_s\": " << exploreWall << ",\n\"verdict\": " << verdict << ",\n\"replay\": " << Json(replayPath)
			<< ",\n\"message\": " << Json(finalMsg) << ",\n\"rule\": " << Json(Rules()[check]) << ",\n\"per_subtest\": {";
		for (size_t i = 0; i < subs.size(); i++)
			f << (i ? ",\n" : "\n") << "  " << Json(std::string(filter == "*" ? std::string(subs[i]->check) + "." : std::string()) + subs[i]->name) << ": {\"cases\": " << sh->perSub[i] << ", \"nontrivial\": " << sh->perSubNon[i] << ", \"planned\": " << plan[i].cases << "}";
		f << "},\n\"labels\": {";
		std::map<std::string, uint64_t> ls;
		for (auto& l : sh->labels) if (l.name.load()) ls[l.name.load()] += l.count;
		bool first = true;
		for (auto& [k, v] : ls) { f << (first ? "\n" : ",\n") << "  " << Json(k) << ": " << v; first = false; }
		f << "},\n\"samples\": [";
		for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n" : "\n") << "  " << Json(samples[i]);
		f << "]\n}\n";
		f.close();
		if (verdict == 1) printf("minimal: %s\n", finalMsg.c_str());
		return verdict;
	}

#ifdef PBT_FUZZER
	// coverage guided entry: first byte selects the subtest, the rest is decoded into choices
	static void FuzzInit()
	{
		static bool done = false;
		if (done) return;
		done = true;
		const char* filter = getenv("PBT_CHECK");
		for (auto s : Registry()) if (!(s->flags & (F_ENUM | F_SCHEDULE | F_NOFUZZ | F_PROBE)) && (!filter || !strcmp(filter, s->check))) subs.push_back(s);
		std::sort(subs.begin(), subs.end(), [](SubTest* a, SubTest* b) { return strcmp(a->name, b->name) < 0; });
		InitShared();
		__sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
		if (const char* p = getenv("PBT_RECORD"))
		{
			int fd = open(p, O_CREAT | O_RDWR | O_TRUNC, 0644);
			if (ftruncate(fd, sizeof(Slot)) == 0)
				slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		}
	}
	int FuzzOne(const uint8_t* data, size_t size)
	{
		FuzzInit();
		if (size < 1 || subs.empty()) return 0;
		int sub = data[0] % subs.size();
		slot->subtest = sub;
		fuzzing = true; fuzzBuf = data + 1; fuzzLen = size - 1; fuzzPos = 0;
		bool nt = false;
		if (!RunCase(subs[sub], false, nt))
		{
			fprintf(stderr, "ORACLE-FAILURE %s.%s %s\n", subs[sub]->check, subs[sub]->name, slot->msg);
			fflush(stderr);
			abort();
		}
		return 0;
	}
	// prints "subtest nchoices choices..." of a recorded slot file
	void FuzzDump(const char* path)
	{
		FuzzInit();
		int fd = open(path, O_RDONLY);
		auto s = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ, MAP_SHARED, fd, 0);
		printf("%s.%s %u", subs[s->subtest]->check, subs[s->subtest]->name, s->n.load());
		for (uint32_t i = 0; i < s->n; i++) printf(" %llu", (unsigned long long)s->choices[i]);
		printf("\n"); fflush(stdout);
	}
#endif
}

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) { return pbt::FuzzOne(data, size); }
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	if (const char* p = getenv("PBT_DUMP")) { pbt::FuzzDump(p); _exit(0); }
	return 0;
}
#else
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
