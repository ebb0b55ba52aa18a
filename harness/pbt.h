// Small property-based testing engine: every random decision of a case is a "choice" drawn from a
// Ctx, so a case is fully described by its list of choices. Failing lists are shrunk and become the
// replay file. See pbt.cpp for the process model (forked workers, crash/hang/leak detection).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt
{
	struct Failure { std::string msg; };

	class Ctx
	{
	public:
		bool tracing = false;

		// uniform in [0, bound), 0 is the simplest value
		uint64_t draw(uint64_t bound);
		// inclusive range, shrinks to lo
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
		bool boolean() { return draw(2) == 1; }
		// true with probability num/den, shrinks to false
		bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
		// uniform 64 bit value (shrinks to 0)
		uint64_t bits64();
		// index drawn by weight; index 0 is the simplest
		size_t weighted(std::initializer_list<unsigned> ws);
		// a size: mostly small, sometimes up to max
		size_t size(size_t max);

		// bookkeeping
		void label(const char* name);          // name must be a literal
		void nontrivial() { isNontrivial = true; }
		void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
		[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

		bool isNontrivial = false;
	};

	struct SubTest
	{
		const char* check;     // property id
		const char* name;
		void(*fn)(Ctx&);
		unsigned quick;        // default number of cases for the quick tier
		unsigned flags;
		SubTest(const char* c, const char* n, void(*f)(Ctx&), unsigned q, unsigned fl);
	};
	enum : unsigned
	{
		F_NONE = 0,
		F_NOLEAK = 1,      // do not apply the heap balance oracle
		F_SCHEDULE = 2,    // schedule dependent: replay tries many times
		F_ENUM = 4,        // exhaustive: case index is the first choice, the count is the size of the space
		F_NOFUZZ = 8,      // not part of the coverage guided stage (starts processes, or is too slow)
		F_PROBE = 16,      // only run through a replay file: reproduces a known finding
	};
	const char* Rule(const char* check); // registered rule text
	struct RuleReg { RuleReg(const char* check, const char* text); };

	// the index of the case, only meaningful for F_ENUM subtests (recorded as a choice)
}

#define PBT_TEST(CHECK, NAME, QUICK, FLAGS) \
	static void pbt_##CHECK##_##NAME(::pbt::Ctx& c); \
	static ::pbt::SubTest pbt_reg_##CHECK##_##NAME(#CHECK, #NAME, &pbt_##CHECK##_##NAME, QUICK, FLAGS); \
	static void pbt_##CHECK##_##NAME(::pbt::Ctx& c)

#define PBT_RULE(CHECK, TEXT) static ::pbt::RuleReg pbt_rule_##CHECK(#CHECK, TEXT)

#define PBT_CHECK(COND, ...) do { if (!(COND)) c.fail("%s:%d: %s | " , __FILE_NAME__, __LINE__, #COND __VA_OPT__(), ""); } while (0)
#undef PBT_CHECK
#define PBT_CHECK(COND, FMT, ...) do { if (!(COND)) c.fail("%s:%d [" #COND "] " FMT, __FILE_NAME__, __LINE__ __VA_OPT__(,) __VA_ARGS__); } while (0)
