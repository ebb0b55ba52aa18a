// C21: dates and times
#include "util.h"
#include <time.h>
#include <stdlib.h>
using namespace vl;
using pbt::Ctx;

PBT_RULE(C21,
	"Each case picks a time zone (fixed offsets including fractions of an hour, and zones with daylight saving time of an hour or half an hour on both hemispheres) and one to three date times (years 1601 to 2500 in fixed zones, 1971 to 2400 in zones with daylight saving time, biased to month ends, leap days, "
	"midnights, the epoch and the hours around a switch, including times the clocks show twice) and compares fields, day of week, reconstruction, order, Forward/Backward and UTC/local conversion with independent calendar arithmetic. "
	"Non-trivial: the moment is on a month boundary or leap day, before 1970, or the zone is in daylight saving time.");

namespace
{
	// days since 1970-01-01 of a proleptic Gregorian date, by counting (independent of the library and of libc)
	bool Leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
	const int MD[12] = { 31,28,31,30,31,30,31,31,30,31,30,31 };
	int DaysIn(long y, int m) { return MD[m - 1] + (m == 2 && Leap(y)); }
	long YearStart(long y)
	{
		auto leaps = [](long n) { return n / 4 - n / 100 + n / 400; }; // leap years in 1..n
		return (y - 1970) * 365 + leaps(y - 1) - leaps(1969);
	}
	long Days(long y, int m, int d) { long r = YearStart(y); for (int k = 1; k < m; k++) r += DaysIn(y, k); return r + d - 1; }
	struct Civil { long y; int mo, d, h, mi, s, ms; };
	long long Ms(const Civil& t) { return ((((long long)Days(t.y, t.mo, t.d) * 24 + t.h) * 60 + t.mi) * 60 + t.s) * 1000 + t.ms; }
	long long FloorDiv(long long a, long long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
	Civil FromMs(long long ms)
	{
		Civil t; long long days = FloorDiv(ms, 86400000), r = ms - days * 86400000;
		t.ms = (int)(r % 1000); r /= 1000; t.s = (int)(r % 60); r /= 60; t.mi = (int)(r % 60); t.h = (int)(r / 60);
		long y = 1970 + (long)FloorDiv(days, 366); while (YearStart(y + 1) <= days) y++; while (YearStart(y) > days) y--;
		t.y = y; long rest = (long)days - YearStart(y); t.mo = 1; while (rest >= DaysIn(y, t.mo)) { rest -= DaysIn(y, t.mo); t.mo++; } t.d = (int)rest + 1; return t;
	}
	int Weekday(long days) { long w = (4 + days) % 7; return (int)(w < 0 ? w + 7 : w); } // 1970-01-01 was a Thursday
	// month m, n-th (5 = last) Sunday
	long NthSunday(long y, int m, int n) { long first = Days(y, m, 1); long d = first + (7 - Weekday(first)) % 7 + (n - 1) * 7; while (d >= first + DaysIn(y, m)) d -= 7; return d; }

	// std: minutes east of UTC; daylight saving time (dst minutes) starts m1/n1 at 2:00 standard time, ends m2/n2 at endHour daylight time
	struct Zone { const char* tz; int std; int dst = 0, m1 = 0, n1 = 0, m2 = 0, n2 = 0, endHour = 2; };
	const Zone zones[] = {
		{ "UTC0", 0 }, { "AAA-8", 480 }, { "BBB8", -480 }, { "CCC-5:30", 330 }, { "DDD3:30", -210 }, { "EEE-14", 840 }, { "FFF12", -720 }, { "GGG-5:45", 345 },
		{ "EST5EDT,M3.2.0,M11.1.0", -300, 60, 3, 2, 11, 1 }, { "CET-1CEST,M3.5.0,M10.5.0/3", 60, 60, 3, 5, 10, 5, 3 },
		{ "AEST-10AEDT,M10.1.0,M4.1.0/3", 600, 60, 10, 1, 4, 1, 3 }, { "NST3:30NDT,M3.2.0,M11.1.0", -210, 60, 3, 2, 11, 1 },
		{ "LHST-10:30LHDT-11,M10.1.0,M4.1.0", 630, 30, 10, 1, 4, 1 }, { "NZST-12NZDT,M9.5.0,M4.1.0/3", 720, 60, 9, 5, 4, 1, 3 }, { "PST8PDT,M3.2.0,M11.1.0", -480, 60, 3, 2, 11, 1 },
	};
	// the UTC moment of a switch in a year
	long long SwitchOn(const Zone& z, long y) { return (long long)NthSunday(y, z.m1, z.n1) * 86400000 + (2 * 60 - z.std) * 60000ll; }
	long long SwitchOff(const Zone& z, long y) { return (long long)NthSunday(y, z.m2, z.n2) * 86400000 + (z.endHour * 60 - z.std - z.dst) * 60000ll; }
	// minutes east of UTC at a UTC moment
	int OffsetAt(const Zone& z, long long utc)
	{
		if (!z.dst) return z.std;
		long y = FromMs(utc + z.std * 60000ll).y; long long on = SwitchOn(z, y), off = SwitchOff(z, y); bool in = on < off ? utc >= on && utc < off : utc >= on || utc < off; return z.std + (in ? z.dst : 0);
	}
	// the UTC moments a local time stands for: none if the clocks skip it, two if they show it twice
	std::vector<long long> Moments(const Zone& z, const Civil& t) { std::vector<long long> r; for (int o : { z.std + z.dst, z.std }) { long long u = Ms(t) - o * 60000ll; if (OffsetAt(z, u) == o && (r.empty() || r[0] != u)) r.push_back(u); } return r; }
	bool InRange(const Zone& z, const Civil& t) { return z.dst ? t.y >= 1971 && t.y <= 2400 : t.y >= 1601 && t.y <= 2500; }
	bool Near(const Zone& z, long long utc) { if (!z.dst) return false; long y = FromMs(utc).y; for (long k = y - 1; k <= y + 1; k++) if (std::llabs(utc - SwitchOn(z, k)) < 86400000ll || std::llabs(utc - SwitchOff(z, k)) < 86400000ll) return true; return false; }
	const Zone& PickZone(Ctx& c) { const Zone& z = zones[c.draw(sizeof(zones) / sizeof(*zones))]; setenv("TZ", z.tz, 1); tzset(); return z; }

	Civil GenCivil(Ctx& c, const Zone& z)
	{
		Civil t; long lo = z.dst ? 1971 : 1601, hi = z.dst ? 2400 : 2500;
		switch (c.draw(4)) { case 0: t.y = 1970 + (long)c.draw(80); break; case 1: t.y = 1900 + 100 * (long)c.draw(6); break; case 2: t.y = 1968 + (long)c.draw(5); break; default: t.y = lo + (long)c.draw(hi - lo + 1); }
		if (t.y < lo) t.y = lo; if (t.y > hi) t.y = hi;
		if (z.dst && c.boolean())
		{
			// around a switch: minutes, hours, or as far as the distance to UTC
			if (t.y == lo) t.y++; if (t.y == hi) t.y--;
			long long sw = c.boolean() ? SwitchOn(z, t.y) : SwitchOff(z, t.y), span = c.boolean() ? 2 * 3600000ll : 15 * 3600000ll, step = c.boolean() ? 60000 * 30 : 1;
			return FromMs(sw + z.std * 60000ll - span + (long long)c.draw(2 * span / step + 1) * step - (c.chance(1, 5) ? 1 : 0));
		}
		t.mo = 1 + (int)c.draw(12); int dim = DaysIn(t.y, t.mo); t.d = c.draw(3) == 2 ? dim : c.draw(4) == 3 ? 1 : 1 + (int)c.draw(dim);
		t.h = (int)c.draw(24); t.mi = (int)c.draw(60); t.s = (int)c.draw(60); t.ms = c.boolean() ? (int)c.draw(1000) : 0;
		if (c.chance(1, 4)) { t.h = c.boolean() ? 23 : 0; t.mi = t.h ? 59 : 0; t.s = t.mi; t.ms = t.h ? 999 : 0; }
		return t;
	}
	DateTime Make(const Civil& t) { return DateTime::FromDateTime(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); }
	void Fields(Ctx& c, const DateTime& d, const Civil& t, const char* what)
	{
		PBT_CHECK(d.year == t.y && d.month == t.mo && d.day == t.d && d.hour == t.h && d.minute == t.mi && d.second == t.s && d.milliseconds == t.ms,
			"%s: %d-%02d-%02d %02d:%02d:%02d.%03d instead of %ld-%02d-%02d %02d:%02d:%02d.%03d", what, (int)d.year, (int)d.month, (int)d.day, (int)d.hour, (int)d.minute, (int)d.second, (int)d.milliseconds, t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms);
		int w = Weekday(Days(t.y, t.mo, t.d)); PBT_CHECK(d.dayOfWeek == w, "%s: %ld-%02d-%02d is day %d of the week, reported as %d", what, t.y, t.mo, t.d, w, (int)d.dayOfWeek);
	}
	void Mark(Ctx& c, const Zone& z, const Civil& t) { auto ms = Moments(z, t); if (t.d == 1 || t.d == DaysIn(t.y, t.mo) || t.y < 1970 || ms.size() != 1 || OffsetAt(z, ms[0]) != z.std) c.nontrivial(); if (ms.size() != 1 || Near(z, ms[0])) c.label("within a day of a switch"); c.note("%s %ld-%02d-%02d %02d:%02d:%02d.%03d", z.tz, t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms); }
	// a date time at a UTC moment, reached from a distant one, and its local fields
	DateTime At(const Zone& z, long long utc, Civil& local)
	{
		static const Civil base{ 2000, 1, 15, 12, 0, 0, 0 }; long long b = Moments(z, base)[0]; local = FromMs(utc + OffsetAt(z, utc) * 60000ll); DateTime d = Make(base);
		return utc >= b ? d.Forward((vuint64_t)(utc - b)) : d.Backward((vuint64_t)(b - utc));
	}
}

PBT_TEST(C21, fields, 40000, pbt::F_NONE)
{
	const Zone& z = PickZone(c); Civil t = GenCivil(c, z); Mark(c, z, t);
	auto moments = Moments(z, t); if (moments.empty()) { c.label("skipped by the clocks"); return; } if (moments.size() > 1) c.label("shown twice by the clocks");
	DateTime d = Make(t); Fields(c, d, t, "FromDateTime");
	{ const DateTime z0; PBT_CHECK(z0.year == 0 && z0.month == 0 && z0.day == 0 && z0.hour == 0 && z0.minute == 0 && z0.second == 0 && z0.milliseconds == 0 && z0.dayOfWeek == 0 && z0.osMilliseconds == 0 && z0.osInternal == 0, "a default date time is not all zero"); }
	DateTime e = DateTime::FromOSInternal(d.osInternal); Fields(c, e, t, "FromOSInternal");
	PBT_CHECK(e == d && e.osInternal == d.osInternal && e.osMilliseconds == d.osMilliseconds, "a date time rebuilt from osInternal differs");
	Civil l; bool same = false; for (auto u : moments) same = same || At(z, u, l) == d; PBT_CHECK(same, "the date time is another moment");
	if (t.h == 0 && t.mi == 0 && t.s == 0 && t.ms == 0) { DateTime f = DateTime::FromDateTime(t.y, t.mo, t.d); PBT_CHECK(f == d, "default arguments"); Fields(c, f, t, "FromDateTime(year, month, day)"); }
}

PBT_TEST(C21, order, 30000, pbt::F_NONE)
{
	const Zone& z = PickZone(c); Civil t[2]; t[0] = GenCivil(c, z); auto m0 = Moments(z, t[0]); if (m0.empty()) return; long long a = m0[c.draw(m0.size())], b;
	if (c.boolean()) { t[1] = GenCivil(c, z); auto m1 = Moments(z, t[1]); if (m1.empty()) return; b = m1[c.draw(m1.size())]; }
	else { b = a + (c.boolean() ? (long long)c.draw(2000) - 1000 : c.boolean() ? (long long)c.draw(15000000) - 7500000 : (long long)c.draw(400000000000ull) - 200000000000ll); t[1] = FromMs(b + OffsetAt(z, b) * 60000ll); }
	if (!InRange(z, t[1])) return;
	Mark(c, z, t[0]); Mark(c, z, t[1]);
	Civil l0, l1; DateTime x = m0.size() == 1 && c.boolean() ? Make(t[0]) : At(z, a, l0), y = At(z, b, l1); Fields(c, x, t[0], "the first date time"); Fields(c, y, t[1], "the second date time");
	int e = a < b ? -1 : a > b ? 1 : 0; auto o = x <=> y; int g = o < 0 ? -1 : o > 0 ? 1 : 0;
	PBT_CHECK(g == e, "order is %d instead of %d", g, e);
	PBT_CHECK((x == y) == (e == 0) && (x < y) == (e < 0) && (x > y) == (e > 0) && (x <= y) == (e <= 0) && (x >= y) == (e >= 0), "comparison operators contradict <=>");
	if (a >= 0 && b >= 0) PBT_CHECK((x.osMilliseconds < y.osMilliseconds) == (e < 0) && (x.osInternal < y.osInternal) == (e < 0), "osMilliseconds and osInternal are not in chronological order");
}
// documented for the raw fields, but before 1970 they wrap around: known finding
PBT_TEST(C21, raw_order_before_1970, 1, pbt::F_PROBE)
{
	setenv("TZ", "UTC0", 1); tzset();
	DateTime x = DateTime::FromDateTime(1969, 12, 31), y = DateTime::FromDateTime(1970, 1, 2); c.draw(2);
	PBT_CHECK(x.osMilliseconds < y.osMilliseconds && x.osInternal < y.osInternal, "osMilliseconds of 1969-12-31 is larger than of 1970-01-02");
}

PBT_TEST(C21, move, 30000, pbt::F_NONE)
{
	const Zone& z = PickZone(c); Civil t = GenCivil(c, z); auto moments = Moments(z, t); if (moments.empty()) return; long long from = moments[c.draw(moments.size())];
	uint64_t delta; switch (c.draw(6)) { case 0: delta = c.draw(2000); break; case 1: delta = c.draw(200000); break; case 2: delta = 86400000ull * c.draw(1000); break; case 3: delta = c.draw(1ull << 33); break; case 4: delta = 60000ull * c.draw(200); break; default: delta = c.draw(1ull << 42); }
	bool back = c.boolean(); long long utc = from + (back ? -(long long)delta : (long long)delta); Civil r = FromMs(utc + OffsetAt(z, utc) * 60000ll);
	if (!InRange(z, r)) return;
	Mark(c, z, t); c.note("%s %llu ms", back ? "back" : "forward", (unsigned long long)delta); if (OffsetAt(z, from) != OffsetAt(z, utc)) c.label("across a switch");
	Civil l; DateTime d = moments.size() == 1 ? Make(t) : At(z, from, l); DateTime e = back ? d.Backward(delta) : d.Forward(delta);
	Fields(c, e, r, back ? "Backward" : "Forward"); Fields(c, d, t, "the moved date time itself");
	PBT_CHECK(delta == 0 || (back ? e < d : e > d), "moving by %llu ms does not change the order", (unsigned long long)delta);
	DateTime f = back ? e.Forward(delta) : e.Backward(delta); PBT_CHECK(f == d, "moving there and back"); Fields(c, f, t, "there and back");
	DateTime h = back ? d.Backward(delta / 3).Backward(delta - delta / 3) : d.Forward(delta / 3).Forward(delta - delta / 3); PBT_CHECK(h == e, "moving in two steps"); Fields(c, h, r, "two steps");
}

// A UTC time is kept as the local time with the same fields, so a UTC time whose fields the local clocks skip cannot be kept: see the known findings.
PBT_TEST(C21, zones, 30000, pbt::F_NONE)
{
	const Zone& z = PickZone(c); Civil t = GenCivil(c, z); auto moments = Moments(z, t); if (moments.empty()) return; Mark(c, z, t); long long at = moments[c.draw(moments.size())];
	Civil u = FromMs(at), l; DateTime d = At(z, at, l); Fields(c, d, t, "the local time");
	if (InRange(z, u) && Moments(z, u).size())
	{
		DateTime e = d.ToUtcTime(); Fields(c, e, u, "ToUtcTime");
		DateTime f = e.ToLocalTime(); Fields(c, f, t, "ToUtcTime().ToLocalTime()"); PBT_CHECK(f == d, "conversion to UTC and back");
	}
	// the same fields as a UTC time
	Civil v = FromMs(Ms(t) + OffsetAt(z, Ms(t)) * 60000ll); if (!InRange(z, v)) return;
	DateTime g = d.ToLocalTime(); Fields(c, g, v, "ToLocalTime");
	DateTime h = g.ToUtcTime(); Fields(c, h, t, "ToLocalTime().ToUtcTime()");
}
PBT_TEST(C21, utc_skipped_by_local_clocks, 1, pbt::F_PROBE)
{
	setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1); tzset(); c.draw(2);
	DateTime d = DateTime::FromDateTime(2021, 3, 13, 21, 30).ToUtcTime(); // 2021-03-14 02:30 UTC; local clocks skip 2:00 to 3:00 on that day
	PBT_CHECK(d.day == 14 && d.hour == 2 && d.minute == 30, "2021-03-14 02:30 UTC is reported as %02d:%02d", (int)d.hour, (int)d.minute);
}

PBT_TEST(C21, now, 300, pbt::F_NOFUZZ)
{
	const Zone& z = PickZone(c);
	timespec a, b; clock_gettime(CLOCK_REALTIME, &a); DateTime u = DateTime::UtcTime(), l = DateTime::LocalTime(); clock_gettime(CLOCK_REALTIME, &b);
	long long lo = a.tv_sec * 1000ll + a.tv_nsec / 1000000 - 50, hi = b.tv_sec * 1000ll + b.tv_nsec / 1000000 + 50;
	int off = OffsetAt(z, lo); if (off != OffsetAt(z, hi) || Moments(z, FromMs(lo)).empty() || Moments(z, FromMs(hi)).empty()) return;
	auto civil = [](const DateTime& d) { return Civil{ (long)d.year, (int)d.month, (int)d.day, (int)d.hour, (int)d.minute, (int)d.second, (int)d.milliseconds }; };
	PBT_CHECK(Ms(civil(u)) >= lo && Ms(civil(u)) <= hi, "UtcTime is %lld ms off in %s", Ms(civil(u)) - lo, z.tz);
	PBT_CHECK(Ms(civil(l)) >= lo + off * 60000ll && Ms(civil(l)) <= hi + off * 60000ll, "LocalTime is %lld ms off in %s", Ms(civil(l)) - lo - off * 60000ll, z.tz);
	Fields(c, u, civil(u), "UtcTime"); Fields(c, l, civil(l), "LocalTime"); c.note("%s", z.tz); if (off) c.nontrivial();
}

// every day of 1601..2500
PBT_TEST(C21, every_day, 900, pbt::F_ENUM)
{
	long y = 1601 + (long)c.draw(900); setenv("TZ", "UTC0", 1); tzset(); c.note("year %ld", y); c.nontrivial(); DateTime prev = Make({ y - 1, 12, 31, 23, 59, 59, 999 });
	for (int m = 1; m <= 12; m++) for (int d = 1; d <= DaysIn(y, m); d++)
	{
		Civil t{ y, m, d, 0, 0, 0, 0 }; DateTime x = Make(t); Fields(c, x, t, "FromDateTime"); PBT_CHECK(x > prev, "%ld-%02d-%02d is not after the day before", y, m, d);
		DateTime n = prev.Forward(1); Fields(c, n, t, "the last millisecond of a day plus one"); PBT_CHECK(n == x, "the last millisecond of a day plus one is not the next day");
		Civil e{ y, m, d, 23, 59, 59, 999 }; prev = Make(e); Fields(c, prev, e, "end of day");
	}
}

namespace
{
	// an injected implementation: everything must go through it, and only through it
	class Fake : public Object, public virtual IDateTimeImpl
	{
	public:
		std::vector<std::string> calls; vuint64_t result = 0;
		void Log(const char* n, std::initializer_list<long long> as) { std::string s = n; for (auto a : as) s += " " + std::to_string(a); calls.push_back(s); }
		DateTime FromDateTime(vint y, vint mo, vint d, vint h, vint mi, vint s, vint ms) override { Log("FromDateTime", { y, mo, d, h, mi, s, ms }); DateTime t; t.osInternal = result; t.year = y; return t; }
		DateTime FromOSInternal(vuint64_t os) override { Log("FromOSInternal", { (long long)os }); DateTime t; t.osInternal = os; t.osMilliseconds = os + 1; return t; }
		vuint64_t LocalTime() override { Log("LocalTime", {}); return result; }
		vuint64_t UtcTime() override { Log("UtcTime", {}); return result; }
		vuint64_t LocalToUtcTime(vuint64_t os) override { Log("LocalToUtcTime", { (long long)os }); return result; }
		vuint64_t UtcToLocalTime(vuint64_t os) override { Log("UtcToLocalTime", { (long long)os }); return result; }
		vuint64_t Forward(vuint64_t os, vuint64_t ms) override { Log("Forward", { (long long)os, (long long)ms }); return result; }
		vuint64_t Backward(vuint64_t os, vuint64_t ms) override { Log("Backward", { (long long)os, (long long)ms }); return result; }
	};
}
PBT_TEST(C21, injected, 10000, pbt::F_NONE)
{
	setenv("TZ", "UTC0", 1); tzset();
	Fake fake; struct Un { ~Un() { InjectDateTimeImpl(nullptr); } } un;
	DateTime real = DateTime::FromDateTime(2020, 1, 1);
	InjectDateTimeImpl(&fake);
	size_t steps = 1 + c.size(8);
	for (size_t s = 0; s < steps; s++)
	{
		fake.calls.clear(); fake.result = c.bits64(); vuint64_t ms = c.bits64(); DateTime in; in.osInternal = c.bits64(); DateTime out; std::string expect; vuint64_t os = in.osInternal;
		int op = (int)c.draw(8); auto S = [](long long x) { return std::to_string(x); };
		switch (op)
		{
		case 0: out = DateTime::LocalTime(); expect = "LocalTime"; break;
		case 1: out = DateTime::UtcTime(); expect = "UtcTime"; break;
		case 2: out = in.ToLocalTime(); expect = "UtcToLocalTime " + S((long long)os); break;
		case 3: out = in.ToUtcTime(); expect = "LocalToUtcTime " + S((long long)os); break;
		case 4: out = in.Forward(ms); expect = "Forward " + S((long long)os) + " " + S((long long)ms); break;
		case 5: out = in.Backward(ms); expect = "Backward " + S((long long)os) + " " + S((long long)ms); break;
		case 6: out = DateTime::FromOSInternal(os); expect = "FromOSInternal " + S((long long)os); break;
		default: out = DateTime::FromDateTime(1, 2, 3, 4, 5, 6, 7); expect = "FromDateTime 1 2 3 4 5 6 7"; PBT_CHECK(out.year == 1 && out.osInternal == fake.result, "result of the injected implementation is not used");
		}
		PBT_CHECK(fake.calls.size() >= 1 && fake.calls[0] == expect, "operation %d called %s instead of %s", op, fake.calls.size() ? fake.calls[0].c_str() : "nothing", expect.c_str());
		if (op < 6) PBT_CHECK(fake.calls.back() == "FromOSInternal " + S((long long)fake.result) && out.osInternal == fake.result && out.osMilliseconds == fake.result + 1, "operation %d does not use the result of the injected implementation", op);
		PBT_CHECK(in.osInternal == os, "the argument changed");
		c.note("%s", expect.c_str());
	}
	if (steps >= 3) c.nontrivial();
	InjectDateTimeImpl(nullptr);
	DateTime again = DateTime::FromDateTime(2020, 1, 1); PBT_CHECK(again == real && again.year == 2020, "removing the injected implementation does not restore the real one");
}
