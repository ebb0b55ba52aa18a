// C20: Tuple and Pair
#include "tracked.h"
#include <tuple>
#include <cmath>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C20,
	"Each case builds tuples and pairs (1 to 4 components: integers, doubles including NaN, strings, tracked objects, references) in every construction form, converts, copies, moves, assigns and mutates them and compares all components and all comparison results with std::tuple, "
	"or checks that two tuples of different component types compare like their components. Non-trivial: the compared values share at least their first component without being equal, or a reference component was written through.");

namespace
{
	template<typename A, typename B> int Sign(const A& a, const B& b) { auto o = a <=> b; return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
	// an independent lexicographic comparison: 2 = unordered
	int Lex(std::initializer_list<int> os) { for (int o : os) if (o) return o; return 0; }
	int S(double a, double b) { return a < b ? -1 : a > b ? 1 : a == b ? 0 : 2; }
	int GenInt(Ctx& c) { return c.chance(1, 6) ? (int)c.bits64() : (int)c.draw(3); }
	double GenD(Ctx& c) { switch (c.draw(5)) { case 0: return NAN; case 1: return -0.0; case 2: return 0.5; default: return (double)c.draw(2); } }
	// the strength of the comparison is that of the weakest component
	template<typename O, typename A, typename B> void CheckStrength(Ctx& c, const A&, const B&, const char* what) { PBT_CHECK((std::is_same_v<decltype(std::declval<const A&>() <=> std::declval<const B&>()), O>), "%s: the comparison does not have the strength of the weakest component", what); }
	template<typename A, typename B> void CheckRel(Ctx& c, const A& a, const B& b, int expect, const char* what)
	{
		PBT_CHECK(Sign(a, b) == expect, "%s: <=> gives %d instead of %d", what, Sign(a, b), expect);
		PBT_CHECK((a == b) == (expect == 0), "%s: == gives %d, <=> should be %d", what, (int)(a == b), expect);
		PBT_CHECK((a != b) == (expect != 0), "%s: !=", what);
		PBT_CHECK((a < b) == (expect == -1) && (a > b) == (expect == 1) && (a <= b) == (expect == -1 || expect == 0) && (a >= b) == (expect == 1 || expect == 0), "%s: relational operators, expected %d", what, expect);
	}
}

PBT_TEST(C20, tuple_compare, 30000, pbt::F_NONE)
{
	int x[6]; for (int& v : x) v = GenInt(c); double d[2] = { GenD(c), GenD(c) };
	WString s[2] = { itow(c.draw(2) ? x[0] : 1), itow(c.draw(2) ? x[0] : 1) };
	auto cmp = [](auto a, auto b) { return a < b ? -1 : a > b ? 1 : 0; };
	int os = s[0] < s[1] ? -1 : s[0] == s[1] ? 0 : 1;
	CheckRel(c, Tuple<int>(x[0]), Tuple<int>(x[1]), cmp(x[0], x[1]), "Tuple<int>");
	CheckRel(c, Tuple<int, int>(x[0], x[2]), Tuple<int, int>(x[1], x[3]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]) }), "Tuple<int,int>");
	CheckRel(c, Tuple<int, int, int>(x[0], x[2], x[4]), Tuple<int, int, int>(x[1], x[3], x[5]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]), cmp(x[4], x[5]) }), "Tuple<int,int,int>");
	CheckRel(c, Tuple<int, double, WString>(x[0], d[0], s[0]), Tuple<int, double, WString>(x[1], d[1], s[1]), Lex({ cmp(x[0], x[1]), S(d[0], d[1]), os }), "Tuple<int,double,WString>");
	CheckRel(c, Tuple<int, long>(x[0], x[2]), Tuple<long, int>(x[1], x[3]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]) }), "Tuple<int,long> with Tuple<long,int>");
	CheckRel(c, Tuple<WString, int, double, int>(s[0], x[0], d[0], x[2]), Tuple<WString, int, double, int>(s[1], x[1], d[1], x[3]), Lex({ os, cmp(x[0], x[1]), S(d[0], d[1]), cmp(x[2], x[3]) }), "4 components");
	CheckRel(c, Tuple<Tuple<int, int>, int>(Tuple<int, int>(x[0], x[2]), x[4]), Tuple<Tuple<int, int>, int>(Tuple<int, int>(x[1], x[3]), x[5]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]), cmp(x[4], x[5]) }), "nested");
	CheckRel(c, Pair<int, int>(x[0], x[2]), Pair<int, int>(x[1], x[3]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]) }), "Pair<int,int>");
	CheckRel(c, Pair<WString, double>(s[0], d[0]), Pair<WString, double>(s[1], d[1]), Lex({ os, S(d[0], d[1]) }), "Pair<WString,double>");
	CheckRel(c, Pair<int, long>(x[0], x[2]), Pair<long, int>(x[1], x[3]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]) }), "Pair<int,long> with Pair<long,int>");
	CheckRel(c, Pair<Pair<int, int>, int>(Pair<int, int>(x[0], x[2]), x[4]), Pair<Pair<int, int>, int>(Pair<int, int>(x[1], x[3]), x[5]), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]), cmp(x[4], x[5]) }), "nested Pair");
	{
		int r0 = x[1], r1 = x[3];
		CheckRel(c, Tuple<const int&, const int&>(x[0], x[2]), Tuple<const int&, const int&>(r0, r1), Lex({ cmp(x[0], x[1]), cmp(x[2], x[3]) }), "Tuple of references");
	}
	c.note("(%d,%d,%d) (%d,%d,%d) %g %g", x[0], x[2], x[4], x[1], x[3], x[5], d[0], d[1]);
	if (x[0] == x[1] && (x[2] != x[3] || x[4] != x[5])) c.nontrivial();
}

PBT_TEST(C20, tuple_values, 30000, pbt::F_NONE)
{
	Tr::Reset(); bool wrote = false, prefix = false;
	{
		using T = Tuple<Tr, int, WString>; using M = std::tuple<int, int, int>;
		const int N = 3; auto mk = [](int a, int b, int w) { return T(Tr(a), b, itow(w)); };
		std::vector<T> t; std::vector<M> m; for (int i = 0; i < N; i++) { t.push_back(mk(i, i, i)); m.push_back({ i, i, i }); }
		Tuple<Tr, long, WString> wide; std::tuple<int, int, int> mwide{ 0, -999, 0 }; bool wideSet = false;
		int store[3] = { 1, 2, 3 }; int cells[2] = { 0, 0 };
		size_t steps = 1 + c.size(25);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(N), j = (int)c.draw(N); int a = (int)c.draw(5), b = (int)c.draw(5), w = (int)c.draw(5); const char* op = "";
			switch (c.draw(12))
			{
			case 0: { op = "from lvalues"; Tr x(a); WString y = itow(w); t[i] = T(x, b, y); PBT_CHECK(x.Value() == a && wtoi(y) == w, "building a tuple changed its source"); m[i] = { a, b, w }; break; }
			case 1: op = "from rvalues"; t[i] = mk(a, b, w); m[i] = { a, b, w }; break;
			case 2: op = "copy assign"; { const T& src = t[j]; t[i] = src; m[i] = m[j]; break; }
			case 3: { op = "move"; if (i == j) break; t[i] = std::move(t[j]); m[i] = m[j]; t[j] = mk(a, b, w); m[j] = { a, b, w }; break; }
			case 4: { op = "copy construct"; const T& src = t[j]; T x(src); PBT_CHECK(x == t[j], "a copy differs"); t[i] = std::move(x); m[i] = m[j]; break; }
			case 5: { op = "convert"; const T& src = t[i]; Tuple<Tr, long, WString> x(src); wide = x; mwide = m[i]; wideSet = true; break; }
			case 6: { op = "convert assign"; wide = (const T&)t[i]; mwide = m[i]; wideSet = true; break; }
			case 7: { op = "convert by move"; T x = t[i]; if (c.boolean()) { Tuple<Tr, long, WString> y(std::move(x)); wide = std::move(y); } else wide = std::move(x); mwide = m[i]; wideSet = true; break; }
			case 8: { op = "get"; t[i].get<0>() = Tr(a); get<1>(t[i]) = b; t[i].get<2>() = itow(w); m[i] = { a, b, w }; break; }
			case 9: { op = "structured binding"; auto& [p, q, r] = t[i]; p = Tr(a); q = b; r = itow(w); m[i] = { a, b, w }; const auto& [p2, q2, r2] = t[i]; PBT_CHECK(p2.Value() == a && q2 == b && wtoi(r2) == w, "structured binding"); break; }
			case 10:
			{
				op = "references"; Tuple<int&, const WString&> r(store[i], t[j].get<2>());
				PBT_CHECK(&r.get<0>() == &store[i], "a reference component refers elsewhere"); r.get<0>() = a; PBT_CHECK(store[i] == a, "writing through a reference component");
				Tuple<int&, const WString&> r2(r); r2.get<0>() = b; PBT_CHECK(store[i] == b, "a copied reference component refers elsewhere");
				// assignment rebinds a reference component, also to another object of the same value
				{
					int other = store[i]; const WString text = t[j].get<2>(); Tuple<int&, const WString&> r3(other, text); int q = store[(i + 1) % 3];
					switch (c.draw(3)) { case 0: r2 = r3; break; case 1: r2 = Tuple<int&, const WString&>(other, text); break; default: { Tuple<int&, const WString&> r4(r3); r2 = std::move(r4); } }
					PBT_CHECK(&r2.get<0>() == &other && &r2.get<1>() == &text, "an assigned reference component refers to the old object");
					PBT_CHECK(store[i] == b && store[(i + 1) % 3] == q && &r.get<0>() == &store[i], "assigning a tuple of references wrote through them");
					r2.get<0>() = b + 7; PBT_CHECK(other == b + 7 && store[i] == b, "writing through an assigned reference component");
				}
				// so does assignment from a tuple that owns the values, or refers to them in another way
				{
					Tuple<int, WString> own1(b, t[j].get<2>()), own2(b, t[j].get<2>()); int other = b; WString text = t[j].get<2>(); Tuple<int&, WString&> mut(other, text);
					Tuple<const int&, const WString&> v((const Tuple<int, WString>&)own1); PBT_CHECK(&v.get<0>() == &own1.get<0>() && &v.get<1>() == &own1.get<1>(), "a reference component built from an owning tuple refers elsewhere");
					v = (const Tuple<int, WString>&)own2; PBT_CHECK(&v.get<0>() == &own2.get<0>() && &v.get<1>() == &own2.get<1>(), "a reference component assigned from an owning tuple refers elsewhere");
					if (c.boolean()) { v = (const Tuple<int&, WString&>&)mut; PBT_CHECK(&v.get<0>() == &other && &v.get<1>() == &text, "a const reference component assigned from a mutable one refers elsewhere"); }
					else { v = std::move(mut); PBT_CHECK(&v.get<0>() == &other && &v.get<1>() == &text, "a const reference component assigned from a moved one refers elsewhere"); }
					own1 = v; PBT_CHECK(own1.get<0>() == b && own1.get<1>() == t[j].get<2>() && &v.get<0>() == &other, "values assigned from references");
				}
				// values taken from temporary references leave the objects referred to as they were
				{
					Tr x(a); WString text = L"text " + itow(w); Tuple<Tr, WString> own; auto untouched = [&] { return x.Value() == a && wcscmp(text.Buffer(), (L"text " + itow(w)).Buffer()) == 0; };
					auto holds = [&](const Tuple<Tr, WString>& o) { return o.get<0>().Value() == a && o.get<1>() == L"text " + itow(w); };
					switch (c.draw(5))
					{
					case 0: { Tuple<Tr, WString> o(Tuple<Tr&, WString&>(x, text)); PBT_CHECK(holds(o), "values taken from temporary references"); break; }
					case 1: own = Tuple<Tr&, WString&>(x, text); PBT_CHECK(holds(own), "values assigned from temporary references"); break;
					case 2: { Tuple<Tr&, WString&> q(x, text); Tuple<Tr, WString> o(std::move(q)); PBT_CHECK(holds(o) && &q.get<0>() == &x && &q.get<1>() == &text, "values taken from moved references"); break; }
					case 3: { Tuple<Tr&, WString> q(x, text); own = std::move(q); PBT_CHECK(holds(own), "values assigned from a moved tuple that has a reference"); break; }
					default: { Tuple<const Tr&, const WString&> o(Tuple<Tr&, WString&>(x, text)); PBT_CHECK(&o.get<0>() == &x && &o.get<1>() == &text, "references taken from temporary references"); break; }
					}
					PBT_CHECK(untouched(), "converting a temporary tuple of references changed the objects referred to");
				}
				Tuple<int, WString> values(r); store[i] = a; PBT_CHECK(values.get<0>() == b && wtoi(values.get<1>()) == std::get<2>(m[j]), "values taken from references"); wrote = true; break;
			}
			default:
			{
				op = "compare"; std::tuple<int, int, std::string> x{ std::get<0>(m[i]), std::get<1>(m[i]), std::to_string(std::get<2>(m[i])) }, y{ std::get<0>(m[j]), std::get<1>(m[j]), std::to_string(std::get<2>(m[j])) };
				// WString of 0 is made by itow, so all components are single digits
				PBT_CHECK((t[i] == t[j]) == (x == y), "== of tuples"); PBT_CHECK((t[i] < t[j]) == (x < y) && (t[i] > t[j]) == (x > y), "order of tuples");
				if (std::get<0>(x) == std::get<0>(y) && x != y) prefix = true; break;
			}
			}
			CheckFault(c, op);
			for (int k = 0; k < N; k++) { const T& q = t[k]; PBT_CHECK(q.get<0>().Value() == std::get<0>(m[k]) && q.get<1>() == std::get<1>(m[k]) && wtoi(get<2>(q)) == std::get<2>(m[k]), "after %s: tuple %d is (%d,%d,..) instead of (%d,%d,..)", op, k, q.get<0>().Value(), q.get<1>(), std::get<0>(m[k]), std::get<1>(m[k])); }
			if (wideSet) PBT_CHECK(wide.get<0>().Value() == std::get<0>(mwide) && wide.get<1>() == std::get<1>(mwide) && wtoi(wide.get<2>()) == std::get<2>(mwide), "after %s: converted tuple differs", op);
			PBT_CHECK(Tr::live == N + 1, "after %s: %ld components alive", op, Tr::live);
			c.note("%s", op);
		}
	}
	PBT_CHECK(Tr::live == 0, "%ld components alive at the end", Tr::live);
	if (wrote || prefix) c.nontrivial();
}

PBT_TEST(C20, pair_values, 20000, pbt::F_NONE)
{
	Tr::Reset(); bool prefix = false;
	{
		using T = Pair<Tr, WString>; const int N = 3; std::vector<T> t; std::vector<std::pair<int, int>> m;
		for (int i = 0; i < N; i++) { t.push_back(T(Tr(i), itow(i))); m.push_back({ i, i }); }
		size_t steps = 1 + c.size(25);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(N), j = (int)c.draw(N), a = (int)c.draw(5), b = (int)c.draw(5); const char* op = "";
			switch (c.draw(10))
			{
			case 0: { op = "from lvalues"; Tr x(a); WString y = itow(b); t[i] = T(x, y); PBT_CHECK(x.Value() == a && wtoi(y) == b, "source changed"); m[i] = { a, b }; break; }
			case 1: op = "from rvalues"; t[i] = T(Tr(a), itow(b)); m[i] = { a, b }; break;
			case 2: op = "copy"; { T x(t[j]); t[i] = x; m[i] = m[j]; break; }
			case 3: op = "move"; if (i != j) { t[i] = std::move(t[j]); m[i] = m[j]; t[j] = { Tr(a), itow(b) }; m[j] = { a, b }; } break;
			case 4: op = "members"; t[i].key = Tr(a); t[i].value = itow(b); m[i] = { a, b }; break;
			case 5: op = "structured binding"; { auto& [k, v] = t[i]; k = Tr(a); v = itow(b); m[i] = { a, b }; const auto& [k2, v2] = t[i]; PBT_CHECK(k2.Value() == a && wtoi(v2) == b, "structured binding"); break; }
			case 6: op = "convert"; { Pair<int, WString> src(a, itow(b)); if (c.boolean()) t[i] = T(src); else t[i] = T(std::move(src)); m[i] = { a, b }; break; }
			case 9:
			{
				op = "references"; Tr x(a); WString y = L"7" + itow(b);
				Pair<Tr&, WString&> q(x, y); PBT_CHECK(&q.key == &x && &q.value == &y, "a reference in a pair refers elsewhere");
				switch (c.draw(4))
				{
				case 0: { T o(Pair<Tr&, WString&>(x, y)); t[i] = o; break; }
				case 1: { T o(std::move(q)); t[i] = std::move(o); break; }
				case 2: { const auto& k = q; t[i] = T(k); break; }
				default: { Pair<Tr&, WString> half(x, y); t[i] = T(std::move(half)); }
				}
				PBT_CHECK(x.Value() == a && y == L"7" + itow(b), "converting a pair of references changed the objects referred to");
				q.key = Tr(b); q.value = itow(a); PBT_CHECK(x.Value() == b && wtoi(y) == a, "writing through a pair of references");
				m[i] = { a, wtoi(t[i].value) }; PBT_CHECK(t[i].value == L"7" + itow(b), "the value taken from a pair of references"); break;
			}
			case 7: op = "deduced"; { auto x = Pair(Tr(a), itow(b)); static_assert(std::is_same_v<decltype(x), T>); t[i] = x; m[i] = { a, b }; break; }
			default: op = "compare"; PBT_CHECK((t[i] == t[j]) == (m[i] == m[j]) && (t[i] < t[j]) == (m[i] < m[j]) && (t[i] >= t[j]) == (m[i] >= m[j]), "comparison of pairs"); if (m[i].first == m[j].first && m[i] != m[j]) prefix = true;
			}
			CheckFault(c, op); c.note("%s", op);
			for (int k = 0; k < N; k++) PBT_CHECK(t[k].key.Value() == m[k].first && wtoi(t[k].value) == m[k].second && t[k].get<0>().Value() == m[k].first, "after %s: pair %d is wrong", op, k);
			PBT_CHECK(Tr::live == N, "after %s: %ld keys alive", op, Tr::live);
		}
	}
	if (prefix) c.nontrivial();
}

// many components, components of every ordering strength, mixed references, component types that only move
namespace
{
	// equivalent values can differ: ordered by v / 10 only
	struct Weak { int v; std::weak_ordering operator<=>(const Weak& o) const { return v / 10 <=> o.v / 10; } bool operator==(const Weak& o) const { return v / 10 == o.v / 10; } };
	struct MoveOnly { Tr t; explicit MoveOnly(int v) : t(v) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
	struct Counting { int v; static inline int compared = 0; auto operator<=>(const Counting& o) const { compared++; return v <=> o.v; } bool operator==(const Counting& o) const { compared++; return v == o.v; } };
}
PBT_TEST(C20, many_components, 20000, pbt::F_NONE)
{
	const int N = 9; int x[N], y[N]; for (int k = 0; k < N; k++) { x[k] = GenInt(c); y[k] = x[k]; }
	int differ = (int)c.draw(N + 1); for (int k = differ; k < N; k++) if (k == differ || c.boolean()) y[k] = GenInt(c);
	auto sg = [](int a, int b) { return a < b ? -1 : a > b ? 1 : 0; };
	int e = 0; for (int k = N - 1; k >= 0; k--) if (int o = sg(x[k], y[k])) e = o;
	Tuple<int, short, long, int, WString, long long, int, int, int> dummy;
	using T9 = Tuple<int, long, long long, int, long, int, long long, int, long>;
	T9 a(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), b(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]);
	CheckRel(c, a, b, e, "nine components"); CheckRel(c, b, a, -e, "nine components"); CheckRel(c, a, a, 0, "itself");
	PBT_CHECK(a.get<0>() == x[0] && a.get<1>() == x[1] && a.get<2>() == x[2] && a.get<3>() == x[3] && a.get<4>() == x[4] && a.get<5>() == x[5] && a.get<6>() == x[6] && a.get<7>() == x[7] && a.get<8>() == x[8], "components of a large tuple are confused");
	{ auto& [p0, p1, p2, p3, p4, p5, p6, p7, p8] = a; PBT_CHECK(p0 == x[0] && p4 == x[4] && p8 == x[8] && &p5 == &a.get<5>(), "structured binding of a large tuple"); p3 = y[3]; PBT_CHECK(a.get<3>() == y[3] && a.get<2>() == x[2] && a.get<4>() == x[4], "writing through a structured binding"); p3 = x[3]; }
	Tuple<int&, long, const int&, int, long, int&, long long, int, int&> r(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
	// the order stops at the first difference
	if (c.chance(1, 2))
	{
		Tuple<int, Weak, double, WString> p(x[0], Weak{ x[1] % 100 }, GenD(c), itow(x[2])), q(y[0], Weak{ y[1] % 100 }, GenD(c), itow(y[2]));
		int w = sg(x[1] % 100 / 10, y[1] % 100 / 10); WString s1 = itow(x[2]), s2 = itow(y[2]); int t = s1 < s2 ? -1 : s1 == s2 ? 0 : 1;
		CheckRel(c, p, q, Lex({ sg(x[0], y[0]), w, S(p.get<2>(), q.get<2>()), t }), "strong, weak and partial components");
		Tuple<int, Weak> p2(x[0], Weak{ x[1] % 100 }), q2(y[0], Weak{ y[1] % 100 }); CheckRel(c, p2, q2, Lex({ sg(x[0], y[0]), w }), "strong and weak components");
		Pair<Weak, int> p3(Weak{ x[1] % 100 }, x[0]), q3(Weak{ y[1] % 100 }, y[0]); CheckRel(c, p3, q3, Lex({ w, sg(x[0], y[0]) }), "a weak key");
		double d1 = GenD(c), d2 = GenD(c); Pair<double, int> p4(d1, x[3]), q4(d2, y[3]); CheckRel(c, p4, q4, Lex({ S(d1, d2), sg(x[3], y[3]) }), "a partially ordered key"); CheckStrength<std::partial_ordering>(c, p4, q4, "a partially ordered key"); CheckStrength<std::weak_ordering>(c, p2, q2, "strong and weak components"); CheckStrength<std::partial_ordering>(c, p, q, "strong, weak and partial components"); CheckStrength<std::weak_ordering>(c, p3, q3, "a weak key"); CheckStrength<std::strong_ordering>(c, a, b, "nine components"); CheckStrength<std::strong_ordering>(c, Pair<int, WString>(), Pair<long, WString>(), "a pair"); CheckStrength<std::strong_ordering>(c, Tuple<int>(1), Tuple<int>(2), "one component");
		
	}
	else
	{
		PBT_CHECK(&r.get<0>() == &x[0] && &r.get<2>() == &x[2] && &r.get<5>() == &x[5] && &r.get<8>() == &x[8] && &r.get<3>() != &x[3], "references in a large tuple");
		int old = x[3]; r.get<3>() = old + 1; PBT_CHECK(x[3] == old, "a value component refers to its source"); r.get<5>() = y[5]; PBT_CHECK(x[5] == y[5], "a reference component does not reach its object"); x[8] = y[8]; PBT_CHECK(r.get<8>() == y[8], "a reference component sees an old value");
		auto copy = r; PBT_CHECK(&copy.get<0>() == &x[0] && &copy.get<8>() == &x[8], "a copied reference refers elsewhere");
	}
	c.note("differs at %d: %d", differ, e); if (differ > 0 && e) c.nontrivial();
}
PBT_TEST(C20, component_forms, 20000, pbt::F_NONE)
{
	Tr::Reset(); int a = (int)c.draw(9), b = (int)c.draw(9), d = (int)c.draw(9);
	{
		switch (c.draw(8))
		{
		case 0: { auto t = Tuple(L"text", a, "narrow"); static_assert(std::is_same_v<decltype(t), Tuple<const wchar_t*, int, const char*>>); PBT_CHECK(wcscmp(t.get<0>(), L"text") == 0 && t.get<1>() == a && strcmp(t.get<2>(), "narrow") == 0, "a deduced tuple"); Tuple<WString, long, AString> u = Tuple<const wchar_t*, int, const char*>(L"x", a, "y"); PBT_CHECK(u.get<0>() == L"x" && u.get<1>() == a && u.get<2>() == "y", "a converted tuple"); auto p = Pair(L"key", a); static_assert(std::is_same_v<decltype(p), Pair<const wchar_t*, int>>); Pair<WString, long> q(p); PBT_CHECK(q.key == L"key" && q.value == a, "a converted pair"); break; }
		case 1: { Tuple<MoveOnly, int> t{ MoveOnly(a), b }; Tuple<MoveOnly, int> u(std::move(t)); PBT_CHECK(u.get<0>().t.Value() == a && u.get<1>() == b, "a moved tuple"); t = Tuple<MoveOnly, int>(MoveOnly(d), a); u = std::move(t); PBT_CHECK(u.get<0>().t.Value() == d && u.get<1>() == a, "a move assigned tuple"); MoveOnly m = std::move(u.get<0>()); PBT_CHECK(m.t.Value() == d && Tr::copies == 0, "a component was copied"); Pair<MoveOnly, MoveOnly> p{ MoveOnly(a), MoveOnly(b) }; Pair<MoveOnly, MoveOnly> q(std::move(p)); PBT_CHECK(q.key.t.Value() == a && q.value.t.Value() == b && Tr::copies == 0, "a moved pair"); break; }
		case 2: { Tuple<Tr, Tr> t{ Tr(a), Tr(b) }; auto& r = t; t = r; PBT_CHECK(t.get<0>().Value() == a && t.get<1>().Value() == b, "self assignment"); t.get<0>() = t.get<1>(); PBT_CHECK(t.get<0>().Value() == b && t.get<1>().Value() == b, "a component assigned from another"); t = Tuple<Tr, Tr>(t.get<1>(), Tr(d)); PBT_CHECK(t.get<0>().Value() == b && t.get<1>().Value() == d, "a tuple assigned from its own component"); Pair<Tr, Tr> p{ Tr(a), Tr(b) }; auto& s = p; p = s; PBT_CHECK(p.key.Value() == a && p.value.Value() == b, "self assignment of a pair"); p = Pair<Tr, Tr>(p.value, p.key); PBT_CHECK(p.key.Value() == b && p.value.Value() == a, "a swapped pair"); break; }
		case 3: { Tuple<Tr> t{ Tr(a) }; const auto& ct = t; Tuple<Tr> u(ct); PBT_CHECK(u.get<0>().Value() == a, "a tuple of one"); u = Tuple<Tr>(Tr(b)); t = u; PBT_CHECK(t == u && t.get<0>().Value() == b && !(t < u) && t <= u, "tuples of one"); auto& [only] = t; only = Tr(d); PBT_CHECK(t.get<0>().Value() == d && u.get<0>().Value() == b, "structured binding of one"); break; }
		case 4: { Tuple<List<int>*, Ptr<Tr>, Pair<int, WString>> t(nullptr, Ptr(new Tr(a)), Pair<int, WString>(b, itow(d))); auto u = t; PBT_CHECK(u.get<0>() == nullptr && u.get<1>() == t.get<1>() && u.get<1>()->Value() == a && u.get<2>().key == b && u.get<2>().value == itow(d) && Tr::live == 1, "a copied tuple of pointers"); t = {}; PBT_CHECK(!t.get<1>() && u.get<1>()->Value() == a, "an emptied tuple"); break; }
		case 5: { Counting::compared = 0; Tuple<Counting, Counting, Counting> t(Counting{ a }, Counting{ b }, Counting{ d }), u(Counting{ a + 1 }, Counting{ b }, Counting{ d }); PBT_CHECK(t != u && !(t == u) && t < u && u > t && (t <=> u) < 0, "comparison"); PBT_CHECK(t == t && (t <=> t) == 0, "comparison with itself"); break; }
		case 6: { Tuple<> e1, e2; (void)e1; (void)e2; Tuple<Tuple<Tr, int>, Tuple<int, Tr>> n(Tuple<Tr, int>(Tr(a), b), Tuple<int, Tr>(b, Tr(d))); auto m = n; m.get<0>().get<0>() = Tr(a + 1); PBT_CHECK(n.get<0>().get<0>().Value() == a && n < m && n != m && n.get<1>() == m.get<1>(), "nested tuples share a component"); break; }
		default: { int v1 = a, v2 = b; Pair<int&, int> p(v1, v2), q(v2, v1); CheckRel(c, p, q, a < b ? -1 : a > b ? 1 : 0, "pairs with a reference key"); p.key = d; PBT_CHECK(v1 == d && p.get<0>() == d, "writing through a reference key"); CheckRel(c, p, q, d < b ? -1 : d > b ? 1 : b < a ? -1 : b > a ? 1 : 0, "pairs with a reference key after a write"); Pair<int, int> w(p); v1 = d + 5; PBT_CHECK(w.key == d && w.value == b, "values taken from a reference key"); }
		}
		CheckFault(c, "operation"); c.note("%d %d %d", a, b, d); if (a != b && b != d) c.nontrivial();
	}
	PBT_CHECK(Tr::live == 0, "%ld components alive at the end", Tr::live);
}
