// C19: Nullable and Variant
#include "tracked.h"
#include <cmath>
#include <variant>
#include <optional>
using namespace vl;
using namespace vl::collections;
using pbt::Ctx;

PBT_RULE(C19,
	"Each case runs up to 50 operations (construct, copy, move, assign values, assign other instances, convert, reset, read, visit) on several Nullable or Variant objects and compares presence, active alternative, value and comparison results with a model after each, "
	"with alternatives that own memory, know their address, need large alignment or differ in size, while the number of live tracked alternatives is compared with the model. Non-trivial: at least three changes between empty and filled, or between alternatives, happened after the object held a value.");

namespace
{
	struct alignas(64) Wide { long v; char pad[56]; Wide(long x = 0) : v(x) { memset(pad, (char)x, sizeof(pad)); } bool Ok() const { for (char p : pad) if (p != (char)v) return false; return ((uintptr_t)this & 63) == 0; } bool operator==(const Wide&) const = default; };
	struct NoAssign { const int v; Tr t; NoAssign(int x) : v(x), t(x) {} NoAssign(const NoAssign&) = default; NoAssign(NoAssign&&) = default; NoAssign& operator=(const NoAssign&) = delete; NoAssign& operator=(NoAssign&&) = delete; };
	template<typename T> struct NV;
	template<> struct NV<int> { static int Make(int v) { return v; } static int Read(const int& x) { return x; } static constexpr int tracked = 0; static constexpr bool cmp = true; };
	template<> struct NV<Tr> { static Tr Make(int v) { return Tr(v); } static int Read(const Tr& x) { return x.Value(); } static constexpr int tracked = 1; static constexpr bool cmp = true; };
	template<> struct NV<WString> { static WString Make(int v) { return itow(v); } static int Read(const WString& x) { return (int)wtoi(x); } static constexpr int tracked = 0; static constexpr bool cmp = true; }; // single digits: ordered like their values
	template<> struct NV<Nullable<Tr>> { static Nullable<Tr> Make(int v) { return v == 0 ? Nullable<Tr>() : Nullable<Tr>(Tr(v)); } static int Read(const Nullable<Tr>& x) { return x ? x.Value().Value() : 0; } static constexpr int tracked = 0; static constexpr bool cmp = true; };
	template<> struct NV<NoAssign> { static NoAssign Make(int v) { return NoAssign(v); } static int Read(const NoAssign& x) { return x.t.Value() == x.v ? x.v : -77777; } static constexpr int tracked = 1; static constexpr bool cmp = false; };
	template<> struct NV<Wide> { static Wide Make(int v) { return Wide(v); } static int Read(const Wide& x) { return x.Ok() ? (int)x.v : -77777; } static constexpr int tracked = 0; static constexpr bool cmp = false; };

	template<typename T> void NullableHistory(Ctx& c)
	{
		Tr::Reset(); int changes = 0; using V = NV<T>;
		{
			const int N = 3; Nullable<T> n[N]; std::optional<int> m[N];
			size_t steps = 1 + c.size(50);
			for (size_t s = 0; s < steps; s++)
			{
				int i = (int)c.draw(N), j = (int)c.draw(N); int v = (int)c.draw(9); const char* op = ""; bool had = m[i].has_value();
				switch (c.draw(12))
				{
				case 0: { op = "= const value"; const T x = V::Make(v); n[i] = x; PBT_CHECK(V::Read(x) == v, "the assigned value changed"); m[i] = v; break; }
				case 1: op = "= temporary"; n[i] = V::Make(v); m[i] = v; break;
				case 2: op = "= Nullable"; n[i] = n[j]; m[i] = m[j]; break;
				case 3: op = "= moved Nullable"; if (i != j) { n[i] = std::move(n[j]); m[i] = m[j]; PBT_CHECK(!n[j], "a moved from Nullable is not empty"); m[j].reset(); } break;
				case 4: op = "Reset"; n[i].Reset(); m[i].reset(); break;
				case 5: { op = "copy construct"; Nullable<T> t(n[j]); PBT_CHECK((bool)t == m[j].has_value() && (!t || V::Read(t.Value()) == *m[j]), "a copy differs"); n[i] = t; m[i] = m[j]; break; }
				case 6: { op = "move construct"; Nullable<T> t(std::move(n[j])); auto q = m[j]; PBT_CHECK(!n[j], "a moved from Nullable is not empty"); m[j].reset(); n[i] = std::move(t); m[i] = q; break; }
				case 7: { op = "from value"; const T x = V::Make(v); Nullable<T> t(x); n[i] = std::move(t); m[i] = v; break; }
				case 8: { op = "from temporary"; Nullable<T> t(V::Make(v)); n[i] = t; m[i] = v; break; }
				case 9: { op = "= empty"; if (c.boolean()) n[i] = Nullable<T>(); else n[i] = Nullable<T>::Empty; m[i].reset(); break; }
				case 10: { op = "self"; auto& r = n[i]; if (m[i] && c.boolean()) n[i] = r.Value(); else n[i] = r; break; }
				default:
					op = "compare";
					if constexpr (std::is_same_v<T, int>)
					{
						// partially ordered values: an empty Nullable still comes before every value, NaN included
						Nullable<double> p[3]; int k[3]; for (int q = 0; q < 3; q++) { k[q] = (int)c.draw(4); if (k[q]) p[q] = k[q] == 3 ? NAN : k[q] * 0.5; }
						for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++)
						{
							int e = !k[x] || !k[y] ? (k[x] ? 1 : k[y] ? -1 : 0) : k[x] == 3 || k[y] == 3 ? 2 : k[x] < k[y] ? -1 : k[x] > k[y]; auto o = p[x] <=> p[y]; int g = o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;
							PBT_CHECK(g == e, "order of two Nullable<double> (%d,%d) is %d", k[x], k[y], g);
							PBT_CHECK((p[x] == p[y]) == (e == 0) && (p[x] < p[y]) == (e == -1) && (p[x] >= p[y]) == (e == 0 || e == 1), "operators of Nullable<double> (%d,%d)", k[x], k[y]);
						}
					}
					if constexpr (V::cmp)
					{
						PBT_CHECK((n[i] == n[j]) == (m[i] == m[j]) && (n[i] != n[j]) == (m[i] != m[j]), "== of Nullable");
						PBT_CHECK((n[i] < n[j]) == (m[i] < m[j]) && (n[i] > n[j]) == (m[i] > m[j]) && (n[i] <= n[j]) == (m[i] <= m[j]) && (n[i] >= n[j]) == (m[i] >= m[j]), "order of Nullable: an empty one comes first");
					}
				}
				CheckFault(c, op); c.note("%s [%d]", op, i);
				long live = 0;
				for (int k = 0; k < N; k++)
				{
					PBT_CHECK((bool)n[k] == m[k].has_value(), "after %s: Nullable %d is %s", op, k, n[k] ? "filled" : "empty");
					if (m[k]) { PBT_CHECK(V::Read(n[k].Value()) == *m[k], "after %s: value %d instead of %d", op, V::Read(n[k].Value()), *m[k]); live++; }
					else PBT_CHECK(ThrowsError([&] { n[k].Value(); }), "Value() of an empty Nullable is not rejected");
				}
				if (V::tracked) PBT_CHECK(Tr::live == live, "after %s: %ld values alive instead of %ld", op, Tr::live, live);
				if (had != m[i].has_value()) changes++;
			}
		}
		CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld values alive at the end", Tr::live);
		if (changes >= 3) c.nontrivial();
	}
}
PBT_TEST(C19, nullable_tracked, 15000, pbt::F_NONE) { NullableHistory<Tr>(c); }
PBT_TEST(C19, nullable_int, 8000, pbt::F_NONE) { NullableHistory<int>(c); }
PBT_TEST(C19, nullable_string, 8000, pbt::F_NONE) { NullableHistory<WString>(c); }
PBT_TEST(C19, nullable_nested, 8000, pbt::F_NONE) { NullableHistory<Nullable<Tr>>(c); }
PBT_TEST(C19, nullable_noassign, 8000, pbt::F_NONE) { NullableHistory<NoAssign>(c); }
PBT_TEST(C19, nullable_aligned, 5000, pbt::F_NONE) { NullableHistory<Wide>(c); }

namespace
{
	using V = Variant<int, Tr, WString, Wide, Nullable<Tr>, bool>;
	// alternative index and value; Nullable: -1 means empty
	struct MV { int alt; int val; };
	const int ALTS = 6;
	int ReadAlt(const V& v)
	{
		if (auto p = v.TryGet<int>()) return *p;
		if (auto p = v.TryGet<Tr>()) return p->Value();
		if (auto p = v.TryGet<WString>()) return (int)wtoi(*p);
		if (auto p = v.TryGet<Wide>()) return p->Ok() ? (int)p->v : -77777;
		if (auto p = v.TryGet<Nullable<Tr>>()) return *p ? p->Value().Value() : -1;
		if (auto p = v.TryGet<bool>()) return *p;
		return -88888;
	}
	V MakeAlt(Ctx& c, int alt, int val)
	{
		switch (alt)
		{
		case 0: return V(val);
		case 1: { if (c.boolean()) return V(Tr(val)); const Tr t(val); return V(t); }
		case 2: { if (c.boolean()) return V(itow(val)); const WString w = itow(val); return V(w); }
		case 3: { const Wide w(val); return c.boolean() ? V(w) : V(Wide(val)); }
		case 4: return val < 0 ? V(Nullable<Tr>()) : V(Nullable<Tr>(Tr(val)));
		default: return V(val != 0);
		}
	}
	void AssignAlt(Ctx& c, V& v, int alt, int val)
	{
		bool lv = c.boolean();
		switch (alt)
		{
		case 0: { const int x = val; if (lv) v = x; else v = val + 0; break; }
		case 1: { const Tr x(val); if (lv) v = x; else v = Tr(val); break; }
		case 2: { const WString x = itow(val); if (lv) v = x; else v = itow(val); break; }
		case 3: { const Wide x(val); if (lv) v = x; else v = Wide(val); break; }
		case 4: { Nullable<Tr> x; if (val >= 0) x = Tr(val); if (lv) v = (const Nullable<Tr>&)x; else v = std::move(x); break; }
		default: { const bool x = val != 0; if (lv) v = x; else v = !!val; }
		}
	}
	int GenVal(Ctx& c, int alt) { return alt == 4 ? (int)c.draw(5) - 1 : alt == 5 ? (int)c.draw(2) : (int)c.draw(9); }
}

PBT_TEST(C19, variant, 30000, pbt::F_NONE)
{
	Tr::Reset(); int changes = 0;
	{
		const int N = 3; V v[N]; MV m[N] = { {0, 0}, {0, 0}, {0, 0} };
		for (int k = 0; k < N; k++) { PBT_CHECK(v[k].Index() == 0 && v[k].Get<int>() == 0 && !v[k].TryGet<Tr>() && !v[k].TryGet<bool>(), "a new Variant holds alternative %d", (int)v[k].Index()); if (c.boolean()) v[k] = 0; }
		List<V> stored; std::vector<MV> ms;
		size_t steps = 1 + c.size(50);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(N), j = (int)c.draw(N), alt = (int)c.draw(ALTS), val = GenVal(c, alt); const char* op = ""; int before = m[i].alt;
			switch (c.draw(14))
			{
			case 0: case 1: op = "assign value"; AssignAlt(c, v[i], alt, val); m[i] = { alt, val }; break;
			case 2: { op = "construct"; V t = MakeAlt(c, alt, val); v[i] = t; m[i] = { alt, val }; break; }
			case 3: { op = "copy assign"; const V& r = v[j]; v[i] = r; m[i] = m[j]; break; }
			case 4: { op = "move assign"; if (i == j) break; v[i] = std::move(v[j]); m[i] = m[j]; AssignAlt(c, v[j], alt, val); m[j] = { alt, val }; break; }
			case 5: { op = "copy construct"; V t(v[j]); PBT_CHECK(t.Index() == m[j].alt && ReadAlt(t) == m[j].val, "a copy holds alternative %d value %d", (int)t.Index(), ReadAlt(t)); break; }
			case 6: { op = "move construct"; V t(std::move(v[j])); PBT_CHECK(t.Index() == m[j].alt && ReadAlt(t) == m[j].val, "a moved value holds alternative %d value %d", (int)t.Index(), ReadAlt(t)); v[j] = std::move(t); break; }
			case 7:
			{
				op = "Set"; switch (alt)
				{
				case 1: v[i].Set(VariantIndex<1>{}, val); break; case 2: v[i].Set(VariantIndex<2>{}, itow(val)); break;
				case 3: v[i].Set(VariantIndex<3>{}, (long)val); break; default: alt = 0; val = (int)c.draw(9); v[i].Set(VariantIndex<0>{}, (short)val);
				}
				m[i] = { alt, val }; break;
			}
			case 8:
			{
				op = "convert"; if (c.boolean()) { static const wchar_t* texts[] = { L"0", L"1", L"2", L"3" }; val = (int)c.draw(4); V t(VariantIndex<2>{}, texts[val]); v[i] = t; m[i] = { 2, val }; }
				else { V t(VariantIndex<1>{}, val = (int)c.draw(9)); v[i] = std::move(t); m[i] = { 1, val }; }
				break;
			}
			case 9:
			{
				op = "Apply"; int calls = 0, seen = -5, which = -1;
				auto cb = Overloading([&](int& x) { calls++; which = 0; seen = x; x++; }, [&](Tr& x) { calls++; which = 1; seen = x.Value(); x = Tr(x.Value() + 1); }, [&](WString& x) { calls++; which = 2; seen = (int)wtoi(x); x = itow(seen + 1); },
					[&](Wide& x) { calls++; which = 3; seen = x.Ok() ? (int)x.v : -77777; x = Wide(x.v + 1); }, [&](Nullable<Tr>& x) { calls++; which = 4; seen = x ? x.Value().Value() : -1; x = Tr(seen + 1); }, [&](bool& x) { calls++; which = 5; seen = x; x = !x; });
				v[i].Apply(cb); PBT_CHECK(calls == 1 && which == m[i].alt && seen == m[i].val, "Apply called %d callbacks, alternative %d value %d instead of %d value %d", calls, which, seen, m[i].alt, m[i].val);
				m[i].val = m[i].alt == 5 ? !m[i].val : m[i].val + 1; break;
			}
			case 10:
			{
				op = "const Apply"; int calls = 0, which = -1; const V& r = v[i];
				r.Apply(Overloading([&](const int&) { calls++; which = 0; }, [&](const Tr& t) { t.Check(); calls++; which = 1; }, [&](const WString&) { calls++; which = 2; }, [&](const Wide&) { calls++; which = 3; }, [&](const Nullable<Tr>&) { calls++; which = 4; }, [&](const bool&) { calls++; which = 5; }));
				PBT_CHECK(calls == 1 && which == m[i].alt, "Apply on a const Variant called %d callbacks, alternative %d instead of %d", calls, which, m[i].alt); break;
			}
			case 11:
			{
				op = "TryApply"; int calls = 0; bool r;
				if (c.boolean()) { r = v[i].TryApply([&](Tr& t) { calls++; t = Tr(t.Value() + 1); }); PBT_CHECK(r == (m[i].alt == 1) && calls == (int)r, "TryApply returned %d with %d calls for alternative %d", (int)r, calls, m[i].alt); if (r) m[i].val++; }
				else
				{
					const V& q = v[i]; int want = (int)c.draw(7); bool expect = want == m[i].alt;
					switch (want)
					{
					case 0: r = q.TryApply([&]<typename X>(const X&) requires std::is_same_v<X, int> { calls++; }); break; case 1: r = q.TryApply([&]<typename X>(const X&) requires std::is_same_v<X, Tr> { calls++; }); break;
					case 2: r = q.TryApply([&](const WString&) { calls++; }); break; case 3: r = q.TryApply([&]<typename X>(const X&) requires std::is_same_v<X, Wide> { calls++; }); break;
					case 4: r = q.TryApply([&]<typename X>(const X&) requires std::is_same_v<X, Nullable<Tr>> { calls++; }); break; case 5: r = q.TryApply([&]<typename X>(const X&) requires std::is_same_v<X, bool> { calls++; }); break;
					default: expect = true; r = q.TryApply([&](const auto&) { calls++; });
					}
					PBT_CHECK(r == expect && calls == (int)r, "TryApply for %d returned %d with %d calls for alternative %d", want, (int)r, calls, m[i].alt);
				}
				break;
			}
			case 12:
			{
				op = "Get"; const V& q = v[i];
				auto bad = [&](int k, auto* p) { using T = std::remove_pointer_t<decltype(p)>; bool t1 = ThrowsError([&] { v[i].Get<T>(); }), t2 = ThrowsError([&] { q.Get<T>(); }); bool t3 = v[i].TryGet<T>() == nullptr; PBT_CHECK(t1 == (m[i].alt != k) && t2 == t1 && t3 == t1, "Get of alternative %d while %d is active", k, m[i].alt); };
				bad(0, (int*)0); bad(1, (Tr*)0); bad(2, (WString*)0); bad(3, (Wide*)0); bad(4, (Nullable<Tr>*)0); bad(5, (bool*)0);
				if (m[i].alt == 1) { v[i].Get<Tr>() = Tr(val); m[i].val = val; if (c.boolean()) { Tr t = std::move(v[i]).Get<Tr>(); PBT_CHECK(t.Value() == val, "Get of an rvalue"); v[i] = val; m[i] = { 0, val }; } }
				break;
			}
			default: op = "store"; if (c.boolean() && stored.Count() < 8) { stored.Add(v[i]); ms.push_back(m[i]); } else if (stored.Count()) { vint k = (vint)c.draw(stored.Count()); if (c.boolean()) { v[j] = stored[k]; m[j] = ms[k]; } else { stored.RemoveAt(k); ms.erase(ms.begin() + k); } }
			}
			CheckFault(c, op); c.note("%s [%d] alt %d", op, i, m[i].alt);
			long live = 0; auto count = [&](const MV& x) { if (x.alt == 1 || (x.alt == 4 && x.val >= 0)) live++; };
			for (int k = 0; k < N; k++) { PBT_CHECK(v[k].Index() == m[k].alt, "after %s: Variant %d holds alternative %d instead of %d", op, k, (int)v[k].Index(), m[k].alt); PBT_CHECK(ReadAlt(v[k]) == m[k].val, "after %s: Variant %d (alternative %d) holds %d instead of %d", op, k, m[k].alt, ReadAlt(v[k]), m[k].val); count(m[k]); }
			for (size_t k = 0; k < ms.size(); k++) { PBT_CHECK(stored[(vint)k].Index() == ms[k].alt && ReadAlt(stored[(vint)k]) == ms[k].val, "after %s: a stored Variant changed", op); count(ms[k]); }
			PBT_CHECK(Tr::live == live, "after %s: %ld tracked alternatives alive instead of %ld", op, Tr::live, live);
			if (m[i].alt != before) changes++;
		}
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld tracked alternatives alive at the end", Tr::live);
	if (changes >= 3) c.nontrivial();
}

// other shapes: a single alternative, repeated alternatives addressed by index, alternatives of very different size, in every position
namespace
{
	struct Big { long a[20]; Big(long x) { for (auto& q : a) q = x; } bool Ok(long x) const { for (auto q : a) if (q != x) return false; return true; } };
	template<typename VT, int B, int I> void Shape(Ctx& c, bool& changed)
	{
		// B: index of Big, I: index of Tr
		VT v(VariantIndex<I>{}, 1); int alt = I, val = 1; VT w(VariantIndex<B>{}, 5L);
		size_t steps = 1 + c.size(20);
		for (size_t s = 0; s < steps; s++)
		{
			int x = (int)c.draw(9);
			switch (c.draw(5))
			{
			case 0: v.Set(VariantIndex<I>{}, x); alt = I; val = x; break;
			case 1: v.Set(VariantIndex<B>{}, (long)x); alt = B; val = x; break;
			case 2: { VT t(v); v = w; v = t; break; }
			case 3: { VT t(std::move(v)); v = w; v = std::move(t); break; }
			default: { List<VT> l; for (int q = 0; q < 5; q++) l.Add(v); v = l[(vint)c.draw(5)]; }
			}
			PBT_CHECK(v.Index() == alt, "alternative %d instead of %d", (int)v.Index(), alt);
			if (alt == I) PBT_CHECK(v.template Get<Tr>().Value() == val && v.template TryGet<Big>() == nullptr, "tracked alternative"); else PBT_CHECK(v.template Get<Big>().Ok(val) && !v.template TryGet<Tr>(), "large alternative damaged");
			PBT_CHECK(w.template Get<Big>().Ok(5), "another Variant changed"); CheckFault(c, "operation"); changed |= alt == B;
			PBT_CHECK(Tr::live == (alt == I), "%ld alive", Tr::live);
		}
	}
}
PBT_TEST(C19, variant_shapes, 12000, pbt::F_NONE)
{
	Tr::Reset(); bool changed = false;
	switch (c.draw(4))
	{
	case 0: Shape<Variant<Big, Tr>, 0, 1>(c, changed); break;
	case 1: Shape<Variant<Tr, Big>, 1, 0>(c, changed); break;
	case 2: Shape<Variant<char, Tr, short, Big, char16_t>, 3, 1>(c, changed); break;
	default:
	{
		Variant<Tr> v{ Tr(1) }; int val = 1; size_t steps = 1 + c.size(20);
		for (size_t s = 0; s < steps; s++) { int x = (int)c.draw(9); switch (c.draw(4)) { case 0: v = Tr(x); val = x; break; case 1: { const Tr t(x); v = t; val = x; break; } case 2: { Variant<Tr> t(v); v = std::move(t); break; } default: { Variant<Tr> t(std::move(v)); v = t; changed = true; } } PBT_CHECK(v.Index() == 0 && v.Get<Tr>().Value() == val && Tr::live == 1, "single alternative"); CheckFault(c, "operation"); }
	}
	}
	PBT_CHECK(Tr::live == 0, "%ld alive at the end", Tr::live);
	c.note("shape"); if (changed) c.nontrivial();
}

// values that own other values of the same kind: a value is replaced by a part of itself
namespace
{
	struct NNode { Tr v; Ptr<Nullable<NNode>> next; };
	struct NNodeC { Tr v; Ptr<Nullable<NNodeC>> next; NNodeC(const Tr& _v, Ptr<Nullable<NNodeC>> _next) : v(_v), next(_next) {} NNodeC(const NNodeC&) = default; NNodeC(NNodeC&&) = default; NNodeC& operator=(const NNodeC&) = delete; };
	template<typename T>
	void Chain(Ctx& c)
	{
		Tr::Reset();
		{
			std::vector<int> vals; size_t n = 1 + c.size(8); Nullable<T> head;
			for (size_t i = 0; i < n; i++)
			{
				int v = (int)c.draw(100); Ptr<Nullable<T>> next; if (i) { next = Ptr(new Nullable<T>(std::move(head))); PBT_CHECK(!head, "a moved from Nullable is not empty"); }
				else if (c.boolean()) next = Ptr(new Nullable<T>()); // the chain ends with an empty one
				vals.insert(vals.begin(), v); if (c.boolean()) head = T{ Tr(v), next }; else { T t{ Tr(v), next }; head = t; }
			}
			if (n >= 3) c.nontrivial();
			bool ended = false;
			for (size_t k = 0; !ended; k++)
			{
				PBT_CHECK(head, "the chain of %zu ends after %zu", vals.size(), k); PBT_CHECK(head.Value().v.Value() == vals[k], "link %zu holds %d, expected %d", k, head.Value().v.Value(), vals[k]);
				PBT_CHECK(Tr::live == (long)(vals.size() - k), "%ld links are alive after %zu of %zu", Tr::live, k, vals.size());
				auto next = head.Value().next.Obj(); int how = (int)c.draw(3); c.note("link %d, advance %d", vals[k], how);
				if (!next) break;
				if (!*next) { ended = true; if (how == 2) how = 0; }
				if (how == 0) head = *next; else if (how == 1) head = std::move(*next); else head = next->Value();
				CheckFault(c, "advancing"); if (k + 1 == vals.size()) { PBT_CHECK(!head && Tr::live == 0, "the chain does not end"); break; }
			}
		}
		CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld links are alive at the end", Tr::live);
	}
}
PBT_TEST(C19, nullable_parts, 8000, pbt::F_NONE) { Chain<NNode>(c); }
PBT_TEST(C19, nullable_parts_noassign, 8000, pbt::F_NONE) { Chain<NNodeC>(c); }

namespace
{
	struct VNode;
	using VRec = Variant<int, Tr, WString, Ptr<VNode>, Pair<WString, Tr>>;
	struct VNode { VRec left, right; };
	std::string Text(const VRec& v)
	{
		if (auto p = v.TryGet<int>()) return std::to_string(*p);
		if (auto p = v.TryGet<Tr>()) return "t" + std::to_string(p->Value());
		if (auto p = v.TryGet<WString>()) { std::string r = "s"; for (vint i = 0; i < p->Length(); i++) r += (char)(*p)[i]; return r; }
		if (auto p = v.TryGet<Pair<WString, Tr>>()) return "[" + Text(VRec(p->key)) + "," + Text(VRec(p->value)) + "]";
		if (auto p = v.TryGet<Ptr<VNode>>()) return "(" + Text((*p)->left) + " " + Text((*p)->right) + ")";
		return "?";
	}
	long Count(const VRec& v)
	{
		if (v.TryGet<Tr>() || v.TryGet<Pair<WString, Tr>>()) return 1;
		if (auto p = v.TryGet<Ptr<VNode>>()) return Count((*p)->left) + Count((*p)->right);
		return 0;
	}
	VRec GenRec(Ctx& c, int depth)
	{
		switch (c.draw(depth ? 7 : 4))
		{
		case 0: return VRec((int)c.draw(50));
		case 1: return VRec(Tr((int)c.draw(50)));
		case 2: return VRec(itow((vint)c.draw(50) + 1000));
		case 3: return VRec(Pair<WString, Tr>(itow((vint)c.draw(50) + 1000), Tr((int)c.draw(50))));
		default: { VRec l = GenRec(c, depth - 1); return VRec(Ptr(new VNode{ l, GenRec(c, depth - 1) })); }
		}
	}
}
PBT_TEST(C19, variant_parts, 15000, pbt::F_NONE)
{
	Tr::Reset(); int moves = 0;
	{
		VRec v = GenRec(c, 5);
		for (size_t s = 0; s < 8; s++)
		{
			std::string e; c.note("%s", Text(v).c_str());
			if (auto p = v.TryGet<Ptr<VNode>>())
			{
				auto& part = c.boolean() ? (*p)->left : (*p)->right; e = Text(part); moves++;
				switch (c.draw(3))
				{
				case 0: v = part; break;
				case 1: v = std::move(part); break;
				default:
					if (auto q = part.TryGet<WString>()) { if (c.boolean()) v = *q; else v = std::move(*q); }
					else if (auto q = part.TryGet<Tr>()) { if (c.boolean()) v = *q; else v = std::move(*q); }
					else if (auto q = part.TryGet<Ptr<VNode>>()) { if (c.boolean()) v = *q; else v = std::move(*q); }
					else if (auto q = part.TryGet<int>()) { if (c.boolean()) v.Set(VariantIndex<0>{}, *q); else v = *q; }
					else v = part;
				}
			}
			else if (auto p = v.TryGet<Pair<WString, Tr>>())
			{
				moves++;
				if (c.boolean()) { e = Text(VRec(p->key)); switch (c.draw(3)) { case 0: v = p->key; break; case 1: v = std::move(p->key); break; default: v.Set(VariantIndex<2>{}, p->key); } }
				else { e = Text(VRec(p->value)); switch (c.draw(3)) { case 0: v = p->value; break; case 1: v = std::move(p->value); break; default: v.Set(VariantIndex<1>{}, p->value); } }
			}
			else if (auto p = v.TryGet<WString>()) { e = Text(v); if (c.boolean()) v = *p; else { e = "t" + std::to_string(p->Length()); v.Set(VariantIndex<1>{}, (int)p->Length()); } }
			else break;
			CheckFault(c, "assigning a part"); std::string g = Text(v);
			PBT_CHECK(g == e, "assigned a part %s of itself, a variant holds %s", e.c_str(), g.c_str());
			PBT_CHECK(Tr::live == Count(v), "%ld tracked values are alive instead of %ld", Tr::live, Count(v));
		}
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld tracked values are alive at the end", Tr::live);
	if (moves >= 3) c.nontrivial();
}

// values that only move, booleans, the shared empty value, comparisons of nested ones
namespace
{
	struct Mo { Tr t; explicit Mo(int v) : t(v) {} Mo(const Mo&) = delete; Mo(Mo&&) = default; Mo& operator=(const Mo&) = delete; Mo& operator=(Mo&&) = default; };
	struct VB : Object { int id; static inline int live = 0; VB(int i) : id(i) { live++; } ~VB() { live--; } };
	struct VD : VB { VD(int i) : VB(i) {} };
	struct ToText { int v; operator WString() const { return itow(v); } };
	using VC = Variant<WString, Ptr<VB>, Tr>;
	using VM = Variant<int, Mo, WString>;
	using VR = Variant<int, Tr, int, Tr>; // repeated alternatives are addressed by index
	template<int I> bool RepAt(const VR& v, int val) { bool ok = v.Index() == I; int calls = 0; v.Apply(Overloading([&](const int& x) { calls++; ok = ok && I % 2 == 0 && x == val; }, [&](const Tr& x) { calls++; ok = ok && I % 2 == 1 && x.Value() == val; })); return ok && calls == 1; }
	bool Rep(const VR& v, int alt, int val) { switch (alt) { case 0: return RepAt<0>(v, val); case 1: return RepAt<1>(v, val); case 2: return RepAt<2>(v, val); default: return RepAt<3>(v, val); } }
}
PBT_TEST(C19, variant_conversions, 15000, pbt::F_NONE)
{
	Tr::Reset(); VB::live = 0; int changes = 0;
	{
		VC v; int alt = 0, val = -1; PBT_CHECK(v.Index() == 0 && v.Get<WString>() == WString::Empty, "a new Variant"); auto keep = Ptr(new VD(77)); const Ptr<VD> ckeep = keep;
		size_t steps = 1 + c.size(25);
		for (size_t s = 0; s < steps; s++)
		{
			int x = (int)c.draw(9), before = alt; const char* op = "";
			switch (c.draw(14))
			{
			case 0: op = "text literal"; v = L"5"; alt = 0; val = 5; break;
			case 1: op = "derived pointer"; v = keep; alt = 1; val = 77; break;
			case 2: op = "const derived pointer"; v = ckeep; alt = 1; val = 77; break;
			case 3: op = "temporary derived pointer"; v = Ptr(new VD(x)); alt = 1; val = x; break;
			case 4: op = "integer"; v = x; alt = 2; val = x; break;
			case 5: op = "const integer"; { const int q = x; v = q; alt = 2; val = x; } break;
			case 6: op = "convertible object"; { const ToText q{ x }; if (c.boolean()) v = q; else v = ToText{ x }; alt = 0; val = x; } break;
			case 7: op = "construct from literal"; { VC t(L"8"); PBT_CHECK(t.Index() == 0, "a literal made alternative %d", (int)t.Index()); v = t; alt = 0; val = 8; } break;
			case 8: op = "construct from derived pointer"; { VC t(keep); PBT_CHECK(t.Index() == 1 && keep && t.Get<Ptr<VB>>() == keep, "a derived pointer made alternative %d", (int)t.Index()); if (c.boolean()) v = t; else v = std::move(t); alt = 1; val = 77; } break;
			case 9: op = "construct from moved pointer"; { auto q = Ptr(new VD(x)); VC t(std::move(q)); PBT_CHECK(!q && t.Index() == 1, "a moved pointer"); v = std::move(t); alt = 1; val = x; } break;
			case 10: op = "construct from integer"; { VC t(x); v = t; alt = 2; val = x; } break;
			case 11: op = "Set"; v.Set(VariantIndex<1>{}, keep); alt = 1; val = 77; PBT_CHECK(keep && v.Get<Ptr<VB>>() == keep, "Set of a pointer"); break;
			case 12: op = "Set moved"; { auto q = Ptr(new VD(x)); v.Set(VariantIndex<1>{}, std::move(q)); PBT_CHECK(!q, "Set of a moved pointer copied it"); alt = 1; val = x; } break;
			default: op = "exact"; switch (c.draw(3)) { case 0: v = itow(x); alt = 0; break; case 1: v = Ptr<VB>(new VD(x)); alt = 1; break; default: v = Tr(x); alt = 2; } val = x; break;
			}
			CheckFault(c, op); c.note("%s", op); changes += alt != before;
			PBT_CHECK(v.Index() == alt, "after %s: alternative %d instead of %d", op, (int)v.Index(), alt);
			int g = alt == 0 ? (v.Get<WString>().Length() ? (int)wtoi(v.Get<WString>()) : -1) : alt == 1 ? v.Get<Ptr<VB>>()->id : v.Get<Tr>().Value();
			PBT_CHECK(g == val, "after %s: alternative %d holds %d instead of %d", op, alt, g, val);
			PBT_CHECK(keep && ckeep && keep->id == 77 && VB::live == 1 + (alt == 1 && val != 77) && Tr::live == (alt == 2), "after %s: %d objects and %ld values are alive", op, VB::live, Tr::live);
		}
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0 && VB::live == 0, "%ld values and %d objects are alive at the end", Tr::live, VB::live);
	if (changes >= 3) c.nontrivial();
}
PBT_TEST(C19, variant_moveonly_repeated, 12000, pbt::F_NONE)
{
	Tr::Reset(); int changes = 0;
	{
		VM v[3] = { VM(0), VM(Mo(1)), VM(2) }; MV m[3] = { { 0, 0 }, { 1, 1 }, { 0, 2 } };
		VR r[2] = { VR(VariantIndex<0>{}, 0), VR(VariantIndex<3>{}, 1) }; MV mr[2] = { { 0, 0 }, { 3, 1 } };
		size_t steps = 1 + c.size(30);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(3), j = (int)c.draw(3), k = (int)c.draw(2), x = (int)c.draw(9), before = m[i].alt; const char* op = "";
			switch (c.draw(10))
			{
			case 0: op = "= int"; v[i] = x; m[i] = { 0, x }; break;
			case 1: op = "= move only"; { Mo q(x); v[i] = std::move(q); m[i] = { 1, x }; } break;
			case 2: op = "= text"; v[i] = itow(x); m[i] = { 2, x }; break;
			case 3: op = "Set move only"; if (c.boolean()) v[i].Set(VariantIndex<1>{}, Mo(x)); else { Mo q(x); v[i].Set(VariantIndex<1>{}, std::move(q)); } m[i] = { 1, x }; break;
			case 4: op = "move construct"; { VM t(std::move(v[j])); PBT_CHECK(t.Index() == m[j].alt, "a moved Variant holds alternative %d", (int)t.Index()); v[j] = std::move(t); } break;
			case 5: op = "move assign"; if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j] = x; m[j] = { 0, x }; } break;
			case 6: op = "Get moved"; if (m[i].alt == 1) { Mo q = std::move(v[i]).Get<Mo>(); PBT_CHECK(q.t.Value() == m[i].val, "Get of an rvalue"); v[i] = std::move(q); } break;
			case 7: op = "repeated Set"; switch (c.draw(4)) { case 0: r[k].Set(VariantIndex<0>{}, x); mr[k] = { 0, x }; break; case 1: r[k].Set(VariantIndex<1>{}, x); mr[k] = { 1, x }; break; case 2: r[k].Set(VariantIndex<2>{}, x); mr[k] = { 2, x }; break; default: r[k].Set(VariantIndex<3>{}, x); mr[k] = { 3, x }; } break;
			case 8: op = "repeated copy"; { VR t(r[k]); PBT_CHECK(Rep(t, mr[k].alt, mr[k].val), "a copy of repeated alternatives"); r[1 - k] = t; mr[1 - k] = mr[k]; } break;
			default: op = "repeated move"; { VR t(std::move(r[k])); PBT_CHECK(Rep(t, mr[k].alt, mr[k].val), "a moved Variant of repeated alternatives"); r[k] = VR(VariantIndex<2>{}, x); r[1 - k] = std::move(t); mr[1 - k] = mr[k]; mr[k] = { 2, x }; } break;
			}
			CheckFault(c, op); c.note("%s", op); changes += m[i].alt != before; long live = 0;
			for (int q = 0; q < 3; q++)
			{
				PBT_CHECK(v[q].Index() == m[q].alt, "after %s: alternative %d instead of %d", op, (int)v[q].Index(), m[q].alt); live += m[q].alt == 1;
				int g = m[q].alt == 0 ? v[q].Get<int>() : m[q].alt == 1 ? v[q].Get<Mo>().t.Value() : (int)wtoi(v[q].Get<WString>()); PBT_CHECK(g == m[q].val, "after %s: %d instead of %d", op, g, m[q].val);
			}
			for (int q = 0; q < 2; q++) { PBT_CHECK(Rep(r[q], mr[q].alt, mr[q].val), "after %s: repeated alternative %d with %d", op, (int)r[q].Index(), mr[q].val); live += mr[q].alt % 2; }
			PBT_CHECK(Tr::live == live, "after %s: %ld values alive instead of %ld", op, Tr::live, live);
		}
	}
	CheckFault(c, "destruction"); PBT_CHECK(Tr::live == 0, "%ld values are alive at the end", Tr::live);
	if (changes >= 3) c.nontrivial();
}
PBT_TEST(C19, nullable_values, 12000, pbt::F_NONE)
{
	Tr::Reset(); int filled = 0;
	{
		Nullable<bool> b[2]; int mb[2] = { -1, -1 }; Nullable<Ptr<VB>> p[2]; int mp[2] = { -1, -1 }; VB::live = 0; // -1 empty; for the pointer 0 is a null pointer
		size_t steps = 1 + c.size(25);
		for (size_t s = 0; s < steps; s++)
		{
			int i = (int)c.draw(2), j = (int)c.draw(2); const char* op = "";
			switch (c.draw(9))
			{
			case 0: { op = "bool"; bool x = c.boolean(); b[i] = x; mb[i] = x; filled++; break; }
			case 1: op = "bool reset"; b[i].Reset(); mb[i] = -1; break;
			case 2: op = "bool copy"; b[i] = b[j]; mb[i] = mb[j]; break;
			case 3: op = "bool empty"; b[i] = Nullable<bool>::Empty; mb[i] = -1; break;
			case 4: { op = "pointer"; int x = (int)c.draw(3); Ptr<VB> q; if (x) q = Ptr(new VD(x)); if (c.boolean()) p[i] = q; else p[i] = std::move(q); mp[i] = x; filled++; break; }
			case 5: op = "pointer reset"; if (c.boolean()) p[i].Reset(); else p[i] = Nullable<Ptr<VB>>::Empty; mp[i] = -1; break;
			case 6: op = "pointer copy"; p[i] = p[j]; mp[i] = mp[j]; break;
			case 7: op = "pointer move"; if (i != j) { p[i] = std::move(p[j]); mp[i] = mp[j]; mp[j] = -1; } break;
			default: op = "compare"; PBT_CHECK((b[0] == b[1]) == (mb[0] == mb[1]) && (b[0] < b[1]) == (mb[0] < mb[1]) && (b[0] > b[1]) == (mb[0] > mb[1]), "comparison of Nullable<bool> %d %d", mb[0], mb[1]);
			}
			c.note("%s", op);
			for (int k = 0; k < 2; k++)
			{
				PBT_CHECK((bool)b[k] == (mb[k] >= 0) && (mb[k] < 0 || b[k].Value() == (mb[k] == 1)), "after %s: Nullable<bool>", op);
				PBT_CHECK((bool)p[k] == (mp[k] >= 0) && (mp[k] < 0 || (mp[k] == 0 ? !p[k].Value() : p[k].Value() && p[k].Value()->id == mp[k])), "after %s: Nullable of a pointer", op);
			}
			bool same = mp[0] > 0 && mp[1] > 0 && p[0].Value() == p[1].Value(); PBT_CHECK(VB::live == (mp[0] > 0) + (mp[1] > 0) - same, "after %s: %d objects are alive", op, VB::live);
			PBT_CHECK(!Nullable<bool>::Empty && !Nullable<Ptr<VB>>::Empty && !Nullable<WString>::Empty && ThrowsError([] { Nullable<WString>::Empty.Value(); }), "the shared empty value is not empty");
		}
	}
	PBT_CHECK(VB::live == 0, "%d objects are alive at the end", VB::live);
	if (filled >= 3) c.nontrivial();
}
