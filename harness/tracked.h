#pragma once
#include "util.h"
#include <optional>

// An element type that notices every lifetime mistake: it owns heap memory (AddressSanitizer sees double
// destruction and use after destruction, the heap balance sees leaks), knows its own address (sees bitwise
// relocation) and counts live objects.
struct Tr
{
	static inline long live = 0;
	static inline long copies = 0;
	static inline const char* fault = nullptr;
	Tr* self;
	int* p;      // null: moved from

	void Check() const { if (self != this) fault = "operation on an object that was never constructed, was destroyed or was relocated bitwise"; }
	Tr() : self(this), p(new int(0)) { live++; }
	Tr(int v) : self(this), p(new int(v)) { live++; }
	Tr(const Tr& o) : self(this) { o.Check(); p = o.p ? new int(*o.p) : nullptr; live++; copies++; }
	Tr(Tr&& o) : self(this) { o.Check(); p = o.p; o.p = nullptr; live++; }
	~Tr() { Check(); delete p; p = nullptr; self = nullptr; live--; }
	Tr& operator=(const Tr& o) { Check(); o.Check(); if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; copies++; } return *this; }
	Tr& operator=(Tr&& o) { Check(); o.Check(); if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
	int Value() const { Check(); return p ? *p : -999999; }
	bool operator==(const Tr& o) const { return Value() == o.Value(); }
	std::strong_ordering operator<=>(const Tr& o) const { return Value() <=> o.Value(); }
	static void Reset() { live = 0; copies = 0; fault = nullptr; }
};

// Knows its own address like Tr, but has nothing to destroy: its destructor is trivial although its copies and moves are not.
// It has no move operations, so moves fall back to copies.
struct Sr
{
	static inline long live = -1; // unknown
	Sr* self; int v;
	static void Reset() { Tr::fault = nullptr; }
	int Value() const { Check(); return v; }
	void Check() const { if (self != this) Tr::fault = "operation on an object that was never constructed or was relocated bitwise"; }
	Sr() : self(this), v(0) {}
	Sr(int _v) : self(this), v(_v) {}
	Sr(const Sr& o) : self(this), v(o.v) { o.Check(); }
	Sr& operator=(const Sr& o) { Check(); o.Check(); v = o.v; return *this; }
	bool operator==(const Sr& o) const { Check(); o.Check(); return v == o.v; }
	std::strong_ordering operator<=>(const Sr& o) const { Check(); o.Check(); return v <=> o.v; }
};
static_assert(std::is_trivially_destructible_v<Sr> && !std::is_trivially_copy_constructible_v<Sr> && !std::is_trivially_move_assignable_v<Sr>);

// Counts live objects; its assignments are trivial although its construction and destruction are not.
struct Cn
{
	static inline long live = 0;
	int v;
	static void Reset() { live = 0; Tr::fault = nullptr; }
	int Value() const { return v; }
	Cn() : v(0) { live++; }
	Cn(int _v) : v(_v) { live++; }
	Cn(const Cn& o) : v(o.v) { live++; }
	~Cn() { live--; v = -888888; }
	Cn& operator=(const Cn&) = default;
	bool operator==(const Cn& o) const { return v == o.v; }
	std::strong_ordering operator<=>(const Cn& o) const { return v <=> o.v; }
};
static_assert(std::is_trivially_move_assignable_v<Cn> && !std::is_trivially_destructible_v<Cn>);

// plain bytes of an odd size
struct Odd
{
	unsigned char b[7];
	int V() const { return b[0] | b[1] << 8 | b[2] << 16 | b[6] << 24; }
	static Odd Make(int v) { Odd o; o.b[0] = (unsigned char)v; o.b[1] = (unsigned char)(v >> 8); o.b[2] = (unsigned char)(v >> 16); o.b[3] = o.b[4] = o.b[5] = 9; o.b[6] = (unsigned char)(v >> 24); return o; }
	bool operator==(const Odd& o) const { return V() == o.V(); }
	std::strong_ordering operator<=>(const Odd& o) const { return V() <=> o.V(); }
};
static_assert(sizeof(Odd) == 7);

// element kinds: how to make one from an int and read it back
template<typename T> struct Elem;
template<> struct Elem<int>
{
	static int Make(int v) { return v; }
	static int Read(const int& x) { return x; }
	static constexpr bool hasDefault = false; // value-initialised storage is not promised for trivial types
};
template<> struct Elem<Tr>
{
	static Tr Make(int v) { return Tr(v); }
	static int Read(const Tr& x) { return x.Value(); }
	static constexpr bool hasDefault = true;
};
template<> struct Elem<vl::WString>
{
	static vl::WString Make(int v) { return v == 0 ? vl::WString() : vl::itow(v); }
	static int Read(const vl::WString& x) { return x.Length() == 0 ? 0 : (int)vl::wtoi(x); }
	static constexpr bool hasDefault = true;
};

template<> struct Elem<Sr>
{
	static Sr Make(int v) { return Sr(v); }
	static int Read(const Sr& x) { x.Check(); return x.v; }
	static constexpr bool hasDefault = true;
};
template<> struct Elem<Cn>
{
	static Cn Make(int v) { return Cn(v); }
	static int Read(const Cn& x) { return x.v; }
	static constexpr bool hasDefault = true;
};
template<> struct Elem<Odd>
{
	static Odd Make(int v) { return Odd::Make(v); }
	static int Read(const Odd& x) { return x.V(); }
	static constexpr bool hasDefault = false;
};

// objects a container of T is expected to keep alive
template<typename T> void CheckLive(pbt::Ctx& c, size_t elements, const char* after)
{
	long g = (long)elements; if constexpr (std::is_same_v<T, Cn>) g = Cn::live; else if constexpr (std::is_same_v<T, Tr>) g = Tr::live;
	if (g != (long)elements) c.fail("after %s: %ld objects are alive for %zu elements", after, g, elements);
}

inline void CheckFault(pbt::Ctx& c, const char* after)
{
	if (Tr::fault) { const char* f = Tr::fault; Tr::fault = nullptr; c.fail("after %s: %s", after, f); }
}

// short texts over few letters: many are equal, and many are the beginning of another
inline std::wstring GenTextKey(pbt::Ctx& c)
{
	static const wchar_t letters[] = { L'a', L'b', L'A', L'~', (wchar_t)0x4E2D, (wchar_t)0x1F600 };
	std::wstring r; size_t n = c.draw(5); int kinds = c.boolean() ? 2 : 6; for (size_t i = 0; i < n; i++) r += letters[c.draw(kinds)]; return r;
}
