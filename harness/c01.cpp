// C01: strings are immutable values: every operation gives the text an ordinary sequence would, and no
// operation on one string ever changes another, however they share storage.
#include "util.h"
using namespace vl;
using pbt::Ctx;

PBT_RULE(C01,
	"Each case (the large ones with texts of up to 65538 characters, joined up to 300000) is a history of up to 60 operations (construct, copy, move, assign, slice, concatenate, insert, remove, Buffer, compare, cast, "
	"take over, destroy, plus out-of-range calls) over a pool of 6 strings mirrored by std::basic_string; after every operation the touched strings, "
	"and at the end all strings, every remembered Buffer() pointer and every unmanaged source are compared with the model. "
	"Non-trivial: the history sliced a string and then derived or modified another string that shares its storage.");

namespace
{
	const int POOL = 6;

	template<typename T> struct Twin { using type = void; };
	template<> struct Twin<char> { using type = char8_t; };
	template<> struct Twin<char8_t> { using type = char; };
	template<> struct Twin<wchar_t> { using type = char32_t; };
	template<> struct Twin<char32_t> { using type = wchar_t; };

	template<typename T>
	struct Model
	{
		using S = ObjectString<T>;
		using M = std::basic_string<T>;
		Ctx& c;
		S s[POOL];
		M m[POOL];
		const T* seen[POOL] = {};            // last pointer returned by Buffer() while the string was not changed
		std::vector<std::unique_ptr<std::vector<T>>> raws; // memory behind unmanaged strings
		std::vector<std::vector<T>> rawCopies;
		bool sliced = false, afterSlice = false;

		Model(Ctx& _c) :c(_c) {}

		void Verify(int i, const char* op)
		{
			PBT_CHECK(s[i].Length() == (vint)m[i].size(), "after %s: length %lld, expected %zu %s", op, (long long)s[i].Length(), m[i].size(), Show(m[i]).c_str());
			for (vint k = 0; k < (vint)m[i].size(); k++)
				PBT_CHECK(s[i][k] == m[i][k], "after %s: wrong character at %lld of %s", op, (long long)k, Show(m[i]).c_str());
		}
		void VerifyBuffer(int i, const char* op)
		{
			const T* p = s[i].Buffer();
			for (size_t k = 0; k < m[i].size(); k++)
				PBT_CHECK(p[k] == m[i][k], "after %s: Buffer() wrong at %zu of %s", op, k, Show(m[i]).c_str());
			PBT_CHECK(p[m[i].size()] == 0, "after %s: Buffer() of %s is not zero terminated", op, Show(m[i]).c_str());
			Verify(i, op);
			seen[i] = p;
		}
		void VerifySeen(int i, const char* op)
		{
			if (!seen[i]) return;
			for (size_t k = 0; k < m[i].size(); k++)
				PBT_CHECK(seen[i][k] == m[i][k], "%s disturbed the buffer of another string %s", op, Show(m[i]).c_str());
			PBT_CHECK(seen[i][m[i].size()] == 0, "%s disturbed the terminator of another string %s", op, Show(m[i]).c_str());
		}
		void Set(int i, const M& v) { m[i] = v; seen[i] = nullptr; if (sliced) afterSlice = true; }

		// a zero terminated copy that outlives the case
		const T* Raw(const M& v)
		{
			auto p = std::make_unique<std::vector<T>>(v.begin(), v.end());
			p->push_back(0);
			rawCopies.push_back(*p);
			raws.push_back(std::move(p));
			return raws.back()->data();
		}

		void Step()
		{
			int a = (int)c.draw(POOL), b = (int)c.draw(POOL);
			vint len = (vint)m[a].size();
			// an argument that is mostly valid in [0,hi], sometimes out of range on either side
			auto arg = [&](vint hi) -> vint
			{
				switch (c.draw(12))
				{
				case 10: return hi + 1 + (vint)c.draw(3);
				case 11: { static const vint bad[] = { -1, -2, -100, (vint)0x7FFFFFFFFFFFFFFFll, (vint)0x8000000000000000ull }; return bad[c.draw(5)]; }
				case 9: return hi;
				default: return hi <= 0 ? 0 : (vint)c.draw((uint64_t)hi + 1);
				}
			};
			switch (c.draw(25))
			{
			case 22:
			{
				// text that lies in the buffer of one of the strings, possibly of the one that is changed
				const T* p = s[b].Buffer(); VerifyBuffer(b, "Buffer"); size_t k = c.draw(m[b].size() + 1); if (m[b].find((T)0) != M::npos) break;
				M tail = m[b].substr(k), v; uint64_t how = c.draw(4); if (m[a].size() + tail.size() > (LargeTexts::On() ? 300000u : 4000u)) break;
				c.note("s%d %s the buffer of s%d from %zu", a, how == 0 ? "=" : how == 1 ? "+=" : how == 2 ? "= itself +" : "= that + itself, that being", b, k);
				switch (how) { case 0: s[a] = p + k; v = tail; break; case 1: s[a] += p + k; v = m[a] + tail; break; case 2: s[a] = s[a] + (p + k); v = m[a] + tail; break; default: s[a] = (p + k) + s[a]; v = tail + m[a]; }
				Set(a, v); Verify(a, "text from a buffer"); Verify(b, "text from a buffer");
				break;
			}
			case 23:
			{
				// a string that was moved from is still a string: empty, unchanged, or what the target was
				c.note("s%d = std::move(s%d)", a, b); M ma = m[a], mb = m[b];
				if (c.boolean()) { s[a] = std::move(s[b]); if (a == b) { Verify(a, "self move"); break; } }
				else { S t(std::move(s[b])); s[a] = t; if (a == b) { Verify(a, "move out and back"); break; } }
				M left(s[b].Length() < 0 ? 0 : (size_t)s[b].Length(), (T)0); for (vint k = 0; k < s[b].Length(); k++) left[k] = s[b][k];
				PBT_CHECK(left.empty() || left == ma || left == mb, "a moved string is left with foreign content %s", Show(left).c_str());
				Set(a, mb); Set(b, left); Verify(a, "move"); VerifyBuffer(b, "move");
				break;
			}
			case 24:
			{
				// many owners of one storage
				size_t n = c.size(40) + (c.chance(1, 50) ? 300 : 0); c.note("%zu copies and slices of s%d come and go", n, a); std::vector<S> many; std::vector<M> wants;
				for (size_t k = 0; k < n; k++)
				{
					vint i = (vint)c.draw(len + 1), l = c.boolean() ? len - i : (vint)c.draw(len - i + 1); if (c.boolean()) { i = 0; l = len; }
					many.push_back(s[a].Sub(i, l)); wants.push_back(m[a].substr(i, l)); if (c.chance(1, 4)) many.back().Buffer();
				}
				if (c.boolean()) { s[a] = S(); Set(a, M()); }
				while (many.size())
				{
					size_t k = c.draw(many.size()); PBT_CHECK(many[k].Length() == (vint)wants[k].size() && std::equal(wants[k].begin(), wants[k].end(), many[k].Buffer()), "one of many slices changed");
					many[k] = many.back(); wants[k] = wants.back(); many.pop_back(); wants.pop_back();
				}
				Verify(a, "many owners");
				break;
			}
			case 0: { M v = GenStr<T>(c, 40); c.note("s%d = new string(%s)", a, Show(v).c_str()); s[a] = S(v.c_str()); Set(a, v); Verify(a, "construct"); break; }
			case 1: { c.note("s%d = copy of s%d", a, b); S t(s[b]); s[a] = t; Set(a, M(m[b])); Verify(a, "copy"); Verify(b, "copy"); break; }
			case 2:
			{
				c.note("s%d = move of s%d", a, b);
				S t(std::move(s[b])); M mt = m[b];
				// a moved-from string is still a valid (empty) string
				if (a == b) { s[a] = std::move(t); Set(a, mt); }
				else { s[b] = S(); Set(b, M()); s[a] = std::move(t); Set(a, mt); }
				Verify(a, "move"); Verify(b, "move");
				break;
			}
			case 3: { c.note("s%d = s%d", a, b); s[a] = s[b]; if (a != b) Set(a, M(m[b])); Verify(a, "assign"); Verify(b, "assign"); break; }
			case 4: case 5:
			{
				vint i = arg(len), n = arg(len >= i && i >= 0 ? len - i : len);
				bool ok = i >= 0 && i <= len && n >= 0 && n <= len - i;
				c.note("s%d = s%d.Sub(%lld,%lld)%s", b, a, (long long)i, (long long)n, ok ? "" : " -> error");
				if (ok) { M v = m[a].substr(i, n); s[b] = s[a].Sub(i, n); Set(b, v); if (n && n < len) sliced = true; Verify(b, "Sub"); Verify(a, "Sub"); }
				else { PBT_CHECK(ThrowsError([&] { s[a].Sub(i, n); }), "Sub(%lld,%lld) of a string of length %lld is accepted", (long long)i, (long long)n, (long long)len); c.label("error path"); }
				break;
			}
			case 6:
			{
				vint n = arg(len); bool ok = n >= 0 && n <= len; bool left = c.boolean();
				c.note("s%d = s%d.%s(%lld)%s", b, a, left ? "Left" : "Right", (long long)n, ok ? "" : " -> error");
				if (ok) { M v = left ? m[a].substr(0, n) : m[a].substr(len - n); s[b] = left ? s[a].Left(n) : s[a].Right(n); Set(b, v); if (n && n < len) sliced = true; Verify(b, "Left/Right"); Verify(a, "Left/Right"); }
				else { PBT_CHECK(ThrowsError([&] { if (left) s[a].Left(n); else s[a].Right(n); }), "Left/Right(%lld) of a string of length %lld is accepted", (long long)n, (long long)len); c.label("error path"); }
				break;
			}
			case 7: case 8:
			{
				vint i = arg(len), n = arg(len >= i && i >= 0 ? len - i : len);
				bool ok = i >= 0 && i < len && n >= 0 && n <= len - i;
				c.note("s%d = s%d.Remove(%lld,%lld)%s", b, a, (long long)i, (long long)n, ok ? "" : " -> error");
				if (ok) { M v = m[a]; v.erase(i, n); s[b] = s[a].Remove(i, n); Set(b, v); Verify(b, "Remove"); Verify(a, "Remove"); }
				else { PBT_CHECK(ThrowsError([&] { s[a].Remove(i, n); }), "Remove(%lld,%lld) of a string of length %lld is accepted", (long long)i, (long long)n, (long long)len); c.label("error path"); }
				break;
			}
			case 9: case 10:
			{
				int d = (int)c.draw(POOL); vint i = arg(len); bool ok = i >= 0 && i <= len;
				c.note("s%d = s%d.Insert(%lld,s%d)%s", d, a, (long long)i, b, ok ? "" : " -> error");
				if (ok) { M v = m[a]; v.insert(i, m[b]); if (v.size() > (LargeTexts::On() ? 300000u : 4000u)) break; s[d] = s[a].Insert(i, s[b]); Set(d, v); Verify(d, "Insert"); Verify(a, "Insert"); Verify(b, "Insert"); }
				else { PBT_CHECK(ThrowsError([&] { s[a].Insert(i, s[b]); }), "Insert(%lld) into a string of length %lld is accepted", (long long)i, (long long)len); c.label("error path"); }
				break;
			}
			case 11: { int d = (int)c.draw(POOL); c.note("s%d = s%d + s%d", d, a, b); M v = m[a] + m[b]; if (v.size() > (LargeTexts::On() ? 300000u : 4000u)) break; s[d] = s[a] + s[b]; Set(d, v); Verify(d, "+"); Verify(a, "+"); Verify(b, "+"); break; }
			case 12: { c.note("s%d += s%d", a, b); M v = m[a] + m[b]; if (v.size() > (LargeTexts::On() ? 300000u : 4000u)) break; auto& r = (s[a] += s[b]); PBT_CHECK(&r == &s[a], "+= does not return itself"); Set(a, v); Verify(a, "+="); if (a != b) Verify(b, "+="); break; }
			case 13:
			{
				M z = GenStr<T>(c, 8);
				switch (c.draw(3))
				{
				case 0: c.note("s%d += %s", a, Show(z).c_str()); s[a] += z.c_str(); Set(a, m[a] + z); break;
				case 1: c.note("s%d = s%d + %s", a, b, Show(z).c_str()); { M v = m[b] + z; s[a] = s[b] + z.c_str(); Set(a, v); } break;
				default: c.note("s%d = %s + s%d", a, Show(z).c_str(), b); { M v = z + m[b]; s[a] = z.c_str() + s[b]; Set(a, v); } break;
				}
				Verify(a, "concatenate raw");
				break;
			}
			case 14: c.note("s%d.Buffer()", a); VerifyBuffer(a, "Buffer"); break;
			case 15:
			{
				vint i = arg(len - 1); bool ok = i >= 0 && i < len;
				c.note("s%d[%lld]%s", a, (long long)i, ok ? "" : " -> error");
				if (ok) PBT_CHECK(s[a][i] == m[a][i], "wrong character at %lld", (long long)i);
				else PBT_CHECK(ThrowsError([&] { volatile T x = s[a][i]; (void)x; }), "[%lld] of a string of length %lld is accepted", (long long)i, (long long)len);
				break;
			}
			case 16:
			{
				T ch = GenChar<T>(c); auto p = m[a].find(ch);
				c.note("s%d.IndexOf(..)", a);
				PBT_CHECK(s[a].IndexOf(ch) == (p == M::npos ? -1 : (vint)p), "IndexOf is wrong in %s", Show(m[a]).c_str());
				break;
			}
			case 17:
			{
				// contents given by length may contain zero characters
				M v = GenStr<T>(c, 12, 10);
				c.note("s%d = CopyFrom(%s)", a, Show(v).c_str());
				if (c.chance(1, 20)) { PBT_CHECK(ThrowsError([&] { S::CopyFrom(v.data(), -1); }), "CopyFrom with a negative length is accepted"); break; }
				std::vector<T> exact(v.begin(), v.end()); // no terminator behind it
				s[a] = S::CopyFrom(exact.data(), (vint)exact.size()); Set(a, v); Verify(a, "CopyFrom");
				break;
			}
			case 18:
			{
				M v = GenStr<T>(c, 12, 10); T* buf = new T[v.size() + 1]; memcpy(buf, v.c_str(), sizeof(T) * (v.size() + 1));
				c.note("s%d = TakeOver(%s)", a, Show(v).c_str());
				if (c.chance(1, 20))
				{
					buf[v.size()] = (T)'x';
					bool e = ThrowsError([&] { S::TakeOver(buf, (vint)v.size()); }); delete[] buf;
					PBT_CHECK(e, "TakeOver of an unterminated buffer is accepted"); break;
				}
				s[a] = S::TakeOver(buf, (vint)v.size()); Set(a, v); Verify(a, "TakeOver");
				break;
			}
			case 19:
			{
				M v = GenStr<T>(c, 12); c.note("s%d = Unmanaged(%s)", a, Show(v).c_str());
				const T* p = Raw(v); s[a] = S::Unmanaged(p); Set(a, v); Verify(a, "Unmanaged");
				break;
			}
			case 20:
			{
				using T2 = typename Twin<T>::type;
				if constexpr (!std::is_void_v<T2>)
				{
					c.note("s%d = cast there and back of s%d", a, b);
					auto t = ObjectString<T2>::UnsafeCastFrom(s[b]);
					PBT_CHECK(t.Length() == (vint)m[b].size(), "UnsafeCastFrom changes the length");
					for (vint k = 0; k < t.Length(); k++) PBT_CHECK((T)t[k] == m[b][k], "UnsafeCastFrom changes character %lld", (long long)k);
					M v = m[b]; s[a] = S::UnsafeCastFrom(t); Set(a, v); Verify(a, "UnsafeCastFrom"); Verify(b, "UnsafeCastFrom");
				}
				else { M v(1, GenChar<T>(c)); s[a] = S::FromChar(v[0]); Set(a, v); Verify(a, "FromChar"); }
				break;
			}
			case 21:
			{
				switch (c.draw(3))
				{
				case 0: { c.note("s%d = string()", a); s[a] = S(); Set(a, M()); Verify(a, "reset"); break; }
				case 1: { M v(1, GenChar<T>(c)); c.note("s%d = FromChar", a); s[a] = S::FromChar(v[0]); Set(a, v); Verify(a, "FromChar"); break; }
				default: PBT_CHECK(ThrowsError([&] { S x((const T*)nullptr); }), "construction from nullptr is accepted");
				}
				break;
			}
			}
			PBT_CHECK(S::Empty.Length() == 0, "the shared empty string changed");
		}

		void Run()
		{
			size_t steps = 1 + c.size(LargeTexts::On() ? 25 : 60);
			for (int i = 0; i < POOL; i++)
				if (c.chance(3, 4)) { m[i] = GenStr<T>(c, 30); s[i] = S(m[i].c_str()); c.note("s%d = %s", i, Show(m[i]).c_str()); }
			for (size_t k = 0; k < steps; k++)
			{
				Step();
				for (int i = 0; i < POOL; i++) VerifySeen(i, "an operation");
			}
			for (int i = 0; i < POOL; i++) Verify(i, "the whole history");
			// destroying some owners must leave the others intact
			for (int i = 0; i < POOL; i++)
			{
				if (c.boolean()) { s[i] = S(); Set(i, M()); }
				for (int j = 0; j < POOL; j++) VerifySeen(j, "destruction");
			}
			for (int i = 0; i < POOL; i++) VerifyBuffer(i, "destroying other strings");
			for (size_t i = 0; i < raws.size(); i++) PBT_CHECK(*raws[i] == rawCopies[i], "memory behind an unmanaged string was written");
			if (afterSlice) c.nontrivial();
			if (sliced) c.label("sliced");
		}
	};
}

#define ONE(NAME, T) PBT_TEST(C01, NAME, 20000, pbt::F_NONE) { Model<T> m(c); m.Run(); } \
	PBT_TEST(C01, large_##NAME, 250, pbt::F_NOFUZZ) { LargeTexts large; Model<T> m(c); m.Run(); }
ONE(history_char, char)
ONE(history_wchar, wchar_t)
ONE(history_char8, char8_t)
ONE(history_char16, char16_t)
ONE(history_char32, char32_t)
