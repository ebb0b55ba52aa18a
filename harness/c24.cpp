// C24: LoremIpsum
#include "util.h"
using namespace vl;
using pbt::Ctx;

PBT_RULE(C24,
	"Each case asks for one to six texts of generated sizes (negative, zero, one to 3000) in every casing and checks termination, alphabet, word separation, casing, final period and that the length is the closest to the requested one that whole words allow (within 15 characters for a paragraph). Non-trivial: a size of at least 20.");

namespace
{
	bool Up(wchar_t x) { return x >= L'A' && x <= L'Z'; }
	bool Low(wchar_t x) { return (x >= L'a' && x <= L'z') || x == L';'; } // one of the words is "curae;"
	vint GenSize(Ctx& c) { switch (c.draw(6)) { case 0: return (vint)c.draw(3); case 1: return (vint)c.draw(25); case 2: return -(vint)c.draw(100); case 3: return (vint)c.draw(3001); default: return (vint)c.draw(200); } }
	void Near(Ctx& c, const WString& s, vint best, const char* what, vint limit) { if (best < 0) best = 0; vint d = s.Length() - best; PBT_CHECK(d < limit && d > -limit, "%s of size %d has %d characters", what, (int)best, (int)s.Length()); }
	// whole words: one word when even that is too long, otherwise ending a word earlier (or, no word having more than 13 characters, later) comes no closer
	void Closest(Ctx& c, const WString& s, vint best, const char* what)
	{
		if (best < 0) best = 0;
		vint sp = s.Length(); while (sp > 0 && s[sp - 1] != L' ') sp--;
		if (sp == 0) { PBT_CHECK(s.Length() < best + 14 && s.Length() > best - 8, "%s of size %d is a single word of %d characters", what, (int)best, (int)s.Length()); return; }
		Near(c, s, best, what, 8);
		PBT_CHECK(s.Length() <= best || s.Length() - best <= best - (sp - 1), "%s of size %d has %d characters, without its last word it would have %d", what, (int)best, (int)s.Length(), (int)(sp - 1));
	}
	// words separated by single spaces; casing: 0 all lower, 1 first word, 2 all words
	void Words(Ctx& c, const WString& s, int casing)
	{
		for (vint i = 0; i < s.Length(); i++)
		{
			bool start = i == 0 || s[i - 1] == L' ';
			if (s[i] == L' ') { PBT_CHECK(!start && i + 1 < s.Length(), "misplaced space at %d", (int)i); continue; }
			bool upper = start && (casing == 2 || (casing == 1 && i == 0));
			PBT_CHECK(upper ? Up(s[i]) : Low(s[i]), "character %d of a text with casing %d is U+%04X", (int)i, casing, (unsigned)s[i]);
		}
	}
}
PBT_TEST(C24, words, 15000, pbt::F_NONE)
{
	size_t n = 1 + c.size(5);
	for (size_t k = 0; k < n; k++)
	{
		vint best = GenSize(c); int kind = (int)c.draw(5); if (best >= 20) c.nontrivial(); c.note("kind %d size %d", kind, (int)best);
		if (kind < 3)
		{
			static const LoremIpsumCasing cs[] = { LoremIpsumCasing::AllWordsLowerCase, LoremIpsumCasing::FirstWordUpperCase, LoremIpsumCasing::AllWordsUpperCase };
			WString s = LoremIpsum(best, cs[kind]); Closest(c, s, best, "LoremIpsum"); Words(c, s, kind); PBT_CHECK((s.Length() > 0) == (best > 0), "text of size %d has %d characters", (int)best, (int)s.Length());
		}
		else if (kind == 3) { WString s = LoremIpsumTitle(best); Closest(c, s, best, "LoremIpsumTitle"); Words(c, s, 2); }
		else { WString s = LoremIpsumSentence(best); PBT_CHECK(s.Length() > 0 && s[s.Length() - 1] == L'.', "a sentence does not end with a period"); Closest(c, s.Left(s.Length() - 1), best, "LoremIpsumSentence"); Words(c, s.Left(s.Length() - 1), 1); }
	}
}
// the library seeds rand() from the clock; these replacements make a case reproducible and its random decisions part of the input
static uint64_t randState = 1;
extern "C" void srand(unsigned) noexcept {}
extern "C" int rand() noexcept { randState = randState * 6364136223846793005ull + 1442695040888963407ull; return (int)(randState >> 33); }
PBT_TEST(C24, paragraph, 10000, pbt::F_NONE)
{
	randState = c.bits64();
	vint best = GenSize(c); if (best >= 20) c.nontrivial(); c.note("size %d", (int)best);
	WString s = LoremIpsumParagraph(best); Near(c, s, best, "LoremIpsumParagraph", 16);
	if (best <= 0) return;
	PBT_CHECK(s.Length() > 0 && s[s.Length() - 1] == L'.', "a paragraph of size %d does not end with a period but with U+%04X", (int)best, s.Length() ? (unsigned)s[s.Length() - 1] : 0);
	bool sentence = true, clause = false;
	for (vint i = 0; i < s.Length(); i++)
	{
		wchar_t x = s[i]; wchar_t p = i ? s[i - 1] : 0;
		if (x == L' ') { PBT_CHECK(i + 1 < s.Length() && p != L' ' && p, "misplaced space at %d", (int)i); PBT_CHECK((p != L'.' && p != L',') || s[i + 1] != p, "an empty sentence at %d", (int)i); continue; }
		if (x == L'.' || x == L',') { PBT_CHECK(s.Length() == 1 || Low(p) || Up(p), "punctuation without a word before it at %d", (int)i); sentence = x == L'.'; clause = x == L','; continue; }
		PBT_CHECK(sentence ? Up(x) : Low(x), "character %d is U+%04X, start of sentence: %d, after comma: %d", (int)i, (unsigned)x, (int)sentence, (int)clause);
		sentence = clause = false;
	}
}
