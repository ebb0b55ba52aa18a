// C26: console output and input
#include "child.h"
#include "util.h"
#include "utf.h"
#include <locale.h>
#include <iostream>
#include <fcntl.h>
using namespace vl;
using pbt::Ctx;
using vl::console::Console;

PBT_RULE(C26,
	"Each case runs, in a child process with a UTF-8 locale and with files as standard streams, up to 20 console operations (Write of a pointer, of a pointer and a length, of strings and slices, WriteLine, SetColor, SetTitle, Read) with texts of all Unicode planes "
	"and an input of up to 12 lines. The bytes written (zero characters set aside) and the lines read are compared with a reference encoding. Non-trivial: at least two writes of different kinds and one non-ASCII character.");

namespace
{
	std::string Utf8(const std::wstring& s)
	{
		std::string r;
		for (wchar_t w : s)
		{
			uint32_t x = (uint32_t)w;
			if (x < 0x80) r += (char)x;
			else if (x < 0x800) { r += (char)(0xC0 | (x >> 6)); r += (char)(0x80 | (x & 63)); }
			else if (x < 0x10000) { r += (char)(0xE0 | (x >> 12)); r += (char)(0x80 | ((x >> 6) & 63)); r += (char)(0x80 | (x & 63)); }
			else { r += (char)(0xF0 | (x >> 18)); r += (char)(0x80 | ((x >> 12) & 63)); r += (char)(0x80 | ((x >> 6) & 63)); r += (char)(0x80 | (x & 63)); }
		}
		return r;
	}
	std::wstring GenText(Ctx& c, size_t max, bool line)
	{
		std::wstring s; size_t n = c.chance(1, 40) ? (size_t)GenLargeSize(c) + (c.chance(1, 4) ? 65536 : 0) : c.size(max); size_t unit = n > 200 ? 1 + c.draw(100) : 0;
		for (size_t i = 0; i < n; i++)
		{
			uint32_t x; if (unit && i >= unit) { s += s[i - unit]; continue; }
			switch (c.draw(8))
			{
			case 0: case 1: case 2: case 3: x = 'a' + (uint32_t)c.draw(26); break;
			case 4: x = 1 + (uint32_t)c.draw(0x7F); break;
			case 5: x = 0x80 + (uint32_t)c.draw(0x780); break;
			case 6: x = 0x800 + (uint32_t)c.draw(0xF800); break;
			default: x = 0x10000 + (uint32_t)c.draw(0x100000); break;
			}
			if (x >= 0xD800 && x <= 0xDFFF) x = 0x4E2D;
			if (line && x == '\n') x = ' ';
			s += (wchar_t)x;
		}
		// blanks, control characters and repetitions at either end
		static const wchar_t blanks[] = { L' ', L'\r', L'\t', L'\f', L'\v', L'\b', L'\x1B', L'.', (wchar_t)0xFEFF, (wchar_t)0xA0 };
		if (c.chance(1, 3)) { std::wstring b; wchar_t x = blanks[c.draw(10)]; size_t k = 1 + c.draw(3); for (size_t i = 0; i < k; i++) { b += x; if (c.chance(1, 4)) x = blanks[c.draw(10)]; } if (c.chance(2, 3)) s += b; else s = b + s; }
		return s;
	}
	struct Op { int kind; std::wstring text; int arg; };
	struct Result { int reads; bool ok[64]; int utf8; };
	std::string Slurp(int fd) { std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof(b))) > 0) r.append(b, k); return r; }
}

PBT_TEST(C26, streams, 3000, pbt::F_NOFUZZ)
{
	std::vector<Op> ops; std::vector<std::wstring> lines; bool lastLineEnds = true;
	size_t nl = c.size(12);
	for (size_t i = 0; i < nl; i++) lines.push_back(GenText(c, 30, true));
	for (auto& l : lines) if (c.chance(1, 8)) l.insert(l.begin() + (ptrdiff_t)c.draw(l.size() + 1), L'\0');
	if (nl && c.chance(1, 4)) { lastLineEnds = false; if (lines.back().empty()) lines.back() = L"q"; }
	size_t n = 1 + c.size(19); int writes = 0; unsigned kinds = 0; bool wide = false; int reads = 0; bool zero = false;
	for (size_t i = 0; i < n; i++)
	{
		Op o{ (int)c.draw(8), L"", 0 };
		if (o.kind <= 4) { o.text = GenText(c, 40, false); if (o.kind > 0 && c.chance(1, 6)) { o.text.insert(o.text.begin() + (ptrdiff_t)c.draw(o.text.size() + 1), L'\0'); zero = true; } o.arg = (int)c.draw(5); if (o.text.size()) { writes++; kinds |= 1u << o.kind; } for (auto w : o.text) if (w > 127) wide = true; }
		else if (o.kind == 5) o.arg = (int)c.draw(16);
		else if (reads < 60) reads++; else o.kind = 0;
		ops.push_back(o);
	}
	std::string input, expect;
	for (size_t i = 0; i < lines.size(); i++) { input += Utf8(lines[i]); if (i + 1 < lines.size() || lastLineEnds) input += '\n'; }
	for (auto& o : ops)
	{
		switch (o.kind)
		{
		case 0: case 1: case 2: case 3: expect += Utf8(o.text); break;
		case 4: expect += Utf8(o.text) + "\r\n"; break;
		}
	}
	int in = memfd_create("in", 0), out = memfd_create("out", 0);
	if (write(in, input.data(), input.size()) != (ssize_t)input.size()) c.fail("harness: cannot write the input");
	lseek(in, 0, SEEK_SET);
	ChildRun<Result> child;
	child.Run([&](Result& r)
	{
		dup2(in, 0); dup2(out, 1);
		r.utf8 = setlocale(LC_ALL, "C.UTF-8") != nullptr;
		size_t next = 0;
		for (auto& o : ops)
		{
			switch (o.kind)
			{
			case 0: Console::Write(o.text.c_str()); break;
			case 1: { std::wstring longer = o.text + L"tail"; Console::Write(longer.c_str(), (vint)o.text.size()); break; }
			case 2: Console::Write(WString::CopyFrom(o.text.c_str(), (vint)o.text.size())); break;
			case 3: { std::wstring longer = L"head" + o.text + L"tail"; Console::Write(WString::CopyFrom(longer.c_str(), (vint)longer.size()).Sub(4, (vint)o.text.size())); break; }
			case 4: Console::WriteLine(WString::CopyFrom(o.text.c_str(), (vint)o.text.size())); break;
			case 5: if (o.arg & 1) Console::SetTitle(L"title"); break;
			default:
			{
				WString line = Console::Read();
				std::wstring e = next < lines.size() ? lines[next] : L""; next++;
				bool same = line.Length() == (vint)e.size();
				for (vint k = 0; same && k < line.Length(); k++) if (line[k] != e[k]) same = false;
				if (r.reads < 64) r.ok[r.reads] = same;
				r.reads++;
			}
			}
		}
		std::wcout.flush(); fflush(stdout);
		return 0;
	});
	std::string got = Slurp(out), clean;
	close(in); close(out);
	for (char x : got) if (x) clean += x;
	c.note("%zu operations, %zu bytes of input, %zu bytes of output", ops.size(), input.size(), got.size());
	if (child.Code() != 0) c.fail("the console child ended with %d", child.Code());
	if (!child.shared->utf8) c.fail("harness: no UTF-8 locale");
	{ std::string e; for (char x : expect) if (x) e += x; expect = e; }
	c.note("embedded zero %d", (int)zero);
	PBT_CHECK(clean == expect, "the bytes written differ from the text given:\n%s\n%s", Show(clean).c_str(), Show(expect).c_str());
	for (int i = 0; i < child.shared->reads && i < 64; i++) PBT_CHECK(child.shared->ok[i], "line %d of the input was read wrongly", i);
	if (reads) c.label("reads");
	if (writes >= 2 && (kinds & (kinds - 1)) && wide) c.nontrivial();
}

// colours are set by one escape sequence and do not touch the text around them
PBT_TEST(C26, colors, 500, pbt::F_NOFUZZ)
{
	std::vector<int> colors; size_t n = 1 + c.size(8);
	for (size_t i = 0; i < n; i++) colors.push_back((int)c.draw(16));
	int out = memfd_create("out", 0);
	ChildRun<Result> child;
	child.Run([&](Result&)
	{
		dup2(out, 1); setlocale(LC_ALL, "C.UTF-8");
		for (size_t i = 0; i < n; i++) { Console::SetColor(colors[i] & 1, colors[i] & 2, colors[i] & 4, colors[i] & 8); Console::Write(L"<" + itow((vint)i) + L">"); }
		std::wcout.flush(); fflush(stdout);
		return 0;
	});
	std::string got = Slurp(out), plain; close(out);
	std::vector<std::string> seq; 
	for (size_t i = 0; i < got.size(); i++)
	{
		if (got[i] == 27) { std::string e; while (i < got.size() && got[i] != 'm') e += got[i++]; seq.push_back(e); }
		else if (got[i]) plain += got[i];
	}
	std::string expect; for (size_t i = 0; i < n; i++) expect += "<" + std::to_string(i) + ">";
	if (child.Code() != 0) c.fail("the console child ended with %d", child.Code());
	PBT_CHECK(plain == expect, "the text between the colours is %s", Show(plain).c_str());
	PBT_CHECK(seq.size() == n, "%zu escape sequences for %zu colours", seq.size(), n);
	for (size_t i = 0; i < n; i++)
	{
		// the last parameter is the colour: 30 + red + 2 green + 4 blue
		auto p = seq[i].find_last_of(";["); int v = atoi(seq[i].c_str() + p + 1);
		PBT_CHECK(v == 30 + (colors[i] & 7), "colour %d gives the escape parameter %d", colors[i], v);
		for (size_t j = 0; j < n; j++) if (colors[i] != colors[j]) PBT_CHECK(seq[i] != seq[j], "colours %d and %d have the same sequence", colors[i], colors[j]);
	}
	c.note("%zu colours", n);
	if (n >= 2) c.nontrivial();
}
