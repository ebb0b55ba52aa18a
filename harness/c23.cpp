// C23: the unit test framework reports exactly what happened
#include "util.h"
#include "child.h"
#include <fcntl.h>
#include <locale.h>
#include <fstream>
#include <sstream>
using namespace vl;
using namespace vl::unittest;
using pbt::Ctx;

PBT_RULE(C23,
	"Each case generates up to five test files (names in Unix, Windows and plain form), each a tree of categories and cases whose bodies assert, fail, throw library errors, exceptions, foreign values, expect errors, print, or misuse the framework, and a command line (none, /R, /D, /F: filters, invalid), "
	"runs them in a child process and compares the exit code, the sequence of executed statements and the printed report line by line (files, skipped files, categories, cases and failure messages with their indentation, totals) with a model. Non-trivial: at least one failing and one passing case ran in the same run, or a filter selected some but not all files.");

namespace
{
	enum Act { Pass, FailAssert, ThrowErr, ThrowExc, ThrowInt, ErrOk, ErrMissing, ErrNested, ExcOk, ExcMissing, ExcWrong, ExcBadBody, Print, NestCase, NestCategory, CaseAssertMacro, CaseAssertMacroFail, PrintKinds, ErrOther, ErrDerived, ErrConfig, ExcBase, ExcOther, ExcAssert, ThrowMine, ACTS };
	struct Item { int kind; Act act; std::vector<Item> children; int id; int text = 0; }; // kind 0: action, 1: category, 2: case
	struct Sh { int n = 0; int trace[4000]; int result = -100; int escaped = 0, differs = 0, misuse = 0; };
	Sh* sh = nullptr;
	std::vector<std::vector<Item>> filePlans;
	void Mark(int id) { if (sh && sh->n < 4000) sh->trace[sh->n++] = id; }
	struct MyError : Error { MyError() : Error(L"my error") {} };
	struct MyException : Exception { MyException(const WString& m) : Exception(m) {} };
	// descriptions and messages
	const wchar_t* const texts[] = { L"text", L"", L" leading and trailing ", L"100% %d %s", L"\u4f60\u597d \U0001F600", L"\"quoted\" \\ /slash: 1/2", L"[SKIPPED]", L"Passed test cases: 0/0",
		L"a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text, repeated: a rather long text." };
	const int TEXTS = 9;
	std::string Utf8(const std::wstring& w) { std::string r; for (unsigned long x : w) { if (x < 0x80) r += (char)x; else if (x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } } return r; }
	void Nested() { TEST_CASE(L"nested") { Mark(700000); }); }
	void Body(const std::vector<Item>& items);
	void RunItem(const Item& it)
	{
		Mark(it.id);
		if (it.kind == 1) { TEST_CATEGORY(texts[it.text]) { Mark(100000 + it.id); Body(it.children); }); return; }
		if (it.kind == 2) { TEST_CASE(WString(L"case ") + itow(it.id) + L" " + texts[it.text]) { Mark(100000 + it.id); Body(it.children); }); return; }
		switch (it.act)
		{
		case Pass: TEST_ASSERT(it.id >= 0); break;
		case FailAssert: TEST_ASSERT(it.id < 0); break;
		case ThrowErr: throw Error(texts[it.text]); break;
		case ThrowExc: throw ArgumentException(texts[it.text], L"function", L"name"); break;
		case ThrowMine: if (it.id % 2) throw MyError(); throw MyException(WString(L"own ") + texts[it.text]);
		case ThrowInt: throw it.id; break;
		case ErrOk: TEST_ERROR(throw Error(L"expected")); break;
		case ErrMissing: TEST_ERROR(Mark(200000 + it.id)); break;
		case ErrNested: TEST_ERROR(TEST_ASSERT(false)); break;
		case ExcOk: TEST_EXCEPTION(throw ArgumentException(L"m", L"f", L"n"), ArgumentException, [&](const ArgumentException& e) { Mark(300000 + it.id); TEST_ASSERT(e.Message() == L"m" && e.GetFunction() == L"f" && e.GetName() == L"n"); }); break;
		case ExcMissing: TEST_EXCEPTION(Mark(200000 + it.id), ArgumentException, [](const ArgumentException&) {}); break;
		case ExcWrong: TEST_EXCEPTION(throw 1, ArgumentException, [](const ArgumentException&) {}); break;
		case ExcBadBody: TEST_EXCEPTION(throw ArgumentException(L"m", L"f", L"n"), ArgumentException, [](const ArgumentException&) { TEST_ASSERT(false); }); break;
		case Print: TEST_PRINT(texts[it.text]); break;
		case PrintKinds: for (auto kind : { UnitTest::MessageKind::Info, UnitTest::MessageKind::Error, UnitTest::MessageKind::File, UnitTest::MessageKind::Category, UnitTest::MessageKind::Case }) UnitTest::PrintMessage(texts[it.text], kind); break;
		case ErrOther: TEST_ERROR(throw MyException(L"not an Error")); break;
		case ErrDerived: TEST_ERROR(throw MyError()); break;
		case ErrConfig: TEST_ERROR(Nested()); break;
		case ExcBase: TEST_EXCEPTION(throw ArgumentException(texts[it.text], L"f", L"n"), Exception, [&](const Exception& e) { Mark(300000 + it.id); TEST_ASSERT(e.Message() == texts[it.text]); }); break;
		case ExcOther: TEST_EXCEPTION(throw MyError(), ArgumentException, [&](const ArgumentException& e) { Mark(300000 + it.id); }); break;
		case ExcAssert: TEST_EXCEPTION(TEST_ASSERT(it.id < 0), ArgumentException, [](const ArgumentException&) {}); break;
		case NestCase: TEST_CASE(L"nested") { Mark(100000 + it.id); }); break;
		case NestCategory: TEST_CATEGORY(L"nested") { Mark(100000 + it.id); }); break;
		case CaseAssertMacro: TEST_CASE_ASSERT(it.id >= 0); break;
		case CaseAssertMacroFail: TEST_CASE_ASSERT(it.id < 0); break;
		default: break;
		}
	}
	void Body(const std::vector<Item>& items) { for (auto& it : items) RunItem(it); }
	template<int N> void Proc() { Mark(900000 + N); Body(filePlans[N]); }
	const UnitTestFileProc procs[12] = { &Proc<0>, &Proc<1>, &Proc<2>, &Proc<3>, &Proc<4>, &Proc<5>, &Proc<6>, &Proc<7>, &Proc<8>, &Proc<9>, &Proc<10>, &Proc<11> };

	// the model. level: 0 file, 1 category, 2 case
	struct Escape { };
	struct Line { int indent; std::string text; bool exact; }; // not exact: the line contains the text
	struct Model
	{
		std::vector<Line> lines; int depth = 0; std::string pending; // depth: nesting of the running block, pending: message of the exception in flight
		void Print(const std::string& t, bool exact = true) { lines.push_back({ depth * 4, t, exact }); }
		bool Throw(const std::string& m) { pending = m; return false; }
		std::vector<int> trace; int cases = 0, passed = 0; bool suppress = true;
		// returns false if the item throws; failed: a failure was recorded below or here
		bool RunItems(const std::vector<Item>& items, int level, bool& failed) { for (auto& it : items) if (!One(it, level, failed)) return false; return true; }
		// a category or case: failures inside are swallowed when suppressed
		bool Block(const Item& it, int level, bool& failed, const std::vector<Item>& children, bool isCase, const char* extraThrow, const std::string& title)
		{
			if (level == 2) return Throw(""); // not allowed inside a case
			Print(title); depth++;
			if (it.kind != 0 || it.act == NestCase || it.act == NestCategory) trace.push_back(100000 + it.id);
			bool f = false; bool ok = RunItems(children, isCase ? 2 : 1, f); if (extraThrow) ok = Throw(extraThrow);
			if (!ok && !suppress) throw Escape();
			if (!ok) { f = true; Print(pending, false); }
			depth--;
			if (isCase) { cases++; if (!f) passed++; }
			failed |= f; return true;
		}
		bool One(const Item& it, int level, bool& failed)
		{
			trace.push_back(it.id);
			if (it.kind) return Block(it, level, failed, it.children, it.kind == 2, nullptr, it.kind == 1 ? Utf8(texts[it.text]) : "case " + std::to_string(it.id) + " " + Utf8(texts[it.text]));
			bool inCase = level == 2;
			switch (it.act)
			{
			case Pass: case ErrOk: return inCase || Throw("");
			case FailAssert: return Throw(inCase ? "it.id < 0" : "");
			case ThrowErr: return Throw(Utf8(texts[it.text]));
			case ThrowExc: return Throw(Utf8(texts[it.text]));
			case ThrowMine: return Throw(it.id % 2 ? "my error" : "own " + Utf8(texts[it.text]));
			case ThrowInt: return Throw("");
			case ErrNested: return Throw(inCase ? "Assertion failure: false" : "");
			case ErrMissing: if (inCase) trace.push_back(200000 + it.id); return Throw(inCase ? "Mark(200000 + it.id)" : "");
			case ExcOk: trace.push_back(300000 + it.id); return inCase || Throw(""); // the assertion inside needs a case
			case ExcMissing: trace.push_back(200000 + it.id); return Throw("Expect [ArgumentException] but nothing occurred");
			case ExcWrong: return Throw("Expect [ArgumentException] but get unexpected exception");
			case ErrOther: return Throw(inCase ? "not an Error" : "");
			case ErrDerived: return inCase || Throw("");
			case ErrConfig: if (inCase) return Throw(""); return Throw("");
			case ExcBase: trace.push_back(300000 + it.id); return inCase || Throw("");
			case ExcOther: return Throw("Expect [ArgumentException] but get unexpected exception");
			case ExcAssert: return Throw("");
			case PrintKinds: for (int k = 0; k < 5; k++) this->Print(Utf8(texts[it.text])); return true;
			case ExcBadBody: return Throw(inCase ? "Assertion failure: false" : "");
			case NestCase: return Block(it, level, failed, {}, true, nullptr, "nested");
			case NestCategory: return Block(it, level, failed, {}, false, nullptr, "nested");
			case CaseAssertMacro: return Block(it, level, failed, {}, true, nullptr, "it.id >= 0");
			case CaseAssertMacroFail: return Block(it, level, failed, {}, true, "it.id < 0", "it.id < 0");
			case Act::Print: this->Print(Utf8(texts[it.text])); return true;
			default: return true;
			}
		}
	};

	int nextId;
	std::vector<Item> GenItems(Ctx& c, int level, int depth, int limit)
	{
		std::vector<Item> r; size_t n = level == 0 && c.chance(1, 40) ? 60 : c.size(level == 2 ? 4 : 5);
		for (size_t k = 0; k < n; k++)
		{
			Item it; it.id = nextId++; it.act = Pass; it.kind = 0; if (c.chance(1, 3)) it.text = (int)c.draw(TEXTS);
			if (level < 2) { int q = (int)c.draw(10); it.kind = q < 6 ? 2 : (q < 8 && depth < limit) ? 1 : 0; if (!it.kind) { static const Act a[] = { Print, CaseAssertMacro, CaseAssertMacroFail, NestCase, NestCategory, PrintKinds, Pass, ThrowErr, ExcOk, FailAssert, ErrOk, ThrowInt, ThrowMine, ErrConfig, ExcMissing, ExcAssert }; it.act = a[c.draw(c.chance(1, 3) ? 16 : 6)]; } }
			else it.act = c.chance(1, 4) ? (Act)c.draw(ACTS) : c.boolean() ? Pass : c.boolean() ? ErrOk : c.boolean() ? ExcOk : Print;
			if (it.kind == 1) it.children = GenItems(c, 1, depth + 1, limit);
			if (it.kind == 2) it.children = GenItems(c, 2, depth + 1, limit);
			r.push_back(it);
		}
		return r;
	}
	std::string Strip(const std::string& s)
	{
		std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 0 || s[i] == '\r') continue; if (s[i] == 0x1B) { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r;
	}
}

namespace
{
	// nothing but this is allowed while no test is running, except for messages about errors
	template<typename F> void Rejected(Sh& s, F&& f) { try { f(); s.misuse++; } catch (const UnitTestConfigError&) {} catch (...) { s.misuse++; } }
	void Misuse(Sh& s)
	{
		int n = s.n; Rejected(s, [] { TEST_ASSERT(true); }); Rejected(s, [] { TEST_ERROR(throw Error(L"")); }); Rejected(s, [] { Nested(); }); Rejected(s, [] { TEST_CATEGORY(L"category") { Mark(700000); }); }); Rejected(s, [] { TEST_PRINT(L"message"); });
		if (s.n != n) s.misuse++;
	}
}

PBT_TEST(C23, report, 4000, pbt::F_NOFUZZ)
{
	static const char* names[] = { "/src/Test/Foo.cpp", "C:\\src\\Foo.cpp", "Foo.cpp", "/src/Test/BarFoo.cpp", "/src/Bar.cpp", "D:\\Test\\Bar.cpp", "/x/oo.cpp" };
	nextId = 1; filePlans.clear(); int files = 1 + (int)c.size(c.chance(1, 10) ? 11 : 4); std::vector<const char*> fileNames;
	for (int i = 0; i < files; i++) { fileNames.push_back(names[c.draw(7)]); filePlans.push_back(GenItems(c, 0, 0, c.chance(1, 8) ? 8 : 3)); }
	// command line
	std::vector<std::string> args; std::vector<std::string> filters; bool D = false, R = false, bad = false;
	switch (c.draw(4))
	{
	case 0: break;
	case 1: args.push_back("/R"); R = true; break;
	case 2: if (c.chance(1, 3)) { args.push_back("/D"); D = true; } else if (c.chance(1, 4)) { args.push_back("/D"); args.push_back("/R"); D = R = true; } break;
	default: break;
	}
	if (c.chance(1, 3)) { size_t k = 1 + c.size(4); static const char* fs[] = { "Foo.cpp", "Bar.cpp", "/src/Test/Foo.cpp", "Test/Foo.cpp", "oo.cpp", "src\\Foo.cpp", "Missing.cpp", "BarFoo.cpp", "x/oo.cpp", "/src/Test/Foo.cppx" }; for (size_t q = 0; q < k; q++) { filters.push_back(fs[c.draw(10)]); args.insert(args.begin() + c.draw(args.size() + 1), "/F:" + filters.back()); } }
	if (c.chance(1, 12)) { static const char* inv[] = { "/X", "/F:", "Foo.cpp", "/r", "", "/RR" }; args.insert(args.begin() + c.draw(args.size() + 1), inv[c.draw(6)]); bad = true; }
	if (D && R) bad = true;
	bool byFile = c.boolean(), wide = c.boolean(), again = c.chance(1, 4);

	// model
	Model m; m.suppress = !D; int total = 0, passed = 0; bool escaped = false; bool skippedSome = false;
	if (bad) m.Print("Usage", false);
	else try
	{
		m.Print(D ? "Failures are not suppressed." : "Failures are suppressed.");
		for (int i = 0; i < files; i++)
		{
			std::string fn = fileNames[i]; bool run = filters.empty();
			for (auto& f : filters) { if (f == fn) run = true; if (fn.size() > f.size() && fn.compare(fn.size() - f.size(), f.size(), f) == 0) { char d = fn[fn.size() - f.size() - 1]; if (d == '/' || d == '\\') run = true; } }
			if (!run) { skippedSome = true; m.Print(fn + " [SKIPPED]"); continue; }
			m.Print(fn); m.depth = 1;
			total++; m.trace.push_back(900000 + i); bool failed = false;
			if (!m.RunItems(filePlans[i], 0, failed)) { if (D) throw Escape(); failed = true; m.Print(m.pending, false); }
			m.depth = 0;
			if (!failed) passed++;
		}
	}
	catch (const Escape&) { escaped = true; }
	for (auto& a : args) c.note("arg %s", a.c_str());
	for (int i = 0; i < files; i++) c.note("file %s with %zu items", fileNames[i], filePlans[i].size());
	c.note("expect %d/%d files, %d/%d cases%s%s", passed, total, m.passed, m.cases, bad ? ", usage error" : "", escaped ? ", exception escapes" : "");

	// the real thing
	const char* scratch = getenv("PBT_SCRATCH"); std::string out = std::string(scratch ? scratch : "/tmp") + "/ut-" + std::to_string(getpid()) + ".txt";
	ChildRun<Sh> run;
	run.Run([&](Sh& s) -> int {
		sh = &s; int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) return 98; dup2(fd, 1); close(fd);
		setlocale(LC_ALL, "C.UTF-8"); static UnitTestLink links[12]; Misuse(s); if (byFile) for (int i = 0; i < files; i++) new UnitTestFile(fileNames[i], procs[i]);
		else for (int i = 0; i < files; i++) { links[i].fileName = fileNames[i]; links[i].testProc = procs[i]; UnitTest::RegisterTestFile(&links[i]); }
		for (int round = 0; round < (again ? 2 : 1) && !s.escaped; round++)
		try
		{
			int before = s.result;
			if (wide)
			{
				std::vector<std::wstring> ws{ L"exe" }; for (auto& a : args) ws.push_back(std::wstring(a.begin(), a.end()));
				std::vector<wchar_t*> av; for (auto& w : ws) av.push_back(w.data()); av.push_back(nullptr);
				s.result = UnitTest::RunAndDisposeTests((int)ws.size(), av.data());
			}
			else
			{
				std::vector<std::string> ws{ "exe" }; for (auto& a : args) ws.push_back(a);
				std::vector<char*> av; for (auto& w : ws) av.push_back(w.data()); av.push_back(nullptr);
				s.result = UnitTest::RunAndDisposeTests((int)ws.size(), av.data());
			}
			if (round && before != s.result) s.differs = 1;
		}
		catch (...) { s.escaped = 1; }
		if (!s.escaped) Misuse(s);
		return 0;
	});
	auto& s = *run.shared;
	std::string text; { std::ifstream f(out, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); text = Strip(ss.str()); } unlink(out.c_str());
	PBT_CHECK(run.Exited() && run.Code() == 0, "the test process ended with %d", run.Code()); PBT_CHECK(!s.misuse, "a test, assertion or message was accepted while no test was running");
	if (again && !escaped) { c.label("run twice"); auto t = m.trace; m.trace.insert(m.trace.end(), t.begin(), t.end()); PBT_CHECK(!s.differs, "the second run of the same tests returned something else"); }
	int n = s.n; PBT_CHECK(n == (int)m.trace.size(), "%d statements were executed instead of %zu", n, m.trace.size());
	for (int i = 0; i < n; i++) PBT_CHECK(s.trace[i] == m.trace[i], "statement %d executed is %d instead of %d", i, s.trace[i], m.trace[i]);
	PBT_CHECK((bool)s.escaped == escaped, "an exception %s the run", s.escaped ? "escaped from" : "did not escape from");
	if (!escaped)
	{
		int expect = bad ? 1 : passed == total ? 0 : 1;
		PBT_CHECK((s.result == 0) == (expect == 0), "the run returned %d although %d of %d files passed", s.result, passed, total);
		if (!bad)
		{
			m.Print("Passed test files: " + std::to_string(passed) + "/" + std::to_string(total)); m.Print("Passed test cases: " + std::to_string(m.passed) + "/" + std::to_string(m.cases));
		}
		if (again) { auto t = m.lines; m.lines.insert(m.lines.end(), t.begin(), t.end()); }
	}
	std::vector<std::string> got; { std::stringstream ss(text); std::string l; while (std::getline(ss, l)) got.push_back(l); }
	for (size_t i = 0; i < m.lines.size(); i++)
	{
		auto& e = m.lines[i]; std::string x = std::string(e.indent, ' ') + e.text;
		PBT_CHECK(i < got.size(), "the report ends before: %s", x.c_str());
		size_t in = got[i].find_first_not_of(' '); bool ok = e.exact ? got[i] == x : (in == std::string::npos ? (int)got[i].size() == e.indent && e.text.empty() : (int)in >= e.indent && ((int)in == e.indent || e.text.substr(0, 1) == " ")) && got[i].find(e.text) != std::string::npos;
		PBT_CHECK(ok, "line %zu of the report is \"%s\", expected%s \"%s\"", i, got[i].c_str(), e.exact ? "" : " a line with this indentation and", x.c_str());
	}
	PBT_CHECK(got.size() == m.lines.size(), "the report goes on with: %s", got[std::min(m.lines.size(), got.size() - 1)].c_str());
	if ((m.passed && m.passed < m.cases) || (skippedSome && total)) c.nontrivial();
}
