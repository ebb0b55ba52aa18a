#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (kept in one place so they cannot drift apart)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=list(state)))


S = "Source/"
prop("C01", "Strings are immutable values whatever storage they share",
     "Every string operation (construct, copy, move, assign, slice with Left/Right/Sub, concatenate, Insert, Remove, index, search, take over or wrap a buffer, cast, Buffer) yields exactly the characters an ordinary character sequence would, for all five character types. "
     "No operation on, or destruction of, one string changes another string or a buffer previously obtained from another string, and Buffer() is always zero terminated. "
     "Arguments out of range (negative, beyond the length, construction from nullptr, unterminated buffer) are reported as an Error and leave every string unchanged.",
     ["histories", "inputs"], "all histories of string operations over any set of strings, all five character types, all argument values",
     "The tests slice and join a handful of fixed literals; sharing bugs need a specific history of slices, copies and buffer requests.",
     [S + "Strings/String.h", S + "Strings/String.cpp"],
     [("reference counted shared buffers with start/length windows", S + "Strings/String.h"), ("CHECK_ERROR range checks", S + "Strings/String.h")],
     ["operator[]", "Length", "Buffer", "Error thrown"],
     "stateful model-based testing against std::basic_string under AddressSanitizer with heap balance oracle",
     "Exploration: generated histories of up to 60 operations; trusts the std::basic_string model and ASan.",
     [("buffer/start/length/realLength/counter", "shared window over a counted buffer", S + "Strings/String.h")])

prop("C02", "String comparison is a total order by content",
     "Comparing two strings (or a string and a zero-terminated character pointer, on either side) depends only on their characters: the result is lexicographic character by character with a proper prefix ordered first. "
     "==, !=, <, <=, >, >= and <=> are mutually consistent, antisymmetric and transitive, whatever storage the strings share.",
     ["inputs"], "all pairs and triples of strings of all five character types in every storage representation",
     "The tests compare a few literal pairs; they never compare slices of the same storage or differing characters at every position and sign.",
     [S + "Strings/String.h"], [("operator<=> and operator==", S + "Strings/String.h")], ["comparison operators"],
     "property-based testing against an independent lexicographic comparison",
     "Exploration: generated triples biased to long common prefixes and shared storage.")

prop("C03", "Well-formed text survives conversion between all encodings",
     "Converting well-formed Unicode text between any two of UTF-8, UTF-16, UTF-16BE, UTF-32 and wide strings (and the narrow locale encoding) yields exactly the standard encoding of the same code points, through string functions, buffer functions and streaming readers alike. "
     "After each unit read, a reader reports the exact index of that unit and the exact range of source units it came from; at the end it keeps returning zero and reports the source length.",
     ["inputs", "configurations"], "all sequences of Unicode scalar values, all ordered pairs of encodings, every reading position, UTF-8 and C locales",
     "The tests convert a few fixed sentences; boundaries between encoded lengths and cluster reporting inside mixed text are not reached.",
     [S + "Strings/Conversion.h", S + "Strings/Conversion.cpp", S + "Strings/Conversion.Linux.cpp"],
     [("UtfConversion<T>::From32/To32", S + "Strings/Conversion.cpp"), ("UtfFrom32ReaderBase, UtfTo32ReaderBase, Utf32DirectReaderBase", S + "Strings/Conversion.h"), ("ConvertStringDirect", S + "Strings/Conversion.cpp")],
     ["wtou8 and the other conversion functions", "_utftoutf", "Read/ReadingIndex/SourceCluster"],
     "property-based and exhaustive (all scalar values) differential testing against independent encoders",
     "Exploration, plus an exhaustive sweep of single code points; the oracle encoders are written from the standard.")

prop("C04", "Ill-formed text is handled without overruns, loops or contradictions",
     "For arbitrary non-zero code units every conversion terminates, never reads outside its source or writes beyond the stated capacity of its destination, converts the well-formed prefix exactly, and never emits a surrogate code point or ill-formed text (UTF-32 to UTF-32 being a plain copy). "
     "Text that ends inside a sequence, or contains an unpaired surrogate, stops the conversion there. "
     "The size computed without a destination equals what is written with one, and all conversion paths agree with each other; conversions from and to the narrow locale encoding stay within their buffers as well.",
     ["inputs", "fault_sequences"], "all sequences of non-zero code units in all encodings, all destination capacities, all truncation points",
     "The tests contain no ill-formed input and no short destination.",
     [S + "Strings/Conversion.h", S + "Strings/Conversion.cpp"],
     [("-1 results of From32/To32 ending the readers", S + "Strings/Conversion.h"), ("length checks before each multi-unit read", S + "Strings/Conversion.cpp"), ("two pass sizing in _utftoutf", S + "Strings/Conversion.cpp")],
     ["Read", "_utftoutf return value and buffer", "conversion functions"],
     "fault-injecting property-based testing (exactly sized buffers under AddressSanitizer) against strict reference decoders",
     "Exploration: structured ill-formed inputs; deliberately does not fix the output for ill-formed UTF-8 after the fault (the library decodes bad continuation bytes leniently).")

prop("C05", "Numbers and letter case convert exactly",
     "Integers of all widths print as their canonical decimal text and that text parses back to the same value; a parser reports success exactly for canonical text within its range (32-bit, 64-bit, signed or unsigned) and the variant without success flag yields zero otherwise; empty text is no number. "
     "Doubles print as trimmed decimal text within half a unit of the sixth decimal, parse back accordingly, and text with trailing garbage is rejected. "
     "Letter case mapping maps each character on its own, keeps the length and leaves every other character and the argument unchanged, for narrow and wide text without zero characters.",
     ["inputs"], "all integers and finite doubles, all texts, narrow and wide",
     "The tests try a few dozen literals and no value near the limits of most functions, no wide non-ASCII text.",
     [S + "Strings/String.cpp", S + "Strings/String.h"], [("*_test functions re-print the parsed value and compare", S + "Strings/String.cpp"), ("_gcvt_s trimming", S + "Strings/String.cpp")],
     ["atoi .. wtof, *_test, itoa .. ftow, alower .. wupper"],
     "property-based testing against independent 128-bit decimal printing/parsing and the C library's per-character case mapping",
     "Exploration: values biased to powers and limits, texts with injected faults.")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

NA = []
props = [p for p in P if p["id"] in CHECKS]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=w) for a, b, w in p["state"]],
                        "mechanism": [dict(name=a, where=w) for a, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in props:
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: every check drives the public API. See DESIGN.md. Replay a failure with: python3 run.py --replay <file>"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties")
