#!/usr/bin/env python3
"""Development tool (no check uses it): makes and confirms planted bugs.
seed.py SPEC.py...  each SPEC defines bug(id, property, edits=[(file, old, new)], needs, breaks, demo, cflags)
For each bug: scratch copy of /repo HEAD, edit, build, stable tests, demo on clean and changed tree, write /verif/seeded/<id>/,
then run the property's quick check against the scratch copy and print the outcome."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, non-zero when it is broken. Run in the root of the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
n=0
for f in "$d/demo.cpp" $(find %(root)s -name '*.cpp' ! -name '*.Windows.cpp' ! -path '*IncludeOnly*'); do
  n=$((n+1))
  clang++ -std=c++20 -g -O1 -w %(flags)s -I %(root)s -c "$f" -o "$t/$n.o" & pids="$pids $!"
done
bad=0; for p in $pids; do wait $p || bad=1; done; [ $bad = 0 ] || exit 3
clang++ %(flags)s "$t"/*.o -o "$t/demo" -pthread || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=%(leaks)d timeout 120 ./demo
'''
bugs = []


def bug(id, property, edits, needs, breaks, demo, flags="-fsanitize=address", root="Source", leaks=0):
    bugs.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, root=root, leaks=leaks))


def rep(root, f, old, new):
    p = os.path.join(root, f)
    b = open(p, "rb").read()
    crlf = b"\r\n" in b
    o, n = old.encode(), new.encode()
    if crlf:
        o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
    if b.count(o) != 1:
        raise SystemExit("%s: %d matches of %r" % (f, b.count(o), old))
    open(p, "wb").write(b.replace(o, n))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def original(b):
    """every removed line must come from the base commit, and there must be one"""
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()[:8]
    n = 0
    for f in sorted({f for f, _, _ in b["edits"]}):
        rem = []
        for l in sh(["git", "-C", "/repo", "diff", "-U0", "--", f]).stdout.split("\n"):
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                c = int(a[1]) if len(a) > 1 else 1
                rem += range(int(a[0]), int(a[0]) + c)
        bl = sh(["git", "-C", "/repo", "blame", "-s", "--abbrev=8", "HEAD", "--", f]).stdout.split("\n")
        for k in rem:
            n += 1
            if bl[k - 1].lstrip("^")[:8] != base:
                return bl[k - 1]
    return None if n else "only additions"


def main():
    for s in sys.argv[1:]:
        exec(compile(open(s).read(), s, "exec"), dict(bug=bug))
    assert sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout == ""
    for b in bugs:
        d = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if r.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-500:], r.stderr[-1500:]); continue
        try:
            for f, o, n in b["edits"]:
                rep("/repo", f, o, n)
            diff = subprocess.run(["git", "-C", "/repo", "diff", "--binary"], capture_output=True).stdout
            open(d + "/patch.diff", "wb").write(diff)
            why = original(b)
            if why:
                print(b["id"], "NOT ORIGINAL LINES", why); continue
            r = sh(["bash", "/opt/vp/build.sh"])
            if r.returncode:
                print(b["id"], "BUILD FAILS", (r.stdout + r.stderr)[-1500:]); continue
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-out.json"])
            out = json.load(open("/tmp/seed-out.json"))
            passed = set(out["passed"]) if isinstance(out.get("passed"), list) else {k for k, v in out.items() if v == "passed"}
            missing = [t for t in BASELINE if t not in passed]
            if missing:
                print(b["id"], "TESTS CATCH IT:", len(missing), missing[:3]); continue
            r = sh(["bash", d + "/demo.sh"], cwd="/repo")
            if r.returncode in (0, 3):
                print(b["id"], "DEMO DOES NOT SHOW IT", r.returncode, r.stderr[-500:]); continue
            r = sh([sys.executable, V + "/run.py", b["property"], "quick"], env=dict(os.environ, VERIF_SEED="1", VERIF_BUILD="/tmp/seed-build"))
            v = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + b["property"] in r.stdout else "MISSED rc=%d" % r.returncode
            print(b["id"], b["property"], v, r.stdout.strip().split("\n")[-2 if v == "CAUGHT" else -1][:200], flush=True)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
    sh(["bash", "/opt/vp/build.sh"])
    shutil.rmtree("/tmp/seed-build", ignore_errors=True)


def _baseline():
    for k in ("stable", "passed", "tests"):
        if isinstance(BASE, dict) and isinstance(BASE.get(k), list):
            return BASE[k]
    return BASE
BASELINE = _baseline()
if __name__ == "__main__":
    main()
