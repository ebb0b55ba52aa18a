#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]     runs one check (seed from VERIF_SEED, default 1)
   run.py --setup                             builds everything once (setup_cmd)
   run.py --replay FILE                       replays a saved failing case
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: error of the check."""
import sys, os, json, hashlib, subprocess, shutil, time, glob, tempfile, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
CXX = "clang++"
COMMON = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-pthread", "-Wno-everything"]
VARIANTS = {
    # only undefined behaviour that is always a defect and that the harness can observe as one
    "asan": ["-fsanitize=address,alignment", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "release": ["-fsanitize=address,alignment", "-fno-sanitize-recover=all", "-DVL_RELEASE"],
    "fuzz": ["-fsanitize=address,alignment,fuzzer-no-link", "-fno-sanitize-recover=all", "-DPBT_FUZZER"],
}
CONFIG = json.load(open(os.path.join(HERE, "checks.json")))


class InterfaceBroken(Exception):
    """the library compiles on its own, the operations a property is about can not be compiled against it"""


def lib_sources(variant):
    if variant == "release":
        return [os.path.join(REPO, "Release", f) for f in ("Vlpp.cpp", "Vlpp.Linux.cpp")]
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "Source")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith(".Windows.cpp"):
                out.append(os.path.join(d, f))
    return out


def tree_hash(variant, extra):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "Release" if variant == "release" else "Source"), HARNESS]
    for r in roots:
        for d, dirs, files in os.walk(r):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".hpp", ".inl", ".txt")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(repr((COMMON, VARIANTS[variant], extra)).encode())
    return h.hexdigest()[:20]


def build(variant, harness_files, tag):
    """returns the path of a binary built from the current tree"""
    key = tree_hash(variant, harness_files)
    out = os.path.join(BUILD, "%s-%s-%s" % (variant, tag, key))
    binary = os.path.join(out, "check")
    if os.path.exists(binary):
        os.utime(out)
        return binary
    os.makedirs(BUILD, exist_ok=True)
    olds = sorted((d for d in glob.glob(os.path.join(BUILD, "%s-%s-*" % (variant, tag))) if ".tmp" not in d), key=os.path.getmtime)
    for d in olds[:-1]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="%s-%s-%s.tmp" % (variant, tag, key), dir=BUILD)
    flags = COMMON + VARIANTS[variant] + ["-I" + os.path.join(REPO, "Source"), "-I" + os.path.join(REPO, "Release"), "-I" + HARNESS]
    jobs = []
    for s in lib_sources(variant):
        jobs.append((s, os.path.join(tmp, "lib_" + s[len(REPO):].replace("/", "_") + ".o"), []))
    for s in ["pbt.cpp"] + harness_files:
        # harness first: these are the slowest to compile
        jobs.insert(0, (os.path.join(HARNESS, s), os.path.join(tmp, "h_" + s + ".o"), []))

    def one(j):
        src, obj, fl = j
        r = subprocess.run([CXX] + flags + fl + ["-c", src, "-o", obj], capture_output=True, text=True)
        return (src, r.returncode, r.stderr)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        res = list(ex.map(one, jobs))
    broken = [(src, err) for src, rc, err in res if rc]
    if broken and all(src.startswith(HARNESS) and ": error:" in err for src, err in broken):
        # the library compiles, but a use of its public interface that the property is stated over does not: confirmed by compiling again
        again = [one(j) for j in jobs if j[0] == broken[0][0]][0]
        if again[1] and ": error:" in again[2]:
            shutil.rmtree(tmp, ignore_errors=True)
            raise InterfaceBroken(broken[0][0], again[2])
    for src, rc, err in res:
        if rc:
            sys.stderr.write("build of %s failed:\n%s\n" % (src, err[-6000:]))
            shutil.rmtree(tmp, ignore_errors=True)
            raise SystemExit(3)
    link = [f for f in VARIANTS[variant] if f.startswith("-f")]
    if variant == "fuzz":
        link = ["-fsanitize=address,alignment,fuzzer"]
    r = subprocess.run([CXX, "-g1", "-pthread"] + link + [j[1] for j in jobs] + ["-o", os.path.join(tmp, "check"), "-ldl"], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("link failed:\n%s\n" % r.stderr[-6000:])
        shutil.rmtree(tmp, ignore_errors=True)
        raise SystemExit(3)
    for j in jobs:
        os.unlink(j[1])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return binary


def harness_of(prop):
    cfg = CONFIG[prop]
    if cfg.get("variant") == "release":
        files = []
        for p, c in sorted(CONFIG.items()):
            if c.get("variant", "asan") == "asan" and not c.get("no_release"):
                files += c["files"]
        return sorted(set(files))
    return cfg["files"]


def budget_file(scratch, variant):
    p = os.path.join(scratch, "budget")
    with open(p, "w") as f:
        b = json.load(open(os.path.join(HERE, "budgets.json")))
        for k, v in b.items():
            f.write("%s %s\n" % (k, v))
        if variant == "release":  # the cases of each check in the proportion in which its own quick tier runs them
            for k, c in sorted(CONFIG.items()):
                f.write("%s %s\n" % (k, c.get("quick_scale", 1)))
    return p


# no quarantine: a freed block is handed out again at once, as by an ordinary allocator, so state kept per address meets a new object at an old address
REUSE = {"ASAN_OPTIONS": "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}


def explore(prop, variant, binary, tier, seed, scratch, scale, cap, extra={}):
    cfg = CONFIG[prop]
    out = os.path.join(scratch, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "--check=" + prop, "--filter=" + ("*" if variant == "release" else prop), "--seed=%d" % seed,
           "--scratch=" + scratch, "--budget=" + budget_file(scratch, variant), "--scale=%g" % scale, "--cap=%g" % cap,
           "--workers=%d" % (cfg.get("workers") or os.cpu_count() or 8), "--replaydir=" + REPLAYS, "--out=" + out]
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_SCRATCH=scratch, **extra)
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, env=env, cwd=scratch)
    if not os.path.exists(out):
        sys.stderr.write("engine ended with %s and no result\n" % r.returncode)
        raise SystemExit(4)
    return json.load(open(out))


def decided(prop, tier, seed, search):
    """an observed failure that did not replay is looked for once more before it is decided"""
    res = search()
    if res["verdict"] == 2:
        res = search()
        if res["verdict"] == 2:
            res["verdict"] = 1
            res["replay"] = os.path.join(REPLAYS, prop + "-unstable.txt")
            open(res["replay"], "w").write("two exploration runs failed on cases that do not fail in isolation; rerun: VERIF_SEED=%d python3 run.py %s %s\n" % (seed, prop, tier))
    return res


def fuzz_stage(prop, cfg, seed, scratch, seconds, res):
    """coverage-guided search over the same properties: libFuzzer mutates the bytes the choices are decoded from"""
    binary = build("fuzz", harness_of(prop), prop)
    n = os.cpu_count() or 8
    procs = []
    base = os.path.join(scratch, "fuzz")
    for i in range(n):
        d = os.path.join(base, str(i))
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_CHECK=prop, PBT_SCRATCH=d)
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([binary, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20",
                              "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + d + "/", "-print_final_stats=1", d + "/corpus"],
                             stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=d)
        procs.append((p, d))
    failing = None
    for p, d in procs:
        p.wait()
    total = 0
    for p, d in procs:
        log = open(os.path.join(d, "log"), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        runs = [int(x) for x in re.findall(r"^#(\d+)", log, re.M)]
        total += int(m.group(1)) if m else (max(runs) if runs else 0)
        arts = [a for a in glob.glob(d + "/*") if os.path.basename(a).startswith(("crash-", "timeout-", "oom-"))]
        oracle = re.search(r"ORACLE-FAILURE (.*)", log)
        if arts and failing is None:
            failing = (d, arts[0], oracle.group(1) if oracle else "crash")
    res["fuzz_executions"] = total
    if failing is None:
        return None
    d, art, msg = failing
    rec = os.path.join(d, "slot")
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_CHECK=prop, PBT_RECORD=rec, PBT_SCRATCH=d)
    subprocess.run([binary, "-timeout=60", art], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    env = dict(os.environ, PBT_CHECK=prop, PBT_DUMP=rec)
    o = subprocess.run([binary], env=env, capture_output=True, text=True, cwd=d).stdout.split()
    return (o[0], o[1:], msg) if o else None


def known_findings(prop):
    """(replay file, description) of the recorded defects of a property; lines starting with 'fixed:' suppress nothing"""
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((os.path.join(HERE, m.group(2)), m.group(3)))
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CONFIG[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        variant = cfg.get("variant", "asan")
        binary = build(variant, harness_of(prop), "all" if variant == "release" else prop)
        if tier == "thorough":
            scale, cap = cfg.get("quick_scale", 1) * cfg.get("thorough_factor", 20), cfg.get("thorough_cap", 360)
        else:
            scale, cap = cfg.get("quick_scale", 1), cfg.get("quick_cap", 120)
        if variant == "release":
            scale *= cfg.get("scale", 0.1)
        res = decided(prop, tier, seed, lambda: explore(prop, variant, binary, tier, seed, scratch, scale, cap))
        reuse = None
        if variant == "asan" and res["verdict"] == 0 and cfg.get("reuse", True):
            # a smaller second round, with other cases, where freed memory is reused at once
            reuse = decided(prop, tier, seed, lambda: explore(prop, variant, binary, tier, seed + 500009, scratch, scale * cfg.get("reuse_scale", 0.25), cap * 0.5, REUSE))
            if reuse["verdict"] == 1:
                res["verdict"], res["replay"], res["message"] = 1, reuse["replay"], reuse["message"]
        if tier == "thorough" and res["verdict"] == 0 and variant == "asan" and cfg.get("fuzz", True):
            f = fuzz_stage(prop, cfg, seed, scratch, cfg.get("fuzz_seconds", 150), res)
            if f:
                path = os.path.join(REPLAYS, "%s-fuzz-%d.replay" % (prop, seed))
                with open(path, "w") as fh:
                    fh.write("pbt-replay 1\nproperty %s\nsubtest %s\nmode case\nchoices %s\n# failure: %s\n" % (prop, f[0], " ".join(f[1]), f[2]))
                ok = subprocess.run([binary, "--check=" + prop, "--replay=" + path, "--shrinkto=" + path, "--scratch=" + scratch],
                                    env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_SCRATCH=scratch), cwd=scratch).returncode == 1
                if ok:
                    res["verdict"], res["replay"], res["message"] = 1, path, f[2]
                else:
                    res["fuzz_unreproduced"] = f[2]
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"] or cfg["rule"],
               "samples": res["samples"], "nontrivial_including_repeats": res["nontrivial"], "per_subtest": res["per_subtest"],
               "labels": res["labels"], "explore_wall_s": res["explore_wall_s"]}
        if reuse:
            cov["memory_reuse_round"] = {k: reuse[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "explore_wall_s")}
        for k in ("fuzz_executions", "fuzz_unreproduced"):
            if k in res:
                cov[k] = res[k]
        if not cov["samples"]:
            cov["samples"] = [res["message"] or "no non-trivial sample recorded"]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": cfg.get("assumptions", []) + [
                  "the case generator is a pure function of VERIF_SEED; only generated cases are covered",
                  "clang 18 -O1 with %s; x86-64 Linux, wchar_t is 32 bit" % ("ThreadSanitizer" if variant == "tsan" else "AddressSanitizer")],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if res["verdict"] == 1 else 0}
        for path, what in known_findings(prop):
            r = subprocess.run([binary, "--check=" + prop, "--replay=" + path, "--scratch=" + scratch], stdout=subprocess.DEVNULL,
                               env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_SCRATCH=scratch), cwd=scratch)
            if r.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if res["verdict"] == 1:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(res["replay"], HERE)))
            return 1
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, tier, seed, res["evaluations"], res["distinct_nontrivial"], time.time() - t0))
        return 0
    except InterfaceBroken as e:
        src, err = e.args
        path = os.path.join(REPLAYS, prop + "-interface.txt")
        sys.stderr.write(err[-6000:])
        with open(path, "w") as f:
            f.write("interface\nproperty %s\nthe library compiles, but the operations used by %s do not compile against it:\n%s" % (prop, os.path.basename(src), err[-20000:]))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compilation of the operations the property is stated over", "samples": [err[:2000]]},
              "assumptions": ["no case was run: the harness does not compile against the library, which compiles"], "wall_s": round(time.time() - t0, 2), "violations": 1}
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    cfg = CONFIG[prop]
    variant = cfg.get("variant", "asan")
    try:
        binary = build(variant, harness_of(prop), "all" if variant == "release" else prop)
    except InterfaceBroken as e:
        sys.stderr.write(e.args[1][-6000:])
        return 1
    if text.startswith("interface"):
        return 0
    scratch = tempfile.mkdtemp(prefix="pbt-replay-")
    try:
        rc = 0
        for extra in ({}, REUSE) if variant == "asan" else ({},):
            rc = subprocess.run([binary, "--check=" + prop, "--filter=" + ("*" if variant == "release" else prop), "--replay=" + os.path.abspath(path), "--scratch=" + scratch, "--budget=" + budget_file(scratch, variant)],
                                env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PBT_SCRATCH=scratch, **extra), cwd=scratch).returncode
            if rc:
                break
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for p, c in sorted(CONFIG.items()):
            v = c.get("variant", "asan")
            try:
                build(v, harness_of(p), "all" if v == "release" else p)
            except InterfaceBroken as e:  # reported by the check itself
                sys.stderr.write("%s does not compile against the library\n" % e.args[0])
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(prop, tier)


if __name__ == "__main__":
    sys.exit(main())
