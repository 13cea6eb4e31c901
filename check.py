#!/usr/bin/env python3
"""check.py ID...  - build the harness(es) of a property from /repo's working tree and run them.

Tier comes from VERIF_TIER (quick|thorough).  Exit 0: the property held on everything explored (listed
known findings are printed as KNOWN-FINDING).  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken.
Exit 2: the check itself could not do its work.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "libs/cmdr11/include")
BUILD = os.path.join(V, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEFS = ["-DCMDR_ENABLE_ASSERTIONS=0", "-DCMDR_ENABLE_PRECONDITION_CHECKS=0", "-DENABLE_ASSERTS=1"]
COMMON = ["-std=c++17", "-g1", "-w", "-I", os.path.join(V, "mc"), "-I", os.path.join(V, "mc/stub"), "-I", INC]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0",
           HOME="/root", LANG="C.UTF-8", TZ="UTC")


class CheckError(Exception):
    pass


def tree_hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def header_meta(src):
    m = {"kind": "seq", "flags": []}
    with open(src) as f:
        for line in f.read().splitlines()[:30]:
            k = re.match(r"//\s*KIND:\s*(\S+)", line)
            if k:
                m["kind"] = k.group(1)
            k = re.match(r"//\s*FLAGS:\s*(.*)", line)
            if k:
                m["flags"] += k.group(1).split()
    return m


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(src):
    meta = header_meta(src)
    deps = [src] + glob.glob(os.path.join(V, "mc", "**", "*"), recursive=True) + \
        glob.glob(os.path.join(INC, "**", "*"), recursive=True) + glob.glob(os.path.join(V, "harness", "*.h*"))
    deps = [d for d in deps if os.path.isfile(d)]
    if meta["kind"] == "mc":
        cmds = lambda out: [
            ["g++", *COMMON, "-O1", *DEFS, *meta["flags"], "-fsanitize=thread", "-include", os.path.join(V, "mc/notmpl.hh"), "-c", src, "-o", out + ".h.o"],
            ["g++", "-std=c++17", "-g1", "-w", "-O2", "-I", os.path.join(V, "mc"), "-c", os.path.join(V, "mc/mcrt.cc"), "-o", out + ".r.o"],
            ["g++", "-g", out + ".h.o", out + ".r.o", "-o", out, "-lpthread", "-ldl", "-rdynamic",
             "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]]
    elif meta["kind"] == "fast":
        cmds = lambda out: [["g++", *COMMON, "-O1", "-D_GLIBCXX_ASSERTIONS", *DEFS, *meta["flags"], src, "-o", out, "-lpthread"]]
    elif meta["kind"] == "plain":
        cmds = lambda out: [["g++", *COMMON, "-O1", *DEFS, *meta["flags"], src, "-o", out, "-lpthread"]]
    else:
        cmds = lambda out: [["g++", *COMMON, "-O1", *DEFS, *meta["flags"], *ASAN, src, "-o", out, "-lpthread"]]
    key = tree_hash(deps, [meta, cmds("X")])
    name = os.path.splitext(os.path.basename(src))[0]
    out = os.path.join(BUILD, name, key)
    if os.path.exists(out):
        return out, meta
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for old in glob.glob(os.path.join(os.path.dirname(out), "*")):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = out + ".tmp%d" % os.getpid()
    for c in cmds(tmp):
        r = sh(c)
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s\n%s" % (src, " ".join(c), r.stdout[-6000:]))
    for e in (".h.o", ".r.o"):
        if os.path.exists(tmp + e):
            os.unlink(tmp + e)
    os.rename(tmp, out)
    return out, meta


def known():
    res = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s*property=(\S+)\s+sig=(.+?)\s+::\s*(.*)$", line.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def props():
    r = {}
    for line in open(os.path.join(V, "properties.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            r[d["id"]] = d
    return r


def level_of(pid):
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "model_checking"


def run_one(pid):
    t0 = time.time()
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid + ".cc")) + glob.glob(os.path.join(V, "harness", pid + "_*.cc")))
    if not srcs:
        raise CheckError("no harness for " + pid)
    repl_dir = os.path.join(V, "replays")
    os.makedirs(repl_dir, exist_ok=True)
    for old in glob.glob(os.path.join(repl_dir, pid + "-*")):
        os.unlink(old)
    results = []
    with_builds = []
    procs = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(build, s) for s in srcs]
        with_builds = [(s,) + f.result() for s, f in zip(srcs, futs)]
    tb = time.time() - t0
    for src, exe, meta in with_builds:
        out = os.path.join(BUILD, os.path.basename(src) + ".json")
        if os.path.exists(out):
            os.unlink(out)
        r = sh([exe, "--tier", TIER, "--out", out], env=ENV, cwd=BUILD)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("harness %s ended with %s\n%s" % (src, r.returncode, r.stdout[-6000:]))
        d = json.load(open(out))
        d["_exe"] = exe
        d["_src"] = src
        results.append(d)
    kn = known()
    bad, listed = [], []
    for d in results:
        if not d.get("complete", True) and not d["violations"]:
            raise CheckError("%s: exploration incomplete without a violation" % d["_src"])
        for v in d["violations"]:
            if (pid, v["sig"]) in kn:
                listed.append((v, d))
            else:
                bad.append((v, d))
    spaces = [dict(s, harness=os.path.basename(d["_src"])) for d in results for s in d.get("spaces", [])]
    ev = sum(d["evaluations"] for d in results)
    states = sum(max(d.get("states", 0), 0) for d in results)
    outcomes = sum(d.get("outcomes", 0) for d in results)
    cov = {
        "states": states or outcomes,
        "transitions": sum(d.get("transitions", 0) for d in results),
        "traces_validated_against_impl": ev,
        "samples": [s for d in results for s in d.get("samples", [])][:24] or ["(none)"],
        "evaluations": ev,
        "distinct_outcomes": outcomes,
        "distinct_nontrivial": sum(d.get("nontrivial", 0) for d in results),
        "rule": " / ".join(d.get("rule", "") for d in results),
        "spaces": spaces,
        "exhaustive": all(d.get("complete", True) for d in results),
        "build_s": round(tb, 2),
        "known_findings_seen": [v["sig"] for v, _ in listed],
    }
    evd = {"property": pid, "tier": TIER, "seed": SEED, "level": level_of(pid), "coverage": cov,
           "assumptions": sorted(set(a for d in results for a in d.get("assumptions", []))) or
           ["bounds and alphabets as listed in coverage.rule and DESIGN.md"],
           "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    seen = set()
    for v, d in listed:
        if v["sig"] not in seen:
            seen.add(v["sig"])
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, v["sig"])]))
    print("%s [%s]: %d executions, %d states/outcomes, %d transitions, %.1fs (build %.1fs)" % (
        pid, TIER, ev, cov["states"], cov["transitions"], evd["wall_s"], tb))
    for s in spaces:
        if os.environ.get("VERIF_VERBOSE"):
            print("   ", json.dumps(s))
    if bad:
        for i, (v, d) in enumerate(bad[:6]):
            path = os.path.join(repl_dir, "%s-%d.txt" % (pid, i))
            with open(path, "w") as f:
                f.write("property: %s\nsignature: %s\ncount: %s\ncase: %s\nwhat: %s\nreplay: VERIF_TIER=%s %s --tier %s --replay '%s'\n" % (
                    pid, v["sig"], v.get("count"), v.get("case"), v["desc"], TIER, d["_exe"], TIER, v["replay"]))
            print("  violated: [%s] %s" % (v["sig"], v["desc"][:700]))
            print("     case: %s (x%s)" % (v.get("case"), v.get("count")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    rc = 0
    ids = sys.argv[1:]
    if ids == ["--build-only"]:
        os.makedirs(BUILD, exist_ok=True)
        import concurrent.futures as cf
        srcs = sorted(glob.glob(os.path.join(V, "harness", "*.cc")))
        bad = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for s, f in [(s, ex.submit(build, s)) for s in srcs]:
                try:
                    f.result()
                except CheckError as e:
                    bad += 1
                    print(e)
        print("built %d harnesses, %d failed" % (len(srcs) - bad, bad))
        return 1 if bad else 0
    if ids == ["--all"]:
        ids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    os.makedirs(BUILD, exist_ok=True)
    for pid in ids:
        try:
            r = run_one(pid)
            sys.stdout.flush()
        except CheckError as e:
            print("CHECK-ERROR %s: %s" % (pid, e))
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
