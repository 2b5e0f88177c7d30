#!/usr/bin/env python3
"""Builds one property's harness from /repo's current tree and runs it.

usage: check.py <id> quick|thorough [--seed N] [--replay FILE] [--only PART] [--scale X]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not give an answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RPP_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
UB = "bounds,shift,null,alignment,bool,enum,return,unreachable,integer-divide-by-zero,vla-bound,builtin"
ASAN = ["-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all"]
COMMON = ["-std=c++20", "-g1", "-fno-rtti", "-fno-exceptions", "-fno-omit-frame-pointer",
          "-ftrivial-auto-var-init=pattern", "-Wno-everything", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
          "-DRPP_RELWITHDEBINFO_BUILD"]
RELEASE = ["-std=c++20", "-g1", "-O2", "-fno-rtti", "-fno-exceptions", "-Wno-everything", "-I" + REPO,
           "-I" + os.path.join(VERIF, "harness"), "-DRPP_RELEASE_BUILD"]
sys.path.insert(0, os.path.join(VERIF, "harness"))
from checks import CHECKS  # id -> dict(src=, variants=, rule=, assumptions=)

VARIANTS = {
    "asan": COMMON + ["-O1"] + ASAN,
    "asan2": COMMON + ["-O2"] + ASAN,
    "release": RELEASE,
    "tsan": [f for f in COMMON if not f.startswith("-ftrivial")] + ["-O1", "-fsanitize=thread"],
    "plain": COMMON + ["-O2"],
}

def tree_hash(paths, flags):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        else:
            files = [p]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    h.update(json.dumps(flags).encode())
    return h.hexdigest()[:20]

def uses_refused(text):
    """Whether the errors are the type system refusing a use, rather than a name that is gone or hidden."""
    errors = re.findall(r": error: (.*)", text)
    return bool(errors) and not any(re.search(r"undeclared|no member named|private member|protected member|unknown type|no type named|no template named|"
                                              r"file not found|redefinition|unknown argument", e) for e in errors)

def build(cid, conf, variant, gen=()):
    """The harness's path; None if it does not build; the path of a generated program, or of the compiler's words on the
    harness (.txt), if the library builds and only such a use of it is refused."""
    flags = VARIANTS[variant] + conf.get("flags", [])
    hd = os.path.join(VERIF, "harness")
    src = os.path.join(hd, conf["src"])
    headers = sorted(glob.glob(os.path.join(hd, "*.h")))
    key = tree_hash([os.path.join(REPO, "rpp"), src, os.path.join(hd, "pbt.cpp")] + headers, flags + list(gen))
    out = os.path.join(VERIF, "build", f"{cid}-{variant}")
    exe, stamp = os.path.join(out, "harness"), os.path.join(out, "key")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(out, exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    parts = conf.get("parts", 1)  # a heavy source is compiled in parts, each with its own PART
    tus = [(src, f"h{i}.o", f"-DPART={i}") for i in range(parts)] + [(os.path.join(hd, "pbt.cpp"), "pbt.o", "-DPBT"),
           (os.path.join(REPO, "rpp/impl/unify.cpp"), "impl.o", "-DPBT"), (os.path.join(REPO, "rpp/pos/unify.cpp"), "pos.o", "-DPBT")]
    made = []
    for i, text in enumerate(gen):
        g = os.path.join(out, f"gen{i}.cpp")
        with open(g, "w") as f:
            f.write(text)
        made.append(g)
        tus.append((g, f"gen{i}.o", "-DPBT"))
    def cc(tu):
        s, o, d = tu
        return subprocess.run([CXX, *flags, d, "-c", s, "-o", os.path.join(out, o)], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        broken, refused = None, ""
        for tu, r in zip(tus, ex.map(cc, tus)):
            if r.returncode:
                sys.stderr.write(r.stderr[:6000])
                if tu[0] == src and r.returncode == 1 and uses_refused(r.stderr):
                    refused += r.stderr
                elif tu[0] not in made:
                    return None
                broken = broken or tu[0]
        if refused:
            broken = os.path.join(out, "refused.txt")
            with open(broken, "w") as f:
                f.write(f"legal uses of the library in harness/{conf['src']} that no longer compile ({variant}):\n" + refused)
        if broken:
            return broken
    san = [f for f in flags if f.startswith("-fsanitize")]
    r = subprocess.run([CXX, *san, *[os.path.join(out, o) for _, o, _ in tus], "-o", exe, "-lpthread", "-ldl"]
                       + conf.get("link", []), capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[:6000])
        return None
    with open(stamp, "w") as f:
        f.write(key)
    return exe

def main():
    a = sys.argv[1:]
    cid = a[0]
    if cid == "--setup":
        for c in (CXX, "g++"):
            subprocess.run([c, "--version"], check=True, stdout=subprocess.DEVNULL)
        for d in ("replays", "evidence", "build"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        return 0
    tier = a[1] if len(a) > 1 and not a[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    def opt(n):
        return a[a.index(n) + 1] if n in a else None
    seed = opt("--seed") or os.environ.get("VERIF_SEED") or "1"
    conf = CHECKS[cid]
    t0 = time.time()
    env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier,
               ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
                            "handle_segv=1:handle_sigtrap=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                            "detect_stack_use_after_return=1:hard_rss_limit_mb=3500:quarantine_size_mb=32:"
                            "allow_user_segv_handler=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
               TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0:detect_deadlocks=0:atexit_sleep_ms=50:"
                            "suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"))
    env.pop("RC_PARAMS", None)
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    variants = conf.get("variants", {"asan": 1.0})
    if tier == "thorough":
        variants = conf.get("variants_thorough", variants)
    merged = dict(evaluations=0, distinct_nontrivial=0, unreproduced=0, violations=0, parts=[], classes={}, samples=[])
    rc = 0
    gen = []
    if "gen" in conf:  # generated programs depend on the seed and the tier alone
        gs, gt = seed, tier
        if opt("--replay") and not opt("--replay").endswith(".txt"):
            with open(opt("--replay")) as f:
                text = f.read()
            if opt("--replay").endswith(".cpp"):
                gen = [text]
            else:
                w = dict(l.split(None, 1) for l in text.splitlines()[:3])
                gs, gt = w["seed"], w["tier"]
        gen = gen or __import__(conf["gen"]).generate(int(gs), gt)
    with ThreadPoolExecutor(4) as ex:
        exes = dict(zip(variants, ex.map(lambda v: build(cid, conf, v, gen), variants)))
    bad = [e for e in exes.values() if e and e.endswith((".cpp", ".txt"))]
    if bad:  # a legal use no longer compiles
        replay = os.path.join(replay_dir, f"{cid}-program" + os.path.splitext(bad[0])[1])
        if os.path.abspath(opt("--replay") or "") != replay:
            shutil.copy(bad[0], replay)
        print(f"VIOLATION property={cid} replay={replay}")
        evd = dict(property=cid, tier=tier, seed=int(seed), level="exploration",
                   coverage=dict(evaluations=max(len(gen), 1), distinct_nontrivial=max(len(gen), 1), rule=conf["rule"], samples=["(a legal program does not compile)"]),
                   assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        return 1
    if any(e is None for e in exes.values()):
        print(f"{cid}: the harness does not build against this tree", file=sys.stderr)
        return 2
    if (opt("--replay") or "").endswith(".txt"):
        print(f"{cid}: every use the harness makes of the library compiles")
        return 0
    t_build = time.time() - t0
    for v, scale in variants.items():
        part = None  # a variant may run only the parts whose name contains a string
        if isinstance(scale, tuple):
            scale, part = scale
        scratch = tempfile.mkdtemp(prefix=f"pbt-{cid}-", dir="/tmp")
        ev = os.path.join(scratch, "evidence.json")
        cmd = [exes[v], "--id", cid, "--evidence", ev, "--replay-dir", replay_dir]
        s = scale * float(opt("--scale") or os.environ.get("VERIF_SCALE") or 1)
        cmd += ["--scale", str(s)]
        if opt("--only") or part: cmd += ["--only", opt("--only") or part]
        if opt("--replay"): cmd += ["--replay", os.path.abspath(opt("--replay"))]
        try:
            r = subprocess.run(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL)
            if opt("--replay"):
                return r.returncode
            if r.returncode not in (0, 1):
                print(f"{cid}: harness ended with status {r.returncode}", file=sys.stderr)
                return 2
            e = json.load(open(ev))
            for k in ("evaluations", "distinct_nontrivial", "unreproduced", "violations"):
                merged[k] += e[k]
            for p in e["parts"]:
                p["build"] = v
                merged["parts"].append(p)
            for k, n in e["classes"].items():
                merged["classes"][k] = merged["classes"].get(k, 0) + n
            merged["samples"] += e["samples"]
            if r.returncode == 1:
                rc = 1
                break
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if opt("--only"):
        return rc
    kf = known(cid)
    cov = dict(evaluations=merged["evaluations"], distinct_nontrivial=merged["distinct_nontrivial"],
               rule=conf["rule"], samples=merged["samples"][:12] or ["(stopped at the first violation)"],
               parts=merged["parts"], classes=merged["classes"], unreproduced_worker_deaths=merged["unreproduced"],
               build_s=round(t_build, 1))
    evd = dict(property=cid, tier=tier, seed=int(seed), level="exploration", coverage=cov,
               assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2),
               violations=merged["violations"])
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for line in kf:
        print(line)
    print(f"{cid} {tier} seed={seed}: evaluations={cov['evaluations']} distinct_nontrivial={cov['distinct_nontrivial']} "
          f"violations={merged['violations']} wall={time.time()-t0:.1f}s (build {t_build:.1f}s)")
    return rc

def known(cid):
    """Unrepaired findings of known_findings.txt ("known: property=<id> part=<part> <what fails>")."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known: property=" + cid + " "):
            out.append("KNOWN-FINDING: " + line[len("known: "):].strip())
    return out

if __name__ == "__main__":
    sys.exit(main())
