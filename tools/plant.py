#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the planted bugs described in tools/bugs_*.py, and checks each in a scratch copy.

usage: plant.py [--nocheck] [ID-prefix ...]     (each bug: build, stable tests, demo with and without the patch)
       plant.py --run ID-prefix ...             (runs the property's quick check against the planted tree)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
SC = "/tmp/plant"

DEMO_SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/demo" "$t/debug.log"; rmdir "$t" 2>/dev/null' EXIT
clang++-18 -std=c++20 %(opt)s -g1 -fno-rtti -fno-exceptions -Wno-everything -I"$PWD" %(flags)s \
    "$here/demo.cpp" rpp/impl/unify.cpp rpp/pos/unify.cpp -o "$t/demo" -lpthread -ldl || exit 3
cd "$t" && %(pre)stimeout %(timeout)d "$t/demo"
rc=$?
cd "$here"
%(post)sexit $rc
'''
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <rpp/base.h>
%(inc)s
using namespace rpp;
#define OK(c) do { if(!(c)) { fprintf(stderr, "FAILED: %%s (line %%d)\n", #c, __LINE__); _Exit(1); } } while(0)
'''

def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

def edit(tree, b):
    for f, o, n in b["edits"]:
        p = os.path.join(tree, f)
        s = open(p).read()
        nth = 1
        if isinstance(o, tuple):
            o, nth = o
        elif s.count(o) != 1:
            raise SystemExit(f"{b['id']}: {f}: {s.count(o)} occurrences of {o!r}")
        i = -1
        for _ in range(nth):
            i = s.index(o, i + 1)
        open(p, "w").write(s[:i] + n + s[i + len(o):])

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def tests(tree):
    r = sh(f"cmake -S {tree} -B {tree}/_build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo "
           f"-DRPP_TEST=ON && ninja -C {tree}/_build -j8")
    if r.returncode:
        return "build fails: " + (r.stdout + r.stderr)[-1500:]
    for i in range(3):
        r = sh(f"ctest --test-dir {tree}/_build -j1 --timeout 40")
        if "100% tests passed" not in r.stdout:
            return "tests fail: " + r.stdout[-1200:]
    return None

def main():
    a = sys.argv[1:]
    run, nocheck = "--run" in a, "--nocheck" in a
    ids = [x for x in a if not x.startswith("--")]
    bugs = {k: b for k, b in load().items() if not ids or any(k.startswith(i) for i in ids)}
    os.makedirs(SC, exist_ok=True)
    base, tree = SC + "/base", SC + "/tree"
    if not run:
        for d in (base, tree):
            sh(f"mkdir -p {d} && rsync -a --delete --exclude _build /repo/ {d}/ 2>/dev/null || (rm -rf {d} && cp -a /repo {d})")
            sh(f"rm -rf {d}/_build")
    bad = 0
    for k, b in bugs.items():
        if run:
            d = SC + "/run"
            sh(f"rm -rf {d}; mkdir -p {d}; cp -a /repo/rpp {d}/rpp")
            edit(d, b)
            extra = [x for x in a if x.startswith("--seed")]
            r = subprocess.run(["python3", V + "/check.py", b["property"], "quick"], env=dict(os.environ, RPP_REPO=d), capture_output=True, text=True)
            o = r.stdout + r.stderr
            ok = r.returncode == 1 and f"VIOLATION property={b['property']}" in o
            why = next((l for l in o.splitlines() if l.startswith("FAIL:")), o.strip().splitlines()[-1] if o.strip() else "")
            print(k, "CAUGHT" if ok else f"MISSED rc={r.returncode}", why[:150], flush=True)
            continue
        sh("git checkout -q -- . && git clean -fdq -e _build", cwd=tree)
        edit(tree, b)
        diff = sh("git diff", cwd=tree).stdout
        d = os.path.join(V, "seeded", k)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(HEAD % dict(inc="\n".join(f"#include <rpp/{h}>" for h in b.get("inc", []))) + b["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH % dict(opt=b.get("opt", "-O1"), flags=b.get("flags", "-DRPP_RELWITHDEBINFO_BUILD"), pre=b.get("pre", ""),
                                                      timeout=b.get("timeout", 60), post=b.get("post", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        if nocheck:
            continue
        e = None
        r0 = sh(f"bash {d}/demo.sh", cwd=base)
        if r0.returncode:
            e = f"demo fails on the unchanged tree: rc {r0.returncode} {(r0.stdout + r0.stderr)[-800:]}"
        if not e:
            r1 = sh(f"bash {d}/demo.sh", cwd=tree)
            if r1.returncode in (0, 3):
                e = f"demo rc {r1.returncode} with the patch {(r1.stdout + r1.stderr)[-500:]}"
        if not e:
            e = tests(tree)
        print(k, "ok" if not e else "BAD " + e, flush=True)
        bad += bool(e)
    return 1 if bad else 0

sys.exit(main())
