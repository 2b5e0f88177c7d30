#!/usr/bin/env python3
"""Mutation sweep: plants small random edits in scratch copies of rpp and reports those no quick check notices.

usage: mutate.py N SEED [--workers K] [--only FILE-SUBSTR] [--checks C01,C02]
Survivors are read by hand: each is an equivalent edit, outside every property, or a gap to close.
"""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # file -> checks most likely to notice, in order
 "vec.h": "C01 C05 C29 C13", "stack.h": "C01 C05 C29 C13", "slice.h": "C01 C29 C13", "array.h": "C01 C05 C29 C13", "queue.h": "C02 C05 C29 C13", "heap.h": "C03 C05 C29 C13",
 "map.h": "C04 C05 C29 C13", "impl/alloc.cpp": "C06 C31", "alloc0.h": "C08 C06 C31", "alloc1.h": "C08 C31", "range_allocator.h": "C07",
 "box.h": "C09 C05 C29 C13", "rc.h": "C09 C05 C29 C13", "ref0.h": "C09 C29", "ref1.h": "C09 C29 C13", "opt.h": "C10 C05 C29 C13", "variant.h": "C10 C05 C13", "tuple.h": "C10 C13",
 "pair.h": "C10 C13", "storage.h": "C10 C13", "function.h": "C11 C05 C29 C13", "string0.h": "C12 C05 C29", "string1.h": "C12 C29 C13", "format.h": "C13 C12 C29", "format1.h": "C13 C12 C30",
 "hash.h": "C14", "math.h": "C15", "impl/math.cpp": "C15", "limits.h": "C30 C15", "simd.h": "C16", "impl/simd.cpp": "C16", "vmath.h": "C16 C17 C18 C19 C14 C29 C13",
 "impl/vmath.cpp": "C17 C18 C19", "rng.h": "C20", "thread0.h": "C21", "thread.h": "C22 C29", "pos/thread_pos.cpp": "C21 C22", "async.h": "C23 C24 C29",
 "pool.h": "C24", "pos/async_pos.cpp": "C24", "pos/asyncio_pos.cpp": "C25 C24", "files.h": "C25", "pos/files_pos.cpp": "C25", "net.h": "C26",
 "pos/net_pos.cpp": "C26 C29", "log.h": "C27", "log_callback.h": "C27", "impl/log.cpp": "C27 C29", "profile.h": "C28 C31", "impl/profile.cpp": "C28 C31", "reflect.h": "C30 C13",
 "utility.h": "C30 C10 C11", "impl/base.cpp": "C12 C13",
}
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \* ", " / "), (r" / ", " * "), (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "),
        (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"!(?=[a-z_(])", ""), (r" << ", " >> "), (r" >> ", " << "),
        (r" & ", " | "), (r" \| ", " & "), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"if\((?!constexpr)", "if(true || "), (r"if\((?!constexpr)", "if(false && "),
        (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bz\b", "x"), (r"1\.0f", "2.0f"), (r"0\.0f", "1.0f"), (r"~(?=[A-Za-z(])", ""), (r"\blength_\b", "capacity_"),
        (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bfront\(", "back("), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r" \? (.*) : (.*);", r" ? \2 : \1;"), (r"%", "+ 0 *")]

def candidates(path):
    out, skip, depth = [], [], 0
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("#if"):
            skip.append(bool(re.search(r"WINDOWS|MACOS|MSVC|ARM", t)) and "LINUX" not in t or t.startswith("#ifndef RPP_"))
            if t.startswith("#ifndef"): skip[-1] = False
        elif t.startswith(("#else", "#elif")) and skip:
            skip[-1] = ("MACOS" in t) if t.startswith("#elif") else (not skip[-1] if "LINUX" in lines[i] else False)
        elif t.startswith("#endif") and skip:
            skip.pop()
        if any(skip) or not t or t.startswith(("#", "//", "template", "requires", "using", "static_assert", "friend", "namespace", "RPP_", "return OS_")):
            continue
        code = l.split("//")[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n.strip() != t: out.append((i, n))
        if t.endswith(";") and not re.match(r"(return|const |auto|u8|u64|i64|int|T |static|struct|\}|bool|f32|constexpr|else|for)", t) and (re.search(r"[()]|=|\+\+|--", t)):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
    return lines, out

def main():
    a = sys.argv[1:]
    n, seed = int(a[0]), int(a[1])
    def opt(k, d):
        return a[a.index(k) + 1] if k in a else d
    workers, only, checks = int(opt("--workers", "2")), opt("--only", ""), opt("--checks", "")
    r = random.Random(seed)
    files = [f for f in MAP if not only or f in only.split(",")]
    pool = []
    for f in files:
        lines, c = candidates("/repo/rpp/" + f)
        byline = {}
        for i, t in c: byline.setdefault(i, []).append(t)
        for i in byline: pool.append((f, i, lines[i], r.choice(byline[i])))
    r.shuffle(pool)
    pool = pool[int(opt("--skip", "0")):][:n]
    free = []
    for k in range(workers):
        d = f"/tmp/mv/{k}"
        os.makedirs(d, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".git", "--exclude", "build", "--exclude", "replays", V + "/", d + "/v/"], check=True)
        free.append(d)
    def one(m):
        f, i, old, new = m
        d = free.pop()
        try:
            shutil.rmtree(d + "/repo", ignore_errors=True)
            os.makedirs(d + "/repo")
            subprocess.run(["cp", "-a", "/repo/rpp", d + "/repo/rpp"], check=True)
            p = d + "/repo/rpp/" + f
            L = open(p).read().split("\n")
            L[i] = new
            open(p, "w").write("\n".join(L))
            c = subprocess.run(["clang++-18", "-std=c++20", "-fno-rtti", "-fno-exceptions", "-Wno-everything", "-fsyntax-only", "-DRPP_RELWITHDEBINFO_BUILD", "-I" + d + "/repo", d + "/repo/rpp/impl/unify.cpp"], capture_output=True)
            if c.returncode: return m, "nocompile", ""
            for cid in (checks.split(",") if checks else MAP[f].split()):
                try:
                    x = subprocess.run(["nice", "python3", d + "/v/check.py", cid, "quick"], env=dict(os.environ, RPP_REPO=d + "/repo", PBT_NOSHRINK="1"), capture_output=True, text=True, timeout=700)
                except subprocess.TimeoutExpired:
                    return m, "TIMEOUT", cid
                o = x.stdout + x.stderr
                if "VIOLATION" in o and x.returncode == 1: return m, "caught", cid
                if x.returncode == 2: return m, "nocompile" if "error:" in o else "RC2", cid + " " + o[-200:]
            return m, "SURVIVED", ""
        finally:
            free.append(d)
    log = open(f"/tmp/mv/log.{seed}.txt", "a")
    with ThreadPoolExecutor(workers) as ex:
        for (f, i, old, new), v, c in ex.map(one, pool):
            print(f"{v} {c} | {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}", file=log, flush=True)
    print("done", file=log, flush=True)

main()
