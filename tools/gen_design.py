#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md and design_tail.md around one section per property (from checks.py, the
properties, the planted bugs and the notes below)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from checks import CHECKS

# id -> (oracle and bounds, why the tests cannot settle it)
NOTES = {
"C01": ("`std::vector` models, compared in full (length, every index, iteration, front/back, `full()`, capacity monotone) after every operation; element kinds: trivial of 1-24 bytes, owning, move-only, counted. Histories up to 300 operations, plus single large vectors of tens of thousands of elements; allocator padding poisoned by ASan, storage sizes recorded by a tracking allocator.", "reallocation bugs need a particular mix of reserve, clone and growth; the tests push a few constants"),
"C02": ("`std::deque`; the generator rotates (pop+push) so that the ring wraps before clones, reserves and erasures", "every interaction of head position, length and capacity matters; the tests never wrap and then clone or erase"),
"C03": ("`std::multiset` of keys plus identity of every element; drained at the end", "sift order depends on key patterns and ties"),
"C04": ("`std::map`; the hash of the key type is chosen per case from ten patterns (identity, constant, low/high bits only, clusters next to the end of the table ...) so that displacement chains, wrap-around and backward shifts occur", "robin-hood displacement and erasure only go wrong for particular collision layouts"),
"C05": ("a ledger of counted objects and a tracking allocator (block sizes, double free, foreign free), with a standard-library mirror of the nested owners: number of live resources equal after every step", "ownership transfer has to be right on every path of every container combination"),
"C06": ("own shadow of all live region blocks (intervals, fill pattern verified throughout), `Region::depth/size`, malloc balance; misuse in forked children", "chunk boundaries, deep nesting, big blocks after small ones"),
"C07": ("interval model: a request must be refused exactly if no gap in the model fits it aligned; every field of the statistics recomputed from the live ranges", "bucket search bugs need a fragmented layout"),
"C08": ("address-interval set, fill patterns, destructor counts, number of backing blocks; threads under TSan", "hand-over and recycling across threads"),
"C09": ("owner-count model over slots; nodes that own pointers (lists, graphs) edited through themselves; threads with TSan", "lifetime order, self-referential release, concurrent last release"),
"C10": ("plain models of the value held; construction/visit/match counters; ledger", "number and position of alternatives (1-71), replacement of one alternative by another"),
"C11": ("model of the state of each callable, ledger of captures, exact argument identity (addresses, move-only)", "size and alignment of captures against the buffer size; moves of non-trivial captures"),
"C12": ("`std::string` and byte-wise definitions; parsers against `strtoll`/`strtof`-like references with exact rest", "NUL bytes, high bytes, aliasing, near-equal strings, boundaries of lengths"),
"C13": ("independent renderer that generates value, expected text and type name together; measured = written; three allocators", "88 types nested in any way times formats: unit tests sample ten"),
"C14": ("equal pairs hash equal; pairs differing in one bit/byte/position must differ except for a per-suite collision allowance; bucket spread within 8 standard deviations; compile-time vs run-time", "needs many structured pairs and statistics"),
"C15": ("bit loops, `__int128`, C library (4 ulp); exhaustive stretches of 32-bit words", "extremes and power-of-two neighbours"),
"C16": ("scalar loop per component, bit-exact (NaN payload ignored); operands compared afterwards", "all operators x widths x types x special values"),
"C17": ("textbook definitions in double with error bounds scaled by the terms; constructors judged by images of points", "axes within 2^-24 of a coordinate axis, near-singular matrices"),
"C18": ("Hamilton product and Rodrigues in double", "gimbal poles, multiples of 90 degrees, non-unit quaternions"),
"C19": ("exact min/max boxes; transformed and projected corners in double", "boxes across the viewer's plane, empty boxes, negative scales"),
"C20": ("replay equality, exact ranges, chi-like bounds at 8 standard deviations (probability of a false alarm below 1e-12 per comparison)", "bias and range errors show only in many samples or rare states"),
"C21": ("model of who holds what probed by a second thread; exclusion counters; atomics explained by one total order (sum/permutation arguments); bounded waits", "schedules: random pauses, affinity changes, signal storms; TSan judges happens-before on each run"),
"C22": ("gates inside the spawned callables tell whether a join/block returned early; ledgers", "order of handle, future and thread ends"),
"C23": ("an interpreter of the generated coroutine program predicts every step; frame and locals ledgers; races under TSan/ASan", "trees of tasks x resume order x drop points"),
"C24": ("each job logs thread and order; expected results computed from the tree; descriptor and thread counts", "load, ordering of signal and await, number of processors"),
"C25": ("contents read and written through plain system calls; `read`/`write`/`fstat` interposed to shorten, interrupt and fail transfers; fd table compared", "faults at each transfer; the tests never write a file back"),
"C26": ("queue per socket, reference address parser, number of open sockets", "length edges, sender identity, moves"),
"C27": ("exact lines of the console and of debug.log from a fresh program; callback calls", "concurrent loggers, subscription changes, fatal ends"),
"C28": ("model of the timing tree with time bounds measured around the calls", "recursion, repeated scopes, threads ending during frames"),
"C29": ("forked child must end in SIGTRAP after a logged `[fatal` line (a quarter of the misuses run with SIGTRAP ignored and must exit with status 1); proper uses judged in place; sanitizer and release builds", "a test cannot survive the fatal path, and overflowing indices are never tried"),
"C30": ("generated declarations are the oracle; field addresses; standard type traits", "arity up to 60, underlying types, namespaces, templates"),
"C31": ("exact text of the report, malloc/free counted by the linker's --wrap, threads freeing each other's blocks", "interleavings over one allocator name, address reuse"),
}
def main():
    head = open(V + "/tools/design_head.md").read()
    tail = open(V + "/tools/design_tail.md").read()
    seeds = {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
    out = [head]
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        i = p["id"]
        c = CHECKS[i]
        o, w = NOTES[i]
        v = ", ".join(c.get("variants", {"asan": 1}))
        out.append(f"### {i} {p['title']}\n\n*Generated.* {c['rule']}\n\n*Oracle and bounds.* {o[0].upper() + o[1:]}. "
                   f"Builds: {v}. Source: `harness/{c['src']}`.\n\n*Beyond the tests.* {w[0].upper() + w[1:]}.\n")
    out.append("## Planted bugs\n\nEach row is a change under `seeded/` (independent of the checks' code, with a demonstration) and the quick "
               "check of its property; all are caught unless the last column says otherwise. `python3 tools/plant.py --run` repeats this.\n\n"
               "| id | what it breaks | needs |\n|---|---|---|\n")
    for i in sorted(seeds):
        for n, d in seeds[i]:
            out.append(f"| {n} | {d['what_it_breaks']} | {d['needs']} |\n")
    out.append("\n" + tail)
    text = "\n".join(x if x.endswith("|\n") is False else x.rstrip("\n") for x in out)
    open(V + "/DESIGN.md", "w").write(text)
main()
