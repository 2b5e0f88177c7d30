// C31: allocation statistics and the leak report.
#include "par.h"
#include <rpp/rng.h>
using namespace par;
using rpp::Mallocator;
using rpp::Mpool;
using rpp::Profile;

// --- recycling malloc: small blocks are handed out again at once, and threads pause around it ---
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}
namespace {
constexpr U SLOT = 512, SLOTS = 8192;
alignas(16) unsigned char g_arena[SLOT * SLOTS];
uint32_t g_stack[SLOTS];
U g_top = 0;
std::atomic_flag g_spin = ATOMIC_FLAG_INIT;
std::atomic<bool> g_recycle{false};
std::atomic<U> g_pause{0}; // 0: never
thread_local U g_mix = 0;
void pause_some() {
    if(U p = g_pause.load(std::memory_order_relaxed)) {
        if(!g_mix) g_mix = p + (U)pthread_self();
        relax(g_mix, p % 3);
    }
}
}
extern "C" void* __wrap_malloc(size_t n) {
    if(!g_recycle.load(std::memory_order_relaxed) || n > SLOT) return __real_malloc(n);
    while(g_spin.test_and_set(std::memory_order_acquire)) sched_yield();
    void* r = nullptr;
    if(g_top) r = g_arena + SLOT * g_stack[--g_top];
    g_spin.clear(std::memory_order_release);
    if(!r) return __real_malloc(n);
    pause_some();
    return r;
}
extern "C" void __wrap_free(void* p) {
    if(p >= (void*)g_arena && p < (void*)(g_arena + sizeof g_arena)) {
        while(g_spin.test_and_set(std::memory_order_acquire)) sched_yield();
        g_stack[g_top++] = (uint32_t)(((unsigned char*)p - g_arena) / SLOT);
        g_spin.clear(std::memory_order_release);
        pause_some();
        return;
    }
    __real_free(p);
}
static void start_recycling(U pause) {
    g_top = 0;
    for(U i = 0; i < SLOTS; i++) g_stack[g_top++] = (uint32_t)(SLOTS - 1 - i);
    g_pause = pause;
    g_recycle = true;
}

// --- the allocators under test ---
using A0 = rpp::Mdefault;
using A1 = Mallocator<"A">;
using A2 = Mallocator<"AB">;
using A3 = Mallocator<"a">;
using A4 = Mallocator<"">;
using A5 = Mallocator<"100% of [it]: %">;
using A6 = Mallocator<"a name of thirty-one characters">;
using H0 = Mallocator<"Mute", false>;
using H1 = Mallocator<"A", false>;
constexpr U NAMED = 7, ALLOCATORS = 10; // + two hidden ones and sys_alloc
static const char* NAMES[NAMED] = {"Default", "A", "AB", "a", "", "100% of [it]: %", "a name of thirty-one characters"};
static void* take(U k, U n) {
    switch(k) {
    case 0: return A0::alloc(n);
    case 1: return A1::alloc(n);
    case 2: return A2::alloc(n);
    case 3: return A3::alloc(n);
    case 4: return A4::alloc(n);
    case 5: return A5::alloc(n);
    case 6: return A6::alloc(n);
    case 7: return H0::alloc(n);
    case 8: return H1::alloc(n);
    default: return n ? rpp::sys_alloc(n) : nullptr;
    }
}
static void give(U k, void* p) {
    switch(k) {
    case 0: return A0::free(p);
    case 1: return A1::free(p);
    case 2: return A2::free(p);
    case 3: return A3::free(p);
    case 4: return A4::free(p);
    case 5: return A5::free(p);
    case 6: return A6::free(p);
    case 7: return H0::free(p);
    case 8: return H1::free(p);
    default: return rpp::sys_free(p);
    }
}
template<U N>
struct Obj {
    unsigned char b[N];
};
constexpr U POOLS = 6;
static const U POOL_SIZES[POOLS] = {1, 7, 8, 24, 40, 1000};
static void* pool_make(U k) {
    switch(k) {
    case 0: return Mpool::make<Obj<1>>();
    case 1: return Mpool::make<Obj<7>>();
    case 2: return Mpool::make<Obj<8>>();
    case 3: return Mpool::make<Obj<24>>();
    case 4: return Mpool::make<Obj<40>>();
    default: return Mpool::make<Obj<1000>>();
    }
}
static void pool_destroy(U k, void* p) {
    switch(k) {
    case 0: return Mpool::destroy((Obj<1>*)p);
    case 1: return Mpool::destroy((Obj<7>*)p);
    case 2: return Mpool::destroy((Obj<8>*)p);
    case 3: return Mpool::destroy((Obj<24>*)p);
    case 4: return Mpool::destroy((Obj<40>*)p);
    default: return Mpool::destroy((Obj<1000>*)p);
    }
}
static U block_size(U n) { // what a pool's backing block holds: at least a link
    U a = n < 16 ? n & (~n + 1) : 16;
    U data = (n + a - 1) / a * a;
    U al = std::max<U>(a, 8);
    return (std::max<U>(data, 8) + al - 1) / al * al;
}

// --- the report ---
struct Stats {
    int64_t allocs = 0, frees = 0, high = 0, asize = 0, fsize = 0, unbalanced = 0;
    bool operator==(const Stats&) const = default;
};
static std::string show(const Stats& s) {
    char b[256];
    snprintf(b, sizeof b, "allocs %ld frees %ld high %ld alloc size %ld free size %ld unbalanced %ld", (long)s.allocs,
             (long)s.frees, (long)s.high, (long)s.asize, (long)s.fsize, (long)s.unbalanced);
    return b;
}
struct Report {
    std::map<std::string, Stats> stats;
    int64_t net = 0, region_size = 0, regions = 0;
    bool leaked = false, said_net = false, said_size = false, said_regions = false, complete = false;
    std::vector<std::string> warnings; // others
    std::vector<std::string> lines;    // of the test program
};
// Splits the output into reports; every "@end" of the program closes one.
static std::vector<Report> parse(const std::string& out) {
    std::vector<Report> rs(1);
    std::string name;
    bool in = false;
    std::stringstream ss(out);
    std::string line;
    auto num = [](const std::string& l, const char* key, int64_t& v) {
        auto p = l.find(key);
        if(p == std::string::npos) return false;
        v = strtoll(l.c_str() + p + strlen(key), nullptr, 10);
        return true;
    };
    while(std::getline(ss, line)) {
        Report& r = rs.back();
        if(line[0] == '@') {
            if(line == "@end") rs.emplace_back(), in = false;
            else r.lines.push_back(line);
            continue;
        }
        auto p = line.find("Allocation stats for [");
        if(p != std::string::npos) {
            auto from = p + strlen("Allocation stats for ["), to = line.rfind("]:");
            CHECK(to != std::string::npos && to >= from, "malformed report line \"%s\"", line.c_str());
            name = line.substr(from, to - from);
            CHECK(!r.stats.count(name), "the allocator \"%s\" is reported twice", name.c_str());
            r.stats[name];
            in = true;
            continue;
        }
        int64_t v;
        if(in) {
            Stats& s = r.stats[name];
            if(num(line, "\tAllocs: ", s.allocs) || num(line, "\tFrees: ", s.frees) || num(line, "\tHigh water: ", s.high) ||
               num(line, "\tAlloc size: ", s.asize) || num(line, "\tFree size: ", s.fsize))
                continue;
            if(num(line, "\tUnbalanced size: ", v)) {
                CHECK(v != 0, "a balanced allocator is reported as unbalanced");
                s.unbalanced = v;
                continue;
            }
        }
        if(num(line, "Unbalanced allocations: ", r.net)) r.said_net = true;
        else if(line.find("No memory leaked.") != std::string::npos) r.said_net = true, r.net = 0;
        else if(num(line, "Unbalanced region size: ", r.region_size)) r.said_size = true;
        else if(line.find("No region memory leaked.") != std::string::npos) r.said_size = true;
        else if(num(line, "Unbalanced regions: ", r.regions)) r.said_regions = true;
        else if(line.find("No regions leaked.") != std::string::npos) r.said_regions = true;
        else if(line.find("Memory leaked, shutting down now") != std::string::npos) r.leaked = true;
        else if(line.find("[warn") != std::string::npos || line.find("Profile:") != std::string::npos)
            r.warnings.push_back(line);
    }
    for(auto& r : rs) r.complete = r.said_net && r.said_size && r.said_regions;
    return rs;
}

// --- histories on one thread ---
enum Kind { ALLOC, FREE, FREE_NULL, MAKE, DESTROY, REGION, RALLOC, UNREGION, FRAME, SCOPE, FINALIZER, BOX, FINALIZE, KINDS };
struct Op {
    Kind k;
    U slot = 0, a = 0, n = 0;
    bool operator==(const Op&) const = default;
};
constexpr U SLOTS_ = 24, PSLOTS = 16, MAX_OPS = 400;

struct Runner { // executes a history; no memory of its own
    struct S {
        unsigned char* p;
        U k, n;
        unsigned char fill;
    } s[SLOTS_] = {}, ps[PSLOTS] = {};
    U fins[64], n_fin = 0;
    U fill = 0;
    int64_t base_live = 0, base_net = 0;
    bool frame = false;
    [[noreturn]] void bad(const char* what, U at) {
        printf("@bad at operation %lu: %s\n", at, what);
        fflush(nullptr);
        _exit(3);
    }
    void balance(const char* what, U at) {
#if __has_feature(address_sanitizer)
        int64_t l = pbt::live_mallocs() - base_live, n = rpp::sys_net_allocs() - base_net;
        if(l != n) {
            printf("@bad after operation %lu (%s): the balance moved by %ld, the number of live blocks by %ld\n", at, what,
                   (long)n, (long)l);
            fflush(nullptr);
            _exit(3);
        }
#endif
    }
    void free_slot(U i, U at) {
        auto& x = s[i];
        for(U j = 0; j < x.n; j++)
            if(x.p[j] != x.fill) bad("a live block was overwritten", at);
        give(x.k, x.p);
        x.p = nullptr;
    }
    U run(const std::vector<Op>& ops, U i) {
        for(; i < ops.size(); i++) {
            const Op& o = ops[i];
            switch(o.k) {
            case ALLOC: {
                auto& x = s[o.slot];
                x = {(unsigned char*)take(o.a, o.n), o.a, o.n, (unsigned char)(fill++)};
                if(!x.p != !o.n) bad(o.n ? "no memory" : "a request for nothing returned a block", i);
                if(x.p) memset(x.p, x.fill, x.n);
            } break;
            case FREE: free_slot(o.slot, i); break;
            case FREE_NULL: give(o.a, nullptr); break;
            case MAKE: {
                auto& x = ps[o.slot];
                x = {(unsigned char*)pool_make(o.a), o.a, POOL_SIZES[o.a], (unsigned char)(fill++)};
                memset(x.p, x.fill, x.n);
            } break;
            case DESTROY: {
                auto& x = ps[o.slot];
                for(U j = 0; j < x.n; j++)
                    if(x.p[j] != x.fill) bad("a live pool object was overwritten", i);
                pool_destroy(x.k, x.p);
                x.p = nullptr;
            } break;
            case REGION: {
                // the rest runs inside, to the matching end
                switch(o.a) {
                case 0: Region(R) { i = inner<R>(ops, i + 1); } break;
                default: Region(R) { i = inner<R>(ops, i + 1); } break;
                }
            } break;
            case UNREGION: return i;
            case FRAME:
                if(frame) Profile::end_frame();
                else (void)Profile::begin_frame();
                frame = !frame;
                break;
            case SCOPE:
                Trace("scope") {
                    Trace("inner") { give(0, take(0, 1 + o.n % 100)); }
                }
                break;
            case BOX: { // the library's own containers on a named allocator
                using C = Mallocator<"Containers">;
                rpp::Vec<U, C> v;
                rpp::Map<U, U, C> m;
                rpp::String<C> str{o.n % 50};
                for(U j = 0; j < o.n % 40; j++) v.push(j), m.insert(j, j);
                auto w = v.clone();
                rpp::Box<U, C> b{o.n};
            } break;
            case FINALIZER: {
                U id = n_fin++;
                fins[id] = o.slot;
                Profile::finalizer([this, id]() {
                    printf("@fin %lu\n", id);
                    fflush(stdout);
                    if(s[fins[id]].p) free_slot(fins[id], 1000 + id);
                });
            } break;
            case FINALIZE:
                printf("@net %ld\n", (long)rpp::sys_net_allocs());
                fflush(stdout);
                Profile::finalize();
                printf("@net %ld\n@end\n", (long)rpp::sys_net_allocs());
                fflush(stdout);
                n_fin = 0;
                frame = false;
                break;
            default: break;
            }
            balance("", i);
        }
        return i;
    }
    template<U R>
    U inner(const std::vector<Op>& ops, U i) {
        for(; i < ops.size() && ops[i].k == RALLOC; i++) {
            void* p = rpp::Mregion<R>::alloc(ops[i].n);
            if(ops[i].n) memset(p, 0xab, ops[i].n);
            balance("region", i);
        }
        return run(ops, i);
    }
};

PROP(history, 3000, 60000) {
    std::vector<Op> ops;
    // model
    struct Live {
        bool on = false;
        U k = 0, n = 0;
    } sl[SLOTS_], pl[PSLOTS];
    std::map<std::string, Stats> st;
    std::map<std::string, int64_t> cur;
    int64_t mute = 0; // live blocks of hidden allocators
    U pool_live[POOLS] = {}, pool_blocks[POOLS] = {}; // blocks: given out or kept
    std::vector<U> fins;
    U depth = 0;
    std::vector<U> rsize{0};
    std::vector<bool> rnew; // the next op may allocate in the region
    bool frame = false, containers = false;
    struct Expect {
        std::map<std::string, Stats> st;
        int64_t net;
        U rsize, depth, fins;
        bool containers, big_region;
    };
    std::vector<Expect> want;
    auto named = [&](const std::string& nm, U n, bool alloc) {
        auto& x = st[nm];
        int64_t& c = cur[nm];
        if(alloc) {
            x.allocs++;
            x.asize += (int64_t)n;
            c += (int64_t)n;
            x.high = std::max(x.high, c);
        } else {
            x.frees++;
            x.fsize += (int64_t)n;
            c -= (int64_t)n;
        }
    };
    auto did_free = [&](U i) {
        sl[i].on = false;
        if(!sl[i].n) return;
        if(sl[i].k < NAMED) named(NAMES[sl[i].k], sl[i].n, false);
        else mute--;
    };
    bool pools = s.chance(1, 3), regions = s.chance(1, 4), tidy = s.chance(2, 3);
    U rounds = s.pick({3, 1}) + 1;
    auto finalize = [&](bool last) {
        if(tidy)
            for(U i = 0; i < SLOTS_; i++) {
                bool by_fin = std::find(fins.begin(), fins.end(), i) != fins.end();
                if(sl[i].on && !by_fin) {
                    ops.push_back({FREE, i});
                    did_free(i);
                }
            }
        if(tidy)
            for(U i = 0; i < PSLOTS; i++)
                if(pl[i].on) {
                    ops.push_back({DESTROY, i});
                    pl[i].on = false;
                    pool_live[pl[i].k]--;
                }
        ops.push_back({FINALIZE});
        for(U i : fins)
            if(sl[i].on && sl[i].n) did_free(i);
        Expect e;
        for(U k = 0; k < POOLS; k++) { // kept blocks are returned
            for(; pool_blocks[k] > pool_live[k]; pool_blocks[k]--)
                named("Pool<" + std::to_string(POOL_SIZES[k]) + ">", block_size(POOL_SIZES[k]), false);
        }
        e.net = mute;
        for(auto& [nm, x] : st) {
            x.unbalanced = x.asize - x.fsize;
            e.net += x.allocs - x.frees;
        }
        e.st = st;
        e.rsize = rsize.back();
        e.depth = depth;
        e.fins = fins.size();
        e.containers = containers;
        e.big_region = rsize.back() > 200;
        want.push_back(e);
        st.clear();
        cur.clear();
        fins.clear();
        frame = containers = false;
    };
    U frees = 0, total = 0;
    for(U round = 0; round < rounds; round++) {
        U left = s.limit(8, 40, 150);
        while(s.step(left) && ops.size() < MAX_OPS) {
            switch(s.pick({8, 6, 1, pools && round == 0 ? 5u : 0u, pools && round == 0 ? 4u : 0u, regions ? 3u : 0u, regions ? 1u : 0u, 1, 1, 1, 1})) {
            case 0: {
                U i = s.draw(SLOTS_ - 1), k = s.draw(ALLOCATORS - 1);
                U n = s.pick({1, 4, 4, 1}) == 0 ? 0 : s.pick({4, 4, 1}) == 0 ? s.range(1, 16) : s.pick({3, 1}) == 0 ? s.range(1, 2000) : s.range(1, 200000);
                if(sl[i].on) break;
                sl[i] = {true, k, n};
                ops.push_back({ALLOC, i, k, n});
                total++;
                if(!n) break;
                if(k < NAMED) named(NAMES[k], n, true);
                else mute++;
            } break;
            case 1: {
                U i = s.draw(SLOTS_ - 1);
                if(!sl[i].on) break;
                ops.push_back({FREE, i});
                did_free(i);
                frees++;
            } break;
            case 2: ops.push_back({FREE_NULL, 0, s.draw(ALLOCATORS - 1)}); break;
            case 3: {
                U i = s.draw(PSLOTS - 1), k = s.draw(POOLS - 1);
                if(pl[i].on) break;
                pl[i] = {true, k, POOL_SIZES[k]};
                ops.push_back({MAKE, i, k});
                if(++pool_live[k] > pool_blocks[k]) {
                    pool_blocks[k]++;
                    named("Pool<" + std::to_string(POOL_SIZES[k]) + ">", block_size(POOL_SIZES[k]), true);
                }
            } break;
            case 4: {
                U i = s.draw(PSLOTS - 1);
                if(!pl[i].on) break;
                pl[i].on = false;
                pool_live[pl[i].k]--;
                ops.push_back({DESTROY, i});
            } break;
            case 5: {
                if(depth > 8) break;
                ops.push_back({REGION, 0, s.draw(1)});
                depth++;
                rsize.push_back(rsize.back());
                U m = s.draw(3);
                for(U j = 0; j < m; j++) {
                    U n = s.pick({3, 1}) == 0 ? s.draw(60) : s.draw(5000);
                    ops.push_back({RALLOC, 0, 0, n});
                    rsize.back() += (n + 15) / 16 * 16;
                }
            } break;
            case 6:
                if(!depth) break;
                ops.push_back({UNREGION});
                depth--;
                rsize.pop_back();
                break;
            case 7:
                ops.push_back({FRAME});
                frame = !frame;
                break;
            case 8: {
                U n = s.draw(99);
                ops.push_back({SCOPE, 0, 0, n});
                named("Default", 1 + n % 100, true);
                named("Default", 1 + n % 100, false);
            } break;
            case 9:
                if(fins.size() >= 20) break;
                ops.push_back({FINALIZER, s.draw(SLOTS_ - 1)});
                fins.push_back(ops.back().slot);
                break;
            default:
                ops.push_back({BOX, 0, 0, s.draw(200)});
                containers = true;
                break;
            }
        }
        while(depth && s.chance(3, 4)) {
            ops.push_back({UNREGION});
            depth--;
            rsize.pop_back();
        }
        finalize(round + 1 == rounds);
        if(want.back().net || (want.back().big_region)) break; // the program ends there
    }
    for(auto& o : ops) NOTE("op %d slot %lu a %lu n %lu", (int)o.k, o.slot, o.a, o.n);

    auto* r = new Runner; // before the balance is taken
    pbt::Death d = pbt::run_child(
        [&]() {
            printf("@start\n@end\n");
            fflush(stdout);
            info("warm %", 1);
            printf("@end\n");
            fflush(stdout);
            r->base_live = pbt::live_mallocs();
            r->base_net = rpp::sys_net_allocs();
            r->run(ops, 0);
        },
        true);
    delete r;
    auto bad = d.out.find("@bad");
    CHECK(bad == std::string::npos, "%s", d.out.substr(bad == std::string::npos ? 0 : bad, 300).c_str());
    auto rs = parse(d.out);
    CHECK(rs.size() >= 3, "the program did not start: status %x", (unsigned)d.status);
    bool leak = false, gaps = false;
    for(U i = 0; i < want.size(); i++) {
        auto& w = want[i];
        CHECK(rs.size() > 2 + i, "the program ended before its report %lu (status %x)", i, (unsigned)d.status);
        auto& g = rs[2 + i];
        CHECK(g.complete, "finalize %lu gave no complete report (status %x): %s", i, (unsigned)d.status, d.out.c_str());
        for(auto& l : g.warnings) pbt::fail("unexpected warning: %s", l.c_str());
        if(w.containers) {
            CHECK(g.stats.count("Containers"), "the allocator \"Containers\" is not reported");
            auto& c = g.stats["Containers"];
            CHECK(c.allocs == c.frees && c.asize == c.fsize && c.unbalanced == 0 && c.allocs > 0 && c.high > 0 && c.high <= c.asize,
                  "containers were destroyed, but their allocator reports: %s", show(c).c_str());
            g.stats.erase("Containers");
        }
        for(auto& [nm, x] : w.st) {
            CHECK(g.stats.count(nm), "the allocator \"%s\" is not reported; expected: %s", nm.c_str(), show(x).c_str());
            CHECK(g.stats[nm] == x, "the allocator \"%s\" reports: %s; expected: %s", nm.c_str(), show(g.stats[nm]).c_str(), show(x).c_str());
        }
        for(auto& [nm, x] : g.stats) CHECK(w.st.count(nm), "unknown allocator \"%s\" reported: %s", nm.c_str(), show(x).c_str());
        if(!w.big_region) CHECK(g.net == w.net, "the report says that %ld blocks are left, but %ld are", (long)g.net, (long)w.net);
        else CHECK(g.net >= w.net + (w.rsize > 1024), "%ld blocks are said to be left, with %ld and a region of %lu bytes", (long)g.net, (long)w.net, w.rsize);
        CHECK(g.region_size == (int64_t)w.rsize && g.regions == (int64_t)w.depth,
              "regions reported: %ld bytes, depth %ld; expected %lu, %lu", (long)g.region_size, (long)g.regions, w.rsize, w.depth);
        U f = 0;
        for(auto& l : g.lines)
            if(l.rfind("@fin ", 0) == 0) {
                CHECK(l == "@fin " + std::to_string(f), "finalizer out of order: %s", l.c_str());
                f++;
            }
        CHECK(f == w.fins, "%lu finalizers ran, %lu were registered", f, w.fins);
        bool expect_leak = g.net != 0; // judged above
        leak |= expect_leak;
        gaps |= !w.st.empty();
        CHECK(g.leaked == expect_leak, expect_leak ? "a leak was not announced" : "a leak was announced without one");
        if(i + 1 == want.size()) {
            if(expect_leak)
                CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 1, "after a leak the program ended with status %x", (unsigned)d.status);
            else CHECK(d.completed, "the program did not survive its last report: status %x", (unsigned)d.status);
        }
    }
    if(leak) pbt::label("leak reported");
    else pbt::label("balanced");
    if(want.size() > 1) pbt::label("two rounds");
    if(gaps && total >= 4 && frees >= 2) pbt::nontrivial();
}

// --- many blocks, large blocks, many finalizers ---
PROP_F(large, 60, 1500, pbt::FEW) {
    U n = big_size(s, 13), seed = s.draw(1 << 20), names = s.range(1, NAMED), how = s.pick({3, 2, 2}), fins = s.chance(1, 3) ? big_size(s, 10) : 0;
    U huge = s.chance(1, 8) ? s.of<U>({(1ul << 31) - 1, 1ul << 31, (1ul << 31) + 1, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 100}) : 0;
    U keep = how == 0 ? 0 : how == 1 ? n : s.draw(n); // blocks never freed
    bool scratch = s.coin();                            // some are freed on the way
    struct B {
        U k, n;
        unsigned char* p;
    };
    // the same steps for the model and for the program
    auto steps = [&](auto&& take_, auto&& give_) {
        std::vector<B> live;
        if(huge) {
            B b{seed % names, huge, nullptr};
            take_(b);
            give_(b);
        }
        for(U i = 0; i < n; i++) {
            U r = pbt::mix(seed + i);
            B b{r % names, 1 + (r >> 8) % (i % 64 == 0 ? 3000 : 40), nullptr};
            take_(b);
            live.push_back(b);
            if(scratch && (r >> 20) % 4 == 0) {
                U j = (r >> 24) % live.size();
                give_(live[j]);
                live[j] = live.back();
                live.pop_back();
            }
        }
        while(live.size() > keep) {
            U j = pbt::mix(seed ^ live.size()) % live.size();
            give_(live[j]);
            live[j] = live.back();
            live.pop_back();
        }
        return live.size();
    };
    std::map<std::string, Stats> st;
    U left = steps(
        [&](B& b) {
            Stats& x = st[NAMES[b.k]];
            x.allocs++, x.asize += (int64_t)b.n, x.unbalanced += (int64_t)b.n;
            x.high = std::max(x.high, x.unbalanced);
        },
        [&](B& b) {
            Stats& x = st[NAMES[b.k]];
            x.frees++, x.fsize += (int64_t)b.n, x.unbalanced -= (int64_t)b.n;
        });
    NOTE("%lu blocks over %lu names, %lu left, one of %lu bytes, %lu finalizers", n, names, left, huge, fins);
    auto* ran = (std::atomic<U>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pbt::Death d = pbt::run_child(
        [&]() {
            info("warm %", 1);
            printf("@end\n");
            fflush(stdout);
            steps([&](B& b) { b.p = (unsigned char*)take(b.k, b.n), b.p[0] = b.p[b.n - 1] = 7; }, [&](B& b) { give(b.k, b.p); });
            for(U i = 0; i < fins; i++)
                Profile::finalizer([ran, i] {
                    if(ran->load() == i) (*ran)++;
                });
            Profile::finalize();
            printf("@end\n");
            fflush(stdout);
        },
        true);
    U did = ran->load();
    munmap(ran, 4096);
    auto rs = parse(d.out);
    CHECK(rs.size() >= 2 && rs[1].complete, "no complete report (status %x): %.500s", (unsigned)d.status, d.out.c_str());
    auto& g = rs[1];
    for(auto& l : g.warnings) pbt::fail("unexpected warning: %s", l.c_str());
    for(auto& [nm, x] : st) {
        CHECK(g.stats.count(nm), "the allocator \"%s\" is not reported; expected: %s", nm.c_str(), show(x).c_str());
        CHECK(g.stats[nm] == x, "the allocator \"%s\" reports: %s; expected: %s", nm.c_str(), show(g.stats[nm]).c_str(), show(x).c_str());
    }
    CHECK(g.stats.size() == st.size(), "%zu allocators reported instead of %zu", g.stats.size(), st.size());
    CHECK(g.net == (int64_t)left, "the report says that %ld blocks are left, but %lu are", (long)g.net, left);
    CHECK(did == fins, "%lu finalizers ran in order, of %lu", did, fins);
    CHECK(g.leaked == (left > 0), left ? "a leak of %lu blocks was not announced" : "a leak was announced with %lu left", left);
    if(left) CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 1, "after a leak the program ended with status %x", (unsigned)d.status);
    else CHECK(d.completed, "the program did not survive its report: status %x", (unsigned)d.status);
    pbt::nontrivial();
    if(left) pbt::label("large leak");
    if(huge) pbt::label("huge block");
    if(fins) pbt::label("many finalizers");
}

// --- several threads ---
// Phases of independent allocations and frees (also of blocks of other threads), then everything is released but
// what the script leaks. All names are shared.
struct Shared {
    void* p = nullptr;
    U k = 0, n = 0;
    unsigned char fill = 0;
};
struct TOp {
    U slot;
    U k, n;
    bool alloc;
};
using B0 = Mallocator<"Shared">;
using B1 = Mallocator<"Other">;
static void* btake(U k, U n) {
    return k == 0 ? B0::alloc(n) : k == 1 ? B1::alloc(n) : H0::alloc(n);
}
static void bgive(U k, void* p) {
    k == 0 ? B0::free(p) : k == 1 ? B1::free(p) : H0::free(p);
}
PROP_F(threads, 250, 6000, pbt::NONDET) {
    U n_threads = s.range(2, 6), n_slots = n_threads * s.range(2, 10), phases = s.range(1, 5);
    U seed = s.draw(~0ull >> 1), frames = s.draw(2), pause = s.draw(1) ? s.range(1, 1000000) : 0, storm = s.chance(1, 3) ? s.range(1, 1000) : 0;
    // every slot is used by at most one thread per phase, another one in the next
    std::vector<std::vector<std::vector<TOp>>> prog(phases, std::vector<std::vector<TOp>>(n_threads));
    std::vector<Shared> m(n_slots);
    struct B {
        int64_t allocs = 0, frees = 0, asize = 0, fsize = 0, cur = 0, high_lo = 0, high_hi = 0;
    } b[3];
    U moved = 0;
    std::vector<U> owner(n_slots, ~0ull);
    for(U p = 0; p < phases; p++) {
        std::vector<U> who(n_slots);
        for(auto& w : who) w = s.draw(n_threads - 1);
        int64_t start[3] = {b[0].cur, b[1].cur, b[2].cur}, grown[3] = {};
        for(U t = 0; t < n_threads; t++) {
            std::vector<U> mine;
            for(U i = 0; i < n_slots; i++)
                if(who[i] == t) mine.push_back(i);
            if(mine.empty()) continue;
            U k_ops = s.limit(6, 60, 200);
            int64_t cur[3] = {}, high[3] = {};
            for(U j = 0; j < k_ops; j++) {
                U i = mine[s.draw(mine.size() - 1)];
                if(m[i].n) {
                    prog[p][t].push_back({i, m[i].k, m[i].n, false});
                    b[m[i].k].frees++;
                    b[m[i].k].fsize += (int64_t)m[i].n;
                    b[m[i].k].cur -= (int64_t)m[i].n;
                    cur[m[i].k] -= (int64_t)m[i].n;
                    if(owner[i] != t) moved++;
                    m[i].n = 0;
                } else {
                    m[i].k = s.draw(2);
                    m[i].n = s.pick({5, 1}) == 0 ? s.range(1, 500) : s.range(1, 5000);
                    owner[i] = t;
                    prog[p][t].push_back({i, m[i].k, m[i].n, true});
                    b[m[i].k].allocs++;
                    b[m[i].k].asize += (int64_t)m[i].n;
                    b[m[i].k].cur += (int64_t)m[i].n;
                    cur[m[i].k] += (int64_t)m[i].n;
                    high[m[i].k] = std::max(high[m[i].k], cur[m[i].k]);
                }
            }
            for(U k = 0; k < 3; k++) grown[k] += high[k];
        }
        for(U k = 0; k < 3; k++) {
            b[k].high_lo = std::max(b[k].high_lo, b[k].cur);
            b[k].high_hi = std::max(b[k].high_hi, start[k] + grown[k]);
        }
    }
    bool tidy = s.chance(3, 4);
    U left = 0, n_fins = s.draw(1) * s.range(1, 20);
    static std::atomic<int> ran[8 * 32];
    for(auto& x : ran) x = 0;
    for(U i = 0; i < n_slots; i++)
        if(m[i].n) {
            left++;
            if(tidy) {
                b[m[i].k].frees++;
                b[m[i].k].fsize += (int64_t)m[i].n;
                b[m[i].k].cur -= (int64_t)m[i].n;
            }
        }
    if(tidy) left = 0;
    static std::vector<Shared> slots;
    slots.assign(n_slots, {});
    pbt::Death d = pbt::run_child(
        [&]() {
            printf("@start\n@end\n");
            fflush(stdout);
            start_recycling(pause);
            handle_signals();
            pthread_barrier_t bar;
            pthread_barrier_init(&bar, nullptr, (unsigned)n_threads);
            par::run(n_threads, storm, [&](U t) {
                U r = pbt::mix(seed + t);
                for(U p = 0; p < phases; p++) {
                    bool f = frames && (r >> 7) % 3 < frames;
                    if(f) (void)Profile::begin_frame();
                    for(auto& o : prog[p][t]) {
                        relax(r, pause ? pause % 3 : 0);
                        Shared& x = slots[o.slot];
                        if(o.alloc) {
                            x.p = btake(o.k, o.n);
                            x.fill = (unsigned char)(r >> 20);
                            x.n = o.n;
                            memset(x.p, x.fill, o.n);
                        } else {
                            for(U j = 0; j < o.n; j++)
                                if(((unsigned char*)x.p)[j] != x.fill) {
                                    printf("@bad a live block was overwritten\n");
                                    fflush(nullptr);
                                    _exit(3);
                                }
                            bgive(o.k, x.p);
                            x.p = nullptr;
                            x.n = 0;
                        }
                    }
                    if(f) Profile::end_frame();
                    if(p == 0)
                        for(U i = 0; i < n_fins; i++) Profile::finalizer([x = &ran[t * 32 + i]]() { (*x)++; });
                    pthread_barrier_wait(&bar);
                }
            });
            if(tidy)
                for(U i = 0; i < n_slots; i++)
                    if(slots[i].n) bgive(m[i].k, slots[i].p);
            Profile::finalizer([&]() {
                for(U t = 0; t < n_threads; t++)
                    for(U i = 0; i < n_fins; i++)
                        if(ran[t * 32 + i] != 1) {
                            printf("@bad a finalizer ran %d times\n", ran[t * 32 + i].load());
                            fflush(nullptr);
                            _exit(3);
                        }
            });
            Profile::finalize();
        },
        true);
    auto bad = d.out.find("@bad");
    CHECK(bad == std::string::npos, "%s", d.out.substr(bad == std::string::npos ? 0 : bad, 300).c_str());
    auto rs = parse(d.out);
    CHECK(rs.size() >= 2 && rs[1].complete, "the program gave no complete report: status %x", (unsigned)d.status);
    auto& g = rs[1];
    for(auto& l : g.warnings) pbt::fail("unexpected warning: %s", l.c_str());
    for(U k = 0; k < 2; k++) {
        const char* nm = k == 0 ? "Shared" : "Other";
        if(!b[k].allocs) {
            CHECK(!g.stats.count(nm), "the unused allocator \"%s\" is reported", nm);
            continue;
        }
        CHECK(g.stats.count(nm), "the allocator \"%s\" is not reported", nm);
        auto& x = g.stats[nm];
        CHECK(x.allocs == b[k].allocs && x.frees == b[k].frees && x.asize == b[k].asize && x.fsize == b[k].fsize && x.unbalanced == b[k].cur,
              "the allocator \"%s\" reports: %s; done: allocs %ld frees %ld sizes %ld %ld left %ld", nm, show(x).c_str(),
              (long)b[k].allocs, (long)b[k].frees, (long)b[k].asize, (long)b[k].fsize, (long)b[k].cur);
        CHECK(x.high >= b[k].high_lo && x.high <= b[k].high_hi, "the allocator \"%s\" reports a peak of %ld; it was between %ld and %ld", nm,
              (long)x.high, (long)b[k].high_lo, (long)b[k].high_hi);
    }
    CHECK(g.stats.size() == (b[0].allocs != 0) + (b[1].allocs != 0), "allocators reported that nobody used");
    CHECK(g.net == (int64_t)left, "the report says that %ld blocks are left, but %lu are", (long)g.net, left);
    CHECK(g.leaked == (left != 0), "leak %s", left ? "not announced" : "announced without one");
    if(left) CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 1, "after a leak the program ended with status %x", (unsigned)d.status);
    else CHECK(d.completed, "the program ended with status %x", (unsigned)d.status);
    if(left) pbt::label("leak reported");
    if(moved >= 2 && b[0].allocs > 5) pbt::nontrivial();
}

// --- containers with static storage, used before main begins and after it ends ---
namespace at_exit {
struct Live { // counts the elements alive; one moved from no longer counts
    static inline std::atomic<int64_t> n = 0;
    U x;
    bool on = true;
    explicit Live(U v) : x(v) {
        n++;
    }
    Live(Live&& o) noexcept : x(o.x), on(o.on) {
        o.on = false;
    }
    Live& operator=(Live&& o) noexcept {
        n -= on;
        x = o.x, on = o.on;
        o.on = false;
        return *this;
    }
    ~Live() {
        n -= on;
        on = false;
    }
};
struct alignas(8) Big {
    Live l{0};
    unsigned char pad[40];
};
static void bad(const char* m) {
    printf("@bad %s\n", m);
    fflush(nullptr);
    _exit(3);
}
struct Set { // one group of global containers, and what they should hold
    rpp::Vec<Live> v;
    rpp::Vec<rpp::String<>> s;
    rpp::Map<U, Live> m;
    rpp::Queue<rpp::Box<Live>> q;
    rpp::Heap<U> h;
    rpp::Opt<rpp::Vec<U>> o;
    rpp::Rc<Live> r;
    rpp::Box<Big, Mpool> b[3];
};
struct Want {
    std::vector<U> v;
    std::vector<std::string> s;
    std::map<U, U> m;
    std::vector<U> q;
    std::vector<U> h;
    std::vector<U> o;
    U r = 0, b[3] = {};
    bool has_o = false;
};
static std::vector<U>& ops() {
    static auto& x = *new std::vector<U>();
    return x;
}
static Want& want(U k) {
    static auto* x = new Want[3];
    return x[k];
}
// First made, last destroyed.
struct First {
    bool on = false;
    First() {
        const char* e = getenv("C31_OPS");
        if(!e || !getenv("PBT_EXEC")) return;
        alarm(60);
        char* end = nullptr;
        for(const char* c = e; *c; c = *end ? end + 1 : end) ops().push_back(strtoull(c, &end, 16));
        on = true;
    }
    ~First() {
        if(!on) return;
        if(Live::n != 0) bad("elements of global containers were not destroyed");
        printf("@last\n");
        fflush(nullptr);
    }
};
static First first;
static Set outer;
struct Around {
    Around();
    ~Around();
};
static Around around;
static Set inner;
static Set& local() { // made on first use
    static Set x;
    return x;
}
struct Tls {
    rpp::Vec<Live> v;
    rpp::Map<U, rpp::String<>> m;
};
static thread_local Tls tls;

static void check(Set& g, Want& w) {
    if(g.v.length() != w.v.size() || g.s.length() != w.s.size() || g.m.length() != w.m.size() || g.q.length() != w.q.size() ||
       g.h.length() != w.h.size())
        bad("a global container has the wrong length");
    for(U i = 0; i < w.v.size(); i++)
        if(g.v[i].x != w.v[i]) bad("a global vector changed");
    for(U i = 0; i < w.s.size(); i++)
        if(std::string((const char*)g.s[i].data(), g.s[i].length()) != w.s[i]) bad("a global string changed");
    for(auto& [k, v] : w.m) {
        auto f = g.m.try_get(k);
        if(!f.ok() || (**f).x != v) bad("a global map changed");
    }
    U i = 0;
    for(auto& x : g.q)
        if(x->x != w.q[i++]) bad("a global queue changed");
    if(!w.h.empty() && g.h.top() != w.h[0]) bad("a global heap changed");
    if(g.o.ok() != w.has_o || (w.has_o && g.o->length() != w.o.size())) bad("a global option changed");
    if(w.r && g.r->x != w.r) bad("a global Rc changed");
    for(U k = 0; k < 3; k++)
        if(!!w.b[k] != g.b[k].ok() || (w.b[k] && g.b[k]->l.x != w.b[k])) bad("a global Box changed");
}
static void clear(Set& g, Want& w) {
    g.~Set();
    new(&g) Set();
    w = {};
}
static void use_tls(U n, U x) {
    for(U i = 0; i < n; i++) {
        tls.v.push(Live{x + i});
        if(i % 3 == 0) tls.m.insert(x + i, "a thread's own string, kept until it ends"_v.template string<>());
    }
}
static void op(Set& g, Want& w, U code) {
    U a = code / 32, n = a % 40;
    switch(code % 32) {
    case 0:
    case 1:
        for(U i = 0; i <= n; i++) g.v.push(Live{a + i}), w.v.push_back(a + i);
        break;
    case 2: {
        std::string x(n, (char)('a' + a % 26));
        g.s.push(rpp::String_View{(const rpp::u8*)x.data(), x.size()}.string<>());
        w.s.push_back(x);
        break;
    }
    case 3:
    case 4:
        for(U i = 0; i <= n; i++) g.m.insert(a * 7 + i, Live{i}), w.m[a * 7 + i] = i;
        break;
    case 5:
        if(!w.m.empty()) {
            U k = w.m.begin()->first;
            g.m.erase(k), w.m.erase(k);
        }
        break;
    case 6:
    case 7:
        for(U i = 0; i < n / 4 + 1; i++) g.q.push(rpp::Box<Live>{Live{a + i}}), w.q.push_back(a + i);
        break;
    case 8:
        if(!w.q.empty()) g.q.pop(), w.q.erase(w.q.begin());
        break;
    case 9: {
        g.h.push(U{a % 1000});
        w.h.insert(std::upper_bound(w.h.begin(), w.h.end(), a % 1000), a % 1000);
        break;
    }
    case 10:
        w.has_o = true;
        w.o.assign(n + 1, a);
        {
            rpp::Vec<U> t;
            for(U i = 0; i <= n; i++) t.push(U{a});
            g.o = rpp::Opt<rpp::Vec<U>>{rpp::move(t)};
        }
        break;
    case 11:
        g.r = rpp::Rc<Live>{Live{a + 1}};
        w.r = a + 1;
        break;
    case 12:
    case 13: {
        U k = a % 3;
        g.b[k] = rpp::Box<Big, Mpool>{Big{Live{a + 1}, {}}};
        w.b[k] = a + 1;
        break;
    }
    case 14: g.v.clear(), w.v.clear(); break;
    case 15: { // temporaries
        rpp::Vec<rpp::String<>> t;
        for(U i = 0; i < n; i++) t.push(rpp::format<Mallocator<"Late">>("% of %"_v, i, n).view().string<>());
        break;
    }
    case 16:
        Region(R) {
            rpp::Vec<U, rpp::Mregion<R>> t;
            for(U i = 0; i < n; i++) t.push(U{i});
        }
        break;
    case 17:
        Trace("around main") {
            rpp::Vec<U> t;
            t.push(U{1});
        }
        break;
    case 18: info("around main %", a); break;
    case 19: use_tls(n, a); break;
    case 20: {
        rpp::Thread::Thread t([n, a]() {
            use_tls(n, a);
            rpp::Box<Big, Mpool> b{Big{Live{1}, {}}};
            if(a & 1) info("from a thread");
        });
        break;
    }
    case 22:
        (void)Profile::begin_frame();
        for(U i = 0; i < n % 6; i++) {
            Trace("a frame's") {
                g.v.push(Live{i});
                w.v.push_back(i);
            }
        }
        Profile::end_frame();
        break;
    case 23: {
        Mpool::destroy(Mpool::make<Big>(Big{Live{2}, {}}));
        break;
    }
    default: check(g, w);
    }
}
// header: number of early, middle, late operations, the ending; then the operations, as group, code
static void part(U from, U n, bool in_main, bool late) {
    auto& o = ops();
    for(U i = from; i < from + n; i++) {
        U k = o[4 + 2 * i] % 3;
        if(!in_main && k == 1) k = 0; // `inner` is not made yet, or is gone
        if(late && k == 2) k = 0;     // so is the local one, if it was made after `around`
        Set& g = k == 0 ? outer : k == 1 ? inner : local();
        U c = o[4 + 2 * i + 1] % 32;
        if(late && (c == 19 || c == 22)) continue; // the main thread's own objects and frames are gone
        op(g, want(k), o[4 + 2 * i + 1]);
        check(g, want(k));
    }
}
Around::Around() {
    if(first.on) part(0, ops()[0], false, false);
}
Around::~Around() {
    if(!first.on) return;
    check(outer, want(0));
    part(ops()[0] + ops()[1], ops()[2], false, true);
    printf("@late\n");
    fflush(stdout);
}
enum Ending { RETURN, EXIT, CLEAN, LEAK };
static int program() {
    part(ops()[0], ops()[1], true, false);
    switch(ops()[3]) {
    case RETURN: return 0;
    case EXIT: exit(3);
    case CLEAN:
        clear(outer, want(0)), clear(inner, want(1)), clear(local(), want(2));
        tls.~Tls();
        new(&tls) Tls();
        Profile::finalize();
        return 0;
    default: Profile::finalize(); return 0;
    }
}
}
extern "C" int pbt_exec(int, char**) {
    return at_exit::program();
}

PROP(at_exit, 400, 6000) {
    using namespace at_exit;
    U ending = s.draw(3), n[3];
    n[0] = s.chance(2, 3) ? s.limit(3, 8, 20) : 0;
    n[1] = s.limit(4, 20, 60);
    // what comes after finalize() is not the allocators' business
    n[2] = ending < CLEAN && s.chance(2, 3) ? 1 + s.limit(3, 8, 20) : 0;
    std::vector<U> o = {n[0], n[1], n[2], ending};
    bool held = false;
    std::set<U> kinds;
    for(U i = 0; i < n[0] + n[1] + n[2]; i++) {
        U g = s.draw(2), code = s.draw(31) + 32 * s.draw(4000);
        U c = code % 32;
        if(ending >= CLEAN && (c == 12 || c == 13)) code = code / 32 * 32 + 1; // pools are gone after finalize()
        kinds.insert(code % 32);
        if(c < 5 || (c >= 6 && c < 14 && c != 8)) held = true;
        o.push_back(g), o.push_back(code);
    }
    if(ending == LEAK) o[4 + 2 * (n[0] + n[1] - 1)] = 0, o.back() = 32 * 5; // at least something is held
    std::string text;
    for(U x : o) {
        char b[20];
        snprintf(b, sizeof b, "%lx ", x);
        text += b;
    }
    static U k = 0;
    std::string d = std::string(pbt::scratch()) + "/exit" + std::to_string(getpid()) + "." + std::to_string(k++);
    if(mkdir(d.c_str(), 0755)) _exit(71);
    pid_t p = fork();
    if(p < 0) _exit(71);
    if(p == 0) {
        if(chdir(d.c_str())) _exit(73);
        dup2(open("out", O_WRONLY | O_CREAT | O_APPEND, 0600), 1);
        dup2(open("err", O_WRONLY | O_CREAT | O_APPEND, 0600), 2);
        setenv("PBT_EXEC", "1", 1);
        setenv("C31_OPS", text.c_str(), 1);
        execl("/proc/self/exe", "harness", (char*)nullptr);
        _exit(74);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    auto slurp = [&](const char* n2) {
        std::string r, path = d + "/" + n2;
        if(FILE* f = fopen(path.c_str(), "rb")) {
            char b[4096];
            for(size_t g; (g = fread(b, 1, sizeof b, f)) > 0;) r.append(b, g);
            fclose(f);
        }
        return r;
    };
    std::string out = slurp("out"), err = slurp("err");
    for(const char* n2 : {"out", "err", "debug.log"}) unlink((d + "/" + n2).c_str());
    rmdir(d.c_str());
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) >= 71 && WEXITSTATUS(st) <= 74), "harness: could not run itself (%x)", st);
    auto at = out.find("@bad");
    CHECK(at == std::string::npos, "%s", out.substr(at == std::string::npos ? 0 : at, 200).c_str());
    at = out.find("[fatal/");
    CHECK(at == std::string::npos, "a fatal error: %s", out.substr(at == std::string::npos ? 0 : at, 300).c_str());
    int expect = ending == EXIT ? 3 : ending == LEAK ? 1 : 0;
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == expect, "the program ended with status %x instead of %d: %s", (unsigned)st, expect,
          err.substr(0, 1500).c_str());
    CHECK(out.find("@last\n") != std::string::npos, "the static destructors were not all run");
    bool clean = out.find("No memory leaked.") != std::string::npos, leaked = out.find("Memory leaked, shutting down now") != std::string::npos;
    CHECK(clean == (ending == CLEAN) && leaked == (ending == LEAK), "leak report: %s%s in ending %lu", clean ? "clean " : "", leaked ? "leaked" : "", ending);
    static const char* names[] = {"returned", "exit(3)", "finalized clean", "finalized with live globals"};
    pbt::label(names[ending]);
    if(held && kinds.size() >= 4) pbt::nontrivial();
}
