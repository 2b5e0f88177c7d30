// C06: random histories of nested region scopes and allocations.
#include "model.h"
using namespace t;

static constexpr int BRANDS = 6;
struct Any_Scope {
    virtual ~Any_Scope() {
    }
};
template<u64 R>
struct Scope_Of : Any_Scope {
    Region_Allocator::Scope<R> s;
};
static std::unique_ptr<Any_Scope> open_scope(U b) {
    switch(b) {
    case 1: return std::make_unique<Scope_Of<1>>();
    case 2: return std::make_unique<Scope_Of<2>>();
    case 3: return std::make_unique<Scope_Of<3>>();
    case 4: return std::make_unique<Scope_Of<4>>();
    case 5: return std::make_unique<Scope_Of<5>>();
    default: return std::make_unique<Scope_Of<0x8000000000000001ull>>();
    }
}
static U brand_of(U b) {
    return b < 6 ? b : 0x8000000000000001ull;
}

struct Alloc_ {
    u8* p;
    U n;
    U key;
};
struct Level {
    U brand;
    std::unique_ptr<Any_Scope> scope;
    std::vector<Alloc_> allocs;
    U size_before;
    int64_t net_before;
    U requested;
};
static u8 pattern(U key, U i) {
    return (u8)(pbt::mix(key + i / 8) >> (i % 8 * 8));
}

struct Machine {
    std::vector<Level> st;
    std::map<uintptr_t, uintptr_t> live; // begin -> end
    U key = 1;
    U allocs = 0, pops = 0, chunky = 0, maxdepth = 0;
    U base_depth, base_size;

    Machine() : base_depth(Region_Allocator::depth()), base_size(Region_Allocator::size()) {
    }
    void verify(const Alloc_& a) {
        if(a.n <= 4096) {
            for(U i = 0; i < a.n; i++)
                CHECK(a.p[i] == pattern(a.key, i), "byte %lu of a live %lu-byte allocation changed", i, a.n);
        } else {
            for(U i = 0; i < 64; i++) {
                CHECK(a.p[i] == pattern(a.key, i), "byte %lu of a live %lu-byte allocation changed", i, a.n);
                U j = a.n - 1 - i;
                CHECK(a.p[j] == pattern(a.key, j), "byte %lu of a live %lu-byte allocation changed", j, a.n);
            }
            for(U i = 64; i < a.n; i += 251) CHECK(a.p[i] == pattern(a.key, i), "byte %lu of a live %lu-byte allocation changed", i, a.n);
        }
    }
    void verify_all() {
        for(auto& l : st)
            for(auto& a : l.allocs) verify(a);
    }
    void open(U brand) {
        NOTE("open region %lu (depth %lu)", brand, st.size() + 1);
        Level l;
        l.brand = brand;
        l.size_before = Region_Allocator::size();
        l.net_before = sys_net_allocs();
        l.requested = 0;
        l.scope = open_scope(brand);
        st.push_back(std::move(l));
        maxdepth = std::max<U>(maxdepth, st.size());
        CHECK(Region_Allocator::depth() == base_depth + st.size(), "depth is %lu with %lu open regions", Region_Allocator::depth(), st.size());
        CHECK(Region_Allocator::size() == st.back().size_before, "opening a region changed the allocated size");
    }
    void close() {
        Level& l = st.back();
        for(auto& a : l.allocs) verify(a);
        for(auto& a : l.allocs)
            if(a.n) live.erase((uintptr_t)a.p);
        bool any = !l.allocs.empty();
        NOTE("close region %lu", l.brand);
        l.scope.reset();
        if(any) pops++;
        CHECK(Region_Allocator::depth() == base_depth + st.size() - 1, "depth is %lu after closing, expected %lu", Region_Allocator::depth(),
              base_depth + st.size() - 1);
        CHECK(Region_Allocator::size() == l.size_before, "allocated size is %lu after closing a region, it was %lu before", Region_Allocator::size(),
              l.size_before);
        CHECK(sys_net_allocs() == l.net_before, "closing a region left %ld backing blocks more than before it",
              (long)(sys_net_allocs() - l.net_before));
        st.pop_back();
    }
    void alloc(U n) {
        Level& l = st.back();
        int64_t net = sys_net_allocs();
        u8* p = (u8*)Region_Allocator::alloc(brand_of(l.brand), n);
        NOTE("alloc %lu in region %lu", n, l.brand);
        if(sys_net_allocs() > net) chunky++;
        l.requested += n;
        CHECK(Region_Allocator::size() >= l.size_before + l.requested, "allocated size %lu is less than the %lu bytes requested since %lu",
              Region_Allocator::size(), l.requested, l.size_before);
        if(n) {
            CHECK(p, "null allocation");
            U align = 16;
            CHECK((uintptr_t)p % align == 0, "a %lu-byte allocation is only aligned to %lu", n, (U)((uintptr_t)p & -(uintptr_t)p));
            uintptr_t b = (uintptr_t)p, e = b + n;
            auto it = live.lower_bound(b);
            CHECK(it == live.end() || it->first >= e, "a %lu-byte allocation overlaps a later live one", n);
            CHECK(it == live.begin() || std::prev(it)->second <= b, "a %lu-byte allocation overlaps an earlier live one", n);
            live[b] = e;
            for(U i = 0; i < n; i++) p[i] = pattern(key, i);
        }
        l.allocs.push_back({p, n, key});
        key += 1 + n / 8;
        allocs++;
    }
    void finish() {
        while(!st.empty()) close();
        CHECK(Region_Allocator::depth() == base_depth && Region_Allocator::size() == base_size, "region state differs at the end");
    }
};

static U draw_size(Src& s) {
    switch(s.pick({4, 3, 3, 2, 2, 1})) {
    case 0: return s.draw(40);
    case 1: return s.draw(300);
    case 2: return s.range(900, 1100);
    case 3: return s.draw(5000);
    case 4: { U p = 1ull << s.range(8, 15); return p - s.range(0, 70) + 35; }
    default: return s.draw(200000);
    }
}
static void history(Src& s, Machine& m, U left) {
    m.open(s.range(1, BRANDS));
    U deep = s.of<U>({4, 10, 100});
    U w_open = s.of<unsigned>({3, 6}), w_close = s.of<unsigned>({3, 2});
    while(s.step(left)) {
        switch(s.pick({w_open, w_close, 10, 1})) {
        case 0:
            if(m.st.size() < deep) m.open(s.range(1, BRANDS));
            break;
        case 1:
            if(!m.st.empty()) m.close();
            break;
        case 2:
            if(!m.st.empty()) m.alloc(draw_size(s));
            break;
        case 3: // releasing is a no-op for the innermost region
            if(!m.st.empty() && !m.st.back().allocs.empty()) {
                auto& a = m.st.back().allocs;
                Region_Allocator::free(brand_of(m.st.back().brand), a[s.draw(a.size() - 1)].p);
            }
            break;
        }
        if(left % 8 == 0) m.verify_all();
    }
    m.verify_all();
}

PROP(region_histories, 30000, 1000000) {
    Machine m;
    history(s, m, s.limit(20, 80, 300));
    m.finish();
    if(m.chunky >= 1 && m.pops >= 2) pbt::nontrivial();
    if(m.chunky >= 3) pbt::label("three or more backing blocks");
    if(m.maxdepth >= 40) pbt::label("40 levels deep");
}

// Many small allocations that exactly fill chunks.
PROP(region_fill, 20000, 500000) {
    Machine m;
    U rounds = s.range(1, 6);
    U unit = s.of<U>({1, 8, 16, 24, 32, 100, 488, 496, 1000, 1008});
    for(U r = 0; r < rounds; r++) {
        m.open(s.range(1, BRANDS));
        for(U i = s.draw(80); i > 0; i--) m.alloc(s.chance(1, 5) ? s.draw(unit * 2) : unit);
        if(s.coin() && m.st.size() > 1) m.close();
    }
    m.verify_all();
    m.finish();
    if(m.chunky >= 1) pbt::nontrivial();
}

// Blocks of megabytes, and thousands of small ones between them.
PROP(region_large, 40, 800) {
    Machine m;
    U rounds = s.range(1, 8);
    for(U r = 0; r < rounds; r++) {
        m.open(s.range(1, BRANDS));
        switch(s.draw(2)) {
        case 0: m.alloc((1ull << s.range(16, 22)) + s.draw(2000) - 1000); break;
        case 1:
            for(U i = s.draw(4000); i > 0; i--) m.alloc(1 + pbt::mix(i + r) % 90);
            break;
        case 2:
            m.alloc((1ull << s.range(16, 20)) - 32 + s.draw(64));
            for(U i = s.draw(200); i > 0; i--) m.alloc(pbt::mix(i + r) % 5000);
            break;
        }
        if(m.st.size() > 1 && s.chance(1, 3)) m.close();
    }
    m.verify_all();
    m.finish();
    if(m.chunky >= 2) pbt::nontrivial();
}

// Allocations of gigabytes, of which only the ends are touched.
PROP_F(region_huge, 3, 12, pbt::ONE) {
    U a = (1ull << 31) + s.draw(3) * (1ull << 29) + 16 * s.draw(1000), n = s.range(2, 3);
    if(void* probe = malloc(8 * a)) free(probe);
    else return; // not on this machine
    NOTE("%lu allocations of %lu bytes", n, a);
    U d0 = Region_Allocator::depth(), z0 = Region_Allocator::size();
    int64_t net0 = sys_net_allocs();
    auto ends = [&](u8* p, U k, bool set) {
        for(U i = 0; i < 3; i++) {
            u8& x = p[i == 0 ? 0 : i == 1 ? a / 2 : a - 1];
            if(set) x = (u8)(k * 3 + i + 1);
            else CHECK(x == (u8)(k * 3 + i + 1), "byte of gigabyte allocation %lu changed", k);
        }
    };
    {
        Region(R) {
            u8* small = Mregion<R>::alloc(100) ? (u8*)Mregion<R>::alloc(64) : nullptr;
            CHECK(small, "no memory");
            memset(small, 0x5a, 64);
            U z1 = Region_Allocator::size();
            std::vector<u8*> p;
            for(U i = 0; i < n; i++) {
                p.push_back((u8*)Mregion<R>::alloc(a));
                ends(p.back(), i, true);
                CHECK(Region_Allocator::size() >= z1 + (i + 1) * a, "the allocated size is %lu after %lu bytes", Region_Allocator::size(), (i + 1) * a);
                for(U k = 0; k < i; k++) CHECK(p[k] + a <= p[i] || p[i] + a <= p[k], "allocations of gigabytes overlap");
            }
            U z2 = Region_Allocator::size(), net2 = (U)sys_net_allocs();
            Region(Q) {
                u8* q = (u8*)Mregion<Q>::alloc(a);
                ends(q, 9, true);
                ends(q, 9, false);
            }
            CHECK(Region_Allocator::size() == z2 && (U)sys_net_allocs() == net2, "an inner region left something");
            for(U i = 0; i < n; i++) ends(p[i], i, false);
            for(U i = 0; i < 64; i++) CHECK(small[i] == 0x5a, "a small allocation changed");
        }
    }
    CHECK(Region_Allocator::depth() == d0 && Region_Allocator::size() == z0, "regions unbalanced");
    CHECK(sys_net_allocs() == net0, "regions left %ld backing blocks", (long)(sys_net_allocs() - net0));
    pbt::nontrivial();
}

// Containers in regions behave as containers elsewhere, and regions are private to their thread.
template<U D>
static void nest(Src& s, U levels, std::vector<int>* outer) {
    std::vector<int> model;
    Region(R) {
        using A = Mregion<R>;
        Vec<i64, A> v;
        Map<i32, String<A>, A> map;
        std::map<int, std::string> mm;
        Vec<Vec<u8, A>, A> bytes;
        U n = s.draw(40);
        for(U i = 0; i < n; i++) {
            int x = (int)s.draw(1000);
            v.push(x);
            model.push_back(x);
            std::string str = str_of(x);
            map.insert((i32)(x % 50), String_View{(const u8*)str.data(), str.size()}.template string<A>());
            mm[x % 50] = str;
            Vec<u8, A> b;
            for(int k = 0; k < x % 17; k++) b.push((u8)(x + k));
            bytes.push(rpp::move(b));
            if(levels && s.chance(1, 10)) {
                levels--;
                nest<(D + 1) % 3>(s, levels, &model);
            }
        }
        CHECK(v.length() == model.size(), "region vector has %lu elements, expected %lu", v.length(), model.size());
        for(U i = 0; i < model.size(); i++) {
            CHECK(v[i] == model[i], "region vector element %lu changed", i);
            CHECK(bytes[i].length() == (U)(model[i] % 17), "nested region vector changed");
            for(U k = 0; k < bytes[i].length(); k++) CHECK(bytes[i][k] == (u8)(model[i] + (int)k), "nested region vector bytes changed");
        }
        for(auto& [k, str] : mm) {
            auto f = map.try_get(k);
            CHECK(f.ok() && (**f).length() == str.size() && !memcmp((**f).data(), str.data(), str.size()), "region map entry changed");
        }
        if(n > 20) pbt::nontrivial();
    }
}
PROP(region_containers, 20000, 500000) {
    U d = Region_Allocator::depth(), z = Region_Allocator::size();
    int64_t net = sys_net_allocs();
    nest<0>(s, 3, nullptr);
    CHECK(Region_Allocator::depth() == d && Region_Allocator::size() == z, "regions unbalanced");
    CHECK(sys_net_allocs() == net, "regions left %ld backing blocks", (long)(sys_net_allocs() - net));
}

// Using, freeing in, or closing a region that is not the innermost one is fatal.
PROP_F(region_misuse, 400, 5000, 0) {
    Machine m;
    U depth = s.range(1, 8);
    for(U i = 0; i < depth; i++) {
        m.open(s.range(1, BRANDS));
        if(s.coin()) m.alloc(s.draw(2000));
    }
    U bad = s.range(1, BRANDS);
    if(bad == m.st.back().brand) bad = bad % BRANDS + 1;
    NOTE("innermost %lu, using %lu", m.st.back().brand, bad);
    if(s.coin()) {
        EXPECT_DIES("allocating from a region that is not innermost", (void)Region_Allocator::alloc(brand_of(bad), s.draw(100)));
    } else {
        EXPECT_DIES("freeing in a region that is not innermost", Region_Allocator::free(brand_of(bad), m.st.back().allocs.empty() ? nullptr : m.st.back().allocs[0].p));
    }
    if(depth > 1 && m.st[depth - 2].brand != m.st[depth - 1].brand) {
        EXPECT_DIES("closing a region that is not innermost", m.st[depth - 2].scope.reset());
    }
    U huge = ~0ull - s.draw(s.coin() ? 80 : 1ull << 62);
    NOTE("asking for %lu bytes", huge);
    EXPECT_DIES("asking a region for more than can exist", (void)Region_Allocator::alloc(brand_of(m.st.back().brand), huge));
    m.finish();
    pbt::nontrivial();
}

// Regions nest deeply; nesting deeper than is supported is reported, and never runs over the bookkeeping.
PROP_F(region_depth, 150, 2000, 0) {
    Machine m;
    U depth = s.range(1, 115);
    for(U i = 0; i < depth; i++) {
        m.open(s.range(1, BRANDS));
        if(s.coin()) m.alloc(s.draw(2000));
    }
    U more = s.range(1, 4000);
    NOTE("%lu regions open, opening %lu more", depth, more);
    pbt::Death d = pbt::run_child(
        [&]() {
            // The scopes are leaked on purpose: only opening them matters.
            for(U i = 0; i < more; i++) {
                open_scope(1 + i % BRANDS).release();
                if(i % 16 == 3) {
                    U n = 100 + i;
                    void* q = Region_Allocator::alloc(brand_of(1 + i % BRANDS), n);
                    memset(q, 0xab, n);
                }
                if(Region_Allocator::depth() != m.base_depth + depth + i + 1) _exit(9);
            }
        },
        true);
    if(depth + more <= 120) {
        CHECK(d.completed, "opening %lu regions ended with status %x: %s", depth + more, (unsigned)d.status, d.out.substr(0, 200).c_str());
    } else {
        // Up to the supported depth every region works, after it the failure is a logged fatal error.
        CHECK(d.completed || (d.trapped && d.out.find("[fatal") != std::string::npos),
              "opening %lu regions ended with status %x, not in a logged fatal error: %s", depth + more, (unsigned)d.status, d.out.substr(0, 200).c_str());
    }
    m.verify_all();
    m.finish();
    pbt::nontrivial();
}

// Threads running region histories at once.
struct Thread_Arg {
    U buf[4096];
    U count, seed, ok;
    std::string* err;
};
static void* region_thread(void* p) {
    auto* a = (Thread_Arg*)p;
    Src s;
    s.buf = a->buf;
    s.count = &a->count;
    s.cap = 4096;
    s.s[0] = pbt::mix(a->seed);
    s.s[1] = pbt::mix(a->seed + 1);
    {
        CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "a new thread starts inside a region");
        Machine m;
        // net allocation counts are shared between threads: check only this thread's contents and sizes
        std::vector<std::unique_ptr<Any_Scope>> sc;
        std::vector<U> brands, before;
        std::vector<std::vector<Alloc_>> al;
        U key = a->seed << 20;
        for(U i = 0; i < 200; i++) {
            U o = s.pick({3, 3, 10});
            if(o == 0 && sc.size() < 20) {
                before.push_back(Region_Allocator::size());
                brands.push_back(s.range(1, BRANDS));
                sc.push_back(open_scope(brands.back()));
                al.emplace_back();
            } else if(o == 1 && sc.size()) {
                for(auto& x : al.back()) m.verify(x);
                sc.pop_back();
                CHECK(Region_Allocator::size() == before.back(), "a thread's region size was not restored");
                before.pop_back();
                brands.pop_back();
                al.pop_back();
            } else if(o == 2 && sc.size()) {
                U n = s.draw(1500);
                u8* q = (u8*)Region_Allocator::alloc(brand_of(brands.back()), n);
                for(U k = 0; k < n; k++) q[k] = pattern(key, k);
                al.back().push_back({q, n, key});
                key += n;
            }
        }
        while(sc.size()) {
            for(auto& x : al.back()) m.verify(x);
            sc.pop_back();
            al.pop_back();
        }
        CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0, "a thread's regions are unbalanced at its end");
    }
    a->ok = 1;
    return nullptr;
}
PROP_F(region_threads, 300, 5000, pbt::FEW) {
    U n = s.range(2, 6), seed = s.draw(1000000);
    std::vector<std::unique_ptr<Thread_Arg>> args;
    std::vector<pthread_t> th(n);
    int64_t net = sys_net_allocs();
    for(U i = 0; i < n; i++) {
        args.push_back(std::make_unique<Thread_Arg>());
        args[i]->count = 0;
        args[i]->seed = seed * 10 + i;
        pthread_create(&th[i], nullptr, region_thread, args[i].get());
    }
    for(auto t : th) pthread_join(t, nullptr);
    CHECK(sys_net_allocs() == net, "threads left %ld region blocks behind", (long)(sys_net_allocs() - net));
    pbt::nontrivial();
}
