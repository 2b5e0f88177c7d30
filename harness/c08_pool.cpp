// C08: Free_List and Mpool: disjoint, stable, recycled memory.
#include "model.h"
using namespace t;

template<U N, U A>
struct alignas(A) Obj { // fills its bytes from a key
    u8 b[N];
    explicit Obj(U key) {
        for(U i = 0; i < N; i++) b[i] = (u8)(pbt::mix(key) >> (i % 8 * 8) ^ i);
    }
    bool ok(U key) const {
        for(U i = 0; i < N; i++)
            if(b[i] != (u8)(pbt::mix(key) >> (i % 8 * 8) ^ i)) return false;
        return true;
    }
};
template<U N>
struct Own { // owning, self-referencing, padded
    Tok t;
    U key;
    u8 pad[N];
    explicit Own(U k) : t((int)(k % 10000)), key(k) {
        memset(pad, (int)k, N);
    }
    Own(Own&&) noexcept = default;
    bool ok(U k) const {
        if(t.get() != (int)(k % 10000) || key != k) return false;
        for(U i = 0; i < N; i++)
            if(pad[i] != (u8)k) return false;
        return true;
    }
};
template<typename T>
inline constexpr bool owning = false;
template<U N>
inline constexpr bool owning<Own<N>> = true;

// ---- Mpool -----------------------------------------------------------------------------------------
static int64_t backing[1024]; // blocks this process' pool of each object size has taken so far
static int64_t in_use[1024];

struct Kind {
    const char* name;
    U size, align;
    void* (*make)(U);
    void (*destroy)(void*);
    bool (*ok)(void*, U);
    bool owns;
};
template<typename T>
static Kind kind(const char* n) {
    return Kind{n, sizeof(T), alignof(T), [](U k) -> void* { return Mpool::make<T>(k); }, [](void* p) { Mpool::destroy((T*)p); },
                [](void* p, U k) { return ((T*)p)->ok(k); }, owning<T>};
}
static const std::vector<Kind>& kinds() {
    static std::vector<Kind> k = {
        kind<Obj<1, 1>>("1 byte"),   kind<Obj<2, 2>>("2 bytes"),   kind<Obj<3, 1>>("3 bytes"),   kind<Obj<4, 4>>("4 bytes"),
        kind<Obj<5, 1>>("5 bytes"),  kind<Obj<6, 2>>("6 bytes"),   kind<Obj<7, 1>>("7 bytes"),   kind<Obj<8, 8>>("8 bytes"),
        kind<Obj<8, 1>>("8 chars"),  kind<Obj<12, 4>>("12 bytes"), kind<Obj<15, 1>>("15 bytes"), kind<Obj<16, 16>>("16 bytes"),
        kind<Obj<24, 8>>("24 bytes"), kind<Obj<32, 16>>("32 bytes"), kind<Obj<48, 16>>("48 bytes"), kind<Obj<72, 8>>("72 bytes"),
        kind<Obj<100, 4>>("100 bytes"), kind<Obj<256, 16>>("256 bytes"), kind<Own<8>>("owning 40"), kind<Own<1>>("owning 40b"),
        kind<Own<100>>("owning 136")};
    return k;
}
struct Live {
    void* p;
    U kind, key;
};
// The first use of each pool also allocates profiler records; get that over with.
static void warm() {
    static bool done = false;
    if(done) return;
    done = true;
    for(auto& k : kinds()) k.destroy(k.make(1));
    for(auto& k : kinds()) backing[k.size] = 1;
}

PROP(pool_histories, 60000, 2000000) {
    warm();
    Case c;
    {
        auto& ks = kinds();
        std::vector<Live> live;
        std::map<uintptr_t, uintptr_t> map;
        // a few kinds per case, often of equal size
        U n = s.range(1, 4);
        std::vector<U> use;
        for(U i = 0; i < n; i++) use.push_back(s.draw(ks.size() - 1));
        U key = s.draw(1 << 20), recycled = 0, owned = 0;
        U wm = s.of<unsigned>({3, 5});
        auto destroy = [&](U i) {
            auto l = live[i];
            auto& k = ks[l.kind];
            CHECK(k.ok(l.p, l.key), "a live %s object changed", k.name);
            NOTE("destroy %s key %lu", k.name, l.key);
            map.erase((uintptr_t)l.p);
            k.destroy(l.p);
            in_use[k.size]--;
            owned -= k.owns;
            live[i] = live.back();
            live.pop_back();
            CHECK(L.live == (int64_t)owned, "%ld owned resources live after a destroy, expected %lu", (long)L.live, owned);
        };
        U left = s.limit(20, 80, 400);
        while(s.step(left)) {
            if(s.pick({wm, 3}) == 0 || live.empty()) {
                U ki = use[s.draw(n - 1)];
                auto& k = ks[ki];
                int64_t before = sys_net_allocs();
                NOTE("make %s key %lu", k.name, key);
                void* p = k.make(key);
                int64_t took = sys_net_allocs() - before;
                bool idle = in_use[k.size] < backing[k.size];
                CHECK(took == (idle ? 0 : 1), "making a %s object took %ld new blocks while %ld freed ones were idle", k.name, (long)took,
                      (long)(backing[k.size] - in_use[k.size]));
                if(idle) recycled++;
                backing[k.size] += took;
                in_use[k.size]++;
                CHECK(p && (uintptr_t)p % k.align == 0, "a %s object is misaligned (%p)", k.name, p);
                uintptr_t b = (uintptr_t)p, e = b + k.size;
                auto it = map.lower_bound(b);
                CHECK(it == map.end() || it->first >= e, "a new %s object overlaps a live one", k.name);
                CHECK(it == map.begin() || std::prev(it)->second <= b, "a new %s object overlaps a live one", k.name);
                map[b] = e;
                CHECK(k.ok(p, key), "a new %s object does not hold its value", k.name);
                owned += k.owns;
                live.push_back({p, ki, key++});
                CHECK(L.live == (int64_t)owned, "%ld owned resources live after a make, expected %lu", (long)L.live, owned);
            } else {
                U i = s.coin() ? live.size() - 1 : s.draw(live.size() - 1);
                destroy(i);
            }
            if(left % 4 == 0)
                for(auto& l : live) CHECK(ks[l.kind].ok(l.p, l.key), "a live %s object changed", ks[l.kind].name);
        }
        if(recycled >= 2 && key > 4) pbt::nontrivial();
        while(!live.empty()) destroy(s.draw(live.size() - 1));
    }
    c.settled("after destroying every object");
}

// Tens of thousands of objects of one size alive at once, released in any order and made again.
PROP(pool_many, 40, 800) {
    warm();
    Case c;
    {
        auto& k = kinds()[s.draw(kinds().size() - 1)];
        std::vector<std::pair<void*, U>> live;
        U key = 1 + s.draw(1000), seed = s.draw(1 << 20);
        auto make = [&](U n) {
            for(U i = 0; i < n; i++) {
                int64_t before = sys_net_allocs();
                void* p = k.make(key);
                int64_t took = sys_net_allocs() - before;
                CHECK(took == (in_use[k.size] < backing[k.size] ? 0 : 1), "making a %s object took %ld new blocks with %lu live", k.name, (long)took,
                      (U)live.size());
                backing[k.size] += took;
                in_use[k.size]++;
                live.push_back({p, key++});
            }
            auto by = live;
            std::sort(by.begin(), by.end());
            for(U i = 0; i < by.size(); i++) {
                CHECK(k.ok(by[i].first, by[i].second), "one of %lu live %s objects changed", (U)live.size(), k.name);
                CHECK(i == 0 || (uintptr_t)by[i - 1].first + k.size <= (uintptr_t)by[i].first, "two of %lu live %s objects overlap", (U)live.size(), k.name);
            }
        };
        make(big_size(s, 14));
        U most = live.size(), rounds = s.range(1, 3);
        for(U r = 0; r < rounds; r++) {
            U drop = s.draw(live.size());
            for(U i = 0; i < drop; i++) {
                U j = pbt::mix(seed + i + r) % live.size();
                CHECK(k.ok(live[j].first, live[j].second), "a live %s object changed", k.name);
                k.destroy(live[j].first);
                in_use[k.size]--;
                live[j] = live.back();
                live.pop_back();
            }
            make(s.draw(drop + 100));
            most = std::max<U>(most, live.size());
        }
        for(auto& l : live) k.destroy(l.first), in_use[k.size]--;
        if(most > 1000) pbt::nontrivial();
    }
    c.settled("after destroying every object");
}

// ---- Free_List ---------------------------------------------------------------------------------------
template<typename T>
static void free_list(Src& s) {
    Case c;
    {
        std::unique_ptr<Free_List<T, TA<0>>> fl[2] = {std::make_unique<Free_List<T, TA<0>>>(), std::make_unique<Free_List<T, TA<0>>>()};
        std::vector<std::pair<T*, U>> live;
        U idle[2] = {0, 0}, key = 1, recycled = 0;
        U left = s.limit(20, 60, 300);
        while(s.step(left)) {
            U w = s.pick({5, 2});
            auto& f = fl[w];
            u64 before = TA<0>::live();
            switch(s.pick({8, 6, 1, 1, 1, 1})) {
            case 0: {
                NOTE("list %lu make", w);
                T* p = f->make(key);
                CHECK(TA<0>::live() == before + (idle[w] ? 0 : 1), "make took %ld blocks with %lu idle in the list", (long)(TA<0>::live() - before), idle[w]);
                if(idle[w]) idle[w]--, recycled++;
                CHECK((uintptr_t)p % alignof(T) == 0, "misaligned");
                for(auto& [q, k] : live) CHECK(p + 1 <= q || q + 1 <= p, "a new object overlaps a live one");
                CHECK(p->ok(key), "a new object does not hold its value");
                live.push_back({p, key++});
                break;
            }
            case 1:
                if(!live.empty()) {
                    U i = s.coin() ? live.size() - 1 : s.draw(live.size() - 1);
                    NOTE("list %lu destroy object %lu", w, i);
                    CHECK(live[i].first->ok(live[i].second), "a live object changed");
                    f->destroy(live[i].first); // any list of the same backing may take it
                    idle[w]++;
                    live[i] = live.back();
                    live.pop_back();
                    CHECK(TA<0>::live() == before, "destroy returned or took backing memory");
                }
                break;
            case 2:
                NOTE("list %lu clear", w);
                f->clear();
                CHECK(TA<0>::live() == before - idle[w], "clear returned %ld of %lu idle blocks", (long)(before - TA<0>::live()), idle[w]);
                idle[w] = 0;
                break;
            case 3:
                NOTE("list %lu = move(list %lu)", 1 - w, w);
                *fl[1 - w] = rpp::move(*f);
                CHECK(TA<0>::live() == before - idle[1 - w], "move-assignment returned %ld blocks, %lu were idle", (long)(before - TA<0>::live()), idle[1 - w]);
                idle[1 - w] = idle[w];
                idle[w] = 0;
                break;
            case 4: {
                NOTE("list %lu move-construct", w);
                auto g = std::make_unique<Free_List<T, TA<0>>>(rpp::move(*f));
                f = std::move(g);
                CHECK(TA<0>::live() == before, "move construction returned or took blocks");
                break;
            }
            case 5:
                NOTE("list %lu destroyed and renewed", w);
                f = std::make_unique<Free_List<T, TA<0>>>();
                CHECK(TA<0>::live() == before - idle[w], "destruction returned %ld of %lu idle blocks", (long)(before - TA<0>::live()), idle[w]);
                idle[w] = 0;
                break;
            }
            for(auto& [q, k] : live) CHECK(q->ok(k), "a live object changed");
        }
        if(recycled >= 2) pbt::nontrivial();
        while(!live.empty()) {
            fl[0]->destroy(live.back().first);
            live.pop_back();
        }
    }
    c.settled("after destroying the free lists");
}
PROP(free_list_histories, 40000, 1500000) {
    switch(s.draw(4)) {
    case 0: return free_list<Obj<1, 1>>(s);
    case 1: return free_list<Obj<8, 8>>(s);
    case 2: return free_list<Obj<12, 4>>(s);
    case 3: return free_list<Own<5>>(s);
    case 4: return free_list<Obj<64, 16>>(s);
    }
}

// ---- concurrent Mpool --------------------------------------------------------------------------------
template<typename T>
struct Work {
    U seed, ops;
    pthread_mutex_t* m;
    std::vector<std::pair<T*, U>>* shared;
};
template<typename T>
static void* pool_thread(void* p) {
    auto& w = *(Work<T>*)p;
    U r = w.seed;
    auto rnd = [&](U n) { return (r = pbt::mix(r)) % n; };
    std::vector<std::pair<T*, U>> mine;
    for(U i = 0; i < w.ops; i++) {
        switch(rnd(5)) {
        case 0:
        case 1: {
            U key = r;
            T* o = Mpool::make<T>(key);
            CHECK(o->ok(key), "a new pooled object does not hold its value");
            mine.push_back({o, key});
            break;
        }
        case 2:
            if(mine.size()) {
                U k = rnd(mine.size());
                CHECK(mine[k].first->ok(mine[k].second), "a live pooled object was changed by another thread");
                Mpool::destroy(mine[k].first);
                mine[k] = mine.back();
                mine.pop_back();
            }
            break;
        case 3: // hand an object to another thread
            if(mine.size()) {
                pthread_mutex_lock(w.m);
                w.shared->push_back(mine.back());
                pthread_mutex_unlock(w.m);
                mine.pop_back();
            }
            break;
        case 4: {
            pthread_mutex_lock(w.m);
            if(w.shared->size()) {
                mine.push_back(w.shared->back());
                w.shared->pop_back();
            }
            pthread_mutex_unlock(w.m);
            break;
        }
        }
    }
    for(auto& [o, k] : mine) {
        CHECK(o->ok(k), "a live pooled object was changed by another thread");
        Mpool::destroy(o);
    }
    return nullptr;
}
template<typename T>
static void concurrent(Src& s) {
    U n = s.range(2, 7), seed = s.draw(1 << 20);
    NOTE("%lu threads, %lu-byte objects", n, (U)sizeof(T));
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    std::vector<std::pair<T*, U>> shared;
    std::vector<Work<T>> w(n);
    std::vector<pthread_t> th(n);
    for(U i = 0; i < n; i++) {
        w[i] = Work<T>{seed * 100 + i, 400, &m, &shared};
        pthread_create(&th[i], nullptr, pool_thread<T>, &w[i]);
    }
    for(auto t : th) pthread_join(t, nullptr);
    for(auto& [o, k] : shared) {
        CHECK(o->ok(k), "a live pooled object was changed");
        Mpool::destroy(o);
    }
    // everything is idle: as many objects as before must come back pairwise distinct, then again
    std::set<T*> seen;
    for(U i = 0; i < 200; i++) CHECK(seen.insert(Mpool::make<T>(i)).second, "an idle block was handed out twice");
    int64_t net = sys_net_allocs();
    for(auto* o : seen) Mpool::destroy(o);
    CHECK(sys_net_allocs() == net, "destroying pooled objects changed the number of backing blocks");
    for(U i = 0; i < 200; i++) (void)Mpool::make<T>(i); // recycles exactly those
    CHECK(sys_net_allocs() == net, "200 idle blocks were not reused");
    for(auto* o : seen) Mpool::destroy(o);
    pbt::nontrivial();
}
PROP_F(pool_threads, 300, 6000, pbt::FEW) {
    switch(s.draw(3)) {
    case 0: return concurrent<Obj<1000, 8>>(s);
    case 1: return concurrent<Obj<9, 1>>(s);
    case 2: return concurrent<Obj<504, 8>>(s);
    case 3: return concurrent<Obj<11, 1>>(s);
    }
}

// Finalizing returns all idle backing memory: nothing is left, or exactly the objects still alive.
PROP(pool_finalize, 300, 4000) {
    warm();
    std::vector<U> picks;
    auto& ks = kinds();
    U n = s.range(1, 30);
    for(U i = 0; i < n; i++) picks.push_back(s.draw(ks.size() - 1));
    NOTE("%lu objects made and destroyed, then finalize", n);
    pbt::Death d = pbt::run_child([&]() {
        std::vector<Live> live;
        U key = 7;
        for(U p : picks) live.push_back({ks[p].make(key), p, key}), key++;
        for(auto& l : live) ks[l.kind].destroy(l.p);
        Profile::finalize();
        CHECK(sys_net_allocs() == 0, "blocks left");
    }, true);
    CHECK(d.completed && d.out.find("No memory leaked.") != std::string::npos, "finalizing with every pooled object destroyed leaves memory (status %x): %s",
          (unsigned)d.status, d.out.substr(d.out.size() > 600 ? d.out.size() - 600 : 0).c_str());
    pbt::nontrivial();
}
