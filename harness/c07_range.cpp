// C07: Range_Allocator against an interval model.
#include <deque>
#include "model.h"
#include <rpp/range_allocator.h>
using namespace t;

struct Live {
    U size, align;
    U begin, end; // block extent including padding
    U offset;
};

template<typename RA, U Buckets, U Bias>
struct Machine {
    std::unique_ptr<RA> ra;
    U cap = 0;
    std::map<typename RA::Range, Live> live;
    std::map<U, U> extents; // begin -> end of live blocks
    U allocated = 0, high = 0, allocs = 0, frees = 0, alloc_size = 0, free_size = 0;
    U peak = 0, refused = 0, merges = 0;

    void reset(U c) {
        cap = c;
        ra = std::make_unique<RA>(c);
        live.clear();
        extents.clear();
        allocated = high = allocs = frees = alloc_size = free_size = 0;
    }
    void lose() { // moved from: nothing is left
        cap = 0;
        live.clear();
        extents.clear();
        allocated = high = allocs = frees = alloc_size = free_size = 0;
    }
    std::vector<std::pair<U, U>> gaps() const {
        std::vector<std::pair<U, U>> r;
        U at = 0;
        for(auto [b, e] : extents) {
            if(b > at) r.push_back({at, b});
            at = e;
        }
        if(at < cap) r.push_back({at, cap});
        return r;
    }
    static U bucket(U n) {
        U l = 0;
        while(l < 63 && n >> (l + 1)) l++;
        U i = l >= Bias ? l - Bias : 0;
        return std::min(i, Buckets - 1);
    }
    static bool fits(U b, U e, U size, U align) {
        U r = b % align;
        unsigned __int128 at = (unsigned __int128)b + (r ? align - r : 0);
        return at + size <= e;
    }
    bool can(U size, U align) const {
        for(auto [b, e] : gaps())
            if(fits(b, e, size, align)) return true;
        return false;
    }
    void stats() {
        auto st = ra->statistics();
        auto g = gaps();
        U fs = 0;
        U buckets[Buckets] = {};
        for(auto [b, e] : g) {
            fs += e - b;
            buckets[bucket(e - b)]++;
        }
        CHECK(st.total_capacity == cap, "capacity %lu, expected %lu", st.total_capacity, cap);
        CHECK(st.allocated_blocks == live.size(), "%lu allocated blocks reported, %lu live", st.allocated_blocks, (U)live.size());
        CHECK(st.allocated_size == allocated, "allocated size %lu, live ranges cover %lu", st.allocated_size, allocated);
        CHECK(st.free_blocks == g.size(), "%lu free blocks reported, the live ranges leave %lu gaps", st.free_blocks, (U)g.size());
        CHECK(st.free_size == fs, "free size %lu, gaps sum to %lu", st.free_size, fs);
        CHECK(st.high_water == high, "high water %lu, expected %lu", st.high_water, high);
        CHECK(st.total_allocs == allocs && st.total_frees == frees, "totals %lu/%lu, expected %lu/%lu", st.total_allocs, st.total_frees, allocs, frees);
        CHECK(st.total_alloc_size == alloc_size && st.total_free_size == free_size, "total sizes %lu/%lu, expected %lu/%lu", st.total_alloc_size,
              st.total_free_size, alloc_size, free_size);
        for(U i = 0; i < Buckets; i++) CHECK(st.bucket_sizes[i] == buckets[i], "size class %lu holds %lu blocks, expected %lu", i, st.bucket_sizes[i], buckets[i]);
        if(live.empty()) {
            CHECK(st.free_blocks == (cap ? 1 : 0), "everything is free but there are %lu free blocks", st.free_blocks);
            st.assert_clear();
        }
    }
    void allocate(U size, U align) {
        auto r = ra->allocate(size, align);
        bool possible = can(size, align);
        NOTE("allocate(%lu, %lu) -> %s", size, align, r.ok() ? std::to_string((*r)->offset).c_str() : "refused");
        if(!r.ok()) {
            refused++;
            CHECK(!possible, "allocate(%lu, %lu) was refused although a gap can hold it", size, align);
            return;
        }
        typename RA::Range b = *r;
        CHECK(!live.count(b), "allocate returned a range that is still live");
        CHECK(b->length() == size, "range has length %lu, requested %lu", b->length(), size);
        CHECK(b->offset % align == 0, "offset %lu is not a multiple of %lu", b->offset, align);
        CHECK(b->padding() <= b->offset, "padding %lu reaches below zero", b->padding());
        U begin = b->offset - b->padding(), end = b->offset + size;
        CHECK(end >= b->offset && end <= cap, "range [%lu, %lu) leaves the capacity %lu", b->offset, end, cap);
        auto it = extents.lower_bound(begin);
        CHECK(it == extents.end() || it->first >= end, "range [%lu, %lu) overlaps a live range at %lu", begin, end, it->first);
        CHECK(it == extents.begin() || std::prev(it)->second <= begin, "range [%lu, %lu) overlaps a live range", begin, end);
        CHECK(possible, "allocate succeeded where no gap fits");
        extents[begin] = end;
        live[b] = Live{size, align, begin, end, b->offset};
        allocated += end - begin;
        alloc_size += end - begin;
        high = std::max(high, allocated);
        allocs++;
        peak = std::max<U>(peak, live.size());
    }
    void free(typename RA::Range b) {
        auto l = live[b];
        CHECK(b->offset == l.offset && b->length() == l.size, "a live range changed from [%lu,+%lu) to [%lu,+%lu)", l.offset, l.size, b->offset, b->length());
        NOTE("free [%lu, +%lu)", l.offset, l.size);
        ra->free(b);
        for(auto [x, y] : gaps()) merges += (y == l.begin) + (x == l.end);
        extents.erase(l.begin);
        live.erase(b);
        allocated -= l.end - l.begin;
        free_size += l.end - l.begin;
        frees++;
    }
    typename RA::Range choose(Src& s) { // by address, for repeatable choices
        U k = s.draw(live.size() - 1);
        auto it = extents.begin();
        std::advance(it, k);
        for(auto& [b, l] : live)
            if(l.begin == it->first) return b;
        return nullptr;
    }
    void intact() {
        for(auto& [b, l] : live)
            CHECK(b->offset == l.offset && b->length() == l.size && b->offset - b->padding() == l.begin, "a live range changed");
    }
    void drain(Src& s) {
        while(!live.empty()) free(choose(s));
        stats();
        if(cap) {
            allocate(cap, s.of<U>({1, 4096, cap}));
            CHECK(live.size() == 1, "after everything was freed the whole capacity cannot be allocated");
            stats();
            free(live.begin()->first);
        }
    }
};

template<typename RA, U Buckets, U Bias>
static void machine(Src& s) {
    Case c;
    {
        Machine<RA, Buckets, Bias> m[2];
        auto capacity = [&]() -> U {
            switch(s.draw(4)) {
            case 0: return s.range(1, 300);
            case 1: return s.range(1, 100000);
            case 2: return 1ull << s.draw(40);
            case 3: return (1ull << s.draw(33)) + s.draw(5);
            default: return s.of<U>({~0ull, 1ull << 63, 1ull << 32, (1ull << 32) - 1});
            }
        };
        U cap = capacity();
        m[0].reset(cap);
        m[1].reset(capacity());
        NOTE("capacities %lu and %lu", m[0].cap, m[1].cap);
        U unit = s.of<U>({8, 64, 4});
        U left = s.limit(20, 80, 400);
        while(s.step(left)) {
            U w = s.pick({9, 1});
            auto& x = m[w];
            switch(s.pick({10, 8, 2, 1, 1, 1})) {
            case 0: {
                U size = 1, top = std::max<U>(1, x.cap / unit);
                switch(s.pick({5, 3, 2, 1})) {
                case 0: size = s.range(1, top); break;
                case 1: size = 1ull << s.draw(20); size += s.draw(2); break;
                case 2: size = s.range(1, 40); break;
                case 3: size = s.of<U>({x.cap ? x.cap : 1, ~0ull, ~0ull - s.draw(100), x.cap / 2 + 1, 1ull << 63}); break;
                }
                if(!size) size = 1;
                U align = s.pick({3, 4, 2, 1}) == 0 ? 1 : 1;
                switch(s.pick({3, 4, 3, 1})) {
                case 0: align = 1; break;
                case 1: align = 1ull << s.draw(12); break;
                case 2: align = s.range(1, 200); break;
                case 3: align = s.of<U>({1ull << 20, 1ull << 63, ~0ull, x.cap ? x.cap : 1}); break;
                }
                x.allocate(size, align);
                break;
            }
            case 1:
                if(!x.live.empty()) x.free(x.choose(s));
                break;
            case 2: // exactly fill a gap
                if(auto g = x.gaps(); !g.empty()) {
                    auto [b, e] = g[s.draw(g.size() - 1)];
                    U less = std::min<U>(s.draw(2), e - b - 1);
                    x.allocate(e - b - less, 1);
                }
                break;
            case 3:
                if(m[1 - w].live.empty()) { // live ranges of the target would be dropped: only when it has none
                    NOTE("allocator %lu = move(allocator %lu)", 1 - w, w);
                    *m[1 - w].ra = rpp::move(*x.ra);
                    auto ra = std::move(m[1 - w].ra);
                    auto mine = std::move(x.ra);
                    m[1 - w] = Machine<RA, Buckets, Bias>{};
                    auto& y = m[1 - w];
                    y.cap = x.cap; y.live = x.live; y.extents = x.extents; y.allocated = x.allocated; y.high = x.high;
                    y.allocs = x.allocs; y.frees = x.frees; y.alloc_size = x.alloc_size; y.free_size = x.free_size;
                    y.peak = x.peak;
                    y.ra = std::move(ra);
                    x.ra = std::move(mine);
                    x.lose();
                    y.intact();
                    if(y.live.size() > 2) pbt::label("moved with live ranges");
                }
                break;
            case 4: {
                NOTE("move-construct allocator %lu", w);
                auto fresh = std::make_unique<RA>(rpp::move(*x.ra));
                auto old = std::move(x.ra);
                CHECK(!old->allocate(1, 1).ok(), "a moved-from allocator still hands out ranges");
                CHECK(old->statistics().total_capacity == 0, "a moved-from allocator reports capacity");
                x.ra = std::move(fresh);
                x.intact();
                if(s.coin()) { // and the moved-from object can be used again
                    *old = RA(100);
                    auto r = old->allocate(60, 1);
                    CHECK(r.ok() && (*r)->length() == 60, "an allocator assigned after being moved from is unusable");
                    old->free(*r);
                    old->statistics().assert_clear();
                }
                break;
            }
            case 5:
                if(x.live.empty() && !x.cap) {
                    U cp = capacity();
                    NOTE("allocator %lu = new with capacity %lu", w, cp);
                    x.reset(cp);
                }
                break;
            }
            m[0].stats();
            m[1].stats();
        }
        m[0].intact();
        if(m[0].peak + m[1].peak >= 5 && m[0].merges + m[1].merges >= 2) pbt::nontrivial();
        if(m[0].refused) pbt::label("refused");
        m[0].drain(s);
        m[1].drain(s);
    }
    c.settled("after destroying the allocators");
}
// Thousands of live ranges.
template<typename RA, U Buckets, U Bias>
static void many(Src& s) {
    Case c;
    {
        Machine<RA, Buckets, Bias> m;
        U top = s.of<U>({16, 300, 5000}), n = big_size(s, 10);
        m.reset(n * top * s.of<U>({1, 2, 8}));
        U seed = s.draw(1 << 20), phases = s.range(1, 4);
        for(U p = 0; p < phases; p++) {
            U more = p == 0 ? n : s.draw(n), fewer = s.draw(n), mode = s.draw(2);
            for(U i = 0; i < more; i++) {
                U r = pbt::mix(seed + i + p * 1000003);
                m.allocate(1 + r % top, (r >> 40) % 4 ? 1 : 1ull << (r >> 50) % 8);
            }
            m.stats();
            std::vector<typename RA::Range> by;
            for(auto& [b, e] : m.live) by.push_back(b);
            std::sort(by.begin(), by.end(), [&](auto& a, auto& b) { return a->offset < b->offset; });
            if(mode == 1) { // every other one: as many gaps
                std::vector<typename RA::Range> odd;
                for(U i = 0; i < by.size(); i += 2) odd.push_back(by[i]);
                by = odd;
            } else if(mode == 2) {
                for(U i = by.size(); i > 1; i--) std::swap(by[i - 1], by[pbt::mix(seed + i) % i]);
            }
            for(U i = 0; i < by.size() && i < fewer; i++) m.free(by[i]);
            m.stats();
        }
        m.intact();
        if(m.peak > 100) pbt::nontrivial();
        while(!m.live.empty()) m.free(m.live.begin()->first);
        m.stats();
        m.drain(s);
    }
    c.settled("after destroying the allocators");
}
// Tens of thousands of allocations and frees, few at a time: the statistics count all of them.
PROP_F(range_counts, 4, 60, pbt::FEW) {
    Case c;
    {
        Machine<Range_Allocator<TA<0>>, 24, 8> m;
        m.reset(s.of<U>({1 << 20, 1ull << 36}));
        U n = 66000 + s.draw(9000), few = s.range(1, 6), seed = s.draw(1 << 20), top = s.of<U>({100, 4000, 100000});
        std::deque<typename Range_Allocator<TA<0>>::Range> by;
        NOTE("%lu allocations, %lu at once", n, few);
        for(U i = 0; i < n; i++) {
            U r = pbt::mix(seed + i), before = m.allocs;
            m.allocate(1 + r % top, 1);
            if(m.allocs > before)
                for(auto& [b, l] : m.live)
                    if(std::find(by.begin(), by.end(), b) == by.end()) by.push_back(b);
            if(by.size() > few) m.free(by.front()), by.pop_front();
            if(i % 8192 == 0) m.stats();
        }
        m.stats();
        m.drain(s);
        pbt::nontrivial();
    }
    c.settled("after destroying the allocators");
}
PROP(range_many, 40, 1000) {
    if(s.coin()) many<Range_Allocator<TA<0>>, 24, 8>(s);
    else many<Range_Allocator<TA<0>, 4, 2>, 4, 2>(s);
}
PROP(range_default, 30000, 1000000) {
    machine<Range_Allocator<TA<0>>, 24, 8>(s);
}
PROP(range_small_buckets, 15000, 500000) {
    machine<Range_Allocator<TA<0>, 4, 2>, 4, 2>(s);
}
PROP(range_fine, 15000, 500000) {
    machine<Range_Allocator<TA<0>, 64, 0>, 64, 0>(s);
}
PROP(range_one_bucket, 10000, 300000) {
    machine<Range_Allocator<TA<0>, 1, 0>, 1, 0>(s);
}

// Concurrent use: a shared byte map shows any overlap; statistics come out clear.
struct Shared {
    Range_Allocator<TA<0>>* ra;
    std::vector<std::atomic<unsigned char>>* map;
    U seed, ops;
};
static void* range_thread(void* p) {
    auto* a = (Shared*)p;
    U r = a->seed;
    auto rnd = [&](U n) { return (r = pbt::mix(r)) % n; };
    std::vector<Range_Allocator<TA<0>>::Range> mine;
    auto drop = [&](U k) {
        auto b = mine[k];
        for(U i = b->offset; i < b->offset + b->length(); i++)
            CHECK((*a->map)[i].exchange(0) == 1, "another thread was given byte %lu of a live range", i);
        a->ra->free(b);
        mine[k] = mine.back();
        mine.pop_back();
    };
    for(U i = 0; i < a->ops; i++) {
        if(rnd(3) == 0) {
            // One consistent account, whatever other threads are doing.
            auto st = a->ra->statistics();
            U buckets = 0;
            for(U b : st.bucket_sizes) buckets += b;
            CHECK(st.free_size + st.allocated_size == st.total_capacity, "statistics during concurrent use: %lu free, %lu allocated of %lu", (U)st.free_size, (U)st.allocated_size, (U)st.total_capacity);
            CHECK(st.total_allocs - st.total_frees == st.allocated_blocks, "statistics during concurrent use: %lu allocations, %lu frees, %lu live", (U)st.total_allocs, (U)st.total_frees, (U)st.allocated_blocks);
            CHECK(buckets == st.free_blocks, "statistics during concurrent use: %lu free blocks in the lists, %lu in all", buckets, (U)st.free_blocks);
            CHECK(st.allocated_blocks >= mine.size(), "statistics during concurrent use lose live ranges");
        }
        if(rnd(2) || mine.empty()) {
            U size = 1 + rnd(rnd(4) ? 40 : 400), al = 1ull << rnd(6);
            auto b = a->ra->allocate(size, al);
            if(!b.ok()) continue;
            CHECK((*b)->offset % al == 0 && (*b)->length() == size && (*b)->offset + size <= a->map->size(), "bad range");
            for(U k = (*b)->offset; k < (*b)->offset + size; k++)
                CHECK((*a->map)[k].exchange(1) == 0, "byte %lu was handed to two threads", k);
            mine.push_back(*b);
        } else {
            drop(rnd(mine.size()));
        }
    }
    while(!mine.empty()) drop(0);
    return nullptr;
}
PROP_F(range_threads, 300, 6000, pbt::FEW) {
    Case c;
    {
        U n = s.range(2, 6), seed = s.draw(1 << 20), cap = s.range(500, 5000);
        NOTE("%lu threads, capacity %lu", n, cap);
        Range_Allocator<TA<0>> ra(cap);
        std::vector<std::atomic<unsigned char>> map(cap);
        std::vector<Shared> args(n);
        std::vector<pthread_t> th(n);
        for(U i = 0; i < n; i++) {
            args[i] = Shared{&ra, &map, seed * 100 + i, 300};
            pthread_create(&th[i], nullptr, range_thread, &args[i]);
        }
        for(auto t : th) pthread_join(t, nullptr);
        auto st = ra.statistics();
        CHECK(st.free_blocks == 1 && st.free_size == cap && st.allocated_blocks == 0 && st.total_allocs == st.total_frees, "statistics are wrong after concurrent use");
        st.assert_clear();
        auto whole = ra.allocate(cap, 1);
        CHECK(whole.ok() && (*whole)->offset == 0, "the whole capacity is not free after concurrent use");
        ra.free(*whole);
        pbt::nontrivial();
    }
    c.settled("after concurrent use");
}
