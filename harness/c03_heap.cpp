// C03: Heap against a multiset.
#include "model.h"
using namespace t;

namespace t {
struct Keyed { // ordered by key only; carries a payload so that loss or duplication is visible
    int key = 0, id = 0;
    bool operator<(const Keyed& o) const noexcept {
        return key < o.key;
    }
};
template<typename T>
struct K;
template<>
struct K<Keyed> {
    static Keyed make(int k, int id) {
        return Keyed{k, id};
    }
    static std::pair<int, int> get(const Keyed& x) {
        return {x.key, x.id};
    }
};
struct OddKeyed { // 141 bytes, trivially copyable
    int key = 0;
    Odd id;
    bool operator<(const OddKeyed& o) const noexcept {
        return key < o.key;
    }
};
template<>
struct K<OddKeyed> {
    static OddKeyed make(int k, int id) {
        return OddKeyed{k, E<Odd>::make(id)};
    }
    static std::pair<int, int> get(const OddKeyed& x) {
        return {x.key, E<Odd>::val(x.id)};
    }
};
struct OwnKeyed {
    int key = 0;
    Tok id;
    OwnKeyed(int k, int i) : key(k), id(i) {
    }
    OwnKeyed(OwnKeyed&&) noexcept = default;
    OwnKeyed& operator=(OwnKeyed&&) noexcept = default;
    OwnKeyed clone() const noexcept {
        return OwnKeyed{key, id.get()};
    }
    bool operator<(const OwnKeyed& o) const noexcept {
        id.get();
        o.id.get();
        return key < o.key;
    }
};
template<>
struct K<OwnKeyed> {
    static OwnKeyed make(int k, int id) {
        return OwnKeyed{k, id};
    }
    static std::pair<int, int> get(const OwnKeyed& x) {
        return {x.key, x.id.get()};
    }
};
struct CpyKeyed {
    int key = 0;
    Cpy id;
    CpyKeyed(int k, int i) : key(k), id(i) {
    }
    bool operator<(const CpyKeyed& o) const noexcept {
        return key < o.key;
    }
};
template<>
struct K<CpyKeyed> {
    static CpyKeyed make(int k, int id) {
        return CpyKeyed{k, id};
    }
    static std::pair<int, int> get(const CpyKeyed& x) {
        return {x.key, x.id.get()};
    }
};
struct BoxKeyed {
    Box<std::pair<int, int>, TA<1>> b;
    bool operator<(const BoxKeyed& o) const noexcept {
        return (*b).first < (*o.b).first;
    }
    BoxKeyed clone() const noexcept {
        return BoxKeyed{Box<std::pair<int, int>, TA<1>>{*b}};
    }
};
template<>
struct K<BoxKeyed> {
    static BoxKeyed make(int k, int id) {
        return BoxKeyed{Box<std::pair<int, int>, TA<1>>{std::pair<int, int>{k, id}}};
    }
    static std::pair<int, int> get(const BoxKeyed& x) {
        return *x.b;
    }
};
} // namespace t

using MS = std::multiset<std::pair<int, int>>;

template<typename T, typename A>
static void same(const Heap<T, A>& h, const MS& m, const char* who) {
    CHECK(h.length() == m.size(), "%s: length %lu, expected %lu", who, h.length(), m.size());
    CHECK(h.empty() == m.empty(), "%s: empty() wrong", who);
    MS seen;
    for(const T& x : h) seen.insert(K<T>::get(x));
    CHECK(seen == m, "%s: the elements are not those pushed and not popped", who);
    if(!m.empty())
        CHECK(K<T>::get(h.top()).first == m.begin()->first, "%s: top has key %d, the least is %d", who,
              K<T>::get(h.top()).first, m.begin()->first);
}

template<typename T, typename A>
static void machine(Src& s) {
    Case c;
    {
        Heap<T, A> h[2];
        MS m[2];
        int id = 1;
        U keyspace = s.of<U>({3, 10, 1000});
        U shape = s.pick({5, 1, 1}); // random, ascending, descending keys
        int seq = 0;
        auto key = [&]() { return shape == 0 ? (int)s.draw(keyspace) : shape == 1 ? seq++ : -(seq++); };
        unsigned push_w = s.of<unsigned>({20, 14}), pop_w = s.of<unsigned>({8, 14});
        U left = s.limit(20, 60, 300);
        size_t peak = 0;
        while(s.step(left)) {
            U k = s.pick({9, 1});
            auto& x = h[k];
            auto& mm = m[k];
            switch(s.pick({push_w, 4, pop_w, 2, 2, 2, 1, 1, 1})) {
            case 0: {
                int kk = key(), i = id++;
                NOTE("h%lu.push(%d)", k, kk);
                x.push(K<T>::make(kk, i));
                mm.insert({kk, i});
                break;
            }
            case 1: {
                int kk = key(), i = id++;
                NOTE("h%lu.emplace(%d)", k, kk);
                x.emplace(K<T>::make(kk, i));
                mm.insert({kk, i});
                break;
            }
            case 2: {
                if(mm.empty()) break;
                auto top = K<T>::get(x.top());
                NOTE("h%lu.pop() -> %d", k, top.first);
                x.pop();
                auto it = mm.find(top);
                CHECK(it != mm.end(), "top was not an element of the heap");
                CHECK(top.first == mm.begin()->first, "popped key %d while %d is smaller", top.first, mm.begin()->first);
                mm.erase(it);
                break;
            }
            case 3: {
                U n = s.range(0, 2 * mm.size() + 6);
                NOTE("h%lu.reserve(%lu)", k, n);
                x.reserve(n);
                break;
            }
            case 4:
                NOTE("h%lu = h%lu.clone()", 1 - k, k);
                h[1 - k] = x.clone();
                m[1 - k] = mm;
                if(mm.size() > 2) pbt::label("cloned");
                break;
            case 5:
                NOTE("h%lu = move(h%lu)", 1 - k, k);
                h[1 - k] = rpp::move(x);
                m[1 - k] = mm;
                mm.clear();
                break;
            case 6:
                NOTE("h%lu.clear()", k);
                x.clear();
                mm.clear();
                break;
            case 7: {
                U form = s.draw(2);
                NOTE("h%lu = construct form %lu", k, form);
                mm.clear();
                if(form == 0) x = Heap<T, A>{};
                else if(form == 1) x = Heap<T, A>(s.range(0, 12));
                else {
                    int a = key(), b = key(), d = key();
                    x = Heap<T, A>{K<T>::make(a, id), K<T>::make(b, id + 1), K<T>::make(d, id + 2)};
                    mm = {{a, id}, {b, id + 1}, {d, id + 2}};
                    id += 3;
                }
                break;
            }
            case 8: {
                NOTE("h%lu move-construct", k);
                Heap<T, A> tmp{rpp::move(x)};
                same(x, {}, "moved-from heap");
                same(tmp, mm, "move-constructed heap");
                x = rpp::move(tmp);
                break;
            }
            }
            peak = std::max(peak, mm.size());
            same(h[0], m[0], "h0");
            same(h[1], m[1], "h1");
        }
        if(peak >= 6) pbt::nontrivial();
        if(peak > 16) pbt::label("more than 16 elements");
        while(!m[0].empty()) { // drain: non-decreasing and complete
            auto top = K<T>::get(h[0].top());
            CHECK(top.first == m[0].begin()->first, "drain yields key %d while %d remains", top.first, m[0].begin()->first);
            auto it = m[0].find(top);
            CHECK(it != m[0].end(), "drain yields a foreign element");
            m[0].erase(it);
            h[0].pop();
            same(h[0], m[0], "drained heap");
        }
    }
    c.settled("after destroying all heaps");
}
PROP(heap_trivial, 120000, 4000000) {
    machine<Keyed, TA<0>>(s);
}
PROP(heap_odd, 20000, 600000) {
    machine<OddKeyed, TA<0>>(s);
}
PROP(heap_owning, 60000, 2000000) {
    machine<OwnKeyed, TA<0>>(s);
}
PROP(heap_copyable, 40000, 1000000) {
    machine<CpyKeyed, Mdefault>(s);
}
PROP(heap_boxed, 40000, 1000000) {
    machine<BoxKeyed, TA<0>>(s);
}

// Heaps of up to 2^14 elements, filled and drained in bulk.
template<typename T>
static void large(Src& s, U maxlog) {
    Case c;
    {
        Heap<T, TA<0>> h, g;
        MS m;
        int id = 0;
        U seed = s.draw(1000), peak = 0, ops = s.range(2, 8);
        for(U o = 0; o < ops; o++) {
            U n = big_size(s, maxlog), op = s.pick({6, 4, 2, 1, 1, 1});
            U order = s.draw(3), span = s.of<U>({3, 100, 1000000});
            NOTE("heap of %lu: bulk operation %lu with %lu, order %lu, span %lu", (U)m.size(), op, n, order, span);
            if(m.size() + n > ((U)4 << maxlog)) op = 1;
            switch(op) {
            case 0:
                for(U i = 0; i < n; i++, id++) {
                    int k = order == 0 ? (int)(pbt::mix(seed + (U)id) % span) : order == 1 ? (int)i : order == 2 ? (int)(n - i) : (int)((i * 37) % span);
                    if(i & 1) h.emplace(K<T>::make(k, id));
                    else h.push(K<T>::make(k, id));
                    m.insert({k, id});
                }
                break;
            case 1:
                for(U i = 0; i < n && !m.empty(); i++) {
                    auto top = K<T>::get(h.top());
                    CHECK(top.first == m.begin()->first, "popped key %d while %d is smaller", top.first, m.begin()->first);
                    auto it = m.find(top);
                    CHECK(it != m.end(), "top was not an element of the heap");
                    m.erase(it);
                    h.pop();
                }
                break;
            case 2:
                h.reserve(n);
                break;
            case 3:
                g = h.clone();
                same(h, m, "cloned heap");
                h = rpp::move(g);
                break;
            case 4:
                g = rpp::move(h);
                same(h, {}, "moved-from heap");
                h = rpp::move(g);
                break;
            case 5:
                h.clear();
                m.clear();
                break;
            }
            peak = std::max<U>(peak, m.size());
            same(h, m, "heap");
        }
        while(!m.empty()) {
            auto top = K<T>::get(h.top());
            CHECK(top.first == m.begin()->first, "drain yields key %d while %d remains", top.first, m.begin()->first);
            auto it = m.find(top);
            CHECK(it != m.end(), "drain yields a foreign element");
            m.erase(it);
            h.pop();
        }
        same(h, m, "drained heap");
        if(peak > 128) pbt::nontrivial();
        if(peak > 4096) pbt::label("more than 4096 elements");
    }
    c.settled("after destroying all heaps");
}
PROP(large_trivial, 1500, 30000) {
    large<Keyed>(s, s.chance(1, 8) ? 15 : 12);
}
PROP(large_owning, 500, 10000) {
    large<OwnKeyed>(s, 12);
}
PROP(large_copyable, 500, 10000) {
    large<CpyKeyed>(s, 12);
}

// A priority queue at work: runs of pushes and pops around a level, each pop judged, so that a disorder anywhere in
// the heap reaches the top before the heap is drained through it.
template<typename T>
static void steady(Src& s) {
    Case c;
    {
        Heap<T, TA<0>> h;
        MS m;
        int id = 0;
        U seed = s.draw(1 << 20), level = s.coin() ? ((U)1 << s.range(1, 8)) + s.draw(4) : s.range(1, 200);
        U run = s.of<U>({1, 2, 4, 9, 30}), rounds = s.range(1, 12) * 20, span = s.of<U>({5, 50, 1000, 100000});
        bool rising = s.chance(1, 4); // event queues: new keys never precede the one popped last
        NOTE("level %lu, runs of up to %lu, %lu rounds, keys up to %lu, rising %d", level, run, rounds, span, (int)rising);
        U r = seed;
        int last = 0;
        auto rnd = [&](U n) { return (r = pbt::mix(r + 1)) % n; };
        auto push = [&]() {
            int k = (int)rnd(span) + (rising ? last : 0);
            h.push(K<T>::make(k, id));
            m.insert({k, id++});
        };
        auto pop = [&]() {
            auto top = K<T>::get(h.top());
            CHECK(top.first == m.begin()->first, "popped key %d while %d is smaller (%lu elements)", top.first, m.begin()->first, (U)m.size());
            auto it = m.find(top);
            CHECK(it != m.end(), "top was not an element of the heap");
            m.erase(it);
            last = top.first;
            h.pop();
        };
        for(U i = 0; i < level; i++) push();
        for(U i = 0; i < rounds; i++) {
            for(U k = rnd(run) + 1; k && !m.empty(); k--) pop();
            for(U k = rnd(run) + 1; k && m.size() < level + run; k--) push();
            while(m.size() + run < level) push();
        }
        same(h, m, "heap");
        while(!m.empty()) pop();
        CHECK(h.empty(), "a drained heap is not empty");
        if(level > 3) pbt::nontrivial();
    }
    c.settled("after destroying the heap");
}
PROP(steady_trivial, 12000, 300000) {
    steady<Keyed>(s);
}
PROP(steady_owning, 3000, 60000) {
    steady<OwnKeyed>(s);
}
