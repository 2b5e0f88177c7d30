// C04: Map against std::map, with keys whose hashes are chosen to collide, cluster and wrap around.
#include "model.h"
using namespace t;

static U g_mode = 0;
static U mode_hash(U v) {
    switch(g_mode) {
    default: return rpp::Hash::Hash<U>::hash(v);
    case 1: return 0;                                            // every key in slot 0, equal hashes
    case 2: return ~0ull;                                        // every key in the last slot
    case 3: return (v % 4) << 62 | pbt::mix(v) >> 2;             // four home slots
    case 4: return v;                                            // all home slots 0, distinct hashes
    case 5: return ~0ull - (pbt::mix(v) % 3 << 57) - v * 2;      // homes at the very top: clusters wrap around
    case 6: return (v * 0x9e3779b97f4a7c15ull) & ~0xffffffffull; // equal low halves
    case 7: return pbt::mix(v % 5);                              // five distinct hashes
    case 8: return (v & 1 ? 0ull : 0xf800000000000000ull) + (v << 40); // two clusters, one running into the other
    case 9: return (v / 8) << 59 | (v & 7) << 20;                // runs of eight per home slot
    }
}

namespace t {
struct HKey {
    int v = 0;
    bool operator==(const HKey& o) const noexcept {
        return v == o.v;
    }
};
struct TKey { // owning, clone only
    Tok t;
    explicit TKey(int v) : t(v) {
    }
    explicit TKey(Tok&& x) : t(rpp::move(x)) {
    }
    TKey(TKey&&) noexcept = default;
    TKey& operator=(TKey&&) noexcept = default;
    TKey clone() const noexcept {
        return TKey{t.clone()};
    }
    bool operator==(const TKey& o) const noexcept {
        return t.get() == o.t.get();
    }
};
struct CKey { // owning, copyable
    Cpy t;
    explicit CKey(int v) : t(v) {
    }
    CKey(const CKey&) noexcept = default;
    CKey(CKey&&) noexcept = default;
    CKey& operator=(CKey&&) noexcept = default;
    bool operator==(const CKey& o) const noexcept {
        return t.get() == o.t.get();
    }
};
template<>
struct E<HKey> : E<int> {
    static HKey make(int v) {
        return HKey{v};
    }
    static int val(const HKey& k) {
        return k.v;
    }
};
template<>
struct E<TKey> {
    static constexpr bool copyable = false;
    static TKey make(int v) {
        return TKey{v};
    }
    static int val(const TKey& k) {
        return k.t.get();
    }
};
template<>
struct E<CKey> {
    static constexpr bool copyable = true;
    static CKey make(int v) {
        return CKey{v};
    }
    static int val(const CKey& k) {
        return k.t.get();
    }
};
} // namespace t
using namespace t;
namespace rpp::Hash {
template<>
struct Hash<HKey> {
    static u64 hash(const HKey& k) noexcept {
        return mode_hash((U)k.v);
    }
};
template<>
struct Hash<TKey> {
    static u64 hash(const TKey& k) noexcept {
        return mode_hash((U)k.t.get());
    }
};
template<>
struct Hash<CKey> {
    static u64 hash(const CKey& k) noexcept {
        return mode_hash((U)k.t.get());
    }
};
} // namespace rpp::Hash
RPP_RECORD(HKey, RPP_FIELD(v));
RPP_NAMED_RECORD(TKey, "TKey");
RPP_NAMED_RECORD(CKey, "CKey");

using M = std::map<int, int>;

template<typename K, typename V, typename A>
static void full_check(Map<K, V, A>& m, const M& mm, const char* who, U universe) {
    const Map<K, V, A>& cm = m;
    M seen;
    for(const auto& kv : cm) {
        int k = E<K>::val(kv.first), v = E<V>::val(kv.second);
        CHECK(seen.emplace(k, v).second, "%s: iteration visited key %d twice", who, k);
    }
    { // the other increment visits the same entries, and gives the position before
        U n = 0;
        auto pre = cm.begin();
        for(auto it = cm.begin(); !(it == cm.end()); n++, ++pre) {
            auto was = it++;
            CHECK(was == pre && &*was == &*pre && was.operator->() == &*was, "%s: it++ does not give the position before", who);
            CHECK(!(was == it), "%s: it++ stays in place", who);
        }
        CHECK(n == seen.size(), "%s: it++ visits %lu of %lu entries", who, n, (U)seen.size());
    }
    CHECK(seen == mm, "%s: iteration yields %lu entries that are not the %lu expected", who, (U)seen.size(), (U)mm.size());
    for(auto& [k, v] : mm) {
        K key = E<K>::make(k);
        auto r = m.try_get(key);
        CHECK(r.ok(), "%s: key %d is not found", who, k);
        CHECK(E<V>::val(**r) == v, "%s: key %d maps to %d, expected %d", who, k, E<V>::val(**r), v);
        auto cr = cm.try_get(key);
        CHECK(cr.ok() && &**cr == &**r, "%s: const lookup differs", who);
    }
    for(U k = 0; k <= universe && k < 40; k++)
        if(!mm.count((int)k)) {
            K key = E<K>::make((int)k);
            CHECK(!m.try_get(key).ok() && !m.contains(key), "%s: absent key %lu is found", who, k);
        }
}
template<typename K, typename V, typename A>
static void quick_check(Map<K, V, A>& m, const M& mm, const char* who) {
    CHECK(m.length() == mm.size(), "%s: length %lu, expected %lu", who, m.length(), (U)mm.size());
    CHECK(m.empty() == mm.empty(), "%s: empty() wrong", who);
}

template<typename K, typename V, typename A>
static void machine(Src& s, bool custom_hash) {
    Case c;
    {
        g_mode = custom_hash ? s.draw(9) : 0;
        Map<K, V, A> m[2];
        M mm[2];
        U universe = s.of<U>({6, 20, 60, 300});
        if(E<K>::make(0) == E<K>::make(256)) universe = std::min<U>(universe, 100);
        unsigned ins = s.of<unsigned>({10, 5}), era = s.of<unsigned>({4, 10});
        U left = s.limit(20, 80, 400);
        U erased = 0, peak = 0, n = 0;
        U every = s.of<U>({1, 3, 16});
        for(U i = s.draw(s.of<U>({0, 12, 40})); i > 0; i--) { // start from a populated map
            int k = (int)s.draw(universe), v = (int)s.draw(99);
            NOTE("m0.insert(%d, %d)", k, v);
            m[0].insert(E<K>::make(k), E<V>::make(v));
            mm[0][k] = v;
        }
        while(s.step(left)) {
            U w = s.pick({9, 1});
            auto& x = m[w];
            auto& y = mm[w];
            int k = (int)s.draw(universe), v = (int)s.draw(99);
            if(y.size() && s.chance(1, 3)) { // aim at a present key
                auto it = y.begin();
                std::advance(it, s.draw(std::min<U>(y.size() - 1, 30)));
                k = it->first;
            }
            auto placed = [&](V& r, int val, const char* op) {
                CHECK(E<V>::val(r) == val, "%s(%d) returned a reference to %d, expected %d", op, k, E<V>::val(r), val);
                auto g = x.try_get(E<K>::make(k));
                CHECK(g.ok() && &**g == &r, "%s(%d) did not return a reference to the entry of that key", op, k);
            };
            switch(s.pick({ins, 3, 3, 3, era, 3, 1, 1, 2, 2, 2, 2, 1, 1, 1})) {
            case 0: {
                NOTE("m%lu.insert(%d, %d)", w, k, v);
                U form = s.draw(3);
                if(form == 1) {
                    if constexpr(E<V>::copyable) {
                        V val = E<V>::make(v);
                        placed(x.insert(E<K>::make(k), (const V&)val), v, "insert");
                        y[k] = v;
                        break;
                    }
                } else if(form == 2) {
                    if constexpr(E<K>::copyable) {
                        K key = E<K>::make(k);
                        placed(x.insert((const K&)key, E<V>::make(v)), v, "insert");
                        y[k] = v;
                        break;
                    }
                } else if(form == 3) {
                    if constexpr(E<K>::copyable && E<V>::copyable) {
                        K key = E<K>::make(k);
                        V val = E<V>::make(v);
                        placed(x.insert((const K&)key, (const V&)val), v, "insert");
                        y[k] = v;
                        break;
                    }
                }
                placed(x.insert(E<K>::make(k), E<V>::make(v)), v, "insert");
                y[k] = v;
                break;
            }
            case 1:
                NOTE("m%lu.emplace(%d, %d)", w, k, v);
                placed(x.emplace(E<K>::make(k), E<V>::make(v)), v, "emplace");
                y[k] = v;
                break;
            case 2: {
                int want = y.count(k) ? y[k] : 0;
                NOTE("m%lu.get_or_insert(%d) = %d", w, k, v);
                auto settle = [&](V& r) {
                    CHECK(E<V>::val(r) == want, "get_or_insert(%d) yields %d, expected %d", k, E<V>::val(r), want);
                    r = E<V>::make(v);
                    y[k] = v;
                    placed(r, v, "get_or_insert");
                };
                if constexpr(E<K>::copyable) {
                    if(s.coin()) {
                        const K key = E<K>::make(k);
                        settle(x.get_or_insert(key));
                        break;
                    }
                }
                settle(x.get_or_insert(E<K>::make(k)));
                break;
            }
            case 3: {
                NOTE("m%lu.get(%d)", w, k);
                K key = E<K>::make(k);
                CHECK(x.contains(key) == (y.count(k) == 1), "contains(%d) is %d", k, (int)x.contains(key));
                if(y.count(k)) {
                    CHECK(E<V>::val(x.get(key)) == y[k], "get(%d) yields %d, expected %d", k, E<V>::val(x.get(key)), y[k]);
                    const auto& cx = x;
                    CHECK(&cx.get(key) == &x.get(key), "const get differs");
                    if(s.coin()) {
                        x.get(key) = E<V>::make(v);
                        y[k] = v;
                    }
                } else CHECK(!x.try_get(key).ok(), "try_get(%d) finds an absent key", k);
                break;
            }
            case 4: {
                NOTE("m%lu.try_erase(%d)", w, k);
                bool r = x.try_erase(E<K>::make(k));
                CHECK(r == (y.count(k) == 1), "try_erase(%d) returned %d", k, (int)r);
                if(r && y.size() > 4) erased++;
                y.erase(k);
                break;
            }
            case 5:
                if(y.count(k)) {
                    NOTE("m%lu.erase(%d)", w, k);
                    x.erase(E<K>::make(k));
                    if(y.size() > 4) erased++;
                    y.erase(k);
                }
                break;
            case 6:
                NOTE("m%lu.clear()", w);
                x.clear();
                y.clear();
                break;
            case 7: {
                U r = s.of<U>({s.range(0, 80), s.range(0, 2 * y.size() + 4)});
                NOTE("m%lu.reserve(%lu)", w, r);
                x.reserve(r);
                break;
            }
            case 8:
                NOTE("m%lu = m%lu.clone()", 1 - w, w);
                m[1 - w] = x.clone();
                mm[1 - w] = y;
                if(y.size() > 4) pbt::label("cloned");
                break;
            case 9:
                NOTE("m%lu = move(m%lu)", 1 - w, w);
                m[1 - w] = rpp::move(x);
                mm[1 - w] = y;
                y.clear();
                full_check(x, y, "moved-from map", universe);
                break;
            case 10: {
                NOTE("m%lu: write every value through an iterator", w);
                for(auto& kv : x) {
                    int kk = E<K>::val(kv.first);
                    kv.second = E<V>::make((y[kk] + kk) % 100);
                    y[kk] = (y[kk] + kk) % 100;
                }
                break;
            }
            case 11: { // insert with operands that live inside the map
                if(!y.count(k)) break;
                if constexpr(E<K>::copyable && E<V>::copyable) {
                    NOTE("m%lu.insert(new, m[%d])", w, k);
                    int nk = (int)s.draw(universe), val = y[k];
                    const V& in = x.get(E<K>::make(k));
                    V& out = x.insert(E<K>::make(nk), in);
                    CHECK(E<V>::val(out) == val, "inserting a copy of an own value stored %d, expected %d", E<V>::val(out), val);
                    y[nk] = val;
                }
                break;
            }
            case 12: { // erase by a key that lives inside the map
                if(y.empty()) break;
                auto it = x.begin();
                NOTE("m%lu.erase(first key)", w);
                int kk = E<K>::val(it->first);
                x.erase(it->first);
                y.erase(kk);
                break;
            }
            case 13: {
                U form = s.draw(2), cap = s.range(0, 70);
                NOTE("m%lu = construct form %lu (%lu)", w, form, cap);
                y.clear();
                if(form == 0) x = Map<K, V, A>{};
                else if(form == 1) x = Map<K, V, A>(cap);
                else {
                    int a = (int)s.draw(universe), b = (int)s.draw(universe);
                    x = Map<K, V, A>{Pair<K, V>{E<K>::make(a), E<V>::make(1)}, Pair<K, V>{E<K>::make(b), E<V>::make(2)},
                                     Pair<K, V>{E<K>::make(k), E<V>::make(3)}};
                    y[a] = 1, y[b] = 2, y[k] = 3;
                }
                break;
            }
            case 14: {
                NOTE("m%lu move-construct", w);
                Map<K, V, A> tmp{rpp::move(x)};
                full_check(x, {}, "moved-from map", universe);
                quick_check(tmp, y, "move-constructed map");
                full_check(tmp, y, "move-constructed map", universe);
                x = rpp::move(tmp);
                break;
            }
            }
            peak = std::max<U>(peak, y.size());
            quick_check(m[0], mm[0], "m0");
            quick_check(m[1], mm[1], "m1");
            if(n++ % every == 0) full_check(x, y, w ? "m1" : "m0", universe);
        }
        full_check(m[0], mm[0], "m0", universe);
        full_check(m[1], mm[1], "m1", universe);
        if(peak >= 6 && erased >= 2) pbt::nontrivial();
        if(peak > 24) pbt::label("grew past 24 entries");
        if(peak >= 6 && g_mode) pbt::label("chosen collisions");
    }
    c.settled("after destroying all maps");
}
PROP(map_custom_int, 100000, 3000000) {
    machine<HKey, int, TA<0>>(s, true);
}
PROP(map_custom_owning_value, 60000, 2000000) {
    machine<HKey, Tok, TA<0>>(s, true);
}
PROP(map_custom_owning, 60000, 2000000) {
    machine<TKey, Tok, TA<0>>(s, true);
}
PROP(map_custom_copyable, 60000, 2000000) {
    machine<CKey, Cpy, TA<0>>(s, true);
}
PROP(map_custom_mixed, 40000, 1000000) {
    machine<TKey, Cpy, Mdefault>(s, true);
}
PROP(map_custom_string, 40000, 1000000) {
    machine<HKey, String<TA<1>>, TA<0>>(s, true);
}
PROP(map_int, 40000, 1000000) {
    machine<i32, Big, TA<0>>(s, false);
}
PROP(map_byte_key, 30000, 500000) {
    machine<u8, Vec<Tok, TA<1>>, TA<0>>(s, false);
}
PROP(map_string_key, 30000, 500000) {
    machine<String<TA<2>>, i32, TA<0>>(s, false);
}

// String keys are found by any view with the same characters.
PROP(map_string_view, 30000, 1000000) {
    Case c;
    {
        Map<String<TA<1>>, i32, TA<0>> m;
        std::map<std::string, int> mm;
        U alpha = s.of<U>({1, 2, 25}), len = s.of<U>({2, 4, 40});
        auto str = [&]() {
            std::string r;
            U n = s.draw(len);
            for(U i = 0; i < n; i++) r += (char)('a' + s.draw(alpha));
            return r;
        };
        U left = s.limit(10, 40, 200);
        while(s.step(left)) {
            std::string k = str();
            // a view into a larger buffer: not terminated where the key ends
            std::string big = "<" + k + "suffix";
            String_View v{(const u8*)big.data() + 1, k.size()};
            int val = (int)s.draw(1000);
            switch(s.pick({4, 3, 2})) {
            case 0:
                NOTE("insert(%s, %d)", k.c_str(), val);
                m.insert(v.template string<TA<1>>(), (i32)val);
                mm[k] = val;
                break;
            case 1: {
                NOTE("lookup(%s)", k.c_str());
                auto r = m.try_get(v);
                CHECK(r.ok() == (mm.count(k) == 1), "try_get(view \"%s\") is %d", k.c_str(), (int)r.ok());
                CHECK(m.contains(v) == r.ok(), "contains(view) differs from try_get");
                if(r.ok()) {
                    CHECK(**r == mm[k], "view lookup found %d, expected %d", **r, mm[k]);
                    CHECK(m.get(v) == mm[k], "get(view) differs");
                    CHECK(&m.get(v) == &m.get(v.template string<TA<1>>()), "view and string lookup differ");
                }
                break;
            }
            case 2: {
                NOTE("erase(%s)", k.c_str());
                bool r = m.try_erase(v.template string<TA<1>>());
                CHECK(r == (mm.erase(k) == 1), "try_erase(\"%s\") is %d", k.c_str(), (int)r);
                break;
            }
            }
            CHECK(m.length() == mm.size(), "length %lu, expected %lu", m.length(), (U)mm.size());
        }
        if(mm.size() >= 3) pbt::nontrivial();
        for(auto& [k, v] : mm) {
            auto r = m.try_get(String_View{(const u8*)k.data(), k.size()});
            CHECK(r.ok() && **r == v, "key \"%s\" lost", k.c_str());
        }
    }
    c.settled("after destroying the map");
}

// Very large maps: growth over many doublings with realistic hashes.
PROP(map_large, 40, 1000) {
    Map<u64, u64, Mdefault> m;
    std::unordered_map<U, U> mm;
    U n = s.range(1000, 60000), stride = s.of<U>({1, 2, 64, 4096, 0x10001});
    U seed = s.draw(~0ull);
    bool seq = s.coin();
    NOTE("n=%lu stride=%lu", n, stride);
    for(U i = 0; i < n; i++) {
        U k = seq ? i * stride : pbt::mix(seed + i) % (2 * n);
        if(!seq && pbt::mix(seed ^ i) % 3 == 0) {
            CHECK(m.try_erase(k) == (mm.erase(k) == 1), "try_erase wrong");
        } else {
            m.insert(k, i);
            mm[k] = i;
        }
    }
    CHECK(m.length() == mm.size(), "length %lu, expected %lu", m.length(), (U)mm.size());
    for(auto& [k, v] : mm) {
        auto r = m.try_get(k);
        CHECK(r.ok() && **r == v, "key %lu lost or stale", k);
    }
    U cnt = 0;
    for(auto& kv : m) {
        auto it = mm.find(kv.first);
        CHECK(it != mm.end() && it->second == kv.second, "iteration yields a wrong entry");
        cnt++;
    }
    CHECK(cnt == mm.size(), "iteration yields %lu entries, expected %lu", cnt, (U)mm.size());
    pbt::nontrivial();
}

// Beyond 65,536 entries.
PROP_F(map_huge, 3, 24, pbt::ONE) {
    U n = s.of<U>({70000, 140000, 200000}) + s.draw(3000), odd = s.draw(1 << 20) * 2 + 1;
    NOTE("%lu entries", n);
    Map<u64, u32> m;
    for(U i = 0; i < n; i++) {
        m.insert(i * odd, (u32)i);
        if(i % 4096 == 0 || (i & (i + 1)) == 0) CHECK(m.length() == i + 1, "length %lu after %lu insertions", m.length(), i + 1);
    }
    auto all = [&](auto&& here) {
        U want = 0, seen = 0;
        for(U i = 0; i < n; i++) {
            auto r = m.try_get(i * odd);
            bool h = here(i);
            want += h;
            CHECK(r.ok() == h && (!h || **r == (u32)i), "entry %lu of %lu is lost, stale or back", i, n);
        }
        for(auto& kv : m) {
            CHECK(kv.first == kv.second * odd && here(kv.second), "iteration yields a wrong entry");
            seen++;
        }
        CHECK(m.length() == want && seen == want, "length %lu, iteration yields %lu, expected %lu", m.length(), seen, want);
    };
    all([](U) { return true; });
    for(U i = 0; i < n; i += 3) CHECK(m.try_erase(i * odd), "entry %lu cannot be erased", i);
    all([](U i) { return i % 3 != 0; });
    auto c = m.clone();
    m = rpp::move(c);
    for(U i = 0; i < n; i += 3) m.insert(i * odd, (u32)i);
    all([](U) { return true; });
    pbt::nontrivial();
}

// Long displacement chains and owning maps of thousands of entries, changed in bulk.
template<typename K, typename V>
static void bulk(Src& s, bool custom_hash, U maxlog) {
    Case c;
    {
        g_mode = custom_hash ? s.draw(9) : 0;
        bool chains = g_mode == 1 || g_mode == 2 || g_mode == 4 || g_mode == 7 || g_mode == 5; // quadratic: fewer entries
        U top = chains ? std::min<U>(maxlog, 9) : maxlog;
        Map<K, V, TA<0>> m, o;
        M mm;
        U peak = 0, erased = 0, ops = s.range(2, 9);
        int next = 0;
        U span = s.of<U>({29000, 600, 100});
        auto key = [&](U i) { return (int)((i * 13) % span); };
        for(U q = 0; q < ops; q++) {
            U n = big_size(s, top), op = s.pick({6, 4, 2, 2, 1, 1, 2, 3});
            NOTE("mode %lu, map of %lu: bulk operation %lu with %lu", g_mode, (U)mm.size(), op, n);
            if(mm.size() + n > ((U)2 << top)) op = 1;
            switch(op) {
            case 0:
                for(U i = 0; i < n; i++) {
                    int k = key((U)next), v = next % 30000;
                    next++;
                    V& r = (i & 1) ? m.emplace(E<K>::make(k), E<V>::make(v)) : m.insert(E<K>::make(k), E<V>::make(v));
                    CHECK(E<V>::val(r) == v, "insert(%d) returned a reference to %d, expected %d", k, E<V>::val(r), v);
                    mm[k] = v;
                }
                break;
            case 1: {
                U from = s.draw((U)next);
                for(U i = 0; i < n; i++) {
                    int k = key(from + i);
                    U had = mm.erase(k);
                    CHECK(m.try_erase(E<K>::make(k)) == (had == 1), "try_erase(%d) is not %lu", k, had);
                    erased += had;
                }
                break;
            }
            case 2:
                m.reserve(n);
                break;
            case 3:
                o = m.clone();
                full_check(m, mm, "cloned map", span);
                m = rpp::move(o);
                break;
            case 4:
                o = rpp::move(m);
                full_check(m, {}, "moved-from map", span);
                m = rpp::move(o);
                break;
            case 5:
                m.clear();
                mm.clear();
                break;
            case 6: // erase all but every third entry
                for(auto it = mm.begin(); it != mm.end();) {
                    if(it->first % 3) {
                        CHECK(m.try_erase(E<K>::make(it->first)), "key %d is not found", it->first);
                        it = mm.erase(it);
                        erased++;
                    } else ++it;
                }
                break;
            case 7: // a sliding window of keys: the oldest leaves as a new one enters
                for(U i = 0; i < n && next > (int)mm.size(); i++) {
                    int old = key((U)next - mm.size()), k = key((U)next), v = next % 30000;
                    next++;
                    U had = mm.erase(old);
                    CHECK(m.try_erase(E<K>::make(old)) == (had == 1), "try_erase(%d) is not %lu", old, had);
                    erased += had;
                    m.insert(E<K>::make(k), E<V>::make(v));
                    mm[k] = v;
                    auto got = m.try_get(E<K>::make(k));
                    CHECK(got.ok() && E<V>::val(**got) == v, "key %d is not found", k);
                }
                break;
            }
            peak = std::max<U>(peak, mm.size());
            quick_check(m, mm, "map");
            full_check(m, mm, "map", span);
        }
        if(peak > 100 && erased > 20) pbt::nontrivial();
        if(peak > 256 && chains) pbt::label("chains of more than 256 entries");
        if(peak > 1024) pbt::label("more than 1024 entries");
    }
    c.settled("after destroying all maps");
}
PROP(bulk_custom_int, 2400, 48000) {
    bulk<HKey, int>(s, true, 12);
}
PROP(bulk_custom_owning, 1200, 24000) {
    bulk<TKey, Tok>(s, true, 11);
}
PROP(bulk_copyable, 900, 18000) {
    bulk<CKey, Cpy>(s, true, 11);
}
PROP(bulk_string_key, 900, 18000) {
    bulk<String<TA<2>>, i32>(s, false, 12);
}
