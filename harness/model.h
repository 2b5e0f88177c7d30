// Element types with an ownership ledger, tracking allocators, and value adapters for container models.
#pragma once
#include "pbt.h"

#include <rpp/base.h>
#include <rpp/heap.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>

namespace t {

using namespace rpp;
using pbt::Src;
using pbt::U;

// ---- ledger of owned resources -------------------------------------------------------------------
struct Ledger {
    std::vector<unsigned char> st{0}; // 1 live, 2 released
    int64_t live = 0;
    void reset() {
        st.assign(1, 0);
        live = 0;
    }
    U acquire() {
        st.push_back(1);
        live++;
        return st.size() - 1;
    }
    void release(U id) {
        CHECK(id < st.size(), "released a resource that never existed (id %lu): memory corruption", (unsigned long)id);
        CHECK(st[id] == 1, "resource %lu released twice", (unsigned long)id);
        st[id] = 2;
        live--;
    }
    void use(U id) {
        CHECK(id < st.size() && st[id] == 1, "resource %lu used after it was released", (unsigned long)id);
    }
};
inline Ledger L;

// Move-only apart from clone(); knows its own address; owns one ledger entry unless moved from.
struct Tok {
    U id = 0;
    int val = 0;
    const Tok* self = nullptr;
    Tok() noexcept : id(L.acquire()), val(0), self(this) {
    }
    explicit Tok(int v) noexcept : id(L.acquire()), val(v), self(this) {
    }
    Tok(const Tok&) = delete;
    Tok& operator=(const Tok&) = delete;
    Tok(Tok&& o) noexcept : id(o.id), val(o.val), self(this) {
        o.check();
        o.id = 0;
        o.val = -999;
    }
    Tok& operator=(Tok&& o) noexcept {
        check();
        o.check();
        if(this == &o) return *this;
        if(id) L.release(id);
        id = o.id;
        val = o.val;
        o.id = 0;
        o.val = -999;
        return *this;
    }
    ~Tok() noexcept {
        check();
        if(id) L.release(id);
        id = 0;
        val = -998;
    }
    Tok clone() const noexcept {
        check();
        CHECK(id, "cloned a moved-from element");
        return Tok{val};
    }
    void check() const {
        CHECK(self == this, "element was relocated bytewise or is not a live object (val %d)", val);
        if(id) L.use(id);
    }
    int get() const {
        check();
        CHECK(id, "element observed in moved-from state");
        return val;
    }
    bool operator==(const Tok& o) const noexcept {
        return get() == o.get();
    }
    bool operator<(const Tok& o) const noexcept {
        return get() < o.get();
    }
};

// Copyable (not clonable), otherwise as Tok.
struct Cpy {
    U id = 0;
    int val = 0;
    const Cpy* self = nullptr;
    Cpy() noexcept : id(L.acquire()), self(this) {
    }
    explicit Cpy(int v) noexcept : id(L.acquire()), val(v), self(this) {
    }
    Cpy(const Cpy& o) noexcept : id(L.acquire()), val(o.get()), self(this) {
    }
    Cpy& operator=(const Cpy& o) noexcept {
        check();
        val = o.get();
        if(!id) id = L.acquire();
        return *this;
    }
    Cpy(Cpy&& o) noexcept : id(o.id), val(o.val), self(this) {
        o.check();
        o.id = 0;
        o.val = -999;
    }
    Cpy& operator=(Cpy&& o) noexcept {
        check();
        o.check();
        if(this == &o) return *this;
        if(id) L.release(id);
        id = o.id;
        val = o.val;
        o.id = 0;
        o.val = -999;
        return *this;
    }
    ~Cpy() noexcept {
        check();
        if(id) L.release(id);
        id = 0;
    }
    void check() const {
        CHECK(self == this, "element was relocated bytewise or is not a live object (val %d)", val);
        if(id) L.use(id);
    }
    int get() const {
        check();
        CHECK(id, "element observed in moved-from state");
        return val;
    }
    bool operator==(const Cpy& o) const noexcept {
        return get() == o.get();
    }
    bool operator<(const Cpy& o) const noexcept {
        return get() < o.get();
    }
};

struct Big { // trivially copyable, 40 bytes
    int val = 0;
    int pad[9] = {};
    bool operator==(const Big& o) const noexcept {
        return val == o.val;
    }
    bool operator<(const Big& o) const noexcept {
        return val < o.val;
    }
};

struct Tri { // 3 bytes, trivially copyable
    unsigned char a = 0, b = 0, c = 0;
    bool operator==(const Tri& o) const noexcept {
        return a == o.a && b == o.b && c == o.c;
    }
    bool operator<(const Tri& o) const noexcept {
        return a != o.a ? a < o.a : b != o.b ? b < o.b : c < o.c;
    }
};

struct Odd { // 133 bytes, trivially copyable; every byte depends on the value
    unsigned char b[133] = {};
    bool operator==(const Odd& o) const noexcept {
        return memcmp(b, o.b, sizeof b) == 0;
    }
    bool operator<(const Odd& o) const noexcept {
        return memcmp(b, o.b, sizeof b) < 0;
    }
};

// ---- tracking allocators ---------------------------------------------------------------------------
struct Heap_Log {
    std::unordered_map<void*, u64> live;
    u64 allocs = 0, frees = 0;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
};
template<int K>
inline Heap_Log heap_log;

template<int K = 0>
struct TA {
    constexpr static Literal name = "Tracked";
    static void* alloc(u64 size) noexcept {
        if(!size) return nullptr;
        void* p = ::malloc(size);
        memset(p, 0xbe, size);
        auto& h = heap_log<K>;
        pthread_mutex_lock(&h.m);
        h.live[p] = size;
        h.allocs++;
        pthread_mutex_unlock(&h.m);
        return p;
    }
    static void free(void* p) noexcept {
        if(!p) return;
        auto& h = heap_log<K>;
        pthread_mutex_lock(&h.m);
        auto it = h.live.find(p);
        CHECK(it != h.live.end(), "block %p freed twice or to an allocator it did not come from", p);
        memset(p, 0xdd, it->second);
        h.live.erase(it);
        h.frees++;
        pthread_mutex_unlock(&h.m);
        ::free(p);
    }
    static u64 live() {
        return heap_log<K>.live.size();
    }
};

// Put one at the top of every case; declare containers after it (or in an inner scope).
struct Case {
    Case() {
        L.reset();
        reset<0>();
        reset<1>();
        reset<2>();
    }
    template<int K>
    static void reset() {
        for(auto& [p, n] : heap_log<K>.live) ::free(p);
        heap_log<K>.live.clear();
        heap_log<K>.allocs = heap_log<K>.frees = 0;
    }
    // Call after every owner is gone.
    void settled(const char* what) {
        CHECK(L.live == 0, "%s: %ld owned resources never released", what, (long)L.live);
        CHECK(TA<0>::live() == 0 && TA<1>::live() == 0 && TA<2>::live() == 0,
              "%s: %lu allocator blocks never returned", what,
              (unsigned long)(TA<0>::live() + TA<1>::live() + TA<2>::live()));
    }
};

// Sizes up to 2^(maxlog+1), often at or next to a power of two: thresholds that short histories never reach.
inline U big_size(Src& s, U maxlog) {
    U b = (U)1 << s.range(5, maxlog);
    switch(s.pick({2, 2, 2, 3})) {
    case 0: return b;
    case 1: return b - 1;
    case 2: return b + 1;
    default: return b + s.draw(b);
    }
}

// ---- element adapters --------------------------------------------------------------------------------
template<typename T>
struct E;

template<typename T>
    requires std::is_integral_v<T>
struct E<T> {
    static constexpr const char* name = "integer";
    static constexpr bool owns = false, copyable = true, clonable = true, eq = true;
    static constexpr int max = sizeof(T) == 1 ? 100 : 30000;
    static T make(int v) {
        return (T)v;
    }
    static int val(const T& x) {
        return (int)x;
    }
};
template<>
struct E<Big> {
    static constexpr const char* name = "40-byte struct";
    static constexpr bool owns = false, copyable = true, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Big make(int v) {
        Big b;
        b.val = v;
        for(int i = 0; i < 9; i++) b.pad[i] = v * 31 + i;
        return b;
    }
    static int val(const Big& b) {
        for(int i = 0; i < 9; i++)
            CHECK(b.val == 0 || b.pad[i] == b.val * 31 + i, "element bytes corrupted");
        return b.val;
    }
};
template<>
struct E<Tri> {
    static constexpr const char* name = "3-byte struct";
    static constexpr bool owns = false, copyable = true, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Tri make(int v) {
        return Tri{(unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v};
    }
    static int val(const Tri& b) {
        return b.a << 16 | b.b << 8 | b.c;
    }
};
template<>
struct E<Odd> {
    static constexpr const char* name = "133-byte struct";
    static constexpr bool owns = false, copyable = true, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Odd make(int v) {
        Odd o;
        o.b[0] = (unsigned char)(v >> 8), o.b[1] = (unsigned char)v;
        for(int i = 2; i < 133; i++) o.b[i] = (unsigned char)(v * (i | 1));
        return o;
    }
    static int val(const Odd& o) {
        int v = o.b[0] << 8 | o.b[1];
        for(int i = 2; i < 133; i++) CHECK(o.b[i] == (unsigned char)(v * (i | 1)), "byte %d of a 133-byte element changed", i);
        return v;
    }
};
template<>
struct E<Tok> {
    static constexpr const char* name = "owning move-only";
    static constexpr bool owns = true, copyable = false, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Tok make(int v) {
        return Tok{v};
    }
    static int val(const Tok& x) {
        return x.get();
    }
};
template<>
struct E<Cpy> {
    static constexpr const char* name = "owning copyable";
    static constexpr bool owns = true, copyable = true, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Cpy make(int v) {
        return Cpy{v};
    }
    static int val(const Cpy& x) {
        return x.get();
    }
};
inline int str_val(const char* p, u64 n) {
    int v = 0;
    for(u64 i = 0; i < n; i++) {
        if(p[i] == '.') break;
        CHECK(p[i] >= '0' && p[i] <= '9', "string element corrupted");
        v = v * 10 + (p[i] - '0');
    }
    CHECK(n == 0 || n == std::to_string(v).size() + 1 + (u64)(v % 37), "string element has wrong length");
    return v;
}
inline std::string str_of(int v) {
    return std::to_string(v) + "." + std::string((size_t)(v % 37), 'x');
}
template<int K>
struct E<String<TA<K>>> {
    static constexpr const char* name = "string";
    static constexpr bool owns = false, copyable = false, clonable = true, eq = true;
    static constexpr int max = 30000;
    static String<TA<K>> make(int v) {
        std::string s = str_of(v);
        return String_View{(const u8*)s.data(), s.size()}.template string<TA<K>>();
    }
    static int val(const String<TA<K>>& x) {
        return str_val((const char*)x.data(), x.length());
    }
};
template<int K>
struct E<Vec<Tok, TA<K>>> { // owns v%4+1 tokens; value in the first
    static constexpr const char* name = "vector of owning";
    static constexpr bool owns = false, copyable = false, clonable = true, eq = false;
    static constexpr int max = 30000;
    static Vec<Tok, TA<K>> make(int v) {
        Vec<Tok, TA<K>> r;
        for(int i = 0; i <= v % 4; i++) r.push(Tok{v + i});
        return r;
    }
    static int val(const Vec<Tok, TA<K>>& x) {
        if(x.empty()) return 0;
        int v = x[0].get();
        CHECK(x.length() == (u64)(v % 4) + 1, "nested vector has wrong length");
        for(u64 i = 0; i < x.length(); i++) CHECK(x[i].get() == v + (int)i, "nested vector corrupted");
        return v;
    }
};

inline std::string show(const std::vector<int>& m) {
    std::string r = "[";
    for(size_t i = 0; i < m.size() && i < 40; i++) r += (i ? "," : "") + std::to_string(m[i]);
    if(m.size() > 40) r += ",... (" + std::to_string(m.size()) + ")";
    return r + "]";
}

} // namespace t
