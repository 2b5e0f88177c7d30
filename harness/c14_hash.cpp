// C14: equal values hash equally, and the hash uses the whole value.
#include "model.h"
#include <rpp/vmath.h>
using namespace t;
using std::string;
using rpp::hash;
using rpp::hash_nonzero;

struct Rec { // a user type with its own specialisation
    i32 a;
    u8 b;
};
namespace rpp::Hash {
template<>
struct Hash<Rec> {
    static u64 hash(const Rec& k) noexcept {
        return rpp::hash(k.a, k.b);
    }
};
} // namespace rpp::Hash

static String_View view(const string& s) {
    return String_View{(const u8*)s.data(), s.size()};
}

template<typename T>
static void same(const T& a, const T& b, const char* what) {
    u64 h = hash(a);
    CHECK(hash(b) == h, "%s: equal values hash to %lx and %lx", what, h, hash(b));
    T c = a;
    CHECK(hash(c) == h && hash(a) == h && hash(rpp::move(c)) == h, "%s: hashing the same value again gives another hash", what);
    u64 z = hash_nonzero(a);
    CHECK(z != 0, "%s: hash_nonzero is zero", what);
    CHECK(hash_nonzero(b) == z, "%s: equal values have different nonzero hashes", what);
    CHECK(hash(a, b) == hash(b, a) && hash(a, a) == hash(b, b), "%s: equal groups of values hash differently", what);
}
template<typename T>
static void differ(const T& a, const T& b, const char* what) {
    CHECK(hash(a) != hash(b), "%s: different values share the hash %lx", what, hash(a));
    CHECK(hash(a, 5) != hash(b, 5) && hash(5, a) != hash(5, b) && hash("x"_v, a, 'c') != hash("x"_v, b, 'c'), "%s: groups with different values share a hash", what);
}

template<typename T>
static T draw_int(Src& s) {
    return (T)s.bits(8 * sizeof(T));
}
template<typename T>
static void ints(Src& s, const char* what) {
    T a = draw_int<T>(s), b;
    switch(s.pick({3, 3, 2, 2})) {
    case 0: b = (T)((u64)a ^ (1ull << s.draw(8 * sizeof(T) - 1))); break;
    case 1: b = (T)((u64)a + 1 + s.draw(9)); break;
    case 2: b = (T)(0 - (u64)a); break;
    default: b = draw_int<T>(s); break;
    }
    NOTE("%s %s and %s", what, std::to_string(a).c_str(), std::to_string(b).c_str());
    T copy = a;
    same(a, copy, what);
    CHECK(hash_nonzero(a) != 0 && hash_nonzero(b) != 0, "%s: hash_nonzero is zero", what);
    if(a != b) differ(a, b, what), pbt::nontrivial();
}
PROP(integers, 400000, 10000000) {
    switch(s.draw(8)) {
    case 0: return ints<u64>(s, "u64");
    case 1: return ints<i64>(s, "i64");
    case 2: return ints<u32>(s, "u32");
    case 3: return ints<i32>(s, "i32");
    case 4: return ints<u16>(s, "u16");
    case 5: return ints<i16>(s, "i16");
    case 6: return ints<u8>(s, "u8");
    case 7: return ints<i8>(s, "i8");
    case 8: return ints<char>(s, "char");
    }
}

// No collisions and an even spread over whole runs of keys.
PROP(runs_of_integers, 60, 800) {
    U start = s.bits(64), stride = s.coin() ? 1ull << s.draw(46) : s.bits(64) | 1, n = 1 << 17;
    if(s.chance(1, 4)) start &= 0xffff;
    NOTE("%lu keys from %lx with stride %lx", n, start, stride);
    std::vector<u64> h(n);
    std::vector<U> lo(256), hi(256), mid(256);
    bool small = s.coin();
    for(U i = 0; i < n; i++) {
        u64 k = start + i * stride;
        h[i] = small ? hash((u32)i + (u32)start) : hash(k);
        lo[h[i] & 255]++;
        mid[(h[i] >> 28) & 255]++;
        hi[h[i] >> 56]++;
    }
    std::sort(h.begin(), h.end());
    for(U i = 1; i < n; i++) CHECK(h[i] != h[i - 1], "two different integers share the hash %lx", h[i]);
    for(auto* b : {&lo, &mid, &hi})
        for(U x : *b) CHECK(x > n / 256 / 2 && x < n / 256 * 2, "one of 256 buckets receives %lu of %lu consecutive keys", x, n);
    pbt::nontrivial();
}

template<typename F, typename B>
static void floats(Src& s, const char* what) {
    B x = (B)s.bits(8 * sizeof(B)), y;
    F a, b;
    memcpy(&a, &x, sizeof(F));
    if(s.chance(1, 6)) a = s.coin() ? (F)0.0 : (F)-0.0;
    switch(s.pick({3, 2, 2, 1})) {
    case 0:
        y = x ^ (B)((B)1 << s.draw(8 * sizeof(B) - 1));
        memcpy(&b, &y, sizeof(F));
        break;
    case 1: b = -a; break;
    case 2: b = a + (F)1; break;
    default: b = (F)(i64)s.bits(32); break;
    }
    NOTE("%s %a and %a", what, (double)a, (double)b);
    if(a == b) {
        same(a, b, what);
        pbt::nontrivial();
    } else if(a == a && b == b) {
        differ(a, b, what);
        pbt::nontrivial();
    }
    CHECK(hash(a) == hash(a), "%s hash is not repeatable", what);
}
PROP(floats, 300000, 8000000) {
    s.coin() ? floats<f64, u64>(s, "f64") : floats<f32, u32>(s, "f32");
}
PROP(signed_zeros, 100, 1000) {
    same(0.0f, -0.0f, "f32 zeros");
    same(0.0, -0.0, "f64 zeros");
    using namespace rpp::Math;
    Vec3 a{0.0f, 1.0f, -0.0f}, b{-0.0f, 1.0f, 0.0f};
    same(a, b, "Vec3 zeros");
    Map<f32, i32> m;
    m.insert(0.0f, 1);
    m.insert(-0.0f, 2);
    CHECK(m.length() == 1 && m.get(0.0f) == 2, "a map holds zero and negative zero apart");
    pbt::nontrivial();
    (void)s;
}

PROP(pointers, 100000, 3000000) {
    static char block[1 << 16];
    U i = s.draw(sizeof(block) - 1), j = s.draw(sizeof(block) - 1);
    if(s.coin()) j = i + 1 < sizeof(block) ? i + 1 : 0;
    char *a = block + i, *b = block + j;
    NOTE("pointers %lu and %lu bytes into a block", i, j);
    same(a, block + i, "pointer");
    CHECK(hash((void*)a) == hash((const char*)a) && hash((const i32*)nullptr) == hash((void*)nullptr), "the hash of an address depends on the pointer type");
    if(i != j) differ(a, b, "pointer"), pbt::nontrivial();
}

template<typename A>
static u64 hs(const string& x) {
    auto v = view(x).template string<A>();
    return hash(v);
}
static void check_string(const string& x, u64 h) {
    string shifted = " " + x; // same bytes at another alignment
    CHECK(hash(view(x)) == h && hash(view(shifted).sub(1, shifted.size())) == h, "equal views hash differently");
    CHECK(hs<TA<0>>(x) == h && hs<Mdefault>(x) == h, "a string does not hash like its view");
    Region(R) CHECK(hs<Mregion<R>>(x) == h, "a string does not hash like its view");
    const auto str = view(x).string<TA<1>>();
    auto moved = str.clone();
    CHECK(hash(str) == h && hash(rpp::move(moved)) == h && hash(str.view()) == h, "a string does not hash like its view");
    CHECK(hash_nonzero(view(x)) != 0 && hash_nonzero(view(x)) == hash_nonzero(str), "the nonzero hash of a string and its view differ");
}
PROP(strings, 200000, 5000000) {
    Case c;
    {
        string a;
        switch(s.pick({8, 4, 1})) {
        case 0: a = s.bytes(s.coin() ? 6 : 60); break;
        case 1: a = s.of<string>({"", "key", "rpp/hash.h", "aaaaaaaa", string("\0", 1), string("a\0b", 3)}); break;
        default: { // long ones, up to several blocks of any fast path
            U n = s.draw(s.of<U>({300, 1100, 5000})), key = s.draw(3);
            a.resize(n, 'q');
            for(U i = 0; key && i < n; i++) a[i] = (char)(pbt::mix(key + i) >> 7);
        }
        }
        string b = a;
        U k = s.pick({3, 2, 2, 2, 2, 1});
        U at = b.empty() ? 0 : s.draw(b.size() - 1);
        switch(k) {
        case 0:
            if(!b.empty()) b[at] = (char)(b[at] ^ (1 << s.draw(7)));
            break;
        case 1: b += s.coin() ? '\0' : (char)s.draw(255); break;
        case 2:
            if(!b.empty()) b.erase(at, 1);
            break;
        case 3:
            if(b.size() > 1) std::swap(b[at], b[at ? at - 1 : 1]);
            break;
        case 4:
            if(b.size() > 1) std::rotate(b.begin(), b.begin() + (i64)at, b.end());
            break;
        default: b = s.bytes(8); break;
        }
        NOTE("strings of %lu and %lu bytes, edit %lu at %lu", a.size(), b.size(), k, at);
        u64 h = hash(view(a));
        check_string(a, h);
        if(a != b) {
            CHECK(hash(view(b)) != h, "two different strings share the hash %lx", h);
            check_string(b, hash(view(b)));
            pbt::nontrivial();
        }
    }
    c.settled("after hashing strings");
}
PROP(runs_of_strings, 40, 500) {
    U n = 1 << 15, from = s.draw(1 << 20);
    string pre = s.bytes(6), post = s.bytes(6);
    NOTE("%lu numbered strings from %lu between %lu and %lu bytes", n, from, pre.size(), post.size());
    std::vector<u64> h;
    std::vector<U> lo(128), hi(128);
    for(U i = 0; i < n; i++) {
        string x = pre + std::to_string(from + i) + post;
        h.push_back(hash(view(x)));
        lo[h.back() & 127]++;
        hi[h.back() >> 57]++;
    }
    std::sort(h.begin(), h.end());
    for(U i = 1; i < n; i++) CHECK(h[i] != h[i - 1], "two numbered strings share the hash %lx", h[i]);
    for(U i = 0; i < 128; i++) CHECK(std::min(lo[i], hi[i]) > n / 256 && std::max(lo[i], hi[i]) < n / 64, "one of 128 buckets receives %lu/%lu of %lu strings", lo[i], hi[i], n);
    pbt::nontrivial();
}

static constexpr u8 T_a[] = {'a'}, T_hello[] = {'h', 'e', 'l', 'l', 'o', ' ', 'w', 'o', 'r', 'l', 'd'}, T_hi[] = {0xff, 0x80}, T_ab[] = {'a', 'b'};
// Values hashed by the compiler and by the program agree.
constexpr u64 C_int[] = {hash(0), hash(1u), hash((u8)255), hash((i8)-1), hash((i64)-5), hash((u64)0x123456789abcdef), hash('x'), hash((u16)65535), hash((i32)-2147483647)};
constexpr u64 C_view[] = {hash(String_View{T_a, 0}), hash(String_View{T_a, 1}), hash(String_View{T_hello, 11}), hash(String_View{T_hi, 2})};
constexpr u64 C_many[] = {hash(1, 2, 3), hash((u8)9, 'c'), hash(String_View{T_ab, 2}, 7u)};
constexpr u64 C_nz[] = {hash_nonzero(0), hash_nonzero(12345), hash_nonzero(String_View{T_a, 0})};
constexpr u64 C_lit[] = {hash_literal(""), hash_literal("a"), hash_literal("b"), hash_literal("ab"), hash_literal("ba"), hash_literal("abc"), hash_literal("abd"), hash_literal("a", 1), hash_literal("a", 2), hash_literal("", 7)};
PROP(compile_time, 1000, 20000) {
    volatile U noise = s.draw(100);
    auto v = [&](auto x) { return (decltype(x))(x + (decltype(x))(noise - noise)); };
    u64 r[] = {hash(v(0)), hash(v(1u)), hash(v((u8)255)), hash(v((i8)-1)), hash(v((i64)-5)), hash(v((u64)0x123456789abcdef)), hash(v('x')), hash(v((u16)65535)), hash(v((i32)-2147483647))};
    for(U i = 0; i < 9; i++) CHECK(r[i] == C_int[i], "integer %lu hashes differently at compile time and at run time", i);
    string w[] = {"", "a", "hello world", "\xff\x80"};
    for(U i = 0; i < 4; i++) CHECK(hash(view(w[i])) == C_view[i], "text %lu hashes differently at compile time and at run time", i);
    string ab = "ab";
    CHECK(hash(v(1), v(2), v(3)) == C_many[0] && hash(v((u8)9), v('c')) == C_many[1] && hash(view(ab), v(7u)) == C_many[2], "a group hashes differently at compile time and at run time");
    CHECK(hash_nonzero(v(0)) == C_nz[0] && hash_nonzero(v(12345)) == C_nz[1] && hash_nonzero(view(w[0])) == C_nz[2], "hash_nonzero differs at compile time and at run time");
    for(U i = 0; i < 3; i++) CHECK(C_nz[i] != 0, "hash_nonzero is zero");
    for(U i = 0; i < 10; i++) {
        CHECK(C_lit[i] != 0, "hash_literal is zero");
        for(U j = 0; j < i; j++) CHECK(C_lit[i] != C_lit[j], "literals %lu and %lu share a hash", i, j);
    }
    CHECK(hash_literal("ab") == C_lit[3], "a literal's hash is not repeatable");
    pbt::nontrivial();
}

template<typename T, U N>
static void vects(Src& s, const char* what) {
    using V = rpp::Math::Vect<T, N>;
    V a, b;
    auto one = [&]() -> T {
        if constexpr(std::is_floating_point_v<T>) return (T)((i64)s.draw(40) - 20) / 4;
        else return (T)s.bits(6);
    };
    for(U i = 0; i < N; i++) a[i] = one(), b[i] = a[i];
    V same_as = a;
    same(a, same_as, what);
    U i = s.draw(N - 1), j = s.draw(N - 1);
    bool swap = s.coin();
    if(swap) std::swap(b[i], b[j]);
    else b[i] = b[i] + (T)(1 + s.draw(3));
    NOTE("%s: %s component %lu (and %lu)", what, swap ? "swapping" : "changing", i, j);
    bool eq = true;
    for(U k = 0; k < N; k++) eq = eq && a[k] == b[k];
    if(!eq) differ(a, b, what), pbt::nontrivial();
    else same(a, b, what);
}
PROP(vectors, 200000, 4000000) {
    switch(s.draw(7)) {
    case 0: return vects<f32, 2>(s, "Vec2");
    case 1: return vects<f32, 3>(s, "Vec3");
    case 2: return vects<f32, 4>(s, "Vec4");
    case 3: return vects<f32, 7>(s, "VecN<7>");
    case 4: return vects<i32, 3>(s, "Vec3i");
    case 5: return vects<i32, 4>(s, "Vec4i");
    case 6: return vects<u32, 2>(s, "Vec2u");
    case 7: return vects<u32, 5>(s, "VecNu<5>");
    }
}

PROP(groups_and_records, 200000, 4000000) {
    i32 a = (i32)s.bits(32);
    u8 b = (u8)s.bits(8);
    string f = s.bytes(8), g = s.bytes(8);
    Log::Location l{view(f), view(g), s.bits(16)}, m = l;
    Rec k{a, b}, k2{a, b};
    CHECK(hash(k) == hash(k2) && hash(k) == hash(a, b) && hash_nonzero(k) != 0, "a user's specialisation is not used");
    k2.b ^= (u8)(1 << s.draw(7));
    CHECK(hash(k) != hash(k2), "records differing in one member share a hash");
    string f2 = f, g2 = g;
    m.function = view(f2), m.file = view(g2);
    CHECK(l == m && hash(l) == hash(m), "equal locations hash differently");
    switch(s.draw(2)) {
    case 0: m.line += 1 + s.draw(3); break;
    case 1:
        f2 += 'x';
        m.function = view(f2);
        break;
    case 2:
        g2 += 'x';
        m.file = view(g2);
        break;
    }
    CHECK(hash(l) != hash(m), "locations differing in one member share a hash");
    CHECK(hash(l, a, view(f)) == hash(l, a, view(f)) && hash(l, a, b) != hash(m, a, b), "groups differing in one member share a hash");
    pbt::nontrivial();
}
