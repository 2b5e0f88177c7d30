// C20: random streams are deterministic, in range, complete and unbiased.
#include "model.h"
#include <rpp/rng.h>
using namespace t;
using RNG::Stream;

PROP(determinism, 60000, 2000000) {
    U seed = s.bits(64), other = s.coin() ? seed ^ (1ull << s.draw(63)) : seed + 1 + s.draw(7), n = 1 + s.draw(200), at = s.draw(n);
    NOTE("seeds %lx and %lx, %lu samples, copied after %lu", seed, other, n, at);
    Stream a{seed}, b{seed}, c{1}, d{other};
    c.seed(seed);
    std::vector<u64> seq;
    for(U i = 0; i < n; i++) seq.push_back(a());
    U same = 0;
    for(U i = 0; i < at; i++) CHECK(b() == seq[i], "sample %lu of equal seeds differs", i);
    Stream copy = b;
    for(U i = at; i < n; i++) {
        CHECK(b() == seq[i], "sample %lu of equal seeds differs", i);
        CHECK(copy() == seq[i], "sample %lu of a copied stream differs", i);
    }
    for(U i = 0; i < n; i++) {
        CHECK(c() == seq[i], "sample %lu after seed() differs", i);
        same += d() == seq[i];
    }
    CHECK(same == 0, "different seeds agree in %lu of %lu samples", same, n);
    std::sort(seq.begin(), seq.end());
    for(U i = 1; i < n; i++) CHECK(seq[i] != seq[i - 1], "a stream repeats itself within %lu samples", n);
    pbt::nontrivial();
}
constexpr std::array<u64, 6> at_compile_time() {
    Stream r{42};
    std::array<u64, 6> x{};
    x[0] = r();
    x[1] = r.range<u32>(3, 1000);
    x[2] = (u64)r.range<i32>(-7, 9);
    x[3] = r.integer<u16>();
    x[4] = (u64)(r.unit<f64>() * 1e9);
    x[5] = (u64)(r.unit<f32>() * 1e6f);
    return x;
}
PROP(compile_time, 10, 100) {
    constexpr auto c = at_compile_time();
    volatile U seed = 42 + s.draw(0);
    Stream r{seed};
    bool ok = c[0] == r() && c[1] == r.range<u32>(3, 1000) && c[2] == (u64)r.range<i32>(-7, 9) && c[3] == r.integer<u16>() && c[4] == (u64)(r.unit<f64>() * 1e9) && c[5] == (u64)(r.unit<f32>() * 1e6f);
    CHECK(ok, "a stream gives other samples at compile time");
    pbt::nontrivial();
}
PROP(unseeded, 200, 5000) {
    // Seeded from the clock and the thread: in range, advancing.
    Stream a;
    a.seed();
    u64 x = a(), y = a();
    CHECK(x != y, "an unseeded stream stands still");
    f32 u = a.unit<f32>();
    CHECK(u >= 0 && u < 1, "unit sample %g", (double)u);
    pbt::nontrivial();
}

// No bucket of an even distribution with mean m strays this far (8 sigma and a margin)
static void even(const std::vector<U>& n, double mean, const char* what) {
    for(U i = 0; i < n.size(); i++) {
        double d = std::fabs((double)n[i] - mean), lim = 8 * std::sqrt(mean) + 12;
        CHECK(d <= lim, "%s: value %lu of %lu appears %lu times, about %.0f expected", what, i, n.size(), n[i], mean);
    }
}
template<typename F>
static void unit(Src& s, int res) {
    U seed = s.bits(64), n = 20000, k = s.range(2, 100);
    NOTE("f%d unit samples of seed %lx in %lu buckets", (int)sizeof(F) * 8, seed, k);
    Stream r{seed};
    std::vector<U> b(k), bit(res);
    double sum = 0;
    for(U i = 0; i < n; i++) {
        F v = r.unit<F>();
        CHECK(v >= 0 && v < 1, "unit sample %g is outside [0,1)", (double)v);
        b[std::min((U)(v * (F)k), k - 1)]++;
        sum += (double)v;
        double x = (double)v; // binary digits
        for(int j = 0; j < res; j++) {
            x *= 2;
            if(x >= 1) bit[j]++, x -= 1;
        }
    }
    even(b, (double)n / (double)k, "unit");
    even(bit, (double)n / 2, "binary digits of unit samples");
    CHECK(std::fabs(sum / (double)n - 0.5) < 0.03, "the mean of %lu unit samples is %f", n, sum / (double)n);
    pbt::nontrivial();
}
PROP(unit_samples, 800, 20000) {
    s.coin() ? unit<f32>(s, 24) : unit<f64>(s, 53);
}
PROP(coin_flips, 1000, 20000) {
    U seed = s.bits(64), n = 10000;
    double p = s.of<double>({0, 1, 0.5, 0.1, 0.9, 0.001, -1, 2}), w = (double)s.draw(1000) / 1000;
    if(s.coin()) p = w;
    NOTE("%lu flips with probability %g of seed %lx", n, p, seed);
    Stream r{seed};
    U a = 0, b = 0;
    for(U i = 0; i < n; i++) a += r.coin_flip((f32)p), b += r.coin_flip(p);
    double q = std::min(1.0, std::max(0.0, p));
    for(U x : {a, b}) {
        if(p <= 0) CHECK(x == 0, "a coin of probability %g came up %lu times", p, x);
        else if(p >= 1) CHECK(x == n, "a coin of probability %g came up %lu of %lu times", p, x, n);
        else CHECK(std::fabs((double)x - q * (double)n) <= 8 * std::sqrt((double)n * q * (1 - q)) + 12, "a coin of probability %g came up %lu of %lu times", p, x, n);
    }
    pbt::nontrivial();
}

// Over four full periods of its resolution a stream of float samples comes to both ends of [0,1).
PROP(unit_ends, 6, 60) {
    U seed = s.bits(64), n = 1ul << 26;
    NOTE("%lu flips of impossible and certain coins, seed %lx", n, seed);
    Stream r{seed}, c{seed};
    f32 lo = 1, hi = 0;
    for(U i = 0; i < n; i++) {
        f32 u = r.unit<f32>();
        lo = u < lo ? u : lo;
        hi = u > hi ? u : hi;
        bool impossible = c.coin_flip(0.0f);
        CHECK(!impossible, "a coin of probability 0 came up at flip %lu (unit sample %g)", i, (double)u);
    }
    CHECK(lo >= 0 && hi < 1, "unit samples from %g to %g", (double)lo, (double)hi);
    CHECK(lo < 0x1p-20f && hi > 1 - 0x1p-20f, "%lu unit samples only reach from %g to %g", n, (double)lo, (double)hi);
    Stream d{seed};
    for(U i = 0; i < n / 4; i++) CHECK(d.coin_flip(1.0f), "a certain coin failed at flip %lu", i);
    pbt::nontrivial();
}

template<typename I>
static I clampi(__int128 v) {
    __int128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    return (I)(v < lo ? lo : v > hi ? hi : v);
}
template<typename I>
static void range(Src& s, const char* what) {
    I lo = (I)s.bits(8 * sizeof(I)), hi;
    if(s.chance(1, 4)) lo = s.of<I>({std::numeric_limits<I>::min(), (I)0, (I)-5});
    switch(s.pick({4, 3, 2, 1})) {
    case 0: hi = clampi<I>((__int128)lo + 1 + s.draw(9)); break;
    case 1: hi = clampi<I>((__int128)lo + 1 + s.draw(300)); break;
    case 2: hi = (I)s.bits(8 * sizeof(I)); break;
    default: hi = std::numeric_limits<I>::max(); break;
    }
    if(hi < lo) std::swap(lo, hi);
    if(lo == hi) return;
    unsigned __int128 width = (unsigned __int128)((__int128)hi - (__int128)lo);
    U seed = s.bits(64);
    NOTE("%s range [%s, %s) of seed %lx", what, std::to_string(lo).c_str(), std::to_string(hi).c_str(), seed);
    Stream r{seed};
    if(width <= 300) {
        U n = 200 * (U)width;
        std::vector<U> c((U)width);
        for(U i = 0; i < n; i++) {
            I v = r.range<I>(lo, hi);
            CHECK(v >= lo && v < hi, "%s sample %s is outside [%s, %s)", what, std::to_string(v).c_str(), std::to_string(lo).c_str(), std::to_string(hi).c_str());
            c[(U)((__int128)v - lo)]++;
        }
        even(c, 200, what);
        if(width > 1) pbt::nontrivial();
    } else {
        std::vector<U> c(16);
        for(U i = 0; i < 4000; i++) {
            I v = r.range<I>(lo, hi);
            CHECK(v >= lo && v < hi, "%s sample %s is outside [%s, %s)", what, std::to_string(v).c_str(), std::to_string(lo).c_str(), std::to_string(hi).c_str());
            c[(U)((unsigned __int128)((__int128)v - lo) * 16 / width)]++;
        }
        // sixteen slices of nearly equal width (and modulo bias when the range is a sizable part of 2^64)
        if(width > 4096 && width < ((unsigned __int128)1 << 56)) even(c, 250, what), pbt::nontrivial();
        else if(width >= ((unsigned __int128)1 << 56)) {
            for(U x : c) CHECK(x > 60, "%s: a sixteenth of the range receives %lu of 4000 samples", what, x);
            pbt::nontrivial();
        }
    }
}
PROP(ranges, 3000, 60000) {
    switch(s.draw(7)) {
    case 0: return range<i32>(s, "i32");
    case 1: return range<u64>(s, "u64");
    case 2: return range<i64>(s, "i64");
    case 3: return range<u32>(s, "u32");
    case 4: return range<i16>(s, "i16");
    case 5: return range<u16>(s, "u16");
    case 6: return range<i8>(s, "i8");
    case 7: return range<u8>(s, "u8");
    }
}
template<typename I>
static void integers(Src& s, const char* what) {
    U seed = s.bits(64), n = 20000;
    NOTE("%s samples of seed %lx", what, seed);
    Stream r{seed};
    std::vector<U> bit(8 * sizeof(I)), low(256);
    for(U i = 0; i < n; i++) {
        u64 v = (u64)r.integer<I>();
        for(U j = 0; j < bit.size(); j++) bit[j] += (v >> j) & 1;
        low[v & 255]++;
    }
    even(bit, (double)n / 2, what);
    even(low, (double)n / 256, what);
    pbt::nontrivial();
}
PROP(integers, 300, 6000) {
    switch(s.draw(7)) {
    case 0: return integers<i32>(s, "i32");
    case 1: return integers<u64>(s, "u64");
    case 2: return integers<i64>(s, "i64");
    case 3: return integers<u32>(s, "u32");
    case 4: return integers<i16>(s, "i16");
    case 5: return integers<u16>(s, "u16");
    case 6: return integers<i8>(s, "i8");
    case 7: return integers<u8>(s, "u8");
    }
}

template<typename T>
static void shuffle(Src& s, const char* what) {
    using E = t::E<T>;
    U n = s.pick({1, 1, 4}) == 2 ? s.draw(200) : s.draw(5), seed = s.bits(64);
    NOTE("shuffle of %lu %s with seed %lx", n, what, seed);
    Vec<T, TA<0>> v, w;
    std::vector<int> m;
    for(U i = 0; i < n; i++) {
        int x = (int)s.draw(E::max);
        v.push(E::make(x)), w.push(E::make(x)), m.push_back(x);
    }
    Stream r{seed}, q{seed};
    r.shuffle(v);
    q.shuffle(w);
    CHECK(v.length() == n, "a shuffle changes the length to %lu", v.length());
    std::vector<int> g;
    for(U i = 0; i < n; i++) {
        g.push_back(E::val(v[i]));
        CHECK(E::val(v[i]) == E::val(w[i]), "equal seeds shuffle differently");
    }
    std::sort(g.begin(), g.end());
    std::sort(m.begin(), m.end());
    CHECK(g == m, "a shuffle of %lu elements is not a permutation", n);
    if(n > 1) pbt::nontrivial();
}
PROP(shuffles, 30000, 600000) {
    Case c;
    switch(s.draw(3)) {
    case 0: shuffle<int>(s, "int"); break;
    case 1: shuffle<Tok>(s, "Tok"); break;
    case 2: shuffle<Cpy>(s, "Cpy"); break;
    case 3: shuffle<Big>(s, "Big"); break;
    }
    c.settled("after a shuffle");
}
PROP(shuffle_orders, 300, 6000) {
    // every order of a small vector, every place in a larger one
    U n = s.range(2, 5), seed = s.bits(64);
    NOTE("orders of %lu elements, one stream with seed %lx", n, seed);
    Stream r{seed};
    std::map<std::vector<int>, U> seen;
    U f = 1;
    for(U i = 2; i <= n; i++) f *= i;
    for(U i = 0; i < 100 * f; i++) {
        Vec<int> v;
        for(U j = 0; j < n; j++) v.push((int)j);
        r.shuffle(v);
        std::vector<int> o(v.begin(), v.end());
        seen[o]++;
    }
    CHECK(seen.size() == f, "%lu of the %lu orders of %lu elements appear", seen.size(), f, n);
    std::vector<U> c;
    for(auto& [k, x] : seen) c.push_back(x);
    even(c, 100, "orders");
    U m = s.range(6, 30);
    std::vector<U> last(m), pos(m);
    for(U i = 0; i < 100 * m; i++) {
        Vec<int> v;
        for(U j = 0; j < m; j++) v.push((int)j);
        r.shuffle(v);
        last[(U)v[m - 1]]++;
        for(U j = 0; j < m; j++)
            if(v[j] == 0) pos[j]++;
    }
    even(last, 100, "elements in the last place");
    even(pos, 100, "places of the first element");
    pbt::nontrivial();
}

// In a long vector every element reaches every place equally often.
PROP(shuffle_places, 12, 400) {
    U n = s.pick({1, 3}) == 0 ? s.range(2, 30) : s.range(31, 120), seed = s.bits(64), each = 150;
    NOTE("places of %lu elements, one stream with seed %lx", n, seed);
    Stream r{seed};
    std::vector<std::vector<U>> at(n, std::vector<U>(n)); // place, element
    U same = 0, follow = 0;
    for(U i = 0; i < each * n; i++) {
        Vec<int> v;
        for(U j = 0; j < n; j++) v.push((int)j);
        r.shuffle(v);
        for(U j = 0; j < n; j++) at[j][(U)v[j]]++, same += v[j] == (int)j, follow += j && v[j] == v[j - 1] + 1;
    }
    for(U j = 0; j < n; j++) even(at[j], each, "elements in one place of a long vector");
    std::vector<U> diagonal(n);
    for(U j = 0; j < n; j++) diagonal[j] = at[j][j];
    even(diagonal, each, "elements that stay in place");
    // per shuffle, the elements that stay have mean 1 and variance 1; those that follow their neighbour nearly so
    double shuffles = (double)(each * n), sd = std::sqrt(shuffles);
    CHECK(std::fabs((double)same - shuffles) < 8 * sd, "%lu elements of %lu stayed in place in %g shuffles", same, n, shuffles);
    CHECK(std::fabs((double)follow - shuffles * (double)(n - 1) / (double)n) < 8 * sd, "%lu elements of %lu still follow their neighbour in %g shuffles", follow, n, shuffles);
    pbt::nontrivial();
}
