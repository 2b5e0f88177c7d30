// C16: vectors agree with element-by-element arithmetic.
#include "model.h"
#include <rpp/vmath.h>
using namespace t;
namespace M = rpp::Math;
using M::Vect;

template<typename T>
static std::string sv(T x) {
    char b[64];
    snprintf(b, 64, std::is_floating_point_v<T> ? "%.9g" : "%.0f", (double)x);
    return b;
}
template<typename T, U N>
static std::string show_v(const Vect<T, N>& v) {
    std::string r = "{";
    for(U i = 0; i < N; i++) r += (i ? ", " : "") + sv(v.data[i]);
    return r + "}";
}
template<typename T>
static bool eq(T a, T b) {
    return a == b || (a != a && b != b);
}
template<typename T>
static T elem(Src& s, bool special, T range) {
    if constexpr(std::is_floating_point_v<T>) {
        if(special && s.chance(1, 6)) return s.of<T>({(T)0, (T)-0.0, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()});
        T v = (T)((i64)s.draw(8192) - 4096) / (T)(1 << s.draw(9));
        if(range == 0 && s.chance(1, 5)) { // any magnitude
            i64 e = sizeof(T) == 4 ? 115 : 1000;
            v = std::ldexp(v, (int)((i64)s.draw(2 * (U)e) - e));
        }
        return v;
    } else if constexpr(std::is_signed_v<T>) {
        return (T)((i64)s.draw(2 * (U)range) - (i64)range);
    } else {
        return s.coin() ? (T)s.bits(8 * sizeof(T)) : (T)s.draw(20);
    }
}
// every component of g equals f(i)
#define EACH(what, g, e)                                                                                               \
    do {                                                                                                               \
        auto g_ = (g);                                                                                                 \
        for(U i = 0; i < N; i++)                                                                                       \
            CHECK(eq<T>(g_.data[i], (T)(e)), "%s: component %lu of %s is %s, expected %s (operands %s %s, scalar %s)", what, i, show_v(g_).c_str(), sv(g_.data[i]).c_str(), sv((T)(e)).c_str(), show_v(a0).c_str(), show_v(b0).c_str(), sv(x).c_str()); \
        for(U i = 0; i < N; i++)                                                                                       \
            CHECK(!memcmp(&a.data[i], &a0.data[i], sizeof(T)) && !memcmp(&b.data[i], &b0.data[i], sizeof(T)), "%s modified its operand", what);                                                \
    } while(0)

template<typename T, U N>
static void ops(Src& s) {
    using V = Vect<T, N>;
    constexpr bool F = std::is_floating_point_v<T>;
    const T range = F ? 0 : sizeof(T) == 4 ? (T)30000 : (T)1000000000;
    bool special = s.chance(1, 3);
    V a, b;
    for(U i = 0; i < N; i++) CHECK(eq<T>(a.data[i], T{}), "a new vector is not zero");
    for(U i = 0; i < N; i++) a[i] = elem<T>(s, special, range), b[i] = elem<T>(s, special, range);
    if(s.chance(1, 4)) // nearly equal vectors
        for(U i = 0, k = s.draw(N); i < N; i++)
            if(i != k) b[i] = a[i];
    T x = elem<T>(s, special, range);
    V a0 = a, b0 = b;
    NOTE("%s (%s, %lu components) with %s and %s", show_v(a).c_str(), F ? "float" : "int", N, show_v(b).c_str(), sv(x).c_str());
    const V &ca = a, &cb = b;
    // what the processor does with each element
    EACH("a + b", ca + cb, a0.data[i] + b0.data[i]);
    EACH("a - b", ca - cb, a0.data[i] - b0.data[i]);
    EACH("a * b", ca * cb, a0.data[i] * b0.data[i]);
    EACH("a + s", ca + x, a0.data[i] + x);
    EACH("a - s", ca - x, a0.data[i] - x);
    EACH("a * s", ca * x, a0.data[i] * x);
    EACH("s + a", x + ca, x + a0.data[i]);
    EACH("s - a", x - ca, x - a0.data[i]);
    EACH("s * a", x * ca, x * a0.data[i]);
    V bd = b;
    T xd = x;
    if(!F) {
        for(U i = 0; i < N; i++)
            if(bd[i] == 0) bd[i] = (T)1;
        if(xd == 0) xd = (T)3;
    }
    EACH("a / b", ca / bd, a0.data[i] / bd.data[i]);
    EACH("a / s", ca / xd, a0.data[i] / xd);
    EACH("s / a", x / bd, x / bd.data[i]);
#define COMP(op, rhs)                                                                                                  \
    do {                                                                                                               \
        V c = a;                                                                                                       \
        V r_ = (c op rhs);                                                                                             \
        EACH("result of " #op, r_, c.data[i]);                                                                         \
        EACH("compound " #op, c, e_.data[i]);                                                                          \
    } while(0)
    {
        V e_ = ca + cb;
        COMP(+=, b);
    }
    {
        V e_ = ca - cb;
        COMP(-=, b);
    }
    {
        V e_ = ca * cb;
        COMP(*=, b);
    }
    {
        V e_ = ca / bd;
        COMP(/=, bd);
    }
    {
        V e_ = ca + x;
        COMP(+=, x);
    }
    {
        V e_ = ca - x;
        COMP(-=, x);
    }
    {
        V e_ = ca * x;
        COMP(*=, x);
    }
    {
        V e_ = ca / xd;
        COMP(/=, xd);
    }
    {
        V c = a;
        c += c;
        EACH("a += a", c, a0.data[i] + a0.data[i]);
        c = a;
        c -= c;
        EACH("a -= a", c, a0.data[i] - a0.data[i]);
    }
    if constexpr(F || std::is_signed_v<T>) {
        EACH("-a", -a, -a0.data[i]);
        EACH("-(const a)", -ca, -a0.data[i]);
        EACH("a.abs()", ca.abs(), a0.data[i] < 0 ? -a0.data[i] : a0.data[i]);
        EACH("abs(a)", M::abs(ca), a0.data[i] < 0 ? -a0.data[i] : a0.data[i]);
    }
    bool same = true, nan = false;
    for(U i = 0; i < N; i++) same = same && a[i] == b[i], nan = nan || a[i] != a[i] || b[i] != b[i];
    CHECK((ca == cb) == same && (ca != cb) == !same && (cb == ca) == same, "%s == %s is %d", show_v(a).c_str(), show_v(b).c_str(), ca == cb);
    V copy = a;
    bool self = true;
    for(U i = 0; i < N; i++) self = self && a[i] == a[i];
    CHECK((copy == a) == self && (copy != a) == !self, "a copy of %s compares unequal", show_v(a).c_str());
    if(!nan) {
        EACH("min(a, b)", M::min(ca, cb), b0.data[i] < a0.data[i] ? b0.data[i] : a0.data[i]);
        EACH("max(a, b)", M::max(ca, cb), b0.data[i] > a0.data[i] ? b0.data[i] : a0.data[i]);
        V lo = M::min(ca, cb), hi = M::max(ca, cb), mid;
        for(U i = 0; i < N; i++) mid[i] = elem<T>(s, false, range);
        EACH("clamp", M::clamp(mid, lo, hi), mid.data[i] < lo.data[i] ? lo.data[i] : mid.data[i] > hi.data[i] ? hi.data[i] : mid.data[i]);
        T mn = a[0], mx = a[0];
        for(U i = 1; i < N; i++) mn = std::min(mn, a[i]), mx = std::max(mx, a[i]);
        CHECK(eq<T>(ca.min(), mn) && eq<T>(ca.max(), mx), "the least and greatest of %s are %s and %s", show_v(a).c_str(), sv(ca.min()).c_str(), sv(ca.max()).c_str());
    }
    // sums
    if constexpr(F) {
        long double d = 0, mag = 0, n2 = 0;
        bool fin = true;
        for(U i = 0; i < N; i++) {
            d += (long double)a[i] * b[i], mag += std::fabs((long double)a[i] * b[i]), n2 += (long double)a[i] * a[i];
            fin = fin && std::isfinite(a[i]) && std::isfinite(b[i]);
        }
        using Lim = std::numeric_limits<T>;
        if(fin && mag < Lim::max() / 8 && n2 < Lim::max() / 8) {
            long double e = N * Lim::epsilon(), tiny = 2 * N * (long double)Lim::denorm_min();
            if(mag > 1e20L) pbt::label("large sums");
            CHECK(std::fabs((long double)M::dot(ca, cb) - d) <= e * mag + tiny, "dot of %s and %s is %s", show_v(a).c_str(), show_v(b).c_str(), sv(M::dot(ca, cb)).c_str());
            CHECK(std::fabs((long double)ca.norm2() - n2) <= e * n2 + tiny, "norm2 of %s is %s", show_v(a).c_str(), sv(ca.norm2()).c_str());
            CHECK(std::fabs((long double)ca.norm() - std::sqrt(n2)) <= e * std::sqrt(n2) + 2 * std::sqrt(tiny), "norm of %s is %s", show_v(a).c_str(), sv(ca.norm()).c_str());
            if(n2 > N * Lim::min() / Lim::epsilon()) {
                V c = a;
                V r = c.normalize();
                for(U i = 0; i < N; i++) {
                    T u = (T)(a[i] / std::sqrt(n2));
                    CHECK(std::fabs(ca.unit()[i] - u) <= (T)(8 * e) && std::fabs(c[i] - u) <= (T)(8 * e) && std::fabs(r[i] - u) <= (T)(8 * e) && std::fabs(M::normalize(ca)[i] - u) <= (T)(8 * e), "component %lu of the unit vector along %s is %s", i, show_v(a).c_str(), sv(ca.unit()[i]).c_str());
                }
            }
            T tt = (T)s.draw(16) / 16;
            V l = M::lerp(ca, cb, tt);
            for(U i = 0; i < N; i++) {
                long double w = (1 - (long double)tt) * a[i] + (long double)tt * b[i];
                CHECK(std::fabs((long double)l[i] - w) <= 4 * std::numeric_limits<T>::epsilon() * (std::fabs((long double)a[i]) + std::fabs((long double)b[i])) + tiny, "component %lu of lerp(%s, %s, %s) is %s", i, show_v(a).c_str(), show_v(b).c_str(), sv(tt).c_str(), sv(l[i]).c_str());
            }
            CHECK(M::lerp(ca, cb, (T)0) == ca, "lerp misses its start");
        }
        EACH("floor", a.floor(), std::floor(a0.data[i]));
        EACH("ceil", a.ceil(), std::ceil(a0.data[i]));
    } else {
        U d = 0, n2 = 0;
        for(U i = 0; i < N; i++) d += (U)(T)(a[i] * b[i]), n2 += (U)(T)(a[i] * a[i]);
        CHECK(M::dot(ca, cb) == (T)d && ca.norm2() == (T)n2, "dot or norm2 of %s and %s", show_v(a).c_str(), show_v(b).c_str());
    }
    pbt::nontrivial();
}
template<typename T, U N>
static void access(Src& s) {
    using V = Vect<T, N>;
    T e[N], x = elem<T>(s, false, (T)30000);
    for(T& v : e) v = elem<T>(s, false, (T)30000);
    V a = [&]<size_t... I>(std::index_sequence<I...>) { return V{e[I]...}; }(std::make_index_sequence<N>{});
    const V& ca = a;
    NOTE("components of %s", show_v(a).c_str());
    CHECK((U)(ca.end() - ca.begin()) == N && (U)(a.end() - a.begin()) == N && ca.begin() == &ca[0] && sizeof(a.data) == N * sizeof(T), "iteration does not cover the components");
    for(U i = 0; i < N; i++) CHECK(ca[i] == e[i] && a[i] == e[i] && ca.begin()[i] == e[i], "component %lu is %s", i, sv(ca[i]).c_str());
    V all{x};
    for(T v : all) CHECK(v == x, "a broadcast component differs");
    if constexpr(N > 2) {
        Vect<T, N - 1> h;
        for(U i = 0; i + 1 < N; i++) h[i] = e[i];
        V g{h, x};
        for(U i = 0; i + 1 < N; i++) CHECK(g[i] == e[i], "component %lu of an extended vector", i);
        CHECK(g[N - 1] == x, "the component appended to a vector");
        if(x != 0) {
            Vect<T, N - 1> p = g.proj();
            for(U i = 0; i + 1 < N; i++) CHECK(p[i] == (T)(e[i] / x), "component %lu of a projected vector is %s", i, sv(p[i]).c_str());
        }
    }
    auto i32s = ca.template as<i32>();
    auto f64s = ca.template as<f64>();
    auto f32s = ca.template as<f32>();
    for(U i = 0; i < N; i++)
        if(std::is_floating_point_v<T> || sizeof(T) == 4) CHECK((std::fabs((double)e[i]) > 2e9 || i32s[i] == (i32)e[i]) && f64s[i] == (f64)e[i] && f32s[i] == (f32)e[i], "converted component %lu", i);
    if constexpr(N == 3 || N == 4) {
        CHECK(a.x == e[0] && a.y == e[1] && a.z == e[2], "named components differ");
        CHECK(ca.xy() == (Vect<T, 2>{e[0], e[1]}) && ca.yz() == (Vect<T, 2>{e[1], e[2]}), "a pair of components differs");
        a.yz() = Vect<T, 2>{x, e[0]};
        CHECK(a.x == e[0] && a.y == x && a.z == e[0] && (N == 3 || a[3] == e[N - 1]), "assigning yz()");
        a.xy() = Vect<T, 2>{e[1], e[2]};
        CHECK(a.x == e[1] && a.y == e[2] && a.z == e[0], "assigning xy()");
    }
    if constexpr(N == 4) {
        V b = [&]<size_t... I>(std::index_sequence<I...>) { return V{e[I]...}; }(std::make_index_sequence<N>{});
        const V& cb = b;
        CHECK(b.w == e[3] && cb.zw() == (Vect<T, 2>{e[2], e[3]}), "w or zw() differs");
        CHECK(cb.xyz()[0] == e[0] && cb.xyz()[1] == e[1] && cb.xyz()[2] == e[2] && cb.yzw()[0] == e[1] && cb.yzw()[1] == e[2] && cb.yzw()[2] == e[3], "three components differ");
        b.zw() = Vect<T, 2>{e[0], x};
        b.xyz()[0] = e[1];
        b.yzw()[0] = e[0];
        CHECK(b.x == e[1] && b.y == e[0] && b.z == e[0] && b.w == x, "assigning through components");
    }
    if constexpr(N == 2) CHECK(a.x == e[0] && a.y == e[1], "named components differ");
    pbt::nontrivial();
}
#define TYPES(f, T)                                                                                                    \
    switch(s.pick({3, 3, 6, 1, 1})) {                                                                                  \
    case 0: return f<T, 2>(s);                                                                                         \
    case 1: return f<T, 3>(s);                                                                                         \
    case 2: return f<T, 4>(s);                                                                                         \
    case 3: return f<T, 5>(s);                                                                                         \
    case 4: return f<T, 9>(s);                                                                                         \
    }
PROP(f32_vectors, 600000, 15000000) {
    TYPES(ops, f32)
}
PROP(f64_vectors, 200000, 5000000) {
    TYPES(ops, f64)
}
PROP(i32_vectors, 300000, 8000000) {
    TYPES(ops, i32)
}
PROP(u32_vectors, 200000, 5000000) {
    TYPES(ops, u32)
}
PROP(i64_vectors, 150000, 4000000) {
    TYPES(ops, i64)
}
PROP(components, 300000, 5000000) {
    switch(s.draw(3)) {
    case 0: TYPES(access, f32) break;
    case 1: TYPES(access, i32) break;
    case 2: TYPES(access, u32) break;
    case 3: TYPES(access, f64) break;
    }
}
PROP(cross_products, 200000, 4000000) {
    rpp::Vec3 a, b;
    for(U i = 0; i < 3; i++) a[i] = elem<f32>(s, false, 0), b[i] = elem<f32>(s, false, 0);
    rpp::Vec3 c = M::cross(a, b);
    NOTE("%s x %s = %s", show_v(a).c_str(), show_v(b).c_str(), show_v(c).c_str());
    for(U i = 0; i < 3; i++) {
        U j = (i + 1) % 3, k = (i + 2) % 3;
        double e = (double)a[j] * b[k] - (double)a[k] * b[j], m = std::fabs((double)a[j] * b[k]) + std::fabs((double)a[k] * b[j]);
        if(m < 1e38) CHECK(std::fabs((double)c[i] - e) <= 1e-6 * m + 1e-44, "component %lu of the cross product is %.9g, expected %.9g", i, (double)c[i], e);
    }
    pbt::nontrivial();
}

// The packed type, lane by lane.
using rpp::SIMD::F32x4;
PROP(packed_lanes, 600000, 15000000) {
    f32 a[4], b[4];
    bool special = s.chance(1, 3);
    for(U i = 0; i < 4; i++) a[i] = elem<f32>(s, special, 0), b[i] = s.chance(1, 4) ? a[i] : elem<f32>(s, special, 0);
    F32x4 A = F32x4::set(a[0], a[1], a[2], a[3]), B = F32x4::set(b[0], b[1], b[2], b[3]);
    NOTE("lanes %g %g %g %g and %g %g %g %g", (double)a[0], (double)a[1], (double)a[2], (double)a[3], (double)b[0], (double)b[1], (double)b[2], (double)b[3]);
#define LANE(f, e)                                                                                                     \
    do {                                                                                                               \
        F32x4 r = F32x4::f;                                                                                            \
        for(U i = 0; i < 4; i++) CHECK(eq<f32>(r.data[i], (e)), "lane %lu of " #f " is %.9g, expected %.9g", i, (double)r.data[i], (double)(e)); \
    } while(0)
    LANE(set(a[0], a[1], a[2], a[3]), a[i]);
    LANE(set1(a[1]), a[1]);
    LANE(zero(), 0.0f);
    LANE(one(), 1.0f);
    LANE(add(A, B), a[i] + b[i]);
    LANE(sub(A, B), a[i] - b[i]);
    LANE(mul(A, B), a[i] * b[i]);
    LANE(div(A, B), a[i] / b[i]);
    LANE(abs(A), std::fabs(a[i]));
    LANE(floor(A), std::floor(a[i]));
    LANE(ceil(A), std::ceil(a[i]));
    bool nan = false, same = true, fin = true;
    double d = 0, m = 0;
    for(U i = 0; i < 4; i++) {
        nan = nan || a[i] != a[i] || b[i] != b[i];
        same = same && a[i] == b[i];
        fin = fin && std::isfinite(a[i]) && std::isfinite(b[i]);
        d += (double)a[i] * b[i], m += std::fabs((double)a[i] * b[i]);
    }
    if(!nan) {
        LANE(min(A, B), std::min(a[i], b[i]));
        LANE(max(A, B), std::max(a[i], b[i]));
    }
    CHECK(F32x4::cmpeq_all(A, B) == same && F32x4::cmpeq_all(B, A) == same, "cmpeq_all of %s lanes", same ? "equal" : "unequal");
    CHECK(F32x4::cmpeq_all(A, A) == (a[0] == a[0] && a[1] == a[1] && a[2] == a[2] && a[3] == a[3]), "cmpeq_all with itself");
    if(fin && m < 1e38) CHECK(std::fabs((double)F32x4::dp(A, B) - d) <= 4e-7 * m + 1e-43, "dp is %.9g, expected %.9g", (double)F32x4::dp(A, B), d);
    pbt::nontrivial();
}
