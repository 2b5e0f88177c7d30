// C15: scalar math helpers compute their mathematical definition.
#include "model.h"
#include <cfenv>
using namespace t;
using I128 = __int128;
namespace M = rpp::Math;

static U ref_pop(U x) {
    U n = 0;
    for(; x; x &= x - 1) n++;
    return n;
}
static int ref_top(U x) { // index of the highest bit, -1 for 0
    int n = -1;
    for(; x; x >>= 1) n++;
    return n;
}
template<typename T>
static void bit_helpers(T x) {
    const U W = 8 * sizeof(T);
    int top = ref_top(x);
    CHECK(M::popcount(x) == ref_pop(x), "popcount(%lx) is %lu", (U)x, (U)M::popcount(x));
    CHECK(M::ctlz(x) == W - 1 - (U)(i64)top, "ctlz(%lx) in %lu bits is %lu", (U)x, W, (U)M::ctlz(x));
    if(x) CHECK(M::log2(x) == (U)top, "log2(%lx) is %lu", (U)x, (U)M::log2(x));
    U prev = x ? 1ull << top : 0;
    CHECK(M::prev_pow2(x) == prev, "prev_pow2(%lx) is %lx", (U)x, (U)M::prev_pow2(x));
    if(x <= ((T)1 << (W - 1))) {
        U next = prev == x ? x : prev << 1;
        CHECK(M::next_pow2(x) == next, "next_pow2(%lx) is %lx", (U)x, (U)M::next_pow2(x));
    }
}
PROP(bits_and_powers_of_two, 1000000, 30000000) {
    U x = s.bits(64);
    NOTE("bits of %lx", x);
    s.coin() ? bit_helpers<u32>((u32)x) : bit_helpers<u64>(x);
    pbt::nontrivial();
}
PROP_F(every_small_word, 1, 1, pbt::ONE) {
    U n = pbt::thorough() ? 0 : 1 << 24;
    for(U x = 0; x < (n ? n : 1ull << 26); x++) bit_helpers<u32>((u32)x);
    for(U x = 0; x < 1 << 22; x++) bit_helpers<u64>(x), bit_helpers<u64>(0 - x), bit_helpers<u32>((u32)(0 - x));
    for(U k = 0; k < 64; k++)
        for(U d = 0; d < 9; d++) bit_helpers<u64>((1ull << k) + d - 4), bit_helpers<u32>((u32)((1ull << k) + d - 4));
    pbt::nontrivial();
    (void)s;
}

template<typename T>
static void aligns(Src& s) {
    const U W = 8 * sizeof(T);
    T x = (T)s.bits(W), a;
    bool p2 = s.coin();
    if(p2) a = (T)1 << s.draw(W - 1);
    else do a = (T)s.bits(W);
        while(a == 0);
    NOTE("aligning %lx to %lx in %lu bits", (U)x, (U)a, W);
    T down = (T)((I128)x / (I128)a * (I128)a);
    CHECK(M::align_down(x, a) == down, "align_down(%lx, %lx) is %lx", (U)x, (U)a, (U)M::align_down(x, a));
    I128 up = down == x ? (I128)x : (I128)down + (I128)a;
    bool fits = up < ((I128)1 << W);
    if(fits) CHECK(M::align(x, a) == (T)up, "align(%lx, %lx) is %lx", (U)x, (U)a, (U)M::align(x, a));
    if(p2) {
        CHECK(M::align_down_pow2(x, a) == down, "align_down_pow2(%lx, %lx) is %lx", (U)x, (U)a, (U)M::align_down_pow2(x, a));
        if(fits) CHECK(M::align_pow2(x, a) == (T)up, "align_pow2(%lx, %lx) is %lx", (U)x, (U)a, (U)M::align_pow2(x, a));
    }
    if(down != x) pbt::nontrivial();
}
PROP(alignment, 1000000, 30000000) {
    s.coin() ? aligns<u32>(s) : aligns<u64>(s);
}

template<typename T>
static void powers(Src& s, const char* what) {
    // exact wherever the true value fits; in any case the low bits (unsigned)
    T b = (T)s.bits(s.coin() ? 3 : 8 * sizeof(T)), e = (T)s.draw(std::min<U>(70, (U)std::numeric_limits<T>::max()));
    if(s.coin()) b = (T)(0 - (U)b);
    I128 r = 1;
    bool fits = true;
    U low = 1;
    for(T i = 0; i < e; i++) {
        low *= (U)(i64)b;
        if(fits) r *= (I128)b;
        fits = fits && r <= (I128)std::numeric_limits<T>::max() && r >= (I128)std::numeric_limits<T>::min();
    }
    NOTE("%s pow(%s, %s)", what, std::to_string(b).c_str(), std::to_string(e).c_str());
    if(std::is_signed_v<T> && !fits) return;
    T g = M::pow(b, e);
    if(fits) CHECK(g == (T)r, "%s pow(%s, %s) is %s", what, std::to_string(b).c_str(), std::to_string(e).c_str(), std::to_string(g).c_str());
    else if(sizeof(T) >= 4) CHECK(g == (T)low, "%s pow(%s, %s) is %s modulo its width", what, std::to_string(b).c_str(), std::to_string(e).c_str(), std::to_string(g).c_str());
    if(e > 1) pbt::nontrivial();
}
template<typename T>
static void order(Src& s, const char* what) {
    auto any = [&]() -> T {
        if constexpr(std::is_floating_point_v<T>) {
            if(s.coin()) return (T)((i64)s.draw(100) - 50) / (T)(1 + s.draw(7));
            T v;
            U b;
            do {
                b = s.bits(8 * sizeof(T));
                memcpy(&v, &b, sizeof(T));
                if(s.replay && !std::isfinite(v)) v = 0;
            } while(!std::isfinite(v));
            return v;
        } else return (T)s.bits(8 * sizeof(T));
    };
    T a = any(), b = any(), c = any();
    if(s.chance(1, 8)) b = a;
    NOTE("%s %s %s %s", what, std::to_string(a).c_str(), std::to_string(b).c_str(), std::to_string(c).c_str());
    CHECK(M::min(a, b) == (b < a ? b : a), "%s min(%s, %s)", what, std::to_string(a).c_str(), std::to_string(b).c_str());
    CHECK(M::max(a, b) == (a < b ? b : a), "%s max(%s, %s)", what, std::to_string(a).c_str(), std::to_string(b).c_str());
    T d[] = {a, b, c, any(), any()};
    U n = 1 + s.draw(4);
    T lo = d[0], hi = d[0];
    for(U i = 1; i < n; i++) lo = d[i] < lo ? d[i] : lo, hi = hi < d[i] ? d[i] : hi;
    T glo, ghi;
    switch(n) {
    case 1: glo = M::min({d[0]}), ghi = M::max({d[0]}); break;
    case 2: glo = M::min({d[0], d[1]}), ghi = M::max({d[0], d[1]}); break;
    case 3: glo = M::min({d[0], d[1], d[2]}), ghi = M::max({d[0], d[1], d[2]}); break;
    case 4: glo = M::min({d[0], d[1], d[2], d[3]}), ghi = M::max({d[0], d[1], d[2], d[3]}); break;
    default: glo = M::min({d[0], d[1], d[2], d[3], d[4]}), ghi = M::max({d[0], d[1], d[2], d[3], d[4]}); break;
    }
    CHECK(glo == lo && ghi == hi, "%s minimum or maximum of a list of %lu", what, n);
    T e0 = b < c ? b : c, e1 = b < c ? c : b, k = M::clamp(a, e0, e1);
    CHECK(k == (a < e0 ? e0 : e1 < a ? e1 : a), "%s clamp(%s, %s, %s) is %s", what, std::to_string(a).c_str(), std::to_string(e0).c_str(), std::to_string(e1).c_str(), std::to_string(k).c_str());
    if(a != b && b != c) pbt::nontrivial();
}
#define EACH_INT(f)                                                                                                    \
    switch(s.draw(7)) {                                                                                                \
    case 0: return f<i32>(s, "i32");                                                                                   \
    case 1: return f<u64>(s, "u64");                                                                                   \
    case 2: return f<i64>(s, "i64");                                                                                   \
    case 3: return f<u32>(s, "u32");                                                                                   \
    case 4: return f<i16>(s, "i16");                                                                                   \
    case 5: return f<u16>(s, "u16");                                                                                   \
    case 6: return f<i8>(s, "i8");                                                                                     \
    case 7: return f<u8>(s, "u8");                                                                                     \
    }
PROP(integer_powers, 600000, 20000000) {
    EACH_INT(powers)
}
PROP(order_of_integers, 600000, 20000000) {
    EACH_INT(order)
}
PROP(order_of_floats, 400000, 15000000) {
    s.coin() ? order<f32>(s, "f32") : order<f64>(s, "f64");
}
PROP(sizes_and_absolute_values, 300000, 5000000) {
    U n = s.bits(30);
    CHECK(M::KB(n) == n * 1024 && M::MB(n) == n * 1048576 && M::GB(n) == n * 1073741824, "unit sizes of %lu", n);
    i64 x = (i64)s.bits(64);
    if(x != std::numeric_limits<i64>::min()) CHECK(M::abs(x) == (x < 0 ? -x : x), "abs(%ld) is %ld", x, M::abs(x));
    i32 y = (i32)s.bits(32);
    if(y != std::numeric_limits<i32>::min()) CHECK(M::abs(y) == (y < 0 ? -y : y), "abs(%d) is %d", y, M::abs(y));
    if(x < 0) pbt::nontrivial();
}

// ---- floating point ---------------------------------------------------------------------------------------
template<typename F>
static F draw_f(Src& s) {
    switch(s.pick({3, 4, 2, 2, 1})) {
    case 0: return (F)((i64)s.draw(2000) - 1000) / (F)100;
    case 1: return (F)(((double)s.bits(53) / 9007199254740992.0 - 0.5) * std::ldexp(1.0, (int)s.draw(20) - 8));
    case 2: return s.of<F>({(F)0, (F)-0.0, (F)1, (F)-1, (F)0.5, (F)-0.5, (F)1.5, (F)2.5, (F)M_PI, (F)1e30, (F)-1e30, std::numeric_limits<F>::infinity(), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min()});
    case 3: {
        F v;
        U b = s.bits(8 * sizeof(F));
        memcpy(&v, &b, sizeof(F));
        return v;
    }
    default: return (F)(i64)s.bits(40) + (F)0.5;
    }
}
template<typename F>
static bool close(F g, F e) {
    if(e != e) return g != g;
    if(g == e) return std::signbit(g) == std::signbit(e) || e == 0;
    if(!std::isfinite(g) || !std::isfinite(e)) return false;
    F up = e, dn = e; // within four units in the last place
    for(int i = 0; i < 4; i++) up = std::nextafter(up, std::numeric_limits<F>::infinity()), dn = std::nextafter(dn, -std::numeric_limits<F>::infinity());
    return g >= dn && g <= up;
}
template<typename F>
static void libm(Src& s) {
    F x = draw_f<F>(s), y = draw_f<F>(s);
    if(s.chance(1, 3)) x = x - std::trunc(x); // the domain of acos and asin
    NOTE("f%lu functions at %.17g and %.17g", 8 * sizeof(F), (double)x, (double)y);
#define LIBM(f) CHECK(close<F>(M::f(x), std::f(x)), #f "(%.17g) is %.17g, expected %.17g", (double)x, (double)M::f(x), (double)std::f(x))
    LIBM(cos);
    LIBM(sin);
    LIBM(tan);
    LIBM(acos);
    LIBM(asin);
    LIBM(atan);
    LIBM(exp);
    LIBM(floor);
    LIBM(ceil);
    LIBM(round);
    LIBM(sqrt);
    LIBM(abs);
#define LIBM2(f) CHECK(close<F>(M::f(x, y), std::f(x, y)), #f "(%.17g, %.17g) is %.17g, expected %.17g", (double)x, (double)y, (double)M::f(x, y), (double)std::f(x, y))
    LIBM2(atan2);
    LIBM2(hypot);
    LIBM2(pow);
    if(x == x) CHECK(M::sign(x) == (F)((x > 0) - (x < 0)), "sign(%.17g) is %g", (double)x, (double)M::sign(x));
    if(x == x && std::fabs(x) != 0 && std::fabs(x) != 1) pbt::nontrivial();
}
PROP(library_functions, 500000, 10000000) {
    s.coin() ? libm<f32>(s) : libm<f64>(s);
}
template<typename F>
static F fin(Src& s) {
    return (F)(((double)s.bits(53) / 9007199254740992.0 - 0.5) * std::ldexp(1.0, (int)s.draw(24) - 6));
}
template<typename F>
static void interp(Src& s) {
    F a = fin<F>(s), b = fin<F>(s), t = (F)s.draw(1024) / 1024;
    NOTE("lerp of %g and %g at %g, f%lu", (double)a, (double)b, (double)t, 8 * sizeof(F));
    F eps = 8 * std::numeric_limits<F>::epsilon() * std::max(std::fabs(a), std::fabs(b));
    CHECK(M::lerp(a, b, (F)0) == a, "lerp misses its start");
    CHECK(std::fabs(M::lerp(a, b, (F)1) - b) <= eps, "lerp misses its end");
    F e = (F)((1 - (long double)t) * a + (long double)t * b);
    CHECK(std::fabs(M::lerp(a, b, t) - e) <= eps, "lerp(%g, %g, %g) is %g", (double)a, (double)b, (double)t, (double)M::lerp(a, b, t));
    CHECK(std::fabs(M::radians(a) - a * (F)(M_PI / 180)) <= (F)1e-6 * std::fabs(a), "radians(%g) is %g", (double)a, (double)M::radians(a));
    CHECK(std::fabs(M::degrees(a) - a * (F)(180 / M_PI)) <= (F)1e-5 * std::fabs(a), "degrees(%g) is %g", (double)a, (double)M::degrees(a));
    if(t != 0) pbt::nontrivial();
}
PROP(interpolation_and_angles, 300000, 8000000) {
    s.coin() ? interp<f32>(s) : interp<f64>(s);
}
PROP(smoothing_and_fractions, 300000, 8000000) {
    f32 e0 = fin<f32>(s), w = (f32)(1 + s.draw(1000)) / 16, e1 = e0 + w;
    if(!(e1 > e0)) return;
    f32 x = e0 + ((f32)s.draw(1400) / 1000 - 0.2f) * w, x2 = x + (f32)s.draw(100) / 400 * w;
    NOTE("smoothstep(%g, %g) at %g and %g", (double)e0, (double)e1, (double)x, (double)x2);
    f32 g = M::smoothstep(e0, e1, x), g2 = M::smoothstep(e0, e1, x2);
    CHECK(g >= 0 && g <= 1, "smoothstep is %g", (double)g);
    CHECK(M::smoothstep(e0, e1, e0) == 0 && M::smoothstep(e0, e1, e1) == 1, "smoothstep misses its edges");
    CHECK(g2 >= g - 1e-6f, "smoothstep falls from %g to %g", (double)g, (double)g2);
    double t = std::min(1.0, std::max(0.0, ((double)x - (double)e0) / ((double)e1 - (double)e0)));
    CHECK(std::fabs((double)g - t * t * (3 - 2 * t)) < 1e-5 + 3e-7 * std::fabs((double)e0 / (double)w), "smoothstep is %g at %g", (double)g, t);
    if(t > 0 && t < 1) pbt::nontrivial();
    f32 f = fin<f32>(s) * (f32)(1ull << s.draw(30)), r = M::frac(f);
    CHECK(r > -1 && r < 1 && f - r == std::trunc(f), "frac(%.9g) is %.9g", (double)f, (double)r);
}
PROP(limits, 1, 1) {
#define LIM(T) CHECK(Limits<T>::max() == std::numeric_limits<T>::max() && Limits<T>::min() == std::numeric_limits<T>::lowest(), "Limits<" #T ">")
    LIM(u8);
    LIM(u16);
    LIM(u32);
    LIM(u64);
    LIM(i8);
    LIM(i16);
    LIM(i32);
    LIM(i64);
    LIM(f32);
    LIM(f64);
#define FLIM(T)                                                                                                        \
    CHECK(Limits<T>::epsilon() == std::numeric_limits<T>::epsilon() && Limits<T>::smallest_norm() == std::numeric_limits<T>::min() &&    \
              Limits<T>::smallest_denorm() == std::numeric_limits<T>::denorm_min(),                                    \
          "Limits<" #T ">")
    FLIM(f32);
    FLIM(f64);
    pbt::nontrivial();
    (void)s;
}
