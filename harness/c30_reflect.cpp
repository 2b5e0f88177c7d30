// C30: reflection and the type algebra. Most programs are generated (gen_c30.py); this part runs them.
#define C30_BASE
#include "c30.h"
using namespace g;

PROP(generated, 4000, 40000) {
    auto& e = entries();
    CHECK(!e.empty(), "harness: no generated programs");
    auto& x = e[s.draw(e.size() - 1)];
    NOTE("%s", x.what);
    x.f(s);
}

// The library's own public records and enumerations.
template<typename T>
static void lib(Src& s, std::vector<std::pair<const char*, std::function<const void*(const T&)>>> want, bool bytes = true) {
    T v{};
    fields(s, v, false, [&](const T& o) {
        std::vector<Want> w;
        std::vector<Seen> got;
        See see{&got};
        Reflect::iterate_record(see, o); // types as seen: judged by place, name and number here
        for(U i = 0; i < want.size(); i++) {
            Seen g = i < got.size() ? got[i] : Seen{};
            w.push_back({want[i].first, g.type, g.size, want[i].second(o)});
        }
        return w;
    });
}
#define F_(f) {#f, [](const auto& o) -> const void* { return &o.f; }}
PROP(library, 300, 3000) {
    using namespace rpp;
    lib<Pair<u8, f64>>(s, {F_(first), F_(second)});
    lib<Pair<Vec<i32>, String<>>>(s, {F_(first), F_(second)});
    lib<Vec2>(s, {F_(x), F_(y)});
    lib<Vec3>(s, {F_(x), F_(y), F_(z)});
    lib<Vec4>(s, {F_(x), F_(y), F_(z), F_(w)});
    lib<Vec2i>(s, {F_(x), F_(y)});
    lib<Vec3i>(s, {F_(x), F_(y), F_(z)});
    lib<Vec4i>(s, {F_(x), F_(y), F_(z), F_(w)});
    lib<Vec2u>(s, {F_(x), F_(y)});
    lib<Vec3u>(s, {F_(x), F_(y), F_(z)});
    lib<Vec4u>(s, {F_(x), F_(y), F_(z), F_(w)});
    lib<Quat>(s, {F_(x), F_(y), F_(z), F_(w)});
    lib<BBox>(s, {F_(min), F_(max)});
    lib<Mat4>(s, {F_(columns)});
    lib<rpp::Log::Location>(s, {F_(function), F_(file), F_(line)});
    lib<Profile::Alloc>(s, {F_(name), F_(address), F_(size)});
    using L = rpp::Log::Level;
    cases<L>(s, {{"info", L::info}, {"warn", L::warn}, {"fatal", L::fatal}}, L::info, "Level");
    using P = rpp::Thread::Priority;
    cases<P>(s, {{"low", P::low}, {"normal", P::normal}, {"high", P::high}, {"critical", P::critical}}, P::normal, "Priority");
    using K = Reflect::Kind;
    cases<K>(s,
             {{"void_", K::void_}, {"char_", K::char_}, {"i8_", K::i8_}, {"i16_", K::i16_}, {"i32_", K::i32_}, {"i64_", K::i64_},
              {"u8_", K::u8_}, {"u16_", K::u16_}, {"u32_", K::u32_}, {"u64_", K::u64_}, {"f32_", K::f32_}, {"f64_", K::f64_},
              {"bool_", K::bool_}, {"array_", K::array_}, {"pointer_", K::pointer_}, {"enum_", K::enum_}, {"record_", K::record_}},
             K::void_, "Kind");
    kind<void>("void", K::void_, "void");
    kind<decltype(nullptr)>("null", K::pointer_, "null");
    pbt::nontrivial();
}

template<typename T>
static void limits(const char* name) {
    using N = std::numeric_limits<T>;
    CHECK(rpp::Limits<T>::max() == N::max(), "the largest %s is another", name);
    if constexpr(std::is_integral_v<T>) CHECK(rpp::Limits<T>::min() == N::min(), "the smallest %s is another", name);
}
// Values exchanged, moved and forwarded.
template<typename T>
static void exchange(T a, T b, const std::function<std::string(const T&)>& show) {
    std::string sa = show(a), sb = show(b);
    rpp::swap(a, b);
    CHECK(show(a) == sb && show(b) == sa, "after the exchange of %s and %s: %s and %s", sa.c_str(), sb.c_str(), show(a).c_str(), show(b).c_str());
    rpp::swap(a, a);
    CHECK(show(a) == sb, "after an exchange with itself %s became %s", sb.c_str(), show(a).c_str());
}
struct Seven {
    char c[7];
};
PROP(values, 2000, 20000) {
    L.reset();
    limits<u8>("u8"), limits<i8>("i8"), limits<u16>("u16"), limits<i16>("i16"), limits<u32>("u32"), limits<i32>("i32");
    limits<u64>("u64"), limits<i64>("i64"), limits<f32>("f32"), limits<f64>("f64");
    exchange<U>(s.bits(64), s.bits(64), [](const U& x) { return std::to_string(x); });
    exchange<double>((double)s.bits(64), (double)s.draw(9), [](const double& x) { return std::to_string(x); });
    Seven a, b;
    for(auto& c : a.c) c = (char)s.draw(255);
    for(auto& c : b.c) c = (char)s.draw(255);
    exchange<Seven>(a, b, [](const Seven& x) { return std::string(x.c, 7); });
    {
        Tok x{(int)s.draw(9)}, y{(int)s.draw(9)};
        int vx = x.get(), vy = y.get();
        rpp::swap(x, y);
        CHECK(x.get() == vy && y.get() == vx && L.live == 2, "after the exchange of %d and %d: %d and %d, %ld live", vx, vy, x.get(), y.get(), (long)L.live);
        std::string sx = s.bytes(20), sy = s.bytes(20);
        auto p = rpp::String_View{(const u8*)sx.data(), sx.size()}.string(), q = rpp::String_View{(const u8*)sy.data(), sy.size()}.string();
        rpp::swap(p, q);
        CHECK(std::string((const char*)p.data(), p.length()) == sy && std::string((const char*)q.data(), q.length()) == sx, "strings were not exchanged");
        rpp::Vec<Tok> v, w;
        U n = s.draw(9), m = s.draw(9);
        for(U i = 0; i < n; i++) v.push(Tok{(int)i});
        for(U i = 0; i < m; i++) w.push(Tok{(int)i + 100});
        rpp::swap(v, w);
        CHECK(v.length() == m && w.length() == n, "vectors were not exchanged");
        for(U i = 0; i < m; i++) CHECK(v[i].get() == (int)i + 100, "vectors were not exchanged");
        for(U i = 0; i < n; i++) CHECK(w[i].get() == (int)i, "vectors were not exchanged");
    }
    CHECK(L.live == 0, "%ld objects left", (long)L.live);
    int i = 0;
    static_assert(std::is_same_v<decltype(rpp::move(i)), int&&> && std::is_same_v<decltype(rpp::forward<int>(i)), int&&> &&
                  std::is_same_v<decltype(rpp::forward<int&>(i)), int&> && std::is_same_v<decltype(rpp::forward<const int&>(i)), const int&>);
    CHECK(&rpp::forward<int&>(i) == &i && rpp::launder(&i) == &i, "another object");
    pbt::nontrivial();
}
