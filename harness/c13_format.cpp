// C13: formatting renders every value exactly, with measured size equal to written size.
#include "model.h"
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/vmath.h>
using namespace t;
using std::string;
using S0 = String<TA<0>>;

static String_View view(const string& s) {
    return String_View{(const u8*)s.data(), s.size()};
}
template<typename A>
static string str(const String<A>& v) {
    return string((const char*)v.data(), v.length());
}
static string str(String_View v) {
    return string((const char*)v.data(), v.length());
}
static string q(const string& s) {
    string r = "\"";
    for(unsigned char c : s) {
        if(c >= 32 && c < 127) r += (char)c;
        else {
            char b[8];
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        }
    }
    return (r.size() > 900 ? r.substr(0, 900) + "..." : r) + "\"";
}

// user types
enum class Fruit : u16 { apple = 3, kiwi = 700, fig = 1 };
RPP_ENUM(Fruit, apple, RPP_CASE(apple), RPP_CASE(kiwi), RPP_CASE(fig));
enum class Neg : i8 { a = -5, b = 100 };
RPP_NAMED_ENUM(Neg, "Renamed", a, RPP_CASE(a), RPP_CASE(b));
struct Point {
    i32 x;
    u8 pad;
    f64 y;
};
RPP_RECORD(Point, RPP_FIELD(x), RPP_FIELD(y)); // pad is not declared
struct Hollow {
    i32 hidden = 0;
};
RPP_RECORD(Hollow);
struct Deep {
    Point p;
    Vec<i32> v;
    Fruit f[2];
    String_View name;
    const i32* ptr;
    bool b;
};
RPP_NAMED_RECORD(Deep, "Nested", RPP_FIELD(p), RPP_FIELD(v), RPP_FIELD(f), RPP_FIELD(name), RPP_FIELD(ptr), RPP_FIELD(b));

// ---- generator of a value together with its rendering and type name ---------------------------------------
template<typename T>
struct G;
static thread_local U budget; // bounds nested sizes
static U count(Src& s) {
    U n = s.pick({2, 3, 3, 1}) == 3 ? s.draw(12) : s.draw(3);
    n = std::min(n, budget);
    budget -= n;
    return n;
}

template<typename T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>)
struct G<T> {
    static string name() {
        return (std::is_signed_v<T> ? "i" : "u") + std::to_string(8 * sizeof(T));
    }
    static T gen(Src& s, string& o) {
        T v = (T)s.bits(8 * sizeof(T));
        // independent of printf
        unsigned __int128 m = v < 0 ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v;
        string d;
        do d.insert(d.begin(), (char)('0' + (int)(m % 10))), m /= 10;
        while(m);
        o += (v < 0 ? "-" : "") + d;
        return v;
    }
};
template<typename T>
    requires(std::is_floating_point_v<T>)
struct G<T> {
    static string name() {
        return sizeof(T) == 4 ? "f32" : "f64";
    }
    static T gen(Src& s, string& o) {
        T v;
        switch(s.pick({3, 3, 1, 1})) {
        case 0: v = (T)((i64)s.draw(2000000) - 1000000) / (T)(1 << s.draw(10)); break;
        case 1: {
            U b = s.bits(8 * sizeof(T));
            memcpy(&v, &b, sizeof(T));
            break;
        }
        case 2: v = s.of<T>({(T)0, (T)-0.0, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)0.5, (T)0.0000005}); break;
        default: v = (T)(i64)s.bits(64); break;
        }
        char b[512];
        snprintf(b, sizeof(b), "%f", (double)v);
        o += b;
        return v;
    }
};
template<>
struct G<char> {
    static string name() {
        return "char";
    }
    static char gen(Src& s, string& o) {
        char c = (char)s.draw(255);
        o += c;
        return c;
    }
};
template<>
struct G<bool> {
    static string name() {
        return "bool";
    }
    static bool gen(Src& s, string& o) {
        bool b = s.coin();
        o += b ? "true" : "false";
        return b;
    }
};
static thread_local std::deque<string> arena;
template<>
struct G<String_View> {
    static string name() {
        return "String_View";
    }
    static String_View gen(Src& s, string& o) {
        arena.push_back(s.coin() ? s.bytes(12) : s.of<string>({"", "%", "%%", "hello", "a%b", "{}", string("x\0y", 3)}));
        o += arena.back();
        return view(arena.back());
    }
};
template<typename A>
struct G<String<A>> {
    static string name() {
        return "String";
    }
    static String<A> gen(Src& s, string& o) {
        return G<String_View>::gen(s, o).template string<A>();
    }
};
template<typename T>
struct G<T*> {
    static string name() {
        return G<T>::name() + "*";
    }
    static T* gen(Src& s, string& o) {
        T* p = s.chance(1, 4) ? nullptr : (T*)s.bits(48);
        if(!p) {
            o += "(null)";
            return p;
        }
        char b[32];
        snprintf(b, 32, "(0x%lx)", (unsigned long)p);
        o += b;
        return p;
    }
};
template<typename T>
struct G<const T> : G<T> {
    static string name() {
        return "const " + G<T>::name();
    }
};
template<>
struct G<void> {
    static string name() {
        return "void";
    }
};
template<>
struct G<Fruit> {
    static string name() {
        return "Fruit";
    }
    static Fruit gen(Src& s, string& o) {
        U k = s.draw(2);
        o += "Fruit::" + string(k == 0 ? "apple" : k == 1 ? "kiwi" : "fig");
        return k == 0 ? Fruit::apple : k == 1 ? Fruit::kiwi : Fruit::fig;
    }
};
template<>
struct G<Neg> {
    static string name() {
        return "Renamed";
    }
    static Neg gen(Src& s, string& o) {
        bool k = s.coin();
        o += k ? "Renamed::b" : "Renamed::a";
        return k ? Neg::b : Neg::a;
    }
};
template<>
struct G<Point> {
    static string name() {
        return "Point";
    }
    static Point gen(Src& s, string& o) {
        Point p{};
        o += "Point{x : ";
        p.x = G<i32>::gen(s, o);
        o += ", y : ";
        p.y = G<f64>::gen(s, o);
        o += "}";
        return p;
    }
};
template<>
struct G<Hollow> {
    static string name() {
        return "Hollow";
    }
    static Hollow gen(Src&, string& o) {
        o += "Hollow{}";
        return {};
    }
};
static void list(Src& s, string& o, U n, const std::function<void(U)>& f) {
    (void)s;
    for(U i = 0; i < n; i++) {
        if(i) o += ", ";
        f(i);
    }
}
template<typename T, typename A>
struct G<Vec<T, A>> {
    static string name() {
        return "Vec<" + G<T>::name() + ">";
    }
    static Vec<T, A> gen(Src& s, string& o) {
        Vec<T, A> v;
        o += "Vec[";
        list(s, o, count(s), [&](U) { v.push(G<T>::gen(s, o)); });
        o += "]";
        return v;
    }
};
template<>
struct G<Deep> {
    static string name() {
        return "Nested";
    }
    static Deep gen(Src& s, string& o) {
        Deep d{};
        o += "Nested{p : ";
        d.p = G<Point>::gen(s, o);
        o += ", v : ";
        d.v = G<Vec<i32>>::gen(s, o);
        o += ", f : [";
        d.f[0] = G<Fruit>::gen(s, o);
        o += ", ";
        d.f[1] = G<Fruit>::gen(s, o);
        o += "], name : ";
        d.name = G<String_View>::gen(s, o);
        o += ", ptr : ";
        d.ptr = G<const i32*>::gen(s, o);
        o += ", b : ";
        d.b = G<bool>::gen(s, o);
        o += "}";
        return d;
    }
};
template<typename T, typename A>
struct G<Stack<T, A>> {
    static string name() {
        return "Stack<" + G<T>::name() + ">";
    }
    static Stack<T, A> gen(Src& s, string& o) {
        Stack<T, A> v;
        o += "Stack[";
        list(s, o, count(s), [&](U) { v.push(G<T>::gen(s, o)); });
        o += "]";
        return v;
    }
};
template<typename T, typename A>
struct G<Queue<T, A>> {
    static string name() {
        return "Queue<" + G<T>::name() + ">";
    }
    static Queue<T, A> gen(Src& s, string& o) {
        Queue<T, A> v;
        string skip;
        U pre = s.draw(4); // rotate the ring
        for(U i = 0; i < pre; i++) v.push(G<T>::gen(s, skip));
        for(U i = 0; i < pre; i++) v.pop();
        o += "Queue[";
        list(s, o, count(s), [&](U) { v.push(G<T>::gen(s, o)); });
        o += "]";
        return v;
    }
};
template<typename A>
struct G<Heap<i32, A>> {
    static string name() {
        return "Heap<i32>";
    }
    static Heap<i32, A> gen(Src& s, string& o) {
        Heap<i32, A> v;
        string skip;
        U n = count(s);
        for(U i = 0; i < n; i++) v.push(G<i32>::gen(s, skip));
        o += "Heap[";
        U i = 0;
        for(const i32& x : v) o += (i++ ? ", " : "") + std::to_string(x);
        o += "]";
        return v;
    }
};
template<typename V, typename A>
struct G<Map<i32, V, A>> {
    static string name() {
        return "Map<i32, " + G<V>::name() + ">";
    }
    static Map<i32, V, A> gen(Src& s, string& o) {
        Map<i32, V, A> m;
        std::map<i32, string> r;
        U n = count(s);
        for(U i = 0; i < n; i++) {
            string d;
            i32 k = G<i32>::gen(s, d);
            string e;
            auto v = G<V>::gen(s, e);
            if(r.count(k)) continue;
            r[k] = e;
            m.insert(k, rpp::move(v));
        }
        o += "Map[";
        U i = 0;
        for(auto& [k, v] : (const Map<i32, V, A>&)m) o += (i++ ? ", {" : "{") + std::to_string(k) + " : " + r[k] + "}";
        o += "]";
        return m;
    }
};
template<typename T, U N>
struct G<Array<T, N>> {
    static string name() {
        return "Array<" + G<T>::name() + ", " + std::to_string(N) + ">";
    }
    template<U... Is>
    static Array<T, N> mk(Src& s, string& o, std::index_sequence<Is...>) {
        return Array<T, N>{((o += Is ? ", " : ""), G<T>::gen(s, o))...};
    }
    static Array<T, N> gen(Src& s, string& o) {
        o += "[";
        auto a = mk(s, o, std::make_index_sequence<N>{});
        o += "]";
        return a;
    }
};
static thread_local std::deque<std::shared_ptr<void>> keep;
template<typename T>
struct G<Slice<const T>> {
    static string name() {
        return "Slice<const " + G<T>::name() + ">";
    }
    static Slice<const T> gen(Src& s, string& o) {
        auto v = std::make_shared<Vec<T, TA<0>>>();
        o += "Slice[";
        list(s, o, count(s), [&](U) { v->push(G<T>::gen(s, o)); });
        o += "]";
        keep.push_back(v);
        return Slice<const T>{v->data(), v->length()};
    }
};
template<typename T>
struct G<Opt<T>> {
    static string name() {
        return "Opt<" + G<T>::name() + ">";
    }
    static Opt<T> gen(Src& s, string& o) {
        if(s.chance(1, 3)) {
            o += "Opt{None}";
            return {};
        }
        o += "Opt{";
        Opt<T> r{G<T>::gen(s, o)};
        o += "}";
        return r;
    }
};
template<typename T, typename P>
struct G<Box<T, P>> {
    static string name() {
        return "Box<" + G<T>::name() + ">";
    }
    static Box<T, P> gen(Src& s, string& o) {
        if(s.chance(1, 3)) {
            o += "Box{null}";
            return {};
        }
        o += "Box{";
        Box<T, P> r{G<T>::gen(s, o)};
        o += "}";
        return r;
    }
};
template<template<typename, typename> typename R, typename T, typename P>
static R<T, P> gen_rc(Src& s, string& o, const char* n) {
    if(s.chance(1, 3)) {
        o += n + string("{null}");
        return {};
    }
    U refs = s.draw(11);
    o += n + ("[" + std::to_string(refs + 1)) + "]{";
    R<T, P> r{G<T>::gen(s, o)};
    o += "}";
    for(U i = 0; i < refs; i++) keep.push_back(std::make_shared<R<T, P>>(r.dup()));
    return r;
}
template<typename T, typename P>
struct G<Rc<T, P>> {
    static string name() {
        return "Rc<" + G<T>::name() + ">";
    }
    static Rc<T, P> gen(Src& s, string& o) {
        return gen_rc<Rc, T, P>(s, o, "Rc");
    }
};
template<typename T, typename P>
struct G<Arc<T, P>> {
    static string name() {
        return "Arc<" + G<T>::name() + ">";
    }
    static Arc<T, P> gen(Src& s, string& o) {
        return gen_rc<Arc, T, P>(s, o, "Arc");
    }
};
template<typename T>
struct G<Ref<T>> {
    static string name() {
        return "Ref<" + G<T>::name() + ">";
    }
    static Ref<T> gen(Src& s, string& o) {
        if(s.chance(1, 3)) {
            o += "Ref{null}";
            return {};
        }
        o += "Ref{";
        auto v = std::make_shared<T>(G<T>::gen(s, o));
        keep.push_back(v);
        o += "}";
        return Ref<T>{*v};
    }
};
template<typename T>
struct G<Storage<T>> {
    static string name() {
        return "Storage<" + G<T>::name() + ">";
    }
    static Storage<T> gen(Src& s, string& o) {
        string skip;
        o += "Storage<" + string((const char*)Reflect::Refl<T>::name) + ">";
        return Storage<T>{G<T>::gen(s, skip)};
    }
};
template<typename A, typename B>
struct G<Pair<A, B>> {
    static string name() {
        return "Pair<" + G<A>::name() + ", " + G<B>::name() + ">";
    }
    static Pair<A, B> gen(Src& s, string& o) {
        o += "Pair{";
        A a = G<A>::gen(s, o);
        o += ", ";
        B b = G<B>::gen(s, o);
        o += "}";
        return Pair<A, B>{rpp::move(a), rpp::move(b)};
    }
};
template<>
struct G<Tuple<>> {
    static string name() {
        return "Tuple<>";
    }
    static Tuple<> gen(Src&, string& o) {
        o += "Tuple{}";
        return {};
    }
};
template<typename T, typename... Ts>
struct G<Tuple<T, Ts...>> {
    static string name() {
        string r = "Tuple<" + G<T>::name();
        ((r += ", " + G<Ts>::name()), ...);
        return r + ">";
    }
    static Tuple<T, Ts...> gen(Src& s, string& o) {
        o += "Tuple{";
        Tuple<T, Ts...> r{G<T>::gen(s, o), (o += ", ", G<Ts>::gen(s, o))...};
        o += "}";
        return r;
    }
};
template<Literal N, typename T>
struct G<Named<N, T>> {
    static string name() {
        return (const char*)N;
    }
    static Named<N, T> gen(Src& s, string& o) {
        o += (const char*)N + string("{");
        Named<N, T> r{G<T>::gen(s, o)};
        o += "}";
        return r;
    }
};
template<typename T, typename... Ts>
struct G<Variant<T, Ts...>> {
    using V = Variant<T, Ts...>;
    static string name() {
        string r = "Variant<" + G<T>::name();
        ((r += ", " + G<Ts>::name()), ...);
        return r + ">";
    }
    static V gen(Src& s, string& o) {
        o += "Variant{";
        U k = s.draw(sizeof...(Ts));
        using F = V (*)(Src&, string&);
        static const F f[] = {+[](Src& s, string& o) { return V{G<T>::gen(s, o)}; }, +[](Src& s, string& o) { return V{G<Ts>::gen(s, o)}; }...};
        V r = f[k](s, o);
        o += "}";
        return r;
    }
};
template<typename R, typename... As>
struct G<Function<R(As...)>> {
    static string args() {
        string r;
        U i = 0;
        ((r += (i++ ? ", " : "") + G<As>::name()), ...);
        return r;
    }
    static string name() {
        return "Function<" + G<R>::name() + "(" + args() + ")>";
    }
    static Function<R(As...)> gen(Src&, string& o) {
        o += "Function{" + G<R>::name() + "(" + args() + ")}";
        return Function<R(As...)>{[](As...) -> R {
            if constexpr(!std::is_void_v<R>) return R{};
        }};
    }
};
template<>
struct G<Thread::Atomic> {
    static string name() {
        return "Atomic";
    }
    static Thread::Atomic gen(Src& s, string& o) {
        o += "Atomic{value_ : ";
        i64 v = G<i64>::gen(s, o);
        o += "}";
        return Thread::Atomic{v};
    }
};
template<typename T, U N>
struct G<Math::Vect<T, N>> {
    static constexpr const char* suffix = std::is_floating_point_v<T> ? "" : std::is_signed_v<T> ? "i" : "u";
    static string name() {
        return (N <= 4 ? "Vec" + std::to_string(N) + suffix : string("VecN") + suffix) + "<" + G<T>::name() + ", " + std::to_string(N) + ">";
    }
    static Math::Vect<T, N> gen(Src& s, string& o) {
        Math::Vect<T, N> v;
        o += "Vec" + std::to_string(N) + suffix + "{";
        list(s, o, N, [&](U i) { v[i] = G<T>::gen(s, o); });
        o += "}";
        return v;
    }
};
template<>
struct G<Math::Quat> {
    static string name() {
        return "Quat";
    }
    static Math::Quat gen(Src& s, string& o) {
        Math::Quat v;
        o += "Quat{";
        list(s, o, 4, [&](U i) { (i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w) = G<f32>::gen(s, o); });
        o += "}";
        return v;
    }
};
template<>
struct G<Math::BBox> {
    static string name() {
        return "BBox";
    }
    static Math::BBox gen(Src& s, string& o) {
        Math::BBox v;
        o += "BBox{{";
        list(s, o, 3, [&](U i) { v.min[i] = G<f32>::gen(s, o); });
        o += "}, {";
        list(s, o, 3, [&](U i) { v.max[i] = G<f32>::gen(s, o); });
        o += "}}";
        return v;
    }
};
template<>
struct G<Math::Mat4> {
    static string name() {
        return "Mat4";
    }
    static Math::Mat4 gen(Src& s, string& o) {
        Math::Mat4 m;
        o += "Mat4{";
        list(s, o, 4, [&](U i) {
            o += "{";
            list(s, o, 4, [&](U j) { m[i][j] = G<f32>::gen(s, o); });
            o += "}";
        });
        o += "}";
        return m;
    }
};

// ---- format strings ---------------------------------------------------------------------------------------
struct Fmt {
    string text;
    std::vector<string> lit; // rendered literal pieces around the placeholders
    U args() const {
        return lit.size() - 1;
    }
};
static Fmt parse(const string& f) {
    Fmt r{f, {""}};
    for(U i = 0; i < f.size(); i++) {
        if(f[i] != '%') r.lit.back() += f[i];
        else if(i + 1 < f.size() && f[i + 1] == '%') r.lit.back() += '%', i++;
        else r.lit.push_back("");
    }
    return r;
}
static Fmt draw_fmt(Src& s, U max_args) {
    string f;
    U n = s.draw(8);
    for(U i = 0; i < n; i++) {
        switch(s.pick({4, 2, 3, 1})) {
        case 0: f += '%'; break;
        case 1: f += "%%"; break;
        case 2: f += s.of<string>({" ", "a", "{", "}", "\n", "%s", "d", "\\", ", "}); break;
        case 3: f += s.bytes(3); break;
        }
    }
    Fmt r = parse(f);
    while(r.args() > max_args) {
        f.pop_back();
        r = parse(f);
    }
    return r;
}
template<typename... Ts>
static void check_fmt(Src& s, const Fmt& f, const string* want, const Ts&... args) {
    string e = f.lit[0];
    for(U i = 0; i < f.args(); i++) e += want[i] + f.lit[i + 1];
    String_View fv = view(f.text);
    U len = format_length(fv, args...);
    CHECK(len == e.size(), "format_length(%s) is %lu, the text has %lu characters: %s", q(f.text).c_str(), len, e.size(), q(e).c_str());
    string got;
    switch(s.draw(2)) {
    case 0: got = str(format<TA<0>>(fv, args...)); break;
    case 1: got = str(format<Mdefault>(fv, args...)); break;
    case 2:
        Region(R) {
            got = str(format<Mregion<R>>(fv, args...));
        }
        break;
    }
    CHECK(got == e, "format(%s) gives %s, expected %s", q(f.text).c_str(), q(got).c_str(), q(e).c_str());
}
template<typename T>
static void one(Src& s) {
    Case c;
    {
        arena.clear();
        keep.clear();
        budget = 30;
        string w[4];
        Fmt f = draw_fmt(s, 4);
        NOTE("format %s with %lu arguments around a %s", q(f.text).c_str(), f.args(), G<T>::name().c_str());
        switch(f.args()) {
        case 0: {
            string got = str(format<TA<0>>(view(f.text)));
            CHECK(got == f.lit[0] && format_length(view(f.text)) == f.lit[0].size(), "format(%s) gives %s", q(f.text).c_str(), q(got).c_str());
            break;
        }
        case 1: {
            auto a = G<T>::gen(s, w[0]);
            check_fmt<T>(s, f, w, a);
            break;
        }
        case 2: {
            auto a = G<T>::gen(s, w[0]);
            auto b = G<i32>::gen(s, w[1]);
            check_fmt<T, i32>(s, f, w, a, b);
            break;
        }
        case 3: {
            auto a = G<String_View>::gen(s, w[0]);
            auto b = G<T>::gen(s, w[1]);
            auto d = G<T>::gen(s, w[2]);
            check_fmt<String_View, T, T>(s, f, w, a, b, d);
            break;
        }
        case 4: {
            auto a = G<bool>::gen(s, w[0]);
            auto b = G<T>::gen(s, w[1]);
            auto d = G<Opt<u8>>::gen(s, w[2]);
            auto e = G<T>::gen(s, w[3]);
            check_fmt<bool, T, Opt<u8>, T>(s, f, w, a, b, d, e);
            break;
        }
        }
        if(f.args() >= 1 && f.text.size() >= 3) pbt::nontrivial();
        string tn = str(format_typename<T, TA<0>>());
        CHECK(tn == G<T>::name(), "the type is named %s, expected %s", q(tn).c_str(), G<T>::name().c_str());
        keep.clear();
    }
    c.settled("after formatting");
}
using namespace rpp::Math;
template<typename... Ts>
static void any(Src& s) {
    using F = void (*)(Src&);
    static const F f[] = {one<Ts>...};
    U k = s.draw(sizeof...(Ts) - 1);
    f[k](s);
}
#if PART == 0
PROP(scalars, 60000, 2000000) {
    any<i32, u8, char, i8, i16, u16, u32, i64, u64, f32, f64, bool, String_View, String<>, S0, i32*, const u8*, void*, Fruit, Neg, Fruit**>(s);
}
#endif
#if PART == 2
PROP(records_and_library_values, 60000, 2000000) {
    any<Point, Hollow, Deep, Opt<i32>, Opt<Opt<String_View>>, Pair<i32, f32>, Pair<Deep, Vec<Point>>, Tuple<>, Tuple<i32>, Tuple<f32, i32, String_View>,
        Tuple<Tuple<u8>, Pair<char, bool>, Tuple<>>, Variant<i32, f32>, Variant<Named<"One", i32>, Named<"Two", i32>>, Variant<u8, i8, u16, i16, u32, i32, u64, i64, f32, String<>>,
        Named<"Solo", Vec<u8>>, Ref<i32>, Ref<Point>, Storage<i32>, Storage<Point>, Thread::Atomic, Function<void()>, Function<i32(i32, u8)>, Function<f32(String_View)>>(s);
}
#endif
#if PART == 1
PROP(containers, 60000, 2000000) {
    any<Vec<i32>, Vec<String<>>, Vec<Vec<u8>>, Vec<Point>, Vec<Opt<Fruit>>, Slice<const i32>, Slice<const String_View>, Array<i32, 1>, Array<f32, 3>, Array<Vec<i32>, 2>,
        Box<i32>>(s);
}
#endif
#if PART == 4
PROP(more_containers, 60000, 2000000) {
    any<Stack<i32>, Stack<String_View>, Queue<i32>, Queue<Pair<i32, bool>>, Heap<i32>, Map<i32, i32>, Map<i32, String_View>, Map<i32, Vec<Fruit>>, Box<i32>,
        Box<Deep>, Vec<Box<i32>>, Rc<i32>, Arc<String_View>, Rc<Vec<i32>>, Opt<Box<Tuple<i32, char>>>, Vec<Variant<i32, String<>>>, Vec<Tuple<u8, Opt<u8>>>>(s);
}
#endif
#if PART == 3
PROP(vectors_and_matrices, 30000, 1000000) {
    any<Vec2, Vec3, Vec4, VecN<5>, Vec2i, Vec3i, Vec4i, VecNi<7>, Vec2u, Vec3u, Vec4u, VecNu<5>, Quat, BBox, Mat4, Vec<Vec3>, Opt<Mat4>>(s);
}

// Many components: tuples, functions, variants and arrays far wider than the usual ones.
PROP(wide, 30000, 1000000) {
    any<Tuple<u8, i8, u16, i16, u32, i32, u64, i64, f32, bool, char, String_View>, Tuple<i32, i32, i32, i32, i32, i32, i32, i32, i32>, Array<u8, 40>, Array<Opt<i32>, 17>,
        Function<i32(i8, i16, i32, i64, u8)>, Function<void(bool, bool, bool, bool, bool, bool, bool, bool, bool)>,
        Function<Vec<i32>(String_View, Opt<i32>, Vec<u8>, Pair<i32, bool>, char, f32, i64)>, Function<bool(i32*, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>,
        Variant<u8, i8, u16, i16, u32, i32, u64, i64, f32, bool, char, String_View, Opt<u8>, Vec<u8>>, Tuple<Function<void(i32, i32, i32)>, Function<i32()>>>(s);
}

// C arrays and null, which are not values a generator can return.
PROP(c_arrays, 20000, 500000) {
    i32 a[3];
    f64 b[2];
    u8 d[2][2];
    Point p[1];
    string wa = "[", wb = "[", wd = "[", wp = "[";
    list(s, wa, 3, [&](U i) { a[i] = G<i32>::gen(s, wa); });
    list(s, wb, 2, [&](U i) { b[i] = G<f64>::gen(s, wb); });
    list(s, wd, 2, [&](U i) {
        wd += "[";
        list(s, wd, 2, [&](U j) { d[i][j] = G<u8>::gen(s, wd); });
        wd += "]";
    });
    p[0] = G<Point>::gen(s, wp);
    string g = str(format<TA<0>>("|% %|% %% % %"_v, a, b, d, null, p));
    string e2 = "|" + wa + "] " + wb + "]|" + wd + "] % (null) " + wp + "]";
    CHECK(g == e2, "arrays are rendered %s, expected %s", q(g).c_str(), q(e2).c_str());
    CHECK(str(format_typename<i32[3], TA<0>>()) == "i32[3]" && str(format_typename<const i32&, TA<0>>()) == "const i32&" &&
              str(format_typename<volatile f32&&, TA<0>>()) == "volatile f32&&" && str(format_typename<const volatile u8, TA<0>>()) == "const volatile u8" &&
              str(format_typename<Point**, TA<0>>()) == "Point**" && str(format_typename<Vec<const Slice<i32>*>&, TA<0>>()) == "Vec<const Slice<i32>*>&",
          "a qualified type is named wrongly");
    pbt::nontrivial();
}

// As many arguments as there are, in order; any other number is fatal.
PROP(many_arguments, 20000, 500000) {
    Case c;
    {
        arena.clear();
        budget = 30;
        string w[8], f;
        for(U i = 0; i < 8; i++) {
            f += s.of<string>({"", "x", " y", "%%"});
            f += s.coin() ? "% " : "%.";
        }
        Fmt F = parse(f);
        auto a = G<i8>::gen(s, w[0]);
        auto b = G<String_View>::gen(s, w[1]);
        auto d = G<u64>::gen(s, w[2]);
        auto g = G<Pair<i32, bool>>::gen(s, w[3]);
        auto h = G<f32>::gen(s, w[4]);
        auto i = G<Vec<i16>>::gen(s, w[5]);
        auto j = G<char>::gen(s, w[6]);
        auto k = G<S0>::gen(s, w[7]);
        NOTE("format %s with 8 arguments", q(f).c_str());
        check_fmt(s, F, w, a, b, d, g, h, i, j, k);
    }
    c.settled("after formatting");
    pbt::nontrivial();
}
PROP(argument_mismatch, 500, 8000) {
    Fmt f = draw_fmt(s, 6);
    U n = s.draw(3);
    NOTE("format %s (%lu placeholders) with %lu arguments", q(f.text).c_str(), f.args(), n);
    auto run = [&]() {
        i32 x = 5;
        switch(n) {
        case 0: (void)format<TA<0>>(view(f.text)); break;
        case 1: (void)format<TA<0>>(view(f.text), x); break;
        case 2: (void)format<TA<0>>(view(f.text), x, "s"_v); break;
        case 3: (void)format<TA<0>>(view(f.text), x, "s"_v, true); break;
        }
    };
    if(f.args() == n) {
        run();
        Case::reset<0>();
    } else {
        pbt::nontrivial();
        EXPECT_DIES("formatting with the wrong number of arguments", run());
    }
}

// Enumerations: declared names, Invalid otherwise.
PROP(enum_names, 20000, 200000) {
    u16 v = s.coin() ? s.of<u16>({3, 700, 1, 0, 2}) : (u16)s.bits(16);
    string e = v == 3 ? "apple" : v == 700 ? "kiwi" : v == 1 ? "fig" : "";
    NOTE("Fruit(%d)", v);
    string n = (const char*)Format::enum_name((Fruit)v);
    CHECK(n == (e.empty() ? "Invalid" : e), "enum_name(%d) is %s", v, n.c_str());
    string g = str(format<TA<0>>("%"_v, (Fruit)v));
    CHECK(g == "Fruit::" + e, "Fruit(%d) is rendered %s", v, g.c_str());
    pbt::nontrivial();
    Case::reset<0>();
}

// Texts of up to several hundred thousand characters, from long formats and long values.
PROP(long_output, 40, 800) {
    Case c;
    {
        U n = big_size(s, s.of<U>({8, 11, 14})), m = big_size(s, 8), seed = s.draw(~0ull), reps = s.of<U>({0, 3, 300, 3000});
        string txt(n, 'q'), e, pad;
        for(U i = 0; i < n; i++) txt[i] = (char)(' ' + pbt::mix(seed + i) % 90);
        for(U i = 0; i < reps; i++) pad += i % 3 ? "~" : "%%";
        string padded;
        for(U i = 0; i < reps; i++) padded += i % 3 ? "~" : "%";
        Vec<i64, TA<0>> v;
        string wv = "Vec[";
        for(U i = 0; i < n; i++) {
            i64 x = (i64)pbt::mix(seed ^ i) >> (i % 64);
            v.push(x);
            wv += (i ? ", " : "") + std::to_string(x);
        }
        wv += "]";
        Vec<String<TA<1>>, TA<0>> vs;
        string ws = "Vec[";
        for(U i = 0; i < m; i++) {
            string one = txt.substr(0, std::min<U>(n, i % 40));
            vs.push(view(one).string<TA<1>>());
            ws += (i ? ", " : "") + one;
        }
        ws += "]";
        Queue<u8, TA<0>> qu;
        string wq = "Queue[";
        for(U i = 0; i < m; i++) {
            qu.push((u8)i);
            wq += (i ? ", " : "") + std::to_string((u8)i);
        }
        wq += "]";
        string f = pad + "%" + txt.substr(0, std::min<U>(n, 700));
        string lit;
        for(char ch : f.substr(pad.size() + 1)) lit += ch == '%' ? "/" : string(1, ch);
        f = pad + "%" + lit + "% and % then %." + pad;
        e = padded + txt + lit + wv + " and " + ws + " then " + wq + "." + padded;
        NOTE("a text of %lu characters: string of %lu, vectors of %lu and %lu, %lu literal pieces", (U)e.size(), n, n, m, reps);
        String_View tv = view(txt);
        U len = format_length(view(f), tv, v, vs, qu);
        CHECK(len == e.size(), "format_length is %lu, the text has %lu characters", len, (U)e.size());
        auto got = format<TA<0>>(view(f), tv, v, vs, qu);
        CHECK(got.length() == e.size() && str(got) == e, "a text of %lu characters is rendered differently", (U)e.size());
        Region(R) {
            CHECK(str(format<Mregion<R>>(view(f), tv, v, vs, qu)) == e, "a text of %lu characters is rendered differently in a region", (U)e.size());
        }
        if(e.size() > 4096) pbt::nontrivial();
        if(e.size() > 65536) pbt::label("more than 65536 characters");
    }
    c.settled("after formatting");
}
#endif
