// C10: Opt, Variant, Tuple, Pair, Storage and Ref hold exactly the last value put in them.
#include "model.h"
#include <rpp/box.h>
using namespace t;

struct alignas(64) Wide { // over-aligned
    int v;
    u8 pad[70];
    bool operator==(const Wide&) const = default;
};
namespace t {
template<>
struct E<Wide> {
    static constexpr const char* name = "over-aligned struct";
    static constexpr bool owns = false, copyable = true, clonable = true, eq = true;
    static constexpr int max = 30000;
    static Wide make(int v) {
        Wide w{};
        w.v = v;
        for(int i = 0; i < 70; i++) w.pad[i] = (u8)(v + i);
        return w;
    }
    static int val(const Wide& w) {
        CHECK((uintptr_t)&w % 64 == 0, "over-aligned element misaligned");
        for(int i = 0; i < 70; i++) CHECK(w.pad[i] == (u8)(w.v + i), "element bytes corrupted");
        return w.v;
    }
};
template<>
struct E<Box<Tok, TA<0>>> {
    static constexpr const char* name = "box";
    static constexpr bool owns = false, copyable = false, clonable = true, eq = false;
    static constexpr int max = 30000;
    static Box<Tok, TA<0>> make(int v) {
        return Box<Tok, TA<0>>{v};
    }
    static int val(const Box<Tok, TA<0>>& b) {
        return b->get();
    }
};
template<typename T>
struct E<Opt<T>> {
    static constexpr const char* name = "option";
    static constexpr bool owns = false, copyable = false, clonable = true, eq = false;
    static constexpr int max = E<T>::max;
    static Opt<T> make(int v) {
        return Opt<T>{E<T>::make(v)};
    }
    static int val(const Opt<T>& b) {
        CHECK(b.ok(), "nested option lost its value");
        return E<T>::val(*b);
    }
};
} // namespace t
using Str = String<TA<0>>;
using Nest = Vec<Tok, TA<1>>;
using BoxT = Box<Tok, TA<0>>;

// ---- Opt ---------------------------------------------------------------------------------------------
template<typename T>
static void opt(Src& s) {
    Case c;
    {
        const U N = 4;
        std::unique_ptr<Opt<T>> o[N];
        std::unique_ptr<int> m[N];
        for(U i = 0; i < N; i++) o[i] = std::make_unique<Opt<T>>();
        U stored = 0, replaced = 0;
        auto put = [&](U i, int v) {
            if(m[i]) replaced++;
            m[i] = std::make_unique<int>(v);
            stored++;
        };
        U left = s.limit(20, 60, 200);
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            int v = (int)s.draw(E<T>::max - 1);
            switch(s.pick({4, 4, 3, 3, 4, 3, 3, 3, 2, 2, 2, 2})) {
            case 0:
                NOTE("o%lu = T(%d)", i, v);
                *o[i] = E<T>::make(v);
                put(i, v);
                break;
            case 1:
                NOTE("o%lu.emplace(%d)", i, v);
                o[i]->emplace(E<T>::make(v));
                put(i, v);
                break;
            case 2:
                NOTE("renew o%lu as Opt{T(%d)}", i, v);
                o[i] = std::make_unique<Opt<T>>(E<T>::make(v));
                put(i, v);
                break;
            case 3:
                NOTE("o%lu.clear()", i);
                o[i]->clear();
                m[i].reset();
                break;
            case 4:
                if(i != j) {
                    NOTE("o%lu = move(o%lu)", i, j);
                    *o[i] = rpp::move(*o[j]);
                    if(m[j]) put(i, *m[j]);
                    else m[i].reset();
                    o[j]->clear(); // what a moved-from option reports is not specified
                    m[j].reset();
                }
                break;
            case 5:
                if(i != j) {
                    NOTE("renew o%lu from move(o%lu)", i, j);
                    o[i].reset();
                    o[i] = std::make_unique<Opt<T>>(rpp::move(*o[j]));
                    m[i] = std::move(m[j]);
                    *o[j] = Opt<T>{};
                }
                break;
            case 6: {
                NOTE("o%lu = o%lu.clone()", i, j);
                auto cl = o[j]->clone();
                if(m[j]) put(i, *m[j]);
                else m[i].reset();
                *o[i] = rpp::move(cl);
                break;
            }
            case 7:
                if constexpr(Trivially_Copyable<T>) {
                    NOTE("o%lu = o%lu (copy)", i, j);
                    Opt<T> tmp = *o[j];
                    *o[i] = tmp;
                    if(m[j]) put(i, *m[j]);
                    else m[i].reset();
                } else if constexpr(Copy_Constructable<T>) {
                    NOTE("renew o%lu from a const lvalue %d", i, v);
                    const T val = E<T>::make(v);
                    o[i] = std::make_unique<Opt<T>>(val);
                    put(i, v);
                }
                break;
            case 8:
                if(m[i]) {
                    NOTE("*o%lu = T(%d)", i, v);
                    **o[i] = E<T>::make(v);
                    put(i, v);
                }
                break;
            case 9: {
                T other = E<T>::make(v);
                T& r = o[i]->value_or(other);
                CHECK(E<T>::val(r) == (m[i] ? *m[i] : v), "value_or yields %d", E<T>::val(r));
                CHECK((&r == &other) == !m[i], "value_or refers to the wrong object");
                break;
            }
            case 10:
                NOTE("renew o%lu empty", i);
                o[i] = std::make_unique<Opt<T>>();
                m[i].reset();
                break;
            case 11:
                NOTE("o%lu = Opt{}", i);
                *o[i] = Opt<T>{};
                m[i].reset();
                break;
            }
            int64_t live = 0;
            for(U k = 0; k < N; k++) {
                const Opt<T>& q = *o[k];
                CHECK(q.ok() == !!m[k], "o%lu reports %d, it %s a value", k, q.ok(), m[k] ? "holds" : "does not hold");
                if(!m[k]) continue;
                live += 1;
                CHECK(E<T>::val(*q) == *m[k], "o%lu holds %d, expected %d", k, E<T>::val(*q), *m[k]);
                CHECK(q.operator->() == &*q && o[k]->operator->() == &**o[k], "operator-> and operator* disagree");
                CHECK((uintptr_t)&*q % alignof(T) == 0, "misaligned value");
            }
            if constexpr(E<T>::owns) CHECK(L.live == live, "%ld values live, %ld options hold one", (long)L.live, (long)live);
        }
        if(stored >= 4 && replaced) pbt::nontrivial();
        U k = s.draw(N - 1);
        if(!m[k] && s.chance(1, 60)) {
            const Opt<T>& q = *o[k];
            U via = s.draw(3);
            EXPECT_DIES("reading an empty option", {
                if(via == 0) (void)*(volatile u8*)&*q;
                if(via == 1) (void)*(volatile u8*)&**o[k];
                if(via == 2) (void)*(volatile u8*)q.operator->();
                if(via == 3) (void)*(volatile u8*)o[k]->operator->();
            });
        }
    }
    c.settled("after the options are gone");
}
PROP(opt_histories, 40000, 1500000) {
    switch(s.draw(10)) {
    case 0: return opt<int>(s);
    case 1: return opt<Tok>(s);
    case 2: return opt<u8>(s);
    case 3: return opt<Big>(s);
    case 4: return opt<Cpy>(s);
    case 10: return opt<Odd>(s);
    case 5: return opt<Str>(s);
    case 6: return opt<Nest>(s);
    case 7: return opt<BoxT>(s);
    case 8: return opt<Opt<Tok>>(s);
    case 9: return opt<Wide>(s);
    }
}

// ---- Variant -------------------------------------------------------------------------------------------
// I-th alternative with the element type chosen by Base.
template<int I, typename T>
struct Alt {
    T t;
    explicit Alt(int v) : t(E<T>::make(v)) {
    }
    Alt(Alt&&) noexcept = default;
    Alt& operator=(Alt&&) noexcept = default;
    Alt(const Alt&) noexcept = default;
    Alt& operator=(const Alt&) noexcept = default;
};
template<int I>
struct Alt<I, Tok> {
    Tok t;
    explicit Alt(int v) : t(v) {
    }
    Alt(Alt&&) noexcept = default;
    Alt& operator=(Alt&&) noexcept = default;
    Alt clone() const {
        return Alt{t.get()};
    }
};
template<int I, typename T>
struct E<Alt<I, T>> {
    static Alt<I, T> make(int v) {
        return Alt<I, T>{v};
    }
    static int val(const Alt<I, T>& a) {
        return E<T>::val(a.t);
    }
    static constexpr int max = E<T>::max;
    static constexpr bool owns = E<T>::owns;
};

template<typename... Ts>
static void variant(Src& s) {
    using V = Variant<Ts...>;
    constexpr U K = sizeof...(Ts);
    static constexpr bool owns[] = {E<Ts>::owns...};
    static constexpr int maxes[] = {E<Ts>::max...};
    using Maker = V (*)(int);
    static const Maker makers[] = {+[](int v) { return V{E<Ts>::make(v)}; }...};
    Case c;
    {
        const U N = 3;
        std::unique_ptr<V> o[N];
        struct M {
            U alt;
            int v;
            bool known;
        } m[N];
        auto draw = [&]() {
            U a = s.draw(K - 1);
            return M{a, (int)s.draw((U)maxes[a] - 1), true};
        };
        for(U i = 0; i < N; i++) {
            m[i] = draw();
            NOTE("v%lu is alternative %lu value %d", i, m[i].alt, m[i].v);
            o[i] = std::make_unique<V>(makers[m[i].alt](m[i].v));
        }
        std::set<U> alts;
        U left = s.limit(20, 60, 200);
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            switch(s.pick({5, 3, 3, 3, 3, 2})) {
            case 0:
                m[i] = draw();
                NOTE("v%lu = alternative %lu value %d", i, m[i].alt, m[i].v);
                *o[i] = makers[m[i].alt](m[i].v);
                break;
            case 1:
                m[i] = draw();
                NOTE("renew v%lu as alternative %lu value %d", i, m[i].alt, m[i].v);
                o[i] = std::make_unique<V>(makers[m[i].alt](m[i].v));
                break;
            case 2:
                if(i != j && m[j].known) {
                    NOTE("v%lu = move(v%lu)", i, j);
                    *o[i] = rpp::move(*o[j]);
                    m[i] = m[j];
                    m[j].known = false; // moved from: only to be assigned or destroyed
                }
                break;
            case 3:
                if(i != j && m[j].known) {
                    NOTE("renew v%lu from move(v%lu)", i, j);
                    o[i] = std::make_unique<V>(rpp::move(*o[j]));
                    m[i] = m[j];
                    m[j].known = false;
                }
                break;
            case 4:
                if(m[j].known) {
                    NOTE("v%lu = v%lu.clone()", i, j);
                    V cl = o[j]->clone();
                    *o[i] = rpp::move(cl);
                    m[i] = m[j];
                }
                break;
            case 5:
                if(m[i].known) { // assign through a visit
                    int v = (int)s.draw((U)maxes[m[i].alt] - 1);
                    NOTE("write %d through a visit of v%lu", v, i);
                    U calls = 0;
                    (void)o[i]->match(Overload{[&](Ts& x) {
                        x = E<Ts>::make(v);
                        calls++;
                        return 0;
                    }...});
                    CHECK(calls == 1, "a visit invoked %lu handlers", calls);
                    m[i].v = v;
                }
                break;
            }
            int64_t live = 0;
            for(U k = 0; k < N; k++) {
                if(!m[k].known) continue;
                alts.insert(m[k].alt);
                const V& q = *o[k];
                CHECK(q.index() == m[k].alt, "v%lu reports alternative %d, expected %lu", k, q.index(), m[k].alt);
                U calls = 0;
                auto seen = q.match(Overload{[&](const Ts& x) {
                    calls++;
                    CHECK((uintptr_t)&x % alignof(Ts) == 0, "misaligned alternative");
                    return std::pair<U, int>(Index_Of<Ts, Ts...>, E<Ts>::val(x));
                }...});
                CHECK(calls == 1, "a visit invoked %lu handlers", calls);
                CHECK(seen.first == m[k].alt && seen.second == m[k].v, "visiting v%lu saw alternative %lu value %d, expected %lu value %d", k, seen.first,
                      seen.second, m[k].alt, m[k].v);
                if(owns[m[k].alt]) live++;
            }
            (void)live;
            if constexpr(((E<Ts>::owns || Trivially_Copyable<Ts>)&&...)) CHECK(L.live == live, "%ld owned values live, expected %ld", (long)L.live, (long)live);
        }
        if(alts.size() >= (K < 3 ? K : 3)) pbt::nontrivial();
        // consume by rvalue visit
        for(U k = 0; k < N; k++) {
            if(!m[k].known) continue;
            auto got = rpp::move(*o[k]).match(Overload{[&](Ts&& x) {
                Ts mine{rpp::move(x)};
                return std::pair<U, int>(Index_Of<Ts, Ts...>, E<Ts>::val(mine));
            }...});
            CHECK(got.first == m[k].alt && got.second == m[k].v, "an rvalue visit saw alternative %lu value %d, expected %lu value %d", got.first, got.second,
                  m[k].alt, m[k].v);
        }
    }
    c.settled("after the variants are gone");
}
template<int... Is>
using Toks = std::integer_sequence<int, Is...>;
template<int... Is>
static void variant_toks(Src& s, std::integer_sequence<int, Is...>) {
    variant<Alt<Is, Tok>...>(s);
}
// alternating kinds and sizes
template<int I>
using Mix = std::conditional_t<I % 4 == 0, Alt<I, int>, std::conditional_t<I % 4 == 1, Alt<I, Tok>, std::conditional_t<I % 4 == 2, Alt<I, Cpy>, Alt<I, Tri>>>>;
template<int I>
using Triv = std::conditional_t<I % 4 == 0, Alt<I, u8>, std::conditional_t<I % 4 == 1, Alt<I, Tri>, std::conditional_t<I % 4 == 2, Alt<I, Big>, Alt<I, U>>>>;
template<int... Is>
static void variant_mix(Src& s, std::integer_sequence<int, Is...>) {
    variant<Mix<Is>...>(s);
}
template<int... Is>
static void variant_triv(Src& s, std::integer_sequence<int, Is...>) {
    variant<Triv<Is>...>(s);
}
template<int N>
using Seq = std::make_integer_sequence<int, N>;
PROP(variant_histories, 40000, 1500000) {
    switch(s.draw(17)) {
    case 14: return variant<Odd>(s);
    case 15: return variant<u8, Odd, int>(s);
    case 16: return variant<Odd, Tok, Tri>(s);
    case 17: return variant<Alt<0, Odd>, Alt<1, Odd>, int, Alt<3, Odd>, u8, Tri, U, Alt<7, Odd>, Alt<8, int>>(s);
    case 0: return variant<int>(s);
    case 1: return variant<int, Tok>(s);
    case 2: return variant<Tok, u8>(s);
    case 3: return variant<Str, int, Nest>(s);
    case 4: return variant<Big, Tri, u8, U>(s);
    case 5: return variant<Cpy, Tok, Big, Str, Nest, Tri>(s);
    case 6: return variant<u8, Wide, Tok>(s);
    case 7: return variant_toks(s, Seq<8>{});
    case 8: return variant_toks(s, Seq<9>{});
    case 9: return variant_mix(s, Seq<7>{});
    case 10: return variant_mix(s, Seq<12>{});
    case 11: return variant_mix(s, Seq<33>{});
    case 12: return variant_triv(s, Seq<6>{});
    case 13: return variant_triv(s, Seq<20>{});
    }
}
// The maximum number of alternatives, and named alternatives of one type.
template<int... Is>
static void huge(Src& s, std::integer_sequence<int, Is...>) {
    using V = Variant<Constant<u64, Is>..., Alt<999, int>>; 
    using Make = V (*)();
    static const Make mk[] = {+[]() { return V{Constant<u64, Is>{}}; }...};
    U i = s.draw(sizeof...(Is)), v = s.draw(1000);
    NOTE("alternative %lu of 71", i);
    V x = i == sizeof...(Is) ? V{Alt<999, int>{(int)v}} : mk[i]();
    V y = rpp::move(x);
    CHECK(y.index() == i, "alternative %lu reports index %d", i, y.index());
    U seen = y.match(Overload{[](const Constant<u64, Is>&) { return (U)Is; }..., [&](const Alt<999, int>& a) {
                                  CHECK(a.t == (int)v, "wrong value");
                                  return (U)sizeof...(Is);
                              }});
    CHECK(seen == i, "a visit of alternative %lu invoked handler %lu", i, seen);
    pbt::nontrivial();
}
PROP(variant_extremes, 3000, 30000) {
    huge(s, Seq<70>{});
    using A = Named<"A", int>;
    using B = Named<"B", int>;
    using C = Named<"C", Str>;
    Case c;
    {
        using V = Variant<A, B, C>;
        U k = s.draw(2);
        int v = (int)s.draw(1000);
        V x = k == 0 ? V{A{v}} : k == 1 ? V{B{v}} : V{C{E<Str>::make(v)}};
        V y = rpp::move(x);
        auto got = y.match(Overload{[](A& a) { return std::pair<U, int>(0, (int&)a); }, [](B& b) { return std::pair<U, int>(1, (int&)b); },
                                    [](C& c) { return std::pair<U, int>(2, E<Str>::val(c.value)); }});
        CHECK(got.first == k && got.second == v, "named alternative %lu value %d, expected %lu %d", got.first, got.second, k, v);
    }
    c.settled("after the variant is gone");
}

// ---- Tuple and Pair ----------------------------------------------------------------------------------
template<typename... Ts, U... Is>
static std::vector<int> vals(const Tuple<Ts...>& t, std::index_sequence<Is...>) {
    return {E<Ts>::val(t.template get<Is>())...};
}
template<typename... Ts>
static std::vector<int> vals(const Tuple<Ts...>& t) {
    return vals(t, std::make_index_sequence<sizeof...(Ts)>{});
}
template<typename... Ts, U... Is>
static void tuple_impl(Src& s, std::index_sequence<Is...>) {
    using T = Tuple<Ts...>;
    constexpr U K = sizeof...(Ts);
    Case c;
    {
        std::vector<int> m[2];
        auto draw = [&]() { return std::vector<int>{(int)s.draw((U)E<Ts>::max - 1)...}; };
        auto eq = [&](const T& t, const std::vector<int>& v, const char* what) {
            CHECK(vals(t) == v, "%s: components %s, expected %s", what, show(vals(t)).c_str(), show(v).c_str());
            CHECK(t.length() == K, "length %lu", (U)t.length());
        };
        m[0] = draw();
        m[1] = draw();
        NOTE("a = %s, b = %s", show(m[0]).c_str(), show(m[1]).c_str());
        T a{E<Ts>::make(m[0][Is])...};
        auto b = std::make_unique<T>(E<Ts>::make(m[1][Is])...);
        eq(a, m[0], "constructed");
        eq(*b, m[1], "constructed on the heap");
        const void* addr[] = {&b->template get<Is>()...};
        for(U i = 0; i + 1 < K; i++)
            for(U j = i + 1; j < K; j++) CHECK(addr[i] != addr[j], "two components share an address");
        U left = s.limit(6, 12, 30);
        while(s.step(left)) {
            switch(s.pick({3, 3, 2, 2, 2, 2, 2})) {
            case 0: {
                NOTE("b = a.clone()");
                T cl = a.clone();
                eq(cl, m[0], "clone");
                *b = rpp::move(cl);
                m[1] = m[0];
                break;
            }
            case 1: {
                NOTE("swap by moves");
                T tmp{rpp::move(a)};
                a = rpp::move(*b);
                *b = rpp::move(tmp);
                std::swap(m[0], m[1]);
                break;
            }
            case 2: {
                U k = s.draw(K - 1);
                NOTE("component %lu of a replaced", k);
                ((k == Is ? (void)(m[0][Is] = (int)s.draw((U)E<Ts>::max - 1), a.template get<Is>() = E<Ts>::make(m[0][Is])) : (void)0), ...);
                break;
            }
            case 3: { // invoke: every component once, in order
                std::vector<int> seen;
                U n = a.invoke([&](const Ts&... xs) {
                    (seen.push_back(E<Ts>::val(xs)), ...);
                    return (U)(sizeof...(xs) + 77);
                });
                CHECK(seen == m[0] && n == K + 77, "invoke passed %s, expected %s", show(seen).c_str(), show(m[0]).c_str());
                break;
            }
            case 4:
                if constexpr((Trivial<Ts> && ...)) {
                    NOTE("b = a (copy)");
                    T cp = a;
                    *b = cp;
                    m[1] = m[0];
                }
                break;
            case 5:
                if constexpr((Copy_Constructable<Ts> && ...)) {
                    NOTE("b from const lvalues");
                    m[1] = draw();
                    std::tuple<const Ts...> src{E<Ts>::make(m[1][Is])...};
                    b = std::make_unique<T>(std::get<Is>(src)...);
                }
                break;
            case 6: {
                NOTE("b renewed from rvalues");
                m[1] = draw();
                b = std::make_unique<T>(E<Ts>::make(m[1][Is])...);
                break;
            }
            }
            eq(a, m[0], "a");
            eq(*b, m[1], "b");
            int64_t live = 2 * ((int64_t)E<Ts>::owns + ... + 0);
            if(((E<Ts>::owns || Trivially_Copyable<Ts>)&&...)) CHECK(L.live == live, "%ld owned values live, expected %ld", (long)L.live, (long)live);
        }
        if(K >= 2) pbt::nontrivial();
        if constexpr(K == 3) {
            auto& [x, y, z] = a;
            CHECK((void*)&x == (void*)&a.template get<0>() && (void*)&y == (void*)&a.template get<1>() && (void*)&z == (void*)&a.template get<2>(),
                  "structured bindings bind the wrong components");
        }
        if constexpr(K == 2) {
            auto& [x, y] = a;
            CHECK((void*)&x == (void*)&a.template get<0>() && (void*)&y == (void*)&a.template get<1>(), "structured bindings bind the wrong components");
        }
    }
    c.settled("after the tuples are gone");
}
template<typename... Ts>
static void tuple(Src& s) {
    tuple_impl<Ts...>(s, std::make_index_sequence<sizeof...(Ts)>{});
}
PROP(tuples, 30000, 1000000) {
    switch(s.draw(11)) {
    case 0: return tuple<int>(s);
    case 1: return tuple<int, u8>(s);
    case 2: return tuple<Tok, int, Tok>(s);
    case 3: return tuple<int, int, int>(s);
    case 4: return tuple<Cpy, int, Big, Cpy>(s);
    case 5: return tuple<Tok, Str, Nest, int, Tri>(s);
    case 6: return tuple<Big, Tri, u8, U, int, u8, Tri>(s);
    case 7: return tuple<Tok, Tok, Tok, Tok, Tok, Tok, Tok, Tok>(s);
    case 8: return tuple<u8, Wide, Tok>(s);
    case 10: return tuple<Odd, u8, Odd, Tok>(s);
    case 11: return tuple<Odd, Odd>(s);
    case 9: return tuple<BoxT, int>(s);
    }
}

template<typename A, typename B>
static void pair(Src& s) {
    using P = Pair<A, B>;
    Case c;
    {
        int m[2][2];
        auto draw = [&](int* v) {
            v[0] = (int)s.draw((U)E<A>::max - 1);
            v[1] = (int)s.draw((U)E<B>::max - 1);
        };
        draw(m[0]);
        draw(m[1]);
        P a{E<A>::make(m[0][0]), E<B>::make(m[0][1])};
        auto b = std::make_unique<P>(E<A>::make(m[1][0]), E<B>::make(m[1][1]));
        U left = s.limit(6, 12, 30);
        while(s.step(left)) {
            switch(s.pick({3, 3, 2, 2, 2})) {
            case 0: {
                NOTE("b = a.clone()");
                P cl = a.clone();
                *b = rpp::move(cl);
                m[1][0] = m[0][0], m[1][1] = m[0][1];
                break;
            }
            case 1: {
                NOTE("swap by moves");
                P tmp{rpp::move(a)};
                a = rpp::move(*b);
                *b = rpp::move(tmp);
                std::swap(m[0], m[1]);
                break;
            }
            case 2:
                draw(m[0]);
                NOTE("a.first, a.second = %d, %d", m[0][0], m[0][1]);
                if(s.coin()) {
                    a.first = E<A>::make(m[0][0]);
                    a.second = E<B>::make(m[0][1]);
                } else {
                    a.template get<0>() = E<A>::make(m[0][0]);
                    a.template get<1>() = E<B>::make(m[0][1]);
                }
                break;
            case 3: { // the four value-category combinations
                draw(m[1]);
                U k = s.draw(3);
                NOTE("b = Pair{%d, %d} (categories %lu)", m[1][0], m[1][1], k);
                A x = E<A>::make(m[1][0]);
                B y = E<B>::make(m[1][1]);
                b = std::make_unique<P>();
                if(k == 0) *b = P{rpp::move(x), rpp::move(y)};
                if constexpr(Copy_Constructable<A>)
                    if(k == 1) {
                        *b = P{(const A&)x, rpp::move(y)};
                        CHECK(E<A>::val(x) == m[1][0], "copying the first changed it");
                    }
                if constexpr(Copy_Constructable<B>)
                    if(k == 2) {
                        *b = P{rpp::move(x), (const B&)y};
                        CHECK(E<B>::val(y) == m[1][1], "copying the second changed it");
                    }
                if constexpr(Copy_Constructable<A> && Copy_Constructable<B>) {
                    if(k == 3) *b = P{(const A&)x, (const B&)y};
                    if(k == 3) CHECK(E<A>::val(x) == m[1][0] && E<B>::val(y) == m[1][1], "copying changed the source");
                }
                if((k == 1 && !Copy_Constructable<A>) || (k == 2 && !Copy_Constructable<B>) || (k == 3 && !(Copy_Constructable<A> && Copy_Constructable<B>)))
                    *b = P{rpp::move(x), rpp::move(y)};
                break;
            }
            case 4:
                if constexpr(Copy_Constructable<A> && Copy_Constructable<B>) {
                    NOTE("b = a (copy)");
                    P cp = a;
                    if(s.coin()) *b = cp;
                    else *b = rpp::move(cp);
                    m[1][0] = m[0][0], m[1][1] = m[0][1];
                }
                break;
            }
            const P& ca = a;
            const P& cb = *b;
            CHECK(E<A>::val(ca.first) == m[0][0] && E<B>::val(ca.second) == m[0][1], "a holds %d, %d, expected %d, %d", E<A>::val(ca.first), E<B>::val(ca.second),
                  m[0][0], m[0][1]);
            CHECK(E<A>::val(cb.template get<0>()) == m[1][0] && E<B>::val(cb.template get<1>()) == m[1][1], "b holds %d, %d, expected %d, %d",
                  E<A>::val(cb.template get<0>()), E<B>::val(cb.template get<1>()), m[1][0], m[1][1]);
        }
        auto& [x, y] = a;
        CHECK((void*)&x == (void*)&a.first && (void*)&y == (void*)&a.second, "structured bindings bind the wrong components");
        pbt::nontrivial();
    }
    c.settled("after the pairs are gone");
}
PROP(pairs, 20000, 700000) {
    switch(s.draw(6)) {
    case 0: return pair<int, int>(s);
    case 1: return pair<Tok, int>(s);
    case 2: return pair<int, Tok>(s);
    case 3: return pair<Tok, Tok>(s);
    case 4: return pair<Cpy, Big>(s);
    case 5: return pair<Str, Cpy>(s);
    case 6: return pair<Tri, Nest>(s);
    }
}

// ---- Storage and Ref -----------------------------------------------------------------------------------
template<typename T>
static void storage(Src& s) {
    Case c;
    {
        int v = (int)s.draw(E<T>::max - 1), w = (int)s.draw(E<T>::max - 1);
        Storage<T> a{E<T>::make(v)};
        Storage<T> b;
        CHECK(sizeof(b) == sizeof(T) && (uintptr_t)b.data() % alignof(T) == 0, "storage has the wrong size or alignment");
        b.construct(E<T>::make(w));
        const Storage<T>& ca = a;
        CHECK(E<T>::val(*ca) == v && E<T>::val(*b) == w && &*b == (T*)b.data() && b.operator->() == &*b && ca.operator->() == &*ca, "storage holds a wrong value");
        a.destruct();
        a.construct(rpp::move(*b));
        CHECK(E<T>::val(*a) == w, "storage holds a wrong value");
        if constexpr(Trivially_Copyable<T>) {
            Storage<T> d = a;
            CHECK(E<T>::val(*d) == w, "copied storage holds a wrong value");
        }
        a.destruct();
        b.destruct();
        if constexpr(E<T>::owns) CHECK(L.live == 0, "%ld values live after destruct", (long)L.live);
        pbt::nontrivial();
    }
    c.settled("after storage");
}
PROP(storages_and_refs, 5000, 100000) {
    switch(s.draw(6)) {
    case 0: storage<int>(s); break;
    case 1: storage<Tok>(s); break;
    case 2: storage<Cpy>(s); break;
    case 3: storage<Str>(s); break;
    case 4: storage<Wide>(s); break;
    case 6: storage<Odd>(s); break;
    case 5: storage<Tri>(s); break;
    }
    int x[4] = {1, 2, 3, 4};
    Ref<int> r[3];
    int m[3] = {-1, -1, -1};
    U left = s.limit(8, 16, 30);
    while(s.step(left)) {
        U i = s.draw(2), j = s.draw(2);
        switch(s.draw(3)) {
        case 0: m[i] = (int)s.draw(3), r[i] = Ref{x[m[i]]}; break;
        case 1: r[i] = r[j], m[i] = m[j]; break;
        case 2:
            if(i != j) r[i] = rpp::move(r[j]), m[i] = m[j], m[j] = -1;
            break;
        case 3:
            if(m[i] >= 0) *r[i] = x[m[i]] = (int)s.draw(100);
            break;
        }
        for(U k = 0; k < 3; k++) {
            CHECK(r[k].ok() == (m[k] >= 0), "reference %lu reports %d", k, r[k].ok());
            if(m[k] >= 0) CHECK(&*r[k] == &x[m[k]] && r[k].operator->() == &x[m[k]], "reference %lu refers to the wrong object", k);
        }
    }
    U k = s.draw(2);
    if(m[k] < 0 && s.chance(1, 20)) EXPECT_DIES("reading an empty reference", { volatile int v = *r[k]; (void)v; });
}
