// C11: Function calls the stored callable faithfully and owns its captures.
#include "model.h"
#include <rpp/box.h>
#include <rpp/function.h>
using namespace t;
using BoxT = Box<Tok, TA<0>>;
using Str = String<TA<0>>;

template<U N>
struct Bytes {
    u8 b[N];
    explicit Bytes(int v) {
        for(U i = 0; i < N; i++) b[i] = (u8)(v * 7 + (int)i * 13);
    }
    int val(int v) const {
        for(U i = 0; i < N; i++) CHECK(b[i] == (u8)(v * 7 + (int)i * 13), "captured bytes changed");
        return v;
    }
};
struct alignas(16) Al16 {
    int v;
    u8 pad[12];
};

// model of a stored callable
struct M {
    U kind;
    int v;
    int n; // calls so far
    int operator()(int a, int b) {
        n++;
        switch(kind) {
        case 0: return a * 31 + b;
        case 1: return a * v + b;
        case 2: return a + b + v;
        case 3: return v + a - b;
        case 4: return v + n * 1000 + a - b;
        case 5: return v * 2 + a - b + n;
        case 6: return v + n + a * b;
        case 7: return v - a;
        case 8: return (v + n) * 3 + a - b;
        case 9: return v ^ a ^ b;
        case 10: return a - 3 * b;
        case 11: return v + a + n;
        case 13: return v + a * 5 - b;
        default: return v + a + b + n * 17;
        }
    }
    bool owns() const {
        return kind == 3 || kind == 4 || kind == 5 || kind == 7 || kind == 8 || kind == 11;
    }
    int res() const {
        return kind == 11 ? 2 : owns() ? 1 : 0;
    }
};
struct Functor { // const call operator, with data
    int v;
    u8 pad[20];
    int operator()(int a, int b) const {
        return v ^ a ^ b;
    }
};
// Trivial captures of odd sizes: every byte of them must travel along.
template<typename F, U N>
static F odd(int v) {
    struct Cap {
        u8 seed, b[N];
    };
    if constexpr(N == 1) {
        u8 x = (u8)v;
        return F{[x, v = (u16)v](int a, int b) {
            CHECK(x == (u8)v, "captured bytes changed");
            return v + a * 5 - b;
        }};
    } else {
        Cap c;
        static_assert(sizeof(Cap) == N + 1);
        c.seed = (u8)v;
        for(U i = 0; i < N; i++) c.b[i] = (u8)(v >> 8) ^ (u8)(i * 29 + 7);
        return F{[c](int a, int b) {
            u8 hi = c.b[0] ^ 7;
            for(U i = 0; i < N; i++) CHECK(c.b[i] == (u8)(hi ^ (u8)(i * 29 + 7)), "captured byte %lu of %lu changed", i + 1, N + 1);
            return (hi << 8 | c.seed) + a * 5 - b;
        }};
    }
}
template<typename F>
static F make(const M& m) {
    int v = m.v;
    if(m.kind == 13) {
        // v is recoverable from the captured bytes
        constexpr U room = sizeof(F) - 16;
        if constexpr(room >= 304) {
            if(v % 3 == 0) return odd<F, 301>(m.v);
            if(v % 3 == 1) return odd<F, 260>(m.v);
        }
        switch(v % 10) {
        case 0: return odd<F, 1>(m.v);
        case 1: return odd<F, 3>(m.v);
        case 2: return odd<F, 7>(m.v);
        case 3: return odd<F, 9>(m.v);
        case 4: return odd<F, 13>(m.v);
        case 5: return odd<F, 23>(m.v);
        case 6: if constexpr(room >= 32) return odd<F, 31>(m.v); break;
        case 7: if constexpr(room >= 40) return odd<F, 37>(m.v); break;
        case 8: if constexpr(room >= 128) return odd<F, 101>(m.v); break;
        case 9: if constexpr(room >= 128) return odd<F, 127>(m.v); break;
        }
        return odd<F, 17>(m.v);
    }
    switch(m.kind) {
    case 0: return F{[](int a, int b) { return a * 31 + b; }};
    case 1: return F{[v](int a, int b) { return a * v + b; }};
    case 3: return F{[t = Tok{v}](int a, int b) { return t.get() + a - b; }};
    case 10: return F{[](int a, int b) mutable noexcept { return a - 3 * b; }};
    }
    if constexpr(sizeof(F) >= 40) {
        switch(m.kind) {
        case 2: return F{[d = Bytes<28>{v}, v](int a, int b) { return a + b + d.val(v); }}; // exactly 32 bytes
        case 4: return F{[t = Tok{v}, n = 0](int a, int b) mutable { return t.get() + ++n * 1000 + a - b; }};
        case 5: return F{[t = BoxT{v}, n = 0](int a, int b) mutable { return t->get() * 2 + a - b + ++n; }};
        case 6: return F{[t = E<Str>::make(v), n = 0](int a, int b) mutable { return E<Str>::val(t) + ++n + a * b; }};
        case 7: return F{[t = Cpy{v}](int a, int) { return t.get() - a; }};
        case 9: {
            Functor f{v, {}};
            return F{rpp::move(f)};
        }
        case 12: return F{[x = Al16{v, {}}, n = 0](int a, int b) mutable {
                CHECK((uintptr_t)&x % 16 == 0, "16-byte aligned capture misaligned");
                return x.v + a + b + ++n * 17;
            }};
        }
    }
    if constexpr(sizeof(F) >= 64 + 16) {
        switch(m.kind) {
        case 8: { // a function in a function
            Function<int(int)> in{[t = Tok{v}, n = 0](int k) mutable {
                ++n;
                return (t.get() + n) * k;
            }};
            return F{[in = rpp::move(in)](int a, int b) mutable { return in(3) + a - b; }};
        }
        case 11: return F{[t = Tok{v}, u = Tok{1}, n = 0](int a, int) mutable { return t.get() + a + ++n + u.get() - 1; }};
        }
    }
    abort();
}
template<U W>
static void histories(Src& s) {
    using F = FunctionN<W, int(int, int)>;
    Case c;
    {
        const U N = 5;
        std::unique_ptr<F> f[N];
        std::unique_ptr<M> m[N];
        auto draw = [&]() {
            U kind = W >= 8 ? s.draw(13) : W >= 4 ? s.of<U>({0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13}) : s.of<U>({0, 1, 3, 10, 13});
            return M{kind, (int)s.draw(5000), 0};
        };
        for(U i = 0; i < N; i++) {
            m[i] = std::make_unique<M>(draw());
            f[i] = std::make_unique<F>(make<F>(*m[i]));
        }
        U calls = 0, stateful = 0, moves = 0;
        U left = s.limit(20, 60, 200);
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            switch(s.pick({8, 3, 3, 3, 2})) {
            case 0: {
                int a = (int)s.draw(1000) - 500, b = (int)s.draw(1000) - 500;
                if(!m[i]) break;
                NOTE("call f%lu (kind %lu) with %d, %d", i, m[i]->kind, a, b);
                int e = (*m[i])(a, b);
                int g = (*f[i])(a, b);
                CHECK(g == e, "the function returned %d, its callable returns %d", g, e);
                calls++;
                stateful += m[i]->n > 1 && (m[i]->kind == 4 || m[i]->kind == 5 || m[i]->kind == 6 || m[i]->kind == 8 || m[i]->kind >= 11);
                break;
            }
            case 1:
                m[i] = std::make_unique<M>(draw());
                NOTE("f%lu = kind %lu value %d", i, m[i]->kind, m[i]->v);
                *f[i] = make<F>(*m[i]);
                break;
            case 2:
                if(i != j) {
                    NOTE("f%lu = move(f%lu)", i, j);
                    moves += !!m[j];
                    m[i] = std::move(m[j]);
                    *f[i] = rpp::move(*f[j]);
                }
                break;
            case 3:
                if(i != j) {
                    NOTE("renew f%lu from move(f%lu)", i, j);
                    moves += !!m[j];
                    m[i] = std::move(m[j]);
                    f[i] = std::make_unique<F>(rpp::move(*f[j]));
                }
                break;
            case 4:
                m[i] = std::make_unique<M>(draw());
                NOTE("renew f%lu as kind %lu value %d", i, m[i]->kind, m[i]->v);
                f[i] = std::make_unique<F>(make<F>(*m[i]));
                break;
            }
            int64_t live = 0;
            for(U k = 0; k < N; k++)
                if(m[k]) live += m[k]->res();
            CHECK(L.live == live, "%ld captured resources live, expected %ld", (long)L.live, (long)live);
        }
        if(calls >= 3 && moves >= 2 && (stateful || W < 4)) pbt::nontrivial();
        U k = s.draw(N - 1);
        if(!m[k] && s.chance(1, 30)) EXPECT_DIES("calling a moved-from function", { volatile int r = (*f[k])(1, 2); (void)r; });
    }
    c.settled("after the functions are gone");
}
PROP(function_histories, 40000, 1500000) {
    switch(s.draw(5)) {
    case 0: return histories<4>(s);
    case 1: return histories<8>(s);
    case 2: return histories<3>(s);
    case 3: return histories<16>(s);
    case 4: return histories<5>(s);
    case 5: return histories<41>(s);
    }
}

// Arguments and results of every category pass through unchanged.
PROP(argument_passing, 20000, 600000) {
    Case c;
    {
        int base = (int)s.draw(1000);
        std::string str = s.bytes(20);
        Tok held{base};
        int seen_addr_ok = 0;
        U w = s.draw(7);
        int cell = base, other = -1;
        NOTE("signature %lu, value %d", w, base);
        switch(w) {
        case 0: { // move-only in and out
            Function<Tok(Tok)> f{[base](Tok t) {
                CHECK(t.get() == base, "argument changed");
                return Tok{t.get() + 1};
            }};
            Function<Tok(Tok)> g = rpp::move(f);
            Tok r = g(rpp::move(held));
            CHECK(r.get() == base + 1, "result changed");
            CHECK(held.id == 0, "a moved argument was left behind");
            break;
        }
        case 1: { // references alias
            Function<int&(int&, const int&)> f{[&](int& a, const int& b) -> int& {
                seen_addr_ok = &a == &cell && &b == &other;
                a = b + 5;
                return a;
            }};
            int& r = f(cell, other);
            CHECK(seen_addr_ok && &r == &cell && cell == 4, "references do not pass through");
            break;
        }
        case 2: { // rvalue reference: the object itself
            Function<int(Tok&&, Tok&, const Tok&)> f{[&](Tok&& a, Tok& b, const Tok& d) {
                seen_addr_ok = &a == &held && &b != &held && &d == &b;
                Tok mine{rpp::move(a)};
                return mine.get() * 2 + b.get();
            }};
            Tok o{3};
            int r = f(rpp::move(held), o, o);
            CHECK(seen_addr_ok && r == base * 2 + 3, "rvalue references do not pass through");
            break;
        }
        case 3: { // many arguments of all widths
            U x = s.bits(64);
            Function<U(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, const char*)> f{
                [](u8 a, i8 b, u16 d, i16 e, u32 g, i32 h, u64 i, i64 j, f32 k, f64 l, bool m, const char* n) {
                    U r = 1;
                    auto add = [&](U v) { r = pbt::mix(r ^ v); };
                    add(a), add((U)b), add(d), add((U)e), add(g), add((U)h), add(i), add((U)j);
                    u32 kb;
                    u64 lb;
                    memcpy(&kb, &k, 4);
                    memcpy(&lb, &l, 8);
                    add(kb), add(lb), add(m), add((U)(uintptr_t)n);
                    return r;
                }};
            U r = 1;
            auto add = [&](U v) { r = pbt::mix(r ^ v); };
            f32 k = (f32)(int)x / 3;
            f64 l = (f64)(int64_t)x / 7;
            u32 kb;
            u64 lb;
            memcpy(&kb, &k, 4);
            memcpy(&lb, &l, 8);
            add((u8)x), add((U)(i8)(x >> 8)), add((u16)x), add((U)(i16)(x >> 16)), add((u32)x), add((U)(i32)(x >> 32)), add(x), add((U)(i64)~x);
            add(kb), add(lb), add(x & 1), add((U)(uintptr_t)str.data());
            U g = f((u8)x, (i8)(x >> 8), (u16)x, (i16)(x >> 16), (u32)x, (i32)(x >> 32), x, (i64)~x, k, l, (bool)(x & 1), str.data());
            CHECK(g == r, "arguments arrived changed for %lx", x);
            break;
        }
        case 4: { // library values by value
            Function<Str(Str, String_View, Vec<Tok, TA<1>>)> f{[](Str a, String_View b, Vec<Tok, TA<1>> v) {
                Str r = a.append<TA<0>>(b.string<TA<0>>());
                for(auto& t : v) CHECK(t.get() >= 0, "bad element");
                return r;
            }};
            String_View sv{(const u8*)str.data(), str.size()};
            Vec<Tok, TA<1>> v;
            for(U i = 0; i < str.size(); i++) v.push(Tok{(int)i});
            Str r = f(sv.string<TA<0>>(), sv, rpp::move(v));
            CHECK(std::string((const char*)r.data(), r.length()) == str + str, "string arguments or result changed");
            CHECK(v.empty(), "a moved argument was left behind");
            break;
        }
        case 5: { // no arguments, no result
            int n = 0;
            Function<void()> f{[&n]() { n++; }};
            for(int i = 0; i < base % 10; i++) f();
            CHECK(n == base % 10, "a void function ran %d times, called %d times", n, base % 10);
            break;
        }
        case 6: { // large results and by-value aggregates
            FunctionN<1, Big(Big, int)> f{[](Big b, int k) { return E<Big>::make(E<Big>::val(b) + k); }};
            FunctionN<1, Big(Big, int)> g = rpp::move(f);
            Big r = g(E<Big>::make(base), 7);
            CHECK(E<Big>::val(r) == base + 7, "aggregate changed");
            break;
        }
        case 7: { // containers of functions: relocated by growth
            Vec<Function<int(int)>, TA<0>> v;
            U n = s.range(1, 40);
            for(U i = 0; i < n; i++) {
                if(i % 3 == 0) v.push(Function<int(int)>{[t = Tok{(int)i}](int x) { return t.get() * x; }});
                else if(i % 3 == 1) v.push(Function<int(int)>{[i, n = 0](int x) mutable { return (int)i * x + 0 * n++; }});
                else v.push(Function<int(int)>{[b = BoxT{(int)i}](int x) { return b->get() * x; }});
            }
            for(U i = 0; i < n; i++) CHECK(v[i](3) == (int)i * 3, "function %lu in a vector returns %d", i, v[i](3));
            break;
        }
        }
        pbt::nontrivial();
    }
    c.settled("after the call");
}
