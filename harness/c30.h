// Helpers of C30's generated programs.
#pragma once
#include "model.h"
#include <limits>
#include <type_traits>
#include <rpp/rng.h>
#include <rpp/thread.h>
#include <rpp/vmath.h>
namespace g {
using namespace t;
using rpp::Literal;
namespace Reflect = rpp::Reflect;

template<typename T>
inline const char tid_tag = 0;
template<typename T>
const void* tid() {
    return &tid_tag<T>;
}

struct Entry {
    const char* what;
    void (*f)(Src&);
};
inline std::vector<Entry>& entries() {
    static std::vector<Entry> e;
    return e;
}
struct Register {
    Register(const char* what, void (*f)(Src&)) {
        entries().push_back({what, f});
    }
};

// --- records ---
struct Seen {
    std::string name;
    const void* at;
    const void* type;
    U size;
    bool is_const;
};
struct See { // the visitor of constant objects
    std::vector<Seen>* out;
    template<typename T>
    void apply(const Literal& name, const T& field) {
        using X = std::remove_reference_t<T>;
        out->push_back({(const char*)name, &field, tid<std::remove_cv_t<X>>(), sizeof(X), std::is_const_v<std::remove_all_extents_t<X>>});
    }
};
struct See_Const : See { // usable as a constant
    See_Const(std::vector<Seen>* o) : See{o} {
    }
    template<typename T>
    void apply(const Literal& name, const T& field) const {
        const_cast<See_Const*>(this)->See::template apply<T>(name, field);
    }
};
struct See_Mut {
    std::vector<Seen>* out;
    template<typename T>
    void apply(const Literal& name, T& field) {
        using X = std::remove_reference_t<T>;
        out->push_back({(const char*)name, &field, tid<std::remove_cv_t<X>>(), sizeof(X), std::is_const_v<std::remove_all_extents_t<X>>});
    }
};
struct See_Once : See_Mut { // cannot be copied
    See_Once(std::vector<Seen>* o) : See_Mut{o} {
    }
    See_Once(See_Once&&) = default;
    See_Once(const See_Once&) = delete;
};
struct Write { // replaces the bytes of the k-th field
    U k;
    const std::string* bytes;
    U at = 0;
    template<typename T>
    void apply(const Literal&, T& field) {
        if(at++ == k)
            for(U i = 0; i < sizeof(field); i++) ((unsigned char*)&field)[i] = (unsigned char)(*bytes)[i % bytes->size()];
    }
};
struct Want {
    const char* name;
    const void* type;
    U size;
    const void* at;
    bool is_const = false; // declared const
};
inline void judge(const char* how, const std::vector<Seen>& got, const std::vector<Want>& want, bool all_const) {
    CHECK(got.size() == want.size(), "%s: %lu fields visited, %lu declared", how, got.size(), want.size());
    for(U i = 0; i < want.size(); i++) {
        auto &g = got[i];
        auto &w = want[i];
        CHECK(g.name == w.name, "%s: field %lu is called %s, declared %s", how, i, g.name.c_str(), w.name);
        CHECK(g.at == w.at, "%s: field %s is visited %ld bytes off its place", how, w.name, (long)((char*)g.at - (char*)w.at));
        CHECK(g.type == w.type && g.size == w.size, "%s: field %s is visited with another type", how, w.name);
        CHECK(g.is_const == (all_const || w.is_const), "%s: field %s is %sconstant", how, w.name, g.is_const ? "" : "not ");
    }
}
template<typename R, typename F>
void fields(Src& s, R& r, bool bytes, F&& want_of) { // want_of(const R&) -> the declared fields
    std::vector<Want> want = want_of(r);
    std::vector<Seen> got;
    auto again = [&](const char* how, bool c) {
        judge(how, got, want, c);
        got.clear();
    };
    const R& cr = r;
    See see{&got};
    Reflect::iterate_record(see, cr);
    again("constant object", true);
    Reflect::iterate_record(See{&got}, cr);
    again("constant object, temporary visitor", true);
    const See_Const cs{&got};
    Reflect::iterate_record(cs, cr);
    again("constant object, constant visitor", true);
    See_Mut mut{&got};
    Reflect::iterate_record(mut, r);
    again("object", false);
    Reflect::iterate_record(See_Mut{&got}, r);
    again("object, temporary visitor", false);
#ifndef C30_BASE // only in generated programs, whose failure to build is a finding
    Reflect::iterate_record(See_Once{&got}, r);
    again("object, moved visitor", false);
#endif
    if(bytes) {
        std::vector<unsigned char> before((unsigned char*)&r, (unsigned char*)&r + sizeof(R));
        for(U k = 0; k < want.size(); k++) {
            if(want[k].is_const) continue;
            std::string b;
            for(U i = 0, n = s.range(1, 9); i < n; i++) b += (char)s.draw(255);
            if(want[k].size == 1 && want[k].type == tid<bool>()) b = s.coin() ? std::string(1, '\1') : std::string(1, '\0');
            for(U i = 0; i < want[k].size; i++) before[(U)((char*)want[k].at - (char*)&r) + i] = (unsigned char)b[i % b.size()];
            Write w{k, &b};
            Reflect::iterate_record(w, r);
            CHECK(w.at == want.size(), "a writing visitor saw %lu of %lu fields", w.at, want.size());
            CHECK(!memcmp(before.data(), &r, sizeof(R)), "writing field %s did not change exactly that field", want[k].name);
        }
    }
}

// --- enums ---
template<typename E>
struct Want_Case {
    const char* name;
    E value;
};
struct Collect {
    std::vector<std::pair<std::string, __int128>>* out;
    U mine = 0;
    template<typename E>
    void operator()(const Literal& n, const E& v) {
        mine++;
        out->push_back({(const char*)n, (__int128)(std::underlying_type_t<E>)v});
    }
};
template<typename E>
void cases(Src& s, const std::vector<Want_Case<E>>& want, E def, const char* name) {
    using I = std::underlying_type_t<E>;
    std::vector<std::pair<std::string, __int128>> got;
    auto judge = [&](const char* how) {
        CHECK(got.size() == want.size(), "%s: %lu cases visited, %lu declared", how, got.size(), want.size());
        for(U i = 0; i < want.size(); i++) {
            CHECK(got[i].first == want[i].name, "%s: case %lu is called %s, declared %s", how, i, got[i].first.c_str(), want[i].name);
            CHECK(got[i].second == (__int128)(I)want[i].value, "%s: case %s has another value", how, want[i].name);
        }
        got.clear();
    };
    Collect c{&got};
    Reflect::iterate_enum<E>(c);
    CHECK(c.mine == want.size(), "the visitor itself saw %lu cases of %lu", c.mine, want.size());
    judge("lasting visitor");
    Reflect::iterate_enum<E>(Collect{&got});
    judge("temporary visitor");
    const auto l = [&](const Literal& n, E v) { got.push_back({(const char*)n, (__int128)(I)v}); };
    Reflect::iterate_enum<E>(l);
    judge("constant visitor");
    CHECK((Reflect::Refl<E>::default_ == def), "another default value than declared");
    CHECK(std::string((const char*)Reflect::Refl<E>::name) == name, "named %s, declared %s", (const char*)Reflect::Refl<E>::name, name);
    CHECK((Reflect::Refl<E>::kind == Reflect::Kind::enum_), "not of the kind of enumerations");
    CHECK((std::is_same_v<typename Reflect::Refl<E>::underlying, I>), "another underlying type");
    CHECK(Reflect::Enum<E> && !Reflect::Record<E> && Reflect::Reflectable<E>, "not recognized as an enumeration");
    // names of values
    auto name_of = [&](I v) {
        for(auto& w : want)
            if((I)w.value == v) return std::string(w.name);
        return std::string("Invalid");
    };
    auto one = [&](I v) {
        std::string got = (const char*)rpp::Format::enum_name((E)v);
        CHECK(got == name_of(v), "the value %lld is named %s, not %s", (long long)v, got.c_str(), name_of(v).c_str());
    };
    if constexpr(std::is_same_v<I, bool>) {
        one(false), one(true);
    } else if constexpr(sizeof(I) == 1) {
        for(int v = 0; v < 256; v++) one((I)v);
    } else {
        for(auto& w : want) one((I)w.value), one((I)((U)w.value + 1)), one((I)((U)w.value - 1));
        for(U i = 0; i < 20; i++) one((I)s.bits(64));
        if(!want.empty()) // equal in the low or high part only
            for(U i = 0; i < 20; i++) one((I)((U)want[s.draw(want.size() - 1)].value ^ (1ull << s.draw(8 * sizeof(I) - 1))));
    }
    // and back
    for(auto& w : want) {
        std::string sp[] = {"", " ", "  \t"}, after[] = {"", " ", "\n", " x 1"};
        std::string a = after[s.draw(3)], text = sp[s.draw(2)] + w.name + a;
        auto r = rpp::Format::parse_enum<E>(rpp::String_View{(const u8*)text.data(), text.size()});
        CHECK(r.ok() && r->first == w.value, "the name %s is not parsed as its value", w.name);
        std::string rest((const char*)r->second.data(), r->second.length()), want_rest = a.empty() ? "" : a.substr(1);
        CHECK(rest == want_rest, "parsing \"%s\" left \"%s\"", text.c_str(), rest.c_str());
        std::string wrong = w.name;
        switch(s.draw(3)) {
        case 0: wrong += 'q'; break;
        case 1: wrong.pop_back(); break;
        case 2: wrong[0] = (char)(wrong[0] ^ 32); break;
        default: wrong = "~" + wrong; break;
        }
        bool listed = false;
        for(auto& o : want) listed |= wrong == o.name;
        auto q = rpp::Format::parse_enum<E>(rpp::String_View{(const u8*)wrong.data(), wrong.size()});
        CHECK(q.ok() == listed, "the text \"%s\" is %sparsed as a case", wrong.c_str(), q.ok() ? "" : "not ");
    }
}

// --- type lists ---
struct Order {
    std::vector<const void*>* out;
    template<typename T>
    void apply() {
        out->push_back(tid<T>());
    }
};
template<typename... Ts>
struct Pack {};
template<typename L>
std::vector<const void*> order() {
    std::vector<const void*> r;
    Order o{&r};
    Reflect::Iter<Order, L>::apply(o);
    return r;
}

// --- traits of a type, against the standard library's ---
#define EQ(a, b) CHECK((a) == (b), "%s is %d for %s", #a, (int)(a), name)
template<typename T>
void traits(const char* name) {
    using namespace rpp;
    EQ((Const<T>), std::is_const_v<T>);
    EQ((Volatile<T>), std::is_volatile_v<T>);
    EQ((Reference<T>), std::is_reference_v<T>);
    EQ((Lvalue_Reference<T>), std::is_lvalue_reference_v<T>);
    EQ((Rvalue_Reference<T>), std::is_rvalue_reference_v<T>);
    EQ((Not_Void<T>), (!std::is_void_v<std::remove_reference_t<T>>));
    EQ((Not_Function<T>), !std::is_function_v<T>);
    EQ((std::is_same_v<Decay<T>, std::remove_cvref_t<T>>), true);
    EQ((std::is_same_v<Without_Const<T>, std::remove_const_t<T>>), true);
    EQ((std::is_same_v<Without_Volatile<T>, std::remove_volatile_t<T>>), true);
    EQ((Same<T, T>), true);
    EQ((Same<T, const volatile T>), (std::is_same_v<T, const volatile T>));
    if constexpr(!std::is_void_v<T>) {
        EQ((std::is_same_v<With_Lvalue_Ref<T>, T&>), true);
        EQ((std::is_same_v<With_Rvalue_Ref<T>, T&&>), true);
        EQ((Same<T, T&>), (std::is_lvalue_reference_v<T>));
    }
    if constexpr(std::is_same_v<T, std::remove_cv_t<T>>) {
        EQ((Pointer<T>), std::is_pointer_v<T>);
        EQ((Float<T>), (std::is_same_v<T, float> || std::is_same_v<T, double>));
        constexpr bool in = std::is_same_v<T, i8> || std::is_same_v<T, i16> || std::is_same_v<T, i32> || std::is_same_v<T, i64>;
        constexpr bool un = std::is_same_v<T, u8> || std::is_same_v<T, u16> || std::is_same_v<T, u32> || std::is_same_v<T, u64>;
        EQ((Int<T>), (in || un));
        EQ((Signed_Int<T>), in);
        EQ((Unsigned_Int<T>), un);
    }
    if constexpr(!std::is_void_v<T> && !std::is_function_v<T>) {
        EQ((Default_Constructable<T>), std::is_default_constructible_v<T>);
        EQ((Move_Constructable<T>), std::is_move_constructible_v<T>);
        EQ((Copy_Constructable<T>), std::is_copy_constructible_v<T>);
        EQ((Constructable<T, int>), (std::is_constructible_v<T, int>));
        EQ((Constructable<T, const T&>), (std::is_constructible_v<T, const T&>));
        EQ((Trivially_Copyable<T>), std::is_trivially_copyable_v<T>);
        EQ((Trivially_Movable<T>), (std::is_trivially_constructible_v<T, T>));
        EQ((Trivially_Destructible<T>), std::is_trivially_destructible_v<T>);
        EQ((Must_Destruct<T>), !std::is_trivially_destructible_v<T>);
        EQ((Trivial<T>), (std::is_trivially_default_constructible_v<T> && std::is_trivially_copyable_v<T>));
    }
}
template<typename F, typename... As>
void call(const char* name) {
    EQ((rpp::Invocable<F, As...>), (std::is_invocable_v<F, As...>));
    if constexpr(std::is_invocable_v<F, As...>) EQ((std::is_same_v<rpp::Invoke_Result<F, As...>, std::invoke_result_t<F, As...>>), true);
}
template<typename T>
void kind(const char* name, Reflect::Kind k, const char* rname) {
    using R = Reflect::Refl<T>;
    CHECK(Reflect::Reflectable<T>, "%s is not reflectable", name);
    CHECK(R::kind == k, "%s is of kind %s", name, (const char*)rpp::Format::enum_name(R::kind));
    CHECK(std::string((const char*)R::name) == rname, "%s is named %s, not %s", name, (const char*)R::name, rname);
}
} // namespace g
