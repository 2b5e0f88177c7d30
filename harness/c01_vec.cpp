// C01: Vec, Stack, Slice and Array against plain sequences.
#include "model.h"
using namespace t;

template<typename T, typename A>
static void same(const Vec<T, A>& v, const std::vector<int>& m, const char* who) {
    CHECK(v.length() == m.size(), "%s: length %lu, expected %lu %s", who, v.length(), m.size(), show(m).c_str());
    CHECK(v.empty() == m.empty(), "%s: empty() wrong at length %lu", who, m.size());
    CHECK(v.capacity() >= v.length(), "%s: capacity below length", who);
    CHECK(v.full() == (v.length() == v.capacity()), "%s: full() wrong", who);
    CHECK(v.bytes() == m.size() * sizeof(T), "%s: bytes() wrong", who);
    for(size_t i = 0; i < m.size(); i++) {
        int x = E<T>::val(v[i]);
        CHECK(x == m[i], "%s: element %lu is %d, expected %d of %s", who, i, x, m[i], show(m).c_str());
        CHECK(&v[i] == v.data() + i, "%s: data() and [] disagree", who);
    }
    size_t n = 0;
    for(const T& x : v) {
        CHECK(n < m.size(), "%s: iteration is longer than the sequence", who);
        CHECK(E<T>::val(x) == m[n], "%s: iteration differs at %lu", who, n);
        n++;
    }
    CHECK(n == m.size(), "%s: iteration yields %lu of %lu elements", who, n, m.size());
    auto sl = v.slice();
    CHECK(sl.length() == m.size() && sl.data() == v.data(), "%s: slice() differs", who);
    if(!m.empty()) {
        CHECK(E<T>::val(v.front()) == m.front(), "%s: front() differs", who);
        CHECK(E<T>::val(v.back()) == m.back(), "%s: back() differs", who);
    }
}

template<typename T, typename A>
static void vec_machine(Src& s, bool is_default_alloc) {
    Case c;
    int64_t live_before = pbt::live_mallocs();
    (void)live_before;
    {
        Vec<T, A> v[3];
        std::vector<int> m[3];
        int next = 1;
        auto fresh = [&]() {
            int x = next++;
            return x % E<T>::max;
        };
        U left = s.limit(12, 40, 300);
        bool grew = false, cloned = false, moved = false;
        while(s.step(left)) {
            U k = s.pick({8, 1, 1});
            U op = s.pick({20, 8, 8, 10, 4, 4, 4, 2, 3, 3, 4, 2, 4, 3, 3, 3});
            Vec<T, A>& x = v[k];
            auto& mm = m[k];
            u64 cap0 = x.capacity();
            const T* data0 = x.data();
            bool full0 = x.full();
            switch(op) {
            case 0: {
                int val = fresh();
                NOTE("v%lu.push(%d)", k, val);
                T& r = x.push(E<T>::make(val));
                mm.push_back(val);
                CHECK(&r == &x.back(), "push did not return the new element");
                CHECK(full0 || x.data() == data0, "push reallocated although the vector was not full");
                break;
            }
            case 1: {
                int val = fresh();
                NOTE("v%lu.emplace(%d)", k, val);
                T& r = x.emplace(E<T>::make(val));
                mm.push_back(val);
                CHECK(&r == &x.back(), "emplace did not return the new element");
                CHECK(full0 || x.data() == data0, "emplace reallocated although the vector was not full");
                break;
            }
            case 2: {
                if constexpr(E<T>::copyable) {
                    if(!mm.empty() && s.coin()) {
                        U i = s.draw(mm.size() - 1);
                        NOTE("v%lu.push(v%lu[%lu])", k, k, i);
                        int val = mm[i];
                        x.push(static_cast<const T&>(x[i])); // aliases the vector's own storage
                        mm.push_back(val);
                    } else {
                        int val = fresh();
                        NOTE("v%lu.push(const %d&)", k, val);
                        const T tmp = E<T>::make(val);
                        x.push(tmp);
                        mm.push_back(val);
                        CHECK(E<T>::val(tmp) == val, "push by const reference changed its argument");
                    }
                }
                break;
            }
            case 3:
                if(!mm.empty()) {
                    NOTE("v%lu.pop()", k);
                    x.pop();
                    mm.pop_back();
                }
                break;
            case 4: {
                U n = s.pick({5, 2}) ? s.range(0, 70) : s.range(0, mm.size() + 6);
                NOTE("v%lu.resize(%lu)", k, n);
                x.resize(n);
                mm.resize(n, 0);
                CHECK(n > cap0 || x.data() == data0, "resize within capacity reallocated");
                break;
            }
            case 5: {
                U n = s.range(0, 9);
                NOTE("v%lu.extend(%lu)", k, n);
                x.extend(n);
                mm.resize(mm.size() + n, 0);
                break;
            }
            case 6: {
                U n = s.range(0, 2 * mm.size() + 10);
                NOTE("v%lu.reserve(%lu)", k, n);
                x.reserve(n);
                CHECK(x.capacity() >= n, "reserve(%lu) left capacity %lu", n, x.capacity());
                break;
            }
            case 7:
                NOTE("v%lu.clear()", k);
                x.clear();
                mm.clear();
                CHECK(x.capacity() == cap0, "clear changed the capacity");
                break;
            case 8: {
                U j = s.draw(2);
                if(j == k) break;
                NOTE("v%lu = v%lu.clone()", j, k);
                v[j] = x.clone();
                m[j] = mm;
                cloned = true;
                CHECK(m[j].empty() || v[j].data() != x.data(), "clone shares storage with its source");
                break;
            }
            case 9: {
                U j = s.draw(2);
                if(j == k) break;
                NOTE("v%lu = move(v%lu)", j, k);
                v[j] = rpp::move(x);
                m[j] = mm;
                mm.clear();
                moved = true;
                CHECK(x.data() == nullptr || x.empty(), "moved-from vector still has contents");
                break;
            }
            case 10:
                if(!mm.empty()) {
                    U i = s.draw(mm.size() - 1);
                    int val = fresh();
                    U how = s.draw(3);
                    NOTE("v%lu: write %d at %lu (way %lu)", k, val, i, how);
                    if(how == 0) x[i] = E<T>::make(val);
                    else if(how == 1) *(x.begin() + i) = E<T>::make(val);
                    else if(how == 2) x.slice()[i] = E<T>::make(val);
                    else x.data()[i] = E<T>::make(val);
                    mm[i] = val;
                }
                break;
            case 11:
                NOTE("v%lu.grow()", k);
                x.grow();
                CHECK(x.capacity() > cap0, "grow did not grow");
                break;
            case 12: { // construction forms
                U form = s.draw(4);
                NOTE("v%lu = construct form %lu", k, form);
                if(form == 0) {
                    x = Vec<T, A>{};
                    mm.clear();
                } else if(form == 1) {
                    U n = s.range(0, 20);
                    x = Vec<T, A>(n);
                    mm.clear();
                    CHECK(x.capacity() >= n, "Vec(%lu) has capacity %lu", n, x.capacity());
                } else if(form == 2) {
                    U n = s.range(1, 20);
                    x = Vec<T, A>::make(n);
                    mm.assign(n, 0);
                } else if(form == 3) {
                    int a = fresh(), b = fresh(), d = fresh();
                    x = Vec<T, A>{E<T>::make(a), E<T>::make(b), E<T>::make(d)};
                    mm = {a, b, d};
                } else {
                    Vec<T, A> tmp{rpp::move(x)};
                    same(x, {}, "moved-from vector");
                    same(tmp, mm, "move-constructed vector");
                    x = rpp::move(tmp);
                }
                break;
            }
            case 13: { // swap
                U j = s.draw(2);
                if(j == k) break;
                NOTE("swap(v%lu, v%lu)", k, j);
                rpp::swap(v[j], v[k]);
                std::swap(m[j], m[k]);
                break;
            }
            case 14: {
                if(mm.empty()) break;
                int val = fresh();
                bool fr = s.coin();
                NOTE("v%lu.%s() = %d", k, fr ? "front" : "back", val);
                if(fr) x.front() = E<T>::make(val), mm.front() = val;
                else x.back() = E<T>::make(val), mm.back() = val;
                break;
            }
            case 15: { // fill to capacity: must not reallocate
                if(x.capacity() - x.length() > 80) break;
                NOTE("v%lu: fill up", k);
                const T* d = x.data();
                while(!x.full()) {
                    int val = fresh();
                    x.push(E<T>::make(val));
                    mm.push_back(val);
                }
                CHECK(x.data() == d, "filling to capacity reallocated");
                break;
            }
            }
            if(op != 12 && op != 13 && op != 9 && op != 8)
                CHECK(x.capacity() >= cap0, "capacity shrank from %lu to %lu", cap0, x.capacity());
            if(op != 12 && x.capacity() > cap0 && cap0 > 0) grew = true;
            for(int i = 0; i < 3; i++) same(v[i], m[i], i == 0 ? "v0" : i == 1 ? "v1" : "v2");
            if constexpr(E<T>::owns)
                CHECK(L.live == (int64_t)(m[0].size() + m[1].size() + m[2].size()),
                      "%ld resources alive for %lu stored elements", (long)L.live,
                      m[0].size() + m[1].size() + m[2].size());
        }
        if(grew) pbt::label("grew"), pbt::nontrivial();
        if(cloned) pbt::label("cloned"), pbt::nontrivial();
        if(moved) pbt::label("moved");
    }
    c.settled("after destroying all vectors");
}

PROP(vec_int, 4000, 200000) {
    vec_machine<int, TA<0>>(s, false);
}
PROP(vec_owning, 4000, 200000) {
    vec_machine<Tok, TA<0>>(s, false);
}
PROP(vec_copyable, 3000, 100000) {
    vec_machine<Cpy, TA<0>>(s, false);
}
PROP(vec_byte, 2000, 60000) {
    vec_machine<unsigned char, TA<0>>(s, false);
}
PROP(vec_big, 2000, 60000) {
    vec_machine<Big, Mdefault>(s, true);
}
PROP(vec_tri, 2000, 60000) {
    vec_machine<Tri, TA<0>>(s, false);
}
PROP(vec_odd, 1000, 30000) {
    vec_machine<Odd, TA<0>>(s, false);
}
PROP(vec_string, 2000, 100000) {
    vec_machine<String<TA<1>>, TA<0>>(s, false);
}
PROP(vec_vec, 2000, 100000) {
    vec_machine<Vec<Tok, TA<1>>, TA<0>>(s, false);
}

template<typename T, typename A>
static void same_stack(const Stack<T, A>& v, const std::vector<int>& m) {
    CHECK(v.length() == m.size(), "stack length %lu, expected %lu", v.length(), m.size());
    CHECK(v.empty() == m.empty(), "stack empty() wrong");
    if(!m.empty()) CHECK(E<T>::val(v.top()) == m.back(), "top() is %d, expected %d", E<T>::val(v.top()), m.back());
    size_t n = 0;
    for(const T& x : v) {
        CHECK(n < m.size() && E<T>::val(x) == m[n], "stack iteration differs at %lu", n);
        n++;
    }
    CHECK(n == m.size(), "stack iteration has wrong length");
}

template<typename T>
static void stack_machine(Src& s) {
    using A = TA<0>;
    Case c;
    {
        Stack<T, A> v[2];
        std::vector<int> m[2];
        int next = 1;
        auto fresh = [&]() { return (next++) % E<T>::max; };
        U left = s.limit(12, 40, 200);
        size_t peak = 0;
        while(s.step(left)) {
            U k = s.pick({6, 1});
            auto& x = v[k];
            auto& mm = m[k];
            switch(s.pick({20, 6, 6, 12, 2, 3, 3, 3, 3})) {
            case 0: {
                int val = fresh();
                NOTE("s%lu.push(%d)", k, val);
                T& r = x.push(E<T>::make(val));
                mm.push_back(val);
                CHECK(&r == &x.top(), "push did not return the new top");
                break;
            }
            case 1: {
                int val = fresh();
                NOTE("s%lu.emplace(%d)", k, val);
                x.emplace(E<T>::make(val));
                mm.push_back(val);
                break;
            }
            case 2:
                if constexpr(E<T>::copyable) {
                    int val = fresh();
                    NOTE("s%lu.push(const %d&)", k, val);
                    const T tmp = E<T>::make(val);
                    x.push(tmp);
                    mm.push_back(val);
                }
                break;
            case 3:
                if(mm.empty()) break;
                NOTE("s%lu.pop()", k);
                x.pop();
                mm.pop_back();
                break;
            case 4:
                NOTE("s%lu.clear()", k);
                x.clear();
                mm.clear();
                break;
            case 5:
                NOTE("s%lu = s%lu.clone()", 1 - k, k);
                v[1 - k] = x.clone();
                m[1 - k] = mm;
                pbt::label("cloned");
                break;
            case 6:
                NOTE("s%lu = move(s%lu)", 1 - k, k);
                v[1 - k] = rpp::move(x);
                m[1 - k] = mm;
                mm.clear();
                break;
            case 7:
                if(mm.empty()) break;
                {
                    int val = fresh();
                    NOTE("s%lu.top() = %d", k, val);
                    x.top() = E<T>::make(val);
                    mm.back() = val;
                }
                break;
            case 8:
                NOTE("s%lu = Stack{...}", k);
                if(s.coin()) {
                    int a = fresh(), b = fresh();
                    x = Stack<T, A>{E<T>::make(a), E<T>::make(b)};
                    mm = {a, b};
                } else {
                    x = Stack<T, A>(s.range(0, 9));
                    mm.clear();
                }
                break;
            }
            peak = std::max(peak, mm.size());
            same_stack(v[0], m[0]);
            same_stack(v[1], m[1]);
        }
        if(peak > 8) pbt::nontrivial();
        // LIFO: popping everything yields the reverse of what is left
        while(!m[0].empty()) {
            CHECK(E<T>::val(v[0].top()) == m[0].back(), "pop order differs");
            v[0].pop();
            m[0].pop_back();
        }
        CHECK(v[0].empty(), "stack not empty after popping everything");
    }
    c.settled("after destroying all stacks");
}
PROP(stack_int, 3000, 60000) {
    stack_machine<int>(s);
}
PROP(stack_owning, 3000, 60000) {
    stack_machine<Tok>(s);
}
PROP(stack_copyable, 2000, 60000) {
    stack_machine<Cpy>(s);
}

template<typename T>
static void slices(Src& s) {
    Case c;
    {
        Vec<T, TA<0>> v;
        std::vector<int> m;
        U n = s.range(0, 40);
        for(U i = 0; i < n; i++) {
            v.push(E<T>::make((int)i + 1));
            m.push_back((int)i + 1);
        }
        Slice<T> whole = v.slice();
        CHECK(whole.length() == n && whole.empty() == (n == 0), "slice length wrong");
        U left = s.limit(6, 20, 40);
        Slice<T> cur = whole;
        size_t off = 0, len = n;
        NOTE("slice of %lu", n);
        while(s.step(left)) {
            U op = s.pick({8, 3, 3, 2, 2});
            if(op == 0) {
                U a = s.range(0, len), l = s.range(0, len - a);
                NOTE("sub(%lu, %lu)", a, l);
                Slice<T> sub = cur.sub(a, l);
                CHECK(sub.length() == l, "sub(%lu,%lu) has length %lu", a, l, sub.length());
                CHECK(sub.data() == v.data() + off + a, "sub(%lu,%lu) starts elsewhere", a, l);
                cur = sub;
                off += a;
                len = l;
                if(len > 1 && off > 0) pbt::nontrivial();
            } else if(op == 1 && len) {
                U i = s.draw(len - 1);
                int val = 500 + (int)s.draw(100);
                NOTE("write [%lu]", i);
                cur[i] = E<T>::make(val % E<T>::max);
                m[off + i] = val % E<T>::max;
            } else if(op == 2) {
                NOTE("back to whole");
                cur = whole;
                off = 0;
                len = n;
            } else if(op == 3) {
                Slice<const T> cs = cur;
                CHECK(cs.length() == len && cs.data() == cur.data(), "const conversion changed the slice");
                auto cl = cur.clone();
                CHECK(cl.length() == len && cl.data() == cur.data(), "clone of a slice differs");
            } else if(op == 4) {
                auto b = cur.to_bytes();
                CHECK(b.length() == len * sizeof(T), "to_bytes length %lu, expected %lu", b.length(), len * sizeof(T));
                CHECK((const void*)b.data() == (const void*)cur.data(), "to_bytes starts elsewhere");
                const Slice<T> cv = cur;
                auto cb = cv.to_bytes();
                CHECK(cb.length() == b.length() && cb.data() == b.data() && cb.bytes() == cb.length(), "to_bytes of a constant slice differs");
            }
            const Slice<T>& cc = cur;
            CHECK(cc.length() == len && cc.empty() == (len == 0) && cc.bytes() == len * sizeof(T),
                  "slice length/bytes wrong");
            size_t k = 0;
            for(const T& x : cc) {
                CHECK(k < len && E<T>::val(x) == m[off + k], "slice iteration differs at %lu", k);
                CHECK(E<T>::val(cc[k]) == m[off + k], "slice index differs at %lu", k);
                k++;
            }
            CHECK(k == len, "slice iteration length %lu, expected %lu", k, len);
            if(len) {
                CHECK(E<T>::val(cc.front()) == m[off], "slice front differs");
                CHECK(E<T>::val(cc.back()) == m[off + len - 1], "slice back differs");
            }
        }
    }
    c.settled("slices");
}
PROP(slice_int, 3000, 60000) {
    slices<int>(s);
}
PROP(slice_owning, 2000, 40000) {
    slices<Tok>(s);
}
PROP(slice_odd, 1000, 20000) {
    slices<Odd>(s);
}
PROP(slice_tri, 2000, 40000) {
    slices<Tri>(s);
}

template<typename T, u64 N>
static void arr_same(const Array<T, N>& a, const std::vector<int>& m) {
    CHECK(a.length() == N, "array length wrong");
    size_t k = 0;
    for(const T& x : a) {
        CHECK(k < N && E<T>::val(x) == m[k], "array iteration differs at %lu", k);
        CHECK(E<T>::val(a[k]) == m[k], "array element %lu is %d, expected %d", k, E<T>::val(a[k]), m[k]);
        k++;
    }
    CHECK(k == N, "array iteration has %lu elements of %lu", k, (u64)N);
    auto sl = a.slice();
    CHECK(sl.length() == N && sl.data() == a.data(), "array slice differs");
}
template<typename T, u64 N>
static void arrays(Src& s) {
    Case c;
    {
        Array<T, N> a, b;
        std::vector<int> ma(N, 0), mb(N, 0);
        arr_same(a, ma);
        int next = 1;
        U left = s.limit(6, 20, 60);
        bool any = false;
        while(s.step(left)) {
            switch(s.pick({6, 2, 2, 2, 2})) {
            case 0: {
                U i = s.draw(N - 1);
                int v = next++ % E<T>::max;
                NOTE("a[%lu] = %d", i, v);
                a[i] = E<T>::make(v);
                ma[i] = v;
                break;
            }
            case 1: {
                NOTE("b = a.clone()");
                b = a.clone();
                mb = ma;
                any = true;
                break;
            }
            case 2: {
                NOTE("a = move(b) then b refilled");
                a = rpp::move(b);
                ma = mb;
                arr_same(a, ma);
                b = Array<T, N>{};
                mb.assign(N, 0);
                any = true;
                break;
            }
            case 3:
                if constexpr(E<T>::copyable) {
                    NOTE("copy");
                    Array<T, N> d{static_cast<const Array<T, N>&>(a)};
                    arr_same(d, ma);
                    b = static_cast<const Array<T, N>&>(d);
                    mb = ma;
                    any = true;
                }
                break;
            case 4: {
                U i = s.draw(N - 1);
                int v = next++ % E<T>::max;
                NOTE("a.slice()[%lu] = %d", i, v);
                a.slice()[i] = E<T>::make(v);
                ma[i] = v;
                break;
            }
            }
            arr_same(a, ma);
            arr_same(b, mb);
        }
        if(any) pbt::nontrivial();
    }
    c.settled("arrays");
}
PROP(array_int, 2000, 40000) {
    arrays<int, 5>(s);
}
PROP(array_one, 1000, 20000) {
    arrays<Tok, 1>(s);
}
PROP(array_owning, 2000, 40000) {
    arrays<Tok, 4>(s);
}
PROP(array_copyable, 2000, 40000) {
    arrays<Cpy, 3>(s);
}
PROP(array_sizes, 1200, 24000) {
    switch(s.draw(5)) {
    case 0: return arrays<unsigned char, 37>(s);
    case 1: return arrays<int, 65>(s);
    case 2: return arrays<Odd, 7>(s);
    case 3: return arrays<Tri, 301>(s);
    case 4: return arrays<Tok, 130>(s);
    case 5: return arrays<Cpy, 70>(s);
    }
}
// Initializer lists of many elements.
template<typename C, typename T, size_t... Is>
static void many(std::index_sequence<Is...>, int base) {
    std::vector<int> m{(int)((base + Is * 7) % E<T>::max)...};
    C c{E<T>::make(m[Is])...};
    U k = 0;
    for(const T& x : c) {
        CHECK(k < m.size() && E<T>::val(x) == m[k], "element %lu of %lu given at once differs", k, (U)m.size());
        k++;
    }
    CHECK(k == m.size() && c.length() == k, "%lu of %lu elements given at once arrive", k, (U)m.size());
}
template<typename T, size_t N>
static void many_of(Src& s) {
    int base = (int)s.draw(E<T>::max - 1);
    std::make_index_sequence<N> seq;
    many<Vec<T, TA<0>>, T>(seq, base);
    many<Stack<T, TA<0>>, T>(seq, base);
    many<Array<T, N>, T>(seq, base);
}
PROP(many_given, 600, 12000) {
    Case c;
    switch(s.draw(5)) {
    case 0: many_of<int, 8>(s); break;
    case 1: many_of<Tok, 9>(s); break;
    case 2: many_of<Odd, 10>(s); break;
    case 3: many_of<Cpy, 17>(s); break;
    case 4: many_of<unsigned char, 33>(s); break;
    case 5: many_of<int, 64>(s); break;
    }
    pbt::nontrivial();
    c.settled("many_given");
}
PROP(array_init, 1000, 20000) {
    Case c;
    {
        int x = (int)s.draw(1000), y = (int)s.draw(1000), z = (int)s.draw(1000);
        NOTE("%d %d %d", x, y, z);
        Array<int, 3> a{x, y, z};
        arr_same(a, {x, y, z});
        Array<Tok, 3> b{Tok{x}, Tok{y}, Tok{z}};
        arr_same(b, {x, y, z});
        const Cpy cx{x}, cy{y};
        Array<Cpy, 2> d{cx, cy};
        arr_same(d, {x, y});
        Slice<const int> il{x, y, z};
        (void)il;
        if(x != y) pbt::nontrivial();
    }
    c.settled("array_init");
}

// Vectors and stacks of up to 2^17 elements, changed in bulk and compared in full after each change.
template<typename T>
static void large(Src& s, U maxlog) {
    Case c;
    {
        Vec<T, TA<0>> v[2];
        std::vector<int> m[2];
        U next = s.draw(1000), peak = 0;
        auto fresh = [&]() { return (int)(next++ * 7 % (U)E<T>::max); };
        U ops = s.range(2, 9);
        for(U o = 0; o < ops; o++) {
            U k = s.pick({3, 1}), n = big_size(s, maxlog);
            auto& x = v[k];
            auto& mm = m[k];
            U op = s.pick({6, 3, 3, 3, 2, 2, 2, 2, 1});
            NOTE("v%lu (%lu elements): bulk operation %lu with %lu", k, (U)mm.size(), op, n);
            if(mm.size() + n > ((U)4 << maxlog)) op = 1;
            switch(op) {
            case 0: {
                U form = s.draw(3);
                for(U i = 0; i < n; i++) {
                    int val = fresh();
                    U f = form == 3 ? i % 3 : form;
                    auto add = [&]() -> T& {
                        if constexpr(E<T>::copyable) {
                            const T value = E<T>::make(val);
                            if(f == 2) return x.push(value);
                        }
                        return f == 1 ? x.emplace(E<T>::make(val)) : x.push(E<T>::make(val));
                    };
                    T& r = add();
                    mm.push_back(val);
                    CHECK(&r == &x.back(), "push did not return the new element");
                }
                break;
            }
            case 1:
                for(U i = 0; i < n && !mm.empty(); i++) x.pop(), mm.pop_back();
                break;
            case 2:
                x.resize(n);
                {
                    U old = mm.size();
                    mm.resize(n);
                    for(U i = old; i < n; i++) { // give the new elements known values
                        int val = fresh();
                        x[i] = E<T>::make(val);
                        mm[i] = val;
                    }
                }
                break;
            case 3: {
                u64 cap = x.capacity();
                x.reserve(n);
                CHECK(x.capacity() >= n && x.capacity() >= cap, "reserve(%lu) of %lu left capacity %lu", n, cap, x.capacity());
                break;
            }
            case 4:
                v[1 - k] = x.clone();
                m[1 - k] = mm;
                CHECK(mm.empty() || v[1 - k].data() != x.data(), "clone shares storage");
                break;
            case 5:
                v[1 - k] = rpp::move(x);
                m[1 - k] = std::move(mm);
                mm.clear();
                break;
            case 6: {
                u64 cap = x.capacity();
                x.clear();
                mm.clear();
                CHECK(x.capacity() == cap, "clear changed the capacity");
                break;
            }
            case 7: { // a slice of a slice
                if(mm.size() < 4) break;
                U a = s.draw(mm.size()), l = s.draw(mm.size() - a);
                auto sl = x.slice().sub(a, l);
                CHECK(sl.length() == l && sl.bytes() == l * sizeof(T), "sub(%lu, %lu) has length %lu", a, l, sl.length());
                const auto csl = sl;
                CHECK(sl.to_bytes().length() == l * sizeof(T) && csl.to_bytes().length() == l * sizeof(T), "%lu elements of %lu bytes have another number of bytes", l, (U)sizeof(T));
                CHECK((const void*)csl.to_bytes().data() == (const void*)csl.data(), "to_bytes starts elsewhere");
                for(U i = 0; i < l; i++) CHECK(E<T>::val(sl[i]) == mm[a + i], "sub(%lu, %lu)[%lu] differs", a, l, i);
                break;
            }
            case 8: {
                const T* d = x.data();
                u64 cap = x.capacity();
                while(!x.full()) {
                    int val = fresh();
                    x.push(E<T>::make(val));
                    mm.push_back(val);
                }
                CHECK(x.data() == d && x.capacity() == cap, "filling to capacity reallocated");
                break;
            }
            }
            peak = std::max<U>(peak, mm.size());
            same(v[0], m[0], "v0");
            same(v[1], m[1], "v1");
            if constexpr(E<T>::owns)
                CHECK(L.live == (int64_t)(m[0].size() + m[1].size()), "%ld resources alive for %lu elements", (long)L.live, (U)(m[0].size() + m[1].size()));
        }
        if(peak > 256) pbt::nontrivial();
        if(peak > 65536) pbt::label("more than 65536 elements");
    }
    c.settled("after destroying all vectors");
}
PROP(large_int, 100, 1250) {
    large<int>(s, 16);
}
PROP(large_byte, 100, 1250) {
    large<unsigned char>(s, 17);
}
PROP(large_big, 66, 833) {
    large<Big>(s, 14);
}
PROP(large_owning, 66, 833) {
    large<Tok>(s, 14);
}
PROP(large_copyable, 66, 833) {
    large<Cpy>(s, 14);
}
PROP(large_string, 41, 500) {
    large<String<TA<1>>>(s, 11);
}
PROP(large_stack, 66, 833) {
    Case c;
    {
        Stack<Tok, TA<0>> st, other;
        std::vector<int> m;
        U next = 0, peak = 0, ops = s.range(2, 9);
        for(U o = 0; o < ops; o++) {
            U n = big_size(s, 13), op = s.pick({5, 3, 1, 1});
            NOTE("stack of %lu: bulk operation %lu with %lu", (U)m.size(), op, n);
            if(op == 0)
                for(U i = 0; i < n; i++) {
                    int val = (int)(next++ % 30000);
                    st.push(Tok{val});
                    m.push_back(val);
                }
            else if(op == 1)
                for(U i = 0; i < n && !m.empty(); i++) {
                    CHECK(st.top().get() == m.back(), "top is %d, expected %d", st.top().get(), m.back());
                    st.pop();
                    m.pop_back();
                }
            else if(op == 2) {
                other = st.clone();
                st = rpp::move(other);
            } else {
                other = rpp::move(st);
                CHECK(st.empty(), "moved-from stack is not empty");
                st = rpp::move(other);
            }
            peak = std::max<U>(peak, m.size());
            same_stack(st, m);
        }
        if(peak > 256) pbt::nontrivial();
    }
    c.settled("after destroying all stacks");
}
