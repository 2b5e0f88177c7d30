// C29: misuse that would touch invalid memory is always fatal; the corresponding proper uses never are.
#include "model.h"
#include <signal.h>
#include <sys/wait.h>
#include <rpp/array.h>
#include <rpp/async.h>
#include <rpp/box.h>
#include <rpp/format.h>
#include <rpp/function.h>
#include <rpp/log_callback.h>
#include <rpp/map.h>
#include <rpp/opt.h>
#include <rpp/pool.h>
#include <rpp/queue.h>
#include <rpp/thread.h>
#include <rpp/vmath.h>
using namespace t;

template<typename X>
static void sink(const X& x) {
    const volatile u8* p = (const volatile u8*)&x;
    (void)*p; // a real read through the reference
    asm volatile("" ::"r"(&x) : "memory");
}
template<typename X>
static void sinkp(X* p) {
    asm volatile("" ::"r"(p) : "memory");
}

template<typename F>
static void dies(const std::string& what, F&& f) {
    NOTE("misuse: %s", what.c_str());
    // The fatal path raises a trap for the debugger; where traps are ignored the program must stop all the same.
    U h = 1469598103934665603ULL;
    for(char c : what) h = (h ^ (U)(u8)c) * 1099511628211ULL;
    bool ignored = (h >> 20) % 4 == 0;
    pbt::Death d = pbt::run_child(
        [&]() {
            if(ignored) signal(SIGTRAP, SIG_IGN);
            f();
        },
        true);
    CHECK(!d.completed, "%s: completed silently%s", what.c_str(), ignored ? " with SIGTRAP ignored" : "");
    if(ignored) {
        CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 1, "%s: with SIGTRAP ignored, ended with status %x instead of exiting with 1", what.c_str(), (unsigned)d.status);
        pbt::label("SIGTRAP ignored");
    } else {
        CHECK(d.trapped, "%s: ended with status %x, not in the library's fatal error path", what.c_str(), (unsigned)d.status);
    }
    CHECK(d.out.find("[fatal") != std::string::npos, "%s: stopped without a logged fatal error: %s", what.c_str(), d.out.substr(0, 300).c_str());
    pbt::label("misuse");
    pbt::nontrivial();
}

static std::string text(Src& s, U max) {
    U n = s.draw(max);
    std::string r;
    for(U i = 0; i < n; i++) r += s.pick({6, 1, 1}) == 0 ? (char)('a' + s.draw(25)) : s.coin() ? '/' : '.';
    return r;
}

// An index >= len, including ones that overflow scaled or truncated bounds arithmetic.
static U bad_index(Src& s, U len, U size, U cap = 0) {
    U r = 0;
    switch(s.pick({4, 3, 2, 2, 2, 2, 1, 1, 2, 1})) {
    case 0: r = len; break;
    case 1: r = len + s.draw(16); break;
    case 2: r = ~(U)0 - s.draw(20); break;
    case 3: r = (U)1 << s.draw(63); break;
    case 4: r = ((U)1 << 32) * (1 + s.draw(8)) + s.draw(len ? len - 1 : 0); break;
    case 5: {
        // idx * size wraps to an element that exists
        U unit = size ? (size & (~size + 1)) : 1; // power of two dividing size
        U step = unit > 1 ? ((U)1 << 63) / unit * 2 : (U)1 << 63;
        r = step * (1 + s.draw(unit > 1 ? unit - 2 : 0)) + s.draw(len ? len - 1 : 0);
        break;
    }
    case 6: r = len + 256 * (1 + s.draw(3)); break;
    case 7: r = len + 65536 * (1 + s.draw(3)); break;
    case 8: r = cap > len ? len + s.draw(cap - len) : len; break;
    default: r = ((U)1 << 63) + s.draw(len + 2); break;
    }
    return r < len ? len : r;
}

// end < start, or end past the length
struct Range {
    U a, b;
};
static Range bad_range(Src& s, U len) {
    switch(s.pick({3, 3, 2, 2, 1})) {
    case 0: { // reversed
        U b = s.draw(len);
        return {b + 1 + s.draw(3), b};
    }
    case 1: return {s.draw(len), len + 1 + s.draw(5)};
    case 2: return {s.draw(len), ~(U)0 - s.draw(4)};
    case 3: { // end - start would be in range
        U x = bad_index(s, len + 1, 1);
        return {x, x + s.draw(2)};
    }
    default: { // reversed so that the length wraps to something small is impossible; a huge start
        return {~(U)0 - s.draw(3), s.draw(len)};
    }
    }
}
// start + length > len, overflow included
static Range bad_piece(Src& s, U len) {
    switch(s.pick({3, 3, 2, 2})) {
    case 0: {
        U a = s.draw(len);
        return {a, len - a + 1 + s.draw(4)};
    }
    case 1: { // the sum wraps around to a value in range
        U a = 1 + s.draw(len + 4);
        U sum = s.draw(len < a - 1 ? len : a - 1);
        return {a, sum - a};
    }
    case 2: return {len + 1 + s.draw(3), s.draw(3)};
    default: { // huge start, wrapping sum
        U a = ~(U)0 - s.draw(9);
        return {a, (~(U)0 - a) + 1 + s.draw(len)};
    }
    }
}
static std::string at(const char* what, U i, U len) {
    return std::string(what) + "[" + std::to_string(i) + "] of " + std::to_string(len);
}
static std::string at(const char* what, Range r, U len) {
    return std::string(what) + "(" + std::to_string(r.a) + ", " + std::to_string(r.b) + ") of " + std::to_string(len);
}

template<typename S, typename T>
static void probe_slice(Src& s, S& sl, const std::vector<int>& m) {
    const S& cs = sl;
    U len = m.size();
    switch(s.pick({3, 3, 2, 4, 2, 4})) {
    case 0: {
        U i = bad_index(s, len, sizeof(T));
        if(s.coin()) dies(at("Slice", i, len), [&] { sink(sl[i]); });
        else dies(at("const Slice", i, len), [&] { sink(cs[i]); });
        break;
    }
    case 1: {
        auto r = bad_piece(s, len);
        dies(at("Slice::sub", r, len), [&] {
            auto p = cs.sub(r.a, r.b);
            sink(p);
        });
        break;
    }
    case 2: {
        S e;
        if(s.coin()) e = cs.sub(s.draw(len), 0);
        if(s.coin()) dies("front of an empty Slice", [&] { sink(e.front()); });
        else dies("back of an empty Slice", [&] { sink(e.back()); });
        break;
    }
    case 3: {
        U a = s.draw(len), n = s.draw(len - a);
        auto p = cs.sub(a, n);
        CHECK(p.length() == n, "sub(%lu,%lu) of %lu has length %lu", a, n, len, p.length());
        for(U i = 0; i < n; i++)
            CHECK(E<T>::val(p[i]) == m[a + i], "sub(%lu,%lu) of %lu differs at %lu", a, n, len, i);
        if(n) {
            U i = bad_index(s, n, sizeof(T), len - a);
            dies(at("a piece of a Slice", i, n), [&] { sink(p[i]); });
        }
        break;
    }
    case 4:
        if(len) {
            CHECK(E<T>::val(cs.front()) == m.front() && E<T>::val(cs.back()) == m.back(), "ends of a slice differ");
        }
        break;
    default:
        if(len) {
            U i = s.draw(len - 1);
            CHECK(E<T>::val(cs[i]) == m[i] && E<T>::val(sl[i]) == m[i], "slice differs at %lu", i);
        }
    }
}

template<typename T>
static void vec_misuse(Src& s) {
    Case c;
    {
        using V = Vec<T, TA<0>>;
        V v;
        std::vector<int> m;
        int how = (int)s.draw(4);
        if(how == 0) v = V(s.draw(20));
        U n = s.draw(12) * (s.chance(1, 4) ? 5 : 1);
        for(U i = 0; i < n; i++) {
            v.push(E<T>::make((int)i + 1));
            m.push_back((int)i + 1);
        }
        for(U k = s.draw(n); k > 0; k--) {
            if(s.chance(1, 3)) break;
            v.pop();
            m.pop_back();
        }
        if(s.chance(1, 8)) {
            v.clear();
            m.clear();
        } else if(s.chance(1, 6)) { // moved-from
            V w = rpp::move(v);
            if(s.coin()) m.clear();
            else v = rpp::move(w);
        } else if(s.chance(1, 6)) {
            V w = v.clone();
            v = rpp::move(w);
        }
        const V& cv = v;
        U left = s.limit(4, 6, 12);
        while(s.step(left)) {
            U len = m.size();
            CHECK(v.length() == len, "length differs");
            switch(s.pick({5, 3, 3, 3, 4})) {
            case 0: {
                U i = bad_index(s, len, sizeof(T), v.capacity());
                switch(s.draw(2)) {
                case 0: dies(at("Vec", i, len), [&] { sink(v[i]); }); break;
                case 1: dies(at("const Vec", i, len), [&] { sink(cv[i]); }); break;
                default: dies(at("write to Vec", i, len), [&] { v[i] = E<T>::make(3); });
                }
                break;
            }
            case 1: {
                V e; // empty, with or without storage
                U q = s.draw(3);
                if(q == 1) e = V(4);
                if(q == 2) {
                    e.push(E<T>::make(1));
                    e.pop();
                }
                if(q == 3) {
                    e.push(E<T>::make(1));
                    e.clear();
                }
                const V& ce = e;
                switch(s.draw(4)) {
                case 0: dies("pop of an empty Vec", [&] { e.pop(); }); break;
                case 1: dies("front of an empty Vec", [&] { sink(e.front()); }); break;
                case 2: dies("back of an empty Vec", [&] { sink(e.back()); }); break;
                case 3: dies("front of a const empty Vec", [&] { sink(ce.front()); }); break;
                default: dies("back of a const empty Vec", [&] { sink(ce.back()); }); break;
                }
                break;
            }
            case 2: { // one pop too many
                dies("popping a Vec once more than its length", [&] {
                    for(U i = 0; i < len; i++) v.pop();
                    v.pop();
                });
                break;
            }
            case 3: {
                if(s.coin()) {
                    auto sl = v.slice();
                    probe_slice<decltype(sl), T>(s, sl, m);
                } else {
                    auto sl = cv.slice();
                    probe_slice<decltype(sl), T>(s, sl, m);
                }
                break;
            }
            default:
                if(len) {
                    U i = s.chance(1, 2) ? len - 1 : s.draw(len - 1);
                    CHECK(E<T>::val(v[i]) == m[i] && E<T>::val(cv[i]) == m[i], "element %lu differs", i);
                    CHECK(E<T>::val(v.front()) == m.front() && E<T>::val(cv.back()) == m.back(), "ends differ");
                    v.pop();
                    m.pop_back();
                }
            }
        }
    }
    c.settled("vectors");
}
#if PART == 6
PROP(vec_u64, 400, 4000) {
    vec_misuse<u64>(s);
}
PROP(vec_u8, 400, 4000) {
    vec_misuse<u8>(s);
}
#endif

#if PART == 7
PROP(vec_owning, 300, 3000) {
    vec_misuse<Tok>(s);
}
PROP(vec_tri, 200, 2000) {
    vec_misuse<Tri>(s);
}

#endif

#if PART == 4
template<typename T>
static void stack_misuse(Src& s) {
    Case c;
    {
        using V = Stack<T, TA<0>>;
        V v;
        U n = s.draw(9);
        for(U i = 0; i < n; i++) v.push(E<T>::make((int)i));
        for(U i = n; i > 0; i--) {
            CHECK(E<T>::val(v.top()) == (int)i - 1, "top differs");
            v.pop();
        }
        if(s.chance(1, 3)) {
            V w = rpp::move(v);
            if(s.coin()) v = rpp::move(w);
        }
        const V& cv = v;
        dies("pop of an empty Stack", [&] { v.pop(); });
        dies("top of an empty Stack", [&] { sink(v.top()); });
        dies("top of a const empty Stack", [&] { sink(cv.top()); });
    }
    c.settled("stacks");
}
PROP(stack_int, 60, 800) {
    stack_misuse<int>(s);
}
PROP(stack_owning, 60, 800) {
    stack_misuse<Tok>(s);
}

#endif

#if PART == 5
template<typename T>
static void queue_misuse(Src& s) {
    Case c;
    {
        using Q = Queue<T, TA<0>>;
        Q q;
        std::deque<int> m;
        if(s.chance(1, 3)) q = Q(1 + s.draw(10));
        int next = 0;
        auto push = [&] {
            q.push(E<T>::make(next));
            m.push_back(next++);
        };
        auto pop = [&] {
            CHECK(E<T>::val(q.front()) == m.front(), "front differs");
            q.pop();
            m.pop_front();
        };
        U rounds = s.draw(30);
        for(U i = 0; i < rounds; i++) {
            if(!m.empty() && s.chance(2, 5)) pop();
            else push();
        }
        if(s.chance(1, 3)) while(!m.empty()) pop();
        if(s.chance(1, 3)) while(m.size() > 1) pop();
        if(s.chance(1, 10)) {
            q.clear();
            m.clear();
        }
        if(s.chance(1, 8)) {
            Q w = rpp::move(q);
            if(s.coin()) m.clear();
            else q = rpp::move(w);
        }
        const Q& cq = q;
        U left = s.limit(4, 6, 12);
        while(s.step(left)) {
            U len = m.size();
            CHECK(q.length() == len, "length differs");
            U k = s.pick({6, 4, 4, 4});
            if(k == 0) {
                U i = bad_index(s, len, sizeof(T));
                switch(s.draw(2)) {
                case 0: dies(at("Queue", i, len), [&] { sink(q[i]); }); break;
                case 1: dies(at("const Queue", i, len), [&] { sink(cq[i]); }); break;
                default: dies(at("write to Queue", i, len), [&] { q[i] = E<T>::make(5); });
                }
            } else if(k == 1) {
                if(len == 0) {
                    switch(s.draw(4)) {
                    case 0: dies("pop of an empty Queue", [&] { q.pop(); }); break;
                    case 1: dies("front of an empty Queue", [&] { sink(q.front()); }); break;
                    case 2: dies("back of an empty Queue", [&] { sink(q.back()); }); break;
                    case 3: dies("front of a const empty Queue", [&] { sink(cq.front()); }); break;
                    default: dies("back of a const empty Queue", [&] { sink(cq.back()); }); break;
                    }
                } else
                    dies("popping a Queue once more than its length", [&] {
                        for(U i = 0; i < len; i++) q.pop();
                        q.pop();
                    });
            } else if(k == 2) {
                if(len < 2) {
                    if(s.coin()) dies("penultimate of a Queue of " + std::to_string(len), [&] { sink(q.penultimate()); });
                    else dies("penultimate of a const Queue of " + std::to_string(len), [&] { sink(cq.penultimate()); });
                } else {
                    CHECK(E<T>::val(q.penultimate()) == m[len - 2] && E<T>::val(cq.penultimate()) == m[len - 2], "penultimate differs");
                }
            } else if(len) {
                U i = s.draw(len - 1);
                CHECK(E<T>::val(q[i]) == m[i] && E<T>::val(cq[i]) == m[i], "element %lu differs", i);
                CHECK(E<T>::val(q.back()) == m.back() && E<T>::val(cq.back()) == m.back(), "back differs");
                if(s.coin()) pop();
                else push();
            } else
                push();
        }
    }
    c.settled("queues");
}
PROP(queue_u64, 400, 4000) {
    queue_misuse<u64>(s);
}
PROP(queue_owning, 300, 3000) {
    queue_misuse<Tok>(s);
}
PROP(queue_tri, 150, 1500) {
    queue_misuse<Tri>(s);
}

template<typename T>
static void heap_misuse(Src& s) {
    Case c;
    {
        using H = Heap<T, TA<0>>;
        H h;
        std::multiset<int> m;
        if(s.chance(1, 3)) h = H(1 + s.draw(10));
        U n = s.draw(14);
        for(U i = 0; i < n; i++) {
            int v = (int)s.draw(50);
            h.push(E<T>::make(v));
            m.insert(v);
        }
        const H& ch = h;
        while(!m.empty()) {
            CHECK(E<T>::val(h.top()) == *m.begin() && E<T>::val(ch.top()) == *m.begin(), "top differs");
            h.pop();
            m.erase(m.begin());
            if(s.chance(1, 6)) {
                h.clear();
                m.clear();
            }
        }
        if(s.chance(1, 4)) {
            H w = rpp::move(h);
            if(s.coin()) h = rpp::move(w);
        }
        switch(s.draw(2)) {
        case 0: dies("pop of an empty Heap", [&] { h.pop(); }); break;
        case 1: dies("top of an empty Heap", [&] { sink(h.top()); }); break;
        default: dies("top of a const empty Heap", [&] { sink(ch.top()); });
        }
    }
    c.settled("heaps");
}
PROP(heap_u64, 150, 1500) {
    heap_misuse<u64>(s);
}
PROP(heap_owning, 150, 1500) {
    heap_misuse<Tok>(s);
}

#endif

#if PART == 4
template<typename T, U N>
static void array_misuse(Src& s) {
    Array<T, N> a;
    std::vector<int> m;
    for(U i = 0; i < N; i++) {
        a[i] = E<T>::make((int)i + 7);
        m.push_back((int)i + 7);
    }
    const Array<T, N>& ca = a;
    U left = s.limit(3, 4, 8);
    while(s.step(left)) {
        U i = bad_index(s, N, sizeof(T));
        switch(s.draw(4)) {
        case 0: dies(at("Array", i, N), [&] { sink(a[i]); }); break;
        case 1: dies(at("const Array", i, N), [&] { sink(ca[i]); }); break;
        case 2: dies(at("write to Array", i, N), [&] { a[i] = E<T>::make(1); }); break;
        case 3: {
            auto sl = a.slice();
            probe_slice<decltype(sl), T>(s, sl, m);
            break;
        }
        default: {
            U j = s.draw(N - 1);
            CHECK(E<T>::val(a[j]) == m[j] && E<T>::val(ca[j]) == m[j], "array differs at %lu", j);
        }
        }
    }
}
PROP(array, 200, 2500) {
    switch(s.draw(4)) {
    case 0: array_misuse<u64, 1>(s); break;
    case 1: array_misuse<u8, 5>(s); break;
    case 2: array_misuse<int, 16>(s); break;
    case 3: array_misuse<Big, 3>(s); break;
    default: array_misuse<Tri, 300>(s);
    }
}

#endif

#if PART == 2
// ---- strings ----
PROP(strings, 500, 6000) {
    Case c;
    {
        using Str = String<TA<0>>;
        std::string m = text(s, 20);
        Str x(m.size() + s.draw(6));
        x.set_length(m.size());
        if(!m.empty()) memcpy(x.data(), m.data(), m.size());
        std::string keep = m;
        String_View v{(const u8*)keep.data(), keep.size()};
        if(s.chance(1, 10)) {
            Str y = rpp::move(x);
            m.clear();
        }
        const Str& cx = x;
        U left = s.limit(4, 6, 12);
        while(s.step(left)) {
            U len = m.size();
            switch(s.pick({4, 2, 4, 3, 3, 3, 3, 3, 4})) {
            case 0: {
                U i = bad_index(s, len, 1, x.capacity());
                switch(s.draw(2)) {
                case 0: dies(at("String", i, len), [&] { sink(x[i]); }); break;
                case 1: dies(at("const String", i, len), [&] { sink(cx[i]); }); break;
                default: dies(at("write to String", i, len), [&] { x[i] = 'x'; });
                }
                break;
            }
            case 1: {
                U i = bad_index(s, v.length(), 1);
                dies(at("String_View", i, v.length()), [&] { sink(v[i]); });
                break;
            }
            case 2: {
                auto r = bad_range(s, len);
                dies(at("String::sub", r, len), [&] {
                    auto p = cx.sub(r.a, r.b);
                    sink(p);
                });
                break;
            }
            case 3: {
                auto r = bad_range(s, v.length());
                dies(at("String_View::sub", r, v.length()), [&] {
                    auto p = v.sub(r.a, r.b);
                    sink(p);
                });
                break;
            }
            case 4: {
                U i = bad_index(s, len, 1, x.capacity());
                dies(at("String::write(char)", i, len), [&] { sink(x.write(i, 'c')); });
                break;
            }
            case 5: { // writing a text that does not fit, or at a bad place
                std::string t = text(s, 24);
                U i = s.coin() ? bad_index(s, len + 1, 1, x.capacity()) : s.draw(len);
                if(i <= len && t.size() <= len - i) t += std::string(len - i - t.size() + 1, 'z');
                if(s.chance(1, 4) && i > len) { // wraps into range
                    i = ~(U)0 - s.draw(t.size());
                    if(s.coin()) t.clear();
                }
                String_View tv{(const u8*)t.data(), t.size()};
                std::string what = at("String::write(text)", {i, t.size()}, len);
                if(s.coin()) dies(what, [&] { sink(x.write(i, tv)); });
                else {
                    auto ts = tv.string<TA<1>>();
                    dies(what, [&] { sink(x.write(i, ts)); });
                }
                break;
            }
            case 6: {
                U n = bad_index(s, x.capacity() + 1, 1);
                dies(at("String::set_length", n, x.capacity()), [&] { x.set_length(n); });
                break;
            }
            case 7: { // proper pieces
                U a = s.draw(len), b = a + s.draw(len - a);
                auto p = cx.sub(a, b);
                CHECK(std::string((const char*)p.data(), p.length()) == m.substr(a, b - a), "sub(%lu,%lu) of %lu differs", a, b, len);
                a = s.draw(v.length()), b = a + s.draw(v.length() - a);
                p = v.sub(a, b);
                CHECK(std::string((const char*)p.data(), p.length()) == keep.substr(a, b - a), "sub(%lu,%lu) of a view differs", a, b);
                break;
            }
            default: {
                std::string t = text(s, len);
                U i = s.draw(len - t.size());
                if(s.coin()) i = len - t.size();
                String_View tv{(const u8*)t.data(), t.size()};
                U e = s.coin() ? x.write(i, tv) : x.write(i, tv.string<TA<1>>());
                CHECK(e == i + t.size(), "write returned %lu", e);
                m.replace(i, t.size(), t);
                if(len) {
                    U j = s.draw(len - 1);
                    CHECK(x.write(j, 'q') == j + 1, "write(char) returned a wrong place");
                    m[j] = 'q';
                    CHECK(x[j] == 'q' && cx[j] == 'q', "character %lu differs", j);
                }
                CHECK(std::string((const char*)cx.data(), cx.length()) == m, "text differs after write");
            }
            }
        }
    }
    c.settled("strings");
}

#endif

#if PART == 3
// ---- maps ----
struct Cold { // keys whose hashes collide
    u64 k;
    bool operator==(const Cold& o) const noexcept {
        return k == o.k;
    }
};
namespace rpp::Hash {
template<>
struct Hash<Cold> {
    static u64 hash(const Cold& c) noexcept {
        return c.k & 3;
    }
};
} // namespace rpp::Hash
namespace rpp {
RPP_NAMED_RECORD(Cold, "Cold", RPP_FIELD(k));
}

template<typename K>
struct MKey;
template<>
struct MKey<u64> {
    static u64 make(u64 i) {
        return i;
    }
    static std::string text(u64 i) {
        return std::to_string(i);
    }
};
template<>
struct MKey<Cold> {
    static Cold make(u64 i) {
        return Cold{i};
    }
    static std::string text(u64 i) {
        return std::to_string(i);
    }
};
template<>
struct MKey<String<TA<0>>> {
    static String<TA<0>> make(u64 i) {
        return E<String<TA<0>>>::make((int)(i % 30000));
    }
    static std::string text(u64 i) {
        return str_of((int)(i % 30000));
    }
};

template<typename K, typename V>
static void map_misuse(Src& s) {
    Case c;
    {
        using M = Map<K, V, TA<0>>;
        M x;
        std::map<u64, int> m;
        if(s.chance(1, 4)) x = M(s.draw(40));
        U range = 4 + s.draw(60);
        U n = s.draw(60);
        for(U i = 0; i < n; i++) {
            u64 k = s.draw(range);
            if(s.chance(1, 3) && m.count(k)) {
                x.erase(MKey<K>::make(k));
                m.erase(k);
            } else {
                x.insert(MKey<K>::make(k), E<V>::make((int)i));
                m[k] = (int)i;
            }
        }
        if(s.chance(1, 10)) {
            x.clear();
            m.clear();
        } else if(s.chance(1, 10)) {
            while(!m.empty()) {
                x.erase(MKey<K>::make(m.begin()->first));
                m.erase(m.begin());
            }
        } else if(s.chance(1, 10)) {
            M w = rpp::move(x);
            if(s.coin()) m.clear();
            else x = rpp::move(w);
        }
        const M& cx = x;
        U left = s.limit(4, 6, 12);
        while(s.step(left)) {
            u64 k = s.draw(range + 5);
            bool has = m.count(k);
            K key = MKey<K>::make(k);
            std::string kt = MKey<K>::text(k);
            if(has) {
                int v = m[k];
                CHECK(E<V>::val(x.get(key)) == v && E<V>::val(cx.get(key)) == v, "value of a present key differs");
                if constexpr(Any_String<K>) {
                    CHECK(E<V>::val(x.get(String_View{(const u8*)kt.data(), kt.size()})) == v, "value of a present text differs");
                }
                if(s.coin()) {
                    x.erase(key);
                    m.erase(k);
                }
            } else {
                switch(s.draw(Any_String<K> ? 3 : 2)) {
                case 0: dies("get of the missing key " + kt, [&] { sink(x.get(key)); }); break;
                case 1: dies("get of the missing key " + kt + " from a const Map", [&] { sink(cx.get(key)); }); break;
                case 2: dies("erase of the missing key " + kt, [&] { x.erase(key); }); break;
                default:
                    if constexpr(Any_String<K>) {
                        dies("get of the missing text " + kt, [&] { sink(x.get(String_View{(const u8*)kt.data(), kt.size()})); });
                    }
                }
            }
        }
    }
    c.settled("maps");
}
PROP(map_int, 300, 3000) {
    map_misuse<u64, int>(s);
}
PROP(map_int_owning, 150, 2000) {
    map_misuse<u64, Tok>(s);
}
PROP(map_collisions, 250, 3000) {
    map_misuse<Cold, int>(s);
}
PROP(map_string, 250, 3000) {
    map_misuse<String<TA<0>>, int>(s);
}

#endif

#if PART == 2
// ---- owners ----
template<typename P, typename Mk>
static void null_owner(Src& s, const char* name, Mk&& mk) {
    P p;
    U how = s.draw(4);
    const char* state = "default";
    if(how == 1) {
        P q = mk(3);
        p = rpp::move(q);
        CHECK(p.ok() && p->get() == 3 && (*p).get() == 3, "%s lost its value", name);
        const P& cp = p;
        CHECK(cp->get() == 3 && (*cp).get() == 3, "const %s lost its value", name);
        p = P{};
        state = "emptied";
    } else if(how == 2) {
        P q = mk(4);
        p = rpp::move(q);
        P r = rpp::move(p);
        CHECK((*r).get() == 4, "%s lost its value in a move", name);
        state = "moved-from";
    } else if(how == 3) {
        P q = mk(5);
        P r;
        r = rpp::move(q);
        CHECK(r->get() == 5, "%s lost its value in an assignment", name);
        p = rpp::move(q);
        state = "assigned from a moved-from";
    }
    CHECK(!p.ok(), "%s claims a value", name);
    const P& cp = p;
    std::string what = std::string(state) + " " + name;
    switch(s.draw(3)) {
    case 0: dies("*" + what, [&] { sink(*p); }); break;
    case 1: dies("-> of " + what, [&] { sinkp(p.operator->()); }); break;
    case 2: dies("* of const " + what, [&] { sink(*cp); }); break;
    default: dies("-> of const " + what, [&] { sinkp(cp.operator->()); });
    }
}
PROP(owners, 300, 3000) {
    Case c;
    switch(s.draw(2)) {
    case 0: null_owner<Box<Tok, TA<0>>>(s, "Box", [](int v) { return Box<Tok, TA<0>>{Tok{v}}; }); break;
    case 1: null_owner<Rc<Tok, TA<0>>>(s, "Rc", [](int v) { return Rc<Tok, TA<0>>{Tok{v}}; }); break;
    default: null_owner<Arc<Tok, TA<0>>>(s, "Arc", [](int v) { return Arc<Tok, TA<0>>{Tok{v}}; });
    }
    c.settled("owners");
}
template<typename T>
static void opt_misuse(Src& s) {
    Case c;
    {
        Opt<T> o;
        U left = 1 + s.draw(5);
        for(U i = 0; i < left; i++) {
            switch(s.draw(3)) {
            case 0:
                o = Opt<T>{E<T>::make(6)};
                CHECK(E<T>::val(*o) == 6, "option lost its value");
                break;
            case 1: o.emplace(E<T>::make(2)); break;
            case 2: {
                Opt<T> e;
                o = rpp::move(e);
                break;
            }
            default: o.clear();
            }
        }
        const Opt<T>& co = o;
        if(o.ok()) {
            CHECK(E<T>::val(*o) == E<T>::val(*co) && o.operator->() == &*o && co.operator->() == &*co, "option's accessors disagree");
            o.clear();
        }
        switch(s.draw(3)) {
        case 0: dies("* of an empty Opt", [&] { sink(*o); }); break;
        case 1: dies("-> of an empty Opt", [&] { sinkp(o.operator->()); }); break;
        case 2: dies("* of a const empty Opt", [&] { sink(*co); }); break;
        default: dies("-> of a const empty Opt", [&] { sinkp(co.operator->()); });
        }
    }
    c.settled("options");
}
PROP(options, 200, 2000) {
    switch(s.draw(2)) {
    case 0: opt_misuse<int>(s); break;
    case 1: opt_misuse<Tok>(s); break;
    default: opt_misuse<String<TA<0>>>(s);
    }
}
PROP(refs, 100, 1000) {
    int x = 5;
    Ref<int> r;
    if(s.coin()) {
        Ref<int> q{x};
        CHECK(*q == 5 && q.operator->() == &x, "reference differs");
        r = rpp::move(q);
        const Ref<int>& cr = r;
        CHECK(*r == 5 && *cr == 5 && cr.operator->() == &x, "reference differs after a move");
        if(s.coin()) {
            Ref<int> z = rpp::move(r);
            CHECK(*z == 5, "reference differs");
        } else
            r = rpp::move(q);
    }
    CHECK(!r.ok(), "reference to nothing claims otherwise");
    const Ref<int>& cr = r;
    switch(s.draw(3)) {
    case 0: dies("* of a null Ref", [&] { sink(*r); }); break;
    case 1: dies("-> of a null Ref", [&] { sinkp(r.operator->()); }); break;
    case 2: dies("* of a const null Ref", [&] { sink(*cr); }); break;
    default: dies("-> of a const null Ref", [&] { sinkp(cr.operator->()); });
    }
}
template<typename Fn, typename Mk>
static void fn_misuse(Src& s, Mk&& mk) {
    Fn f = mk(10);
    CHECK(f(1) == 11, "function differs");
    U how = s.draw(2);
    if(how == 0) {
        Fn g = rpp::move(f);
        CHECK(g(2) == 12, "function differs after a move");
        dies("call of a moved-from Function", [&] { sink(f(1)); });
    } else if(how == 1) {
        Fn g = mk(20);
        g = rpp::move(f);
        CHECK(g(2) == 12, "function differs after an assignment");
        dies("call of a Function assigned away", [&] { sink(f(1)); });
    } else {
        Fn g = mk(20);
        Fn h = rpp::move(f);
        g = rpp::move(f);
        dies("call of a Function assigned from a moved-from one", [&] { sink(g(1)); });
        f = rpp::move(h);
        CHECK(f(3) == 13, "function differs after coming back");
    }
}
PROP(functions, 150, 1500) {
    Case c;
    switch(s.draw(3)) {
    case 0: fn_misuse<Function<int(int)>>(s, [](int v) { return Function<int(int)>{[v](int x) { return x + v; }}; }); break;
    case 1:
        fn_misuse<Function<int(int)>>(s, [](int v) {
            return Function<int(int)>{[k = Box<Tok, TA<0>>{Tok{v}}](int x) mutable { return x + k->get(); }};
        });
        break;
    case 2:
        fn_misuse<FunctionN<12, int(int)>>(s, [](int v) {
            return FunctionN<12, int(int)>{[k = Tok{v}, b = Big{}](int x) mutable { return x + k.get() + b.val; }};
        });
        break;
    default: {
        FunctionN<1, void()> f{[]() {}};
        FunctionN<1, void()> g = rpp::move(f);
        g();
        dies("call of a moved-from void Function", [&] { f(); });
    }
    }
    c.settled("functions");
}

#endif

#if PART == 1
// ---- format arguments ----
template<typename F, typename... Ts>
static void with_args(Src& s, U n, F&& f, const Ts&... ts) {
    if constexpr(sizeof...(Ts) < 5) {
        if(n > 0) {
            if constexpr(sizeof...(Ts) < 3) {
                if(s.coin()) return with_args(s, n - 1, f, ts..., String_View{"per%cent"});
            }
            return with_args(s, n - 1, f, ts..., 42);
        }
    }
    f(ts...);
}
static bool g_logged;
PROP(format_arguments, 500, 6000) {
    std::string fmt;
    U parts = s.draw(10);
    for(U i = 0; i < parts; i++) {
        switch(s.pick({3, 3, 2, 1})) {
        case 0: fmt += "%"; break;
        case 1: fmt += text(s, 5) + "w"; break;
        case 2: fmt += "%%"; break;
        default: fmt += "%%%"; break;
        }
    }
    if(s.chance(1, 4)) fmt += "%";
    U holes = 0; // reading left to right, %% is a percent sign and any other % a placeholder
    for(U i = 0; i < fmt.size(); i++) {
        if(fmt[i] != '%') continue;
        if(i + 1 < fmt.size() && fmt[i + 1] == '%') i++;
        else holes++;
    }
    U n = s.chance(1, 3) && holes <= 5 ? holes : s.draw(5);
    String_View f{(const u8*)fmt.data(), fmt.size()};
    int how = (int)s.draw(1);
    with_args(s, n, [&]<typename... Ts>(const Ts&... ts) {
        auto go = [&] {
            if(how == 0) {
                auto r = format<TA<0>>(f, ts...);
                sink(r);
            } else {
                Log::log(Log::Level::info, RPP_HERE, f, ts...);
            }
        };
        std::string what = std::string(how ? "log" : "format") + " of \"" + fmt + "\" with " + std::to_string(n) + " arguments";
        if(holes != n) {
            dies(what, go);
        } else if(how == 0) {
            pbt::label("matching");
            go();
        } else {
            pbt::label("matching");
            auto token = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { g_logged = true; });
            g_logged = false;
            go();
            Log::unsubscribe(token);
            CHECK(g_logged, "%s: not delivered", what.c_str());
        }
    });
}

#endif

#if PART == 0
// ---- vectors, matrices and quaternions ----
template<typename X>
static void small_vec(Src& s, X x, U n, const char* name) {
    const X cx = x;
    U left = s.limit(2, 3, 5);
    for(U i = 0; i < n; i++) CHECK(x[i] == x.data[i] && cx[i] == x.data[i], "%s[%lu] differs", name, i);
    while(s.step(left)) {
        U i = bad_index(s, n, sizeof(x[0]));
        switch(s.draw(2)) {
        case 0: dies(at(name, i, n), [&] { sink(x[i]); }); break;
        case 1: dies(at((std::string("const ") + name).c_str(), i, n), [&] { sink(cx[i]); }); break;
        default: dies(at((std::string("write to ") + name).c_str(), i, n), [&] { x[i] = 1; });
        }
    }
}
PROP(vmath, 200, 2000) {
    switch(s.draw(6)) {
    case 0: small_vec(s, Vec2{1.0f, 2.0f}, 2, "Vec2"); break;
    case 1: small_vec(s, Vec3{1.0f, 2.0f, 3.0f}, 3, "Vec3"); break;
    case 2: small_vec(s, Vec4{1.0f, 2.0f, 3.0f, 4.0f}, 4, "Vec4"); break;
    case 3: small_vec(s, Vec3i{1, 2, 3}, 3, "Vec3i"); break;
    case 4: small_vec(s, Vec2u{1u, 2u}, 2, "Vec2u"); break;
    case 5: {
        Mat4 m = Mat4::I;
        const Mat4 cm = m;
        U i = bad_index(s, 4, 16);
        if(s.coin()) dies(at("Mat4", i, 4), [&] { sink(m[i]); });
        else dies(at("const Mat4", i, 4), [&] { sink(cm[i]); });
        i = s.draw(3);
        CHECK(m[i][i] == 1.0f && cm[i][i] == 1.0f, "column %lu of the identity differs", i);
        break;
    }
    default: {
        Quat q{1.0f, 2.0f, 3.0f, 4.0f};
        const Quat cq = q;
        for(int i = 0; i < 4; i++) CHECK(q[i] == (f32)(i + 1) && cq[i] == (f32)(i + 1), "Quat[%d] differs", i);
        int i = s.coin() ? (int)(bad_index(s, 4, 4) & 0x7fffffff) : -1 - (int)s.draw(5);
        if(i >= 0 && i < 4) i += 4;
        if(s.chance(1, 6)) i = INT32_MIN + (int)s.draw(5);
        std::string what = "Quat[" + std::to_string(i) + "]";
        if(s.coin()) dies(what, [&] { sink(q[i]); });
        else dies("const " + what, [&] { sink(cq[i]); });
    }
    }
}

#endif

#if PART == 0
// ---- threads and tasks without a state ----
static Async::Task<int> answer(int x) {
    co_return x;
}
static Async::Task<void> nothing() {
    co_return;
}
PROP(tasks, 100, 1000) {
    switch(s.draw(2)) {
    case 0: {
        Async::Task<int> t;
        if(s.coin()) {
            Async::Task<int> u = answer(4);
            if(s.coin()) {
                t = rpp::move(u);
                Async::Task<int> w = rpp::move(t);
                CHECK(w.ok() && w.done() && w.block() == 4, "task lost its value");
            } else {
                t = rpp::move(u);
                CHECK(t.block() == 4, "task lost its value");
                t = rpp::move(u);
            }
        }
        CHECK(!t.ok(), "a task without a coroutine claims one");
        switch(s.draw(5)) {
        case 0: dies("done of an empty Task", [&] { sink(t.done()); }); break;
        case 1: dies("block of an empty Task", [&] { sink(t.block()); }); break;
        case 2: dies("resume of an empty Task", [&] { t.resume(); }); break;
        case 3: dies("await_ready of an empty Task", [&] { sink(t.await_ready()); }); break;
        case 4: dies("await_suspend of an empty Task", [&] { sink(t.await_suspend(std::noop_coroutine())); }); break;
        default: dies("await_resume of an empty Task", [&] { sink(t.await_resume()); });
        }
        break;
    }
    case 1: {
        Async::Task<void> t;
        if(s.coin()) {
            Async::Task<void> u = nothing();
            u.block();
            Async::Task<void> w = rpp::move(u);
            t = rpp::move(u);
        }
        if(s.coin()) dies("block of an empty Task", [&] { t.block(); });
        else dies("await of an empty Task", [&] {
            auto co = [](Async::Task<void>& x) -> Async::Task<void> { co_await x; };
            co(t).block();
        });
        break;
    }
    default: {
        Thread::Thread<TA<0>> t;
        if(s.coin()) {
            int ran = 0;
            Thread::Thread<TA<0>> u{[&ran] { ran = 1; }};
            if(s.coin()) {
                t = rpp::move(u);
                t.join();
            } else {
                Thread::Thread<TA<0>> w = rpp::move(u);
                w.join();
                t = rpp::move(u);
            }
            CHECK(ran == 1, "thread did not run");
        }
        switch(s.draw(2)) {
        case 0: dies("join of no thread", [&] { t.join(); }); break;
        case 1: dies("detach of no thread", [&] { t.detach(); }); break;
        default: dies("id of no thread", [&] { sink(t.id()); });
        }
    }
    }
}
#endif

