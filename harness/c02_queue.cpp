// C02: Queue against std::deque.
#include "model.h"
using namespace t;

template<typename T, typename A>
static void same(const Queue<T, A>& q, const std::deque<int>& m, const char* who) {
    CHECK(q.length() == m.size(), "%s: length %lu, expected %lu", who, q.length(), m.size());
    CHECK(q.empty() == m.empty(), "%s: empty() wrong", who);
    for(size_t i = 0; i < m.size(); i++)
        CHECK(E<T>::val(q[i]) == m[i], "%s: element %lu is %d, expected %d", who, i, E<T>::val(q[i]), m[i]);
    size_t n = 0;
    for(const T& x : q) {
        CHECK(n < m.size(), "%s: iteration too long", who);
        CHECK(E<T>::val(x) == m[n], "%s: iteration differs at %lu: %d, expected %d", who, n, E<T>::val(x), m[n]);
        n++;
    }
    CHECK(n == m.size(), "%s: iteration yields %lu of %lu", who, n, m.size());
    if(!m.empty()) { // the other increment, and the arrow
        auto it = q.begin();
        auto was = it++;
        CHECK(was == q.begin() && E<T>::val(*was) == m[0], "%s: it++ does not give the position before", who);
        CHECK(E<T>::val(*was.operator->()) == m[0], "%s: it-> is not the element", who);
        CHECK(!(it == was) && (it == q.end()) == (m.size() == 1), "%s: it++ does not step once", who);
        if(m.size() > 1) CHECK(E<T>::val(*it) == m[1], "%s: it++ steps to %d, expected %d", who, E<T>::val(*it), m[1]);
    }
    if(!m.empty()) {
        CHECK(E<T>::val(q.front()) == m.front(), "%s: front is %d, expected %d", who, E<T>::val(q.front()), m.front());
        CHECK(E<T>::val(q.back()) == m.back(), "%s: back is %d, expected %d", who, E<T>::val(q.back()), m.back());
    }
    if(m.size() > 1)
        CHECK(E<T>::val(q.penultimate()) == m[m.size() - 2], "%s: penultimate differs", who);
}

template<typename T, typename A>
static void machine(Src& s) {
    Case c;
    {
        Queue<T, A> q[2];
        std::deque<int> m[2];
        int next = 1;
        auto fresh = [&]() { return (next++) % E<T>::max; };
        // some histories push mostly, some pop mostly, some keep the queue near its capacity
        unsigned push_w = s.of<unsigned>({14, 20, 10}), pop_w = s.of<unsigned>({13, 6, 10});
        U left = s.limit(14, 50, 300);
        bool nt = false;
        while(s.step(left)) {
            U k = s.pick({9, 1});
            auto& x = q[k];
            auto& mm = m[k];
            switch(s.pick({push_w, 4, 4, pop_w, 2, 3, 2, 2, 3, 3, 3, 1, 3})) {
            case 0: {
                int v = fresh();
                NOTE("q%lu.push(%d)", k, v);
                T& r = x.push(E<T>::make(v));
                mm.push_back(v);
                CHECK(&r == &x.back(), "push did not return the new element");
                break;
            }
            case 1: {
                int v = fresh();
                NOTE("q%lu.emplace(%d)", k, v);
                T& r = x.emplace(E<T>::make(v));
                mm.push_back(v);
                CHECK(&r == &x.back(), "emplace did not return the new element");
                break;
            }
            case 2:
                if constexpr(E<T>::copyable) {
                    if(!mm.empty() && s.coin()) {
                        U i = s.draw(mm.size() - 1);
                        int v = mm[i];
                        NOTE("q%lu.push(q%lu[%lu])", k, k, i);
                        x.push(static_cast<const T&>(x[i]));
                        mm.push_back(v);
                    } else {
                        int v = fresh();
                        NOTE("q%lu.push(const %d&)", k, v);
                        const T tmp = E<T>::make(v);
                        x.push(tmp);
                        mm.push_back(v);
                    }
                }
                break;
            case 3:
                if(mm.empty()) break;
                NOTE("q%lu.pop()", k);
                x.pop();
                mm.pop_front();
                break;
            case 4: {
                U n = s.range(0, 2 * mm.size() + 6);
                NOTE("q%lu.reserve(%lu)", k, n);
                if(n > mm.size() && !mm.empty()) nt = true;
                x.reserve(n);
                break;
            }
            case 5:
                NOTE("q%lu = q%lu.clone()", 1 - k, k);
                if(mm.size() > 1) nt = true, pbt::label("cloned");
                q[1 - k] = x.clone();
                m[1 - k] = mm;
                break;
            case 6:
                NOTE("q%lu = move(q%lu)", 1 - k, k);
                q[1 - k] = rpp::move(x);
                m[1 - k] = mm;
                mm.clear();
                break;
            case 7:
                NOTE("q%lu.clear()", k);
                x.clear();
                mm.clear();
                break;
            case 8:
                if(mm.empty()) break;
                {
                    U i = s.draw(mm.size() - 1);
                    int v = fresh();
                    U how = s.draw(2);
                    NOTE("q%lu write [%lu] = %d way %lu", k, i, v, how);
                    if(how == 0) x[i] = E<T>::make(v), mm[i] = v;
                    else if(how == 1) x.front() = E<T>::make(v), mm.front() = v;
                    else x.back() = E<T>::make(v), mm.back() = v;
                }
                break;
            case 9: // erase first match: needs values that repeat
                if constexpr(E<T>::eq) {
                    int v;
                    if(!mm.empty() && s.pick({3, 1}) == 0) v = mm[s.draw(mm.size() - 1)];
                    else v = fresh();
                    NOTE("q%lu.erase_first(%d)", k, v);
                    T probe = E<T>::make(v);
                    bool r = x.erase_first(probe);
                    auto it = std::find(mm.begin(), mm.end(), v);
                    CHECK(r == (it != mm.end()), "erase_first(%d) returned %d", v, (int)r);
                    if(it != mm.end()) {
                        if(mm.size() > 1) nt = true, pbt::label("erased");
                        mm.erase(it);
                    }
                }
                break;
            case 10: // duplicate value
                if(mm.empty()) break;
                {
                    int v = mm[s.draw(mm.size() - 1)];
                    NOTE("q%lu.push(dup %d)", k, v);
                    x.push(E<T>::make(v));
                    mm.push_back(v);
                }
                break;
            case 11: {
                U form = s.draw(3);
                NOTE("q%lu = construct form %lu", k, form);
                if(form == 0) {
                    x = Queue<T, A>{};
                    mm.clear();
                } else if(form == 1) {
                    x = Queue<T, A>(s.range(1, 10));
                    mm.clear();
                } else if(form == 2) {
                    int a = fresh(), b = fresh(), d = fresh();
                    x = Queue<T, A>{E<T>::make(a), E<T>::make(b), E<T>::make(d)};
                    mm = {a, b, d};
                } else {
                    Queue<T, A> tmp{rpp::move(x)};
                    same(x, {}, "moved-from queue");
                    same(tmp, mm, "move-constructed queue");
                    x = rpp::move(tmp);
                }
                break;
            }
            case 12: { // rotate: wraps the ring without changing the size
                if(mm.empty()) break;
                U n = s.range(1, 12);
                NOTE("q%lu rotate %lu", k, n);
                for(U i = 0; i < n; i++) {
                    int v = mm.front();
                    x.pop();
                    mm.pop_front();
                    x.push(E<T>::make(v));
                    mm.push_back(v);
                }
                pbt::label("rotated");
                break;
            }
            }
            same(q[0], m[0], "q0");
            same(q[1], m[1], "q1");
            CHECK(!(q[0].begin() == q[1].begin()) && !(q[0].end() == q[1].end()), "positions in different queues are equal");
            if constexpr(E<T>::owns)
                CHECK(L.live == (int64_t)(m[0].size() + m[1].size()), "%ld resources alive for %lu elements",
                      (long)L.live, m[0].size() + m[1].size());
        }
        if(nt) pbt::nontrivial();
    }
    c.settled("after destroying all queues");
}
PROP(queue_int, 200000, 6000000) {
    machine<int, TA<0>>(s);
}
PROP(queue_byte, 60000, 2000000) {
    machine<unsigned char, Mdefault>(s);
}
PROP(queue_owning, 200000, 6000000) {
    machine<Tok, TA<0>>(s);
}
PROP(queue_copyable, 100000, 3000000) {
    machine<Cpy, TA<0>>(s);
}
PROP(queue_big, 80000, 3000000) {
    machine<Big, TA<0>>(s);
}
PROP(queue_odd, 20000, 600000) {
    machine<Odd, TA<0>>(s);
}
PROP(queue_string, 80000, 3000000) {
    machine<String<TA<1>>, TA<0>>(s);
}
PROP(queue_vec, 80000, 3000000) {
    machine<Vec<Tok, TA<1>>, TA<0>>(s);
}

// Queues of up to 2^16 elements, wrapped and changed in bulk.
template<typename T>
static void large(Src& s, U maxlog) {
    Case c;
    {
        Queue<T, TA<0>> q[2];
        std::deque<int> m[2];
        U next = s.draw(1000), peak = 0;
        bool nt = false;
        auto fresh = [&]() { return (int)(next++ * 7 % (U)E<T>::max); };
        U ops = s.range(2, 9);
        for(U o = 0; o < ops; o++) {
            U k = s.pick({3, 1}), n = big_size(s, maxlog);
            auto& x = q[k];
            auto& mm = m[k];
            U op = s.pick({6, 3, 4, 3, 2, 2, 1, 2});
            NOTE("q%lu (%lu elements): bulk operation %lu with %lu", k, (U)mm.size(), op, n);
            if(mm.size() + n > ((U)4 << maxlog)) op = 1;
            auto push = [&]() {
                int val = fresh();
                auto add = [&]() -> T& {
                    if constexpr(E<T>::copyable) {
                        const T value = E<T>::make(val);
                        if(val % 3 == 2) return x.push(value);
                    }
                    return val % 3 ? x.emplace(E<T>::make(val)) : x.push(E<T>::make(val));
                };
                T& r = add();
                mm.push_back(val);
                CHECK(&r == &x.back(), "push did not return the new element");
            };
            auto pop = [&]() {
                CHECK(E<T>::val(x.front()) == mm.front(), "front is %d, expected %d", E<T>::val(x.front()), mm.front());
                x.pop();
                mm.pop_front();
            };
            switch(op) {
            case 0:
                for(U i = 0; i < n; i++) push();
                break;
            case 1:
                for(U i = 0; i < n && !mm.empty(); i++) pop();
                break;
            case 2:
                if(mm.empty()) push();
                for(U i = 0; i < n; i++) pop(), push();
                break;
            case 3:
                x.reserve(n);
                nt = nt || mm.size() > 64;
                break;
            case 4:
                q[1 - k] = x.clone();
                m[1 - k] = mm;
                nt = nt || mm.size() > 64;
                break;
            case 5:
                q[1 - k] = rpp::move(x);
                m[1 - k] = std::move(mm);
                mm.clear();
                break;
            case 6:
                x.clear();
                mm.clear();
                break;
            case 7: {
                if(mm.empty()) break;
                int val = mm[s.draw(mm.size() - 1)];
                auto it = std::find(mm.begin(), mm.end(), val);
                NOTE("erase_first(%d) at %lu", val, (U)(it - mm.begin()));
                mm.erase(it);
                CHECK(x.erase_first(E<T>::make(val)), "erase_first did not find an element");
                break;
            }
            }
            peak = std::max<U>(peak, mm.size());
            same(q[0], m[0], "q0");
            same(q[1], m[1], "q1");
            if constexpr(E<T>::owns)
                CHECK(L.live == (int64_t)(m[0].size() + m[1].size()), "%ld resources alive for %lu elements", (long)L.live, (U)(m[0].size() + m[1].size()));
        }
        if(nt && peak > 256) pbt::nontrivial();
        if(peak > 4096) pbt::label("more than 4096 elements");
    }
    c.settled("after destroying all queues");
}
PROP(large_int, 3200, 64000) {
    large<int>(s, 15);
}
PROP(large_byte, 2400, 48000) {
    large<unsigned char>(s, 15);
}
PROP(large_owning, 2400, 48000) {
    large<Tok>(s, 13);
}
PROP(large_copyable, 1600, 32000) {
    large<Cpy>(s, 13);
}
