// C05: a zoo of nested owners, mirrored by standard-library owners of counted objects. After every operation the
// number of live resources must be exactly the mirror's, and at the end every allocator block must be back.
#include "model.h"
#include <optional>
#include <variant>
using namespace t;

struct M { // mirror of one owned resource
    static inline int64_t n;
    int v;
    M(int v = 0) : v(v) {
        n++;
    }
    M(const M& o) : v(o.v) {
        n++;
    }
    M& operator=(const M& o) = default;
    ~M() {
        n--;
    }
};
using MP = std::shared_ptr<M>;

struct HItem {
    int key;
    Rc<Tok, TA<1>> rc;
    HItem(int k, Rc<Tok, TA<1>>&& r) : key(k), rc(rpp::move(r)) {
    }
    HItem(HItem&&) noexcept = default;
    HItem& operator=(HItem&&) noexcept = default;
    HItem clone() const noexcept {
        return HItem{key, rc.dup()};
    }
    bool operator<(const HItem& o) const noexcept {
        return key < o.key;
    }
};
struct Base_ {
    Tok t;
    explicit Base_(int v) : t(v) {
    }
    virtual ~Base_() {
    }
    virtual int get() const {
        return t.get();
    }
};
struct Derived_ : Base_ {
    Tok u;
    explicit Derived_(int v) : Base_(v), u(v + 1) {
    }
    int get() const override {
        return u.get();
    }
};

template<typename A>
static String<A> mkstr(int v) {
    return E<String<TA<0>>>::make(v).view().template string<A>();
}

using Var = Variant<Tok, Vec<Tok, TA<0>>, int, Cpy>;
using MVar = std::variant<M, std::vector<M>, int, std::optional<M>>; // the optional stands for Cpy

struct Zoo {
    Vec<Box<Tok, TA<1>>, TA<0>> vec;
    Vec<Cpy, TA<0>> cvec;
    Stack<Tok, TA<1>> stack;
    Queue<Opt<Tok>, TA<0>> queue;
    Queue<Cpy, TA<2>> cqueue;
    Heap<HItem, TA<0>> heap;
    Map<String<TA<1>>, Vec<Cpy, TA<2>>, TA<0>> map;
    Map<i32, Opt<Tok>, TA<0>> imap;
    Var var{0};
    Opt<Box<Cpy, TA<2>>> opt;
    Opt<Tok> topt;
    Tuple<Tok, Vec<Tok, TA<1>>, Cpy> tup{Tok{1}, Vec<Tok, TA<1>>{}, Cpy{2}};
    Array<Opt<Tok>, 3> arr;
    Opt<FunctionN<12, int(int)>> fn;
    Opt<Pair<Cpy, Box<Tok, TA<0>>>> pair;
    Rc<Tok, TA<1>> rc[3];
    Arc<Cpy, TA<2>> arc[3];
    Box<Base_, TA<0>> poly;
    Box<Vec<Box<Tok, TA<1>>, TA<0>>, TA<2>> nest;
};
struct Mirror {
    std::vector<M> vec, cvec, stack;
    std::deque<std::optional<M>> queue;
    std::deque<M> cqueue;
    std::multimap<int, MP> heap;
    std::map<int, std::vector<M>> map;
    std::map<int, std::optional<M>> imap;
    MVar var{0};
    std::optional<M> opt, topt;
    std::vector<M> tup_fixed = std::vector<M>(2), tup_vec;
    std::optional<M> arr[3];
    std::vector<M> fn;
    MP fn_rc;
    std::vector<M> pair, poly, nest;
    MP rc[3], arc[3];
    int uid = 1000; // shared objects carry unique values, so that a heap entry identifies its object
};

static void act(Src& s, Zoo& z, Mirror& m) {
    int v = (int)s.range(1, 200);
    U i = s.draw(2), j = s.draw(2);
    auto shrink = [](auto& vec, size_t n) {
        while(vec.size() > n) vec.pop_back();
    };
    switch(s.draw(18)) {
    case 0: { // Vec of Box
        U o = s.pick({6, 3, 2, 2, 2, 2, 1, 1, 1});
        NOTE("vec op %lu", o);
        switch(o) {
        case 0: z.vec.push(Box<Tok, TA<1>>{Tok{v}}); m.vec.push_back(v); break;
        case 1: if(!m.vec.empty()) { z.vec.pop(); m.vec.pop_back(); } break;
        case 2: z.vec.clear(); m.vec.clear(); break;
        case 3: { U n = s.draw(m.vec.size()); z.vec.resize(n); shrink(m.vec, n); break; }
        case 4: z.vec.reserve(s.draw(20)); break;
        case 5: if(!m.vec.empty()) { U k = s.draw(m.vec.size() - 1); z.vec[k] = Box<Tok, TA<1>>{Tok{v}}; m.vec[k] = M(v); } break;
        case 6: z.vec = z.vec.clone(); break;
        case 7: { auto t = rpp::move(z.vec); if(s.coin()) z.vec = rpp::move(t); else m.vec.clear(); break; }
        case 8: z.vec = Vec<Box<Tok, TA<1>>, TA<0>>(s.draw(5)); m.vec.clear(); break;
        }
        break;
    }
    case 1: { // Vec of copyable
        U o = s.pick({5, 3, 2, 2, 2, 2, 2, 1, 1});
        NOTE("cvec op %lu", o);
        switch(o) {
        case 0: { Cpy c{v}; z.cvec.push(c); m.cvec.push_back(v); break; }
        case 1: z.cvec.emplace(v); m.cvec.push_back(v); break;
        case 2: if(!m.cvec.empty()) { z.cvec.pop(); m.cvec.pop_back(); } break;
        case 3: z.cvec.clear(); m.cvec.clear(); break;
        case 4: { U n = s.draw(12); z.cvec.resize(n); shrink(m.cvec, n); while(m.cvec.size() < n) m.cvec.emplace_back(0); break; }
        case 5: { U n = s.draw(4); z.cvec.extend(n); while(n--) m.cvec.emplace_back(0); break; }
        case 6: if(!m.cvec.empty()) { U k = s.draw(m.cvec.size() - 1); Cpy c{v}; z.cvec[k] = c; m.cvec[k] = M(v); } break;
        case 7: { U n = s.draw(6); z.cvec = Vec<Cpy, TA<0>>::make(n ? n : 1); m.cvec.assign(n ? n : 1, M(0)); break; }
        case 8: { auto t = z.cvec.clone(); z.cvec = rpp::move(t); break; }
        }
        break;
    }
    case 2: { // Stack
        U o = s.pick({5, 3, 1, 1, 1, 1});
        NOTE("stack op %lu", o);
        switch(o) {
        case 0: z.stack.push(Tok{v}); m.stack.push_back(v); break;
        case 1: if(!m.stack.empty()) { z.stack.pop(); m.stack.pop_back(); } break;
        case 2: z.stack.clear(); m.stack.clear(); break;
        case 3: z.stack = z.stack.clone(); break;
        case 4: { auto t = rpp::move(z.stack); if(s.coin()) z.stack = rpp::move(t); else m.stack.clear(); break; }
        case 5: if(!m.stack.empty()) { z.stack.top() = Tok{v}; m.stack.back() = M(v); } break;
        }
        break;
    }
    case 3: { // Queue of Opt
        U o = s.pick({6, 4, 1, 2, 1, 1, 2});
        NOTE("queue op %lu", o);
        switch(o) {
        case 0:
            if(s.chance(1, 4)) z.queue.push(Opt<Tok>{}), m.queue.emplace_back();
            else z.queue.push(Opt<Tok>{Tok{v}}), m.queue.emplace_back(v);
            break;
        case 1: if(!m.queue.empty()) { z.queue.pop(); m.queue.pop_front(); } break;
        case 2: z.queue.clear(); m.queue.clear(); break;
        case 3: z.queue.reserve(s.draw(30)); break;
        case 4: z.queue = z.queue.clone(); break;
        case 5: { auto t = rpp::move(z.queue); if(s.coin()) z.queue = rpp::move(t); else m.queue.clear(); break; }
        case 6: if(!m.queue.empty()) { U k = s.draw(m.queue.size() - 1); z.queue[k] = Opt<Tok>{}; m.queue[k].reset(); } break;
        }
        break;
    }
    case 4: { // Queue of copyable, with erase
        U o = s.pick({6, 3, 3, 1, 1, 1, 1});
        NOTE("cqueue op %lu", o);
        switch(o) {
        case 0: { Cpy c{v % 6}; z.cqueue.push(c); m.cqueue.emplace_back(v % 6); break; }
        case 1: if(!m.cqueue.empty()) { z.cqueue.pop(); m.cqueue.pop_front(); } break;
        case 2: {
            Cpy c{v % 6};
            z.cqueue.erase_first(c);
            auto it = std::find_if(m.cqueue.begin(), m.cqueue.end(), [&](M& x) { return x.v == v % 6; });
            if(it != m.cqueue.end()) m.cqueue.erase(it);
            break;
        }
        case 3: z.cqueue.clear(); m.cqueue.clear(); break;
        case 4: z.cqueue = z.cqueue.clone(); break;
        case 5: z.cqueue = Queue<Cpy, TA<2>>{}; m.cqueue.clear(); break;
        case 6: z.cqueue.emplace(v % 6); m.cqueue.emplace_back(v % 6); break;
        }
        break;
    }
    case 5: { // Heap of shared
        U o = s.pick({6, 4, 1, 1, 1, 1});
        NOTE("heap op %lu", o);
        switch(o) {
        case 0:
            if(z.rc[i].ok() && s.coin()) z.heap.push(HItem{v, z.rc[i].dup()}), m.heap.emplace(v, m.rc[i]);
            else { int u = m.uid++; z.heap.emplace(v, Rc<Tok, TA<1>>{Tok{u}}); m.heap.emplace(v, std::make_shared<M>(u)); }
            break;
        case 1:
            if(!m.heap.empty()) {
                CHECK(z.heap.top().key == m.heap.begin()->first, "heap top differs");
                const Tok* p = &*z.heap.top().rc;
                // several entries may share the least key: remove the one the heap removes
                int id = p->get();
                auto it = m.heap.begin();
                bool found = false;
                for(auto e = m.heap.begin(); e != m.heap.end() && e->first == z.heap.top().key; ++e)
                    if(e->second->v == id && (U)e->second.use_count() == z.heap.top().rc.references()) it = e, found = true;
                CHECK(found, "no mirror entry has the reference count of the heap's top");
                z.heap.pop();
                m.heap.erase(it);
            }
            break;
        case 2: z.heap.clear(); m.heap.clear(); break;
        case 3: z.heap = Heap<HItem, TA<0>>{}; m.heap.clear(); break;
        case 4: { auto t = rpp::move(z.heap); if(s.coin()) z.heap = rpp::move(t); else m.heap.clear(); break; }
        case 5: z.heap.reserve(s.draw(30)); break;
        }
        break;
    }
    case 6: { // Map String -> Vec
        int k = v % 12;
        U o = s.pick({5, 3, 4, 1, 1, 1, 1, 2});
        NOTE("map op %lu key %d", o, k);
        U n = s.draw(3);
        switch(o) {
        case 0: {
            Vec<Cpy, TA<2>> x;
            for(U q = 0; q < n; q++) x.push(Cpy{v});
            z.map.insert(mkstr<TA<1>>(k), rpp::move(x));
            m.map[k] = std::vector<M>(n);
            break;
        }
        case 1: z.map.get_or_insert(mkstr<TA<1>>(k)).push(Cpy{v}); m.map[k].emplace_back(v); break;
        case 2: CHECK(z.map.try_erase(mkstr<TA<1>>(k)) == (m.map.erase(k) == 1), "try_erase differs"); break;
        case 3: z.map.clear(); m.map.clear(); break;
        case 4: z.map = z.map.clone(); break;
        case 5: z.map.reserve(s.draw(100)); break;
        case 6: { auto t = rpp::move(z.map); if(s.coin()) z.map = rpp::move(t); else m.map.clear(); break; }
        case 7: z.map.emplace(mkstr<TA<1>>(k), Vec<Cpy, TA<2>>{}); m.map[k].clear(); break;
        }
        break;
    }
    case 7: { // Map int -> Opt
        int k = v % 30;
        U o = s.pick({6, 4, 1, 1, 1, 1, 2});
        NOTE("imap op %lu key %d", o, k);
        switch(o) {
        case 0: z.imap.insert((i32)k, Opt<Tok>{Tok{v}}); m.imap[k] = M(v); break;
        case 1: CHECK(z.imap.try_erase(k) == (m.imap.erase(k) == 1), "try_erase differs"); break;
        case 2: z.imap.clear(); m.imap.clear(); break;
        case 3: z.imap = z.imap.clone(); break;
        case 4: z.imap = Map<i32, Opt<Tok>, TA<0>>(s.draw(20)); m.imap.clear(); break;
        case 5: z.imap.grow(); break;
        case 6: z.imap.get_or_insert((i32)k).clear(); m.imap[k].reset(); break;
        }
        break;
    }
    case 8: { // Variant
        U o = s.pick({2, 2, 2, 2, 1, 1});
        NOTE("variant op %lu", o);
        auto cloned = [](const MVar& x) { return x; };
        switch(o) {
        case 0: z.var = Var{Tok{v}}; m.var.emplace<0>(v); break;
        case 1: { Vec<Tok, TA<0>> x; for(U q = 0; q <= i; q++) x.push(Tok{v}); z.var = Var{rpp::move(x)}; m.var.emplace<1>(i + 1); break; }
        case 2: z.var = Var{int{v}}; m.var.emplace<2>(v); break;
        case 3: z.var = Var{Cpy{v}}; m.var.emplace<3>(std::in_place, v); break;
        case 4: z.var = z.var.clone(); m.var = cloned(m.var); break;
        case 5: { Var t = rpp::move(z.var); z.var = rpp::move(t); break; }
        }
        break;
    }
    case 9: { // Opt of Box, Opt of Tok
        U o = s.pick({2, 2, 2, 1, 1, 1, 1, 1, 2});
        NOTE("opt op %lu", o);
        switch(o) {
        case 0: z.opt = Opt<Box<Cpy, TA<2>>>{Box<Cpy, TA<2>>{Cpy{v}}}; m.opt.emplace(v); break;
        case 1: z.opt.emplace(Cpy{v}); m.opt.emplace(v); break;
        case 2: z.opt.clear(); m.opt.reset(); break;
        case 3: z.opt = z.opt.clone(); break;
        case 4: { auto t = rpp::move(z.opt); z.opt = rpp::move(t); break; }
        case 5: z.topt.emplace(v); m.topt.emplace(v); break;
        case 6: z.topt = Tok{v}; m.topt.emplace(v); break;
        case 7: z.topt.clear(); m.topt.reset(); break;
        case 8: z.topt = Opt<Tok>{}; m.topt.reset(); break;
        }
        break;
    }
    case 10: { // Tuple
        U o = s.pick({2, 1, 1, 1});
        NOTE("tuple op %lu", o);
        using T = Tuple<Tok, Vec<Tok, TA<1>>, Cpy>;
        switch(o) {
        case 0: z.tup.get<1>().push(Tok{v}); m.tup_vec.emplace_back(v); break;
        case 1: { Vec<Tok, TA<1>> x; x.push(Tok{v}); z.tup = T{Tok{v}, rpp::move(x), Cpy{v}}; m.tup_vec.assign(1, M(v)); break; }
        case 2: z.tup = z.tup.clone(); break;
        case 3: z.tup.get<0>() = Tok{v}; z.tup.get<1>() = Vec<Tok, TA<1>>{}; m.tup_vec.clear(); break;
        }
        break;
    }
    case 11: { // Array of Opt
        U o = s.pick({3, 2, 1, 1});
        NOTE("array op %lu", o);
        switch(o) {
        case 0: z.arr[i] = Opt<Tok>{Tok{v}}; m.arr[i].emplace(v); break;
        case 1: z.arr[i].clear(); m.arr[i].reset(); break;
        case 2: z.arr = z.arr.clone(); break;
        case 3: z.arr = Array<Opt<Tok>, 3>{}; for(auto& a : m.arr) a.reset(); break;
        }
        break;
    }
    case 12: { // Function
        U o = s.pick({3, 2, 2, 2, 2, 3});
        NOTE("function op %lu", o);
        using F = FunctionN<12, int(int)>;
        auto plain = [](int v) { return F{[t = Tok{v}](int x) { return t.get() + x; }}; };
        switch(o) {
        case 5: if(z.fn.ok()) { *z.fn = plain(v); m.fn.assign(1, M(v)); m.fn_rc.reset(); } break; // over another function, of the same type or not
        case 0: z.fn = plain(v); m.fn.assign(1, M(v)); m.fn_rc.reset(); break;
        case 1: z.fn = F{[a = Cpy{v}, b = Box<Tok, TA<1>>{Tok{v}}, r = z.rc[i].dup()](int x) { return a.get() + b->get() + x; }};
            m.fn.assign(2, M(v)); m.fn_rc = m.rc[i]; break;
        case 2: z.fn.clear(); m.fn.clear(); m.fn_rc.reset(); break;
        case 3: if(z.fn.ok()) { F g = rpp::move(*z.fn); z.fn = rpp::move(g); } break;
        case 4: if(z.fn.ok()) { int base = (*z.fn)(0); CHECK((*z.fn)(v) == base + v, "function result"); } break;
        }
        break;
    }
    case 13: { // Pair
        U o = s.pick({2, 1, 1, 1});
        NOTE("pair op %lu", o);
        using P = Pair<Cpy, Box<Tok, TA<0>>>;
        switch(o) {
        case 0: z.pair = P{Cpy{v}, Box<Tok, TA<0>>{Tok{v}}}; m.pair.assign(2, M(v)); break;
        case 1: z.pair.clear(); m.pair.clear(); break;
        case 2: z.pair = z.pair.clone(); break;
        case 3: if(z.pair.ok()) { z.pair->second = Box<Tok, TA<0>>{}; shrink(m.pair, 1); } break;
        }
        break;
    }
    case 14: { // Rc
        U o = s.pick({3, 3, 2, 2});
        NOTE("rc op %lu %lu<-%lu", o, i, j);
        switch(o) {
        case 0: { int u = m.uid++; z.rc[i] = Rc<Tok, TA<1>>{Tok{u}}; m.rc[i] = std::make_shared<M>(u); break; }
        case 1: z.rc[i] = z.rc[j].dup(); m.rc[i] = MP{m.rc[j]}; break;
        case 2: z.rc[i].clear(); m.rc[i].reset(); break;
        case 3: if(i != j) { z.rc[i] = rpp::move(z.rc[j]); m.rc[i] = std::move(m.rc[j]); m.rc[j].reset(); } break;
        }
        break;
    }
    case 15: { // Arc
        U o = s.pick({3, 3, 2, 2});
        NOTE("arc op %lu %lu<-%lu", o, i, j);
        switch(o) {
        case 0: z.arc[i] = Arc<Cpy, TA<2>>::make(v); m.arc[i] = std::make_shared<M>(v); break;
        case 1: z.arc[i] = z.arc[j].dup(); m.arc[i] = MP{m.arc[j]}; break;
        case 2: z.arc[i].clear(); m.arc[i].reset(); break;
        case 3: if(i != j) { z.arc[i] = rpp::move(z.arc[j]); m.arc[i] = std::move(m.arc[j]); m.arc[j].reset(); } break;
        }
        break;
    }
    case 16: { // polymorphic Box
        U o = s.pick({2, 2, 1, 1});
        NOTE("poly op %lu", o);
        switch(o) {
        case 0: z.poly = Box<Base_, TA<0>>{Box<Derived_, TA<0>>::make(v)}; m.poly.assign(2, M(v)); break;
        case 1: z.poly = Box<Base_, TA<0>>::make(v); m.poly.assign(1, M(v)); break;
        case 2: z.poly.emplace(v); m.poly.assign(1, M(v)); break;
        case 3: z.poly = Box<Base_, TA<0>>{}; m.poly.clear(); break;
        }
        break;
    }
    case 17: { // Box of Vec of Box
        U o = s.pick({1, 4, 2, 1, 1});
        NOTE("nest op %lu", o);
        using V = Vec<Box<Tok, TA<1>>, TA<0>>;
        switch(o) {
        case 0: z.nest = Box<V, TA<2>>{V{}}; m.nest.clear(); break;
        case 1: if(z.nest.ok()) { z.nest->push(Box<Tok, TA<1>>{Tok{v}}); m.nest.emplace_back(v); } break;
        case 2: if(z.nest.ok() && m.nest.size()) { z.nest->pop(); m.nest.pop_back(); } break;
        case 3: z.nest = z.nest.ok() ? z.nest.clone() : Box<V, TA<2>>{V{}}; break;
        case 4: z.nest.emplace(); m.nest.clear(); break;
        }
        break;
    }
    case 18: { // moves between containers
        U o = s.draw(4);
        NOTE("transfer op %lu", o);
        switch(o) {
        case 0: if(!m.vec.empty()) { z.stack.push(rpp::move(*z.vec.back())); z.vec.pop(); m.stack.push_back(m.vec.back()); m.vec.pop_back(); } break;
        case 1: if(!m.stack.empty()) { z.queue.push(Opt<Tok>{rpp::move(z.stack.top())}); z.stack.pop(); m.queue.emplace_back(m.stack.back()); m.stack.pop_back(); } break;
        case 2: if(!m.queue.empty() && m.queue.front()) { z.imap.insert(v % 30, rpp::move(z.queue.front())); z.queue.pop(); m.imap[v % 30] = m.queue.front(); m.queue.pop_front(); } break;
        case 3: if(!m.cvec.empty()) { z.cqueue.push(z.cvec.back()); m.cqueue.push_back(m.cvec.back()); } break;
        case 4: if(z.topt.ok()) { z.vec.push(Box<Tok, TA<1>>{rpp::move(*z.topt)}); z.topt.clear(); m.vec.push_back(*m.topt); m.topt.reset(); } break;
        }
        break;
    }
    }
}

PROP(zoo, 400000, 15000000) {
    Case c;
    M::n = 0;
    {
        Mirror m;
        Opt<Zoo> z;
        z.emplace();
        U left = s.limit(30, 120, 500), peak = 0;
        CHECK(L.live == M::n, "initially %ld resources live, expected %ld", (long)L.live, (long)M::n);
        while(s.step(left)) {
            act(s, *z, m);
            CHECK(L.live == M::n, "%ld owned resources are live, but the owners hold %ld", (long)L.live, (long)M::n);
            peak = std::max<U>(peak, (U)M::n);
        }
        if(peak >= 10) pbt::nontrivial();
        if(s.chance(1, 8)) { // the whole zoo moves
            Zoo other = rpp::move(*z);
            CHECK(L.live == M::n, "moving every owner changed the number of live resources");
            *z = rpp::move(other);
            CHECK(L.live == M::n, "moving every owner back changed the number of live resources");
            pbt::label("moved whole");
        }
    }
    c.settled("after destroying every owner");
}

// Overwriting or emptying a container by assignment gives its blocks back at once.
template<typename C, typename F>
static void blocks(Src& s, const char* what, F fill) {
    Case c;
    {
        C a, b;
        U na = s.draw(40), nb = s.draw(40);
        if(s.chance(1, 6)) na = s.draw(700);
        for(U i = 0; i < na; i++) fill(a, (int)i);
        u64 only_a = TA<0>::live();
        u64 owned_a = L.live;
        for(U i = 0; i < nb; i++) fill(b, (int)i);
        u64 b_blocks = TA<0>::live() - only_a, b_owned = L.live - owned_a;
        if(na > 4 && nb > 4) pbt::nontrivial();
        U o = s.draw(7);
        NOTE("%s: %lu and %lu elements, op %lu", what, na, nb, o);
        if(o >= 4) { // emptied in place, used again
            for(U round = 0; round < 2; round++) {
                if(o % 2 == 0) a.clear();
                else if constexpr(requires { a.pop(); }) {
                    while(!a.empty()) {
                        int64_t before = L.live;
                        a.pop();
                        CHECK(L.live <= before, "%s: a pop left more elements alive", what);
                    }
                } else if constexpr(requires { a.begin()->first; }) {
                    while(!a.empty()) a.erase(a.begin()->first);
                }
                CHECK(L.live == (int64_t)b_owned, "%s: emptied, %ld elements are still live", what, (long)L.live - (long)b_owned);
                if(o < 6) break;
                for(U i = 0; i < na; i++) fill(a, (int)i);
                CHECK(L.live == (int64_t)(owned_a + b_owned), "%s: filled again, %ld elements are live, not %lu", what, (long)L.live - (long)b_owned, owned_a);
            }
        } else if(o == 0) {
            a = rpp::move(b);
            CHECK(TA<0>::live() == b_blocks && L.live == (int64_t)b_owned,
                  "%s: after move-assignment %lu blocks and %ld elements live, the assigned one held %lu and %lu", what,
                  TA<0>::live(), (long)L.live, b_blocks, b_owned);
        } else if(o == 1) {
            a = C{};
            CHECK(TA<0>::live() == b_blocks && L.live == (int64_t)b_owned, "%s: assigning an empty one left %lu blocks and %ld elements",
                  what, TA<0>::live() - b_blocks, (long)L.live - (long)b_owned);
        } else if(o == 2) {
            {
                C t = rpp::move(a);
                CHECK(TA<0>::live() == only_a + b_blocks && L.live == (int64_t)(owned_a + b_owned), "%s: move construction changed ownership", what);
            }
            CHECK(TA<0>::live() == b_blocks && L.live == (int64_t)b_owned, "%s: destruction left blocks or elements", what);
        } else {
            auto t = a.clone();
            CHECK(L.live == (int64_t)(2 * owned_a + b_owned), "%s: a clone owns %ld elements, the original %lu", what,
                  (long)L.live - (long)(owned_a + b_owned), owned_a);
            a = rpp::move(t);
            CHECK(L.live == (int64_t)(owned_a + b_owned), "%s: the overwritten elements were not all released", what);
        }
    }
    c.settled(what);
}
PROP(blocks_each, 100000, 3000000) {
    switch(s.draw(10)) {
    case 0: return blocks<Vec<Tok, TA<0>>>(s, "Vec", [](auto& x, int i) { x.push(Tok{i}); });
    case 1: return blocks<Vec<i32, TA<0>>>(s, "Vec<i32>", [](auto& x, int i) { x.push(i); });
    case 2: return blocks<Stack<Tok, TA<0>>>(s, "Stack", [](auto& x, int i) { x.push(Tok{i}); });
    case 3: return blocks<Queue<Tok, TA<0>>>(s, "Queue", [](auto& x, int i) { x.push(Tok{i}); });
    case 4: return blocks<Queue<i32, TA<0>>>(s, "Queue<i32>", [](auto& x, int i) { x.push(i); });
    case 5: return blocks<Map<i32, Tok, TA<0>>>(s, "Map", [](auto& x, int i) { x.insert((i32)i, Tok{i}); });
    case 6: return blocks<Map<i32, i32, TA<0>>>(s, "Map<i32, i32>", [](auto& x, int i) { x.insert((i32)i, (i32)i); });
    case 7: return blocks<Map<String<TA<0>>, Vec<Cpy, TA<0>>, TA<0>>>(s, "Map<String, Vec>", [](auto& x, int i) { x.get_or_insert(mkstr<TA<0>>(i % 20)).push(Cpy{i}); });
    case 8: return blocks<Vec<Vec<Tok, TA<0>>, TA<0>>>(s, "Vec<Vec>", [](auto& x, int i) { if(i % 3 == 0) x.push(Vec<Tok, TA<0>>{}); x.back().push(Tok{i}); });
    case 9: return blocks<Heap<Tok, TA<0>>>(s, "Heap", [](auto& x, int i) { x.push(Tok{(i * 7) % 11}); });
    case 10: return blocks<Vec<String<TA<0>>, TA<0>>>(s, "Vec<String>", [](auto& x, int i) { x.push(mkstr<TA<0>>(i)); });
    }
}

// Strings: every edit keeps exactly the blocks the live strings need.
PROP(strings, 60000, 2000000) {
    Case c;
    {
        String<TA<0>> a[3];
        std::string m[3];
        U left = s.limit(10, 40, 120);
        while(s.step(left)) {
            U i = s.draw(2), j = s.draw(2);
            std::string t = s.bytes(12);
            String_View v{(const u8*)t.data(), t.size()};
            U o = s.draw(6);
            NOTE("string %lu op %lu", i, o);
            switch(o) {
            case 0: a[i] = v.template string<TA<0>>(); m[i] = t; break;
            case 1: if(i != j) { a[i] = rpp::move(a[j]); m[i] = m[j]; m[j].clear(); } break;
            case 2: a[i] = a[j].clone(); m[i] = m[j]; break;
            case 3: a[i] = a[j].view().template append<TA<0>>(v); m[i] = m[j] + t; break;
            case 4: a[i] = String<TA<0>>{}; m[i].clear(); break;
            case 5: { String<TA<0>> t2 = rpp::move(a[i]); m[i].clear(); break; }
            case 6: (void)a[i].template terminate<TA<0>>(); break;
            }
            U need = 0;
            for(int k = 0; k < 3; k++) {
                CHECK(a[k].length() == m[k].size() && memcmp(a[k].data() ? (const void*)a[k].data() : "", m[k].data(), m[k].size()) == 0, "string %d has wrong bytes", k);
                need += m[k].size() ? 1 : 0;
            }
            CHECK(TA<0>::live() <= 3, "%lu blocks are live for three strings", TA<0>::live());
            CHECK(TA<0>::live() >= need, "%lu blocks are live for %lu non-empty strings", TA<0>::live(), need);
        }
        pbt::nontrivial();
    }
    c.settled("after destroying all strings");
}
