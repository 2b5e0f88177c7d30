// C09: Box, Rc and Arc keep their object alive exactly as long as it has an owner.
#include "model.h"
#include <rpp/box.h>
using namespace t;

struct Obj { // an owned resource whose address never changes
    Tok t;
    U a, b;
    Obj(int v, U x) : t(v), a(x), b(~x) {
    }
    Obj(Obj&&) = default;
    Obj clone() const {
        return Obj{t.get(), a};
    }
    void check(int v, U x) const {
        CHECK(t.get() == v && a == x && b == ~x, "the pointee changed: %d/%lx/%lx, expected %d/%lx", t.val, a, b, v, x);
    }
    void set(U x) {
        a = x;
        b = ~x;
    }
};
struct Small { // as Obj, different size
    Tok t;
    U a;
    Small(int v, U x) : t(v), a(x) {
    }
    Small(Small&&) = default;
    Small clone() const {
        return Small{t.get(), a};
    }
    void check(int v, U x) const {
        CHECK(t.get() == v && a == x, "the pointee changed: %d/%lx, expected %d/%lx", t.val, a, v, x);
    }
    void set(U x) {
        a = x;
    }
};

struct alignas(16) Wide { // as Obj, more strictly aligned than a reference count
    U a;
    Tok t;
    Wide(int v, U x) : a(x), t(v) {
    }
    Wide(Wide&&) = default;
    Wide clone() const {
        return Wide{t.get(), a};
    }
    void check(int v, U x) const {
        CHECK((uintptr_t)this % 16 == 0, "a 16-byte aligned pointee is not aligned");
        CHECK(t.get() == v && a == x, "the pointee changed: %d/%lx, expected %d/%lx", t.val, a, v, x);
    }
    void set(U x) {
        a = x;
    }
};

struct Cell { // model object
    int v;
    U x;
    U owners;
    const void* at;
};

// Shared pointers: up to 8 slots, each empty or owning a cell.
template<template<typename, typename> typename PT, typename T, typename P>
static void shared(Src& s) {
    using R = PT<T, P>;
    Case c;
    {
        const U N = 8;
        std::unique_ptr<R> p[N];
        int m[N];
        std::vector<Cell> cells;
        for(U i = 0; i < N; i++) p[i] = std::make_unique<R>(), m[i] = -1;
        auto drop = [&](U i) {
            if(m[i] >= 0) cells[m[i]].owners--;
            m[i] = -1;
        };
        int64_t peak_shared = 0, deaths = 0;
        auto fresh = [&](U i) {
            int v = (int)s.draw(1000);
            U x = s.draw(1 << 16);
            drop(i);
            cells.push_back({v, x, 1, nullptr});
            m[i] = (int)cells.size() - 1;
            return std::pair<int, U>(v, x);
        };
        U left = s.limit(20, 60, 300);
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            switch(s.pick({4, 3, 4, 8, 4, 3, 3, 2, 3, 1})) {
            case 0: { // constructor, then move-assign
                NOTE("p%lu = move(R{...})", i);
                auto [v, x] = fresh(i);
                *p[i] = R{(int)v, (U)x};
                break;
            }
            case 1: {
                NOTE("p%lu = R::make(...)", i);
                auto [v, x] = fresh(i);
                *p[i] = R::make((int)v, (U)x);
                break;
            }
            case 2: {
                NOTE("renew p%lu as R{...}", i);
                auto [v, x] = fresh(i);
                p[i] = std::make_unique<R>((int)v, (U)x);
                break;
            }
            case 3: {
                NOTE("p%lu = p%lu.dup()", i, j);
                int mj = m[j];
                if(mj >= 0) cells[mj].owners++;
                drop(i);
                m[i] = mj;
                *p[i] = p[j]->dup();
                break;
            }
            case 4:
                if(i != j) {
                    NOTE("p%lu = move(p%lu)", i, j);
                    drop(i);
                    m[i] = m[j];
                    m[j] = -1;
                    *p[i] = rpp::move(*p[j]);
                }
                break;
            case 5:
                if(i != j) {
                    NOTE("renew p%lu from move(p%lu)", i, j);
                    drop(i);
                    p[i].reset();
                    m[i] = m[j];
                    m[j] = -1;
                    p[i] = std::make_unique<R>(rpp::move(*p[j]));
                }
                break;
            case 6:
                NOTE("p%lu.clear()", i);
                drop(i);
                p[i]->clear();
                break;
            case 7:
                NOTE("renew p%lu empty", i);
                drop(i);
                p[i] = std::make_unique<R>();
                break;
            case 8:
                if(m[i] >= 0) { // from a plain pointer to the object
                    NOTE("p%lu = from_this(&*p%lu)", j, i);
                    int mi = m[i];
                    cells[mi].owners++;
                    drop(j);
                    m[j] = mi;
                    *p[j] = R::from_this(&**p[i]);
                }
                break;
            case 9:
                if(m[i] >= 0) {
                    U x = s.draw(1 << 16);
                    NOTE("write through p%lu", i);
                    cells[m[i]].x = x;
                    (*p[i])->set(x);
                }
                break;
            }
            int64_t live = 0;
            for(auto& o : cells) live += o.owners > 0;
            CHECK(L.live == live, "%ld objects are alive, %ld have an owner", (long)L.live, (long)live);
            if constexpr(std::is_same_v<P, TA<0>>) CHECK(TA<0>::live() == (u64)live, "%lu blocks are allocated for %ld owned objects", TA<0>::live(), (long)live);
            deaths += live < (int64_t)cells.size();
            for(U k = 0; k < N; k++) {
                const R& q = *p[k];
                CHECK(q.ok() == (m[k] >= 0), "p%lu.ok() is %d", k, q.ok());
                if(m[k] < 0) {
                    CHECK(q.references() == 0, "an empty pointer reports %lu references", q.references());
                    continue;
                }
                auto& o = cells[m[k]];
                CHECK(q.references() == o.owners, "p%lu reports %lu references, it has %lu owners", k, q.references(), o.owners);
                q->check(o.v, o.x);
                (*q).check(o.v, o.x);
                if(!o.at) o.at = &*q;
                CHECK(o.at == &*q && o.at == q.operator->(), "the object of p%lu moved", k);
                CHECK((uintptr_t)&*q % alignof(T) == 0, "misaligned pointee");
                if((int64_t)o.owners > peak_shared) peak_shared = (int64_t)o.owners;
            }
        }
        if(peak_shared >= 3 && deaths) pbt::nontrivial();
        // last owners go in random order
        std::vector<U> order;
        for(U i = 0; i < N; i++) order.push_back(i);
        for(U i = 0; i < N; i++) std::swap(order[i], order[i + s.draw(N - 1 - i)]);
        for(U i : order) {
            p[i].reset();
            drop(i);
            int64_t live = 0;
            for(auto& o : cells) live += o.owners > 0;
            CHECK(L.live == live, "%ld objects are alive, %ld have an owner", (long)L.live, (long)live);
        }
    }
    c.settled("after every owner is gone");
}
PROP(rc_histories, 20000, 800000) {
    switch(s.draw(5)) {
    case 0: return shared<Rc, Obj, TA<0>>(s);
    case 1: return shared<Rc, Small, TA<0>>(s);
    case 2: return shared<Rc, Obj, Mpool>(s);
    case 3: return shared<Rc, Small, Mdefault>(s);
    case 4: return shared<Rc, Wide, TA<0>>(s);
    case 5: return shared<Rc, Wide, Mpool>(s);
    }
}
PROP(arc_histories, 20000, 800000) {
    switch(s.draw(5)) {
    case 0: return shared<Arc, Obj, TA<0>>(s);
    case 1: return shared<Arc, Small, TA<0>>(s);
    case 2: return shared<Arc, Obj, Mpool>(s);
    case 3: return shared<Arc, Small, Mdefault>(s);
    case 4: return shared<Arc, Wide, TA<0>>(s);
    case 5: return shared<Arc, Wide, Mpool>(s);
    }
}

// Boxes: unique owners.
template<typename T, typename P>
static void boxes(Src& s) {
    using R = Box<T, P>;
    Case c;
    {
        const U N = 6;
        std::unique_ptr<R> p[N];
        std::unique_ptr<Cell> m[N];
        for(U i = 0; i < N; i++) p[i] = std::make_unique<R>();
        U made = 0, moved = 0;
        U left = s.limit(20, 60, 300);
        while(s.step(left)) {
            U i = s.draw(N - 1), j = s.draw(N - 1);
            auto fresh = [&]() {
                int v = (int)s.draw(1000);
                U x = s.draw(1 << 16);
                m[i] = std::make_unique<Cell>(Cell{v, x, 1, nullptr});
                made++;
                return std::pair<int, U>(v, x);
            };
            switch(s.pick({4, 3, 3, 3, 5, 4, 3, 2, 2})) {
            case 0: {
                NOTE("p%lu = Box{args}", i);
                auto [v, x] = fresh();
                *p[i] = R{(int)v, (U)x};
                break;
            }
            case 1: {
                NOTE("p%lu = Box::make(args)", i);
                auto [v, x] = fresh();
                *p[i] = R::make((int)v, (U)x);
                break;
            }
            case 2: {
                NOTE("renew p%lu as Box{T&&}", i);
                auto [v, x] = fresh();
                T tmp{(int)v, (U)x};
                p[i] = std::make_unique<R>(rpp::move(tmp));
                break;
            }
            case 3: {
                NOTE("p%lu.emplace", i);
                auto [v, x] = fresh();
                p[i]->emplace((int)v, (U)x);
                break;
            }
            case 4:
                if(i != j) {
                    NOTE("p%lu = move(p%lu)", i, j);
                    m[i] = std::move(m[j]);
                    *p[i] = rpp::move(*p[j]);
                    moved++;
                }
                break;
            case 5:
                if(i != j) {
                    NOTE("renew p%lu from move(p%lu)", i, j);
                    m[i] = std::move(m[j]);
                    p[i] = std::make_unique<R>(rpp::move(*p[j]));
                    moved++;
                }
                break;
            case 6: {
                NOTE("p%lu = p%lu.clone()", i, j);
                auto cl = p[j]->clone();
                if(m[j]) {
                    m[i] = std::make_unique<Cell>(*m[j]);
                    m[i]->at = nullptr;
                } else {
                    m[i].reset();
                }
                *p[i] = rpp::move(cl);
                break;
            }
            case 7:
                NOTE("renew p%lu empty", i);
                m[i].reset();
                p[i] = std::make_unique<R>();
                break;
            case 8:
                if(m[i]) {
                    m[i]->x = s.draw(1 << 16);
                    NOTE("write through p%lu", i);
                    (**p[i]).set(m[i]->x);
                }
                break;
            }
            int64_t live = 0;
            for(auto& o : m) live += !!o;
            CHECK(L.live == live, "%ld objects are alive, %ld boxes are full", (long)L.live, (long)live);
            if constexpr(std::is_same_v<P, TA<0>>) CHECK(TA<0>::live() == (u64)live, "%lu blocks for %ld full boxes", TA<0>::live(), (long)live);
            for(U k = 0; k < N; k++) {
                const R& q = *p[k];
                CHECK(q.ok() == !!m[k], "p%lu.ok() is %d", k, q.ok());
                if(!m[k]) continue;
                q->check(m[k]->v, m[k]->x);
                (*q).check(m[k]->v, m[k]->x);
                if(!m[k]->at) m[k]->at = &*q;
                CHECK(m[k]->at == &*q, "the object of p%lu moved", k);
            }
        }
        if(made > 5 && moved > 2) pbt::nontrivial();
    }
    c.settled("after every box is gone");
}
PROP(box_histories, 20000, 800000) {
    switch(s.draw(3)) {
    case 0: return boxes<Obj, TA<0>>(s);
    case 1: return boxes<Small, TA<0>>(s);
    case 2: return boxes<Obj, Mpool>(s);
    case 3: return boxes<Small, Mdefault>(s);
    }
}

// ---- owners inside owned objects: lists and trees ---------------------------------------------------
template<typename Ptr>
struct Node {
    Tok t;
    Ptr next, other;
    explicit Node(int v) : t(v) {
    }
};
template<typename P>
struct BNode : Node<Box<BNode<P>, P>> {
    using Node<Box<BNode<P>, P>>::Node;
    using Ptr = Box<BNode<P>, P>;
};
template<typename P>
struct RNode : Node<Rc<RNode<P>, P>> {
    using Node<Rc<RNode<P>, P>>::Node;
    using Ptr = Rc<RNode<P>, P>;
};
template<typename P>
struct ANode : Node<Arc<ANode<P>, P>> {
    using Node<Arc<ANode<P>, P>>::Node;
    using Ptr = Arc<ANode<P>, P>;
};
// a singly linked list edited in place
template<typename N>
static void list(Src& s) {
    using Ptr = typename N::Ptr;
    Case c;
    {
        Ptr head;
        std::deque<int> m;
        auto slot = [&](U k) {
            Ptr* q = &head;
            while(k--) q = &(*q)->next;
            return q;
        };
        U left = s.limit(20, 60, 150), unlinked = 0;
        while(s.step(left)) {
            switch(s.pick({6, 4, 4, 1, 2, 2})) {
            case 0: { // insert
                U k = s.draw(m.size());
                int v = (int)s.draw(1000);
                NOTE("insert %d at %lu", v, k);
                Ptr n = Ptr::make(v);
                Ptr* at = slot(k);
                n->next = rpp::move(*at);
                *at = rpp::move(n);
                m.insert(m.begin() + (long)k, v);
                break;
            }
            case 1: // unlink: the source lives in the object being released
                if(m.size()) {
                    U k = s.draw(m.size() - 1);
                    NOTE("unlink %lu", k);
                    Ptr* at = slot(k);
                    *at = rpp::move((*at)->next);
                    m.erase(m.begin() + (long)k);
                    unlinked++;
                }
                break;
            case 2: // drop several from the front
                if(m.size() >= 2) {
                    U k = s.range(1, m.size() - 1);
                    NOTE("head = move(node %lu)", k);
                    head = rpp::move(*slot(k));
                    m.erase(m.begin(), m.begin() + (long)k);
                    unlinked++;
                }
                break;
            case 3:
                if(m.size()) {
                    U k = s.draw(m.size() - 1);
                    NOTE("cut at %lu", k);
                    *slot(k) = Ptr{};
                    m.resize(k);
                }
                break;
            case 4: // reverse in place
                if(m.size()) {
                    NOTE("reverse");
                    Ptr prev;
                    while(head.ok()) {
                        Ptr n = rpp::move(head);
                        head = rpp::move(n->next);
                        n->next = rpp::move(prev);
                        prev = rpp::move(n);
                    }
                    head = rpp::move(prev);
                    std::reverse(m.begin(), m.end());
                }
                break;
            case 5: // hang a child aside, then take the main list from it
                if(m.size()) {
                    NOTE("through the side pointer");
                    head->other = rpp::move(head->next);
                    head = rpp::move(head->other);
                    m.pop_front();
                    unlinked++;
                }
                break;
            }
            CHECK(L.live == (int64_t)m.size(), "%ld nodes are alive, the list has %lu", (long)L.live, m.size());
            Ptr* q = &head;
            for(U k = 0; k < m.size(); k++) {
                CHECK(q->ok(), "the list ends after %lu of %lu nodes", k, m.size());
                CHECK((*q)->t.get() == m[k], "node %lu holds %d, expected %d", k, (*q)->t.get(), m[k]);
                q = &(*q)->next;
            }
            CHECK(!q->ok(), "the list is longer than %lu nodes", m.size());
        }
        if(unlinked >= 3) pbt::nontrivial();
    }
    c.settled("after the list is gone");
}
PROP(linked_lists, 20000, 800000) {
    switch(s.draw(4)) {
    case 0: return list<BNode<TA<0>>>(s);
    case 1: return list<RNode<TA<0>>>(s);
    case 2: return list<ANode<TA<0>>>(s);
    case 3: return list<BNode<Mpool>>(s);
    case 4: return list<RNode<Mpool>>(s);
    }
}
// Objects that drop the last owner of themselves, or whose destruction cascades over shared children.
template<typename N>
static void shared_graph(Src& s) {
    using Ptr = typename N::Ptr;
    Case c;
    {
        std::vector<Ptr> roots;
        std::vector<std::pair<int, int>> edge; // model: next, other
        std::vector<int> root_m;
        std::vector<int> val;
        U left = s.limit(15, 40, 100);
        auto reach = [&]() {
            std::set<int> r;
            std::function<void(int)> go = [&](int i) {
                if(i < 0 || !r.insert(i).second) return;
                go(edge[i].first);
                go(edge[i].second);
            };
            for(int i : root_m) go(i);
            return r;
        };
        bool cascade = false;
        while(s.step(left)) {
            switch(s.pick({6, 3, 2, 2})) {
            case 0: { // a node with up to two shared children: acyclic by construction
                int v = (int)val.size();
                Ptr n = Ptr::make(v);
                std::pair<int, int> e{-1, -1};
                if(roots.size() && s.coin()) {
                    U k = s.draw(roots.size() - 1);
                    n->next = roots[k].dup();
                    e.first = root_m[k];
                }
                if(roots.size() && s.coin()) {
                    U k = s.draw(roots.size() - 1);
                    n->other = roots[k].dup();
                    e.second = root_m[k];
                }
                NOTE("node %d -> %d, %d", v, e.first, e.second);
                val.push_back(v);
                edge.push_back(e);
                roots.push_back(rpp::move(n));
                root_m.push_back(v);
                break;
            }
            case 1:
                if(roots.size()) {
                    U k = s.draw(roots.size() - 1);
                    NOTE("drop the handle of node %d", root_m[k]);
                    U before = reach().size();
                    roots[k] = Ptr{};
                    roots.erase(roots.begin() + (long)k);
                    root_m.erase(root_m.begin() + (long)k);
                    if(reach().size() + 3 <= before) cascade = true;
                }
                break;
            case 2: // a root becomes its own child: the assigned pointer's source is inside the released object
                if(roots.size()) {
                    U k = s.draw(roots.size() - 1);
                    if(edge[root_m[k]].first >= 0) {
                        NOTE("handle of node %d = dup of its next", root_m[k]);
                        roots[k] = roots[k]->next.dup();
                        root_m[k] = edge[root_m[k]].first;
                    }
                }
                break;
            case 3:
                if(roots.size()) {
                    U k = s.draw(roots.size() - 1);
                    NOTE("node %d loses its children", root_m[k]);
                    roots[k]->next.clear();
                    roots[k]->other.clear();
                    edge[root_m[k]] = {-1, -1};
                }
                break;
            }
            auto r = reach();
            CHECK(L.live == (int64_t)r.size(), "%ld nodes are alive, %lu are reachable", (long)L.live, r.size());
            std::map<int, U> owners;
            for(int i : root_m) owners[i]++;
            for(int i : r) {
                if(edge[i].first >= 0) owners[edge[i].first]++;
                if(edge[i].second >= 0) owners[edge[i].second]++;
            }
            for(U k = 0; k < roots.size(); k++) {
                CHECK(roots[k]->t.get() == root_m[k], "handle %lu points at node %d, expected %d", k, roots[k]->t.get(), root_m[k]);
                CHECK(roots[k].references() == owners[root_m[k]], "node %d reports %lu references, it has %lu owners", root_m[k], roots[k].references(),
                      owners[root_m[k]]);
            }
        }
        if(cascade) pbt::nontrivial();
        if(s.coin()) { // an object holding the last pointer to itself releases itself
            NOTE("self-owner");
            Ptr n = Ptr::make(7);
            N* raw = &*n;
            raw->next = Ptr::from_this(raw);
            n.clear();
            int64_t live = L.live;
            raw->next.clear();
            CHECK(L.live == live - 1, "clearing an object's last owner, held by itself, did not release it");
        }
    }
    c.settled("after the graph is gone");
}
PROP(shared_graphs, 15000, 600000) {
    switch(s.draw(2)) {
    case 0: return shared_graph<RNode<TA<0>>>(s);
    case 1: return shared_graph<ANode<TA<0>>>(s);
    case 2: return shared_graph<RNode<Mpool>>(s);
    }
}

// ---- polymorphic boxes ------------------------------------------------------------------------------
struct Base {
    Tok t;
    explicit Base(int v) : t(v) {
    }
    virtual ~Base() = default;
    virtual int kind() const {
        return 0;
    }
};
struct DerA : Base {
    Tok u;
    U pad[3] = {1, 2, 3};
    explicit DerA(int v) : Base(v), u(v + 1) {
    }
    int kind() const override {
        CHECK(u.get() == t.get() + 1 && pad[2] == 3, "derived object damaged");
        return 1;
    }
};
struct DerB : DerA {
    Tok w;
    explicit DerB(int v) : DerA(v), w(v + 2) {
    }
    int kind() const override {
        CHECK(DerA::kind() == 1 && w.get() == t.get() + 2, "derived object damaged");
        return 2;
    }
};
PROP(derived_boxes, 6000, 200000) {
    Case c;
    {
        std::vector<std::pair<Box<Base, TA<0>>, std::pair<int, int>>> b;
        U n = s.limit(10, 20, 40);
        while(s.step(n)) {
            int v = (int)s.draw(1000);
            switch(s.pick({2, 2, 2, 1, 2})) {
            case 0: b.emplace_back(Box<Base, TA<0>>{v}, std::pair{0, v}); break;
            case 1: b.emplace_back(Box<Base, TA<0>>{Box<DerA, TA<0>>{v}}, std::pair{1, v}); break;
            case 2: b.emplace_back(Box<Base, TA<0>>{Box<DerB, TA<0>>{v}}, std::pair{2, v}); break;
            case 3: b.emplace_back(Box<Base, TA<0>>{Box<DerA, TA<0>>{Box<DerB, TA<0>>{v}}}, std::pair{2, v}); break;
            case 4:
                if(b.size()) {
                    U k = s.draw(b.size() - 1);
                    Box<DerB, TA<0>> d{v};
                    b[k].first = Box<Base, TA<0>>{rpp::move(d)};
                    b[k].second = {2, v};
                    CHECK(!d.ok(), "a box converted to its base still reports an object");
                }
                break;
            }
            int64_t live = 0;
            for(auto& [p, e] : b) {
                CHECK(p->kind() == e.first && p->t.get() == e.second, "box of derived object: kind %d value %d, expected %d %d", p->kind(), p->t.get(), e.first,
                      e.second);
                live += e.first + 1;
            }
            CHECK(L.live == live && TA<0>::live() == b.size(), "%ld resources and %lu blocks live, expected %ld and %lu", (long)L.live, TA<0>::live(), (long)live,
                  b.size());
        }
        if(b.size() > 4) pbt::nontrivial();
    }
    c.settled("after the boxes are gone");
}

// ---- Arc across threads -------------------------------------------------------------------------------
static std::atomic<U> destroyed[64];
struct Payload {
    U idx;
    U* heap; // plain data written by the owners before they let go
    explicit Payload(U i) : idx(i), heap(new U[16]) {
        for(U k = 0; k < 16; k++) heap[k] = 0;
    }
    Payload(const Payload&) = delete;
    ~Payload() {
        U sum = 0;
        for(U k = 0; k < 16; k++) sum += heap[k]; // reads what other threads wrote: must be ordered after them
        destroyed[idx].fetch_add(1, std::memory_order_relaxed);
        delete[] heap;
        if(sum == ~0ull) abort();
    }
};
using PA = Arc<Payload>;
struct Crew {
    U seed, tid, objs, rounds;
    std::vector<PA>* mine;
    pthread_barrier_t* bar;
};
static void* crew(void* p) {
    auto& w = *(Crew*)p;
    U r = w.seed;
    auto rnd = [&](U n) { return (r = pbt::mix(r)) % n; };
    auto& v = *w.mine;
    pthread_barrier_wait(w.bar);
    for(U i = 0; i < w.rounds && v.size(); i++) {
        U k = rnd(v.size());
        CHECK(destroyed[v[k]->idx].load(std::memory_order_relaxed) == 0, "an object with an owner was destroyed");
        CHECK(v[k].references() >= 1, "an owned object reports 0 references");
        switch(rnd(4)) {
        case 0: v.push_back(v[k].dup()); break;
        case 1: v[k] = v[rnd(v.size())].dup(); break;
        case 2: v.push_back(PA::from_this(&*v[k])); break;
        case 3:
            v[k]->heap[w.tid] += 1; // own element only
            v[k] = rpp::move(v.back());
            v.pop_back();
            break;
        }
        if(v.size() > 40) v.resize(20);
    }
    // let go of everything at about the same time as the others
    for(auto& a : v) a->heap[w.tid] += 1;
    pthread_barrier_wait(w.bar);
    v.clear();
    return nullptr;
}
PROP_F(arc_threads, 1500, 40000, pbt::FEW) {
    U n = s.range(2, 8), objs = s.range(1, 12), seed = s.draw(1 << 20), rounds = s.of<unsigned>({0, 5, 50});
    NOTE("%lu threads, %lu objects, %lu rounds", n, objs, rounds);
    for(auto& d : destroyed) d = 0;
    std::vector<std::vector<PA>> mine(n);
    {
        std::vector<PA> master;
        for(U i = 0; i < objs; i++) master.push_back(PA::make(i));
        for(auto& m : mine)
            for(auto& a : master) m.push_back(a.dup());
        for(U i = 0; i < objs; i++) CHECK(master[i].references() == n + 1, "%lu references for %lu owners", master[i].references(), n + 1);
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, (unsigned)n);
    std::vector<Crew> w(n);
    std::vector<pthread_t> th(n);
    for(U i = 0; i < n; i++) {
        w[i] = Crew{seed * 64 + i, i, objs, rounds, &mine[i], &bar};
        pthread_create(&th[i], nullptr, crew, &w[i]);
    }
    for(auto t : th) pthread_join(t, nullptr);
    for(U i = 0; i < objs; i++) CHECK(destroyed[i].load() == 1, "object %lu was destroyed %lu times", i, destroyed[i].load());
    pthread_barrier_destroy(&bar);
    pbt::nontrivial();
}

// Very many owners of one object, released in any order.
template<template<typename, typename> typename PT, typename P>
static void crowd(Src& s) {
    using R = PT<Small, P>;
    Case c;
    {
        U n = big_size(s, 16), x = s.draw(1 << 20), from_this = s.draw(4);
        auto first = std::make_unique<R>(R::make(7, x));
        const Small* at = &**first;
        std::deque<R> v;
        for(U i = 0; i < n; i++) {
            if(from_this && i % (from_this + 1) == 0) v.push_back(R::from_this(const_cast<Small*>(at)));
            else if(v.empty()) v.push_back(first->dup());
            else v.push_back(v[pbt::mix(x + i) % v.size()].dup());
        }
        CHECK((U)first->references() == n + 1, "%lu references for %lu owners", (U)first->references(), n + 1);
        bool keep = s.coin();
        if(!keep) first->clear();
        U rounds = s.range(1, 4);
        for(U r = 0; r < rounds && v.size() > 1; r++) { // release some, share again
            U drop = s.range(1, v.size() - 1);
            for(U i = 0; i < drop; i++) {
                if(pbt::mix(x + i + r) & 1) v.pop_front();
                else v.pop_back();
            }
            CHECK(L.live == 1, "the object of %lu owners was destroyed", (U)v.size() + keep);
            CHECK((U)v.front().references() == v.size() + keep, "%lu references for %lu owners", (U)v.front().references(), (U)v.size() + keep);
            v.front()->check(7, x);
            U more = s.coin() ? s.draw(300) : 0;
            for(U i = 0; i < more; i++) v.push_back(v.front().dup());
        }
        while(v.size() > 1) v.pop_front();
        v.front()->check(7, x);
        CHECK(&*v.front() == at, "the object moved");
        v.clear();
        CHECK(L.live == (keep ? 1 : 0), "%ld objects are alive", (long)L.live);
        if(keep) CHECK((U)first->references() == 1, "%lu references for the last owner", (U)first->references());
        if(n > 65535) pbt::label("over 65535 owners");
        if(n > 255) pbt::nontrivial();
    }
    c.settled("after the crowd is gone");
}
PROP(many_owners, 300, 6000) {
    switch(s.draw(3)) {
    case 0: return crowd<Rc, TA<0>>(s);
    case 1: return crowd<Arc, TA<0>>(s);
    case 2: return crowd<Rc, Mpool>(s);
    case 3: return crowd<Arc, Mdefault>(s);
    }
}

PROP(empty_pointers, 600, 6000) {
    Case c;
    U how = s.draw(2), what = s.draw(2), via = s.draw(3);
    auto run = [&](auto p) {
        using R = decltype(p);
        if(how >= 1) p = R{5, 6};
        R q;
        if(how == 1) q = rpp::move(p);
        if(how == 2) q = rpp::move(p), p = R{};
        const R& cp = p;
        CHECK(!p.ok(), "an emptied pointer reports an object");
        EXPECT_DIES("dereferencing an empty pointer", {
            volatile U x = via == 0 ? (*p).a : via == 1 ? (*cp).a : via == 2 ? p->a : cp->a;
            (void)x;
        });
        if(q.ok()) q->check(5, 6);
    };
    switch(what) {
    case 0: run(Box<Obj, TA<0>>{}); break;
    case 1: run(Rc<Obj, TA<0>>{}); break;
    case 2: run(Arc<Obj, TA<0>>{}); break;
    }
    pbt::nontrivial();
}
