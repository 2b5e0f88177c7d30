// C23: coroutine tasks run each step once, deliver their result, and free their frame.
#include "par.h"
#include <rpp/async.h>
using namespace par;
namespace A = rpp::Async;

static std::atomic<i64> owned{0};
struct Load { // move-only payload
    U v = 0;
    U* p = nullptr;
    Load() = default;
    explicit Load(U x) : v(x), p(new U(x * 3)) {
        owned++;
    }
    Load(Load&& o) noexcept : v(o.v), p(o.p) {
        o.p = nullptr;
    }
    Load& operator=(Load&& o) noexcept {
        if(this != &o) {
            drop();
            v = o.v, p = o.p, o.p = nullptr;
        }
        return *this;
    }
    ~Load() {
        drop();
    }
    void drop() {
        if(p) {
            CHECK(*p == v * 3, "a local was destroyed twice or damaged");
            *p = 0;
            delete p;
            owned--;
        }
        p = nullptr;
    }
    bool is(U x) const {
        return p && v == x && *p == x * 3;
    }
};
template<typename R>
using Task = A::Task<R, TA<0>>;

static U blocks() {
    auto& h = heap_log<0>;
    pthread_mutex_lock(&h.m);
    U n = h.live.size();
    pthread_mutex_unlock(&h.m);
    return n;
}

// --- programs ---

enum Op : u8 {
    LOG,     // a plain step
    GO,      // co_await Continue
    PARK,    // suspend until the scheduler resumes it
    CALL,    // co_await a new child
    MAKE,    // start a child and keep it
    AWAIT,   // co_await the oldest kept child
    DROP,    // let go of the newest kept child
    SHUFFLE, // move kept children around
    THEN,    // co_await child.then(another child)
};
struct Node {
    U id = 0;
    int kind = 0; // 0 U, 1 void, 2 Load
    struct Step {
        Op op;
        U child = 0, child2 = 0;
    };
    std::vector<Step> steps;
};
struct Program {
    std::vector<Node> nodes; // children have larger indices; every child is used once
    std::string text;
};
static std::string show(const Program& p, U i) {
    std::string r = std::to_string(i) + (p.nodes[i].kind == 0 ? "" : p.nodes[i].kind == 1 ? "v" : "o") + "{";
    for(auto& s : p.nodes[i].steps) {
        switch(s.op) {
        case LOG: r += "."; break;
        case GO: r += ","; break;
        case PARK: r += "P"; break;
        case CALL: r += "call " + show(p, s.child); break;
        case MAKE: r += "make " + show(p, s.child); break;
        case AWAIT: r += "await"; break;
        case DROP: r += "drop"; break;
        case SHUFFLE: r += "~"; break;
        case THEN: r += "call " + show(p, s.child) + " then " + show(p, s.child2); break;
        }
        r += " ";
    }
    return r + "}";
}
static U grow(Src& s, Program& p, U depth, U& budget) {
    U me = p.nodes.size();
    p.nodes.emplace_back();
    p.nodes[me].id = me;
    p.nodes[me].kind = (int)s.pick({3, 2, 2});
    U n = s.range(0, 5), kept = 0;
    std::vector<Node::Step> st;
    for(U i = 0; i < n; i++) {
        U c = s.pick({2, 1, 4, 3, 3, 2, 1, 1, 1});
        if((c == CALL || c == MAKE || c == THEN) && (depth == 0 || budget == 0)) c = PARK;
        if((c == AWAIT || c == DROP) && !kept) c = LOG;
        Node::Step x{(Op)c};
        switch(c) {
        case THEN:
            budget -= 1;
            x.child = grow(s, p, depth - 1, budget);
            x.child2 = grow(s, p, depth - 1, budget);
            break;
        case MAKE:
            kept++;
            [[fallthrough]];
        case CALL:
            budget -= 1;
            x.child = grow(s, p, depth - 1, budget);
            break;
        case AWAIT:
        case DROP: kept--; break;
        default: break;
        }
        st.push_back(x);
    }
    p.nodes[me].steps = st;
    return me;
}

// --- the world the coroutines run in ---

struct World {
    const Program* prog = nullptr;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    struct Parked {
        std::coroutine_handle<> h;
        U node;
    };
    std::deque<Parked> parked;
    std::vector<std::pair<U, U>> trace; // (node, step), in the order of execution; kept when single-threaded
    bool tracing = true;
    struct State {
        std::atomic<U> step{0};
        std::atomic<bool> started{false}, finished{false};
    };
    std::vector<State> st;
    std::atomic<U> unfinished{0};
    explicit World(const Program& p) : prog(&p), st(p.nodes.size()) {
    }
    void park(std::coroutine_handle<> h, U node) {
        pthread_mutex_lock(&m);
        parked.push_back({h, node});
        pthread_mutex_unlock(&m);
    }
    bool take(U pick, Parked& out) {
        pthread_mutex_lock(&m);
        bool ok = !parked.empty();
        if(ok) {
            auto it = parked.begin() + (long)(pick % parked.size());
            out = *it;
            parked.erase(it);
        }
        pthread_mutex_unlock(&m);
        return ok;
    }
    void step(U node, U k) {
        U was = st[node].step.exchange(k + 1);
        CHECK(was == k, "node %lu: step %lu runs after step %lu", node, k, was);
        if(tracing) trace.push_back({node, k});
    }
};
struct Park {
    World* w;
    U node;
    bool await_ready() noexcept {
        return false;
    }
    void await_suspend(std::coroutine_handle<> h) noexcept {
        w->park(h, node);
    }
    void await_resume() noexcept {
    }
};
struct AnyTask {
    int kind = 0;
    U node = 0;
    Task<U> u;
    Task<void> v;
    Task<Load> l;
};
static U result_of(U node) {
    return node * 7 + 11;
}
static Task<U> run_u(World* w, U me, Load param);
static Task<void> run_v(World* w, U me, Load param);
static Task<Load> run_l(World* w, U me, Load param);
static AnyTask start(World* w, U node) {
    AnyTask t;
    t.kind = w->prog->nodes[node].kind;
    t.node = node;
    if(t.kind == 0) t.u = run_u(w, node, Load{node + 100});
    if(t.kind == 1) t.v = run_v(w, node, Load{node + 100});
    if(t.kind == 2) t.l = run_l(w, node, Load{node + 100});
    return t;
}
static void came_back(World* w, U node, bool match) {
    CHECK(match, "the awaiter of node %lu did not receive the value it returned", node);
    CHECK(w->st[node].step.load() == w->prog->nodes[node].steps.size(), "the awaiter of node %lu went on after %lu of its %lu steps", node, w->st[node].step.load(), w->prog->nodes[node].steps.size());
}

struct Enter {
    World* w;
    U me;
    Enter(World* w, U me) : w(w), me(me) {
        CHECK(!w->st[me].started.exchange(true), "node %lu starts twice", me);
        w->unfinished++;
    }
    ~Enter() {
        CHECK(!w->st[me].finished.exchange(true), "the locals of node %lu are destroyed twice", me);
        w->unfinished--;
    }
};
// co_await on a kept or temporary child of any kind
#define AWAIT_CHILD(EXPR_U, EXPR_V, EXPR_L, NODE)                                                  \
    {                                                                                              \
        U child_ = (NODE);                                                                         \
        switch(w->prog->nodes[child_].kind) {                                                      \
        case 0: {                                                                                  \
            U r = co_await EXPR_U;                                                                 \
            came_back(w, child_, r == result_of(child_));                                          \
            break;                                                                                 \
        }                                                                                          \
        case 1:                                                                                    \
            co_await EXPR_V;                                                                       \
            came_back(w, child_, true);                                                            \
            break;                                                                                 \
        case 2: {                                                                                  \
            Load r = co_await EXPR_L;                                                              \
            came_back(w, child_, r.is(result_of(child_)));                                         \
            break;                                                                                 \
        }                                                                                          \
        }                                                                                          \
    }
#define BODY                                                                                       \
    Enter enter{w, me};                                                                            \
    const Node& node = w->prog->nodes[me];                                                         \
    Load mine{me + 1000};                                                                          \
    std::vector<AnyTask> kept;                                                                     \
    U step = 0;                                                                                    \
    for(const auto& st : node.steps) {                                                             \
        U before = w->st[me].step.load();                                                          \
        CHECK(before == step, "node %lu is at step %lu instead of %lu", me, before, step);         \
        switch(st.op) {                                                                            \
        case LOG: break;                                                                           \
        case GO: co_await A::Continue{}; break;                                                    \
        case PARK: co_await Park{w, me}; break;                                                    \
        case CALL:                                                                                 \
            AWAIT_CHILD(run_u(w, child_, Load{child_ + 100}), run_v(w, child_, Load{child_ + 100}), \
                        run_l(w, child_, Load{child_ + 100}), st.child)                            \
            break;                                                                                 \
        case MAKE: kept.push_back(start(w, st.child)); break;                                      \
        case AWAIT: {                                                                              \
            AnyTask t = std::move(kept.front());                                                   \
            kept.erase(kept.begin());                                                              \
            AWAIT_CHILD(t.u, t.v, t.l, t.node)                                                     \
            break;                                                                                 \
        }                                                                                          \
        case DROP: kept.pop_back(); break;                                                         \
        case SHUFFLE:                                                                              \
            if(kept.size() > 1) {                                                                  \
                AnyTask t = std::move(kept.back());                                                \
                kept.back() = std::move(kept[0]);                                                  \
                CHECK(!kept[0].u.ok() && !kept[0].v.ok() && !kept[0].l.ok(), "a moved-from task still holds a coroutine"); \
                kept[0] = std::move(t);                                                            \
            }                                                                                      \
            break;                                                                                 \
        case THEN: co_await chain(w, st.child, st.child2); break;                                  \
        }                                                                                          \
        CHECK(mine.is(me + 1000) && param.is(me + 100), "a local or parameter of node %lu is damaged", me); \
        w->step(me, step++);                                                                       \
    }
static Task<U> then_u(World* w, U a, U b, AnyTask& t) {
    auto next = [w, b]() -> Task<U> { return run_u(w, b, Load{b + 100}); };
    auto check_u = [&next, w, a](U r) -> Task<U> {
        came_back(w, a, r == result_of(a));
        return next();
    };
    auto check_l = [&next, w, a](Load r) -> Task<U> {
        came_back(w, a, r.is(result_of(a)));
        return next();
    };
    auto check_v = [&next, w, a]() -> Task<U> {
        came_back(w, a, true);
        return next();
    };
    U r = 0;
    switch(t.kind) {
    case 0: r = co_await t.u.then(check_u); break;
    case 1: r = co_await t.v.then(check_v); break;
    case 2: r = co_await t.l.then(check_l); break;
    }
    co_return r;
}
static Task<void> chain(World* w, U a, U b) {
    AnyTask t = start(w, a);
    U r = co_await then_u(w, a, b, t);
    came_back(w, b, r == result_of(b));
}
static Task<U> run_u(World* w, U me, Load param) {
    BODY;
    co_return result_of(me);
}
static Task<void> run_v(World* w, U me, Load param) {
    BODY;
}
static Task<Load> run_l(World* w, U me, Load param) {
    BODY;
    Load r{result_of(me)};
    co_return r.is(0) ? Load{} : rpp::move(r);
}

// --- the model: the same programs interpreted with explicit frames ---

struct Model {
    const Program& p;
    struct N {
        bool started = false, done = false, parked = false;
        U pc = 0;
        U waiter = ~0ull; // who awaits it
        int stage = 0;
        std::vector<U> kept;
        U current = 0;
    };
    std::vector<N> n;
    std::vector<std::pair<U, U>> trace;
    explicit Model(const Program& p) : p(p), n(p.nodes.size()) {
    }
    void begin(U i) {
        n[i].started = true;
        go(i);
    }
    // Runs i until it waits or ends.
    void go(U i) {
        N& x = n[i];
        auto& st = p.nodes[i].steps;
        while(x.pc < st.size()) {
            auto& s = st[x.pc];
            switch(s.op) {
            case LOG:
            case GO: break;
            case PARK:
                if(x.stage == 0) {
                    x.stage = 1, x.parked = true;
                    return;
                }
                break;
            case CALL:
                if(x.stage == 0) {
                    x.stage = 1;
                    begin(s.child);
                    if(!n[s.child].done) {
                        n[s.child].waiter = i;
                        return;
                    }
                }
                break;
            case MAKE:
                begin(s.child);
                x.kept.push_back(s.child);
                break;
            case AWAIT:
                if(x.stage == 0) {
                    x.stage = 1;
                    x.current = x.kept.front();
                    x.kept.erase(x.kept.begin());
                    if(!n[x.current].done) {
                        n[x.current].waiter = i;
                        return;
                    }
                }
                break;
            case DROP: x.kept.pop_back(); break;
            case SHUFFLE:
                if(x.kept.size() > 1) std::swap(x.kept[0], x.kept.back());
                break;
            case THEN:
                if(x.stage == 0) {
                    x.stage = 1;
                    begin(s.child);
                    if(!n[s.child].done) {
                        n[s.child].waiter = i;
                        return;
                    }
                }
                if(x.stage == 1) {
                    x.stage = 2;
                    begin(s.child2);
                    if(!n[s.child2].done) {
                        n[s.child2].waiter = i;
                        return;
                    }
                }
                break;
            }
            x.stage = 0;
            trace.push_back({i, x.pc});
            x.pc++;
        }
        x.done = true;
        if(x.waiter != ~0ull) {
            U w = x.waiter;
            go(w);
        }
    }
    void resume(U i) {
        n[i].parked = false;
        go(i);
    }
};

static void fresh() {
    Case::reset<0>();
    owned = 0;
}
static bool is_done(AnyTask& t) {
    return t.kind == 0 ? t.u.done() : t.kind == 1 ? t.v.done() : t.l.done();
}
static bool is_ok(AnyTask& t) {
    return t.kind == 0 ? t.u.ok() : t.kind == 1 ? t.v.ok() : t.l.ok();
}
static void take_result(World& w, AnyTask& t) { // block
    bool good = true;
    if(t.kind == 0) good = t.u.block() == result_of(t.node);
    if(t.kind == 1) t.v.block();
    if(t.kind == 2) good = t.l.block().is(result_of(t.node));
    came_back(&w, t.node, good);
}

PROP(scripts, 60000, 1500000) {
    fresh();
    Program p;
    U budget = 12, roots = s.range(1, 3);
    std::vector<U> root;
    for(U i = 0; i < roots; i++) {
        root.push_back(grow(s, p, 4, budget));
        NOTE("%s", show(p, root.back()).c_str());
    }
    U parks = 0, crosses = 0;
    for(auto& n : p.nodes)
        for(auto& st : n.steps) parks += st.op == PARK, crosses += st.op == AWAIT || st.op == CALL || st.op == THEN;
    {
        World w(p);
        Model m(p);
        auto agree = [&](const char* what, U i) {
            if(w.trace != m.trace) {
                U k = 0;
                while(k < w.trace.size() && k < m.trace.size() && w.trace[k] == m.trace[k]) k++;
                auto name = [&](auto& t) { return k < t.size() ? std::to_string(t[k].first) + "." + std::to_string(t[k].second) : std::string("nothing"); };
                pbt::fail("%s %lu: step number %lu is %s, expected %s", what, i, k, name(w.trace).c_str(), name(m.trace).c_str());
            }
            for(U k = 0; k < p.nodes.size(); k++) {
                CHECK(w.st[k].started == m.n[k].started, "%s %lu: node %lu %s", what, i, k, m.n[k].started ? "has not started" : "has started");
                if(!m.n[k].done) CHECK(!w.st[k].finished, "%s %lu: the locals of node %lu are gone before its end", what, i, k);
            }
        };
        std::vector<AnyTask> t;
        std::vector<bool> blocked(roots);
        for(U r : root) {
            t.push_back(start(&w, r));
            m.begin(r);
            NOTE("start %lu", r);
            agree("after the start of", r);
        }
        std::vector<bool> dropped(roots);
        while(true) {
            for(U i = 0; i < roots; i++) {
                if(dropped[i]) continue;
                bool d = is_done(t[i]);
                CHECK(d == m.n[root[i]].done, "task %lu reports done = %d", root[i], d);
                CHECK(is_ok(t[i]), "a held task is not ok");
            }
            U what = s.pick({10, 1, 1, 1}), i = s.draw(roots - 1);
            if(what == 1 && !dropped[i]) {
                NOTE("drop task %lu", root[i]);
                t[i] = AnyTask{};
                dropped[i] = true;
                agree("after dropping", root[i]);
            } else if(what == 2 && !dropped[i]) {
                AnyTask x = std::move(t[i]);
                CHECK(!is_ok(t[i]) || t[i].kind != x.kind, "a moved-from task still holds a coroutine");
                t[i] = std::move(x);
                agree("after moving", root[i]);
            } else if(what == 3 && !dropped[i] && !blocked[i] && m.n[root[i]].done) {
                NOTE("block on task %lu", root[i]);
                take_result(w, t[i]);
                blocked[i] = true;
            }
            World::Parked x;
            if(!w.take(s.draw(20), x)) break;
            NOTE("resume node %lu", x.node);
            CHECK(m.n[x.node].parked, "node %lu is suspended where it should not be", x.node);
            x.h.resume();
            m.resume(x.node);
            agree("after resuming", x.node);
        }
        for(U k = 0; k < p.nodes.size(); k++) {
            CHECK(m.n[k].done == w.st[k].finished, "node %lu is left unfinished", k);
            CHECK(!m.n[k].parked, "node %lu is still suspended but cannot be resumed", k);
        }
        for(U i = 0; i < roots; i++) {
            if(dropped[i]) continue;
            if(!blocked[i] && s.coin()) take_result(w, t[i]);
        }
        t.clear();
        CHECK(w.unfinished == 0, "%lu coroutines did not finish", w.unfinished.load());
    }
    CHECK(owned == 0, "%ld locals, parameters or results were never destroyed", (long)owned);
    CHECK(blocks() == 0, "%lu coroutine frames were never freed", blocks());
    if(parks >= 2 && crosses) pbt::nontrivial();
}

// Tasks resumed through their own handle.
static Task<U> own(U* at, U suspends, Load l) {
    U v = l.v;
    for(U i = 0; i < suspends; i++) {
        *at = i + 1;
        co_await A::Suspend{};
        CHECK(l.is(v), "a parameter is damaged");
    }
    *at = suspends + 1;
    co_return v + suspends;
}
static Task<U> waiter(Task<U>& a, Task<U> b, U* got) {
    *got = co_await a;
    U y = co_await b;
    co_return *got + y;
}
PROP(manual_resume, 30000, 600000) {
    fresh();
    U n = s.draw(5), k = s.draw(5), at = 0, at2 = 0, got = 0, v = s.draw(1000) + 1;
    NOTE("%lu and %lu suspensions", n, k);
    {
        Task<U> a = own(&at, n, Load{v}), b = own(&at2, k, Load{v + 1}), empty;
        CHECK(!empty.ok() && a.ok() && b.ok(), "ok() of new and empty tasks");
        bool first = s.coin();
        auto step = [&](Task<U>& t, U& at, U n, U upto) {
            for(U i = 0; i < upto; i++) {
                CHECK(!t.done() && at == i + 1, "a suspended task is done or at step %lu instead of %lu", at, i + 1);
                t.resume();
            }
            CHECK(at == upto + 1 && t.done() == (upto == n), "after %lu of %lu resumptions: at %lu, done = %d", upto, n, at, t.done());
        };
        if(first) step(b, at2, k, k);
        U pre = s.draw(n);
        step(a, at, n, pre);
        if(first) {
            Task<U> w = waiter(a, rpp::move(b), &got);
            CHECK(!b.ok(), "a moved-from task still holds a coroutine");
            for(U i = pre; i < n; i++) {
                CHECK(!w.done() && got == 0, "an awaiter went on early");
                a.resume();
            }
            CHECK(w.done() && got == v + n, "an awaiter received %lu instead of %lu", got, v + n);
            CHECK(w.block() == v + n + v + 1 + k, "a result is wrong");
            CHECK(a.done(), "an awaited task is not done");
            if(s.coin()) a = Task<U>{};
        } else {
            for(U i = pre; i < n; i++) a.resume();
            CHECK(a.done() && a.block() == v + n, "a result is wrong");
            step(b, at2, k, k);
            a = rpp::move(b);
            CHECK(a.done() && a.block() == v + 1 + k, "a moved task lost its result");
            if(s.coin()) b = own(&at, 0, Load{v + 2});
        }
    }
    CHECK(owned == 0 && blocks() == 0, "%ld values and %lu frames were never released", (long)owned, blocks());
    if(n && k) pbt::nontrivial();
}

// A chain of waiting tasks completes without a stack frame per link.
static Task<U> link(Task<U> inner, U k) {
    Task<U> mine = rpp::move(inner);
    U r = co_await mine;
    mine = Task<U>{};
    co_return r + k;
}
static Task<U> parked_value(World* w, U v) {
    co_await Park{w, 0};
    co_return v;
}
PROP(deep_chains, 80, 800) {
    fresh();
    U n = s.of<unsigned>({3, 100, 20000, 60000, 250000}), sum = 5;
    Program none;
    none.nodes.emplace_back();
    {
        World w(none);
        Task<U> t = parked_value(&w, 5);
        for(U i = 0; i < n; i++) t = link(rpp::move(t), i & 7), sum += i & 7;
        CHECK(!t.done(), "a chain finished before its first task");
        World::Parked x;
        CHECK(w.take(0, x) && !w.take(0, x), "one task waits");
        x.h.resume();
        CHECK(t.done() && t.block() == sum, "the chain delivered a wrong sum");
    }
    CHECK(blocks() == 0, "%lu frames were never freed", blocks());
    pbt::nontrivial();
}

// The same programs resumed by several threads, with their handles polled, awaited, dropped and blocked on meanwhile.
PROP_F(threads, 2500, 50000, pbt::FEW | pbt::NONDET) {
    fresh();
    U workers = s.range(2, 5), roots = s.range(1, 6), level = s.draw(2), seed = s.draw(1 << 30) + 1;
    Program p;
    std::vector<U> root;
    for(U i = 0; i < roots; i++) {
        U budget = 10;
        root.push_back(grow(s, p, 4, budget));
        NOTE("%s", show(p, root.back()).c_str());
    }
    std::vector<U> fate(roots); // 0 drop at once, 1 drop later, 2 block, 3 poll then take
    for(auto& f : fate) f = s.draw(3);
    NOTE("%lu workers", workers);
    {
        pbt::Deadline dl(20, "coroutines resumed by several threads");
        World w(p);
        w.tracing = false;
        std::atomic<U> left{roots};
        run(workers + roots, 0, [&](U me) {
            U r = seed * 59 + me;
            if(me < roots) {
                relax(r, level);
                AnyTask t = start(&w, root[me]);
                relax(r, level);
                switch(fate[me]) {
                case 0: break;
                case 1:
                    relax(r, 2);
                    relax(r, 2);
                    break;
                case 2: take_result(w, t); break;
                case 3:
                    while(!is_done(t)) relax(r, 1);
                    CHECK(w.st[t.node].finished, "a task is done before its locals are destroyed");
                    take_result(w, t);
                    break;
                }
                t = AnyTask{};
                left--;
                return;
            }
            while(true) {
                World::Parked x;
                r = pbt::mix(r);
                if(w.take(r, x)) {
                    relax(r, level);
                    x.h.resume();
                } else {
                    if(left == 0 && w.unfinished == 0) break;
                    relax(r, 1);
                    sched_yield();
                }
            }
        });
        CHECK(w.unfinished == 0, "%lu coroutines did not finish", w.unfinished.load());
        for(U k = 0; k < p.nodes.size(); k++) CHECK(w.st[k].step == p.nodes[k].steps.size() && w.st[k].finished, "node %lu ran %lu of its %lu steps", k, w.st[k].step.load(), p.nodes[k].steps.size());
        CHECK(owned == 0, "%ld locals, parameters or results were never destroyed", (long)owned);
        CHECK(blocks() == 0, "%lu coroutine frames were never freed", blocks());
    }
    U parks = 0;
    for(auto& n : p.nodes)
        for(auto& st : n.steps) parks += st.op == PARK;
    if(parks >= 2) pbt::nontrivial();
}
// One task finishing on one thread at the moment it is dropped, polled, awaited or blocked on by another.
static Task<U> racer(World* w, U* plain, U v) {
    co_await Park{w, 0};
    *plain = v;
    Load l{v};
    co_return l.v;
}
static Task<void> race_waiter(Task<U>& t, U* plain, U v, std::atomic<int>* got) {
    U r = co_await t;
    CHECK(r == v && *plain == v, "an awaiter received %lu instead of %lu, or not its effects", r, v);
    CHECK(got->fetch_add(1) == 0, "an awaiter went on twice");
}
PROP_F(races, 400, 8000, pbt::FEW | pbt::NONDET) {
    fresh();
    U rounds = s.range(5, 100), how = s.draw(3), seed = s.draw(1 << 30), level = s.draw(1);
    NOTE("%lu rounds, other side %s", rounds, how == 0 ? "drops" : how == 1 ? "blocks" : how == 2 ? "awaits" : "polls");
    pbt::Deadline dl(20, "a task finishing while its handle is used");
    Program none;
    none.nodes.emplace_back();
    World w(none);
    struct R {
        Task<U> t;
        U plain = 0;
        World::Parked x;
        std::atomic<int> got{0}, meet{0};
        Task<void> wt;
    };
    std::deque<R> rs(rounds);
    for(U i = 0; i < rounds; i++) {
        rs[i].t = racer(&w, &rs[i].plain, i + 1);
        CHECK(w.take(0, rs[i].x), "the task does not wait");
    }
    run(2, 0, [&](U me) {
        U r = seed + me;
        for(U i = 0; i < rounds; i++) {
            R& x = rs[i];
            x.meet++;
            while(x.meet < 2) {}
            relax(r, level);
            if(me == 0) x.x.h.resume();
            else {
                switch(how) {
                case 0: x.t = Task<U>{}; break;
                case 1:
                    CHECK(x.t.block() == i + 1 && x.plain == i + 1, "a wrong value or missing effects after block");
                    if(r & 1) x.t = Task<U>{};
                    break;
                case 2: x.wt = race_waiter(x.t, &x.plain, i + 1, &x.got); break;
                case 3:
                    while(!x.t.done()) {}
                    CHECK(x.plain == i + 1 && x.t.block() == i + 1, "a wrong value or missing effects when done");
                    x.t = Task<U>{};
                    break;
                }
            }
        }
    });
    if(how == 2)
        for(auto& x : rs) CHECK(x.got == 1 && x.wt.done(), "an awaiter never went on");
    for(U i = 0; i < rounds; i++) CHECK(rs[i].plain == i + 1, "a task did not run to its end");
    rs.clear();
    CHECK(owned == 0 && blocks() == 0, "%ld values and %lu frames were never released", (long)owned, blocks());
    pbt::nontrivial();
}
