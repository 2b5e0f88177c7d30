// C22: spawned threads run once and deliver their result to every waiter.
#include "par.h"
using namespace par;
namespace T = rpp::Thread;
using TH = T::Thread<TA<0>>;

static std::atomic<i64> owned{0}; // live payloads
struct Load { // move-only, valid state checked, thread-safe count
    U v = 0;
    U* p = nullptr;
    Load() = default;
    explicit Load(U x) : v(x), p(new U(x * 3)) {
        owned++;
    }
    Load(Load&& o) noexcept : v(o.v), p(o.p) {
        o.p = nullptr;
    }
    Load& operator=(Load&& o) noexcept {
        if(this != &o) {
            drop();
            v = o.v, p = o.p, o.p = nullptr;
        }
        return *this;
    }
    Load(const Load&) = delete;
    ~Load() {
        drop();
    }
    void drop() {
        if(p) {
            CHECK(*p == v * 3, "a payload was released twice or damaged");
            *p = 0;
            delete p;
            owned--;
        }
        p = nullptr;
    }
    bool is(U x) const {
        return p && v == x && *p == x * 3;
    }
};
struct Dup { // copyable
    U v = 0;
    U* p = nullptr;
    explicit Dup(U x) : v(x), p(new U(x * 5)) {
        owned++;
    }
    Dup(const Dup& o) : v(o.v), p(new U(*o.p)) {
        owned++;
    }
    Dup(Dup&& o) noexcept : v(o.v), p(o.p) {
        o.p = nullptr;
    }
    Dup& operator=(const Dup&) = delete;
    ~Dup() {
        if(p) owned--;
        delete p;
    }
    bool is(U x) const {
        return p && v == x && *p == x * 5;
    }
};
struct Job {
    std::atomic<bool> open{false}, started{false}, finished{false};
    std::atomic<int> runs{0};
    std::atomic<U> thread{0};
    U plain = 0; // written by the thread, read after it has finished
    U level = 0, seed = 0;
    void body() {
        CHECK(runs.fetch_add(1) == 0, "a callable ran twice");
        thread = (U)pthread_self();
        CHECK(T::this_id() == (T::Id)pthread_self(), "this_id is not the id of the running thread");
        started = true;
        while(!open) usleep(20);
        U r = seed;
        for(U i = 0; i < 3; i++) relax(r, level);
        plain = seed + 1;
        finished.store(true, std::memory_order_relaxed);
    }
};
static U blocks() {
    auto& h = heap_log<0>;
    pthread_mutex_lock(&h.m);
    U n = h.live.size();
    pthread_mutex_unlock(&h.m);
    return n;
}
// Everything a detached thread owned goes away soon after it finishes.
static void settle() {
    pbt::Deadline dl(20, "memory or payloads of finished threads are never released");
    while(owned || blocks()) usleep(50);
    CHECK(owned == 0, "%ld payloads released too often", (long)-owned);
}
static void warm_up() {
    static bool once = false;
    if(once) return;
    once = true;
    auto f = T::spawn([](U x) { return x; }, U{1});
    f->block();
    TH t{[]() {}};
    t.join();
    void* p[400]; // grow the books of the tracking allocators
    for(auto& x : p) x = TA<0>::alloc(1);
    for(auto& x : p) TA<0>::free(x);
    for(auto& x : p) x = TA<1>::alloc(1);
    for(auto& x : p) TA<1>::free(x);
    usleep(20000);
}
static void reset() {
    warm_up();
    Case::reset<0>();
    owned = 0;
}

template<U N>
struct Pad {
    unsigned char b[N];
};
template<typename F>
static void shapes(U shape, U id, Job* j, F f) { // callables of several sizes and contents
    switch(shape) {
    case 0: f([j]() { j->body(); }); break;
    case 1:
        f([j, id, l = Load{id}]() {
            CHECK(l.is(id), "a captured payload is damaged before the run");
            j->body();
            CHECK(l.is(id), "a captured payload was released during the run");
        });
        break;
    case 2: {
        Pad<300> p;
        memset(p.b, (int)id, sizeof p.b);
        f([j, id, p, l = Load{id}]() mutable {
            j->body();
            for(auto c : p.b) CHECK(c == (unsigned char)id, "a captured byte changed");
            CHECK(l.is(id), "a captured payload is damaged");
            l = Load{id + 1};
        });
        break;
    }
    case 3: {
        struct M {
            Job* j;
            Load l;
            void operator()() {
                Load mine = rpp::move(l);
                j->body();
            }
        };
        f(M{j, Load{id}});
        break;
    }
    }
}

PROP_F(handles, 1200, 24000, pbt::FEW | pbt::NONDET) {
    reset();
    constexpr U S = 4;
    {
        pbt::Deadline dl(20, "a history of thread handles");
        std::deque<Job> jobs;
        std::vector<TH> h(S);
        int has[S] = {-1, -1, -1, -1};
        U n = s.limit(12, 20, 40), seed = s.draw(1 << 30), joins = 0, moves = 0, dets = 0;
        auto over = [&](U j, const char* what) {
            Job& x = jobs[j];
            CHECK(x.finished.load(std::memory_order_relaxed), "%s returned before thread %lu finished", what, j);
            CHECK(x.plain == x.seed + 1, "the effects of thread %lu are not visible after %s", j, what);
        };
        auto open = [&](U j) {
            if(s.coin() && !jobs[j].open) { // give the thread time to be found unfinished
                for(U k = 0; k < 50 && !jobs[j].started; k++) usleep(20);
            }
            jobs[j].open = true;
        };
        while(s.step(n)) {
            U a = s.draw(S - 1), b = s.draw(S - 1), c = s.pick({5, 3, 2, 2, 3, 2, 2});
            auto find = [&](U from, bool busy) {
                for(U k = 0; k < S; k++)
                    if((has[(from + k) % S] >= 0) == busy) return (from + k) % S;
                return from;
            };
            a = find(a, c != 0);
            if(c == 3) a = s.draw(S - 1), b = find(b, true);
            switch(c) {
            case 0: {
                if(has[a] >= 0) break;
                U j = jobs.size();
                jobs.emplace_back();
                jobs[j].level = s.draw(2);
                jobs[j].seed = seed + j;
                jobs[j].open = s.coin();
                U shape = s.draw(3);
                NOTE("slot %lu starts thread %lu (shape %lu, %s)", a, j, shape, jobs[j].open ? "free to run" : "held back");
                shapes(shape, j + 5, &jobs[j], [&](auto f) { h[a] = TH{std::move(f)}; });
                has[a] = (int)j;
                break;
            }
            case 1:
                if(has[a] < 0) break;
                NOTE("slot %lu joins thread %d", a, has[a]);
                open((U)has[a]);
                h[a].join();
                over((U)has[a], "join");
                has[a] = -1, joins++;
                break;
            case 2:
                if(has[a] < 0) break;
                NOTE("slot %lu detaches thread %d", a, has[a]);
                h[a].detach();
                has[a] = -1, dets++;
                break;
            case 3:
                if(a == b || has[b] < 0) break;
                NOTE("slot %lu (%d) becomes slot %lu (%d)", a, has[a], b, has[b]);
                if(has[a] >= 0) open((U)has[a]);
                if(has[a] < 0 && s.coin()) {
                    TH t{rpp::move(h[b])};
                    h[a] = rpp::move(t);
                } else
                    h[a] = rpp::move(h[b]);
                if(has[a] >= 0) over((U)has[a], "replacing the handle");
                has[a] = has[b], has[b] = -1, moves++;
                break;
            case 4:
                if(has[a] < 0) break;
                NOTE("the handle of slot %lu (%d) is destroyed", a, has[a]);
                open((U)has[a]);
                {
                    TH t{rpp::move(h[a])};
                }
                over((U)has[a], "destroying the handle");
                has[a] = -1, joins++;
                break;
            case 5: {
                if(has[a] < 0) break;
                U id = h[a].id();
                Job& x = jobs[(U)has[a]];
                while(!x.started) usleep(10);
                CHECK(id == x.thread && id != T::this_id(), "the handle's id %lu is not its thread's %lu", id, x.thread.load());
                break;
            }
            case 6:
                if(jobs.empty()) break;
                b = s.draw(jobs.size() - 1);
                jobs[b].open = true;
                break;
            }
        }
        for(auto& j : jobs) j.open = true;
        NOTE("the end of all handles");
        h.clear();
        for(U a = 0; a < S; a++)
            if(has[a] >= 0) over((U)has[a], "destroying the handle");
        for(auto& j : jobs) {
            while(!j.finished) usleep(20);
            CHECK(j.runs == 1, "a callable ran %d times", j.runs.load());
        }
        if(joins && moves && dets) pbt::nontrivial();
        std::set<U> ids;
        usleep(10);
        // detached threads still use their job until the callable returns
        pbt::Deadline dl2(20, "finished threads keep what they own");
        while(owned || blocks()) usleep(20);
    }
    settle();
}

PROP_F(futures, 1500, 30000, pbt::FEW | pbt::NONDET) {
    reset();
    struct Fut {
        Job job;
        int kind;
        U want;
        bool taken = false;
        std::vector<T::Future<U, TA<0>>> u;
        std::vector<T::Future<void, TA<0>>> v;
        std::vector<T::Future<Load, TA<0>>> l;
        std::vector<T::Future<rpp::String<TA<1>>, TA<0>>> st;
    };
    bool dup_dropped = false, early = false, late = false;
    {
        pbt::Deadline dl(20, "a history of futures");
        std::deque<Fut> fs;
        std::deque<Crew> readers;
        std::deque<std::atomic<U>> read;
        U n = s.limit(15, 25, 50), seed = s.draw(1 << 30), readings = 0;
        auto each = [&](Fut& f, auto fn) {
            if(f.kind <= 1) fn(f.u);
            else if(f.kind == 2) fn(f.v);
            else if(f.kind == 3) fn(f.l);
            else fn(f.st);
        };
        auto block = [&](Fut& f, auto& h) {
            using R = decltype(h->block());
            if constexpr(std::is_void_v<R>) h->block();
            else {
                R r = h->block();
                if constexpr(std::is_same_v<R, U>) CHECK(r == f.want, "a future delivered %lu instead of %lu", r, f.want);
                else if constexpr(std::is_same_v<R, Load>) CHECK(r.is(f.want) || f.taken, "a future delivered a wrong value (%lu instead of %lu)", r.v, f.want);
                else CHECK(f.taken || std::string((const char*)r.data(), r.length()) == std::string(f.want % 40, 'q'), "a future delivered a wrong string");
                f.taken = true;
            }
            CHECK(f.job.finished.load(std::memory_order_relaxed), "block returned before the callable finished");
            CHECK(f.job.plain == f.job.seed + 1, "the callable's effects are not visible after block");
            CHECK(h->ready(), "a future is not ready after block");
        };
        while(s.step(n)) {
            U c = fs.empty() ? 0 : s.pick({4, 3, 2, 3, 4, 2, 2});
            U k = fs.empty() ? 0 : s.draw(fs.size() - 1);
            switch(c) {
            case 0: {
                fs.emplace_back();
                k = fs.size() - 1;
                Fut& f = fs[k];
                Job* j = &f.job;
                j->level = s.draw(2), j->seed = seed + k, j->open = s.coin();
                f.kind = (int)s.draw(4);
                f.want = s.draw(1000) + 1;
                NOTE("future %lu: kind %d, %s", k, f.kind, j->open ? "free to run" : "held back");
                U w = f.want;
                switch(f.kind) {
                case 0: // arguments: values, an lvalue to copy, an owning one to move
                {
                    U lv = w;
                    Dup d{w};
                    const Dup cd{w + 1};
                    f.u.push_back(T::spawn<TA<0>>(
                        [j](U& a, u8 b, Load m, Dup& x, const Dup& y) {
                            U r = a;
                            CHECK(b == (u8)r && m.is(r) && x.is(r) && y.is(r + 1), "an argument of a spawned callable was damaged");
                            j->body();
                            CHECK(x.is(r), "an argument was released during the call");
                            a = 0;
                            return r;
                        },
                        lv, (u8)w, Load{w}, d, cd));
                    CHECK(d.is(w) && cd.is(w + 1), "an argument passed by name was taken from its owner");
                    lv = 0;
                    break;
                }
                case 1:
                    f.u.push_back(T::spawn<TA<0>>([j, l = Load{w}]() {
                        j->body();
                        return l.is(l.v) ? l.v : 0;
                    }));
                    break;
                case 2:
                    f.v.push_back(T::spawn<TA<0>>([j](Load l) { j->body(); }, Load{w}));
                    break;
                case 3:
                    f.l.push_back(T::spawn<TA<0>>(
                        [j](U x) {
                            Load r{x};
                            j->body();
                            return r;
                        },
                        w));
                    break;
                case 4:
                    f.st.push_back(T::spawn<TA<0>>(
                        [j](U x) {
                            j->body();
                            return rpp::String_View{(const u8*)std::string(x % 40, 'q').data(), x % 40}.string<TA<1>>();
                        },
                        w));
                    break;
                }
                break;
            }
            case 1:
                each(fs[k], [&](auto& v) {
                    if(v.empty()) return;
                    NOTE("another handle of future %lu", k);
                    v.push_back(v[s.draw(v.size() - 1)].dup());
                });
                break;
            case 2:
                each(fs[k], [&](auto& v) {
                    if(v.empty()) return;
                    NOTE("a handle of future %lu is dropped", k);
                    v.erase(v.begin() + (long)s.draw(v.size() - 1));
                    dup_dropped = true;
                });
                break;
            case 3:
                each(fs[k], [&](auto& v) {
                    if(v.empty()) return;
                    bool o = fs[k].job.open;
                    bool r = v.back()->ready();
                    NOTE("future %lu ready: %d", k, r);
                    if(!o) {
                        CHECK(!r, "a future is ready before its callable finished");
                        early = true;
                    }
                    if(r) {
                        CHECK(fs[k].job.finished.load(std::memory_order_relaxed), "a future is ready before its callable finished");
                        CHECK(fs[k].job.plain == fs[k].job.seed + 1, "the callable's effects are not visible although ready");
                        late = true;
                    }
                });
                break;
            case 4:
                each(fs[k], [&](auto& v) {
                    if(v.empty()) return;
                    NOTE("block on future %lu", k);
                    fs[k].job.open = true;
                    block(fs[k], v[s.draw(v.size() - 1)]);
                });
                break;
            case 5:
                fs[k].job.open = true;
                break;
            case 6: { // readers waiting at the same time
                Fut* f = &fs[k];
                if(f->kind > 2 || readings > 2) break;
                U m = s.range(1, 3);
                NOTE("%lu readers of future %lu", m, k);
                each(*f, [&](auto& v) {
                    if(v.empty()) return;
                    readings++;
                    auto hs = std::make_shared<std::decay_t<decltype(v)>>();
                    for(U i = 0; i < m; i++) hs->push_back(v.back().dup());
                    U sd = seed;
                    readers.emplace_back(m, [f, hs, sd](U i) {
                        U r = sd + i;
                        relax(r, 2);
                        if(i == 2)
                            while(!(*hs)[i]->ready()) relax(r, 1);
                        using R = decltype((*hs)[i]->block());
                        if constexpr(std::is_void_v<R>) (*hs)[i]->block();
                        else if constexpr(std::is_same_v<R, U>) CHECK((*hs)[i]->block() == f->want, "a future delivered different values");
                        CHECK(f->job.finished.load(std::memory_order_relaxed), "block returned before the callable finished");
                        CHECK(f->job.plain == f->job.seed + 1, "the callable's effects are not visible after block");
                        auto last = std::move((*hs)[i]); // let go from here
                    });
                });
                break;
            }
            }
        }
        if(s.coin()) // all handles go first
            for(auto& f : fs) each(f, [&](auto& v) { v.clear(); });
        for(auto& f : fs) f.job.open = true;
        for(auto& f : fs)
            each(f, [&](auto& v) {
                if(!v.empty()) block(f, v.back());
            });
        for(auto& r : readers) r.join();
        for(auto& f : fs) each(f, [&](auto& v) { v.clear(); });
        for(auto& f : fs) {
            while(!f.job.finished) usleep(20);
            CHECK(f.job.runs == 1, "a callable ran %d times", f.job.runs.load());
            CHECK(f.job.thread != (U)pthread_self(), "a callable ran on the thread that spawned it");
        }
        pbt::Deadline dl2(20, "finished threads keep what they own");
        while(owned || blocks()) usleep(20);
    }
    settle();
    if(early && late && dup_dropped) pbt::nontrivial();
}

// Many at once; results collected in any order, from any thread.
PROP_F(burst, 150, 3000, pbt::FEW | pbt::NONDET) {
    reset();
    U n = s.range(2, 40), level = s.draw(2), seed = s.draw(1 << 30), spawners = s.range(1, 3);
    NOTE("%lu threads spawned by %lu", n, spawners);
    pbt::Deadline dl(20, "many spawned threads");
    std::vector<std::vector<T::Future<Load, TA<0>>>> fs(spawners);
    std::deque<std::atomic<int>> runs(n * spawners);
    run(spawners, 0, [&](U me) {
        for(U i = 0; i < n; i++)
            fs[me].push_back(T::spawn<TA<0>>(
                [&runs, level](U k, U r) {
                    runs[k]++;
                    relax(r, level);
                    return Load{k};
                },
                me * n + i, U{seed + i}));
        if(level == 1)
            for(U i = n; i-- > 0;) CHECK(fs[me][i]->block().is(me * n + i), "future %lu delivered another's value", i);
    });
    if(level != 1)
        run(spawners, 0, [&](U me) {
            U o = (me + 1) % spawners;
            for(U i = 0; i < n; i++) CHECK(fs[o][i]->block().is(o * n + i), "future %lu delivered another's value", i);
        });
    fs.clear();
    for(auto& r : runs) CHECK(r == 1, "a callable ran %d times", r.load());
    settle();
    pbt::nontrivial();
}

// Promises used directly, by several waiters under a storm of signals.
PROP_F(promises, 800, 16000, pbt::FEW | pbt::NONDET) {
    reset();
    U waiters = s.range(1, 5), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.coin() ? seed : 0;
    bool many = s.coin(), nothing = s.coin();
    NOTE("%lu waiters for a %s%s", waiters, nothing ? "void promise" : many ? "plain value" : "owned value", storm ? ", interrupted" : "");
    {
        pbt::Deadline dl(20, "waiters of a filled promise");
        auto p = T::Future<U, TA<0>>::make();
        auto v = T::Future<void, TA<0>>::make();
        auto l = T::Future<Load, TA<0>>::make();
        CHECK(!p->ready() && !v->ready() && !l->ready(), "a new promise is ready");
        std::atomic<bool> filled{false};
        std::deque<decltype(p)> ps;
        for(U i = 0; i <= waiters; i++) ps.push_back(p.dup());
        U plain = 0;
        run(waiters + 1, storm, [&](U me) {
            U r = seed * 3 + me;
            relax(r, level);
            if(me == 0) {
                if(level) usleep((unsigned)(r % 400));
                plain = 9;
                filled.store(true, std::memory_order_relaxed);
                if(nothing) v->fill();
                else if(many) ps[0]->fill(U{seed});
                else l->fill(Load{seed});
                return;
            }
            if(nothing) v->block();
            else if(many) CHECK(ps[me]->block() == seed, "a promise delivered another value");
            else if(me == 1) CHECK(l->block().is(seed), "a promise delivered another value");
            else
                while(!l->ready()) relax(r, 1);
            CHECK(filled.load(std::memory_order_relaxed) && plain == 9, "a waiter went on before the promise was filled");
        });
    }
    settle();
    pbt::nontrivial();
}

// One after the other, so that the system's own per-thread memory is reused: nothing may be left behind per spawn.
PROP_F(no_growth, 60, 600, pbt::FEW | pbt::NONDET) {
    reset();
    U n = 40, how = s.draw(2);
    i64 before = 0;
    for(U round = 0; round < 2; round++) { // the first round warms up
        before = pbt::live_mallocs();
        for(U i = 0; i < n; i++) {
            std::atomic<bool> done{false};
            if(how == 0) T::spawn([&done](U x) { done = true; }, i)->block();
            if(how == 1) CHECK(T::spawn([&done](Load l) { done = true; return l.v; }, Load{i})->block() == i, "a future delivered another value");
            if(how == 2) T::Thread{[&done]() { done = true; }}.join();
            CHECK(done, "the callable did not run");
        }
        settle();
    }
    pbt::Deadline dl(20, "memory of finished threads is never released");
    while(pbt::live_mallocs() >= before + (i64)n / 2) usleep(100);
    pbt::nontrivial();
}

// A thread's processor and priority are its own affair.
PROP_F(controls, 30, 600, pbt::FEW | pbt::NONDET) {
    reset();
    cpu_set_t all;
    CPU_ZERO(&all);
    sched_getaffinity(0, sizeof all, &all);
    std::vector<U> cores;
    for(U i = 0; i < T::hardware_threads() && i < CPU_SETSIZE; i++)
        if(CPU_ISSET(i, &all)) cores.push_back(i);
    CHECK(T::hardware_threads() == (U)sysconf(_SC_NPROCESSORS_ONLN), "%lu hardware threads", T::hardware_threads());
    U n = s.range(1, 4), ops = s.range(1, 8), seed = s.draw(1 << 20), storm = s.coin() ? seed + 1 : 0;
    if(cores.empty()) return;
    run(n, storm, [&](U me) {
        cpu_set_t want;
        pthread_getaffinity_np(pthread_self(), sizeof want, &want);
        for(U i = 0; i < ops; i++) {
            U r = pbt::mix(seed * 8 + me + i * 64);
            switch(r % 3) {
            case 0: {
                U core = cores[(r >> 8) % cores.size()];
                T::set_affinity(core);
                CPU_ZERO(&want);
                CPU_SET(core, &want);
                break;
            }
            case 1: {
                static const T::Priority ps[] = {T::Priority::low, T::Priority::normal, T::Priority::high, T::Priority::critical};
                T::Priority p = ps[(r >> 8) % 4];
                T::set_priority(p);
                int policy = 0;
                sched_param sp = {};
                pthread_getschedparam(pthread_self(), &policy, &sp);
                int lo = sched_get_priority_min(policy), hi = sched_get_priority_max(policy);
                CHECK(sp.sched_priority >= lo && sp.sched_priority <= hi, "a priority of %d, outside of %d to %d", sp.sched_priority, lo, hi);
                break;
            }
            case 2: T::pause(); sched_yield(); break;
            }
            cpu_set_t is;
            pthread_getaffinity_np(pthread_self(), sizeof is, &is);
            CHECK(CPU_EQUAL(&is, &want), "the thread's processors are not those it was given");
            if(CPU_COUNT(&want) == 1) CHECK(CPU_ISSET((size_t)sched_getcpu(), &want), "the thread runs on processor %d", sched_getcpu());
        }
    });
    cpu_set_t after;
    sched_getaffinity(0, sizeof after, &after);
    CHECK(CPU_EQUAL(&all, &after), "another thread's processors changed");
    settle();
    pbt::nontrivial();
}
