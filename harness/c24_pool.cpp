// C24: the thread pool and events run every scheduled job exactly once.
#include "par.h"
#include <dirent.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <rpp/asyncio.h>
#include <rpp/pool.h>
using namespace par;
namespace A = rpp::Async;
using A::Event;
using P = A::Pool<TA<0>>;
template<typename R>
using Task = A::Task<R, TA<0>>;

// The number of processors the library sees.
static volatile long cpus;
extern "C" long __sysconf(int) noexcept;
extern "C" __attribute__((disable_sanitizer_instrumentation)) long sysconf(int name) noexcept { // also called before sanitizers are set up
    if(name == _SC_NPROCESSORS_ONLN && cpus) return cpus;
    return __sysconf(name);
}
static long real_cpus() {
    cpu_set_t set;
    CPU_ZERO(&set);
    sched_getaffinity(0, sizeof set, &set);
    long n = 0;
    while(n < 64 && CPU_ISSET(n, &set)) n++;
    return n; // the first n may be used
}
static U count_dir(const char* d) {
    DIR* p = opendir(d);
    U n = 0;
    while(readdir(p)) n++;
    closedir(p);
    return n;
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
static U fds() {
#ifdef TSAN // the sanitizer opens pipes to its symbolizer: count the rest
    DIR* p = opendir("/proc/self/fd");
    U n = 0;
    while(auto e = readdir(p)) {
        char to[300] = {};
        if(readlinkat(dirfd(p), e->d_name, to, sizeof to - 1) > 0 && strncmp(to, "pipe:", 5) && strncmp(to, "socket:", 7) && to[0] != '/') n++;
    }
    closedir(p);
    return n;
#else
    return count_dir("/proc/self/fd");
#endif
}
static U blocks() {
    auto& h = heap_log<0>;
    pthread_mutex_lock(&h.m);
    U n = h.live.size();
    pthread_mutex_unlock(&h.m);
    return n;
}
static std::atomic<i64> owned{0};
struct Local { // a local of a coroutine
    U* p;
    Local() : p(new U(77)) {
        owned++;
    }
    Local(const Local&) = delete;
    ~Local() {
        CHECK(*p == 77, "a local was destroyed twice or damaged");
        *p = 0;
        delete p;
        owned--;
    }
};
static void fresh() {
    Case::reset<0>();
    owned = 0;
    cpus = 0;
}

// --- events ---

static int out_end[1024]; // of a pipe, by its reading end
static void fill_pipe(int fd) {
    static char page[4096];
    if(write(out_end[fd], page, sizeof page) != sizeof page) _exit(71);
}
static Event make_event(int kind, int& fd) { // 0 the library's own, 1 an eventfd, 2 a pipe's reading end, 3 its writing end
    if(kind == 3) { // signalled when there is room
        int p[2];
        if(pipe2(p, O_NONBLOCK | O_CLOEXEC) || p[0] >= 1024 || fcntl(p[1], F_SETPIPE_SZ, 4096) != 4096) _exit(71);
        fd = p[0];
        out_end[fd] = dup(p[1]);
        fill_pipe(fd);
        return Event::of_sys(p[1], EPOLLOUT);
    }
    if(kind == 1) {
        int f = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
        fd = dup(f);
        return Event::of_sys(f, EPOLLIN);
    }
    if(kind == 2) {
        int p[2];
        if(pipe2(p, O_NONBLOCK | O_CLOEXEC)) _exit(71);
        fd = p[1];
        return Event::of_sys(p[0], EPOLLIN);
    }
    fd = -1;
    return Event{};
}
static void raise(Event& e, int kind, int fd) {
    U one = 1;
    if(kind == 3) {
        static char page[4096];
        while(read(fd, page, sizeof page) > 0) {}
    } else if(kind == 2) {
        if(write(fd, &one, 8) != 8) _exit(71);
    } else if(kind == 1 && (fd & 1)) {
        if(write(fd, &one, 8) != 8) _exit(71);
    } else
        e.signal();
}
PROP(event_histories, 60000, 1500000) {
    U open0 = fds();
    {
        U n = s.range(1, 6);
        std::vector<Event> e;
        std::vector<int> kind(n), fd(n), up(n, 0);
        for(U i = 0; i < n; i++) {
            kind[i] = (int)s.pick({4, 1, 1, 1});
            e.push_back(make_event(kind[i], fd[i]));
        }
        U left = s.limit(6, 12, 30), waits = 0, resets = 0;
        while(s.step(left)) {
            U i = s.draw(n - 1), j = s.draw(n - 1);
            switch(s.pick({4, 3, 3, 4, 2})) {
            case 0:
                NOTE("signal %lu", i);
                raise(e[i], kind[i], fd[i]);
                up[i]++;
                break;
            case 1:
                NOTE("reset %lu (%d)", i, up[i]);
                if(kind[i] == 3) {
                    if(up[i]) fill_pipe(fd[i]);
                } else if(kind[i] == 2) // a pipe holds one item per signal
                    for(; up[i] > 0; up[i]--) e[i].reset();
                else e[i].reset();
                resets += up[i] > 0;
                up[i] = 0;
                break;
            case 2: {
                bool g = e[i].try_wait();
                CHECK(g == (up[i] > 0), "event %lu, %ssignalled, polls as %d", i, up[i] ? "" : "not ", g);
                break;
            }
            case 3: { // a contiguous range of the events, one of them signalled
                U a = std::min(i, j), b = std::max(i, j);
                bool any = false;
                for(U k = a; k <= b; k++) any |= up[k] > 0;
                if(!any) {
                    raise(e[i], kind[i], fd[i]);
                    up[i]++;
                }
                NOTE("wait for any of %lu to %lu", a, b);
                U r = Event::wait_any(rpp::Slice<Event>{e.data() + a, b - a + 1});
                CHECK(r <= b - a, "wait_any of %lu events returned %lu", b - a + 1, r);
                CHECK(up[a + r] > 0, "wait_any returned event %lu, which is not signalled", a + r);
                waits += b > a;
                break;
            }
            case 4: {
                if(i == j) {
                    Event x = rpp::move(e[i]);
                    e[i] = rpp::move(x);
                    break;
                }
                NOTE("%lu and %lu change places", i, j);
                Event x = rpp::move(e[i]);
                e[i] = rpp::move(e[j]);
                e[j] = rpp::move(x);
                std::swap(kind[i], kind[j]), std::swap(fd[i], fd[j]), std::swap(up[i], up[j]);
                break;
            }
            }
            for(U k = 0; k < n; k++) CHECK(e[k].try_wait() == (up[k] > 0), "event %lu, %ssignalled, polls as %d", k, up[k] ? "" : "not ", e[k].try_wait());
        }
        if(s.coin()) {
            Event gone = s.coin() ? rpp::move(e[0]) : Event{};
            e[0] = Event{};
            CHECK(!e[0].try_wait(), "a new event is signalled");
        }
        e.clear();
        for(U i = 0; i < n; i++) {
            if(kind[i] == 3) close(out_end[fd[i]]);
            if(fd[i] >= 0) close(fd[i]);
        }
        if(waits && resets) pbt::nontrivial();
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
}
PROP_F(event_waits, 3000, 60000, pbt::FEW | pbt::NONDET) {
    U open0 = fds();
    {
        U n = s.range(1, 8), rounds = s.range(1, 12), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.coin() ? seed : 0, waiters = s.range(1, 3);
        NOTE("%lu events, %lu rounds, %lu waiters%s", n, rounds, waiters, storm ? ", interrupted" : "");
        pbt::Deadline dl(20, "waiters of an event that was signalled");
        std::vector<Event> e(n);
        std::deque<std::atomic<U>> signalled(n);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, (unsigned)waiters + 1);
        run(waiters + 1, storm, [&](U me) {
            for(U k = 0; k < rounds; k++) {
                U x = pbt::mix(seed + k * 17) % n, r = pbt::mix(seed + k * 31 + me);
                pthread_barrier_wait(&bar);
                if(me == 0) {
                    relax(r, level);
                    if(r & 256) usleep((unsigned)(r >> 12) % 500);
                    signalled[x] = 1;
                    e[x].signal();
                } else {
                    relax(r, level);
                    U g = Event::wait_any(rpp::Slice<Event>{e.data(), n});
                    CHECK(g == x, "wait_any returned %lu, but %lu was signalled", g, x);
                    CHECK(signalled[x] == 1, "a wait ended before its event was signalled");
                }
                pthread_barrier_wait(&bar);
                if(me == 0) {
                    e[x].reset();
                    signalled[x] = 0;
                }
            }
        });
        pthread_barrier_destroy(&bar);
        if(storm) pbt::label("interrupted");
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    pbt::nontrivial();
}

// --- pool ---

struct Env {
    P* pool;
    std::vector<pthread_t> submitters;
    std::atomic<U> resumes{0}, expected{0}, hops{0}, event_waits{0};
    // events to signal
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    struct Sig {
        Event e;
        std::atomic<bool>* flag;
    };
    std::vector<Sig> sigs;
    std::atomic<bool> closing{false};
    void on_pool() {
        for(auto t : submitters) CHECK(!pthread_equal(t, pthread_self()), "a job resumed on the thread that submitted it");
    }
};
// Counts one continuation of one suspension.
struct Once {
    std::atomic<int> n{0};
    void hit() {
        CHECK(n.fetch_add(1) == 0, "a suspended job was resumed twice");
    }
};
static Task<U> tree(Env* e, U seed, U depth) {
    Local l;
    U r = pbt::mix(seed), total = 1, steps = depth == 0 ? 1 + r % 2 : 1 + r % 4, before = 0;
    for(U k = 0; k < steps; k++) {
        r = pbt::mix(r);
        switch(depth == 0 ? r % 3 : r % 8) {
        case 0:
        case 1: {
            Once o;
            e->expected++;
            co_await e->pool->suspend();
            o.hit();
            e->on_pool();
            e->resumes++;
            e->hops++;
            break;
        }
        case 2: { // an event that is signalled before, soon, or later
            Once o;
            std::atomic<bool> flag{false};
            int f = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC), g = dup(f);
            U when = r >> 20 & 3;
            e->expected++;
            if(when == 0) {
                flag = true;
                Event x = Event::of_sys(g, EPOLLIN);
                x.signal();
            } else {
                pthread_mutex_lock(&e->m);
                e->sigs.push_back({Event::of_sys(g, EPOLLIN), &flag});
                pthread_mutex_unlock(&e->m);
            }
            co_await e->pool->event(Event::of_sys(f, EPOLLIN));
            o.hit();
            CHECK(flag, "a job awaiting an event was resumed before the event was signalled");
            e->resumes++;
            e->event_waits++;
            break;
        }
        case 3: {
            auto t = tree(e, r, depth - 1);
            total += co_await t;
            break;
        }
        case 4: {
            total += co_await tree(e, r, depth - 1);
            break;
        }
        case 5: {
            auto a = tree(e, r, depth - 1), b = tree(e, r + 1, depth - 1), c = tree(e, r + 2, 0);
            total += co_await b;
            total += co_await a + co_await c;
            break;
        }
        case 6: {
            std::vector<Task<U>> many;
            for(U i = 0; i < 1 + (r >> 30) % 5; i++) many.push_back(tree(e, r + i, 0));
            for(auto& t : many) total += co_await t;
            break;
        }
        case 7: before++; break;
        }
    }
    co_return total;
}
static U tree_size(U seed, U depth) { // the value the job must deliver
    U r = pbt::mix(seed), total = 1, steps = depth == 0 ? 1 + r % 2 : 1 + r % 4;
    for(U k = 0; k < steps; k++) {
        r = pbt::mix(r);
        switch(depth == 0 ? r % 3 : r % 8) {
        case 3:
        case 4: total += tree_size(r, depth - 1); break;
        case 5: total += tree_size(r, depth - 1) + tree_size(r + 1, depth - 1) + tree_size(r + 2, 0); break;
        case 6:
            for(U i = 0; i < 1 + (r >> 30) % 5; i++) total += tree_size(r + i, 0);
            break;
        default: break;
        }
    }
    return total;
}
static long some_cpus(Src& s) {
    long n = real_cpus();
    if(n < 1) return 0;
    switch(s.pick({3, 2})) {
    case 0: return n;
    default: return 1 + (long)s.draw((U)n - 1);
    }
}
static void pool_case(Src& s, bool storms) {
    fresh();
    cpus = some_cpus(s);
    { // the harness's own threads are started by their first use
        pbt::Deadline dl(25, "start of a thread");
        run(1, 0, [](U) {});
    }
    U open0 = fds(), tasks0 = count_dir("/proc/self/task");
    U jobs = s.limit(4, 20, 120), depth = s.draw(3), submitters = s.range(1, 3), level = s.draw(2), seed = s.draw(1 << 30) + 1;
    std::vector<U> fate(jobs); // block, await from another job, poll
    for(auto& f : fate) f = s.draw(2);
    NOTE("%lu jobs of depth %lu from %lu threads, %ld processors", jobs, depth, submitters, (long)cpus);
    U hops = 0, ev = 0;
    {
        Env e;
        e.submitters.resize(submitters);
        std::atomic<U> left{submitters};
        pbt::Deadline dl(25, "jobs on the pool");
        {
            P pool;
            CHECK(pool.n_threads() >= 1, "a pool without threads");
            e.pool = &pool;
            pthread_barrier_t bar;
            pthread_barrier_init(&bar, nullptr, (unsigned)submitters);
            run(submitters + 1, storms ? seed : 0, [&](U me) {
                U r = seed * 61 + me;
                if(me == submitters) { // signals the events, in a random order
                    while(true) {
                        bool end = left == 0;
                        pthread_mutex_lock(&e.m);
                        std::vector<Env::Sig> mine;
                        r = pbt::mix(r);
                        U take = e.sigs.size() ? 1 + r % e.sigs.size() : 0;
                        for(U i = 0; i < take; i++) {
                            U k = pbt::mix(r + i) % e.sigs.size();
                            mine.push_back(std::move(e.sigs[k]));
                            std::swap(e.sigs[k], e.sigs.back());
                            e.sigs.pop_back();
                        }
                        pthread_mutex_unlock(&e.m);
                        for(auto& x : mine) {
                            relax(r, level);
                            x.flag->store(true);
                            x.e.signal();
                        }
                        if(end && take == 0) break;
                        if(!take) usleep(20);
                    }
                    return;
                }
                e.submitters[me] = pthread_self();
                pthread_barrier_wait(&bar);
                std::vector<Task<U>> ts;
                std::vector<U> want;
                for(U i = me; i < jobs; i += submitters) {
                    want.push_back(tree_size(seed + i * 7, depth));
                    ts.push_back(tree(&e, seed + i * 7, depth));
                    relax(r, level);
                }
                for(U k = 0, i = me; i < jobs; i += submitters, k++) {
                    U g = 0;
                    if(fate[i] == 0) g = ts[k].block();
                    else if(fate[i] == 1) {
                        auto outer = [](Env* e, Task<U> t) -> Task<U> {
                            co_await e->pool->suspend();
                            U r = co_await t;
                            co_await e->pool->suspend();
                            co_return r;
                        };
                        g = outer(&e, rpp::move(ts[k])).block();
                    } else {
                        while(!ts[k].done()) relax(r, 1);
                        g = ts[k].block();
                    }
                    CHECK(g == want[k], "a job delivered %lu instead of %lu", g, want[k]);
                }
                ts.clear();
                left--;
            });
            pthread_barrier_destroy(&bar);
            CHECK(e.resumes == e.expected, "%lu resumptions of %lu suspensions", e.resumes.load(), e.expected.load());
            // frames are given back by the threads that finish them
            while(owned) usleep(20);
        }
        hops = e.hops, ev = e.event_waits;
    }
    CHECK(owned == 0 && blocks() == 0, "%ld locals and %lu blocks were never released", (long)owned, blocks());
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    for(U i = 0; i < 2000 && count_dir("/proc/self/task") > tasks0; i++) usleep(1000);
    CHECK(count_dir("/proc/self/task") <= tasks0, "threads of a destroyed pool are still there");
    cpus = 0;
    if(hops > 4 && ev) pbt::nontrivial();
}
PROP_F(jobs, 2000, 30000, pbt::FEW | pbt::NONDET) {
    pool_case(s, false);
}
// Submitters interrupted by OS signals.
PROP_F(jobs_interrupted, 800, 12000, pbt::FEW | pbt::NONDET) {
    pool_case(s, true);
}
// Wide bursts of small jobs, so that queues fill unevenly.
static Task<U> hop(P* pool, U n, std::atomic<U>* count) {
    Local l;
    for(U i = 0; i < n; i++) {
        co_await pool->suspend();
        count->fetch_add(1, std::memory_order_relaxed);
    }
    co_return n;
}
PROP_F(bursts, 500, 6000, pbt::FEW | pbt::NONDET) {
    fresh();
    cpus = some_cpus(s);
    U n = s.of<unsigned>({1, 10, 100, 1000}), hops = s.range(1, 20), rounds = s.range(1, 3);
    bool wide = s.coin();
    if(n == 1000) hops = std::min<U>(hops, 5);
    NOTE("%lu jobs of up to %lu hops, %lu rounds, %ld processors", n, hops, rounds, (long)cpus);
    std::atomic<U> count{0};
    U expect = 0;
    {
        pbt::Deadline dl(25, "bursts of jobs on the pool");
        P pool;
        for(U k = 0; k < rounds; k++) {
            std::vector<Task<U>> ts;
            for(U i = 0; i < n; i++) {
                U h = wide ? hops : 1 + (i * 7) % hops;
                expect += h;
                ts.push_back(hop(&pool, h, &count));
            }
            for(U i = n; i-- > 0;) CHECK(ts[i].block() == (wide ? hops : 1 + (i * 7) % hops), "a job delivered a wrong value");
        }
        while(owned) usleep(20);
    }
    CHECK(count == expect, "%lu resumptions of %lu suspensions", count.load(), expect);
    CHECK(blocks() == 0, "%lu blocks were never released", blocks());
    cpus = 0;
    pbt::nontrivial();
}
// Dropped jobs: they still run while the pool lives; those that a dying pool holds are released with it.
PROP_F(dropped, 1200, 20000, pbt::FEW | pbt::NONDET) {
    fresh();
    cpus = some_cpus(s);
    U n = s.range(1, 60), hops = s.range(1, 6);
    bool idle = s.coin();
    NOTE("%lu dropped jobs of %lu hops, the pool ends %s", n, hops, idle ? "idle" : "at once");
    std::atomic<U> count{0};
    {
        pbt::Deadline dl(20, "dropped jobs and the end of the pool");
        P pool;
        for(U i = 0; i < n; i++) {
            auto t = hop(&pool, hops, &count);
            (void)t;
        }
        if(idle) {
            while(count != n * hops) usleep(10);
            while(owned) usleep(10);
        }
    }
    CHECK(count <= n * hops, "%lu resumptions of %lu suspensions", count.load(), n * hops);
    CHECK(owned == 0 && blocks() == 0, "%ld locals and %lu blocks were never released", (long)owned, blocks());
    cpus = 0;
    pbt::nontrivial();
}
// Waiting for time to pass.
static A::Task<U> timed(A::Pool<>* pool, U ms) {
    U a = rpp::Thread::perf_counter();
    co_await A::wait(*pool, ms);
    U b = rpp::Thread::perf_counter();
    co_return b - a;
}
PROP_F(timers, 120, 1500, pbt::FEW | pbt::NONDET) {
    fresh();
    U open0 = fds();
    U n = s.range(1, 12);
    {
        pbt::Deadline dl(20, "jobs waiting for time to pass");
        A::Pool<> pool;
        std::vector<A::Task<U>> ts;
        std::vector<U> ms;
        for(U i = 0; i < n; i++) {
            ms.push_back(s.of<unsigned>({0, 1, 2, 5, 20}));
            if(s.chance(1, 120)) ms.back() = 1001;
            NOTE("wait %lu ms", ms.back());
            ts.push_back(timed(&pool, ms.back()));
        }
        for(U i = 0; i < n; i++) {
            U ns = ts[i].block();
            CHECK((double)ns >= (double)ms[i] * 0.999e6, "waited %g ms instead of %lu", (double)ns / 1e6, ms[i]);
        }
        for(auto& t : ts)
            while(!t.done()) usleep(10);
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    if(n > 1) pbt::nontrivial();
}

// Hundreds of jobs waiting at once, for time and for events signalled in any order.
static A::Task<U> awaiting(A::Pool<>* pool, int fd, std::atomic<U>* signalled) {
    co_await pool->event(Event::of_sys(fd, EPOLLIN));
    co_return signalled->load();
}
PROP_F(many_waits, 6, 60, pbt::FEW | pbt::NONDET) {
    rlimit rl;
    getrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096);
    setrlimit(RLIMIT_NOFILE, &rl);
    fresh();
    U open0 = fds(), room = rl.rlim_cur < 1024 ? 20 : 300;
    U timers = s.range(room / 2, room), events = s.draw(room), seed = s.draw(1 << 20), longest = s.of<unsigned>({50, 1300});
    NOTE("%lu timers up to %lu ms, %lu events", timers, longest, events);
    {
        pbt::Deadline dl(60, "jobs waiting for time and events");
        A::Pool<> pool;
        std::vector<A::Task<U>> ts, es;
        std::vector<U> ms;
        std::vector<int> fd;
        std::deque<std::atomic<U>> signalled(events);
        for(U i = 0; i < events; i++) {
            fd.push_back(eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK));
            CHECK(fd.back() >= 0, "harness: no descriptor");
        }
        std::vector<int> writers; // the pool closes the descriptors it is given
        for(U i = 0; i < events; i++) writers.push_back(dup(fd[i]));
        for(U i = 0; i < std::max(timers, events); i++) {
            if(i < timers) {
                U r = pbt::mix(seed + i);
                ms.push_back(longest < 1000 || r % 8 ? r % (longest + 1) : 990 + (r >> 8) % 20);
                ts.push_back(timed(&pool, ms.back()));
            }
            if(i < events) es.push_back(awaiting(&pool, fd[i], &signalled[i]));
        }
        std::vector<U> order(events);
        for(U i = 0; i < events; i++) order[i] = i;
        for(U i = events; i > 1; i--) std::swap(order[i - 1], order[pbt::mix(seed + i) % i]);
        for(U i : order) {
            U one = 1;
            signalled[i] = 1;
            CHECK(write(writers[i], &one, 8) == 8, "harness: could not signal");
            if(pbt::mix(seed + i) % 16 == 0) usleep(200);
        }
        for(U i = 0; i < events; i++) CHECK(es[i].block() == 1, "a job awaiting an event was resumed before the event was signalled");
        for(U i = 0; i < timers; i++) {
            U ns = ts[i].block();
            CHECK((double)ns >= (double)ms[i] * 0.999e6, "waited %g ms instead of %lu", (double)ns / 1e6, ms[i]);
        }
        for(auto& t : ts)
            while(!t.done()) usleep(10);
        for(auto& t : es)
            while(!t.done()) usleep(10);
        for(int w : writers) close(w);
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    if(longest > 1000) pbt::label("over a second");
    pbt::nontrivial();
}
