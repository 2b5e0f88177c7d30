// C21: locks exclude, waits never lose a wake-up, atomics lose no update.
#include "par.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
using namespace par;
namespace T = rpp::Thread;
using T::Atomic;
using T::Cond;
using T::Flag;
using T::Lock;
using T::Mutex;

// --- one controller, a step at a time: exact model of who holds what ---

struct Helper { // a second thread that tries mutexes on request
    Mutex* m = nullptr;
    int what = 0; // 1 try and release, 2 quit, 3 lock, 4 unlock, 5 try and keep
    bool got = false;
    sem_t ask, done;
    pthread_t th;
    static void* go(void* p) {
        Helper& h = *(Helper*)p;
        while(true) {
            while(sem_wait(&h.ask)) {}
            switch(h.what) {
            case 1:
                h.got = h.m->try_lock();
                if(h.got) h.m->unlock();
                break;
            case 2: return nullptr;
            case 3: h.m->lock(); break;
            case 4: h.m->unlock(); break;
            case 5: h.got = h.m->try_lock(); break;
            }
            sem_post(&h.done);
        }
    }
    Helper() {
        sem_init(&ask, 0, 0);
        sem_init(&done, 0, 0);
        pthread_create(&th, nullptr, go, this);
    }
    bool operator()(Mutex& x, int w) {
        m = &x, what = w;
        sem_post(&ask);
        while(sem_wait(&done)) {}
        return got;
    }
    ~Helper() {
        what = 2;
        sem_post(&ask);
        pthread_join(th, nullptr);
    }
};
PROP_F(lock_histories, 6000, 120000, pbt::FEW) {
    pbt::Deadline dl(20, "a scripted lock history");
    Helper help;
    constexpr U M = 3, S = 4;
    Mutex m[M];
    int held[M] = {}; // 0 free, 1 here, 2 by the helper
    alignas(Lock) unsigned char raw[S][sizeof(Lock)];
    int slot[S]; // -2 no object, -1 a moved-from object, else its mutex
    std::fill(slot, slot + S, -2);
    auto lk = [&](U i) -> Lock& { return *(Lock*)raw[i]; };
    U n = s.limit(10, 25, 60), moves = 0, assigns = 0;
    while(s.step(n)) {
        U i = s.draw(M - 1), a = s.draw(S - 1), b = s.draw(S - 1), c = s.pick({5, 3, 3, 4, 2, 2, 2, 2});
        auto find = [](U from, U n, auto ok) { // the first that fits, from a random one on
            for(U k = 0; k < n; k++)
                if(ok((from + k) % n)) return (from + k) % n;
            return from;
        };
        if(c == 0) i = find(i, M, [&](U k) { return !held[k]; });
        if(c == 0 || c == 2) a = find(a, S, [&](U k) { return slot[k] == -2; });
        if(c == 3) a = find(a, S, [&](U k) { return slot[k] >= -1; });
        if(c == 2 || c == 3) b = find(b, S, [&](U k) { return slot[k] >= 0 && k != a; });
        switch(c) {
        case 0: // a new lock on a free mutex
            if(slot[a] != -2 || held[i]) break;
            NOTE("lock %lu takes mutex %lu", a, i);
            new(raw[a]) Lock(m[i]);
            slot[a] = (int)i, held[i] = 1;
            break;
        case 1: // end of a lock
            if(slot[a] == -2) break;
            NOTE("lock %lu (%d) ends", a, slot[a]);
            lk(a).~Lock();
            if(slot[a] >= 0) held[slot[a]] = 0;
            slot[a] = -2;
            break;
        case 2: // move to a new lock
            if(slot[a] != -2 || slot[b] == -2) break;
            NOTE("lock %lu is made from lock %lu (%d)", a, b, slot[b]);
            new(raw[a]) Lock(rpp::move(lk(b)));
            moves += slot[b] >= 0;
            slot[a] = slot[b], slot[b] = -1;
            break;
        case 3: // move to an existing lock, which lets go of what it held
            if(slot[a] == -2 || slot[b] == -2 || a == b) break;
            NOTE("lock %lu (%d) is assigned from lock %lu (%d)", a, slot[a], b, slot[b]);
            lk(a) = rpp::move(lk(b));
            if(slot[a] >= 0) held[slot[a]] = 0, assigns++;
            slot[a] = slot[b], slot[b] = -1;
            break;
        case 4: { // by hand
            if(held[i] == 1) break;
            NOTE("try_lock of mutex %lu", i);
            bool g = m[i].try_lock();
            CHECK(g == (held[i] == 0), "try_lock of a %s mutex returned %d", held[i] ? "held" : "free", g);
            if(g) {
                CHECK(!help(m[i], 1), "a mutex was taken twice");
                m[i].unlock();
            }
            break;
        }
        case 5:
            if(held[i]) break;
            NOTE("mutex %lu is locked and unlocked by hand", i);
            m[i].lock();
            CHECK(!help(m[i], 1), "a mutex was taken twice");
            m[i].unlock();
            break;
        case 6:
            if(held[i]) break;
            NOTE("the other thread takes mutex %lu", i);
            if(s.coin()) help(m[i], 3);
            else CHECK(help(m[i], 5), "try_lock of a free mutex failed");
            held[i] = 2;
            break;
        case 7:
            if(held[i] != 2) break;
            NOTE("the other thread releases mutex %lu", i);
            help(m[i], 4);
            held[i] = 0;
            break;
        }
        for(U k = 0; k < M; k++) {
            if(held[k] == 2) {
                CHECK(!m[k].try_lock(), "mutex %lu held by another thread was taken", k);
            } else {
                bool g = help(m[k], 1);
                CHECK(g == (held[k] == 0), "mutex %lu, %s here, %s be taken by another thread", k, held[k] ? "held" : "not held", g ? "can" : "cannot");
            }
        }
    }
    for(U i = 0; i < S; i++)
        if(slot[i] != -2) lk(i).~Lock();
    for(U k = 0; k < M; k++) {
        if(held[k] == 2) help(m[k], 4);
        CHECK(help(m[k], 1), "mutex %lu is still held at the end", k);
    }
    if(moves && assigns) pbt::nontrivial();
}

// --- exclusion and visibility under contention ---

PROP_F(exclusion, 1800, 60000, pbt::FEW | pbt::NONDET) {
    U threads = s.range(2, 8), ms = s.range(1, 3), rounds = s.range(10, 400), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.chance(1, 3) ? seed : 0;
    NOTE("%lu threads, %lu mutexes, %lu rounds, pauses %lu%s", threads, ms, rounds, level, storm ? ", interrupted" : "");
    if(level == 2) rounds = std::min<U>(rounds, 40);
    pbt::Deadline dl(20, "threads taking mutexes");
    struct Shared { // plain data: only the mutex orders the accesses
        Mutex m;
        U owner = 0, sections = 0, value = 1;
        std::atomic<int> inside{0};
    };
    std::deque<Shared> sh(ms);
    std::atomic<U> total{0}, tries{0};
    run(threads, storm, [&](U me) {
        U r = seed * 131 + me, mine = 0;
        auto section = [&](Shared& x) {
            CHECK(x.inside.fetch_add(1, std::memory_order_relaxed) == 0, "two threads hold a mutex");
            x.owner = me + 1;
            U v = x.value;
            relax(r, level);
            CHECK(x.owner == me + 1, "thread %lu wrote under thread %lu's lock", x.owner - 1, me);
            x.value = v * 3 + 1;
            x.sections++;
            mine++;
            CHECK(x.inside.fetch_sub(1, std::memory_order_relaxed) == 1, "two threads hold a mutex");
        };
        for(U k = 0; k < rounds; k++) {
            r = pbt::mix(r);
            Shared& x = sh[r % ms];
            switch((r >> 20) % 5) {
            case 0: {
                Lock l(x.m);
                section(x);
                break;
            }
            case 1: {
                Lock l(x.m);
                Lock l2 = rpp::move(l);
                section(x);
                break;
            }
            case 2:
                x.m.lock();
                section(x);
                x.m.unlock();
                break;
            case 3:
                if(!x.m.try_lock()) {
                    tries++;
                    break;
                }
                section(x);
                x.m.unlock();
                break;
            case 4: { // all, in order
                std::vector<Lock> l;
                l.reserve(ms);
                for(auto& y : sh) l.emplace_back(y.m);
                for(auto& y : sh) section(y);
                break;
            }
            }
            relax(r, level);
        }
        total += mine;
    });
    U sum = 0;
    for(auto& x : sh) {
        U v = 1;
        for(U i = 0; i < x.sections; i++) v = v * 3 + 1;
        CHECK(v == x.value, "an update made under a lock was lost");
        sum += x.sections;
    }
    CHECK(sum == total, "%lu critical sections counted, %lu executed", sum, total.load());
    if(tries) pbt::label("try_lock found a mutex taken");
    if(storm) pbt::label("interrupted");
    pbt::nontrivial();
}

// --- conditions ---

PROP_F(bounded_buffer, 1500, 30000, pbt::FEW | pbt::NONDET) {
    U prod = s.range(1, 4), cons = s.range(1, 4), cap = s.range(1, 4), items = s.range(1, 200), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.chance(1, 3) ? seed : 0;
    bool one = s.coin(); // signal, with separate conditions; otherwise broadcast on one condition
    if(level == 2) items = std::min<U>(items, 40);
    NOTE("%lu producers of %lu items, %lu consumers, capacity %lu, %s%s", prod, items, cons, cap, one ? "signal" : "broadcast", storm ? ", interrupted" : "");
    pbt::Deadline dl(20, "producers and consumers");
    Mutex m;
    Cond space, data;
    std::deque<U> q;
    U made = 0, waits = 0;
    std::vector<U> seen(prod * items);
    run(prod + cons, storm, [&](U me) {
        U r = seed * 37 + me;
        for(U k = 0; me < prod ? k < items : true; k++) {
            Lock l(m);
            if(me < prod) {
                while(q.size() >= cap) {
                    waits++;
                    (one ? space : data).wait(m);
                }
                CHECK(q.size() < cap, "a wait returned without the mutex");
                q.push_back(me * items + k);
                made++;
            } else {
                U all = prod * items;
                while(q.empty() && made < all) {
                    waits++;
                    data.wait(m);
                }
                if(q.empty()) break;
                U x = q.front();
                q.pop_front();
                seen[x]++;
            }
            relax(r, level == 2);
            if(!one) data.broadcast();
            else if(me < prod) made == prod * items ? data.broadcast() : data.signal();
            else space.signal();
        }
    });
    for(U i = 0; i < seen.size(); i++) CHECK(seen[i] == 1, "item %lu was taken %lu times", i, seen[i]);
    if(storm) pbt::label("interrupted");
    if(waits) pbt::nontrivial();
}
PROP_F(wakeups, 1500, 30000, pbt::FEW | pbt::NONDET) {
    // all waiters are known to wait (they hold the mutex until they do); then exactly the announced wake-ups
    U n = s.range(1, 8), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.chance(1, 3) ? seed : 0;
    bool all = s.coin(), outside = s.coin();
    U rounds = s.range(1, 8);
    NOTE("%lu waiters, %lu rounds of %s %s the mutex%s", n, rounds, all ? "broadcast" : "signal", outside ? "outside" : "inside", storm ? ", interrupted" : "");
    pbt::Deadline dl(20, "threads waiting for a condition that was signalled");
    Mutex m;
    Cond c;
    U waiting = 0, tokens = 0, woken = 0, round = 0;
    run(n + 1, storm, [&](U me) {
        U r = seed * 41 + me;
        if(me) {
            for(U k = 0; k < rounds; k++) {
                Lock l(m);
                while(round != k) { // the others are still busy with the round before
                    Lock gone = rpp::move(l);
                    m.unlock();
                    usleep(5);
                    m.lock();
                    l = rpp::move(gone);
                }
                waiting++;
                while(tokens == 0) c.wait(m);
                CHECK(tokens > 0, "a wait returned without the mutex");
                tokens--;
                woken++;
                if(woken == n) {
                    woken = waiting = 0;
                    round++;
                }
            }
        } else {
            for(U k = 0; k < rounds; k++) {
                while(true) {
                    {
                        Lock l(m);
                        if(round == k && waiting == n) break;
                        relax(r, level);
                    }
                    usleep(5);
                }
                relax(r, level);
                if(all) {
                    {
                        Lock l(m);
                        tokens = n;
                        if(!outside) c.broadcast();
                    }
                    if(outside) c.broadcast();
                } else {
                    for(U i = 0; i < n; i++) {
                        {
                            Lock l(m);
                            tokens++;
                            if(!outside) c.signal();
                        }
                        if(outside) c.signal();
                        relax(r, level);
                    }
                }
                while(true) { // the condition is only used by waiters of this round
                    {
                        Lock l(m);
                        if(round > k) break;
                    }
                    usleep(5);
                }
            }
        }
    });
    CHECK(tokens == 0 && round == rounds, "%lu wake-ups unused after %lu of %lu rounds", tokens, round, rounds);
    if(storm) pbt::label("interrupted");
    if(n > 1) pbt::nontrivial();
}

// --- flags ---

PROP_F(flags, 3000, 60000, pbt::FEW | pbt::NONDET) {
    U waiters = s.range(1, 7), signallers = s.range(1, 2), level = s.draw(2), seed = s.draw(1 << 30) + 1, storm = s.chance(1, 2) ? seed : 0, late = s.draw(2);
    NOTE("%lu waiters, %lu signallers, pauses %lu, delay %lu%s", waiters, signallers, level, late, storm ? ", interrupted" : "");
    pbt::Deadline dl(20, "threads waiting for a flag that was signalled");
    Flag f;
    CHECK(!f.ready(), "a new flag is signalled");
    U data[2] = {0, 0};
    std::atomic<int> signalling{0}, done{0};
    run(waiters + signallers, storm, [&](U me) {
        U r = seed * 43 + me;
        relax(r, level);
        if(me < signallers) {
            if(late == 2) usleep(300 + (unsigned)(r % 1000));
            else if(late == 1) relax(r, 2);
            data[me] = me + 7;
            if(me == 0) {
                signalling.store(1, std::memory_order_relaxed);
                f.signal();
                CHECK(f.ready(), "a signalled flag is not ready");
            } else {
                f.block();
                f.signal(); // again: no effect
            }
            return;
        }
        bool poll = r >> 40 & 1;
        if(poll)
            while(!f.ready()) relax(r, 1);
        else f.block();
        CHECK(signalling.load(std::memory_order_relaxed) == 1, "%s before the flag was signalled", poll ? "ready" : "released");
        CHECK(data[0] == 7, "what was written before the signal is not visible");
        CHECK(f.ready(), "a signalled flag is not ready any more");
        f.block(); // returns at once
        done++;
    });
    CHECK(done == (int)waiters, "%d of %lu waiters went on", done.load(), waiters);
    if(storm) pbt::label("interrupted");
    pbt::nontrivial();
}
// Whoever sees the flag signalled may dispose of it at once, also while signal() is still returning.
PROP_F(flag_disposed, 150, 3000, pbt::FEW | pbt::NONDET) {
    pbt::Deadline dl(20, "signalling flags that are disposed of");
    U rounds = 200, pad = s.draw(200), how = s.draw(1);
    std::atomic<T::Flag*> at{nullptr};
    std::thread th([&]() {
        for(U i = 0; i < rounds; i++) {
            T::Flag* f;
            while(!(f = at.exchange(nullptr))) sched_yield();
            for(volatile U k = 0; k < pad; k = k + 1) {}
            f->signal();
        }
    });
    for(U i = 0; i < rounds; i++) {
        void* page = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        T::Flag* f = new(page) T::Flag;
        at = f;
        if(how) f->block();
        else
            while(!f->ready()) {}
        f->~Flag();
        munmap(page, 4096);
    }
    th.join();
    pbt::nontrivial();
}
PROP_F(flag_ping_pong, 400, 8000, pbt::FEW | pbt::NONDET) { // signal and wait as close together as possible
    U n = s.range(10, 300), seed = s.draw(1 << 30) + 1, storm = s.chance(1, 3) ? seed : 0, level = s.draw(1);
    pbt::Deadline dl(20, "two threads alternating through flags");
    std::deque<Flag> a(n), b(n);
    U x = 0;
    run(2, storm, [&](U me) {
        U r = seed + me;
        for(U i = 0; i < n; i++) {
            relax(r, level);
            if(me == 0) {
                x++;
                a[i].signal();
                b[i].block();
            } else {
                a[i].block();
                CHECK(x == 2 * i + 1, "went on at %lu instead of %lu", x, 2 * i + 1);
                x++;
                b[i].signal();
            }
        }
    });
    CHECK(x == 2 * n, "%lu steps instead of %lu", x, 2 * n);
    pbt::nontrivial();
}

// --- atomics ---

PROP(atomic_values, 40000, 800000) {
    auto val = [&]() -> i64 {
        i64 v = (i64)s.bits(64);
        return v == std::numeric_limits<i64>::max() || v == std::numeric_limits<i64>::min() ? 0 : v;
    };
    i64 m = s.coin() ? val() : 0;
    Atomic a(m);
    if(m == 0 && s.coin()) {
        Atomic d;
        CHECK(d.load() == 0, "a new atomic holds %ld", d.load());
        a = d;
    }
    U n = s.limit(6, 12, 30), done = 0;
    while(s.step(n)) {
        i64 x = val(), c = s.coin() ? m : val(), g = 0;
        done++;
        switch(s.draw(4)) {
        case 0:
            if(m == std::numeric_limits<i64>::max() - 1) break;
            g = a.incr(), m++;
            CHECK(g == m, "incr to %ld returned %ld", m, g);
            break;
        case 1:
            if(m == std::numeric_limits<i64>::min() + 1) break;
            g = a.decr(), m--;
            CHECK(g == m, "decr to %ld returned %ld", m, g);
            break;
        case 2:
            g = a.exchange(x);
            CHECK(g == m, "exchange of %ld returned %ld", m, g);
            m = x;
            break;
        case 3:
            g = a.compare_and_swap(c, x);
            CHECK(g == m, "compare_and_swap of %ld returned %ld", m, g);
            if(c == m) m = x;
            break;
        case 4: {
            Atomic b = a, e = rpp::move(b);
            b = e;
            a = rpp::move(b);
            break;
        }
        }
        CHECK(a.load() == m && a.load<U>() == (U)m && a.load<u8>() == (u8)m && a.load<i32>() == (i32)m, "the value is %ld, expected %ld", a.load(), m);
    }
    if(done > 2) pbt::nontrivial();
}
PROP_F(atomic_threads, 1500, 30000, pbt::FEW | pbt::NONDET) {
    // every operation is an edge from the value it found to the value it left; together they must form one trail from
    // the first value to the last
    U threads = s.range(2, 8), rounds = s.range(5, 150), level = s.draw(1), seed = s.draw(1 << 30) + 1, mix = s.draw(3), span = s.of<unsigned>({3, 8, 1000});
    NOTE("%lu threads, %lu operations each, mix %lu of %lu values", threads, rounds, mix, span);
    pbt::Deadline dl(20, "atomic operations");
    i64 first = (i64)s.draw(2);
    Atomic a(first);
    struct Edge {
        i64 from, to;
    };
    std::vector<std::vector<Edge>> log(threads);
    run(threads, 0, [&](U me) {
        U r = seed * 47 + me;
        auto& l = log[me];
        l.reserve(rounds);
        for(U k = 0; k < rounds; k++) {
            relax(r, level);
            r = pbt::mix(r);
            i64 x = (i64)((r >> 8) % span), y = (i64)((r >> 24) % span), g;
            switch(mix == 0 ? (r >> 40) % 2 : mix == 1 ? 2 : mix == 2 ? 3 + (r >> 41) % 2 : (r >> 40) % 5) {
            case 0: g = a.incr(), l.push_back({g - 1, g}); break;
            case 1: g = a.decr(), l.push_back({g + 1, g}); break;
            case 2: g = a.exchange(x), l.push_back({g, x}); break;
            case 3: // from what was just seen
                x = a.load();
                [[fallthrough]];
            case 4:
                g = a.compare_and_swap(x, y);
                l.push_back({g, g == x ? y : g});
                break;
            }
        }
    });
    std::map<i64, i64> balance;
    std::map<i64, i64> parent;
    std::function<i64(i64)> root = [&](i64 x) {
        auto it = parent.find(x);
        if(it == parent.end()) return parent[x] = x;
        while(parent[x] != x) x = parent[x] = parent[parent[x]];
        return x;
    };
    i64 last = a.load();
    balance[first]++, balance[last]--;
    for(auto& l : log)
        for(auto& e : l) balance[e.from]--, balance[e.to]++, root(e.from), root(e.to), parent[root(e.from)] = root(e.to);
    for(auto& [v, b] : balance) CHECK(b == 0, "the value %ld was found and left a different number of times (%+ld): an update was lost or seen twice", v, b);
    for(auto& [v, p] : parent) CHECK(root(v) == root(first), "no order of the operations explains the value %ld", v);
    pbt::nontrivial();
}
PROP_F(atomic_publish, 1000, 20000, pbt::FEW | pbt::NONDET) { // plain data handed over through an atomic
    U n = s.range(2, 6), rounds = s.range(1, 60), how = s.draw(3), seed = s.draw(1 << 30), level = s.draw(1);
    pbt::Deadline dl(20, "a token passed through an atomic");
    Atomic turn(0);
    U data = 0;
    run(n, 0, [&](U me) {
        U r = seed + me;
        for(U k = 0; k < rounds; k++) {
            i64 mine = (i64)(k * n + me);
            while(turn.load() != mine) sched_yield();
            CHECK(data == (U)mine, "data written before an atomic operation is not visible after it (%lu, expected %ld)", data, mine);
            data++;
            relax(r, level);
            i64 g = how == 0 ? turn.incr() - 1 : how == 1 ? turn.exchange(mine + 1) : how == 2 ? turn.compare_and_swap(mine, mine + 1) : mine;
            if(how == 3) turn.incr();
            CHECK(g == mine, "an atomic operation found %ld instead of %ld", g, mine);
        }
    });
    pbt::nontrivial();
}
PROP_F(spinlock, 600, 12000, pbt::FEW | pbt::NONDET) { // exclusion built from the atomics alone
    U n = s.range(2, 6), rounds = s.range(10, 150), how = s.draw(2), seed = s.draw(1 << 30), level = s.draw(1);
    pbt::Deadline dl(20, "a lock built from an atomic");
    Atomic a(0);
    U x = 0;
    run(n, 0, [&](U me) {
        U r = seed + me;
        for(U k = 0; k < rounds; k++) {
            if(how == 0)
                while(a.exchange(1) != 0) sched_yield();
            else if(how == 1)
                while(a.compare_and_swap(0, 1) != 0) sched_yield();
            else
                while(a.incr() != 1) a.decr(), sched_yield();
            U v = x;
            relax(r, level);
            x = v + 1;
            if(how == 2) a.decr();
            else if(s.count && (r & 1)) (void)a.exchange(0);
            else (void)a.compare_and_swap(1, 0);
        }
    });
    CHECK(x == n * rounds, "%lu updates instead of %lu", x, n * rounds);
    pbt::nontrivial();
}
PROP_F(sleeping, 40, 400, pbt::FEW) {
    U ms = s.draw(8);
    U f = T::perf_frequency(), a = T::perf_counter();
    T::sleep(ms);
    U b = T::perf_counter();
    CHECK(b >= a, "the counter went backwards");
    CHECK((double)(b - a) / (double)f >= (double)ms * 0.999e-3, "slept %g ms instead of %lu", (double)(b - a) / (double)f * 1e3, ms);
    if(s.chance(1, 2)) { // interrupted all the time
        U n = s.range(1, 3), seed = s.draw(1 << 20) + 1, each = s.range(1, 6);
        run(n, seed, [&](U) {
            U from = T::perf_counter();
            T::sleep(each);
            U to = T::perf_counter();
            CHECK((double)(to - from) / (double)f >= (double)each * 0.999e-3, "an interrupted sleep took %g ms instead of %lu",
                  (double)(to - from) / (double)f * 1e3, each);
        });
    }
    if(s.chance(1, 2)) { // longer than anyone would wait: still asleep a moment later
        U part = s.draw(3), mega = part == 0 ? s.range(60'000, 10'000'000) : part == 1 ? ((U)1 << s.range(17, 60)) + s.draw(5) : s.range(4'294'960, 4'295'000);
        NOTE("a sleep of %lu ms", mega);
        pbt::Death d = pbt::run_child(
            [&]() {
                std::thread([&]() {
                    usleep(15000);
                    _exit(7);
                }).detach();
                T::sleep(mega);
                _exit(8);
            },
            false, 10);
        CHECK(WIFEXITED(d.status) && WEXITSTATUS(d.status) == 7, "a sleep of %lu ms ended within 15 ms", mega);
    }
    T::pause();
    CHECK(T::hardware_threads() >= 1, "no hardware threads");
    pbt::nontrivial();
}

PROP_F(sleeping_long, 1, 4, pbt::ONE) { // seconds, side by side
    U base = s.draw(200);
    std::vector<U> ms = {1000, 1001 + base, 2000 + base, 2100};
    std::vector<double> took(ms.size());
    std::vector<std::thread> th;
    for(U i = 0; i < ms.size(); i++)
        th.emplace_back([&, i]() {
            U from = T::perf_counter();
            T::sleep(ms[i]);
            took[i] = (double)(T::perf_counter() - from) / (double)T::perf_frequency();
        });
    for(auto& t : th) t.join();
    for(U i = 0; i < ms.size(); i++) CHECK(took[i] >= (double)ms[i] * 0.999e-3, "slept %g ms instead of %lu", took[i] * 1e3, ms[i]);
    pbt::nontrivial();
}
