// Threads for the concurrency checks: a crew started together, with random pauses and a storm of signals.
#pragma once
#include "model.h"
#include <rpp/thread.h>
namespace par {
using namespace t;

inline void relax(U& r, U level) { // a random pause; level 0 none, 1 short, 2 up to a fraction of a millisecond
    r = pbt::mix(r);
    if(level == 0) return;
    switch(r % (level == 1 ? 4 : 7)) {
    case 0: sched_yield(); break;
    case 1:
        for(volatile U i = 0; i < (r >> 8) % 64; i = i + 1) {}
        break;
    case 2:
        for(volatile U i = 0; i < (r >> 8) % 2000; i = i + 1) {}
        break;
    case 4: usleep((unsigned)((r >> 8) % 50)); break;
    case 5: usleep((unsigned)((r >> 8) % 300)); break;
    default: break;
    }
}
inline void nothing(int) {
}
inline void handle_signals() { // without SA_RESTART: waits are interrupted
    struct sigaction a = {};
    a.sa_handler = nothing;
    sigaction(SIGUSR1, &a, nullptr);
}

// Interrupts the registered threads at random until stopped.
struct Storm {
    std::vector<pthread_t> targets;
    std::atomic<bool> stop{false};
    U seed = 0;
    pthread_t th{};
    bool on = false;
    static void* go(void* p) {
        Storm& s = *(Storm*)p;
        U r = s.seed;
        while(!s.stop.load()) {
            r = pbt::mix(r);
            pthread_kill(s.targets[r % s.targets.size()], SIGUSR1);
            usleep((unsigned)((r >> 20) % 120));
        }
        return nullptr;
    }
    void start(U sd, std::vector<pthread_t> t) { // the targets must not be joined before end()
        handle_signals();
        seed = sd;
        targets = std::move(t);
        on = true;
        pthread_create(&th, nullptr, go, this);
    }
    void end() {
        if(!on) return;
        stop = true;
        pthread_join(th, nullptr);
        on = false;
    }
    ~Storm() {
        end();
    }
};

// Runs f(tid) on n threads released together.
struct Crew {
    struct One {
        Crew* c;
        U i;
    };
    std::function<void(U)> f;
    std::vector<One> ones;
    std::vector<pthread_t> th;
    pthread_barrier_t bar;
    std::atomic<U> running{0};
    static void* go(void* p) {
        One& o = *(One*)p;
        pthread_barrier_wait(&o.c->bar);
        o.c->f(o.i);
        o.c->running--;
        return nullptr;
    }
    Crew(U n, std::function<void(U)> fn) : f(std::move(fn)), ones(n), th(n) {
        pthread_barrier_init(&bar, nullptr, (unsigned)n);
        running = n;
        for(U i = 0; i < n; i++) {
            ones[i] = {this, i};
            if(pthread_create(&th[i], nullptr, go, &ones[i])) _exit(71);
        }
    }
    void wait() { // until all have finished, still joinable
        while(running.load()) usleep(20);
    }
    void join() {
        for(auto t : th) pthread_join(t, nullptr);
        th.clear();
        pthread_barrier_destroy(&bar);
    }
};
inline void run(U n, U storm, std::function<void(U)> f) {
    Crew c(n, std::move(f));
    Storm s;
    if(storm) s.start(storm, c.th);
    c.wait();
    s.end();
    c.join();
}
} // namespace par
