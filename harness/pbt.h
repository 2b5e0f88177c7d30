// Small choice-sequence property-based testing engine. Every random decision of a case is drawn through
// Src::draw, recorded, and can be replayed and shrunk. No dependency on rpp; include before rpp headers.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

using U = uint64_t;

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace;
void note_impl(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Count a class of case (static string); at most once per call.
void label(const char* name);
// Marks the current case as non-trivial.
void nontrivial();
bool thorough();
// A scratch directory private to this worker process, wiped with the run.
const char* scratch();

inline U mix(U x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Src {
    // recorded choices live in memory shared with the parent
    U* buf = nullptr;
    U* count = nullptr;
    U cap = 0;
    const U* replay = nullptr;
    U replay_n = 0;
    U s[2] = {};

    U next() {
        U a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    // uniform in [0, max]; shrinks towards 0
    U draw(U max) {
        U i = *count, v;
        if(i >= cap) return 0;
        if(replay) {
            v = i < replay_n ? replay[i] : 0;
            if(v > max) v = max;
        } else if(max == ~0ull) {
            v = next();
        } else {
            v = (U)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64);
        }
        buf[i] = v;
        *count = i + 1;
        return v;
    }
    U range(U lo, U hi) {
        return lo + draw(hi - lo);
    }
    int64_t irange(int64_t lo, int64_t hi) { // shrinks towards lo
        return (int64_t)((U)lo + draw((U)hi - (U)lo));
    }
    bool chance(U num, U den) { // true with probability num/den, shrinks to false
        return draw(den - 1) >= den - num;
    }
    bool coin() {
        return draw(1) == 1;
    }
    // index by weight; earlier alternatives are simpler
    U pick(std::initializer_list<unsigned> w) {
        U total = 0;
        for(auto x : w) total += x;
        U v = draw(total - 1), i = 0;
        for(auto x : w) {
            if(v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }
    template<typename T>
    T of(std::initializer_list<T> xs) {
        return xs.begin()[draw(xs.size() - 1)];
    }
    // Size of a history: mostly short, sometimes long. Use with step().
    U limit(U small, U medium, U large) {
        U c = pick({4, 4, 2});
        return c == 0 ? range(1, small) : c == 1 ? range(1, medium) : range(1, large);
    }
    // Loop guard: consumes one choice, 0 ends the history (so that shrinking can end it early).
    bool step(U& left) {
        if(left == 0) return false;
        left--;
        return draw(255) != 0;
    }
    // integers with strong boundary bias, in [0, 2^bits)
    U bits(unsigned nbits) {
        U mask = nbits >= 64 ? ~0ull : ((1ull << nbits) - 1);
        switch(pick({4, 2, 3, 3})) {
        case 0: return draw(16) & mask;
        case 1: return (mask - draw(8)) & mask;
        case 2: {
            U k = draw(nbits - 1);
            U p = 1ull << k;
            return (p + draw(4) - 2) & mask;
        }
        default: return draw(mask);
        }
    }
    std::string bytes(U maxlen) {
        U n = draw(maxlen);
        std::string r;
        for(U i = 0; i < n; i++) r += (char)draw(255);
        return r;
    }
};

struct Prop {
    const char* name;
    U quick, thorough;
    void (*fn)(Src&);
    unsigned flags;
    Prop(const char* n, U q, U t, void (*f)(Src&), unsigned fl);
};
enum : unsigned {
    DETERMINISTIC = 0,
    NONDET = 1,   // schedules differ between runs: no shrinking by default, oracle failures count at once
    FEW = 2,      // multi-threaded cases: two worker processes only
    ONE = 4,      // one worker process only
    ISOLATED = 8, // every case in its own forked process
};

// How a child process running `f` ended.
struct Death {
    bool trapped;  // the library's fatal path (SIGTRAP)
    bool completed; // f returned
    int status;
    std::string out; // captured stdout (only with want_output)
};
Death run_child(const std::function<void()>& f, bool want_output = false, double timeout_s = 30);

// While it lives, the case must finish within `seconds` of this process's own running time ticks (stopped or
// starved processes do not count); otherwise the case fails with "still blocked".
struct Deadline {
    Deadline(double seconds, const char* what);
    ~Deadline();
    Deadline(const Deadline&) = delete;
};

// Live blocks allocated through malloc by this process (ASan hook).
int64_t live_mallocs();

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP_F(name, quick, thorough, flags)                                                       \
    static void prop_##name(pbt::Src&);                                                            \
    static pbt::Prop prop_reg_##name(#name, quick, thorough, prop_##name, flags);                  \
    static void prop_##name([[maybe_unused]] pbt::Src& s)
#define PROP(name, quick, thorough) PROP_F(name, quick, thorough, 0)

#define NOTE(...)                                                                                  \
    do {                                                                                           \
        if(pbt::g_trace) pbt::note_impl(__VA_ARGS__);                                              \
    } while(0)
#define CHECK(c, ...)                                                                              \
    do {                                                                                           \
        if(!(c)) pbt::fail(__VA_ARGS__);                                                           \
    } while(0)
#define EXPECT_DIES(what, ...)                                                                     \
    do {                                                                                           \
        pbt::Death d_ = pbt::run_child([&]() { __VA_ARGS__; });                                    \
        if(!d_.trapped)                                                                            \
            pbt::fail("%s did not end in the library's fatal error path (status %x, %s)", what,    \
                      (unsigned)d_.status, d_.completed ? "it completed silently" : "it crashed"); \
    } while(0)
