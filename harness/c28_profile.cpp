// C28: the profiler's timing tree mirrors the program's nesting and counts.
#include "par.h"
#include <mutex>
using namespace par;
using rpp::Profile;
using rpp::String_View;
using Node = Profile::Timing_Node;
namespace Log = rpp::Log;

// --- model of one thread's frames ---

struct Loc {
    std::string function, file;
    U line;
    bool operator==(const Loc& o) const {
        return function == o.function && file == o.file && line == o.line;
    }
};
struct M {
    Loc loc;
    U parent, calls = 0;
    std::vector<U> children;
    U heir_lo = 0, heir_hi = 0;              // bounds of the inclusive time
    U b0 = 0, b1 = 0, e0 = 0, e1 = 0;        // bounds of the last begin and end
};
struct Frame {
    std::vector<M> n;
    U at = 0;
};
static std::string str(String_View v) {
    return v.length() ? std::string((const char*)v.data(), v.length()) : std::string();
}
static std::string show(const Loc& l) {
    return l.function + (l.file.empty() ? "" : "@" + l.file + ":" + std::to_string(l.line));
}
// A copy of a node, as the iteration shows it.
struct Got {
    Loc loc;
    U begin, end, self, heir, calls, parent;
    std::vector<U> children;
};
static std::map<U, std::vector<Got>> snapshot() {
    std::map<U, std::vector<Got>> r;
    Profile::iterate_timings([&](rpp::Thread::Id id, const Node& n) {
        Got g{{str(n.loc.function), str(n.loc.file), n.loc.line}, n.begin, n.end, n.self_time, n.heir_time, n.calls, n.parent, {}};
        for(auto c : n.children) g.children.push_back(c);
        r[id].push_back(g);
    });
    return r;
}
static void consistent(const std::vector<Got>& g) {
    for(U i = 0; i < g.size(); i++) {
        auto& n = g[i];
        CHECK(n.begin <= n.end, "node %lu (%s) ends before it begins", i, show(n.loc).c_str());
        CHECK(n.parent < g.size() && (i == 0 || n.parent < i), "node %lu has the parent %lu", i, n.parent);
        U sum = 0;
        for(U c : n.children) {
            CHECK(c > i && c < g.size() && g[c].parent == i, "node %lu has the child %lu", i, c);
            sum += g[c].heir;
        }
        CHECK(sum <= n.heir, "the children of %s take %lu of its %lu", show(n.loc).c_str(), sum, n.heir);
        CHECK(n.self == n.heir - sum, "%s has the self time %lu instead of %lu - %lu", show(n.loc).c_str(), n.self, n.heir, sum);
        if(i == 0 || n.calls == 1) CHECK(n.heir == n.end - n.begin, "%s was called once, from %lu to %lu, but has the time %lu", show(n.loc).c_str(), n.begin, n.end, n.heir);
    }
}
static void same_shape(const std::vector<Got>& g, const Frame& f) {
    CHECK(g.size() == f.n.size(), "%zu nodes instead of %zu", g.size(), f.n.size());
    for(U i = 0; i < g.size(); i++) {
        auto &n = g[i];
        auto& m = f.n[i];
        CHECK(n.loc == m.loc, "node %lu is %s instead of %s", i, show(n.loc).c_str(), show(m.loc).c_str());
        CHECK(n.parent == m.parent, "%s has the parent %lu instead of %lu", show(m.loc).c_str(), n.parent, m.parent);
        CHECK(n.calls == m.calls, "%s has %lu calls instead of %lu", show(m.loc).c_str(), n.calls, m.calls);
        CHECK(n.children == m.children, "%s has other children (%zu instead of %zu)", show(m.loc).c_str(), n.children.size(), m.children.size());
    }
}
static void same_times(const std::vector<Got>& g, const Frame& f) {
    for(U i = 0; i < g.size(); i++) {
        auto &n = g[i];
        auto& m = f.n[i];
        CHECK(n.begin >= m.b0 && n.begin <= m.b1, "the begin of %s is %lu, not within %lu and %lu", show(m.loc).c_str(), n.begin, m.b0, m.b1);
        CHECK(n.end >= m.e0 && n.end <= m.e1, "the end of %s is %lu, not within %lu and %lu", show(m.loc).c_str(), n.end, m.e0, m.e1);
        CHECK(n.heir >= m.heir_lo && n.heir <= m.heir_hi, "%s took %lu, not within %lu and %lu", show(m.loc).c_str(), n.heir, m.heir_lo, m.heir_hi);
    }
}
struct Thread_Model {
    bool frame = false;
    std::vector<Frame> done;
    Frame now;
    U begun = 0, prev0 = 0, prev1 = 0; // when the previous frame began
    void begin() {
        U t0 = Profile::timestamp();
        float dt = Profile::begin_frame();
        U t1 = Profile::timestamp();
        if(begun == 0) CHECK(dt == 0.0f, "the first frame began %g after the one before", dt);
        else {
            double lo = Profile::s(t0 - prev1), hi = Profile::s(t1 - prev0);
            CHECK(dt >= lo * (1 - 1e-6) - 1e-9 && dt <= hi * (1 + 1e-6) + 1e-9, "a frame began %g s after the one before, not within %g and %g", dt, lo, hi);
        }
        begun++;
        prev0 = t0, prev1 = t1;
        now = {};
        M root{{"Frame", "", 0}, 0};
        root.calls = 1;
        root.b0 = t0, root.b1 = t1;
        now.n.push_back(root);
        frame = true;
    }
    void end() {
        U t0 = Profile::timestamp();
        Profile::end_frame();
        U t1 = Profile::timestamp();
        ended(t0, t1);
    }
    void ended(U t0, U t1) {
        M& r = now.n[0];
        r.e0 = t0, r.e1 = t1;
        r.heir_lo = t0 - r.b1, r.heir_hi = t1 - r.b0;
        done.push_back(now);
        if(done.size() > 2) done.erase(done.begin());
        frame = false;
    }
    void entered(const Loc& l, U t0, U t1) {
        if(!frame) return;
        U at = now.at, k = ~0ull;
        for(U c : now.n[at].children)
            if(now.n[c].loc == l) k = c;
        if(k == ~0ull) {
            k = now.n.size();
            now.n.push_back({l, at});
            now.n[at].children.push_back(k);
        }
        M& m = now.n[k];
        m.calls++;
        m.b0 = t0, m.b1 = t1;
        now.at = k;
    }
    void exited(U t0, U t1) {
        if(!frame || now.at == 0) return; // opened before the frame: not part of it
        M& m = now.n[now.at];
        m.e0 = t0, m.e1 = t1;
        m.heir_lo += t0 > m.b1 ? t0 - m.b1 : 0;
        m.heir_hi += t1 - m.b0;
        now.at = m.parent;
    }
    const Frame* shown() const {
        return done.empty() ? nullptr : &done.back();
    }
};
// Names: two copies of each, which mean the same.
static const char* NAMES[2][6] = {{"a", "b", "c", "Frame", "", "a long name, longer than any inline buffer would be"}, {"a", "b", "c", "Frame", "", "a long name, longer than any inline buffer would be"}};
static Loc loc_of(U k) {
    switch(k) {
    case 0: case 1: case 2: case 3: case 4: case 5: return {NAMES[0][k], "", 0};
    case 6: return {"a", "file.cpp", 1};
    case 7: return {"a", "file.cpp", 2};
    case 8: return {"a", "other.cpp", 1};
    case 9: return {"b", "file.cpp", 1};
    // call sites which differ from those in one small thing
    case 10: return {"a", "fild.cpp", 1};
    case 11: return {"a", "File.cpp", 1};
    case 12: return {"a", "file.cpq", 1};
    case 13: return {"a", "file.cpp", 1 + (1ul << 32)};
    case 14: return {"a", "file.cpp", 257};
    case 15: return {"", "file.cpp", 1};
    case 16: return {"file.cpp", "a", 1};
    case 17: return {"a long name, longer than any inline buffer would bE", "file.cpp", 1};
    case 18: return {"a long name, longer than any inline buffer would be", "file.cpp", 1};
    case 19: return {"A", "", 0};
    default: return {"aa", "", 0};
    }
}
static U site(Src& s) {
    return s.draw(s.chance(1, 4) ? 20 : 9);
}
static String_View view(const std::string& s) { // stays alive
    static std::mutex* m = new std::mutex;
    static auto* all = new std::array<std::set<std::string>, 2>;
    static U flip = 0;
    std::lock_guard<std::mutex> l(*m);
    auto& x = *(*all)[flip++ & 1].insert(s).first;
    return String_View{(const rpp::u8*)x.data(), x.size()};
}
static Log::Location location(const Loc& l) {
    return Log::Location{view(l.function), view(l.file), l.line};
}
static void do_enter(Thread_Model& m, U k) {
    Loc l = loc_of(k);
    if(l.file.empty()) {
        String_View v = view(l.function);
        U t0 = Profile::timestamp();
        Profile::enter(v);
        m.entered(l, t0, Profile::timestamp());
    } else {
        auto v = location(l);
        U t0 = Profile::timestamp();
        Profile::enter(rpp::move(v));
        m.entered(l, t0, Profile::timestamp());
    }
}
static void do_exit(Thread_Model& m) {
    U t0 = Profile::timestamp();
    Profile::exit();
    m.exited(t0, Profile::timestamp());
}
static void scoped(Thread_Model& m, U k, U depth, U width) { // the same through the macro, recursively
    U t0 = Profile::timestamp(), t1 = 0, t2 = 0;
    Trace(view(NAMES[0][k % 6])) {
        m.entered({NAMES[0][k % 6], "", 0}, t0, t1 = Profile::timestamp());
        for(U i = 0; depth && i < width; i++) scoped(m, k + i % 2, depth - 1, width);
        t2 = Profile::timestamp();
    }
    m.exited(t2, Profile::timestamp());
}
static void warm() { // tables that grow with the number of threads and allocators
    static pid_t done = 0;
    if(done == getpid()) return;
    done = getpid();
    pthread_barrier_t b;
    pthread_barrier_init(&b, nullptr, 24);
    run(24, 0, [&](U) {
        Profile::begin_frame();
        void* p = rpp::Mallocator<"profiled">::alloc(8);
        rpp::Mallocator<"profiled">::free(p);
        Profile::end_frame();
        pthread_barrier_wait(&b);
    });
    pthread_barrier_destroy(&b);
}
static void pause_a_little(U r) {
    U n = r % 8 == 0 ? r % 3000 : r % 50;
    for(U i = 0; i < n; i++) asm volatile("");
}

PROP(histories, 80000, 800000) {
    warm();
    i64 net0 = rpp::sys_net_allocs();
    U frames = 0, repeats = 0, deepest = 0, midframe = 0, end = 0, big = 0;
    U id = 0;
    run(1, 0, [&](U) {
        id = rpp::Thread::this_id();
        Thread_Model m;
        U left = s.limit(20, 60, 400), depth = 0, outside = 0;
        std::vector<void*> mem;
        auto look = [&] {
            auto all = snapshot();
            const Frame* f = m.shown();
            if(!f) CHECK(!all.count(id), "timings of a thread without a complete frame are shown");
            else {
                CHECK(all.count(id), "a complete frame is not shown");
                same_shape(all[id], *f);
                consistent(all[id]);
                same_times(all[id], *f);
            }
        };
        while(s.step(left)) {
            pause_a_little(left * 77);
            switch(s.pick({3, 8, 7, 2, 2, 1, 2, 1, 1})) {
            case 0:
                if(m.frame) break;
                NOTE("frame begins");
                m.begin();
                outside += depth, depth = 0;
                frames++;
                break;
            case 1: {
                if(!m.frame && outside > 6) break;
                if(depth > 12) break;
                U k = site(s);
                NOTE("enter %s", show(loc_of(k)).c_str());
                do_enter(m, k);
                if(m.frame) depth++;
                else outside++;
                deepest = std::max(deepest, depth);
                break;
            }
            case 2:
                if(depth) depth--;
                else if(outside) outside--;
                else break;
                NOTE("exit");
                do_exit(m);
                break;
            case 3:
                if(!m.frame || depth) break;
                NOTE("frame ends");
                m.end();
                break;
            case 4: look(); midframe += m.frame && m.shown(); break;
            case 5: { // a burst of calls of one path
                U k = site(s), n = s.draw(20);
                NOTE("%lu calls of %s", n, show(loc_of(k)).c_str());
                for(U i = 0; i < n; i++) {
                    do_enter(m, k);
                    pause_a_little(i * 13);
                    do_exit(m);
                }
                repeats += n > 1 && m.frame;
                break;
            }
            case 6: {
                U d = s.draw(3), w = s.draw(3);
                NOTE("scopes nested %lu deep, %lu wide", d, w);
                scoped(m, s.draw(5), d, w);
                break;
            }
            case 7: { // allocations are recorded with the frame
                if(mem.size() && s.coin()) rpp::Mallocator<"profiled">::free(mem.back()), mem.pop_back();
                else mem.push_back(rpp::Mallocator<"profiled">::alloc(s.range(1, 100)));
                break;
            }
            case 8: { // many frames: only the last ones are kept
                if(m.frame || depth) break;
                U n = s.draw(40), k = site(s);
                NOTE("%lu frames", n);
                for(U i = 0; i < n; i++) {
                    m.begin();
                    for(U j = 0; j < i % 4; j++) do_enter(m, (k + j) % 10);
                    for(U j = 0; j < i % 4; j++) do_exit(m);
                    m.end();
                }
                big += n > 20;
                frames += n;
                break;
            }
            }
        }
        for(void* p : mem) rpp::Mallocator<"profiled">::free(p);
        while(depth) do_exit(m), depth--;
        look();
        end = s.draw(2); // how the thread ends: as it is, or after completing its frame
        if(end && m.frame) m.end(), look();
        if(!m.frame) end = 1;
    });
    auto all = snapshot();
    CHECK(!all.count(id), "timings of a thread that ended are shown");
    CHECK(rpp::sys_net_allocs() == net0, "a thread that ended left %ld allocations", (long)(rpp::sys_net_allocs() - net0));
    if(frames > 1 && deepest > 1) pbt::nontrivial();
    if(repeats) pbt::label("repeated calls");
    if(midframe) pbt::label("looked at during a frame");
    if(!end) pbt::label("ended during a frame");
    if(big) pbt::label("many frames");
}

// Frames far larger than those above: wide, deep, with many calls, many allocations; and more of them.
PROP_F(large, 300, 4000, pbt::FEW) {
    warm();
    i64 net0 = rpp::sys_net_allocs();
    U how = s.pick({10, 10, 10, 10, 1}), n = how == 0 ? big_size(s, 9) : how >= 3 ? 0 : big_size(s, 12), x = s.draw(1 << 20), rounds = s.range(1, 2);
    std::vector<Loc> at;
    for(U i = 0; i < n; i++) {
        // siblings differ in the name, the file or the line
        switch(how == 0 ? x % 3 : 0) {
        case 0: at.push_back({"zone " + std::to_string(i), "", 0}); break;
        case 1: at.push_back({"zone", "file" + std::to_string(i), 7}); break;
        case 2: at.push_back({"zone", "file", i}); break;
        }
    }
    auto enter = [&](Thread_Model& m, const Loc& l) {
        U t0 = Profile::timestamp();
        Profile::enter(location(l));
        m.entered(l, t0, Profile::timestamp());
    };
    run(1, 0, [&](U) {
        U id = rpp::Thread::this_id();
        Thread_Model m;
        auto look = [&] {
            auto all = snapshot();
            CHECK(all.count(id), "a complete frame is not shown");
            same_shape(all[id], *m.shown());
            consistent(all[id]);
            same_times(all[id], *m.shown());
        };
        switch(how) {
        case 0: // many sites under one
        case 1: // each inside of the one before
            m.begin();
            for(U r = 0; r < rounds; r++) {
                for(U i = 0; i < n; i++) {
                    enter(m, at[how ? i : (i * 7 + x) % n]);
                    if(how == 0) do_exit(m);
                }
                if(how == 1)
                    for(U i = 0; i < n; i++) do_exit(m);
            }
            m.end();
            look();
            break;
        case 2: { // many calls and allocations
            m.begin();
            std::vector<void*> mem;
            enter(m, {"outer", "", 0});
            for(U i = 0; i < n; i++) {
                do_enter(m, (x + i) % 5);
                mem.push_back(rpp::Mallocator<"profiled">::alloc(1 + i % 50));
                do_exit(m);
            }
            for(void* p : mem) rpp::Mallocator<"profiled">::free(p);
            do_exit(m);
            m.end();
            look();
            break;
        }
        case 4: { // tens of thousands of calls of one zone
            U calls = 65530 + x % 5000;
            m.begin();
            do_enter(m, 1);
            for(U i = 0; i < calls; i++) do_enter(m, 0), do_exit(m);
            do_exit(m);
            m.end();
            look();
            break;
        }
        case 3: { // what past frames hold does not grow with their number
            U frames = 600 + x % 600, k = x % 4;
            i64 first = 0;
            for(U i = 0; i < 2 * frames; i++) {
                m.begin();
                for(U j = 0; j <= k; j++) do_enter(m, j);
                rpp::Mallocator<"profiled">::free(rpp::Mallocator<"profiled">::alloc(8));
                for(U j = 0; j <= k; j++) do_exit(m);
                m.end();
                if(i + 1 == frames) first = rpp::sys_net_allocs();
            }
            i64 more = rpp::sys_net_allocs() - first;
            CHECK(more < (i64)frames / 4, "%lu more frames hold %ld more blocks", frames, (long)more);
            look();
            break;
        }
        }
    });
    CHECK(rpp::sys_net_allocs() == net0, "a thread that ended left %ld allocations", (long)(rpp::sys_net_allocs() - net0));
    pbt::nontrivial();
    static const char* ls[] = {"wide", "deep", "many calls", "many frames", "very many calls"};
    pbt::label(ls[how]);
}

// Random structure of frame k of thread t; the same in the model and in the program.
static void play(Thread_Model* model, bool real, U seed, U depth, U budget) {
    U r = pbt::mix(seed), n = 1 + r % 4;
    for(U i = 0; i < n && budget; i++) {
        r = pbt::mix(r);
        U k = r % 5;
        if(real) {
            Trace(view(NAMES[0][k])) {
                if(depth) play(model, real, r % 3 == 0 ? seed : r, depth - 1, budget - 1);
            }
        } else {
            model->entered({NAMES[0][k], "", 0}, 0, 0);
            if(depth) play(model, real, r % 3 == 0 ? seed : r, depth - 1, budget - 1);
            model->exited(0, 0);
        }
    }
}
static std::string frame_name(U t, U k) {
    return "t" + std::to_string(t) + "f" + std::to_string(k);
}
static Frame expected(U seed, U t, U k) {
    Thread_Model m;
    m.frame = true;
    M root{{"Frame", "", 0}, 0};
    root.calls = 1;
    m.now.n.push_back(root);
    m.entered({frame_name(t, k), "", 0}, 0, 0);
    m.exited(0, 0);
    play(&m, false, pbt::mix(seed + t * 1000 + k), 3, 4);
    return m.now;
}
PROP_F(threads, 3000, 40000, pbt::FEW | pbt::NONDET) {
    warm();
    i64 net0 = rpp::sys_net_allocs();
    U n = s.range(1, 6), frames = s.limit(4, 20, 60), seed = s.draw(1 << 30), storm = s.coin() ? seed + 1 : 0, level = s.draw(2), seen = 0;
    NOTE("%lu threads of up to %lu frames%s", n, frames, storm ? ", interrupted" : "");
    {
        pbt::Deadline dl(25, "profiled threads");
        std::vector<std::atomic<U>> ids(n), finished(n);
        std::atomic<U> running{n};
        run(n + 1, storm, [&](U me) {
            U rnd = seed + me;
            if(me < n) {
                ids[me] = rpp::Thread::this_id();
                U mine = 1 + pbt::mix(seed + me) % frames;
                bool cut = pbt::mix(seed * 3 + me) % 3 == 0; // ends during its last frame
                for(U k = 0; k < mine; k++) {
                    Profile::begin_frame();
                    Trace(view(frame_name(me, k))) {
                    }
                    play(nullptr, true, pbt::mix(seed + me * 1000 + k), 3, 4);
                    relax(rnd, level);
                    if(cut && k + 1 == mine) break;
                    Profile::end_frame();
                    finished[me]++;
                    if(rnd % 4 == 0) relax(rnd, level);
                }
                running--;
                return;
            }
            std::map<U, U> last;
            while(true) {
                bool end = running == 0;
                std::vector<U> low(n);
                for(U t = 0; t < n; t++) low[t] = finished[t];
                auto all = snapshot();
                for(auto& [id, g] : all) {
                    consistent(g);
                    CHECK(g.size() > 1, "an incomplete frame is shown");
                    U t = 0, k = 0;
                    CHECK(sscanf(g[1].loc.function.c_str(), "t%luf%lu", &t, &k) == 2 && t < n, "a frame of no thread is shown: %s", g[1].loc.function.c_str());
                    CHECK(ids[t] == id, "the frame of thread %lu is shown for another", t);
                    CHECK(!last.count(t) || k >= last[t], "frame %lu of thread %lu is shown after frame %lu", k, t, last[t]);
                    CHECK(k + 1 >= low[t], "frame %lu of thread %lu is shown, which had completed %lu", k, t, low[t]);
                    last[t] = k;
                    same_shape(g, expected(seed, t, k));
                    seen++;
                }
                if(end) break;
                relax(rnd, level);
            }
        });
    }
    CHECK(snapshot().empty(), "timings of a thread that ended are shown");
    CHECK(rpp::sys_net_allocs() == net0, "threads that ended left %ld allocations", (long)(rpp::sys_net_allocs() - net0));
    if(seen > n) pbt::nontrivial();
}

// --- threads in other orders, misuse, times ---

PROP(misuse, 1500, 10000) {
    U depth = s.draw(4), k = s.draw(2);
    NOTE("misuse %lu with %lu open scopes", k, depth);
    auto in = [&](U d) {
        Profile::begin_frame();
        for(U i = 0; i < d; i++) Profile::enter("x"_v);
    };
    switch(k) {
    case 0: EXPECT_DIES("a frame within a frame", in(depth); Profile::begin_frame()); break;
    case 1: EXPECT_DIES("the end of no frame", Profile::end_frame()); break;
    case 2: EXPECT_DIES("the end of a frame with open scopes", in(depth + 1); Profile::end_frame()); break;
    }
    pbt::nontrivial();
}
PROP(durations, 100000, 1000000) {
    U d = s.bits(62), f = rpp::Thread::perf_frequency();
    CHECK(f > 0, "the clock does not advance");
    double want = (double)d / (double)f;
    double a = Profile::s(d), b = Profile::ms(d);
    CHECK(fabs(a - want) <= want * 1e-6, "%lu ticks are %g s instead of %g", d, a, want);
    CHECK(fabs(b - want * 1e3) <= want * 1e-3, "%lu ticks are %g ms instead of %g", d, b, want * 1e3);
    U x = Profile::timestamp(), y = Profile::timestamp();
    CHECK(x <= y, "time went back from %lu to %lu", x, y);
    if(s.chance(1, 5000)) {
        timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        U p = Profile::timestamp();
        usleep(2000);
        U q = Profile::timestamp();
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double wall = (double)(t1.tv_sec - t0.tv_sec) * 1e3 + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-6, g = Profile::ms(q - p);
        CHECK(g >= 1.99 && g <= wall * 1.001 + 0.001, "a pause of 2 to %g ms was measured as %g ms", wall, g);
    }
    pbt::nontrivial();
}
