"""Planted bugs: threads, coroutines, files, network, logging, profiling, misuse, reflection, accounting (C21-C31)."""
from bugs_common import ASAN, TOK
THR = r'''#include <pthread.h>
#include <unistd.h>
template<typename F> static pthread_t go(F* f) { pthread_t t; pthread_create(&t, 0, [](void* p) -> void* { (*(F*)p)(); return 0; }, f); return t; }
static void nap(int ms) { usleep(ms * 1000); }
'''
FIL = r'''#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/wait.h>
'''
COR = r'''#include <unistd.h>
#include <dirent.h>
'''
BUGS = [
 dict(id="C24-fd-alias", property="C24", inc=["async.h"],
  edits=[("rpp/pos/async_pos.cpp", "if(events[i].fd == ev.data.fd) {", "if(static_cast<u8>(events[i].fd) == static_cast<u8>(ev.data.fd)) {")],
  needs="more than 256 events waited on at once, of which a later one is signalled", breaks="waiting reports an event that was not signalled",
  demo=r"""#include <sys/resource.h>
int main() { rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = l.rlim_max < 4096 ? l.rlim_max : 4096; setrlimit(RLIMIT_NOFILE, &l);
  Vec<Async::Event> v; for(int i = 0; i < 400; i++) v.push(Async::Event{}); for(u64 k : {0ul, 100ul, 255ul, 300ul, 399ul}) { v[k].signal(); OK(Async::Event::wait_any(v.slice()) == k); v[k].reset(); } return 0; }"""),
 dict(id="C24-timer-second", property="C24", inc=["asyncio.h"],
  edits=[("rpp/pos/asyncio_pos.cpp", "spec.it_value.tv_nsec = (ms % 1000) * 1000000;", "spec.it_value.tv_nsec = ms < 1000 ? ms * 1000000 : 0;")],
  needs="a timer of more than a second that is not a whole number of seconds", breaks="the coroutine resumes up to a second early",
  demo=COR + r"""#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main() { Async::Pool<> p; double t = now(); auto w = [](Async::Pool<>& p) -> Async::Task<void> { co_await Async::wait(p, 1700); }; auto x = w(p); x.block(); OK(now() - t > 1.69); return 0; }"""),
 dict(id="C21-flag-one", property="C21", inc=["thread.h"],
  edits=[("rpp/pos/thread_pos.cpp", "FUTEX_WAKE, RPP_INT32_MAX, NULL", "FUTEX_WAKE, 1, NULL")],
  needs="more than one thread blocked on a flag when it is signalled", breaks="only one of the waiters wakes up",
  demo=THR + r'''int main() { static Thread::Flag f; static Thread::Atomic n; auto w = [] { f.block(); n.incr(); }; for(int i = 0; i < 4; i++) (void)go(&w);
  nap(500); f.signal(); for(int i = 0; i < 100 && n.load() < 4; i++) nap(50); OK(n.load() == 4); _Exit(0); }'''),
 dict(id="C21-lost-decr", property="C21", inc=["thread.h"], timeout=120,
  edits=[("rpp/pos/thread_pos.cpp", "    return __atomic_fetch_sub(&value_, 1, __ATOMIC_SEQ_CST) - 1;", "    i64 next = __atomic_load_n(&value_, __ATOMIC_SEQ_CST) - 1;\n    __atomic_store_n(&value_, next, __ATOMIC_SEQ_CST);\n    return next;")],
  needs="two threads decrementing the same atomic at the same moment", breaks="a decrement is lost",
  demo=THR + r"""int main() { static const int N = 2000000; static Thread::Atomic a{4 * N}; auto w = [] { for(int k = 0; k < N; k++) a.decr(); };
  pthread_t t[4]; for(int i = 0; i < 4; i++) t[i] = go(&w); for(int i = 0; i < 4; i++) pthread_join(t[i], 0); OK(a.load() == 0); return 0; }"""),
 dict(id="C21-broadcast", property="C21", inc=["thread.h"],
  edits=[("rpp/pos/thread_pos.cpp", "pthread_cond_broadcast(", "pthread_cond_signal(")],
  needs="a broadcast while several threads wait", breaks="only one of the waiters proceeds",
  demo=THR + r'''int main() { static Thread::Mutex m; static Thread::Cond c; static bool gone = false; static Thread::Atomic n, in;
  auto w = [] { Thread::Lock l(m); in.incr(); while(!gone) c.wait(m); n.incr(); }; for(int i = 0; i < 4; i++) (void)go(&w);
  while(in.load() < 4) nap(10); { Thread::Lock l(m); gone = true; c.broadcast(); } for(int i = 0; i < 100 && n.load() < 4; i++) nap(50); OK(n.load() == 4); _Exit(0); }'''),
 dict(id="C22-assign-detaches", property="C22", inc=["thread.h"],
  edits=[("rpp/thread.h", "        this->~Thread();\n        thread = src.thread;", "        if(thread) detach();\n        thread = src.thread;")],
  needs="assigning over a handle whose thread still runs", breaks="the old thread is not waited for",
  demo=THR + r'''int main() { static Thread::Atomic done; { Thread::Thread<> a{[] { nap(300); done.incr(); }}; Thread::Thread<> b{[] {}}; a = move(b); OK(done.load() == 1); } return 0; }'''),
 dict(id="C22-fill-early", property="C22", inc=["thread.h"],
  edits=[("rpp/thread.h", "        value = rpp::move(val);\n        flag.signal();", "        flag.signal();\n        value = rpp::move(val);")],
  needs="a waiter that is quicker than the store of the result", breaks="the waiter may read the value before it is there",
  demo=THR + r'''struct Slow { int v = 0; Slow() noexcept = default; Slow(int v) noexcept : v(v) {} Slow(Slow&& o) noexcept : v(o.v) {} Slow& operator=(Slow&& o) noexcept { nap(200); v = o.v; return *this; } };
int main() { auto f = Thread::spawn([]() { nap(50); return Slow{7}; }); OK(f->block().v == 7); nap(300); return 0; }'''),
 dict(id="C23-drop-race", property="C23", inc=["async.h"], timeout=120,
  edits=[("rpp/async.h", "            auto state = handle.promise().state.exchange(TASK_ABANDONED);\n            if(state == TASK_DONE) {", "            auto state = handle.promise().state.load();\n            if(state == TASK_START) state = handle.promise().state.exchange(TASK_ABANDONED), state = TASK_START;\n            if(state == TASK_DONE) {")],
  needs="dropping a task at the moment its body finishes on another thread", breaks="neither side frees the coroutine frame",
  demo=THR + r'''static Thread::Atomic at, live; static std::coroutine_handle<> held;
struct Tok { Tok() { live.incr(); } ~Tok() { live.decr(); } };
struct Hold { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { held = h; } void await_resume() noexcept {} };
static Async::Task<void> body() { co_await Hold{}; }
static volatile int spin;
int main() { static const int N = 400000; i64 before = sys_net_allocs(); static Thread::Atomic done; auto w = [] { for(int i = 0; i < N; i++) { while(at.load() != i + 1) {} for(int k = 0; k < (i & 63); k++) spin = k; held.resume(); done.incr(); } };
  pthread_t t = go(&w); for(int i = 0; i < N; i++) { auto x = body(); at.exchange(i + 1); for(int k = 0; k < ((i >> 6) & 127); k++) spin = k; { auto y = move(x); } while(done.load() != i + 1) {} } pthread_join(t, 0); OK(sys_net_allocs() == before); _Exit(0); }'''),
 dict(id="C23-assign-leaks", property="C23", inc=["async.h"],
  edits=[("rpp/async.h", "        this->~Task();\n        handle = src.handle;", "        if(handle && done()) this->~Task();\n        handle = src.handle;")],
  needs="assigning over a task that is suspended, and letting its body finish afterwards", breaks="the frame of the old task is never freed",
  demo=THR + r'''static std::coroutine_handle<> held; struct Hold { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { held = h; } void await_resume() noexcept {} };
static Async::Task<int> body() { co_await Hold{}; co_return 3; } static Async::Task<int> quick() { co_return 4; }
int main() { { auto w = body(); held.resume(); auto x = quick(), y = quick(); } i64 before = sys_net_allocs(); { auto a = body(); auto h = held; a = quick(); h.resume(); OK(a.block() == 4); } OK(sys_net_allocs() == before); return 0; }'''),
 dict(id="C23-value-late", property="C23", inc=["async.h"],
  edits=[("rpp/async.h", "        value = val;\n        this->flag.signal();", "        this->flag.signal();\n        value = val;")],
  needs="a thread that blocks on a task which returns an lvalue, and wakes before the copy is made", breaks="the blocking caller receives an old value",
  demo=THR + r'''struct Slow { int v = 0; Slow() noexcept = default; Slow(int v) noexcept : v(v) {} Slow(const Slow&) noexcept = default; Slow(Slow&& o) noexcept : v(o.v) {} Slow& operator=(const Slow& o) noexcept { nap(200); v = o.v; return *this; } Slow& operator=(Slow&& o) noexcept { v = o.v; return *this; } };
static std::coroutine_handle<> held; struct Hold { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { held = h; } void await_resume() noexcept {} };
static const Slow five{5}; static Async::Task<Slow> body() { co_await Hold{}; co_return five; }
int main() { auto t = body(); auto w = [] { nap(50); held.resume(); }; pthread_t th = go(&w); OK(t.block().v == 5); pthread_join(th, 0); return 0; }'''),
 dict(id="C24-wrong-pair", property="C24", inc=["pool.h"],
  edits=[("rpp/pool.h", "                    swap(pending_event_jobs[idx - 1], pending_event_jobs.back());", "                    if(pending_event_jobs.length() > 3) swap(pending_event_jobs[idx - 1], pending_event_jobs.back());")],
  needs="exactly two or three events pending of which one that is not the last is signalled first", breaks="an event drops the coroutine of another one and is delivered twice itself",
  demo=COR + r"""#include <sys/epoll.h>
#include <sys/eventfd.h>
static Thread::Atomic hits[3];
static Async::Task<void> wait_for(Async::Pool<>& p, int i, int fd) { co_await p.event(Async::Event::of_sys(dup(fd), EPOLLIN)); hits[i].incr(); }
int main() { Async::Pool<> p; Vec<Async::Task<void>> t; int fd[3]; for(int i = 0; i < 3; i++) { fd[i] = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK); t.push(wait_for(p, i, fd[i])); usleep(100000); }
  u64 one = 1; int order[3] = {0, 1, 2}; for(int k = 0; k < 3; k++) { OK(write(fd[order[k]], &one, 8) == 8); for(int w = 0; w < 100 && hits[order[k]].load() == 0; w++) usleep(20000); for(int j = 0; j < 3; j++) OK(hits[j].load() == (j <= k ? 1 : 0)); }
  _Exit(0); }"""),
 dict(id="C24-lost-enqueue", property="C24", inc=["asyncio.h"], timeout=200,
  edits=[("rpp/pool.h", "            Thread::Lock lock(events_mut);\n            if(idx == 0) {\n                if(shutdown.load()) return;\n\n                for(auto& [event, state] : events_to_enqueue) {\n                    pending_events.push(rpp::move(event));\n                    pending_event_jobs.push(rpp::move(state));\n                }\n                events_to_enqueue.clear();\n\n                pending_events[0].reset();\n            } else {\n",
          "            if(idx == 0) {\n                {\n                    Thread::Lock lock(events_mut);\n                    if(shutdown.load()) return;\n\n                    for(auto& [event, state] : events_to_enqueue) {\n                        pending_events.push(rpp::move(event));\n                        pending_event_jobs.push(rpp::move(state));\n                    }\n                    events_to_enqueue.clear();\n                }\n                pending_events[0].reset();\n            } else {\n                Thread::Lock lock(events_mut);\n")],
  needs="a coroutine that starts to wait for an event just after the event thread took the queue and before it resets its wake-up", breaks="the event is never looked at, so the coroutine is not resumed",
  demo=COR + THR + r'''static Thread::Atomic hits; static Thread::Atomic phase; static Async::Pool<>* pool;
static Async::Task<void> one() { co_await Async::wait(*pool, 1); hits.incr(); }
int main() { pool = new Async::Pool<>; static const int T = 6, N = 3000; struct W { void operator()() { for(int i = 1; i <= N; i++) { while(phase.load() < i) {} { auto t = one(); t.block(); } hits.incr(); } } };
  static W w[T]; for(auto& x : w) (void)go(&x); for(int i = 1; i <= N; i++) { phase.incr(); int k = 0; while(hits.load() < (i64)2 * T * i && k < 200000) { usleep(50); k++; } OK(hits.load() == (i64)2 * T * i); } _Exit(0); }'''),
 dict(id="C24-event-counts", property="C24", inc=["async.h"],
  edits=[("rpp/pos/async_pos.cpp", "eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK)", "eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE)")],
  needs="an event signalled twice before it is reset", breaks="a reset event still reports as signalled",
  demo=r'''int main() { Async::Event e; e.signal(); e.signal(); OK(e.try_wait()); e.reset(); OK(!e.try_wait()); e.signal(); OK(e.try_wait()); e.reset(); OK(!e.try_wait()); return 0; }'''),
 dict(id="C25-watch-missing", property="C25", inc=["files.h"],
  edits=[("rpp/files.h", "        if(!time.ok()) return false;", "        if(!time.ok()) {\n            last_write_time_ = 0;\n            return false;\n        }")],
  needs="a watched file that is missing at one poll and back, unmodified, at the next", breaks="a change is reported although the modification time never changed",
  demo=FIL + r'''int main() { u8 b[3] = {1, 2, 3}; OK(Files::write("wf"_v, Slice<const u8>{b, 3})); Files::Write_Watcher w{"wf"_v}; OK(!w.poll()); OK(!rename("wf", "wg")); OK(!w.poll()); OK(!rename("wg", "wf")); bool again = w.poll(); unlink("wf"); OK(!again); return 0; }'''),
 dict(id="C25-stat-view", property="C25", inc=["files.h"],
  edits=[("rpp/pos/files_pos.cpp", "        auto path = path_.terminate<Mregion<R>>();\n\n        struct stat info;\n        if(stat(reinterpret_cast<const char*>(path.data()), &info)) {", "        struct stat info;\n        if(stat(reinterpret_cast<const char*>(path_.data()), &info)) {")],
  needs="asking for the write time of a path that is part of a longer string", breaks="the time of another file, or none, is returned",
  demo=FIL + r'''int main() { u8 b[3] = {1, 2, 3}; OK(Files::write("wf"_v, Slice<const u8>{b, 3})); bool ok = Files::last_write_time("wf.bak"_v.sub(0, 2)).ok(); unlink("wf"); OK(ok); return 0; }'''),
 dict(id="C25-late-open", property="C25", inc=["files.h"],
  edits=[("rpp/files.h", "        bool ret = before(last_write_time_, *time);\n        last_write_time_ = *time;", "        bool ret = before(last_write_time_, *time);\n        if(!ret || last_write_time_) last_write_time_ = *time;")],
  needs="a watcher made before its file exists", breaks="the first write of the file is reported at every poll",
  demo=FIL + r'''int main() { u8 b[3] = {1, 2, 3}; unlink("wf"); Files::Write_Watcher w{"wf"_v}; OK(!w.poll()); OK(Files::write("wf"_v, Slice<const u8>{b, 3})); bool a = w.poll(), c = w.poll(); unlink("wf"); OK(a); OK(!c); return 0; }'''),
 dict(id="C26-last-byte", property="C26", inc=["net.h"],
  edits=[("rpp/pos/net_pos.cpp", "::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT", "::recvfrom(fd, in.begin(), in.capacity - 1, MSG_DONTWAIT")],
  needs="a datagram that fills the packet completely", breaks="its last byte is not delivered",
  demo=FIL + r'''int main() { Net::Udp a, b; u16 port = 20000 + getpid() % 20000; b.bind(Net::Address{"127.0.0.1"_v, port}); Net::Packet p, q; for(u64 i = 0; i < p.capacity; i++) p[i] = (u8)(i * 7 + 1), q[i] = 0;
  OK(a.send(Net::Address{"127.0.0.1"_v, port}, p, p.capacity) == p.capacity); Opt<Net::Udp::Data> r; for(int i = 0; i < 200 && !r.ok(); i++) { r = b.recv(q); usleep(5000); } OK(r.ok() && r->length == p.capacity); for(u64 i = 0; i < p.capacity; i++) OK(q[i] == p[i]); return 0; }'''),
 dict(id="C26-moved-fd", property="C26", inc=["net.h"],
  edits=[("rpp/pos/net_pos.cpp", ("    fd = src.fd;\n    src.fd = -1;\n", 1), "    fd = dup(src.fd);\n")],
  needs="moving a socket and counting descriptors, or binding its port again after the new owner is gone", breaks="the moved-from socket keeps the descriptor open",
  demo=FIL + r'''int main() { Net::Udp a; int probe = open("/dev/null", O_RDONLY); Net::Udp b{move(a)}; int next = open("/dev/null", O_RDONLY); OK(next == probe + 1); close(next); close(probe); return 0; }'''),
 dict(id="C27-indent-shared", property="C27", inc=["log_callback.h"],
  edits=[("rpp/impl/log.cpp", "static thread_local u64 g_log_indent = 0;", "static u64 g_log_indent = 0;")],
  needs="one thread logging while another is inside an indentation scope", breaks="the indentation of one thread shows in the messages of another",
  demo=THR + r'''int main() { auto w = [] { info("plain"); }; Log_Indent { pthread_t t = go(&w); pthread_join(t, 0); } FILE* f = fopen("debug.log", "r"); char b[400]; bool seen = false; while(fgets(b, 400, f)) if(char* p = strstr(b, "plain")) { seen = true; OK(p[-2] == ':' || strncmp(p - 2, ": ", 2) == 0); } OK(seen); return 0; }'''),
 dict(id="C27-token-reuse", property="C27", inc=["log_callback.h"],
  edits=[("rpp/impl/log.cpp", "    Token t = g_log_data.next++;\n", "    Token t = g_log_data.next = g_log_data.callbacks.length() + 1;\n")],
  needs="unsubscribing an earlier subscriber and subscribing a new one while a later one is still live", breaks="the new subscriber takes the token of a live one, which is never called again",
  demo=r'''int main() { static int a, b, c; auto t1 = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { a++; }); auto t2 = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { b++; });
  Log::unsubscribe(t1); auto t3 = Log::subscribe([](Log::Level, Thread::Id, Log::Time, Log::Location, String_View) { c++; }); info("x"); OK(a == 0 && b == 1 && c == 1); OK(t2 != t3); Log::unsubscribe(t2); Log::unsubscribe(t3); return 0; }'''),
 dict(id="C27-unflushed", property="C27", inc=[],
  edits=[("rpp/impl/log.cpp", "        fflush(g_log_data.file);", "        if(level != Level::fatal) fflush(g_log_data.file);")],
  needs="reading the log file after a fatal error stopped the process", breaks="the fatal error itself is not in the log file",
  demo=FIL + r'''int main() { fflush(0); pid_t p = fork(); if(!p) { die("the end %", 7); _Exit(0); } int st; waitpid(p, &st, 0); FILE* f = fopen("debug.log", "r"); char b[400]; bool seen = false; while(fgets(b, 400, f)) seen |= strstr(b, "the end 7") != 0; OK(seen); return 0; }'''),
 dict(id="C28-loc-file", property="C28", inc=[],
  edits=[("rpp/log.h", "return function == other.function && file == other.file && line == other.line;", "return function == other.function && line == other.line && file.length() == other.file.length();")],
  needs="scopes in two files of equally long names with the same function name and line", breaks="two call sites share one node of the timing tree",
  demo=r'''int main() { Profile::begin_frame(); Profile::enter(Log::Location{"f"_v, "a.cpp"_v, 7}); Profile::exit(); Profile::enter(Log::Location{"f"_v, "b.cpp"_v, 7}); Profile::exit(); Profile::end_frame(); u64 n = 0; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node&) { n++; }); OK(n == 3); return 0; }'''),
 dict(id="C28-last-call", property="C28", inc=[],
  edits=[("rpp/impl/profile.cpp", "    node.heir_time += node.end - node.begin;", "    node.heir_time = node.end - node.begin;")],
  needs="a scope that is entered more than once in a frame", breaks="only the last call counts, so children can take longer than their parent",
  demo=THR + r'''int main() { Profile::begin_frame(); for(int i = 0; i < 2; i++) { Trace("p") { if(i == 0) { Trace("c") { nap(30); } } } } Profile::end_frame(); u64 p = 0, c = 0; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node& n) { if(n.loc.function == "p"_v) p = n.heir_time; if(n.loc.function == "c"_v) c = n.heir_time; }); OK(c >= 20000000 && p >= c); return 0; }'''),
 dict(id="C28-drop-frame", property="C28", inc=[],
  edits=[("rpp/impl/profile.cpp", "    if(!prof.frames.empty() && prof.frames.full()) {\n        prof.frames.pop();\n    }\n", "    if(prof.frames.length() > 1 && prof.frames.full()) {\n        prof.frames.clear();\n    }\n")],
  needs="more frames than the record holds, looked at during a frame", breaks="all completed frames vanish now and then",
  demo=r'''int main() { for(int i = 0; i < 100; i++) { Profile::begin_frame(); if(i) { u64 n = 0; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node&) { n++; }); OK(n == 2); } Trace("x") {} Profile::end_frame(); } return 0; }'''),
 dict(id="C29-array-end", property="C29", inc=[],
  edits=[("rpp/array.h", ("        assert(idx < N);", 2), "        assert(idx <= N);")],
  needs="indexing a constant array at its length", breaks="the element behind the end is read silently",
  demo=FIL + r'''int main() { fflush(0); pid_t p = fork(); if(!p) { static const Array<u64, 3> a{1ul, 2ul, 3ul}; volatile u64 i = 3; volatile u64 v = a[i]; _Exit(v & 0); } int st; waitpid(p, &st, 0); OK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)); return 0; }'''),
 dict(id="C29-queue-index", property="C29", inc=[],
  edits=[("rpp/queue.h", ("        assert(idx < length_);", 2), "        assert(idx < capacity_);")],
  needs="indexing a constant queue between its length and its capacity", breaks="memory that holds no element is read silently",
  demo=FIL + r'''int main() { fflush(0); pid_t p = fork(); if(!p) { Queue<u64> q{1ul, 2ul, 3ul}; q.reserve(8); const auto& c = q; volatile u64 i = 3; volatile u64 v = c[i]; _Exit(v & 0); } int st; waitpid(p, &st, 0); OK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)); return 0; }'''),
 dict(id="C29-task-empty", property="C29", inc=["async.h"],
  edits=[("rpp/async.h", ("        assert(handle);", 2), "        if(!handle) return false;")],
  needs="awaiting an empty task", breaks="the awaiting coroutine goes on as if it had a result",
  demo=FIL + r'''static Async::Task<int> q() { Async::Task<int> e; (void)e.await_suspend(std::noop_coroutine()); co_return 1; } int main() { fflush(0); pid_t p = fork(); if(!p) { auto t = q(); _Exit(0); } int st; waitpid(p, &st, 0); OK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)); return 0; }'''),
 dict(id="C30-enum-narrow", property="C30", inc=[],
  edits=[("rpp/format1.h", "if(value == check_value) {", "if(static_cast<u8>(value) == static_cast<u8>(check_value)) {")],
  needs="an enumeration over a wide type with values that agree in their low byte", breaks="a value gets the name of another one",
  demo=r'''enum class W : u16 { a = 1, b = 257, c = 3 }; RPP_ENUM(W, a, RPP_CASE(a), RPP_CASE(b), RPP_CASE(c)); int main() { OK(String_View{Format::enum_name(W::a)} == "a"_v); OK(String_View{Format::enum_name(W::b)} == "b"_v); return 0; }'''),
 dict(id="C30-all-are", property="C30", inc=[],
  edits=[("rpp/utility.h", "constexpr static bool value = Is_Same<L, R>::value && All_Same<R, Ts...>::value;", "constexpr static bool value = Is_Same<L, R>::value && All_Same<Ts...>::value;")],
  needs="asking whether all of three or more types are the same when only the later ones differ", breaks="a list of different types is said to be uniform",
  demo=r'''int main() { OK(!(All_Same<int, int, char, char>)); OK((All_Same<int, int, int>)); OK(!(All_Same<int, int, char>)); return 0; }'''),
 dict(id="C31-null-free", property="C31", inc=[],
  edits=[("rpp/impl/alloc.cpp", "    if(!mem) return;\n#ifndef RPP_RELEASE_BUILD\n    g_net_allocs.decr();\n#endif\n    free(mem);", "#ifndef RPP_RELEASE_BUILD\n    g_net_allocs.decr();\n#endif\n    if(!mem) return;\n    free(mem);")],
  needs="freeing null through the system allocator", breaks="the balance drops although nothing was freed",
  demo=r'''int main() { i64 n = sys_net_allocs(); sys_free(null); OK(sys_net_allocs() == n); return 0; }'''),
 dict(id="C31-peak-late", property="C31", inc=[],
  edits=[("rpp/impl/profile.cpp", "                prof.current_set_size += a.size;\n                prof.high_water = Math::max(prof.high_water, prof.current_set_size);", "                prof.high_water = Math::max(prof.high_water, prof.current_set_size);\n                prof.current_set_size += a.size;")],
  needs="a peak that is reached by the last allocation", breaks="the peak leaves out the block that reached it",
  demo=FIL + r'''int main() { using M = Mallocator<"Peak">; void* a = M::alloc(100); void* b = M::alloc(50); M::free(a); M::free(b); Profile::finalize(); fflush(0); FILE* f = fopen("debug.log", "r"); char l[400]; bool in = false, ok = false; while(fgets(l, 400, f)) { if(strstr(l, "Allocation stats for [")) in = strstr(l, "[Peak]") != 0; if(in && strstr(l, "High water: 150")) ok = true; } OK(ok); return 0; }'''),
 dict(id="C31-finalizer-order", property="C31", inc=[],
  edits=[("rpp/impl/profile.cpp", "        for(auto& f : finalizers) {\n            f();\n        }", "        while(!finalizers.empty()) {\n            finalizers.back()();\n            finalizers.pop();\n        }")],
  needs="two finalizers of which the second relies on the first having run", breaks="finalizers run in reverse order",
  demo=r'''int main() { static int n = 0, a = 0, b = 0; Profile::finalizer([] { a = ++n; }); Profile::finalizer([] { b = ++n; }); Profile::finalize(); OK(a == 1 && b == 2); return 0; }'''),
]
