#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <inttypes.h>
#include <cstddef>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*))
    __attribute__((weak));

namespace pbt {

constexpr U MAXC = 1 << 16;
constexpr int MAXW = 8;
constexpr int MAXL = 96;
constexpr U MAXH = 1 << 22;

struct Slot {
    volatile U case_idx;
    volatile U finished; // cases completed
    volatile U done;
    U nontrivial_n;
    U n;
    U choices[MAXC];
    char msg[8192];
    volatile U has_msg;
    U label_n[MAXL];
    char label_name[MAXL][64];
    U first_nt[4];
    U first_nt_n;
    U hash_n;
    U hashes[MAXH / MAXW];
};

struct Failure {
    std::string kind; // oracle, fatal, crash, hang, exit
    std::string msg;
    std::vector<U> choices;
    U case_idx = 0;
    U first_idx = ~0ull;
    U stride = 1;
};

static std::vector<Prop*>& props() {
    static std::vector<Prop*> p;
    return p;
}
Prop::Prop(const char* n, U q, U t, void (*f)(Src&), unsigned fl)
    : name(n), quick(q), thorough(t), fn(f), flags(fl) {
    props().push_back(this);
}

bool g_trace = false;
static std::string g_trace_text;
static int g_trace_fd = -1;
static Slot* slots;
static Slot* me;
static bool case_nontrivial;
static bool g_thorough;
static U g_seed = 1;
static double g_scale = 1;
static std::string g_scratch_root, g_scratch;
static pthread_mutex_t g_mut = PTHREAD_MUTEX_INITIALIZER;

bool thorough() {
    return g_thorough;
}
const char* scratch() {
    return g_scratch.c_str();
}
static std::atomic<int64_t> g_live;
int64_t live_mallocs() {
    return g_live.load();
}
static void hook_m(const volatile void* p, size_t) {
    if(p) g_live.fetch_add(1, std::memory_order_relaxed);
}
static void hook_f(const volatile void* p) {
    if(p) g_live.fetch_sub(1, std::memory_order_relaxed);
}

void note_impl(const char* fmt, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    pthread_mutex_lock(&g_mut);
    if(g_trace_text.size() < 20000) {
        g_trace_text += b;
        g_trace_text += "\n";
    }
    if(g_trace_fd >= 0) { // at once, so that a crash leaves its trace
        ssize_t r = write(g_trace_fd, g_trace_text.data(), g_trace_text.size());
        (void)r;
        g_trace_text.clear();
    }
    pthread_mutex_unlock(&g_mut);
}
static void flush_trace() {
    if(g_trace_fd >= 0) {
        ssize_t r = write(g_trace_fd, g_trace_text.data(), g_trace_text.size());
        (void)r;
    }
}
static std::atomic<bool> stuck_exit{false};
void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    pthread_mutex_lock(&g_mut);
    if(me && !me->has_msg) {
        vsnprintf(me->msg, sizeof me->msg, fmt, ap);
        me->has_msg = 1;
    }
    va_end(ap);
    if(g_trace) {
        g_trace_text += "FAIL: ";
        g_trace_text += me ? me->msg : "?";
        g_trace_text += "\n";
        flush_trace();
    }
    _exit(stuck_exit ? 78 : 77);
}
void label(const char* name) {
    if(!me) return;
    pthread_mutex_lock(&g_mut);
    for(int i = 0; i < MAXL; i++) {
        if(!me->label_name[i][0]) strncpy(me->label_name[i], name, 63);
        if(strncmp(me->label_name[i], name, 63) == 0) {
            me->label_n[i]++;
            break;
        }
    }
    pthread_mutex_unlock(&g_mut);
}
void nontrivial() {
    case_nontrivial = true;
}

static U name_hash(const char* s) {
    U h = 1469598103934665603ull;
    for(; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

static void set_cpu_limit(double s) {
    struct itimerval t = {};
    t.it_value.tv_sec = (long)s;
    t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static std::atomic<int> dl_ticks{-1};
static std::atomic<const char*> dl_what{""};
static void* dl_watch(void*) {
    while(true) {
        usleep(50000);
        int t = dl_ticks.load();
        if(t < 0) continue;
        if(t == 0) {
            stuck_exit = true;
            fail("%s: still blocked", dl_what.load());
        }
        dl_ticks.compare_exchange_strong(t, t - 1);
    }
    return nullptr;
}
Deadline::Deadline(double seconds, const char* what) {
    static pid_t started = 0; // once per process: threads do not survive fork
    dl_what = what;
    dl_ticks = (int)(seconds * 20);
    if(started != getpid()) {
        started = getpid();
        pthread_t t;
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &old);
        pthread_create(&t, nullptr, dl_watch, nullptr);
        pthread_sigmask(SIG_SETMASK, &old, nullptr);
        pthread_detach(t);
    }
}
Deadline::~Deadline() {
    dl_ticks = -1;
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

Death run_child(const std::function<void()>& f, bool want_output, double timeout_s) {
    Death d = {};
    int out = -1;
    char path[4096];
    if(want_output) {
        snprintf(path, sizeof path, "%s/out.%d", g_scratch.c_str(), (int)getpid());
        out = open(path, O_CREAT | O_RDWR | O_TRUNC, 0600);
    }
    fflush(nullptr);
    pid_t p = fork();
    if(p < 0) fail("harness: fork failed: %s", strerror(errno));
    if(p == 0) {
        me = nullptr; // child failures are reported by status only
        g_trace_fd = -1;
        int n = open("/dev/null", O_WRONLY);
        dup2(out >= 0 ? out : n, 1);
        dup2(n, 2);
        set_cpu_limit(20);
        alarm((unsigned)timeout_s);
        f();
        fflush(nullptr);
        _exit(42);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    d.status = st;
    d.trapped = WIFSIGNALED(st) && WTERMSIG(st) == SIGTRAP;
    d.completed = WIFEXITED(st) && WEXITSTATUS(st) == 42;
    if(out >= 0) {
        lseek(out, 0, SEEK_SET);
        char b[4096];
        ssize_t r;
        while((r = read(out, b, sizeof b)) > 0) d.out.append(b, (size_t)r);
        close(out);
        unlink(path);
    }
    return d;
}

static void run_case(Prop* p, U idx, const std::vector<U>* replay) {
    Src s;
    me->n = 0;
    me->has_msg = 0;
    me->case_idx = idx;
    s.buf = me->choices;
    s.count = &me->n;
    s.cap = MAXC;
    if(replay) {
        s.replay = replay->data();
        s.replay_n = replay->size();
    } else {
        s.s[0] = mix(g_seed * 0x51ed27f5 + name_hash(p->name));
        s.s[1] = mix(s.s[0] ^ mix(idx));
        s.s[0] = mix(s.s[0] + idx * 3);
        for(int i = 0; i < 4; i++) s.next();
    }
    case_nontrivial = false;
    p->fn(s);
    if(case_nontrivial) {
        me->nontrivial_n++;
        U h = 0xcbf29ce484222325ull;
        for(U i = 0; i < me->n; i++) h = mix(h ^ me->choices[i]);
        if(me->hash_n < MAXH / MAXW) me->hashes[me->hash_n++] = h;
        if(me->first_nt_n < 4) me->first_nt[me->first_nt_n++] = idx;
    }
}

constexpr double CPU_LIMIT = 20, WALL_LIMIT = 120;

static pid_t spawn(int w, const std::function<void()>& body, const char* errfile, int outfd) {
    fflush(nullptr);
    pid_t pid = fork();
    if(pid) return pid;
    me = &slots[w];
    setpgid(0, 0);
    char b[4096];
    snprintf(b, sizeof b, "%s/w%d", g_scratch_root.c_str(), w);
    mkdir(b, 0700);
    g_scratch = b;
    if(chdir(b)) _exit(70);
    int n = open("/dev/null", O_WRONLY);
    dup2(outfd >= 0 ? outfd : n, 1);
    int e = open(errfile, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    dup2(e, 2);
    body();
    _exit(0);
}

static std::string slurp(const std::string& path, size_t max = 6000) {
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if(!f) return r;
    char b[4096];
    size_t n;
    while((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max) r.append(b, n);
    fclose(f);
    return r;
}

static bool classify(int st, bool killed_hang, Slot* sl, const std::string& err, Failure& f) {
    f.choices.assign(sl->choices, sl->choices + std::min<U>(sl->n, MAXC));
    f.case_idx = sl->case_idx;
    if(killed_hang) {
        f.kind = "hang";
        f.msg = "the case did not finish (blocked)";
        return true;
    }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl->done) return false;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        f.kind = "oracle";
        f.msg = sl->msg;
        return true;
    }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 78) {
        f.kind = "stuck";
        f.msg = sl->msg;
        return true;
    }
    if(WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        if(sig == SIGVTALRM) {
            f.kind = "hang";
            f.msg = "the case did not terminate (CPU limit)";
        } else if(sig == SIGTRAP) {
            f.kind = "fatal";
            f.msg = "a legal use ended in the library's fatal error path";
        } else if(sig == SIGKILL) {
            f.kind = "killed"; // memory pressure or operator: not evidence of anything
            f.msg = "worker was killed";
        } else {
            f.kind = "crash";
            f.msg = std::string("signal ") + strsignal(sig);
        }
        return true;
    }
    f.kind = "crash";
    std::string e = err;
    size_t k = e.find("ERROR: AddressSanitizer");
    if(k == std::string::npos) k = e.find("runtime error");
    if(k == std::string::npos) k = e.find("WARNING: ThreadSanitizer");
    std::string line;
    if(k != std::string::npos) {
        size_t b0 = e.rfind('\n', k);
        b0 = b0 == std::string::npos ? 0 : b0 + 1;
        line = e.substr(b0, e.find('\n', k) - b0);
    }
    char b[64];
    snprintf(b, sizeof b, "unexpected exit status %d: ", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    f.msg = b + line;
    return true;
}

// Runs one case in a fresh process. Returns true if it failed.
static bool try_once(Prop* p, U idx, const std::vector<U>* choices, Failure& out, double cpu,
                     std::string* trace = nullptr, U first = ~0ull, U stride = 1) {
    Slot* sl = &slots[0];
    sl->done = 0;
    sl->has_msg = 0;
    sl->n = 0;
    std::string errf = g_scratch_root + "/try.err", outf = g_scratch_root + "/try.out",
                trf = g_scratch_root + "/try.trace";
    int ofd = open(outf.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    int tfd = trace ? open(trf.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600) : -1;
    pid_t pid = spawn(
        0,
        [&]() {
            if(first != ~0ull) {
                for(U i = first; i < idx; i += stride) {
                    set_cpu_limit(cpu);
                    run_case(p, i, nullptr);
                }
            }
            if(trace) {
                g_trace = true;
                g_trace_fd = tfd;
            }
            set_cpu_limit(cpu);
            run_case(p, idx, choices);
            sl->done = 1;
            if(trace) flush_trace();
        },
        errf.c_str(), ofd);
    double t0 = now();
    int st = 0;
    bool hung = false;
    useconds_t nap = 200;
    while(true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        double el = now() - t0;
        if(el > std::max(cpu * 3, 6.0)) {
            hung = true;
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(nap);
        if(nap < 5000) nap = nap * 5 / 4;
    }
    kill(-pid, SIGKILL);
    if(trace) {
        *trace = slurp(trf, 30000);
        close(tfd);
    }
    close(ofd);
    bool bad = classify(st, hung, sl, slurp(errf, 60000), out);
    if(bad && out.kind == "killed") return false;
    if(bad && out.kind == "fatal") {
        std::string o = slurp(outf, 100000);
        size_t k = o.rfind("[fatal");
        if(k == std::string::npos) k = o.rfind("fatal");
        if(k != std::string::npos) out.msg += ": " + o.substr(k, 300);
    }
    return bad;
}

static Failure shrink(Prop* p, Failure f, double budget) {
    if(getenv("PBT_NOSHRINK")) return f; // mutation sweeps want the verdict alone
    double end = now() + budget;
    double cpu = f.kind == "hang" ? 3 : CPU_LIMIT;
    auto attempt = [&](const std::vector<U>& c) {
        if(now() > end) return false;
        Failure g;
        if(try_once(p, f.case_idx, &c, g, cpu)) {
            std::vector<U> eff = g.choices;
            while(!eff.empty() && eff.back() == 0) eff.pop_back();
            bool better = eff.size() < f.choices.size() ||
                          (eff.size() == f.choices.size() && eff < f.choices);
            if(better) {
                g.case_idx = f.case_idx;
                f = g;
                f.choices = eff;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while(progress && now() < end) {
        progress = false;
        // cut the tail
        for(U keep = f.choices.size() / 2; keep < f.choices.size() && now() < end;) {
            std::vector<U> c(f.choices.begin(), f.choices.begin() + keep);
            if(attempt(c)) {
                progress = true;
                keep = f.choices.size() / 2;
            } else {
                U gap = f.choices.size() - keep;
                if(gap <= 1) break;
                keep += (gap + 1) / 2;
            }
        }
        for(U len : {64, 32, 16, 12, 8, 6, 5, 4, 3, 2, 1}) {
            for(int64_t i = (int64_t)f.choices.size() - (int64_t)len; i >= 0 && now() < end;) {
                if((U)i + len > f.choices.size()) {
                    i--;
                    continue;
                }
                std::vector<U> c = f.choices;
                c.erase(c.begin() + i, c.begin() + i + len);
                if(attempt(c)) {
                    progress = true;
                    i -= (int64_t)len;
                } else
                    i--;
            }
        }
        for(U len : {8, 4, 2, 1}) {
            for(U i = 0; i + len <= f.choices.size() && now() < end; i++) {
                bool any = false;
                for(U j = i; j < i + len; j++) any |= f.choices[j] != 0;
                if(!any) continue;
                std::vector<U> c = f.choices;
                for(U j = i; j < i + len; j++) c[j] = 0;
                if(attempt(c)) progress = true;
            }
        }
        for(U i = 0; i < f.choices.size() && now() < end; i++) {
            U lo = 0;
            while(i < f.choices.size() && f.choices[i] > lo && now() < end) {
                U mid = lo + (f.choices[i] - lo) / 2;
                std::vector<U> c = f.choices;
                c[i] = mid;
                if(attempt(c))
                    progress = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return f;
}

struct Result {
    U evals = 0, nontriv = 0, distinct = 0;
    std::map<std::string, U> labels;
    std::vector<std::string> samples;
    std::vector<Failure> failures; // at most one
    U unreproduced = 0;
};

static void merge(Result& r, int W) {
    std::vector<U> h;
    for(int w = 0; w < W; w++) {
        Slot& s = slots[w];
        r.evals += s.finished;
        r.nontriv += s.nontrivial_n;
        h.insert(h.end(), s.hashes, s.hashes + s.hash_n);
        for(int i = 0; i < MAXL; i++)
            if(s.label_name[i][0]) r.labels[s.label_name[i]] += s.label_n[i];
    }
    std::sort(h.begin(), h.end());
    r.distinct = (U)(std::unique(h.begin(), h.end()) - h.begin());
}

static Result run_prop(Prop* p) {
    Result r;
    U total = (U)((double)(g_thorough ? p->thorough : p->quick) * g_scale);
    if(total < 1) total = 1;
    int W = p->flags & ONE ? 1 : p->flags & FEW ? 2 : MAXW;
    if((U)W > total) W = (int)total;
    for(int w = 0; w < W; w++) {
        memset((void*)&slots[w], 0, offsetof(Slot, hashes));
        slots[w].case_idx = (U)w;
    }
    std::vector<pid_t> pids(W, 0);
    std::vector<U> resume(W, 0);
    std::vector<double> last_t(W, now());
    std::vector<U> last_fin(W, ~0ull);
    auto start = [&](int w, U from) {
        slots[w].done = 0;
        slots[w].case_idx = from;
        last_t[w] = now();
        last_fin[w] = ~0ull;
        resume[w] = from;
        pids[w] = spawn(
            w,
            [&, from]() {
                g_live = 0;
                for(U i = from; i < total; i += (U)W) {
                    set_cpu_limit(CPU_LIMIT);
                    run_case(p, i, nullptr);
                    me->finished = me->finished + 1;
                }
                me->done = 1;
            },
            (g_scratch_root + "/w" + std::to_string(w) + ".err").c_str(), -1);
    };
    for(int w = 0; w < W; w++) start(w, (U)w);
    int alive = W;
    Failure found;
    bool have = false;
    while(alive > 0 && !have) {
        usleep(2000);
        for(int w = 0; w < W && !have; w++) {
            if(!pids[w]) continue;
            int st = 0;
            bool hung = false;
            pid_t q = waitpid(pids[w], &st, WNOHANG);
            if(q == 0) {
                if(slots[w].finished != last_fin[w]) {
                    last_fin[w] = slots[w].finished;
                    last_t[w] = now();
                    continue;
                } else if(now() - last_t[w] > WALL_LIMIT) {
                    hung = true;
                    kill(-pids[w], SIGKILL);
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                } else
                    continue;
            }
            pid_t pid = pids[w];
            pids[w] = 0;
            alive--;
            kill(-pid, SIGKILL);
            Failure f;
            std::string err = slurp(g_scratch_root + "/w" + std::to_string(w) + ".err", 60000);
            if(!classify(st, hung, &slots[w], err, f)) continue;
            f.first_idx = resume[w];
            f.stride = (U)W;
            if(f.kind == "killed") { // not a verdict: carry on with the next case
                r.unreproduced++;
                if(r.unreproduced < 20 && f.case_idx + (U)W < total) {
                    start(w, f.case_idx + (U)W);
                    alive++;
                }
                continue;
            }
            // confirm in fresh processes
            bool oracle = f.kind == "oracle" || f.kind == "crash" || f.kind == "fatal" || f.kind == "stuck";
            bool nd = p->flags & NONDET;
            for(int v = 0; v < W; v++) // pause the others so that the confirmation is not starved
                if(pids[v]) kill(-pids[v], SIGSTOP);
            // slot 0 is reused by try_once: keep its counters
            static Slot backup;
            memcpy((void*)&backup, (void*)&slots[0], sizeof(Slot));
            int hits = 0, tries = nd ? (f.kind == "hang" || f.kind == "stuck" ? 3 : 10) : 3;
            Failure g;
            double cpu = CPU_LIMIT;
            for(int k = 0; k < tries; k++) {
                Failure t;
                if(try_once(p, f.case_idx, &f.choices, t, cpu)) {
                    hits++;
                    g = t;
                }
            }
            bool confirmed = false;
            if(hits) {
                g.case_idx = f.case_idx;
                g.first_idx = ~0ull;
                if(hits == tries || !nd) f = g;
                f.first_idx = ~0ull;
                confirmed = true;
                if(hits == tries && !nd) f = shrink(p, f, f.kind == "hang" ? 45 : 90);
                else if(hits == tries && f.kind != "stuck") f = shrink(p, f, 30);
            } else if(!nd) { // does it need the history of the earlier cases of that worker?
                Failure t;
                if(try_once(p, f.case_idx, nullptr, t, cpu, nullptr, f.first_idx, f.stride)) {
                    confirmed = true;
                    t.first_idx = f.first_idx;
                    t.stride = f.stride;
                    f = t;
                }
            }
            if(!confirmed && nd && oracle) confirmed = true; // an observed wrong result is a violation
            memcpy((void*)&slots[0], (void*)&backup, sizeof(Slot));
            if(confirmed) {
                have = true;
                found = f;
                for(int v = 0; v < W; v++)
                    if(pids[v]) {
                        kill(-pids[v], SIGKILL);
                        waitpid(pids[v], nullptr, 0);
                        pids[v] = 0;
                    }
            } else {
                r.unreproduced++;
                fprintf(stderr, "note: %s case %llu: %s (%s) did not reproduce\n", p->name,
                        (unsigned long long)f.case_idx, f.kind.c_str(), f.msg.c_str());
                for(int v = 0; v < W; v++)
                    if(pids[v]) {
                        kill(-pids[v], SIGCONT);
                        last_t[v] = now();
                    }
                if(r.unreproduced < 20 && f.case_idx + (U)W < total) {
                    start(w, f.case_idx + (U)W);
                    alive++;
                }
            }
        }
    }
    merge(r, W);
    std::vector<U> nts(slots[0].first_nt, slots[0].first_nt + slots[0].first_nt_n);
    if(have) {
        r.failures.push_back(found);
    } else {
        for(size_t i = 0; i < nts.size() && i < 2; i++) {
            std::string tr;
            Failure t;
            try_once(p, nts[nts.size() - 1 - i], nullptr, t, CPU_LIMIT, &tr);
            if(tr.size() > 1500) tr = tr.substr(0, 1500) + "...";
            if(!tr.empty()) r.samples.push_back(std::string(p->name) + ": " + tr);
        }
    }
    return r;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if(c == '\n')
            r += "\\n";
        else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r + "\"";
}

// What is printed stays plain text whatever bytes the traces and messages hold.
static std::string printable(const std::string& s) {
    std::string r;
    for(unsigned char c : s) {
        if(c == '\n' || c == '\t' || (c >= 32 && c < 127))
            r += (char)c;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r;
}

static int replay_main(const char* file) {
    FILE* f = fopen(file, "r");
    if(!f) {
        fprintf(stderr, "cannot open %s\n", file);
        return 2;
    }
    char line[1 << 16];
    std::string prop;
    std::vector<U> choices;
    bool have_choices = false;
    U idx = 0, first = ~0ull, stride = 1;
    while(fgets(line, sizeof line, f)) {
        if(!strncmp(line, "prop ", 5)) {
            prop = line + 5;
            while(!prop.empty() && prop.back() <= ' ') prop.pop_back();
        } else if(!strncmp(line, "case ", 5))
            sscanf(line + 5, "%" SCNu64, &idx);
        else if(!strncmp(line, "history ", 8))
            sscanf(line + 8, "%" SCNu64 " %" SCNu64, &first, &stride);
        else if(!strncmp(line, "seed ", 5))
            sscanf(line + 5, "%" SCNu64, &g_seed);
        else if(!strncmp(line, "tier thorough", 13))
            g_thorough = true;
        else if(!strncmp(line, "choices", 7)) {
            have_choices = true;
            U n = 0;
            sscanf(line + 7, "%" SCNu64, &n);
            for(U i = 0; i < n; i++) {
                U v = 0;
                if(fscanf(f, "%" SCNu64, &v) != 1) break;
                choices.push_back(v);
            }
        }
    }
    fclose(f);
    for(auto* p : props())
        if(prop == p->name) {
            Failure out;
            std::string tr;
            bool bad = first != ~0ull
                           ? try_once(p, idx, nullptr, out, CPU_LIMIT, &tr, first, stride)
                           : try_once(p, idx, have_choices ? &choices : nullptr, out, CPU_LIMIT, &tr);
            printf("%s\n", printable(tr).c_str());
            if(bad) {
                printf("REPLAY FAILS: %s: %s\n", out.kind.c_str(), printable(out.msg).c_str());
                std::string e = slurp(g_scratch_root + "/try.err", 6000);
                printf("%s\n", printable(e).c_str());
                return 1;
            }
            printf("replay passes\n");
            return 0;
        }
    fprintf(stderr, "no such property part: %s\n", prop.c_str());
    return 2;
}

} // namespace pbt

using namespace pbt;

// A harness may run itself as a program of its own (see exec'ing checks).
extern "C" __attribute__((weak)) int pbt_exec(int argc, char** argv);

int main(int argc, char** argv) {
    if(pbt_exec && getenv("PBT_EXEC")) return pbt_exec(argc, argv);
    const char *replay = nullptr, *evidence = nullptr, *replay_dir = ".", *id = "C00", *only = nullptr;
    const char* tier = getenv("VERIF_TIER");
    if(const char* e = getenv("VERIF_SEED")) g_seed = strtoull(e, nullptr, 10);
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if(a == "--replay") replay = nx();
        else if(a == "--evidence") evidence = nx();
        else if(a == "--replay-dir") replay_dir = nx();
        else if(a == "--id") id = nx();
        else if(a == "--only") only = nx();
        else if(a == "--tier") tier = nx();
        else if(a == "--scale") g_scale = atof(nx());
        else if(a == "--seed") g_seed = strtoull(nx(), nullptr, 10);
    }
    g_thorough = tier && !strcmp(tier, "thorough");
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    char cwd[4096];
    if(!getcwd(cwd, sizeof cwd)) return 2;
    g_scratch_root = cwd; // the runner starts us in a fresh scratch directory
    g_scratch = cwd;
    slots = (Slot*)mmap(nullptr, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(slots == MAP_FAILED) return 2;
    if(__sanitizer_install_malloc_and_free_hooks)
        __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
    if(replay) return replay_main(replay);

    double t0 = now();
    Result all;
    std::string parts;
    int violations = 0;
    for(auto* p : props()) {
        if(only && !strstr(p->name, only)) continue;
        double t1 = now();
        Result r = run_prop(p);
        all.evals += r.evals;
        all.nontriv += r.nontriv;
        all.distinct += r.distinct;
        all.unreproduced += r.unreproduced;
        for(auto& [k, v] : r.labels) all.labels[std::string(p->name) + "/" + k] += v;
        for(auto& s : r.samples) all.samples.push_back(s);
        char b[512];
        snprintf(b, sizeof b, "%s{\"part\": %s, \"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64
                 ", \"distinct_nontrivial\": %" PRIu64 ", \"wall_s\": %.2f}",
                 parts.empty() ? "" : ", ", jstr(p->name).c_str(), r.evals, r.nontriv, r.distinct,
                 now() - t1);
        parts += b;
        fprintf(stderr, "%s %-28s evals=%" PRIu64 " nontrivial=%" PRIu64 " distinct=%" PRIu64 " %.2fs%s\n", id,
                p->name, r.evals, r.nontriv, r.distinct, now() - t1,
                r.failures.empty() ? "" : "  ** FAILED");
        for(auto& f : r.failures) {
            violations++;
            std::string tr;
            Failure t;
            if(f.first_idx != ~0ull && !(p->flags & NONDET))
                try_once(p, f.case_idx, nullptr, t, CPU_LIMIT, &tr, f.first_idx, f.stride);
            else
                try_once(p, f.case_idx, &f.choices, t, CPU_LIMIT, &tr);
            std::string err = slurp(g_scratch_root + "/try.err", 6000);
            std::string path = std::string(replay_dir) + "/" + id + "-" + p->name + ".replay";
            FILE* o = fopen(path.c_str(), "w");
            if(o) {
                fprintf(o, "prop %s\nseed %" PRIu64 "\ntier %s\ncase %" PRIu64 "\n", p->name, g_seed,
                        g_thorough ? "thorough" : "quick", f.case_idx);
                if(f.first_idx != ~0ull && !(p->flags & NONDET))
                    fprintf(o, "history %" PRIu64 " %" PRIu64 "\n", f.first_idx, f.stride);
                fprintf(o, "choices %zu\n", f.choices.size());
                for(U c : f.choices) fprintf(o, "%" PRIu64 " ", c);
                fprintf(o, "\n# %s: %s\n# trace of the minimal case:\n", f.kind.c_str(), f.msg.c_str());
                for(size_t i = 0; i < tr.size();) {
                    size_t j = tr.find('\n', i);
                    if(j == std::string::npos) j = tr.size();
                    fprintf(o, "#   %s\n", tr.substr(i, j - i).c_str());
                    i = j + 1;
                }
                for(size_t i = 0; i < err.size();) {
                    size_t j = err.find('\n', i);
                    if(j == std::string::npos) j = err.size();
                    fprintf(o, "# stderr: %s\n", err.substr(i, j - i).c_str());
                    i = j + 1;
                }
                fclose(o);
            }
            printf("%s [%s]: %s\n%s\n", p->name, f.kind.c_str(), printable(f.msg).c_str(), printable(tr.substr(0, 3000)).c_str());
            printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
            fflush(stdout);
        }
        if(violations) break;
    }
    if(evidence) {
        FILE* o = fopen(evidence, "w");
        if(!o) return 2;
        fprintf(o, "{\"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"distinct_nontrivial\": %" PRIu64
                ", \"unreproduced\": %" PRIu64 ", \"violations\": %d, \"wall_s\": %.2f,\n\"parts\": [%s],\n\"classes\": {",
                all.evals, all.nontriv, all.distinct, all.unreproduced, violations, now() - t0, parts.c_str());
        bool first = true;
        for(auto& [k, v] : all.labels) {
            fprintf(o, "%s%s: %" PRIu64, first ? "" : ", ", jstr(k).c_str(), v);
            first = false;
        }
        fprintf(o, "},\n\"samples\": [");
        first = true;
        for(auto& s : all.samples) {
            fprintf(o, "%s%s", first ? "" : ",\n", jstr(s).c_str());
            first = false;
        }
        fprintf(o, "]}\n");
        fclose(o);
    }
    return violations ? 1 : 0;
}
