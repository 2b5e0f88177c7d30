// C27: every log message reaches the output and every live subscriber exactly once.
// Each case runs this program anew (the log file is opened when a program starts) on a random script and
// compares its standard output, its debug.log and what its subscribers saw with a model.
#include "par.h"
#include <rpp/log_callback.h>
using namespace par;
using rpp::u8;
using Bytes = std::string;
namespace Log = rpp::Log;

// --- the program under test: executes a script ---

struct Op {
    char kind;    // L log, S subscribe, U unsubscribe, ( indent, ) end of indent, B barrier, D die, A assert, X unsubscribe an unknown token, P pause
    U a = 0, b = 0; // L: site, level; S U: slot
    Bytes msg;
};
struct Site {
    const char* function;
};
static Site sites[4] = {{"site_zero"}, {"site_one"}, {"site_two"}, {"operator()"}};
#define V(m) rpp::String_View{(const u8*)(m).data(), (m).size()}
// clang-format off
static void site_zero(U level, const Bytes& m) {
    if(level == 0) { info("%", V(m)); }
    else if(level == 1) { warn("%", V(m)); }
    else { die("%", V(m)); }
}
static void site_one(U level, const Bytes& m) { // text around and several arguments
    Bytes a = m.substr(0, m.size() / 2), b = m.substr(m.size() / 2);
    if(level == 0) { info("<% % %>", V(a), rpp::String_View{"|"}, V(b)); }
    else if(level == 1) { warn("<% % %>", V(a), rpp::String_View{"|"}, V(b)); }
    else { die("<% % %>", V(a), rpp::String_View{"|"}, V(b)); }
}
static Bytes site_one_text(const Bytes& m) {
    return "<" + m.substr(0, m.size() / 2) + " | " + m.substr(m.size() / 2) + ">";
}
static void site_two(U level, const Bytes& m) { // from inside of a region
    Region(R) {
        auto s = V(m).string<rpp::Mregion<R>>();
        if(level == 0) { info("%", s); }
        else if(level == 1) { warn("%", s); }
        else { die("%", s); }
    }
}
static auto site_three = [](U level, const Bytes& m) {
    if(level == 0) { info("% %", m.size(), V(m)); }
    else if(level == 1) { warn("% %", m.size(), V(m)); }
    else { die("% %", m.size(), V(m)); }
};
static const U far_lines[] = {1, 65535, 65536, 70001, 9999999, 0};
static U far_line(const Bytes& m) {
    return far_lines[m.size() % 6];
}
static void site_far(U level, const Bytes& m) { // as generated code says
    rpp::Log::output(level == 0 ? rpp::Log::Level::info : rpp::Log::Level::warn, {rpp::String_View{"elsewhere"}, rpp::String_View{"c27_log.cpp"}, far_line(m)}, V(m));
}
static void failing() { volatile U nothing = 0; assert(nothing != 0); }
// clang-format on
static void at_site(U site, U level, const Bytes& m) {
    switch(site) {
    case 0: site_zero(level, m); break;
    case 1: site_one(level, m); break;
    case 2: site_two(level, m); break;
    case 5: site_far(level, m); break;
    default: site_three(level, m); break;
    }
}
static Bytes site_text(U site, const Bytes& m) {
    return site == 1 ? site_one_text(m) : site == 3 ? std::to_string(m.size()) + " " + m : m;
}
static void put(Bytes& f, const Bytes& x) {
    U n = x.size();
    f.append((const char*)&n, 8);
    f += x;
}
static void putn(Bytes& f, U x) {
    f.append((const char*)&x, 8);
}
struct Reader {
    const Bytes& f;
    size_t at = 0;
    bool more() const {
        return at + 8 <= f.size();
    }
    U n() {
        U x = 0;
        if(at + 8 <= f.size()) memcpy(&x, f.data() + at, 8);
        at += 8;
        return x;
    }
    Bytes s() {
        U k = n();
        if(at > f.size() || k > f.size() - at) {
            at = f.size();
            return "";
        }
        Bytes r = f.substr(at, k);
        at += k;
        return r;
    }
};
static Bytes slurp(const char* path) {
    Bytes r;
    int fd = open(path, O_RDONLY);
    if(fd < 0) return r;
    char b[65536];
    ssize_t n;
    while((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n);
    close(fd);
    return r;
}
static void spit(const char* path, const Bytes& d) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size()) _exit(71);
    close(fd);
}
static int record_fd = -1;
static void record(char kind, std::initializer_list<U> xs, const Bytes& a = "", const Bytes& b = "", const Bytes& c = "") {
    Bytes r(1, kind); // one write per record: threads do not mix
    for(U x : xs) putn(r, x);
    put(r, a), put(r, b), put(r, c);
    Bytes f;
    put(f, r);
    if(write(record_fd, f.data(), f.size()) != (ssize_t)f.size()) _exit(72);
}
static Log::Token tokens[16];
static std::atomic<bool> gone[16];
static std::weak_ptr<Bytes> state_of[16];
static bool alone = false; // no other thread may be inside of a subscriber
static pthread_barrier_t bar;
static size_t run_ops(const std::vector<Op>& ops, size_t i, U me, U& rnd) {
    for(; i < ops.size(); i++) {
        const Op& o = ops[i];
        switch(o.kind) {
        case 'L': at_site(o.a, o.b, o.msg); break;
        case 'S': {
            U slot = o.a;
            std::shared_ptr<Bytes> mine = std::make_shared<Bytes>("state of " + std::to_string(slot));
            state_of[slot] = mine;
            tokens[slot] = Log::subscribe([slot, mine = std::move(mine)](Log::Level l, rpp::Thread::Id t, Log::Time when, Log::Location at, rpp::String_View m) {
                if(gone[slot]) record('Z', {slot});
                if(*mine != "state of " + std::to_string(slot)) record('Z', {slot});
                record('C', {slot, (U)l, (U)t, (U)when, at.line}, Bytes((const char*)at.file.data(), at.file.length()),
                       Bytes((const char*)at.function.data(), at.function.length()), m.length() ? Bytes((const char*)m.data(), m.length()) : Bytes());
            });
            gone[slot] = false;
            record('T', {slot, (U)tokens[slot]});
            break;
        }
        case 'U':
            Log::unsubscribe(tokens[o.a]);
            gone[o.a] = true;
            if(alone && !state_of[o.a].expired()) record('Z', {o.a});
            break;
        case '(':
            Log_Indent {
                i = run_ops(ops, i + 1, me, rnd);
            }
            break;
        case ')': return i;
        case 'B': pthread_barrier_wait(&bar); break;
        case 'P': relax(rnd, 2); break;
        case 'D': at_site(o.a, 2, o.msg); break;
        case 'A': failing(); break;
        case 'X': Log::unsubscribe(o.a); break;
        case 'Y': Log::unsubscribe(tokens[o.a]); break;
        }
    }
    return i;
}
struct Script {
    std::vector<std::vector<Op>> t;
    U storm = 0, seed = 0, early = 0, late = 0; // operations run before main begins and after it ends
    void load() {
        Bytes f = slurp("script");
        Reader r{f};
        t.resize(r.n());
        storm = r.n(), seed = r.n(), early = r.n(), late = r.n();
        for(auto& ops : t) {
            ops.resize(r.n());
            for(auto& o : ops) {
                o.kind = (char)r.n();
                o.a = r.n(), o.b = r.n();
                o.msg = r.s();
            }
        }
    }
    void part(U from, U to) {
        std::vector<Op> ops(t[0].begin() + (long)from, t[0].begin() + (long)to);
        U rnd = seed;
        run_ops(ops, 0, 0, rnd);
    }
};
static Script script;
// A static object of the program, which uses the log in its constructor and its destructor.
struct Around {
    bool on = false;
    Around() {
        if(!getenv("PBT_EXEC")) return;
        if(getenv("C27_IGNORE_TRAP")) signal(SIGTRAP, SIG_IGN);
        alarm(60);
        record_fd = open("record", O_WRONLY | O_CREAT | O_APPEND, 0600);
        script.load();
        if(script.t.size() == 1) {
            record('I', {0, (U)rpp::Thread::this_id()});
            alone = true;
            script.part(0, script.early);
        }
        on = true;
    }
    ~Around() {
        if(!on || !script.late) return;
        script.part(script.t[0].size() - script.late, script.t[0].size());
        _exit(42);
    }
};
static Around around;
extern "C" int pbt_exec(int, char**) {
    auto& t = script.t;
    pthread_barrier_init(&bar, nullptr, (unsigned)t.size());
    if(t.size() == 1) {
        script.part(script.early, t[0].size() - script.late);
    } else {
        run(t.size(), script.storm, [&](U me) {
            record('I', {me, (U)rpp::Thread::this_id()});
            U rnd = pbt::mix(script.seed + me);
            run_ops(t[me], 0, me, rnd);
        });
    }
    if(script.late) exit(42);
    _exit(42);
}

// --- the check ---

struct Call { // of a subscriber
    U slot, level, thread, when, line;
    Bytes file, function, msg;
};
struct Result {
    Bytes out, log;
    int status;
    U before, after;
    std::vector<Call> calls;
    std::map<U, U> thread_of, tokens; // thread number -> id
    std::vector<U> token_list;
};
enum Mode { NORMAL, NO_LOG_FILE, FULL_STDOUT, IGNORE_TRAP };
static Result execute(const std::vector<std::vector<Op>>& t, U storm, U seed, Mode mode, const char* tz, U early = 0, U late = 0) {
    Bytes f;
    putn(f, t.size()), putn(f, storm), putn(f, seed), putn(f, early), putn(f, late);
    for(auto& ops : t) {
        putn(f, ops.size());
        for(auto& o : ops) putn(f, (U)o.kind), putn(f, o.a), putn(f, o.b), put(f, o.msg);
    }
    static U k = 0;
    Bytes d = Bytes(pbt::scratch()) + "/run" + std::to_string(getpid()) + "." + std::to_string(k++);
    if(mkdir(d.c_str(), 0755)) _exit(71);
    spit((d + "/script").c_str(), f);
    if(mode == NO_LOG_FILE && mkdir((d + "/debug.log").c_str(), 0755)) _exit(71);
    Result r;
    r.before = (U)time(nullptr);
    pid_t p = fork();
    if(p < 0) _exit(71);
    if(p == 0) {
        if(chdir(d.c_str())) _exit(73);
        int o = open(mode == FULL_STDOUT ? "/dev/full" : "stdout", O_WRONLY | O_CREAT, 0600);
        dup2(o, 1);
        dup2(open("/dev/null", O_WRONLY), 2);
        setenv("PBT_EXEC", "1", 1);
        setenv("TZ", tz, 1);
        if(mode == IGNORE_TRAP) setenv("C27_IGNORE_TRAP", "1", 1);
        execl("/proc/self/exe", "harness", (char*)nullptr);
        _exit(74);
    }
    while(waitpid(p, &r.status, 0) < 0 && errno == EINTR) {}
    r.after = (U)time(nullptr);
    r.out = slurp((d + "/stdout").c_str());
    r.log = mode == NO_LOG_FILE ? "" : slurp((d + "/debug.log").c_str());
    Bytes rec = slurp((d + "/record").c_str());
    for(const char* n : {"script", "stdout", "debug.log", "record"}) unlink((d + "/" + n).c_str());
    rmdir((d + "/debug.log").c_str());
    rmdir(d.c_str());
    CHECK(!(WIFEXITED(r.status) && WEXITSTATUS(r.status) >= 71 && WEXITSTATUS(r.status) <= 74), "harness: could not run itself (%x)", r.status);
    for(Reader g{rec}; g.more();) {
        Bytes one = g.s();
        Bytes rest = one.substr(1);
        Reader h{rest};
        switch(one[0]) {
        case 'I': {
            U a = h.n();
            r.thread_of[a] = h.n();
            break;
        }
        case 'T': {
            U a = h.n(), b = h.n();
            r.tokens[a] = b;
            r.token_list.push_back(b);
            break;
        }
        case 'Z': pbt::fail("a callback was called, or kept, after it was unsubscribed"); break;
        case 'C': {
            Call c;
            c.slot = h.n(), c.level = h.n(), c.thread = h.n(), c.when = h.n(), c.line = h.n();
            c.file = h.s(), c.function = h.s(), c.msg = h.s();
            r.calls.push_back(c);
            break;
        }
        }
    }
    return r;
}
struct Expect {
    U thread, level, site, depth;
    Bytes text;
    U line; // unknown: 0
};
static const char* level_names[] = {"info", "warn", "fatal"};
// Matches one message at `at`; returns the position after it or npos.
static size_t match(const Bytes& out, size_t at, const Result& r, const Expect& e, const char* tz, Bytes& why, U* line_out) {
    auto lit = [&](const Bytes& x) {
        if(out.compare(at, x.size(), x) != 0) {
            why = "expected \"" + x.substr(0, 200) + "\", found \"" + out.substr(at, std::min<size_t>(x.size() + 10, 200)) + "\"";
            return false;
        }
        at += x.size();
        return true;
    };
    if(e.level && !lit("\033[0;31m")) return Bytes::npos;
    // [HH:MM:SS], a moment of the run in the program's time zone
    if(at + 10 > out.size()) {
        why = "nothing more";
        return Bytes::npos;
    }
    Bytes stamp = out.substr(at, 10);
    bool ok = false;
    for(U t = r.before; t <= r.after && !ok; t++) {
        time_t x = (time_t)t;
        tm m;
        localtime_r(&x, &m);
        char b[32];
        strftime(b, sizeof b, "[%H:%M:%S]", &m);
        ok = stamp == b;
    }
    if(!ok) {
        why = "the time " + stamp;
        return Bytes::npos;
    }
    at += 10;
    U id = r.thread_of.count(e.thread) ? r.thread_of.at(e.thread) : 0;
    if(!lit(Bytes(" [") + level_names[e.level] + "/" + std::to_string(id) + "] [c27_log.cpp:")) return Bytes::npos;
    size_t k = at;
    U line = 0;
    while(k < out.size() && isdigit((unsigned char)out[k])) line = line * 10 + (U)(out[k++] - '0');
    at = k;
    *line_out = line;
    if(!lit("]: ")) return Bytes::npos;
    if(!lit(Bytes(e.depth * Log::INDENT_SIZE, ' ') + e.text)) return Bytes::npos;
    if(!lit(e.level ? "\033[0m\n" : "\n")) return Bytes::npos;
    (void)tz;
    return at;
}
static U source_line(U site, U level) { // as the compiler sees it
    static std::map<U, U> known;
    if(known.empty()) {
        Bytes src = slurp(__FILE__);
        size_t a = 0;
        U n = 1, fn = 99;
        while(a < src.size()) {
            size_t b = src.find('\n', a);
            if(b == Bytes::npos) b = src.size();
            Bytes l = src.substr(a, b - a);
            if(l.find("static void site_zero") == 0) fn = 0;
            if(l.find("static void site_one(") == 0) fn = 1;
            if(l.find("static void site_two") == 0) fn = 2;
            if(l.find("static auto site_three") == 0) fn = 3;
            if(l.find("static void failing") == 0) known[12] = n;
            if(fn < 4 && l.find(") { info(") != Bytes::npos) known[fn * 3] = n;
            if(fn < 4 && l.find(") { warn(") != Bytes::npos) known[fn * 3 + 1] = n;
            if(fn < 4 && l.find("else { die(") != Bytes::npos) known[fn * 3 + 2] = n;
            if(l.find("clang-format on") != Bytes::npos) fn = 99;
            a = b + 1, n++;
        }
    }
    auto it = known.find(site * 3 + level);
    return it == known.end() ? 0 : it->second;
}
static const char* zones[] = {"UTC0", "AAA-5:30", "BBB8", "CCC-13"};
static Bytes text(Src& s, bool lines, U tag) {
    Bytes m;
    switch(s.pick({4, 3, 2, 1, 1})) {
    case 0: m = "m" + std::to_string(s.draw(99)); break;
    case 1:
        for(U k = 0, n = s.draw(30); k < n; k++) m += (char)s.range(32, 126);
        break;
    case 2: m = s.of<const char*>({"", "%", "%s%n%d", "100%", "  indented", "tab\there", "\xc3\xa9\xff\xfe", "\033[0m"}); break;
    case 3: {
        U n = s.of<unsigned>({255, 256, 1000, 1023, 1024, 4096, 8192, 20000, 100000});
        for(U k = 0; k < n; k++) m += (char)('a' + (k + tag) % 26);
        break;
    }
    default: m = "two\nlines\n"; break;
    }
    if(!lines) {
        std::replace(m.begin(), m.end(), '\n', '/');
        m = "#" + std::to_string(tag) + "#" + m;
    }
    return m;
}
static void check_call(const Call& c, const Expect& e, const Result& r) {
    CHECK(c.msg == e.text, "subscriber %lu got \"%.80s\" (%zu bytes) instead of \"%.80s\" (%zu)", c.slot, c.msg.c_str(), c.msg.size(), e.text.c_str(), e.text.size());
    CHECK(c.level == e.level, "subscriber %lu got level %lu instead of %lu", c.slot, c.level, e.level);
    CHECK(c.thread == (r.thread_of.count(e.thread) ? r.thread_of.at(e.thread) : 0), "subscriber %lu got another thread's id", c.slot);
    CHECK(c.when >= r.before && c.when <= r.after, "subscriber %lu got the time %lu outside of the run", c.slot, c.when);
    if(e.line == ~0ull) return; // logged by the library itself
    CHECK(c.file == "c27_log.cpp", "subscriber %lu got the file \"%s\"", c.slot, c.file.c_str());
    CHECK(c.line == e.line, "subscriber %lu got line %lu instead of %lu", c.slot, c.line, e.line);
    const char* fn = e.site == 5 ? "elsewhere" : e.site == 4 ? "failing" : sites[e.site].function;
    CHECK(c.function.find(fn) != Bytes::npos, "subscriber %lu got the function \"%s\" instead of %s", c.slot, c.function.c_str(), fn);
}

PROP(sequential, 5000, 40000) {
    std::vector<std::vector<Op>> t(1);
    auto& ops = t[0];
    std::vector<Expect> want;
    struct Seen {
        U slot;
        size_t msg;
    };
    std::vector<Seen> calls;
    std::set<U> subs;
    std::vector<U> ended; // subscriptions given up
    U left = s.limit(5, 20, 60), next = 0, depth = 0, subscriptions = 0, indents = 0, max_depth = s.pick({4, 1}) ? 300 : 9;
    auto logged = [&](U level, U site, const Bytes& txt, U line) {
        want.push_back({0, level, site, depth, txt, line});
        for(U x : subs) calls.push_back({x, want.size() - 1});
    };
    auto log = [&](U site, U level, const Bytes& m) {
        NOTE("%s \"%.60s\" (%zu) at site %lu, depth %lu", level_names[level], m.c_str(), m.size(), site, depth);
        logged(level, site, site_text(site, m), site == 5 ? far_line(m) : source_line(site, level));
    };
    U early = 0, late_from = 0; // where the script outside of any scope passes into main and out of it
    bool around = s.chance(1, 3), has_late = false;
    while(s.step(left)) {
        if(around && depth == 0 && s.chance(1, 6)) {
            NOTE("---- %s", early ? "main ends" : "main begins");
            if(early) late_from = ops.size(), has_late = early > 0, around = false;
            else early = ops.size();
            continue;
        }
        switch(s.pick({6, 2, 2, 2, 2})) {
        case 0: {
            Op o{'L', s.draw(3), s.draw(1), text(s, true, ops.size())};
            if(s.chance(1, 5)) o.a = 5;
            log(o.a, o.b, o.msg);
            ops.push_back(o);
            break;
        }
        case 1:
            if(next < 16) {
                NOTE("subscribe %lu", next);
                ops.push_back({'S', next});
                subs.insert(next++);
                subscriptions++;
            }
            break;
        case 2:
            if(subs.size()) {
                auto it = subs.begin();
                std::advance(it, (long)s.draw(subs.size() - 1));
                NOTE("unsubscribe %lu", *it);
                ops.push_back({'U', *it});
                ended.push_back(*it);
                subs.erase(it);
            }
            break;
        case 3:
            if(depth < max_depth) ops.push_back({'('}), depth++, indents++;
            if(max_depth > 9)
                for(U k = s.draw(30); k && depth < max_depth; k--) ops.push_back({'('}), depth++;
            break;
        case 4:
            if(depth) ops.push_back({')'}), depth--;
            break;
        }
    }
    Mode mode = (Mode)s.pick({6, 1, 1, 2});
    bool fatal = false;
    switch(s.pick({3, 2, 1, 1})) {
    case 1: {
        Op o{'D', s.draw(3), 0, text(s, true, 7)};
        log(o.a, 2, o.msg);
        ops.push_back(o);
        fatal = true;
        break;
    }
    case 2:
        NOTE("a failing assertion");
        logged(2, 4, "Assert: nothing != 0", source_line(4, 0));
        ops.push_back({'A'});
        fatal = true;
        break;
    case 3: {
        U bad = s.of<U>({0, 77, ~0ull});
        if(ended.size() && s.coin()) {
            U again = ended[s.draw(ended.size() - 1)];
            NOTE("unsubscribe %lu again", again);
            ops.push_back({'Y', again});
        } else {
            NOTE("unsubscribe of a token never given");
            ops.push_back({'X', bad});
        }
        fatal = true;
        break;
    }
    }
    bool foreign = fatal && (ops.back().kind == 'X' || ops.back().kind == 'Y'); // the library's own message comes last
    if(!foreign)
        while(depth) ops.push_back({')'}), depth--;
    // past a fatal error nothing happens
    if(fatal) ops.push_back({'L', 0, 0, "never"});
    const char* tz = zones[s.draw(3)];
    setenv("TZ", tz, 1);
    tzset();
    if(fatal) has_late = false;
    Result r = execute(t, 0, 1, mode, tz, early, has_late ? ops.size() - late_from : 0);
    if(early) pbt::label("logging before main");
    if(has_late && early && late_from < ops.size()) pbt::label("logging after main");
    if(!fatal) CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 42, "a program that only logs ended with status %x", r.status);
    else if(mode == IGNORE_TRAP) CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 1, "a fatal error ended the program with status %x", r.status);
    else CHECK(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGTRAP, "a fatal error ended the program with status %x", r.status);
    for(const Bytes* out : {&r.out, &r.log}) {
        if(out == &r.out && mode == FULL_STDOUT) continue;
        if(out == &r.log && mode == NO_LOG_FILE) continue;
        const char* name = out == &r.out ? "the console" : "the log file";
        size_t at = 0;
        for(auto& e : want) {
            Bytes why;
            U line = 0;
            at = match(*out, at, r, e, tz, why, &line);
            CHECK(at != Bytes::npos, "%s: message \"%.60s\": %s", name, e.text.c_str(), why.c_str());
            CHECK(line == e.line, "%s: message \"%.60s\" has line %lu instead of %lu", name, e.text.c_str(), line, e.line);
        }
        if(foreign) CHECK(out->substr(at).find(" [fatal/") != Bytes::npos && out->back() == '\n', "%s: a fatal error was not logged before the program stopped", name);
        else CHECK(at == out->size(), "%s has more: \"%.100s\"", name, out->c_str() + at);
    }
    // every subscriber saw every message of its time, once, in order
    std::map<U, std::vector<size_t>> per;
    for(auto& c : calls) per[c.slot].push_back(c.msg);
    std::map<U, size_t> done;
    std::set<U> foreign_seen;
    for(auto& c : r.calls) {
        size_t& k = done[c.slot];
        if(k == per[c.slot].size() && foreign && subs.count(c.slot) && c.level == 2) {
            CHECK(foreign_seen.insert(c.slot).second, "subscriber %lu got a message twice", c.slot);
            continue;
        }
        CHECK(k < per[c.slot].size(), "subscriber %lu got a message more: \"%.80s\"", c.slot, c.msg.c_str());
        check_call(c, want[per[c.slot][k]], r);
        k++;
    }
    for(auto& [slot, list] : per) CHECK(done[slot] == list.size(), "subscriber %lu got %zu messages of %zu", slot, done[slot], list.size());
    if(foreign) CHECK(foreign_seen == subs, "not every subscriber got the fatal error");
    std::set<U> distinct(r.token_list.begin(), r.token_list.end());
    CHECK(distinct.size() == r.token_list.size(), "two subscriptions have the same token");
    if(want.size() > 1 && subscriptions) pbt::nontrivial();
    if(indents) pbt::label("indented");
    if(fatal) pbt::label("fatal");
}

PROP_F(concurrent, 1500, 12000, pbt::NONDET) {
    U n = s.range(2, 6), each = s.limit(5, 20, 60), storm = s.coin() ? 1 + s.draw(1 << 20) : 0, seed = s.draw(1 << 30);
    std::vector<std::vector<Op>> t(n);
    std::vector<std::vector<Expect>> want(n);
    std::map<U, std::pair<U, std::pair<size_t, size_t>>> subs; // slot -> thread, its messages from..to
    U slot = 0, tag = 0;
    // thread 0 subscribes one callback for the whole run
    t[0].push_back({'S', slot});
    U whole = slot++;
    for(U me = 0; me < n; me++) {
        auto& ops = t[me];
        ops.push_back({'B'});
        U depth = 0;
        std::vector<U> mine;
        for(U k = 0; k < each; k++) {
            switch(s.pick({8, 2, 2, 1, 2, 2})) {
            case 0: {
                Op o{'L', s.draw(3), s.draw(1), text(s, false, tag++)};
                want[me].push_back({me, o.b, o.a, depth, site_text(o.a, o.msg), source_line(o.a, o.b)});
                ops.push_back(o);
                break;
            }
            case 1:
                if(slot < 16) {
                    ops.push_back({'S', slot});
                    subs[slot] = {me, {want[me].size(), SIZE_MAX}};
                    mine.push_back(slot++);
                }
                break;
            case 2:
                if(mine.size()) {
                    U i = s.draw(mine.size() - 1);
                    ops.push_back({'U', mine[i]});
                    subs[mine[i]].second.second = want[me].size();
                    mine.erase(mine.begin() + (long)i);
                }
                break;
            case 3: ops.push_back({'P'}); break;
            case 4:
                if(depth < 5) ops.push_back({'('}), depth++;
                break;
            case 5:
                if(depth) ops.push_back({')'}), depth--;
                break;
            }
        }
        while(depth) ops.push_back({')'}), depth--;
        for(U x : mine) subs[x].second.second = want[me].size();
    }
    NOTE("%lu threads of up to %lu steps%s", n, each, storm ? ", interrupted" : "");
    const char* tz = zones[s.draw(3)];
    setenv("TZ", tz, 1);
    tzset();
    Result r = execute(t, storm, seed, NORMAL, tz);
    CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 42, "a program that only logs ended with status %x", r.status);
    std::map<U, U> thread_no;
    for(auto& [no, id] : r.thread_of) thread_no[id] = no;
    CHECK(thread_no.size() == n, "two threads have the same id");
    for(const Bytes* out : {&r.out, &r.log}) {
        const char* name = out == &r.out ? "the console" : "the log file";
        std::vector<size_t> k(n, 0);
        size_t at = 0;
        while(at < out->size()) { // every line is the next message of some thread
            size_t a = out->find('/', at), b = out->find(']', a == Bytes::npos ? at : a);
            CHECK(a != Bytes::npos && b != Bytes::npos, "%s: a line without a thread", name);
            U id = strtoull(out->c_str() + a + 1, nullptr, 10);
            CHECK(thread_no.count(id), "%s: a line of an unknown thread: \"%.80s\"", name, out->c_str() + at);
            U me = thread_no[id];
            CHECK(k[me] < want[me].size(), "%s: a message more of thread %lu: \"%.80s\"", name, me, out->c_str() + at);
            Bytes why;
            U line = 0;
            auto& e = want[me][k[me]++];
            at = match(*out, at, r, e, tz, why, &line);
            CHECK(at != Bytes::npos, "%s: message \"%.60s\": %s", name, e.text.c_str(), why.c_str());
            CHECK(line == e.line, "%s: message \"%.60s\" has line %lu instead of %lu", name, e.text.c_str(), line, e.line);
        }
        for(U me = 0; me < n; me++) CHECK(k[me] == want[me].size(), "%s: %zu messages of thread %lu instead of %zu", name, k[me], me, want[me].size());
    }
    std::map<std::pair<U, U>, size_t> first; // (slot, thread) -> position in that thread's messages
    std::map<std::pair<U, U>, size_t> count;
    for(auto& c : r.calls) {
        CHECK(thread_no.count(c.thread), "subscriber %lu got an unknown thread's id", c.slot);
        U me = thread_no[c.thread];
        auto key = std::make_pair(c.slot, me);
        auto& list = want[me];
        if(!count[key]) { // where this subscriber's share of the thread's messages begins
            size_t k = 0;
            while(k < list.size() && list[k].text != c.msg) k++;
            CHECK(k < list.size(), "subscriber %lu got a message that thread %lu did not log: \"%.80s\"", c.slot, me, c.msg.c_str());
            first[key] = k;
        }
        size_t at = first[key] + count[key]++;
        CHECK(at < list.size(), "subscriber %lu got a message of thread %lu more: \"%.80s\"", c.slot, me, c.msg.c_str());
        check_call(c, list[at], r);
    }
    for(U me = 0; me < n; me++) {
        auto key = std::make_pair(whole, me);
        CHECK(count[key] == want[me].size() && (want[me].empty() || first[key] == 0), "a subscriber of the whole run got %zu messages of thread %lu instead of %zu",
              count[key], me, want[me].size());
    }
    for(auto& [x, v] : subs) { // of its own thread it saw exactly the messages of its time
        auto [me, span] = v;
        auto key = std::make_pair(x, me);
        CHECK(count[key] == span.second - span.first && (count[key] == 0 || first[key] == span.first),
              "subscriber %lu got %zu messages of its own thread instead of %zu", x, count[key], span.second - span.first);
    }
    pbt::nontrivial();
    if(storm) pbt::label("interrupted");
}

// --- times as text ---

PROP(times, 100000, 1000000) {
    const char* tz = zones[s.draw(3)];
    setenv("TZ", tz, 1);
    tzset();
    U t = s.pick({2, 1}) ? s.draw(200000) : s.draw(4000000000ull);
    time_t x = (time_t)t;
    tm m;
    localtime_r(&x, &m);
    char want[32];
    snprintf(want, sizeof want, "[%02d:%02d:%02d]", m.tm_hour, m.tm_min, m.tm_sec);
    auto g = Log::sys_time_string(t);
    CHECK(Bytes((const char*)g.data(), g.length()) == want, "the time %lu is shown as %.*s instead of %s", t, (int)g.length(), (const char*)g.data(), want);
    U a = (U)time(nullptr), b = Log::sys_time(), c = (U)time(nullptr);
    CHECK(a <= b && b <= c, "the time is %lu, not between %lu and %lu", b, a, c);
    errno = (int)s.range(1, 130);
    char copy[256];
    snprintf(copy, sizeof copy, "%s", strerror(errno));
    auto e = Log::sys_error();
    CHECK(Bytes((const char*)e.data(), e.length()) == copy, "error %d is described as \"%.*s\" instead of \"%s\"", errno, (int)e.length(), (const char*)e.data(), copy);
    pbt::nontrivial();
}
