// C25: what is written to a file is what is read back, and failures are reported.
#include "par.h"
#include <dirent.h>
#include <sys/statvfs.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include <rpp/pool.h>
using namespace par;
namespace A = rpp::Async;
namespace F = rpp::Files;
using rpp::u8;
using Bytes = std::string;

// --- faults: what the read and write calls of a case do, instead of transferring everything at once ---

struct Fault {
    enum Kind { FULL, SHORT, INTR, ERR, TRUNC, GROW } kind;
    U n;
};
static std::vector<Fault> plan; // for the next calls; then everything succeeds
static U plan_at = 0, plan_hits = 0;
static bool armed = false, hard_error = false;
static Bytes plan_path; // file that TRUNC and GROW change
static std::vector<Bytes> states; // what the file held at some moment
static bool peek(const Bytes&, Bytes&);
static bool next_fault(Fault& f) {
    if(!armed || plan_at >= plan.size()) return false;
    f = plan[plan_at++];
    if(f.kind != Fault::FULL) plan_hits++;
    return true;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void* __asan_region_is_poisoned(void*, size_t);
#define POISONED(p, n) __asan_region_is_poisoned((void*)(p), n)
#endif
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#ifndef POISONED
#define POISONED(p, n) nullptr
#endif
#ifndef TSAN
extern "C" ssize_t read(int fd, void* p, size_t n) {
    Fault f;
    if(armed) {
        if(POISONED(p, n)) {
            armed = false;
            pbt::fail("a read into memory outside the buffer (%zu bytes)", n);
        }
        if(n && next_fault(f)) switch(f.kind) {
            case Fault::FULL: break;
            case Fault::SHORT: n = 1 + f.n % n; break;
            case Fault::INTR: errno = EINTR; return -1;
            case Fault::ERR: hard_error = true; errno = EIO; return -1;
            case Fault::TRUNC: {
                struct stat st;
                if(!stat(plan_path.c_str(), &st) && st.st_size)
                    if(truncate(plan_path.c_str(), (off_t)(f.n % (U)st.st_size))) _exit(71);
                peek(plan_path, states.emplace_back());
                break;
            }
            case Fault::GROW: {
                int g = open(plan_path.c_str(), O_WRONLY | O_APPEND);
                if(syscall(SYS_write, g, "more and more", f.n % 14) < 0) _exit(71);
                close(g);
                peek(plan_path, states.emplace_back());
                break;
            }
            }
    }
    return syscall(SYS_read, fd, p, n);
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    Fault f;
    if(armed && fd > 2) {
        if(POISONED(p, n)) {
            armed = false;
            pbt::fail("a write from memory outside the data (%zu bytes)", n);
        }
        // logs also go through write(): only files under test are disturbed
        char link[64], to[512] = {};
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        if(readlink(link, to, sizeof to - 1) > 0 && plan_path == to && n && next_fault(f)) switch(f.kind) {
            case Fault::SHORT: n = 1 + f.n % n; break;
            case Fault::INTR: errno = EINTR; return -1;
            case Fault::ERR: hard_error = true; errno = ENOSPC; return -1;
            default: break;
            }
    }
    return syscall(SYS_write, fd, p, n);
}
#endif

// --- the harness's own view of files ---

static bool peek(const Bytes& path, Bytes& out) {
    out.clear();
    int fd = open(path.c_str(), O_RDONLY);
    if(fd < 0) return false;
    char b[65536];
    ssize_t n;
    while((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, (size_t)n);
    close(fd);
    return n == 0;
}
static void poke(const Bytes& path, const Bytes& data) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd < 0) _exit(71);
    for(size_t o = 0; o < data.size();) {
        ssize_t n = syscall(SYS_write, fd, data.data() + o, data.size() - o);
        if(n <= 0) _exit(71);
        o += (size_t)n;
    }
    close(fd);
}
static U fds() {
    static char root[4096];
    if(!root[0] && !realpath(pbt::scratch(), root)) _exit(71);
    DIR* p = opendir("/proc/self/fd");
    U n = 0;
    while(auto e = readdir(p)) {
        char to[300] = {};
        if(readlinkat(dirfd(p), e->d_name, to, sizeof to - 1) <= 0) continue;
        if(strncmp(to, root, strlen(root)) && strcmp(to, "/dev/full")) continue; // others belong to the pool
        n++;
    }
    closedir(p);
    return n;
}
static Bytes dir(const char* what) {
    static U k = 0;
    Bytes d = Bytes(pbt::scratch()) + "/" + what + std::to_string(getpid()) + "." + std::to_string(k++);
    if(mkdir(d.c_str(), 0755)) _exit(71);
    return d;
}
static void wipe(const Bytes& d) { // one level of plain files and links
    DIR* p = opendir(d.c_str());
    if(!p) return;
    while(auto e = readdir(p))
        if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
            Bytes f = d + "/" + e->d_name;
            if(unlink(f.c_str())) rmdir(f.c_str());
        }
    closedir(p);
    rmdir(d.c_str());
}
// A view of exactly these bytes: any access beyond them is out of bounds.
struct Exact {
    u8* p;
    U n;
    Exact(const Bytes& s) : p((u8*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
        memcpy(p, s.data(), n);
    }
    Exact(const Exact&) = delete;
    ~Exact() {
        free(p);
    }
    rpp::String_View view() {
        return rpp::String_View{p, n};
    }
};
static Bytes content(Src& s) {
    U n;
    switch(s.pick({3, 3, 2, 2, 1})) {
    case 0: n = s.draw(4); break;
    case 1: n = s.draw(300); break;
    case 2: n = s.of<unsigned>({4095, 4096, 4097, 8192, 65535, 65536, 65537}); break;
    case 3: n = s.draw(20000); break;
    default: n = s.draw(pbt::thorough() ? 3000000 : 300000); break;
    }
    Bytes b(n, 0);
    U x = s.draw(1 << 20), kind = s.draw(3);
    for(U i = 0; i < n; i++) b[i] = kind == 0 ? (char)('a' + (i + x) % 26) : kind == 1 ? 0 : kind == 2 ? (char)(i * 7 + x) : (char)pbt::mix(x + i);
    return b;
}
static A::Pool<>& pool() {
    static A::Pool<>* p = new A::Pool<>; // once per process
    return *p;
}
static rpp::Opt<rpp::Vec<u8, F::Alloc>> do_read(bool async, const Bytes& path) {
    Exact e(path);
    if(async) return A::read(pool(), e.view()).block();
    return F::read(e.view());
}
static bool do_write(bool async, const Bytes& path, const Bytes& data) {
    Exact e(path), d(data);
    if(async) return A::write(pool(), e.view(), rpp::Slice<u8>{d.p, d.n}).block();
    return F::write(e.view(), rpp::Slice<const u8>{d.p, d.n});
}
static Bytes str(const rpp::Vec<u8, F::Alloc>& v) {
    return v.length() ? Bytes((const char*)v.data(), v.length()) : Bytes();
}
static const char* way(bool async) {
    return async ? "asynchronous" : "direct";
}
static void check_same(const char* what, const Bytes& got, const Bytes& want) {
    if(got == want) return;
    size_t i = 0;
    while(i < got.size() && i < want.size() && got[i] == want[i]) i++;
    pbt::fail("%s %zu bytes instead of %zu, different from byte %zu on", what, got.size(), want.size(), i);
}

// --- histories ---

PROP(histories, 30000, 300000) {
    pool();
    Bytes d = dir("h");
    U open0 = fds();
    umask(s.of<unsigned>({022, 077, 0}));
    std::vector<Bytes> paths;
    for(U i = 0, n = s.range(1, 4); i < n; i++) {
        Bytes name = "f" + std::to_string(i);
        switch(s.pick({4, 1, 1, 1})) {
        case 1: name += Bytes(255 - name.size(), 'x'); break;
        case 2: name += " \xc3\xa9 %n%s\n\xff"; break;
        case 3: name = "." + name + "."; break;
        }
        paths.push_back(d + "/" + name);
    }
    U plain = paths.size();
    if(s.chance(1, 3)) { // another name of the first file
        paths.push_back(d + "/link");
        if(symlink(paths[0].c_str(), paths.back().c_str())) _exit(71);
    }
    auto real = [&](U i) { return i < plain ? i : 0; };
    std::map<U, Bytes> model;
    U left = s.limit(4, 10, 30), writes = 0, shorter = 0, reads = 0;
    while(s.step(left)) {
        U i = s.draw(paths.size() - 1);
        bool async = s.chance(1, 3);
        switch(s.pick({4, 4, 1, 1, 1})) {
        case 0: {
            Bytes c = content(s);
            NOTE("%s write of %zu bytes to %lu", way(async), c.size(), i);
            bool old = model.count(real(i));
            CHECK(do_write(async, paths[i], c), "a %s write of %zu bytes to a writable path failed", way(async), c.size());
            if(old && model[real(i)].size() > c.size()) shorter++;
            model[real(i)] = c;
            Bytes now;
            CHECK(peek(paths[i], now), "the file is not there after a write");
            check_same("after a write the file has", now, c);
            struct stat st;
            if(stat(paths[i].c_str(), &st)) _exit(71);
            if(!old) CHECK((st.st_mode & 0700) == 0600 && !(st.st_mode & 07111), "a file was created with mode %o", st.st_mode & 07777);
            writes++;
            break;
        }
        case 1: {
            NOTE("%s read of %lu", way(async), i);
            auto g = do_read(async, paths[i]);
            bool is = model.count(real(i));
            CHECK(g.ok() == is, "a %s read of a file that %s %s", way(async), is ? "exists" : "does not exist", g.ok() ? "succeeded" : "failed");
            if(is) check_same("a read gave", str(*g), model[real(i)]), reads++;
            break;
        }
        case 2: {
            NOTE("someone removes %lu", real(i));
            unlink(paths[real(i)].c_str());
            model.erase(real(i));
            break;
        }
        case 3: {
            Bytes c = content(s);
            NOTE("someone writes %zu bytes to %lu", c.size(), i);
            poke(paths[i], c);
            model[real(i)] = c;
            break;
        }
        case 4: {
            if(!model.count(real(i))) break;
            NOTE("reads %lu inside a region, twice at once", i);
            rpp::Region_Allocator::Scope<1> r{};
            auto x = do_read(async, paths[i]), y = do_read(!async, paths[i]);
            CHECK(x.ok() && y.ok(), "a read of an existing file failed");
            check_same("a read gave", str(*x), model[real(i)]);
            check_same("a read gave", str(*y), model[real(i)]);
            break;
        }
        }
        CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    }
    for(U i = 0; i < plain; i++) { // nothing else changed
        Bytes now;
        bool is = peek(paths[i], now);
        CHECK(is == (bool)model.count(i), "file %lu appeared or vanished", i);
        if(is) check_same("an untouched file has", now, model[i]);
    }
    wipe(d);
    umask(022);
    if(writes > 1 && reads) pbt::nontrivial();
    if(shorter) pbt::label("shorter");
}

// --- operations that cannot be performed ---

PROP(impossible, 30000, 300000) {
    pool();
    Bytes d = dir("i"), f = d + "/file", path;
    poke(f, "content");
    U open0 = fds();
    bool async = s.coin(), writing = s.coin(), readable = false;
    static const char* names[] = {"a directory", "the empty path", "a missing parent", "a file as parent", "a name too long", "a path too long",
                                  "a link loop", "no descriptors left", "a full device", "no permission", "a file size limit", "a dangling link",
                                  "a socket", "a pipe"};
    U k = s.draw(13);
    NOTE("%s %s: %s", way(async), writing ? "write" : "read", names[k]);
    rlimit old;
    bool can = false, keep = true;
    auto done = [&](bool ok) { // what a failing call must leave behind
        CHECK(ok == can, "%s: a %s %s %s", names[k], way(async), writing ? "write" : "read", ok ? "reported success" : "failed");
        CHECK(fds() == open0, "%s: %lu descriptors open, %lu before", names[k], fds(), open0);
        Bytes now;
        if(keep) {
            CHECK(peek(f, now), "a file vanished");
            check_same("an untouched file has", now, "content");
        }
    };
    auto go = [&](const Bytes& data = "new") {
        bool ok;
        if(writing) ok = do_write(async, path, data);
        else {
            auto g = do_read(async, path);
            ok = g.ok();
            readable = ok && str(*g) == "content";
        }
        return ok;
    };
    switch(k) {
    case 0: path = s.coin() ? d : d + "/"; done(go()); break;
    case 1: path = ""; done(go()); break;
    case 2: path = d + "/none/file"; done(go()); break;
    case 3: path = f + "/file"; done(go()); break;
    case 4: path = d + "/" + Bytes(256 + s.draw(100), 'x'); done(go()); break;
    case 5:
        path = d + "/";
        while(path.size() < 4090) path += "./";
        path += Bytes(10 + s.draw(5000), 'x');
        done(go());
        break;
    case 6:
        path = d + "/loop";
        if(symlink(path.c_str(), path.c_str())) _exit(71);
        done(go());
        break;
    case 7: {
        path = f;
        std::vector<int> hog; // every free descriptor is taken
        getrlimit(RLIMIT_NOFILE, &old);
        rlimit low = old;
        low.rlim_cur = std::min<rlim_t>(old.rlim_cur, 200);
        setrlimit(RLIMIT_NOFILE, &low);
        for(int h; (h = dup(2)) >= 0;) hog.push_back(h);
        bool ok = go();
        for(int h : hog) close(h);
        setrlimit(RLIMIT_NOFILE, &old);
        done(ok);
        break;
    }
    case 8: {
        path = "/dev/full"; // every write fails with ENOSPC
        writing = true;
        done(go());
        break;
    }
    case 9: {
        if(geteuid() != 0) return;
        path = f;
        chmod(f.c_str(), writing ? 0444 : 0);
        if(seteuid(65534)) _exit(71);
        bool ok = go();
        if(seteuid(0)) _exit(71);
        done(ok);
        break;
    }
    case 10: { // the file may not grow that far
        path = d + "/limited";
        writing = true;
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit low = old;
        U at = s.of<unsigned>({0, 1, 100, 4096, 5000}), n = s.range(0, 9000);
        low.rlim_cur = at;
        signal(SIGXFSZ, SIG_IGN);
        auto out = dup(1); // the log must not hit the limit
        setrlimit(RLIMIT_FSIZE, &low);
        Bytes data(n, 'q');
        bool ok = go(data);
        setrlimit(RLIMIT_FSIZE, &old);
        close(out);
        can = n <= at;
        done(ok);
        if(can) {
            Bytes now;
            CHECK(peek(path, now), "the file is not there after a write");
            check_same("after a write the file has", now, data);
        }
        break;
    }
    case 11: {
        path = d + "/dangling";
        Bytes to = d + "/target", now;
        if(symlink(to.c_str(), path.c_str())) _exit(71);
        can = writing;
        done(go());
        CHECK(peek(to, now) == can, "writing through a link %s", can ? "did not create its target" : "created its target");
        if(can) check_same("after a write the file has", now, "new");
        break;
    }
    case 12: {
        path = d + "/sock";
        if(mknod(path.c_str(), S_IFSOCK | 0600, 0)) return;
        done(go());
        break;
    }
    case 13: { // a pipe has no size to read
        path = d + "/fifo";
        if(mkfifo(path.c_str(), 0600)) _exit(71);
        int h = open(path.c_str(), O_RDWR | O_NONBLOCK);
        if(h < 0 || syscall(SYS_write, h, "x", 1) != 1) _exit(71);
        writing = false;
        open0++;
        done(go());
        close(h);
        break;
    }
    }
    // the next operations work as ever
    CHECK(do_write(async, f, "content!"), "after a failed operation a write failed");
    auto g = do_read(async, f);
    CHECK(g.ok(), "after a failed operation a read failed");
    check_same("after a failed operation a read gave", str(*g), "content!");
    wipe(d);
    pbt::label(names[k]);
    pbt::nontrivial();
}

// --- transfers that the system splits, interrupts or breaks off ---

#ifndef TSAN
PROP(faults, 60000, 800000) {
    pool();
    Bytes d = dir("f");
    char abs[4096];
    if(!realpath(d.c_str(), abs)) _exit(71);
    Bytes path = Bytes(abs) + "/file", before = content(s), data = content(s), now;
    bool async = s.coin(), writing = s.coin();
    poke(path, before);
    plan.clear();
    for(U i = 0, n = s.range(1, 12); i < n; i++) {
        Fault f{(Fault::Kind)s.pick({2, 6, 4, 1, 1, 1}), s.draw(1 << 20)};
        if(s.coin()) f.n %= 64;
        if(writing && f.kind >= Fault::TRUNC) f.kind = Fault::SHORT;
        plan.push_back(f);
        NOTE("fault %d %lu", f.kind, f.n);
    }
    NOTE("%s %s of %zu bytes", way(async), writing ? "write" : "read", writing ? data.size() : before.size());
    plan_path = path;
    plan_at = plan_hits = 0;
    hard_error = false;
    U open0 = fds();
    bool ok;
    states = {before};
    if(writing) {
        armed = true;
        ok = do_write(async, path, data);
        armed = false;
        CHECK(ok == !hard_error, "a write during which %s reported %s", hard_error ? "the device failed" : "nothing failed", ok ? "success" : "failure");
        CHECK(peek(path, now), "the file is gone");
        if(ok) check_same("after a write the file has", now, data);
        else if(now.size() > data.size() || data.compare(0, now.size(), now) != 0) check_same("after a failed write the file has", now, data);
    } else {
        armed = true;
        auto g = do_read(async, path);
        armed = false;
        ok = g.ok();
        bool moved = false;
        for(U i = 0; i < plan_at; i++) moved |= plan[i].kind >= Fault::TRUNC;
        if(hard_error) CHECK(!ok, "a read during which the device failed reported success");
        else if(!moved) CHECK(ok, "a read during which nothing failed reported failure");
        if(ok && !moved) check_same("a read gave", str(*g), before);
        if(ok && moved) { // the file changed size meanwhile: what was read must have been there
            Bytes got = str(*g);
            for(size_t i = 0; i < got.size(); i++) {
                bool was = false;
                for(auto& x : states) was |= i < x.size() && x[i] == got[i];
                CHECK(was, "a read of a file that changed its size gave a byte it never had (%zu of %zu)", i, got.size());
            }
            pbt::label("size changed");
        }
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    if(plan_hits) pbt::nontrivial();
    if(hard_error) pbt::label("device failed");
    plan.clear();
    wipe(d);
}
#endif

// --- many at once ---

static A::Task<U> job(A::Pool<>* p, U seed, Bytes path, U rounds) {
    U r = seed;
    for(U k = 0; k < rounds; k++) {
        r = pbt::mix(r);
        co_await p->suspend();
        Bytes data(r % 5000, (char)r);
        for(size_t i = 0; i < data.size(); i += 3) data[i] = (char)pbt::mix(r + i);
        bool w = co_await A::write(*p, rpp::String_View{(const u8*)path.data(), path.size()}, rpp::Slice<u8>{(u8*)data.data(), data.size()});
        CHECK(w, "a write to a writable path failed");
        if(r & (1 << 20)) co_await p->suspend();
        auto g = co_await A::read(*p, rpp::String_View{(const u8*)path.data(), path.size()});
        CHECK(g.ok(), "a read of an existing file failed");
        check_same("a read gave", str(*g), data);
        auto h = co_await A::read(*p, "/nonexistent/file"_v);
        CHECK(!h.ok(), "a read of a missing file succeeded");
    }
    co_return rounds;
}
PROP_F(concurrent, 1500, 20000, pbt::FEW | pbt::NONDET) {
    auto& p = pool();
    Bytes d = dir("c");
    U open0 = fds();
    {
        pbt::Deadline dl(25, "file operations on the pool");
        U n = s.range(1, 16), rounds = s.range(1, 6), seed = s.draw(1 << 30);
        NOTE("%lu jobs, %lu rounds", n, rounds);
        std::vector<A::Task<U>> ts;
        for(U i = 0; i < n; i++) ts.push_back(job(&p, seed + i, d + "/" + std::to_string(i), rounds));
        for(auto& t : ts) CHECK(t.block() == rounds, "a job delivered a wrong value");
        for(auto& t : ts)
            while(!t.done()) usleep(10);
    }
    CHECK(fds() == open0, "%lu descriptors open, %lu before", fds(), open0);
    wipe(d);
    pbt::nontrivial();
}

// --- write times ---

PROP(watchers, 40000, 500000) {
    Bytes d = dir("w");
    Bytes path = d + "/file", other = d + "/other";
    // the model follows the file's modification time
    auto time = [&](const Bytes& p, U& t) {
        struct stat st;
        if(stat(p.c_str(), &st)) return false;
        t = (U)st.st_mtim.tv_sec * 1000000000 + (U)st.st_mtim.tv_nsec;
        return true;
    };
    Bytes now;
    U clock = 1000000000000000000ull + s.draw(1000) * 333333333, last = 0, polls = 0, hits = 0, past = 0;
    auto stamp = [&](const Bytes& p) {
        timespec ts[2];
        ts[0].tv_sec = ts[1].tv_sec = (time_t)(clock / 1000000000);
        ts[0].tv_nsec = ts[1].tv_nsec = (long)(clock % 1000000000);
        if(utimensat(AT_FDCWD, p.c_str(), ts, 0)) _exit(71);
    };
    auto touch = [&](const Bytes& p) { // written at the current moment of the case
        clock += s.of<U>({1000000000, 5000000, 1000, 1, 0});
        if(s.chance(1, 12)) clock -= 2000000000, past++;
        poke(p, s.coin() ? "a" : "bb");
        stamp(p);
    };
    if(s.coin()) touch(path);
    Exact e(path);
    F::Write_Watcher w{e.view()};
    CHECK(w.path() == e.view(), "a watcher has another path");
    if(!time(path, last)) last = 0;
    U left = s.limit(5, 12, 40);
    while(s.step(left)) {
        switch(s.pick({3, 4, 1, 1, 1})) {
        case 0: touch(path); NOTE("the file is written at %lu", clock); break;
        case 1: {
            U t;
            bool want = time(path, t) ? t > last : false;
            if(time(path, t)) last = t;
            bool g = w.poll();
            NOTE("poll");
            CHECK(g == want, "a watched file was %s since the last look, but poll says %d", want ? "written" : "not written", g);
            polls++, hits += g;
            break;
        }
        case 2: NOTE("another file is written"); touch(other); break;
        case 3: NOTE("the file is removed"); unlink(path.c_str()); break;
        case 4: {
            auto g = w.read();
            bool is = peek(path, now);
            CHECK(g.ok() == is, "a watcher's read of a file that %s", is ? "exists failed" : "does not exist succeeded");
            if(is) check_same("a watcher read", str(*g), now);
            break;
        }
        }
        U t;
        auto g = F::last_write_time(e.view());
        CHECK(g.ok() == time(path, t), "the write time of a file that %s", g.ok() ? "does not exist" : "exists is absent");
        if(g.ok() && time(other, t)) {
            Exact o(other);
            auto h = F::last_write_time(o.view());
            U u;
            if(!time(path, u)) _exit(71);
            CHECK(h.ok(), "the write time of a file that exists is absent");
            CHECK(F::before(*g, *h) == (u < t) && F::before(*h, *g) == (t < u), "two files' write times are ordered wrongly");
        }
    }
    F::Write_Watcher none{""_v};
    CHECK(!none.poll(), "a watcher of nothing saw a write");
    wipe(d);
    if(polls > 1 && hits) pbt::nontrivial();
    if(past) pbt::label("time went back");
}

// --- more than the system transfers at once (2 GiB) ---

PROP_F(huge, 1, 2, pbt::ONE) {
    struct statvfs fs;
    if(!pbt::thorough() || statvfs(pbt::scratch(), &fs) || (U)fs.f_bavail * fs.f_frsize < (10ull << 30)) return;
    Bytes d = dir("g"), path = d + "/file";
    U n = (2ull << 30) + 4096 * s.draw(3) + s.draw(4095);
    int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
    U a = pbt::mix(n), b = pbt::mix(a);
    if(pwrite(fd, &a, 8, 0) != 8 || pwrite(fd, &b, 8, (off_t)n - 8) != 8) _exit(71);
    close(fd);
    {
        auto g = F::read(Exact(path).view());
        CHECK(g.ok() && g->length() == n, "a read of %lu bytes gave another number", n);
        U x, y;
        memcpy(&x, g->data(), 8), memcpy(&y, g->data() + n - 8, 8);
        CHECK(x == a && y == b, "a read of %lu bytes gave wrong bytes", n);
        CHECK(F::write(Exact(path + "2").view(), rpp::Slice<const u8>{g->data(), g->length()}), "a write of %lu bytes failed", n);
    }
    struct stat st;
    if(stat((path + "2").c_str(), &st)) _exit(71);
    CHECK((U)st.st_size == n, "a write of %lu bytes left %ld", n, (long)st.st_size);
    U y;
    fd = open((path + "2").c_str(), O_RDONLY);
    if(pread(fd, &y, 8, (off_t)n - 8) != 8) _exit(71);
    close(fd);
    CHECK(y == b, "a write of %lu bytes left wrong bytes", n);
    wipe(d);
    pbt::nontrivial();
}
