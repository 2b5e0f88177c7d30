// C26: UDP datagrams arrive unaltered with truthful length and sender. Loopback only.
#include "par.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <rpp/net.h>
using namespace par;
namespace N = rpp::Net;
using N::Address;
using N::Packet;
using N::Udp;
using rpp::u8;
constexpr U CAP = N::min_transmissible_unit;
using Bytes = std::string;

static U sockets() {
    DIR* p = opendir("/proc/self/fd");
    U n = 0;
    while(auto e = readdir(p)) {
        char to[64] = {};
        if(readlinkat(dirfd(p), e->d_name, to, sizeof to - 1) > 0 && !strncmp(to, "socket:", 7)) n++;
    }
    closedir(p);
    return n;
}
// Every worker process has loopback addresses of its own: 127.a.b.1 to .254, so that ports cannot collide.
static Bytes own_ip(U host) {
    static U a, b;
    static pid_t me = 0;
    if(me != getpid()) {
        me = getpid();
        a = 1 + (U)me / 254 % 254, b = (U)me % 254;
    }
    return "127." + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(1 + host % 254);
}
static sockaddr_in sys(const Bytes& ip, U port) {
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_port = htons((uint16_t)port);
    if(inet_pton(AF_INET, ip.c_str(), &a.sin_addr) != 1) _exit(71);
    return a;
}
// The case runs on one processor, where loopback keeps the order of datagrams.
struct Pinned {
    cpu_set_t old;
    Pinned() {
        sched_getaffinity(0, sizeof old, &old);
        cpu_set_t one;
        CPU_ZERO(&one);
        int c = sched_getcpu();
        CPU_SET(c < 0 || !CPU_ISSET(c, &old) ? 0 : c, &one);
        sched_setaffinity(0, sizeof one, &one);
    }
    ~Pinned() {
        sched_setaffinity(0, sizeof old, &old);
    }
};
// Text in a buffer of its own or in the middle of other text that would change its meaning.
struct Text {
    u8* p;
    U n, off;
    Text(Src& s, const Bytes& t) : n(t.size()), off(0) {
        Bytes all = t;
        if(s.coin()) all = t + s.of<const char*>({"5", ".1", "0", "x", " "});
        if(s.coin()) off = 2, all = "12" + all;
        p = (u8*)malloc(all.size() ? all.size() : 1);
        memcpy(p, all.data(), all.size());
    }
    Text(const Text&) = delete;
    ~Text() {
        free(p);
    }
    rpp::String_View view() {
        return rpp::String_View{p + off, n};
    }
};
static void fill(Packet& p, U x) {
    for(U i = 0; i < CAP; i++) p[i] = (u8)pbt::mix(x + i / 8);
}
static Bytes str(const Packet& p, U n) {
    return Bytes((const char*)p.data(), n);
}
static U payload(Src& s) {
    switch(s.pick({3, 3, 2})) {
    case 0: return s.draw(16);
    case 1: return s.draw(CAP);
    default: return CAP - s.draw(3);
    }
}
static rpp::Opt<Udp::Data> await(Udp& u, Packet& p) { // loopback may deliver a moment later
    for(U i = 0; i < 20000; i++) {
        auto d = u.recv(p);
        if(d.ok()) return d;
        if(i < 50) sched_yield();
        else usleep(100);
    }
    return {};
}

struct Sock {
    rpp::Opt<Udp> u;
    Bytes ip; // empty: not bound
    U port = 0;
    bool live = false;
    std::deque<std::pair<Bytes, int>> in; // pending: bytes and sender (-1 a foreign one), full length
    std::deque<U> full;
};
PROP(histories, 40000, 400000) {
    Pinned pin;
    U open0 = sockets(), delivered = 0, replies = 0, moves = 0, oversized = 0, empties = 0;
    {
        std::deque<Sock> k;
        U n = s.range(1, 5);
        U base = s.chance(1, 4) ? 61000 + s.draw(4500) : 1024 + s.draw(20000);
        auto open_sock = [&](Sock& x, U i) {
            x.u = rpp::Opt<Udp>{Udp{}};
            x.live = true;
            x.ip = "", x.port = 0;
            x.in.clear(), x.full.clear();
            if(s.chance(4, 5)) {
                x.ip = own_ip(s.draw(3));
                x.port = base + i;
                Text t(s, x.ip);
                NOTE("%lu is bound to %s:%lu", i, x.ip.c_str(), x.port);
                x.u->bind(Address{t.view(), (rpp::u16)x.port});
            }
        };
        for(U i = 0; i < n; i++) open_sock(k.emplace_back(), i);
        int foreign = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        sockaddr_in fa = sys(own_ip(9), 0);
        if(bind(foreign, (sockaddr*)&fa, sizeof fa)) _exit(71);
        auto receive = [&](U i, bool reply) {
            Sock& x = k[i];
            Packet p;
            fill(p, 999);
            Packet before = p.clone();
            if(x.in.empty()) {
                auto d = x.u->recv(p);
                CHECK(!d.ok(), "%lu has nothing pending, but received %lu bytes", i, d->length);
                CHECK(str(p, CAP) == str(before, CAP), "a receive that gave nothing changed the packet");
                return;
            }
            auto d = await(*x.u, p);
            CHECK(d.ok(), "a datagram sent to %lu never arrived", i);
            auto [want, from] = x.in.front();
            U full = x.full.front();
            x.in.pop_front(), x.full.pop_front();
            NOTE("%lu receives %lu bytes from %d", i, full, from);
            CHECK(d->length == full, "%lu received a datagram of %lu bytes as %lu", i, full, d->length);
            CHECK(str(p, want.size()) == want, "%lu received other bytes than were sent (%zu)", i, want.size());
            CHECK(str(p, CAP).substr(want.size()) == str(before, CAP).substr(want.size()), "a datagram of %zu bytes changed the packet beyond them", want.size());
            delivered++;
            empties += full == 0;
            if(!reply || from == -2) return;
            // an answer to the sender's address reaches it
            fill(p, delivered);
            U m = payload(s);
            if(from >= 0) {
                if(!k[(U)from].live || k[(U)from].in.size() >= 12) return;
                U sent = x.u->send(d->from, p, m);
                CHECK(sent == m, "a send of %lu bytes sent %lu", m, sent);
                k[(U)from].in.push_back({str(p, m), (int)i}), k[(U)from].full.push_back(m);
            } else {
                CHECK(x.u->send(d->from, p, m) == m, "a send of %lu bytes sent another number", m);
                char b[4000];
                pollfd pf{foreign, POLLIN, 0};
                CHECK(poll(&pf, 1, 3000) == 1, "an answer never arrived at its sender");
                sockaddr_in back = {};
                socklen_t bl = sizeof back;
                ssize_t g = recvfrom(foreign, b, sizeof b, 0, (sockaddr*)&back, &bl);
                CHECK(g == (ssize_t)m && !memcmp(b, p.data(), m), "an answer arrived changed");
                if(!x.ip.empty()) {
                    sockaddr_in w = sys(x.ip, x.port);
                    CHECK(back.sin_port == w.sin_port && back.sin_addr.s_addr == w.sin_addr.s_addr, "a bound socket sent from another address");
                }
            }
            NOTE("and answers with %lu bytes", m);
            replies++;
        };
        U left = s.limit(8, 25, 80);
        while(s.step(left)) {
            U i = s.draw(n - 1), j = s.draw(n - 1);
            switch(s.pick({6, 6, 2, 2, 2, 1, 1})) {
            case 0: { // i sends to j
                if(!k[i].live || !k[j].live || k[j].ip.empty() || k[j].in.size() >= 12) break;
                U m = payload(s);
                Packet p;
                fill(p, s.draw(1 << 20));
                Text t(s, k[j].ip);
                Address to{t.view(), (rpp::u16)k[j].port};
                NOTE("%lu sends %lu bytes to %lu", i, m, j);
                U sent = k[i].u->send(to, p, m);
                CHECK(sent == m, "a send of %lu bytes sent %lu", m, sent);
                k[j].in.push_back({str(p, m), (int)i}), k[j].full.push_back(m);
                break;
            }
            case 1:
                if(k[i].live) receive(i, s.chance(1, 4));
                break;
            case 2: { // a foreign sender, not limited to the packet's capacity
                if(!k[j].live || k[j].ip.empty() || k[j].in.size() >= 12) break;
                U m = s.coin() ? payload(s) : CAP + s.draw(3000);
                Bytes b(m, 0);
                U x = s.draw(1 << 20);
                for(U q = 0; q < m; q++) b[q] = (char)pbt::mix(x + q / 8);
                sockaddr_in to = sys(k[j].ip, k[j].port);
                NOTE("someone sends %lu bytes to %lu", m, j);
                if(sendto(foreign, b.data(), m, 0, (sockaddr*)&to, sizeof to) != (ssize_t)m) _exit(71);
                k[j].in.push_back({b.substr(0, CAP), -1}), k[j].full.push_back(m);
                oversized += m > CAP;
                break;
            }
            case 3: { // a socket moves; what is pending moves with it
                if(i == j || !k[i].live || !k[j].live) break;
                NOTE("%lu and %lu change places", i, j);
                Udp x = rpp::move(*k[i].u);
                *k[i].u = rpp::move(*k[j].u);
                *k[j].u = rpp::move(x);
                std::swap(k[i].ip, k[j].ip), std::swap(k[i].port, k[j].port), std::swap(k[i].in, k[j].in), std::swap(k[i].full, k[j].full);
                for(auto& y : k)
                    for(auto& q : y.in) q.second = q.second == (int)i ? (int)j : q.second == (int)j ? (int)i : q.second;
                moves++;
                break;
            }
            case 4: { // a socket is closed and its address used again at once
                if(!k[i].live) break;
                bool by_assignment = s.coin();
                Bytes ip = k[i].ip;
                U port = k[i].port;
                NOTE("%lu is %s", i, by_assignment ? "replaced" : "closed and opened again");
                for(auto& y : k)
                    for(auto& q : y.in)
                        if(q.second == (int)i) q.second = -2; // its sender is gone
                if(by_assignment) *k[i].u = Udp{};
                else {
                    k[i].u.clear();
                    k[i].u = rpp::Opt<Udp>{Udp{}};
                }
                k[i].in.clear(), k[i].full.clear();
                if(!ip.empty()) {
                    Text t(s, ip);
                    k[i].u->bind(Address{t.view(), (rpp::u16)port});
                }
                break;
            }
            case 5: {
                if(!k[i].live) break;
                NOTE("%lu is closed", i);
                for(auto& y : k)
                    for(auto& q : y.in)
                        if(q.second == (int)i) q.second = -2;
                k[i].u.clear();
                k[i].live = false;
                break;
            }
            case 6:
                if(!k[i].live) {
                    for(auto& y : k)
                        for(auto& q : y.in)
                            if(q.second == (int)i) q.second = -2;
                    bool free_port = true;
                    for(auto& y : k) free_port &= !(y.live && y.port == base + i);
                    if(free_port) open_sock(k[i], i);
                }
                break;
            }
            U live = 0;
            for(auto& x : k) live += x.live;
            CHECK(sockets() == open0 + live + 1, "%lu sockets open instead of %lu", sockets() - open0 - 1, live);
        }
        for(U i = 0; i < n; i++)
            if(k[i].live) {
                while(!k[i].in.empty()) receive(i, false);
                receive(i, false);
            }
        close(foreign);
    }
    CHECK(sockets() == open0, "%lu sockets open, %lu before", sockets(), open0);
    if(delivered > 2) pbt::nontrivial();
    if(replies) pbt::label("answers");
    if(moves) pbt::label("moves");
    if(oversized) pbt::label("oversized");
    if(empties) pbt::label("empty datagrams");
}

// --- addresses ---

static bool reference(const Bytes& t, uint8_t q[4]) { // four decimal fields from 0 to 255, no leading zeros
    size_t i = 0;
    for(int f = 0; f < 4; f++) {
        if(f && (i >= t.size() || t[i++] != '.')) return false;
        size_t a = i;
        unsigned v = 0;
        while(i < t.size() && t[i] >= '0' && t[i] <= '9' && i - a < 3) v = v * 10 + (unsigned)(t[i++] - '0');
        if(i == a || v > 255 || (i - a > 1 && t[a] == '0')) return false;
        q[f] = (uint8_t)v;
    }
    return i == t.size();
}
PROP(addresses, 20000, 300000) {
    Bytes t;
    switch(s.pick({4, 3, 2, 1})) {
    case 0: t = own_ip(s.draw(300)); break;
    case 1: { // nearly an address
        t = std::to_string(s.draw(300)) + "." + std::to_string(s.draw(300)) + "." + std::to_string(s.draw(300)) + "." + std::to_string(s.draw(300));
        if(s.coin()) {
            U at = s.draw(t.size());
            switch(s.draw(2)) {
            case 0: t.insert(at, 1, s.of<char>({'.', '0', '1', ' ', '-', 'x', '\n', 'a'})); break;
            case 1: if(at < t.size()) t.erase(at, 1 + s.draw(2)); break;
            default: if(at < t.size()) t[at] = (char)s.range(1, 255); break;
            }
        }
        break;
    }
    case 2: t = s.of<const char*>({"", "localhost", "::1", "1.2.3", "1.2.3.4.5", "127.1", "0x7f.0.0.1", "127.0.0.1 ", " 127.0.0.1", "127.0.0.01", "256.0.0.1", "1..2.3", ".1.2.3", "1.2.3.", "127.0.0.1:80", "1.2.3.4567", "2130706433"}); break;
    default: {
        U n = s.draw(2000);
        while(t.size() < n) t += (char)s.of<char>({'1', '.', '2', '0'});
        break;
    }
    }
    uint8_t q[4];
    bool good = reference(t, q);
    U port = s.of<unsigned>({1024, 5353, 20000, 255, 256, 0x1234, 30000, 61000, 65280, 65535});
    NOTE("\"%s\" (%s)", t.c_str(), good ? "an address" : "not an address");
    Text x(s, t);
    if(!good) {
        if(!pbt::thorough() && !s.chance(1, 4)) return; // costs a process
        EXPECT_DIES("an address built from a text that is none", Address a{x.view(), (rpp::u16)port});
        pbt::label("rejected");
        pbt::nontrivial();
        return;
    }
    Address a{x.view(), (rpp::u16)port};
    Address b = a, c;
    c = rpp::move(b);
    if(q[0] != 127 || q[3] == 0 || q[3] == 255) return; // nothing outside of this machine is contacted
    if(t.compare(0, t.rfind('.'), own_ip(0), 0, own_ip(0).rfind('.')) != 0) return;
    // what is sent there arrives there
    int there = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_in w = sys(t, port);
    if(bind(there, (sockaddr*)&w, sizeof w)) _exit(71);
    Udp u;
    Packet p;
    fill(p, port);
    CHECK(u.send(c, p, 7) == 7, "a send of 7 bytes sent another number");
    pollfd pf{there, POLLIN, 0};
    CHECK(poll(&pf, 1, 3000) == 1, "a datagram for %s:%lu did not arrive there", t.c_str(), port);
    char buf[100];
    CHECK(::recv(there, buf, sizeof buf, 0) == 7 && !memcmp(buf, p.data(), 7), "a datagram arrived changed");
    close(there);
    pbt::nontrivial();
}
// An address of a port alone stands for every address of this machine.
PROP(any_address, 2000, 20000) {
    char lock[4200];
    snprintf(lock, sizeof lock, "%s/../any_address.lock", pbt::scratch());
    int l = open(lock, O_CREAT | O_RDWR, 0600);
    if(l >= 0 && flock(l, LOCK_EX)) _exit(71); // ports of all addresses are shared by all workers
    {
        U port = (s.coin() ? 31000 : 61100) + s.draw(1600);
        int probe = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        sockaddr_in any = sys("0.0.0.0", port);
        bool is_free = !bind(probe, (sockaddr*)&any, sizeof any);
        close(probe);
        if(is_free) {
            Udp u, v;
            u.bind(Address{(rpp::u16)port});
            Packet p, in;
            fill(p, port);
            for(U k = 0, m = s.range(1, 3); k < m; k++) {
                Bytes ip = s.coin() ? own_ip(s.draw(200)) : "127.0.0.1";
                U n = payload(s);
                Text t(s, ip);
                CHECK(v.send(Address{t.view(), (rpp::u16)port}, p, n) == n, "a send of %lu bytes sent another number", n);
                auto d = await(u, in);
                CHECK(d.ok() && d->length == n && str(in, n) == str(p, n), "a datagram to %s did not arrive as sent", ip.c_str());
            }
            CHECK(!u.recv(in).ok(), "a datagram arrived twice");
            pbt::nontrivial();
        }
    }
    if(l >= 0) close(l);
}
PROP(misuse, 600, 6000) {
    Udp u, v;
    Packet p;
    fill(p, 1);
    U port = s.coin() ? 1024 + s.draw(20000) : 61000 + s.draw(4535);
    Bytes ip = own_ip(1);
    Text t(s, ip);
    Address a{t.view(), (rpp::u16)port};
    switch(s.draw(4)) {
    case 0: {
        U n = s.coin() ? CAP + 1 + s.draw(3) : s.of<U>({CAP + 100, 65536, ~0ull, 1ull << 32});
        EXPECT_DIES("a send of more than the packet", (void)u.send(a, p, n));
        break;
    }
    case 1: {
        u.bind(a);
        EXPECT_DIES("binding an address in use", v.bind(a));
        break;
    }
    case 2: {
        Udp w = rpp::move(u);
        CHECK(!u.recv(p).ok(), "a moved-from socket received something");
        EXPECT_DIES("a send from a moved-from socket", (void)u.send(a, p, 1));
        break;
    }
    case 3: {
        u.bind(a);
        EXPECT_DIES("binding a socket twice", u.bind(a));
        break;
    }
    case 4: {
        Udp w = rpp::move(u);
        CHECK(!u.recv(p).ok(), "a moved-from socket received something");
        u = rpp::move(w); // and it can be given a socket again
        CHECK(!w.recv(p).ok(), "a moved-from socket received something");
        u.bind(a);
        CHECK(v.send(a, p, 3) == 3, "a send of 3 bytes sent another number");
        Packet in;
        auto d = await(u, in);
        CHECK(d.ok() && d->length == 3 && str(in, 3) == str(p, 3), "a datagram did not arrive as sent");
        break;
    }
    }
    pbt::nontrivial();
}

// --- several threads ---

PROP_F(threads, 600, 6000, pbt::FEW | pbt::NONDET) {
    U open0 = sockets();
    {
        pbt::Deadline dl(25, "datagrams between threads");
        U senders = s.range(1, 4), each = s.limit(10, 60, 300), shared = s.coin(), storm = s.coin() ? 1 + s.draw(1 << 20) : 0, level = s.draw(2);
        U port = s.coin() ? 1024 + s.draw(20000) : 61000 + s.draw(4535);
        NOTE("%lu senders of %lu datagrams, %s socket%s", senders, each, shared ? "one" : "each its own", storm ? ", interrupted" : "");
        Udp in;
        Bytes ip = own_ip(5);
        Text t(s, ip);
        Address to{t.view(), (rpp::u16)port};
        in.bind(to);
        std::deque<Udp> out(shared ? 1 : senders);
        std::atomic<i64> credit{24}; // datagrams on their way: never more than the receiver's buffer holds
        std::vector<std::vector<bool>> seen(senders, std::vector<bool>(each));
        U got = 0;
        run(senders + 1, storm, [&](U me) {
            if(me < senders) {
                Udp& u = out[shared ? 0 : me];
                U rnd = me * 31 + port;
                Packet p;
                for(U k = 0; k < each; k++) {
                    while(credit.fetch_sub(1) <= 0) {
                        credit++;
                        usleep(10);
                    }
                    U n = 16 + pbt::mix(me * 1000 + k) % (CAP - 15);
                    fill(p, me * 1000 + k);
                    memcpy(p.data(), &me, 8), memcpy(p.data() + 8, &k, 8);
                    U g = u.send(to, p, n);
                    CHECK(g == n, "a send of %lu bytes sent %lu", n, g);
                    relax(rnd, level);
                }
                return;
            }
            Packet p, w;
            while(got < senders * each) {
                auto d = in.recv(p);
                if(!d.ok()) {
                    usleep(5);
                    continue;
                }
                U who, k;
                memcpy(&who, p.data(), 8), memcpy(&k, p.data() + 8, 8);
                CHECK(d->length >= 16 && who < senders && k < each, "a datagram nobody sent was received");
                CHECK(!seen[who][k], "a datagram was received twice");
                seen[who][k] = true;
                U n = 16 + pbt::mix(who * 1000 + k) % (CAP - 15);
                fill(w, who * 1000 + k);
                memcpy(w.data(), &who, 8), memcpy(w.data() + 8, &k, 8);
                CHECK(d->length == n && str(p, n) == str(w, n), "a datagram was received changed");
                got++;
                credit++;
            }
        });
        Packet p;
        CHECK(!in.recv(p).ok(), "more datagrams than were sent");
    }
    CHECK(sockets() == open0, "%lu sockets open, %lu before", sockets(), open0);
    pbt::nontrivial();
}
