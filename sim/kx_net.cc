// P14: sockets used by several threads, talking to remote peers over a simulated network.
#include "kosutil.h"
#include <cstring>
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <cerrno>
using namespace kx;

extern "C" {
int sim_socket(int, int, int);
int sim_bind(int, const sockaddr *, socklen_t);
int sim_listen(int, int);
int sim_connect(int, const sockaddr *, socklen_t);
int sim_accept(int, sockaddr *, socklen_t *);
ssize_t sim_recv(int, void *, size_t, int);
ssize_t sim_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *);
ssize_t sim_send(int, const void *, size_t, int);
ssize_t sim_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t);
int sim_shutdown(int, int);
int sim_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int sim_close(int);
}

namespace {
typedef std::string S;

bool was_hit()
{
    for (int k = 0; k < F_COUNT; k++)
        if (res->faults[k] && k != F_CAS_WEAK && k != F_SPURIOUS_WAKE && k != F_GC_PRESSURE && k != F_STALL && k != F_SLOW_IO && k != F_SHORT_IO && k != F_SIGINT && k != F_NET_DELAY && k != F_DGRAM_DROP && k != F_DGRAM_DUP && k != F_DGRAM_REORDER) return true;
    return false;
}
int add_blob(const S &s) { blob_table->push_back(s); return (int)blob_table->size() - 1; }

// ---------------------------------------------------------------- remote peers
struct Peer {
    enum Kind { ECHO, SINK, SOURCE, ABORT, CLIENT, DECHO } kind = ECHO;
    int op = 0, port = 0;
    bool v6 = false;
    S data;                        // what the peer sends
    S got;                         // what it received
    std::vector<S> dgrams;         // datagrams it received
    size_t sent = 0;               // how much of data the network accepted
    size_t limit = 0;              // ABORT: closes after that many bytes
    bool eof = false, err = false, up = false, done = false, began = false;
    uint64_t seed = 0, hold = 0;   // SOURCE: pause before it starts
    uint64_t idle = 0;             // gives up after that much silence, 0 = never
    int chunk = 700;
    bool naps = false;
};
bool *over;                        // the program has ended

socklen_t mkaddr(bool v6, int port, sockaddr_in6 *st)
{
    memset(st, 0, sizeof *st);
    if (v6) { st->sin6_family = AF_INET6; st->sin6_port = htons(port); st->sin6_addr = in6addr_loopback; return sizeof(sockaddr_in6); }
    sockaddr_in *s = (sockaddr_in *)st;
    s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return sizeof(sockaddr_in);
}
void pump(Peer *p, int fd)
{
    Rng r(p->seed);
    S pend = p->kind == Peer::ECHO || p->kind == Peer::SINK || p->kind == Peer::ABORT ? "" : p->data;
    bool shut = false;
    char b[2048];
    if (p->hold) sleep_ns(p->hold);
    static const bool never = false;
    for (;;) {
        const bool can_end = pend.empty() && (p->kind == Peer::SOURCE || p->kind == Peer::CLIENT || p->eof);
        if (can_end && !shut) { sim_shutdown(fd, SHUT_WR); shut = true; }
        if (p->eof && shut) return;
        const int ev = wait_sock(fd, !p->eof, !pend.empty(), &never, p->idle);
        if (!ev) { p->err = true; return; }
        if ((ev & 1) && (!(ev & 2) || r.chance(1, 2))) {
            const ssize_t n = sim_recv(fd, b, 1 + r.below(p->chunk), MSG_DONTWAIT);
            if (n > 0) { p->got.append(b, n); if (p->kind == Peer::ECHO) pend.append(b, n); }
            else if (!n) p->eof = true;
            else if (errno != EAGAIN) { p->err = true; return; }
            if (p->kind == Peer::ABORT && p->got.size() >= p->limit) { p->err = true; return; }
        } else if (ev & 2) {
            const ssize_t n = sim_send(fd, pend.data(), std::min(pend.size(), (size_t)(1 + r.below(p->chunk))), MSG_DONTWAIT);
            if (n > 0) { p->sent += n; pend.erase(0, n); }
            else if (n < 0 && errno != EAGAIN) { p->err = true; return; }
        }
        if (p->naps && r.chance(1, 3)) sleep_ns(1ull << r.range(8, 22));
    }
}
void peer_main(Peer *p)
{
    sockaddr_in6 a;
    const socklen_t l = mkaddr(p->v6, p->port, &a);
    const int fam = p->v6 ? AF_INET6 : AF_INET;
    if (p->kind == Peer::CLIENT) {
        p->up = true;
        uint64_t t = 1000000;
        int tries = 0;
        for (;;) {
            const int fd = sim_socket(fam, SOCK_STREAM, 0);
            if (!sim_connect(fd, (sockaddr *)&a, l)) { p->began = true; pump(p, fd); sim_close(fd); break; }
            sim_close(fd);
            if (*over || ++tries == 5000) { p->err = true; break; }   // gives up after a quarter of an hour, so that a deadlock shows
            sleep_ns(t); if (t < 200000000ull) t *= 2;
        }
    } else if (p->kind == Peer::DECHO) {
        const int fd = sim_socket(fam, SOCK_DGRAM, 0);
        if (sim_bind(fd, (sockaddr *)&a, l)) harness_error("peer bind");
        p->up = true;
        Rng r(p->seed);
        char b[70000];
        while (wait_sock(fd, true, false, over, 0)) {
            sockaddr_in6 f; socklen_t fl = sizeof f;
            const ssize_t n = sim_recvfrom(fd, b, sizeof b, 0, (sockaddr *)&f, &fl);
            if (n < 0) continue;
            p->dgrams.push_back(S(b, n));
            if (p->naps && r.chance(1, 4)) sleep_ns(1ull << r.range(8, 22));
            sim_sendto(fd, b, n, 0, (sockaddr *)&f, fl);
        }
        sim_close(fd);
    } else {
        const int ls = sim_socket(fam, SOCK_STREAM, 0);
        if (sim_bind(ls, (sockaddr *)&a, l) || sim_listen(ls, 4)) harness_error("peer listen");
        p->up = true;
        if (wait_sock(ls, true, false, over, 0)) {
            const int fd = sim_accept(ls, nullptr, nullptr);
            p->began = true;
            if (fd >= 0) { pump(p, fd); sim_close(fd); }
        }
        sim_close(ls);
    }
    p->done = true;
    trace("peer of operation %d ends: got %zu bytes, sent %zu, eof %d, error %d", p->op, p->got.size(), p->sent, p->eof, p->err);
}

const char *const prelude = R"K(
import base.*
import sim
import io
import net
const faulty = sim.flag()
fun ex(e) { if typeof e == "string" { return e }; return e.value }
fun shut(s) {
    var n = 0
    while n < 12 { n += 1; try { s.close(); n = 99 } catch const e { } }
    if n == 12 { sim.data(-9, 9, 0) }
}
fun mk(v6, type) { return v6 ? net.socket(net.AF_INET6, type) : net.socket(net.AF_INET, type) }
fun addr(v6) { return v6 ? "::1" : "127.0.0.1" }
fun conn(v6, port) {
    const s = mk(v6, net.SOCK_STREAM)
    try { if s.connect(addr(v6), port) != s { sim.data(-9, 7, 0) } } catch const e { shut(s); throw e }
    return s
}
fun soft(e) { return ex(e).find("navailable") >= 0 || ex(e).find("again") >= 0 }
fun ready(s) { if faulty { if ! s.wait(60) { throw "nothing came" } } }
fun take_all(s, size, how, all) {
    var more = true
    while more {
        const before = all.size
        if how == 0 { ready(s); const b = s.recv(size, all); if b != all { sim.data(-9, 7, 1) } }
        else if how == 1 { ready(s); const b = s.recv(size); if b.size > size { sim.data(-9, 7, 2) }; all.resize(before + b.size); all.copy_buffer(before, b) }
        else if how == 2 { ready(s); const m = s.recvfrom(size, all); if m.data != all { sim.data(-9, 7, 3) } }
        else if how == 3 { if ! s.wait(60) { throw "nothing came" }; s.read(size, all) }
        else if how == 4 {
            ready(s)
            const p = s.recv(size, void, net.MSG_PEEK)
            if p.size {
                s.recv(p.size, all, net.MSG_WAITALL)
                if all.size != before + p.size { if ! faulty || all.size > before + p.size { sim.data(-9, 7, 4) } }
                else { var i = 0; while i < p.size { if all[before + i] != p[i] { sim.data(-9, 7, 5); i = p.size }; i += 1 } }
            }
        }
        else if how == 5 {
            ready(s)
            const b = s.recv(size, void, net.MSG_WAITALL)
            if b.size > size { sim.data(-9, 7, 6) }
            if b.size < size { more = faulty || ! sim.flag() ; more = false; if b.size { const c = s.recv(1); if c.size { if ! faulty { sim.data(-9, 7, 7) } ; b.resize(b.size + 1); b[b.size - 1] = c[0]; more = true } } }
            all.resize(before + b.size); all.copy_buffer(before, b)
            if b.size { if more { continue } }
        }
        else {       // not blocking
            var got = false
            try { s.recv(size, all); got = true } catch const e { if ! soft(e) { throw e } }
            if ! got { if all.size != before { sim.data(-9, 7, 8); all.resize(before) }; if ! s.wait(60) { throw "nothing came" }; continue }
        }
        if all.size > before + size { sim.data(-9, 7, 9) }
        if all.size == before { more = false }
    }
    return all
}
fun put(s, first, n, how) {
    if how == 3 {
        const a = []
        for const i in range(first, first + n) { a.push((i % 2 == 0) ? sim.text(i) : sim.blob(i)) }
        if s.write.apply(s, a) != s { sim.data(-9, 7, 10) }
    }
    else {
        for const i in range(first, first + n) {
            const d = (how == 0) ? sim.blob(i) : (how == 1) ? sim.text(i) : (i % 2 == 0) ? sim.text(i) : sim.blob(i)
            if s.send(d) != s { sim.data(-9, 7, 11) }
        }
    }
}
fun taker(s, size, rhow) {
    try { return take_all(s, size, rhow, buffer(0)) }
    catch const e {
        // otherwise the sender would block
        sim.safe(1)
        var k = 0
        while k < 5 { k += 1; try { s.shutdown(); k = 9 } catch const f { } }
        throw e
    }
}
fun echo(id, s, first, n, how, size, rhow) {
    const t = async taker(s, size, rhow)
    try { put(s, first, n, how); s.shutdown(net.SHUT_WR) }
    catch const e {
        sim.safe(1)
        var k = 0
        while k < 5 { k += 1; try { s.shutdown(); k = 9 } catch const f { } }
        try { t.wait() } catch const f { }
        throw e
    }
    sim.data(id, 3, 0)
    sim.data(id, 1, t.wait())
}
fun serve_one(id, c, size, keep) {
    defer { shut(c) }
    try {
        const b = buffer(0)
        var more = true
        while more {
            b.resize(0)
            ready(c)
            c.recv(size, b)
            if b.size { if keep { c.send(b) } else { c.write(b) } } else { more = false }
        }
        c.shutdown(net.SHUT_WR)
    } catch const e { sim.data(id, 2, ex(e)) }
}
fun serve(id, v6, port, nconn, backlog, size, threads, any) {
    const ls = mk(v6, net.SOCK_STREAM)
    defer { shut(ls) }
    ls.setsockopt(net.SOL_SOCKET, net.SO_REUSEADDR, true)
    if any { ls.bind("", port) } else { ls.bind(addr(v6), port) }
    ls.listen(backlog)
    const ts = []
    for const i in range(nconn) {
        ready(ls)
        const c = ls.accept().socket
        if threads { var t = void; try { t = async serve_one(id, c, size, i % 2 == 0) } catch const e { shut(c); throw e }; ts.push(t) }
        else { serve_one(id, c, size, i % 2 == 1) }
    }
    for const t in ts { t.wait() }
}
fun dgram(id, v6, port, pport, first, n, size, lossy, inter) {
    const s = mk(v6, net.SOCK_DGRAM)
    defer { shut(s) }
    s.bind(addr(v6), port)
    var got = 0
    var i = 0
    fun one {
        const m = s.recvfrom(size)
        got += 1
        sim.data(id, 1, m.data)
        if m.port != pport || m.address != addr(v6) { sim.data(id, 6, m.address) }
    }
    while i < n {
        s.sendto(addr(v6), pport, (i % 2 == 0) ? sim.text(first + i) : sim.blob(first + i))
        i += 1
        if inter { if s.wait(0) { one() } }
    }
    if lossy || faulty { while s.wait(0.5) { one() } }
    else { while got < n { one() } }
    sim.data(id, 3, 0)
}
fun closer(s, n) { sim.nap(n); shut(s) }
)K";

struct Op {
    int kind = 0;
    bool must_throw = false;
    S sent;                        // all bytes the program sends
    std::vector<S> parts;          // datagrams
    int rsize = 0;
    bool exact = false;            // tag 1 carries what the peer sent, to the end
    bool is_prefix = false;        // tag 1 carries a beginning of what the peer sent
    S want;                        // tag 1 literally, if has_want
    bool has_want = false;
    double at_least = -1;          // seconds between tags 4 and 3
    std::vector<Peer *> peers;
    bool free_end = false;         // exceptions are allowed
    bool peer_exact = false;       // the peer must get all the bytes
    S addr_text;                   // tag 1 must be another way to write this address
};
struct Res { std::vector<S> ok, exc; bool started = false, finished = false; uint64_t t0 = 0, t1 = 0, t3 = 0; int n3 = 0; S bad; };

S make_bytes(Rng &r, int op, size_t n)
{
    S s;
    while (s.size() < n) {
        if (r.chance(1, 12)) s += r.pick(std::vector<S>{"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"});
        else s += fmt("%c%zx.", 'a' + op % 26, s.size());
    }
    return s;
}

void run(int level)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<S>;
    blobs = new std::vector<Blob>;
    blob_table = new std::vector<S>;
    over = new bool(false);
    script_flag = level > 0;
    pipe_capacity = r.pick(std::vector<int>{1, 7, 64, 512, 65536, 65536});
    const int nt = r.range(1, 4);
    const bool lossy = r.chance(1, 3);
    const size_t big = pipe_capacity == 1 ? 60 : pipe_capacity == 7 ? 400 : 3000;
    std::vector<Op> ops;
    std::vector<Peer *> peers;
    S src = prelude;
    for (int t = 0; t < nt; t++) {
        S fn = fmt("fun w%d {\n", t);
        const int n = r.range(1, 4);
        for (int k = 0; k < n; k++) {
            const int id = (int)ops.size();
            ops.push_back(Op());
            Op &o = ops.back();
            S body;
            const int v6 = r.chance(1, 4), port = 7000 + id * 4;
            const char *const v = v6 ? "true" : "false";
            auto peer = [&](Peer::Kind kind, int at) {
                Peer *p = new Peer;
                p->kind = kind; p->op = id; p->port = at; p->v6 = v6; p->seed = r.next(); p->naps = r.chance(1, 3);
                p->chunk = r.pick(std::vector<int>{1, 5, 100, 700, 2000});
                if (p->chunk < 6 && pipe_capacity > 64) p->chunk = 100;
                if (level) p->idle = 20000000000ull;
                peers.push_back(p); o.peers.push_back(p);
                return p;
            };
            auto size = [&] { return (int)(r.chance(1, 3) ? r.range(0, 20) : r.range(0, (int)big)); };
            auto rsz = [&] { int x = r.pick(std::vector<int>{1, 3, 17, 100, 4096, 4096}); if (x < 17 && big > 400) x = 64; return x; };
            int first = (int)blob_table->size(), cnt = 0;
            auto chunks = [&] { cnt = r.range(0, 4); for (int i = 0; i < cnt; i++) { const S d = make_bytes(r, id, size()); add_blob(d); o.parts.push_back(d); o.sent += d; } };
            o.kind = r.range(0, 13);
            if (o.kind == 5 && level == 2 && pipe_capacity < 65536) o.kind = 0;    // two ends which block because a reader could not start
            switch (o.kind) {
                case 0: case 1: {      // a remote echo server
                    chunks();
                    peer(Peer::ECHO, port);
                    o.exact = o.peer_exact = true;
                    body = fmt("const s = conn(%s, %d); defer { shut(s) }; ", v, port);
                    int rh = r.range(0, 6);
                    if (rh == 6) body += "s.blocking = false; if s.blocking { sim.data(-9, 7, 12) }; ";
                    if (rh == 6 && level == 0 && r.chance(1, 2)) rh = 3;
                    body += fmt("echo(%d, s, %d, %d, %d, %d, %d); ", id, first, cnt, r.range(0, 3), rsz(), rh);
                    break;
                }
                case 2: {              // data from a remote server
                    Peer *p = peer(Peer::SOURCE, port);
                    p->data = make_bytes(r, id, size());
                    if (r.chance(1, 3)) p->hold = 1ull << r.range(10, 24);
                    o.exact = true;
                    const int rh = r.range(0, 6);
                    body = fmt("const s = conn(%s, %d); defer { shut(s) }; %s", v, port, rh == 6 ? "s.blocking = false; " : "");
                    const S into = r.chance(1, 4) ? "sim.blob(0)" : "buffer(0)";
                    body += fmt("sim.data(%d, 1, take_all(s, %d, %d, buffer(0))); sim.data(%d, 3, 0); ", id, rsz(), rh, id);
                    break;
                }
                case 3: {              // data to a remote server
                    chunks();
                    peer(Peer::SINK, port);
                    o.peer_exact = true;
                    body = fmt("const s = conn(%s, %d); defer { shut(s) }; ", v, port);
                    if (r.chance(1, 2)) body += "s.blocking = false; ";
                    body += fmt("put(s, %d, %d, %d); sim.data(%d, 3, 0); ", first, cnt, r.range(0, 3), id);
                    break;
                }
                case 4: {              // a server
                    const int nc = r.range(1, 3);
                    for (int i = 0; i < nc; i++) { Peer *p = peer(Peer::CLIENT, port); p->data = make_bytes(r, id, size()); }
                    body = fmt("serve(%d, %s, %d, %d, %d, %d, %s, %s); sim.data(%d, 3, 0); ", id, v, port, nc, r.range(1, 5), rsz(), r.chance(1, 2) ? "true" : "false", r.chance(1, 2) ? "true" : "false", id);
                    o.peer_exact = true;
                    break;
                }
                case 5: {              // two threads of the program
                    chunks();
                    o.has_want = true; o.want = o.sent;
                    body = fmt("const t = async serve(%d, %s, %d, 1, 1, %d, false, true); var s = void; defer { if s != void { shut(s) }; if faulty { %s }; t.wait() }; var left = 4000; while s == void { try { s = conn(%s, %d) } catch const e { left -= 1; if left == 0 || ex(e).find(\"connect\") != 0 { throw e }; sim.nap(1000000) } }; echo(%d, s, %d, %d, %d, %d, %d); ",
                        id, v, port, rsz(), fmt("try { const q = conn(%s, %d); shut(q) } catch const e { }", v, port).c_str(), v, port, id, first, cnt, r.range(0, 3), rsz(), r.range(0, 5));
                    break;
                }
                case 6: {              // datagrams
                    cnt = r.range(0, 6);
                    for (int i = 0; i < cnt; i++) { const S d = fmt("%d:", i) + make_bytes(r, id, r.chance(1, 4) ? 1 : r.range(1, 300)); add_blob(d); o.parts.push_back(d); }
                    peer(Peer::DECHO, port + 1);
                    o.rsize = r.pick(std::vector<int>{4096, 4096, 1000, 5, 64});
                    body = fmt("dgram(%d, %s, %d, %d, %d, %d, %d, %s, %s); ", id, v, port, port + 1, first, cnt, o.rsize, lossy ? "true" : "false", r.chance(1, 3) ? "true" : "false");
                    break;
                }
                case 7: {              // time limits
                    const char *const tm[] = {"0", "0.001", "0.25", "1", "0.0000009", "2.5"};
                    const int x = r.range(0, 5);
                    o.at_least = x == 4 ? 0 : atof(tm[x]);
                    switch (r.range(0, 2)) {
                        case 0: body = fmt("const s = mk(%s, net.SOCK_DGRAM); defer { shut(s) }; s.bind(addr(%s), %d); sim.data(%d, 4, 0); const w = s.wait(%s); sim.data(%d, 3, 0); sim.data(%d, 1, w ? \"yes\" : \"no\"); ", v, v, port, id, tm[x], id, id); break;
                        case 1: body = fmt("const s = mk(%s, net.SOCK_STREAM); defer { shut(s) }; s.bind(addr(%s), %d).listen(); sim.data(%d, 4, 0); const w = s.wait(%s); sim.data(%d, 3, 0); sim.data(%d, 1, w ? \"yes\" : \"no\"); ", v, v, port, id, tm[x], id, id); break;
                        case 2:
                            o.at_least = 0.125;
                            body = fmt("const s = mk(%s, net.SOCK_DGRAM); defer { shut(s) }; s.bind(addr(%s), %d); s.setsockopt(net.SOL_SOCKET, net.SO_RCVTIMEO, 0.125); var res = \"yes\"; const b = sim.blob(%d); const z = b.size; sim.data(%d, 4, 0); try { s.%s(10, b) } catch const e { sim.data(%d, 3, 0); if ! soft(e) { throw e }; res = \"no\" }; sim.data(%d, 1, res); if b.size != z { sim.data(%d, 6, \"the buffer changed\") }; ",
                                v, v, port, add_blob(S(r.below(3) * 40, 'q')), id, r.chance(1, 2) ? "recv" : "recvfrom", id, id, id);
                            break;
                    }
                    o.has_want = true; o.want = "no";
                    break;
                }
                case 8: case 9: {      // closed while it is used
                    Peer *p = peer(o.kind == 8 ? Peer::SOURCE : Peer::SINK, port);
                    if (o.kind == 8) { p->data = make_bytes(r, id, size()); if (r.chance(1, 2)) p->hold = 1ull << r.range(10, 22); o.is_prefix = true; }
                    else chunks();
                    o.free_end = true;
                    const int nc = r.range(1, 2);
                    body = fmt("const s = conn(%s, %d); const ts = []; defer { for const t in ts { t.wait() }; shut(s) }; ", v, port);
                    const bool nb = r.chance(1, 3);
                    if (nb) body += "s.blocking = false; ";
                    for (int i = 0; i < nc; i++) body += fmt("ts.push(async closer(s, %d)); ", r.chance(1, 2) ? 0 : 1 << r.range(4, 20));
                    if (o.kind == 8) body += fmt("const all = buffer(0); try { take_all(s, %d, %d, all) } catch const e { if ex(e).find(\"not open\") < 0 && ! faulty { sim.data(%d, 6, ex(e)) } }; sim.data(%d, 1, all); ", rsz(), nb ? 6 : r.range(0, 3), id, id);
                    else body += fmt("var i = %d; try { while i < %d { put(s, i, 1, %d); i += 1 } } catch const e { if ex(e).find(\"not open\") < 0 && ! faulty { sim.data(%d, 6, ex(e)) } }; ", first, first + cnt, r.range(0, 2), id);
                    body += fmt("for const t in ts { t.wait() }; var open = true; try { s.%s } catch const e { open = false }; if open { sim.data(%d, 6, \"the closed socket works\") }; ", r.pick(std::vector<S>{"recv(1)", "send(\"x\")", "wait(0)", "shutdown()", "listen()", "getsockopt(net.SOL_SOCKET, net.SO_KEEPALIVE)", "blocking = true", "accept()"}).c_str(), id);
                    break;
                }
                case 10: {             // the peer goes away
                    Peer *p = peer(Peer::ABORT, port);
                    chunks();
                    p->limit = o.sent.empty() ? 1 : r.below(o.sent.size()) + 1;
                    o.free_end = true;
                    body = fmt("const s = conn(%s, %d); defer { shut(s) }; %sput(s, %d, %d, %d); sim.data(%d, 3, 0); ", v, port, r.chance(1, 2) ? "s.blocking = false; " : "", first, cnt, r.range(0, 3), id);
                    break;
                }
                case 11: {             // what must fail
                    o.must_throw = true;
                    const S call = r.pick(std::vector<S>{"const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.connect(\"127.0.0.1\", 1)", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.connect(\"no.such.host\", 80)", "const s = mk(false, net.SOCK_STREAM); shut(s); s.recv()",
                        "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.recv()", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.send(\"a\")", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.send(5)", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.accept()",
                        "const s = mk(false, net.SOCK_STREAM); shut(s); s.bind()", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.listen(0)", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.wait(-1)", "const s = mk(false, net.SOCK_STREAM); shut(s); s.wait(1)",
                        "const s = mk(false, net.SOCK_STREAM); shut(s); s.getsockopt(net.SOL_SOCKET, net.SO_SNDBUF)", "const s = mk(false, net.SOCK_STREAM); shut(s); s.setsockopt(net.SOL_SOCKET, net.SO_KEEPALIVE, true)", "const s = mk(false, net.SOCK_STREAM); shut(s); const b = s.blocking",
                        "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.wait.apply({}, [1])", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.getsockopt.apply({}, [1, 2])", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.recv(-5, 7)",
                        "net.getaddrinfo(\"no.such.host\")", "net.getaddrinfo(\"127.0.0.1\", 70000)", "net.socket(12345)", "const s = mk(false, net.SOCK_DGRAM); defer { shut(s) }; s.listen()", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.connect(\"::1\", 80)", "const s = mk(true, net.SOCK_STREAM); defer { shut(s) }; s.connect(\"127.0.0.1\", 80)",
                        "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.sendto(\"no.such\", 5, \"x\")", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.bind(\"127.0.0.1\", 4000); const q = mk(false, net.SOCK_STREAM); defer { shut(q) }; q.bind(\"127.0.0.1\", 4000); const z = q.nothing.x",
                        "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.setsockopt(net.SOL_SOCKET, net.SO_RCVTIMEO, -1)", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.recv(0xFFFFFFFF0)", "const s = mk(false, net.SOCK_STREAM); defer { shut(s) }; s.recv(1, void, 0x10000000)"});
                    body = call + fmt("; sim.data(%d, 1, \"\"); ", id);
                    break;
                }
                case 12: {             // addresses and options
                    if (r.chance(1, 2)) {
                        static const char *const as[] = {"127.0.0.1", "0.0.0.0", "255.1.2.3", "::1", "::", "1::", "0:1::", "fe80::1:0:0:2", "1:2:3:4:5:6:7:8", "2001:db8::ff00:42:8329", "0:0:1:0:0:2::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "a0:b00:c000:d::", "::1:0:0:0", "1:0:0:4:0:0:0:8"};
                        o.addr_text = as[r.below(15)];
                        body = fmt("const a = net.getaddrinfo(\"%s\", %d); sim.data(%d, 1, a[a.size - 1].address); if a[0].port != %d || a.size != 2 { sim.data(%d, 6, \"port\") }; ", o.addr_text.c_str(), port, id, port, id);
                    } else {
                        o.has_want = true; o.want = "true/false/1500/0.75";
                        body = fmt("const s = mk(%s, net.SOCK_STREAM); defer { shut(s) }; const p = net.SOL_SOCKET; s.setsockopt(p, net.SO_KEEPALIVE, 7).setsockopt(p, net.SO_OOBINLINE, false); s.setsockopt(p, net.SO_SNDBUF, 1500); s.setsockopt(p, net.SO_SNDTIMEO, 0.75); const a = s.getsockopt(p, net.SO_KEEPALIVE); const b = s.getsockopt(p, net.SO_OOBINLINE); const c = s.getsockopt(p, net.SO_SNDBUF); const d = s.getsockopt(p, net.SO_SNDTIMEO); sim.data(%d, 1, \"\\(a)/\\(b)/\\(c)/\\(d)\"); ", v, id);
                    }
                    break;
                }
                case 13: {             // a buffer which another thread resizes meanwhile
                    o.free_end = true;
                    const bool rx = r.chance(1, 2);
                    Peer *p = peer(rx ? Peer::SOURCE : Peer::SINK, port);
                    p->data = make_bytes(r, id, size());
                    const int b = add_blob(S(r.pick(std::vector<int>{10, 300, 2000, 9000}), 'b'));
                    body = fmt("const s = conn(%s, %d); defer { shut(s) }; const b = sim.blob(%d); const t = async resizer(b, %d); defer { t.wait() }; ", v, port, b, r.range(1, 12));
                    if (rx) body += fmt("var left = 9; while left { left -= 1; ready(s); %s }; ", r.chance(1, 2) ? "s.recv(600, b)" : "s.recvfrom(600, b)");
                    else body += r.chance(1, 2) ? "s.send(b); s.send(b); " : "s.write(b, b); ";
                    break;
                }
            }
            fn += fmt("    sim.data(%d, 0, 0)\n    try { %s} catch const e { sim.data(%d, 2, ex(e)) }\n    sim.safe(0)\n    sim.data(%d, 5, 0)\n", id, body.c_str(), id, id);
            if (r.chance(1, 4)) fn += fmt("    sim.nap(%d)\n", 1 << r.range(4, 18));
            if (r.chance(1, 6)) fn += "    sim.poke()\n";
        }
        src += fn + "}\n";
    }
    src.insert(strlen(prelude), "fun resizer(b, n) { while n { n -= 1; try { b.resize((n % 2 == 0) ? 1 : 5000); b.reserve(9000 + (20 - n) * 900); sim.collect() } catch const e { } sim.nap(2000) } }\n");
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("try { ts.push(async w%d()) } catch const e { }\n", t);
    src += "w0()\nfor const t in ts { var i = 0; while i < 9 { i += 1; try { t.wait(); i = 9 } catch const e { } } }\n";
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 100000000;
    if (r.chance(1, 2)) knobs.rate[F_SHORT_IO] = 20000;
    if (r.chance(1, 4)) knobs.rate[F_SLOW_IO] = 10000;
    if (r.chance(1, 2)) knobs.rate[F_NET_DELAY] = r.pick(std::vector<int>{2000, 20000});
    if (lossy) for (FaultKind k : {F_DGRAM_DROP, F_DGRAM_DUP, F_DGRAM_REORDER}) if (r.chance(1, 2)) knobs.rate[k] = r.pick(std::vector<int>{3000, 20000});
    if (level == 2) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5);
    } else if (level == 1) {
        for (FaultKind k : {F_NET_RESET, F_NET_REFUSE, F_EINTR, F_SYSCALL_FAIL, F_SELECT_FAIL}) if (r.chance(1, 2)) { knobs.rate[k] = r.pick(std::vector<int>{500, 2000, 8000}); knobs.burst_limit[k] = (uint32_t)r.range(1, 6); }
    }
    if (tracing) trace("program:\n%s", src.c_str());
    begin_run();
    end_faults();
    for (Peer *p : peers) spawn_process([p] { peer_main(p); }, "peer");
    KOS_suspend_context(mctx);
    wait_until([&] { for (Peer *p : peers) if (!p->up) return false; return true; }, "peers to start");
    KOS_resume_context(mctx);
    const unsigned ninj = r.range(0, 4), gap = 1u << r.range(8, 13);
    if (ninj) start_gc_injector(ninj, gap);
    S e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    const bool hit = was_hit();
    // every connection was closed explicitly: the peers learn about it without any help
    if (!hit) wait_until([&] { for (Peer *p : peers) if (!p->done && p->kind != Peer::DECHO && p->began) return false; return true; }, "peers to see the end of their connections");
    KOS_resume_context(mctx);
    if (fail && !hit) violation("net:unexpected-exception", "the program ended with %s", e.c_str());

    std::map<int, Res> rs;
    for (auto &b : *blobs) {
        Res &x = rs[(int)b.id];
        switch (b.tag) {
            case 0: x.started = true; break;
            case 1: x.ok.push_back(b.data); break;
            case 2: x.exc.push_back(b.data); break;
            case 3: x.t1 = b.ns; x.n3++; break;
            case 4: x.t0 = b.ns; break;
            case 5: x.finished = true; break;
            case 6: x.bad = b.data.empty() ? "?" : b.data; break;
            case 7: violation("net:wrong-result", "check %s of the program failed", b.data.c_str());
            case 9: if (!hit) violation("net:unexpected-exception", "a socket could not be closed"); break;
        }
    }
    res->gcs += gc_count();
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    *over = true;
    wait_until([&] { for (Peer *p : peers) if (!p->done) return false; return true; }, "peers to end");

    const bool reset = n_resets || res->faults[F_NET_RESET];
    const bool loss = res->faults[F_DGRAM_DROP] != 0, dup = res->faults[F_DGRAM_DUP] != 0, reord = res->faults[F_DGRAM_REORDER] != 0;
    for (size_t i = 0; i < ops.size(); i++) {
        const Op &o = ops[i];
        const Res &x = rs[(int)i];
        if (!x.started) { if (!hit) violation("net:no-result", "operation %zu did not start", i); continue; }
        if (!x.finished && !hit) violation("net:no-result", "operation %zu did not end", i);
        if (!x.bad.empty() && !(hit && o.kind >= 8 && o.kind <= 9)) violation("net:wrong-result", "operation %zu (kind %d): %s", i, o.kind, printable(x.bad).c_str());
        if (o.must_throw) { if (!x.ok.empty()) violation("net:no-exception", "operation %zu succeeded although it must fail", i); continue; }
        if (!hit && !o.free_end && !x.exc.empty()) violation("net:unexpected-exception", "operation %zu (kind %d) raised '%s'", i, o.kind, x.exc[0].c_str());
        const bool ok = x.n3 > 0 && x.exc.empty();        // ended without exception
        if (o.kind == 6) {
            Peer *p = o.peers[0];
            for (int dir = 0; dir < 2; dir++) {
                // what arrived: whole datagrams which were sent, each at most as often as the network made it
                const std::vector<S> &got = dir ? x.ok : p->dgrams;
                std::vector<S> sent = dir ? p->dgrams : o.parts;
                if (dir) for (auto &d : sent) d = d.substr(0, o.rsize);
                std::vector<S> rest = sent;
                size_t at = 0;
                for (auto &g : got) {
                    auto it = std::find(rest.begin(), rest.end(), g);
                    if (it != rest.end()) rest.erase(it);
                    else if (!dup || std::find(sent.begin(), sent.end(), g) == sent.end()) violation("net:wrong-datagram", "operation %zu: '%s' was received, which no one sent%s", i, printable(g).c_str(), dir ? "" : " (at the peer)");
                    if (!reord && !dup) { while (at < sent.size() && sent[at] != g) at++; if (at == sent.size()) violation("net:wrong-datagram", "operation %zu: datagrams out of order", i); at++; }
                }
                if (!loss && ok && !hit && !rest.empty() && !lossy) violation("net:lost-datagram", "operation %zu: %zu datagrams never arrived", i, rest.size());
            }
            continue;
        }
        for (auto &g : x.ok) {
            S want = o.has_want ? o.want : "";
            if (!o.addr_text.empty()) {
                unsigned char a[16], b[16];
                const int f = strchr(o.addr_text.c_str(), ':') ? AF_INET6 : AF_INET;
                if (inet_pton(f, o.addr_text.c_str(), a) != 1) harness_error("bad address");
                if (inet_pton(f, g.c_str(), b) != 1 || memcmp(a, b, f == AF_INET6 ? 16 : 4)) violation("net:wrong-address", "%s is reported as %s", o.addr_text.c_str(), printable(g).c_str());
                continue;
            }
            if (o.exact || o.is_prefix) want = o.kind <= 1 ? o.sent : o.peers[0]->data;
            else if (!o.has_want) continue;
            // after a reset only a beginning arrives; a peer which gave up sent only a part
            bool part = o.is_prefix || reset;
            for (Peer *p : o.peers) part = part || (p->err && hit);
            if (o.kind == 5 && hit) part = true;
            if (part ? want.compare(0, g.size(), g) != 0 : g != want) {
                size_t d = 0;
                while (d < g.size() && d < want.size() && g[d] == want[d]) d++;
                violation("net:wrong-data", "operation %zu (kind %d): %zu bytes instead of %zu, first difference at %zu: '%s' instead of '%s'", i, o.kind, g.size(), want.size(), d, printable(g.substr(d), 40).c_str(), printable(want.substr(std::min(d, want.size())), 40).c_str());
            }
        }
        if (o.at_least >= 0 && x.t1 && x.t0 && x.exc.empty() && (double)(x.t1 - x.t0) < o.at_least * 1e9 - 1000) violation("net:early-timeout", "operation %zu: waiting for %g s ended after %g s", i, o.at_least, (x.t1 - x.t0) / 1e9);
        if (o.at_least >= 0 && !hit && x.t1 && x.t0 && (double)(x.t1 - x.t0) > (o.at_least + 30) * 1e9) violation("net:late-timeout", "operation %zu: waiting for %g s took %g s", i, o.at_least, (x.t1 - x.t0) / 1e9);
        if (!hit && !o.free_end && x.ok.empty() && (o.exact || o.has_want || !o.addr_text.empty())) violation("net:no-result", "operation %zu gave nothing", i);
        if (o.kind == 13) continue;
        for (Peer *p : o.peers) {
            if (p->kind == Peer::SOURCE) continue;
            const S &want = p->kind == Peer::CLIENT ? p->data : o.sent;
            const bool all = o.peer_exact && !reset && (hit ? ok && !p->err : true);
            if (all ? p->got != want : want.compare(0, p->got.size(), p->got) != 0) {
                size_t d = 0;
                while (d < p->got.size() && d < want.size() && p->got[d] == want[d]) d++;
                violation("net:wrong-data-at-peer", "operation %zu (kind %d): the peer got %zu bytes instead of %zu, first difference at %zu: '%s' instead of '%s'", i, o.kind, p->got.size(), want.size(), d, printable(p->got.substr(d), 40).c_str(), printable(want.substr(std::min(d, want.size())), 40).c_str());
            }
        }
    }
}
void run_net() { run(0); }
void run_net_faults() { run(1); }
void run_net_oom() { run(2); }
void setup() { setup_script(); }

// ---------------------------------------------------------------- closing a socket which other threads use
// A descriptor which is free is taken again at once: whoever still used it would speak through the other socket.
void run_sock_close(int level)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>; notes = new std::vector<S>; blobs = new std::vector<Blob>; blob_table = new std::vector<S>;
    const int rounds = r.range(3, 8);
    struct Sent { int round; S s; bool ok = false, exc = false; };
    std::vector<Sent> sent;
    S src = S(prelude) + "fun shut2(s) { try { s.close() } catch const e { } }\n";
    S main_ = "const rx = mk(false, net.SOCK_DGRAM)\nrx.bind(\"127.0.0.1\", 6999)\nsim.fault(1)\n";
    for (int k = 0; k < rounds; k++) {
        const int nt = r.range(1, 3);
        main_ += fmt("try {\n    const s = mk(false, net.SOCK_DGRAM)\n    defer { shut2(s) }\n    s.bind(\"127.0.0.1\", %d)\n    s.blocking = false\n    const ts = []\n    defer { for const t in ts { try { t.wait() } catch const e { } } }\n", 7000 + 2 * k);
        for (int t = 0; t < nt; t++) {
            src += fmt("fun u%d_%d(s) {\n", k, t);
            const int n = r.range(1, 4);
            for (int i = 0; i < n; i++) {
                S e;
                int id = -1;
                switch (r.range(0, 7)) {
                    case 0: case 1: case 2: {
                        id = add_blob(fmt("<%d.%d.%d.%zu>", k, t, i, sent.size()));
                        sent.push_back(Sent{k, (*blob_table)[id]});
                        if ((int)sent.size() != id + 1) harness_error("blob ids");
                        e = fmt("s.sendto(\"127.0.0.1\", 6999, sim.%s(%d))", r.chance(1, 2) ? "blob" : "text", id);
                        break;
                    }
                    case 3: e = r.chance(1, 2) ? "s.recvfrom(50)" : "s.recv(50)"; break;
                    case 4: e = fmt("const w = s.wait(%s)", r.pick(std::vector<const char *>{"0", "0.00001", "0.001"})); break;
                    case 5: e = "s.setsockopt(net.SOL_SOCKET, net.SO_RCVBUF, 4321)"; break;
                    case 6: e = "const b = s.getsockopt(net.SOL_SOCKET, net.SO_RCVBUF)"; break;
                    case 7: e = "s.blocking = false"; break;
                }
                src += fmt("    try { %s; sim.data(%d, 1, 0) } catch const e { sim.data(%d, 2, ex(e)) }\n", e.c_str(), id, id);
            }
            if (r.chance(1, 4)) src += "    try { s.close() } catch const e { sim.data(-2, 2, ex(e)) }\n";
            src += "}\n";
            main_ += fmt("    ts.push(async u%d_%d(s))\n", k, t);
        }
        if (r.chance(1, 2)) main_ += fmt("    sim.nap(%d)\n", (int)(1 + r.below(1u << r.range(4, 14))));
        if (!r.chance(1, 8)) main_ += "    s.close()\n";
        if (r.chance(2, 3)) {
            main_ += fmt("    const o = mk(false, net.SOCK_DGRAM)\n    defer { shut2(o) }\n    o.bind(\"127.0.0.1\", %d)\n", 7001 + 2 * k);
            main_ += "    for const t in ts { t.wait() }\n    if o.getsockopt(net.SOL_SOCKET, net.SO_RCVBUF) != 0 { sim.data(-9, 7, 1) }\n";
            if (r.chance(1, 2)) main_ += fmt("    o.sendto(\"127.0.0.1\", 6999, \"o%d\")\n", k);
        }
        main_ += "} catch const e { sim.data(-3, 2, ex(e)) }\n";
    }
    main_ += "sim.fault(0)\nwhile rx.wait(0.05) { const m = rx.recvfrom(200); sim.data(m.port, 3, m.data) }\nrx.close()\n";
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 100000000;
    if (r.chance(1, 3)) knobs.rate[F_SLOW_IO] = 20000;
    if (level == 2) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5); }
    if (level == 1)
        for (FaultKind k : {F_EINTR, F_SYSCALL_FAIL, F_SELECT_FAIL}) if (r.chance(1, 2)) { knobs.rate[k] = r.pick(std::vector<int>{500, 2000, 8000}); knobs.burst_limit[k] = (uint32_t)r.range(1, 6); }
    if (tracing) trace("program:\n%s", (src + main_).c_str());
    begin_run();
    end_faults();
    const unsigned ninj = r.range(0, 3), gap = 1u << r.range(8, 13);
    if (ninj) start_gc_injector(ninj, gap);
    S e;
    const bool fail = run_script(mctx, "m", src + main_, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool hit = was_hit();
    if (fail && !hit) violation("net:unexpected-exception", "the program ended with %s", e.c_str());
    std::map<S, int> got;
    for (auto &b : *blobs) {
        if (b.tag == 1) { if (b.id >= 0) sent[b.id].ok = true; continue; }
        if (b.tag == 7) { if (!hit) violation("net:wrong-socket", "an option set on a closed socket was set on another socket"); continue; }
        if (b.tag == 2) {
            if (b.id >= 0) sent[b.id].exc = true;
            if (hit) continue;
            if (b.id == -3 || b.id == -2) violation("net:unexpected-exception", "%s raised '%s'", b.id == -2 ? "close()" : "opening and closing sockets", b.data.c_str());
            if (b.data.find("not open") == S::npos && b.data.find("navailable") == S::npos && b.data.find("again") == S::npos) violation("net:unexpected-exception", "using the socket raised '%s'", b.data.c_str());
            continue;
        }
        if (b.tag != 3) continue;
        const int port = (int)b.id;
        if (b.data[0] == 'o') { if (port != 7001 + 2 * atoi(b.data.c_str() + 1)) violation("net:wrong-socket", "'%s' came from port %d", b.data.c_str(), port); continue; }
        size_t i = 0;
        while (i < sent.size() && sent[i].s != b.data) i++;
        if (i == sent.size()) violation("net:wrong-datagram", "'%s' was sent by no one", printable(b.data).c_str());
        if (port != 7000 + 2 * sent[i].round) violation("net:wrong-socket", "'%s' was sent through a socket on port %d but came from port %d", b.data.c_str(), 7000 + 2 * sent[i].round, port);
        if (got[b.data]++) violation("net:wrong-datagram", "'%s' came twice", b.data.c_str());
        if (!sent[i].ok && !hit) violation("net:wrong-datagram", "'%s' came although sending it failed", b.data.c_str());
    }
    if (!hit) for (auto &x : sent) if (x.ok && !got.count(x.s)) violation("net:lost-datagram", "'%s' never came", x.s.c_str());
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
}
void run_sock_close0() { run_sock_close(0); }
void run_sock_close1() { run_sock_close(1); }
void run_sock_close2() { run_sock_close(2); }
SCENARIO("sock_close", setup, run_sock_close0);
SCENARIO("sock_close_faults", setup, run_sock_close1);
SCENARIO("sock_close_oom", setup, run_sock_close2);
SCENARIO("net", setup, run_net);
SCENARIO("net_faults", setup, run_net_faults);
SCENARIO("net_oom", setup, run_net_oom);
}
