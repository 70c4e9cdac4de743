// P12: files.  Random programs over the file modules against a model of what the files must contain.
#include "kosutil.h"
#include <cstring>
#include <algorithm>
using namespace kx;

namespace {
typedef std::string S;

// ------------------------------------------------------------------ text helpers
size_t utf8_len(uint8_t c) { return c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 0; }
bool valid_utf8(const S &s)
{
    for (size_t i = 0; i < s.size();) {
        const size_t n = utf8_len((uint8_t)s[i]);
        if (!n || i + n > s.size()) return false;
        for (size_t k = 1; k < n; k++) if (((uint8_t)s[i + k] & 0xC0) != 0x80) return false;
        i += n;
    }
    return true;
}
// neither overlong nor outside Unicode: what has to be accepted
bool surely_utf8(const S &s)
{
    if (!valid_utf8(s)) return false;
    for (size_t i = 0; i < s.size();) {
        const size_t n = utf8_len((uint8_t)s[i]);
        uint32_t c = (uint8_t)s[i] & (n == 1 ? 0x7F : 0x3F >> (n - 1));
        for (size_t k = 1; k < n; k++) c = c << 6 | ((uint8_t)s[i + k] & 0x3F);
        if ((n == 2 && c < 0x80) || (n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
        i += n;
    }
    return true;
}
// length of the end-of-line sequence at s[i], 0 if there is none
size_t eol_at(const S &s, size_t i)
{
    const uint8_t c = (uint8_t)s[i];
    if (c == '\r') return i + 1 < s.size() && s[i + 1] == '\n' ? 2 : 1;
    if (c == '\n' || c == '\v' || c == '\f' || (c >= 0x1c && c <= 0x1e)) return 1;
    if (!s.compare(i, 2, "\xc2\x85")) return 2;
    if (!s.compare(i, 3, "\xe2\x80\xa8") || !s.compare(i, 3, "\xe2\x80\xa9")) return 3;
    return 0;
}
std::vector<S> lines_of(const S &s, bool keep)
{
    std::vector<S> v;
    S cur;
    for (size_t i = 0; i < s.size();) {
        const size_t e = eol_at(s, i);
        if (!e) { cur += s[i++]; continue; }
        if (keep) cur += s.substr(i, e);
        v.push_back(cur); cur.clear();
        i += e;
    }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
S gen_text(Rng &r, size_t n)
{
    static const char *const bits[] = {"\n", "\r\n", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xc2\x85", "\v", "\n\n", "\r\r\n", "\t"};
    S s;
    const int density = r.pick(std::vector<int>{2, 8, 60, 600});
    const bool nul = r.chance(1, 3);
    while (s.size() < n) {
        if (r.chance(1, density)) s += nul && r.chance(1, 4) ? S(1, '\0') : S(bits[r.below(12)]);
        else s += (char)('a' + r.below(26));
    }
    return s;
}
S gen_bytes(Rng &r, size_t n) { S s; while (s.size() < n) s += (char)r.below(256); return s; }
size_t gen_size(Rng &r)
{
    switch (r.range(0, 7)) {
        case 0: return 0;
        case 1: case 2: case 3: return r.range(1, 40);
        case 4: return r.range(100, 700);
        case 5: return r.range(4080, 4110);
        case 6: return r.range(8180, 8200);
        default: return r.range(1, 20000);
    }
}

// ------------------------------------------------------------------ one thread's program over its own files
enum Kind { OPEN, WRITE, PRINT, PLINES, READ, READSOME, READLINE, READLINES, SEEK, SETPOS, GETPOS, SIZE, STATSIZE, RESIZE, FLUSH, CLOSE, DROP, EOFQ, LOCK, WITH, ERRQ, PATHQ };
struct Op { Kind k; int fi; int64_t a = 0, b = 0; S mode, data; std::vector<S> parts; bool bad = false; };

struct Gen {
    Rng &r;
    std::vector<Op> ops;
    S body;
    int t;
    bool text;
};
S path_of(int t, int f) { return fmt("/work/t%df%d", t, f); }

// wraps an expression which is the operation, reports its result or its exception
void emit(Gen &g, const Op &o, const S &expr)
{
    const int id = (int)g.ops.size();
    g.ops.push_back(o);
    const int gid = g.t * 10000 + id;
    g.body += fmt("    try { const v = %s; sim.data(%d, 1, v) } catch const e { sim.data(%d, 2, ex(e)) }\n", expr.c_str(), gid, gid);
}
int add_blob(const S &s) { blob_table->push_back(s); return (int)blob_table->size() - 1; }

void gen_thread(Gen &g, int nops, bool oom)
{
    Rng &r = g.r;
    const int nf = r.range(1, 3);
    struct H { bool open = false; bool dropped = false; S mode; };
    std::vector<H> h(nf);
    for (int f = 0; f < nf; f++) g.body += fmt("    var f%d = void\n", f);
    auto lit = [](int64_t v) { return v < 0 ? fmt("(%ld)", (long)v) : fmt("%ld", (long)v); };
    for (int n = 0; n < nops; n++) {
        const int f = r.range(0, nf - 1);
        Op o; o.fi = f;
        if (h[f].dropped) continue;
        const S fv = fmt("f%d", f);
        if (!h[f].open && !r.chance(1, 12)) {
            o.k = OPEN;
            static const char *const modes[] = {"w+b", "w+b", "w+b", "rb", "r+b", "a+b", "a+b", "wb", "ab", "r+b"};
            o.mode = modes[r.below(10)];
            const S p = path_of(g.t, f).substr(r.chance(1, 3) ? 6 : 0);          // relative or absolute
            S e;
            if (o.mode == "w+b" && r.chance(1, 2)) e = fmt("io.create(\"%s\")", p.c_str());
            else if (o.mode == "a+b" && r.chance(1, 2)) e = fmt("io.append(\"%s\")", p.c_str());
            else e = fmt("io.open(\"%s\", \"%s\")", p.c_str(), o.mode.c_str());
            g.body += fmt("    %s = void\n", fv.c_str());
            const int id = g.t * 10000 + (int)g.ops.size();
            g.ops.push_back(o);
            g.body += fmt("    try { %s = %s; sim.data(%d, 1, true) } catch const e { sim.data(%d, 2, ex(e)) }\n", fv.c_str(), e.c_str(), id, id);
            h[f].open = true;                      // as far as the generator knows
            h[f].mode = o.mode;
            continue;
        }
        auto content = [&]() { const size_t k = gen_size(r); return g.text ? gen_text(r, k) : gen_bytes(r, k); };
        switch (r.range(0, 26)) {
            case 0: case 1: case 2: case 3: case 4: {
                o.k = WRITE;
                const int np = r.chance(1, 4) ? r.range(0, 3) : 1;
                S args;
                for (int i = 0; i < np; i++) {
                    S d = content();
                    const int b = add_blob(d);
                    o.parts.push_back(d);
                    args += (i ? ", " : "") + (g.text && r.chance(1, 2) ? fmt("sim.text(%d)", b) : fmt("sim.blob(%d)", b));
                }
                if (r.chance(1, 30)) { o.bad = true; args += S(np ? ", " : "") + "42"; }
                emit(g, o, fmt("%s.write(%s) == %s", fv.c_str(), args.c_str(), fv.c_str()));
                break;
            }
            case 5: case 6: {
                o.k = PRINT;
                const int np = r.range(0, 3);
                S args;
                for (int i = 0; i < np; i++) {
                    S d; const S sep = i ? ", " : "";
                    if (r.chance(1, 3)) { d = std::to_string(r.range(-500, 500)); args += sep + d; }
                    else { const int b = add_blob(d = gen_text(r, r.range(0, 60))); args += sep + fmt("sim.text(%d)", b); }
                    o.data += (i ? " " : "") + d;
                }
                o.data += "\n";
                emit(g, o, fmt("%s.print(%s) == %s", fv.c_str(), args.c_str(), fv.c_str()));
                break;
            }
            case 7: {
                o.k = PLINES;
                const int np = r.range(0, 4);
                S args;
                for (int i = 0; i < np; i++) { o.data += std::to_string(i * 7) + "\n"; args += (i ? ", " : "") + std::to_string(i * 7); }
                emit(g, o, fmt("do_plines(%s, [%s])", fv.c_str(), args.c_str()));
                break;
            }
            case 8: case 9: o.k = READ; o.a = r.chance(1, 3) ? -1 : (int64_t)gen_size(r) + 1;
                emit(g, o, o.a < 0 ? fmt("%s.read()", fv.c_str()) : r.chance(1, 3) ? fmt("pre(%s.read(%ld, buffer(3)))", fv.c_str(), (long)o.a) : fmt("%s.read(%ld)", fv.c_str(), (long)o.a));
                break;
            case 10: case 11: o.k = READSOME; o.a = (int64_t)gen_size(r) + 1;
                if (r.chance(1, 30)) { o.bad = true; o.a = 0xFFFFFFFFll + r.range(-40, 60); }
                emit(g, o, r.chance(1, 3) ? fmt("pre(%s.read_some(%ld, buffer(3)))", fv.c_str(), (long)o.a) : fmt("%s.read_some(%ld)", fv.c_str(), (long)o.a));
                break;
            case 12: case 13: case 14:
                o.k = READLINE; o.a = r.pick(std::vector<int>{1, 2, 3, 7, 64, 4096, 4096, 4095});
                if (r.chance(1, 30)) { o.bad = true; o.a = 0; }
                emit(g, o, o.a == 4096 ? fmt("%s.read_line()", fv.c_str()) : fmt("%s.read_line(%ld)", fv.c_str(), (long)o.a));
                break;
            case 15:
                if (!g.text) continue;
                o.k = READLINES; o.a = r.pick(std::vector<int>{1, 3, 5, 4096, 4096, 16, 64}); o.b = r.chance(1, 2);
                emit(g, o, fmt("lines(%s, %s, %ld)", fv.c_str(), o.b ? "true" : "false", (long)o.a));
                break;
            case 16: case 17: case 18:
                o.k = r.chance(1, 2) ? SEEK : SETPOS;
                o.a = r.chance(1, 4) ? -(int64_t)r.range(1, 60) : r.chance(1, 3) ? (int64_t)gen_size(r) : r.range(0, 100);
                if (r.chance(1, 3)) o.a = 0;
                if (o.k == SEEK) emit(g, o, fmt("%s.seek(%s) == %s", fv.c_str(), lit(o.a).c_str(), fv.c_str()));
                else emit(g, o, fmt("setpos(%s, %s)", fv.c_str(), lit(o.a).c_str()));
                break;
            case 19: o.k = GETPOS; emit(g, o, fmt("%s.position", fv.c_str())); break;
            case 20: o.k = r.chance(1, 2) ? SIZE : STATSIZE; emit(g, o, o.k == SIZE ? fmt("flushed(%s).size", fv.c_str()) : fmt("flushed(%s).stat.size", fv.c_str())); break;
            case 21: o.k = RESIZE; o.a = r.chance(1, 8) ? -(int64_t)r.range(1, 5) : r.chance(1, 2) ? r.range(0, 200) : (int64_t)gen_size(r); emit(g, o, fmt("%s.resize(%s) == %s", fv.c_str(), lit(o.a).c_str(), fv.c_str())); break;
            case 22: o.k = FLUSH; emit(g, o, fmt("%s.flush() == %s", fv.c_str(), fv.c_str())); break;
            case 23: case 24: {
                o.k = CLOSE;
                emit(g, o, fmt("%s.%s() == %s", fv.c_str(), r.chance(1, 2) ? "close" : "release", fv.c_str()));
                h[f].open = r.chance(1, 8);              // sometimes it is used although closed
                break;
            }
            case 25:
                if (!r.chance(1, 4)) { o.k = r.pick(std::vector<Kind>{EOFQ, LOCK, ERRQ, PATHQ}); emit(g, o, o.k == EOFQ ? fmt("%s.eof", fv.c_str()) : o.k == ERRQ ? fmt("%s.error", fv.c_str()) : o.k == PATHQ ? fmt("%s.path", fv.c_str()) : fmt("locked(%s)", fv.c_str())); break; }
                o.k = DROP;
                emit(g, o, "true");
                g.body += fmt("    %s = void\n", fv.c_str());
                h[f].dropped = true;
                break;
            case 26: {
                if (h[f].open) continue;
                o.k = WITH;
                const S d = content();
                o.data = d;
                o.mode = r.chance(1, 2) ? "w+b" : "a+b";
                g.body += fmt("    %s = void\n", fv.c_str());
                emit(g, o, fmt("with_file(\"%s\", \"%s\", sim.blob(%d))", path_of(g.t, f).c_str(), o.mode.c_str(), add_blob(d)));
                break;
            }
        }
        if (r.chance(1, 25)) g.body += "    sim.poke()\n";
        if (r.chance(1, 40)) g.body += "    sim.nap(1000)\n";
        (void)oom;
    }
}

// ------------------------------------------------------------------ the model
struct FileM { bool exists = false; S data; bool taint = false, forever = false; };    // forever: a lost handle may still write to it
struct HandleM { bool open = false, never = true; S mode; int64_t pos = 0; bool postaint = false, dirty = false, err = false, eof = false, eofknown = false; bool dropped = false, unsure = false;
    bool rd() const { return mode.find('r') != S::npos || mode.find('+') != S::npos; }
    bool wr() const { return mode.find('w') != S::npos || mode.find('a') != S::npos || mode.find('+') != S::npos; }
    bool app() const { return mode[0] == 'a'; } };

struct Model {
    int t;
    bool hit;                     // faults were injected: operations may fail
    std::vector<FileM> files;
    std::vector<HandleM> hs;
    const Op *cur = nullptr;
    int id = 0;
    [[noreturn]] void bad(const char *kind, const S &m)
    {
        violation(kind, "thread %d, operation %d on %s: %s", t, id, path_of(t, cur->fi).c_str(), m.c_str());
    }
    void put(HandleM &h, FileM &f, const S &d)
    {
        if (d.empty()) return;
        if ((h.postaint || h.pos < 0) && !h.app()) f.taint = true;
        if (h.pos < 0 || h.pos > (1 << 24)) h.pos = 0;
        if (h.app()) h.pos = (int64_t)f.data.size();
        if ((size_t)h.pos > f.data.size()) f.data.resize(h.pos, '\0');
        f.data.replace(h.pos, std::min(d.size(), f.data.size() - (size_t)h.pos), d);
        h.pos += (int64_t)d.size();
        h.dirty = true;
        h.eofknown = false;
    }
    S rest(HandleM &h, FileM &f) { return (size_t)h.pos < f.data.size() ? f.data.substr(h.pos) : S(); }
    void apply(const Op &o, const Blob &b, int opid)
    {
        cur = &o; id = opid;
        FileM &f = files[o.fi];
        HandleM &h = hs[o.fi];
        const bool exc = b.tag == 2;
        const S &got = b.data;
        auto check = [&](const S &want, const char *what) { if (got != want) bad("file:wrong-data", fmt("%s gave %zu bytes '%s' instead of %zu bytes '%s'", what, got.size(), printable(got).c_str(), want.size(), printable(want).c_str())); };
        auto expect_exc = [&](const char *why) { if (!exc) bad("file:missing-exception", fmt("succeeded although %s", why)); };
        auto unexpected = [&]() { if (!hit) bad("file:unexpected-exception", fmt("raised '%s'", got.c_str())); };
        if (o.k == OPEN || o.k == WITH) {
            if (o.k == OPEN) { if (hit && h.open && h.dirty) f.taint = f.forever = true; h = HandleM(); }
            h.never = true;
            if (exc) {
                if (o.mode[0] == 'r' && !f.exists && !f.taint) return;
                unexpected();
                h.unsure = true;                     // it could be reporting the result what failed
                f.taint = f.forever = true;
                if (o.mode[0] != 'r') { f.exists = true; f.taint = true; if (o.k == WITH) f.forever = true; }
                return;
            }
            if (o.mode[0] == 'r' && !f.exists && !f.taint) bad("file:missing-exception", "opened a file which does not exist");
            HandleM n;
            n.never = false; n.open = true; n.mode = o.mode;
            f.exists = true;
            if (o.mode[0] == 'w') { f.data.clear(); f.taint = f.forever; }
            if (o.mode == "ab") n.pos = (int64_t)f.data.size();
            n.eofknown = true;
            if (o.k == OPEN) { h = n; return; }
            put(n, f, o.data);
            check("1", "with");
            return;
        }
        if (h.never) { if (o.k == DROP || h.unsure) return; expect_exc("the file was never opened"); return; }
        if (!h.open) {
            if (o.k == CLOSE) { if (exc) unexpected(); return; }
            if (o.k == DROP) return;
            if (o.k == PATHQ || (o.k == PLINES && o.data.empty())) return;
            expect_exc("the file was closed");
            if (!hit && got.find("not open") == S::npos) bad("file:unexpected-exception", fmt("raised '%s' on a closed file", got.c_str()));
            return;
        }
        auto upset = [&]() { if (h.dirty) f.taint = true; h.postaint = true; h.eofknown = false; };          // the operation failed half-way
        auto lose = [&]() { f.taint = true; h.postaint = true; h.err = true; h.eofknown = false; };
        switch (o.k) {
            case WRITE: case PRINT: case PLINES: {
                S d = o.data;
                for (auto &p : o.parts) d += p;
                if (!h.wr() && !d.empty()) { expect_exc("the file is open for reading only"); h.err = true; if (hit) upset(); return; }
                if (o.bad) { expect_exc("an argument is neither a buffer nor a string"); if (hit) lose(); else put(h, f, d); return; }
                if (exc) { unexpected(); lose(); return; }
                put(h, f, d);
                if (o.k != PLINES) check("1", "the operation");
                return;
            }
            case READ: case READSOME: case READLINE: case READLINES: {
                if (o.bad) { expect_exc("the size is invalid"); if (hit) upset(); return; }
                if (!h.rd()) { expect_exc("the file is open for writing only"); h.err = true; if (hit) upset(); return; }
                if (exc) {
                    const S rs = rest(h, f);
                    S take = rs;
                    if (o.k == READLINE) { const size_t e = rs.find('\n'); if (e != S::npos) take = rs.substr(0, e + 1); }
                    if ((o.k == READLINE || o.k == READLINES) && !f.taint && !h.postaint && !surely_utf8(take)) {
                        if (hit) upset(); else if (o.k == READLINES) h.postaint = true; else h.pos += (int64_t)take.size();
                        h.eofknown = false;
                        return;
                    }
                    if (h.dirty && hit) f.taint = true;
                    if (f.taint || h.postaint) return;
                    unexpected();
                    h.postaint = true; h.err = true; h.eofknown = false;
                    return;
                }
                if (f.taint || h.postaint) { h.eofknown = false; return; }
                const S rs = rest(h, f);
                if (o.k == READ || o.k == READSOME) {
                    const S want = o.a < 0 ? rs : rs.substr(0, (size_t)o.a);
                    check(want, o.k == READ ? "read()" : "read_some()");
                    h.pos += (int64_t)want.size();
                    if (o.k == READSOME) { h.eof = (int64_t)want.size() < o.a; h.eofknown = true; }
                    else h.eofknown = false;
                } else if (o.k == READLINE) {
                    const size_t e = rs.find('\n');
                    const S want = e == S::npos ? rs : rs.substr(0, e + 1);
                    if (!valid_utf8(want)) bad("file:missing-exception", "read_line() accepted text which is not UTF-8");
                    check(want, "read_line()");
                    h.pos += (int64_t)want.size();
                    h.eof = e == S::npos; h.eofknown = true;
                } else {
                    if (!valid_utf8(rs)) bad("file:missing-exception", "read_lines() accepted text which is not UTF-8");
                    S want;
                    for (auto &l : lines_of(rs, o.b)) want += "<" + l + ">";
                    check(want, "read_lines()");
                    h.pos = (int64_t)std::max<size_t>(f.data.size(), h.pos);
                    h.eofknown = false;
                }
                return;
            }
            case SEEK: case SETPOS: {
                const int64_t np = o.a < 0 ? (int64_t)f.data.size() + o.a : o.a;
                if (np < 0 && !f.taint) { expect_exc("the position is before the start of the file"); if (hit) { h.postaint = true; if (h.dirty) f.taint = true; } return; }
                if (exc) { if (f.taint && o.a < 0) { h.postaint = true; return; } unexpected(); if (h.dirty) f.taint = true; h.postaint = true; h.err = true; return; }
                h.pos = np; h.postaint = f.taint && o.a < 0; h.eof = false; h.eofknown = true; h.dirty = false;
                return;
            }
            case GETPOS:
                if (exc) { unexpected(); upset(); return; }
                if (f.taint || h.postaint) return;
                check(std::to_string(h.pos), "position");
                return;
            case SIZE: case STATSIZE:
                if (exc) { unexpected(); lose(); return; }
                h.dirty = false; h.eofknown = false;
                if (!f.taint) check(std::to_string(f.data.size()), "size");
                return;
            case RESIZE:
                if (o.a < 0) { expect_exc("the size is negative"); if (hit) upset(); return; }
                if (!h.wr()) { expect_exc("the file is open for reading only"); if (hit) upset(); return; }
                if (exc) { unexpected(); lose(); return; }
                if ((size_t)o.a > f.data.size() && !(h.eofknown && !h.eof)) h.postaint = true;      // as with C files, the end of the file is remembered until a seek
                f.data.resize(o.a, '\0'); h.dirty = false; h.eofknown = false;
                return;
            case FLUSH:
                if (exc) { unexpected(); lose(); return; }
                h.dirty = false; h.eofknown = false;
                return;
            case CLOSE:
                // when an exception is raised the file may be still open, but not if it is the file which failed
                if (exc) { unexpected(); f.taint = f.forever = true; if (got.find("not open") == S::npos && exc_is_oom(got)) { h.postaint = true; } else h.open = false; return; }
                h.open = false;
                return;
            case DROP: h.dropped = true; h.open = false; if (hit && h.dirty) f.taint = true; h.never = true; return;
            case EOFQ:
                if (exc) { unexpected(); return; }
                if (h.eofknown && !f.taint && !h.postaint) check(h.eof ? "1" : "0", "eof");
                return;
            case ERRQ: if (exc) unexpected(); else if (!hit && !h.err) check("0", "error"); return;
            case PATHQ: if (exc) unexpected(); else if (!hit) check(path_of(t, o.fi), "path"); return;
            case LOCK: if (exc) unexpected(); return;
            default: return;
        }
    }
};

const char *const prelude =
    "import base.*\nimport sim\nimport io\n"
    "fun ex(e) { if typeof e == \"string\" { return e }; return e.value }\n"
    "fun do_plines(f, a) { f.print_lines(a); return true }\n"
    "fun pre(b) { assert b[0] == 0 && b[2] == 0; return b.slice(3, void) }\n"
    "fun lines(f, k, g) { var s = \"\"; for const l in f.read_lines(k, g) { s += \"<\" + l + \">\" }; return s }\n"
    "fun setpos(f, p) { f.position = p; return true }\n"
    "fun flushed(f) { f.flush(); return f }\n"
    "fun locked(f) { with f.lock() { sim.nap(10) }; return true }\n"
    "fun with_file(p, m, b) { with const f = io.open(p, m) { f.write(b) }; return true }\n";

void file_faults(Rng &r, bool oom)
{
    if (oom) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5);
    } else {
        for (FaultKind k : {F_OPEN_FAIL, F_EINTR, F_IO_ERROR, F_ENOSPC, F_FLOCK_FAIL, F_SYSCALL_FAIL}) if (r.chance(1, 2)) { knobs.rate[k] = r.pick(std::vector<int>{1000, 5000, 12000}); knobs.burst_limit[k] = (uint32_t)r.range(1, 6); }
        if (r.chance(1, 4)) disk_capacity = fs_used() + (uint64_t)r.range(100, 30000);
    }
}
// what a full disk or an injected fault explains
bool was_hit()
{
    for (int k = 0; k < F_COUNT; k++) if (res->faults[k] && k != F_CAS_WEAK && k != F_SPURIOUS_WAKE && k != F_GC_PRESSURE && k != F_STALL && k != F_SLOW_IO && k != F_SHORT_IO) return true;
    return disk_capacity != ~0ull;
}
void end_checks(uint64_t)
{
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    if (open_files()) violation("leak:FILE", "%d FILE objects left open", open_files());
    if (open_dirs()) violation("leak:DIR", "%d open directories left", open_dirs());
}

void run_model(int level)            // 0 no faults, 1 system faults, 2 memory faults
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<S>;
    blobs = new std::vector<Blob>;
    blob_table = new std::vector<S>;
    const int nt = r.chance(1, 2) ? 0 : r.range(1, 3);
    S src = prelude;
    std::vector<Gen *> gs;
    S run = "const ts = []\n";
    for (int t = 0; t <= nt; t++) {
        Gen *g = new Gen{r, {}, "", t, r.chance(3, 5)};
        gen_thread(*g, r.range(4, nt ? 18 : 40), level == 2);
        gs.push_back(g);
        src += fmt("fun w%d {\n", t) + g->body + "}\n";
        if (t) run += fmt("ts.push(async w%d())\n", t);
    }
    src += "sim.fault(1)\n" + run + "w0()\nfor const t in ts { t.wait() }\n";
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 100000000;
    if (r.chance(1, 2)) knobs.rate[F_SHORT_IO] = 20000;
    if (tracing) trace("program:\n%s", src.c_str());
    if (level) file_faults(r, level == 2);
    begin_run();
    end_faults();
    const unsigned n = r.range(0, 4), gap = 1u << r.range(8, 13);
    if (n) start_gc_injector(n, gap);
    S e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool hit = was_hit();
    if (fail && !hit) violation("file:unexpected-exception", "the program ended with %s", e.c_str());
    std::vector<Model> ms(nt + 1);
    for (int t = 0; t <= nt; t++) { ms[t].t = t; ms[t].hit = hit; ms[t].files.resize(4); ms[t].hs.resize(4); }
    std::vector<size_t> done(nt + 1, 0);
    for (auto &b : *blobs) {
        const int t = (int)(b.id / 10000), i = (int)(b.id % 10000);
        if ((size_t)i != done[t]) {
            if (!hit) violation("file:skipped", "thread %d: operation %d was not reported", t, (int)done[t]);
            for (auto &f : ms[t].files) f.taint = true;
            for (auto &h : ms[t].hs) h.never = true;
            break;
        }
        done[t]++;
        ms[t].apply(gs[t]->ops[i], b, i);
    }
    end_checks(0);
    for (int t = 0; t <= nt; t++) {
        const bool all = done[t] == gs[t]->ops.size();
        if (!all && !hit) violation("file:skipped", "thread %d reported %zu of %zu operations", t, done[t], gs[t]->ops.size());
        if (!all) continue;
        for (int f = 0; f < 4; f++) {
            const FileM &m = ms[t].files[f];
            const HandleM &h = ms[t].hs[f];
            // left open: it is closed by a collection or at the end, where faults have no one to be told to
            if (m.taint || (hit && (h.open || h.dropped) && h.dirty)) continue;
            Node *nd = fs_lookup(path_of(t, f));
            if (!nd != !m.exists) violation("file:existence", "%s %s", path_of(t, f).c_str(), nd ? "exists" : "does not exist");
            if (nd && nd->data != m.data) {
                size_t d = 0;
                while (d < nd->data.size() && d < m.data.size() && nd->data[d] == m.data[d]) d++;
                violation("file:content", "%s holds %zu bytes instead of the %zu bytes which were written, the first difference is at %zu%s", path_of(t, f).c_str(), nd->data.size(), m.data.size(), d, hit ? " (and no operation raised an exception)" : "");
            }
        }
    }
}
void run_files() { run_model(0); }
void run_files_faults() { run_model(1); }
void run_files_oom() { run_model(2); }
void setup() { setup_script(); }
SCENARIO("files", setup, run_files);
SCENARIO("files_faults", setup, run_files_faults);
SCENARIO("files_oom", setup, run_files_oom);
} // namespace
