// P18: random programs full of defer, with, try, loops, calls and generators, against a reference
// interpreter of the same tree; then the same programs with failing allocations or interrupts at any
// instant, against the bracket structure of what they logged.
#include "kosutil.h"
#include <csignal>
#include <cstring>
#include <memory>
#include <set>
using namespace kx;

namespace {
enum K { EMIT, THROW, RTERR, RET, RETCALL, BRK, CONT, FALL, DEFER, WITH, TRY_, FOR_, FORGEN, WHILE_, SWITCH_, CALL, ACALL, DEEP, IF_, YIELD_, GARB, BLOCK };
struct Cond { int var = -1, c = 0, m = 1, k = 0; };
struct Nd;
typedef std::vector<Nd *> Blk;
struct Nd { K k; int site; Cond cond; Blk body, body2; int a = 0, b = 0, var = 0; std::vector<int> how; std::vector<Blk> cases; };
struct Fn { bool gen; Blk body; std::vector<std::string> names; };

const int64_t RT = 777777, OOM = 999999, INT_ = 888888;
int64_t enc(int code, int site, int64_t v) { return code + 100 * (int64_t)site + 1000000 * v; }

struct Maker {
    Rng &r;
    std::vector<Fn> fns;
    int site = 1;
    bool deep_ok;
    Maker(Rng &r_, bool d) : r(r_), deep_ok(d) {}
    struct Ctx { int fn; bool gen, loop, sw, defer; std::vector<int> vars; int depth; };
    Cond cond(const Ctx &c, bool may_always = false)
    {
        Cond q;
        if (may_always && r.chance(1, 4)) return q;
        q.var = c.vars[r.below(c.vars.size())];
        q.m = r.range(2, 4); q.k = r.range(0, q.m - 1); q.c = r.range(0, 5);
        return q;
    }
    Blk block(Ctx c, int lo, int hi)
    {
        Blk b;
        for (int n = r.range(lo, hi); n > 0; n--) if (Nd *x = stmt(c)) b.push_back(x);
        return b;
    }
    int new_var(Ctx &c, const char *pfx, int s) { Fn &f = fns[c.fn]; f.names.push_back(fmt("%s%d", pfx, s)); c.vars.push_back((int)f.names.size() - 1); return c.vars.back(); }
    Nd *stmt(const Ctx &c0)
    {
        Ctx c = c0;
        c.depth++;
        Nd *n = new Nd;
        n->site = site++;
        const bool leaf = c.depth > 5 || site > 120;
        for (;;) {
            n->k = (K)r.below(BLOCK + 1);
            if (r.chance(1, 3)) n->k = r.pick(std::vector<K>{DEFER, WITH, TRY_, FOR_, CALL});
            switch (n->k) {
                case EMIT: return n;
                case GARB: n->a = r.range(1, 40); return n;
                case THROW: case RTERR:
                    if (c.defer && !r.chance(1, 4)) continue;
                    n->cond = cond(c, r.chance(1, 3)); n->a = r.range(0, 2); return n;
                case RET: if (c.defer) continue; n->cond = cond(c, r.chance(1, 3)); return n;
                case RETCALL: {
                    if (c.defer || c.gen) continue;
                    n->a = target(c.fn, false); if (n->a < 0) continue;
                    n->cond = cond(c); n->var = c.vars.back(); n->b = r.range(0, 3); return n;
                }
                case BRK: if (!(c.loop || c.sw)) continue; n->cond = cond(c, c.sw); return n;
                case CONT: if (!c.loop) continue; n->cond = cond(c); return n;
                case FALL: continue;
                case DEFER: if (leaf) continue; { Ctx d = c; d.defer = true; d.loop = d.sw = false; n->body = block(d, 0, 2); } return n;
                case WITH: if (leaf) continue; for (int i = r.range(1, 3); i > 0; i--) n->how.push_back(r.chance(1, 3) ? r.range(1, 3) : 0); n->a = r.range(0, 1); n->var = c.vars.back(); n->body = block(c, 0, 3); return n;
                case TRY_: if (leaf) continue; n->body = block(c, 1, 4); n->a = r.chance(1, 4); n->body2 = block(c, 0, 2); return n;
                case FOR_: case WHILE_: {
                    if (leaf) continue;
                    Ctx d = c; d.loop = true; d.sw = false;
                    n->a = r.range(0, 4); n->var = new_var(d, n->k == FOR_ ? "i" : "w", n->site); n->body = block(d, 1, 4); return n;
                }
                case FORGEN: {
                    if (leaf) continue;
                    n->a = target(c.fn, true); if (n->a < 0) continue;
                    n->b = c.vars[r.below(c.vars.size())];
                    Ctx d = c; d.loop = true; d.sw = false; n->var = new_var(d, "y", n->site); n->body = block(d, 1, 3); return n;
                }
                case SWITCH_: {
                    if (leaf) continue;
                    Ctx d = c; d.sw = true;
                    n->var = c.vars[r.below(c.vars.size())]; n->a = r.range(0, 3);
                    const int nc = r.range(1, 3);
                    for (int i = 0; i < nc; i++) {
                        n->cases.push_back(block(d, 1, 3));
                        if (i + 1 < nc && r.chance(1, 3)) { Nd *f = new Nd; f->k = FALL; f->site = site++; f->cond = cond(d, true); n->cases.back().push_back(f); }
                    }
                    return n;
                }
                case CALL: case ACALL: n->a = target(c.fn, false); if (n->a < 0 || (n->k == ACALL && !r.chance(1, 3))) continue; n->var = c.vars[r.below(c.vars.size())]; n->b = r.range(0, 3); return n;
                case DEEP: if (!deep_ok || !r.chance(1, 6)) continue; return n;
                case IF_: if (leaf) continue; n->cond = cond(c); n->body = block(c, 1, 3); n->body2 = block(c, 0, 2); return n;
                case YIELD_: if (!c.gen || c.defer) continue; n->var = c.vars[r.below(c.vars.size())]; return n;
                case BLOCK: if (leaf) continue; n->body = block(c, 1, 4); return n;
            }
        }
    }
    int target(int fn, bool gen)
    {
        std::vector<int> v;
        for (int i = fn + 1; i < (int)fns.size(); i++) if (fns[i].gen == gen) v.push_back(i);
        return v.empty() ? -1 : v[r.below(v.size())];
    }
    void make()
    {
        const int n = r.range(1, 5);
        for (int i = 0; i < n; i++) { Fn f; f.gen = i > 0 && r.chance(1, 3); f.names.push_back("x"); fns.push_back(f); }
        for (int i = n - 1; i >= 0; i--) { Ctx c{i, fns[i].gen, false, false, false, {0}, 0}; Blk b = block(c, 2, 5); if (fns[i].gen) { Nd *y = new Nd; y->k = YIELD_; y->site = site++; y->var = 0; b.insert(b.begin() + (long)r.below(b.size() + 1), y); } fns[i].body = b; }
    }
};

// ---- source text
struct Printer {
    const Maker &m;
    std::string s;
    const Fn *f = nullptr;
    explicit Printer(const Maker &mm) : m(mm) {}
    std::string ind(int d) { return std::string((size_t)d * 2, ' '); }
    std::string ev(int code, int site, const std::string &v = "") { return fmt("L[P[0]] = %ld", (long)enc(code, site, 0)) + (v.empty() ? "" : " + 1000000 * " + v) + "; P[0] += 1"; }
    std::string cd(const Cond &c) { return c.var < 0 ? "" : fmt("if (%s + %d) %% %d == %d ", f->names[c.var].c_str(), c.c, c.m, c.k); }
    std::string val(const Nd *n, int var) { return fmt("(%d + %s %% 10)", n->site * 10, f->names[var].c_str()); }
    void blk(const Blk &b, int d) { for (auto n : b) st(n, d, n == b.back()); }
    void guard(const Nd *n, int d, const std::string &t) { s += ind(d) + (n->cond.var < 0 ? "if P[0] >= 0 " : cd(n->cond)) + "{ " + t + " }\n"; }   // (never dead code for the compiler)
    void st(const Nd *n, int d, bool last)
    {
        const int S = n->site;
        switch (n->k) {
            case EMIT: s += ind(d) + ev(1, S) + "\n"; break;
            case GARB: s += ind(d) + fmt("for const q in range(%d) { G[0] = [q, \"\\(q)\", { k: q }, array(40 * (q % 8), q)] }\n", n->a); break;
            case THROW: guard(n, d, ev(7, S, fmt("%d", S * 10)) + fmt("; throw %d", S * 10)); break;
            case RTERR: guard(n, d, ev(7, S, fmt("%ld", (long)RT)) + (n->a == 0 ? "; G.nothing.x = 1" : n->a == 1 ? "; G[77] = G[99]" : "; G[0] = 5 / (P[0] - P[0])")); break;
            case RET: guard(n, d, ev(2, S) + (f->gen ? "; return" : "; return " + fmt("%d", S * 10))); break;
            case RETCALL: guard(n, d, ev(2, S) + fmt("; return f%d(%s + %d)", n->a, f->names[n->var].c_str(), n->b)); break;
            case BRK: guard(n, d, ev(3, S) + "; break"); break;
            case CONT: guard(n, d, ev(4, S) + "; continue"); break;
            case FALL: guard(n, d, ev(10, S) + "; fallthrough"); break;
            case DEFER:
                s += ind(d) + fmt("const d%d = P[1]; P[1] += 1\n", S) + ind(d) + "defer {\n" + ind(d + 1) + ev(f->gen ? 15 : 5, S, fmt("d%d", S)) + "\n";
                blk(n->body, d + 1);
                s += ind(d) + "}\n";
                if (!last || S % 2) s += ind(d) + ev(f->gen ? 16 : 6, S, fmt("d%d", S)) + "\n";
                break;
            case WITH: {
                s += ind(d) + "with ";
                for (size_t i = 0; i < n->how.size(); i++) s += (i ? ", " : "") + (n->a ? fmt("const o%d_%zu = ", S, i) : std::string()) + fmt("W%d(%d, %d)", f->gen ? 1 : 0, S, n->how[i]);
                s += " {\n" + ind(d + 1) + ev(f->gen ? 54 : 44, S) + "\n";
                blk(n->body, d + 1);
                s += ind(d) + "}\n";
                break;
            }
            case TRY_:
                s += ind(d) + "try {\n";
                blk(n->body, d + 1);
                s += ind(d) + fmt("} catch const e%d {\n", S) + ind(d + 1) + fmt("const v%d = val(e%d); ", S, S) + ev(8, S, fmt("v%d", S)) + "\n";
                if (!n->body2.empty()) { s += ind(d + 1) + "do {\n"; blk(n->body2, d + 2); s += ind(d + 1) + "}\n"; }
                if (n->a) s += ind(d + 1) + "if P[0] >= 0 { " + ev(7, S, fmt("v%d", S)) + fmt("; throw e%d }\n", S);
                s += ind(d) + "}\n";
                break;
            case FOR_: s += ind(d) + fmt("for const i%d in range(%d) {\n", S, n->a); blk(n->body, d + 1); s += ind(d) + "}\n"; break;
            case WHILE_: s += ind(d) + fmt("var w%d = 0\n", S) + ind(d) + fmt("while w%d < %d {\n", S, n->a) + ind(d + 1) + fmt("w%d += 1\n", S); blk(n->body, d + 1); s += ind(d) + "}\n"; break;
            case FORGEN: s += ind(d) + fmt("for const y%d in f%d(%s) {\n", S, n->a, f->names[n->b].c_str()) + ind(d + 1) + ev(9, S, fmt("y%d", S)) + "\n"; blk(n->body, d + 1); s += ind(d) + "}\n"; break;
            case SWITCH_:
                s += ind(d) + fmt("switch (%s + %d) %% 4 {\n", f->names[n->var].c_str(), n->a);
                for (size_t i = 0; i < n->cases.size(); i++) {
                    s += ind(d + 1) + (i + 1 == n->cases.size() && n->a % 2 ? "default {\n" : fmt("case %zu {\n", i));
                    blk(n->cases[i], d + 2);
                    s += ind(d + 1) + "}\n";
                }
                s += ind(d) + "}\n";
                break;
            case CALL: case ACALL:
                if (n->k == ACALL) s += ind(d) + fmt("const t%d = async f%d(%s + %d)\n", S, n->a, f->names[n->var].c_str(), n->b) + ind(d) + fmt("const r%d = t%d.wait()\n", S, S);
                else s += ind(d) + fmt("const r%d = f%d(%s + %d)\n", S, n->a, f->names[n->var].c_str(), n->b);
                s += ind(d) + ev(9, S, fmt("(r%d == void ? 0 : r%d)", S, S)) + "\n";
                break;
            case DEEP: s += ind(d) + "try { dive(0) } catch const e { }\n"; break;
            case IF_:
                s += ind(d) + cd(n->cond) + "{\n"; blk(n->body, d + 1);
                if (!n->body2.empty()) { s += ind(d) + "} else {\n"; blk(n->body2, d + 1); }
                s += ind(d) + "}\n";
                break;
            case YIELD_: s += ind(d) + ev(11, S) + "; yield " + val(n, n->var) + "\n"; break;
            case BLOCK: s += ind(d) + "do {\n"; blk(n->body, d + 1); s += ind(d) + "}\n"; break;
        }
    }
    std::string program(int x0)
    {
        s = "import base.*\nimport sim\nconst L = array(30000)\nconst P = [0, 0]\nconst G = [0]\nconst Q = array(2000, 0)\nconst Q2 = array(2000, 0)\n"
            "fun val(e) { const v = typeof e == \"string\" ? e : e.value; if typeof v == \"integer\" { return v } ; if typeof v == \"string\" { return v.find(\"out of memory\") >= 0 ? 999999 : 777777 } ; return 888888 }\n"
            "fun dive(n) { defer { Q[n] += 1 } ; Q2[n] += 1; dive(n + 1); return 0 }\n";
        for (int g = 0; g < 2; g++) {
            const int o = g * 10;
            s += fmt("fun W%d(site, how) {\n  const d = P[1]; P[1] += 1\n  L[P[0]] = %d + 100 * site + 1000000 * d; P[0] += 1\n  const o = { release: fun { L[P[0]] = %d + 100 * site + 1000000 * d; P[0] += 1; if how == 2 { L[P[0]] = 7 + 100 * site + 1000000 * (site * 10 + 4); P[0] += 1; throw site * 10 + 4 } } }\n"
                     "  if how != 3 { o.acquire = fun { L[P[0]] = %d + 100 * site + 1000000 * d; P[0] += 1; if how == 1 { L[P[0]] = 7 + 100 * site + 1000000 * (site * 10 + 3); P[0] += 1; throw site * 10 + 3 } ; L[P[0]] = %d + 100 * site + 1000000 * d; P[0] += 1 } }\n  return o\n}\n", g, 40 + o, 43 + o, 41 + o, 42 + o);
        }
        for (size_t i = m.fns.size(); i-- > 0;) { f = &m.fns[i]; s += fmt("fun f%zu(x) {\n", i); blk(f->body, 1); s += "}\n"; }
        s += "sim.fault(1)\n";
        s += fmt("try { const r = f0(%d); L[P[0]] = 9 + 1000000 * (r == void ? 0 : r); P[0] += 1 } catch const e { const v = val(e); L[P[0]] = 8 + 1000000 * v; P[0] += 1 }\n", x0);
        s += "sim.fault(0)\nsim.done()\nfor const i in range(P[0]) { sim.rec(1, i, L[i]) }\nfor const i in range(2000) { if Q[i] || Q2[i] { sim.rec(2, Q[i], Q2[i]) } }\nsim.rec(99)\n";
        return s;
    }
};

// ---- reference interpreter
struct Out { enum T { NORMAL, BREAK, CONTINUE, FALLTHROUGH, RETURN, THROW, ABANDON } t = NORMAL; int64_t v = 0; };
struct Interp {
    const Maker &m;
    std::vector<int64_t> ev;
    int64_t nd = 0;
    bool too_long = false;
    explicit Interp(const Maker &mm) : m(mm) {}
    struct Env { const Fn *f; std::vector<int64_t> v; std::function<Out(int64_t)> *yield; Out abandoned; };
    void e(int code, int site, int64_t v = 0) { if (ev.size() > 1500) { too_long = true; return; } ev.push_back(enc(code, site, v)); }
    bool cond(const Cond &c, Env &en) { return c.var < 0 || (en.v[c.var] + c.c) % c.m == c.k; }
    Out call(int fn, int64_t x)
    {
        Env en{&m.fns[fn], std::vector<int64_t>(m.fns[fn].names.size(), 0), nullptr, {}};
        en.v[0] = x;
        Out o = blk(en.f->body, 0, en);
        if (o.t == Out::RETURN) return Out{Out::NORMAL, o.v};
        return o;
    }
    Out with(const Nd *n, size_t i, Env &en)
    {
        const int g = en.f->gen ? 10 : 0;
        if (i == n->how.size()) { e(44 + g, n->site); return blk(n->body, 0, en); }
        const int64_t d = nd++;
        e(40 + g, n->site, d);
        if (n->how[i] != 3) {
            e(41 + g, n->site, d);
            if (n->how[i] == 1) { e(7, n->site, n->site * 10 + 3); return Out{Out::THROW, n->site * 10 + 3}; }
            e(42 + g, n->site, d);
        }
        Out o = with(n, i + 1, en);
        if (o.t == Out::ABANDON || too_long) return o;
        e(43 + g, n->site, d);
        if (n->how[i] == 2) { e(7, n->site, n->site * 10 + 4); return Out{Out::THROW, n->site * 10 + 4}; }
        return o;
    }
    Out blk(const Blk &b, size_t i, Env &en)
    {
        for (; i < b.size(); i++) {
            if (too_long) return Out{Out::ABANDON, 0};
            const Nd *n = b[i];
            if (n->k == DEFER) {
                const int64_t d = nd++;
                const bool last = i + 1 == b.size();
                Out o;
                if (!last || n->site % 2) { e(en.f->gen ? 16 : 6, n->site, d); o = blk(b, i + 1, en); }
                if (o.t == Out::ABANDON || too_long) return o;
                e(en.f->gen ? 15 : 5, n->site, d);
                Out p = blk(n->body, 0, en);
                return p.t == Out::NORMAL ? o : p;
            }
            Out o = st(n, en);
            if (o.t != Out::NORMAL) return o;
        }
        return Out{};
    }
    // one pass of a loop body; true = leave the loop with *o
    bool leave(Out &o) { if (o.t == Out::BREAK) { o = Out{}; return true; } if (o.t == Out::CONTINUE || o.t == Out::NORMAL) { o = Out{}; return false; } return true; }
    Out st(const Nd *n, Env &en)
    {
        const int S = n->site;
        switch (n->k) {
            case EMIT: e(1, S); break;
            case GARB: case DEEP: break;
            case THROW: if (cond(n->cond, en)) { e(7, S, S * 10); return Out{Out::THROW, S * 10}; } break;
            case RTERR: if (cond(n->cond, en)) { e(7, S, RT); return Out{Out::THROW, RT}; } break;
            case RET: if (cond(n->cond, en)) { e(2, S); return Out{Out::RETURN, en.f->gen ? 0 : S * 10}; } break;
            case RETCALL: if (cond(n->cond, en)) { e(2, S); Out o = call(n->a, en.v[n->var] + n->b); if (o.t == Out::NORMAL) o.t = Out::RETURN; return o; } break;
            case BRK: if (cond(n->cond, en)) { e(3, S); return Out{Out::BREAK, 0}; } break;
            case CONT: if (cond(n->cond, en)) { e(4, S); return Out{Out::CONTINUE, 0}; } break;
            case FALL: if (cond(n->cond, en)) { e(10, S); return Out{Out::FALLTHROUGH, 0}; } break;
            case DEFER: break;
            case WITH: return with(n, 0, en);
            case TRY_: {
                Out o = blk(n->body, 0, en);
                if (o.t != Out::THROW || too_long) return o;
                e(8, S, o.v);
                Out p = blk(n->body2, 0, en);
                if (p.t != Out::NORMAL) return p;
                if (n->a) { e(7, S, o.v); return o; }
                break;
            }
            case FOR_: for (int i = 0; i < n->a; i++) { en.v[n->var] = i; Out o = blk(n->body, 0, en); if (leave(o)) return o; } break;
            case WHILE_: for (int i = 0; i < n->a; i++) { en.v[n->var] = i + 1; Out o = blk(n->body, 0, en); if (leave(o)) return o; } break;
            case FORGEN: {
                Out res_;
                std::function<Out(int64_t)> y = [&](int64_t v) -> Out { en.v[n->var] = v; e(9, S, v); Out o = blk(n->body, 0, en); if (leave(o)) { res_ = o; return Out{Out::ABANDON, 0}; } return Out{}; };
                const Fn &g = m.fns[n->a];
                Env ge{&g, std::vector<int64_t>(g.names.size(), 0), &y, {}};
                ge.v[0] = en.v[n->b];
                Out o = blk(g.body, 0, ge);
                if (o.t == Out::THROW) return o;
                if (o.t == Out::ABANDON) return too_long ? o : res_;
                break;
            }
            case SWITCH_: {
                const int64_t v = (en.v[n->var] + n->a) % 4;
                size_t i = (size_t)v;
                if (i >= n->cases.size() || (i + 1 == n->cases.size() && n->a % 2)) { if (n->a % 2) i = n->cases.size() - 1; else break; }
                for (;;) {
                    Out o = blk(n->cases[i], 0, en);
                    if (o.t == Out::FALLTHROUGH) { i++; continue; }
                    if (o.t == Out::BREAK) return Out{};
                    return o;
                }
            }
            case CALL: case ACALL: { Out o = call(n->a, en.v[n->var] + n->b); if (o.t != Out::NORMAL) return o; e(9, S, o.v); break; }
            case IF_: return blk(cond(n->cond, en) ? n->body : n->body2, 0, en);
            case YIELD_: e(11, S); return (*en.yield)(S * 10 + en.v[n->var] % 10);
            case BLOCK: return blk(n->body, 0, en);
        }
        return Out{};
    }
};
std::string show(int64_t v) { return fmt("%d:%d(%ld)", (int)(v % 100), (int)(v / 100 % 10000), (long)(v / 1000000)); }
std::string around(const std::vector<int64_t> &v, size_t i) { std::string s; for (size_t k = i > 6 ? i - 6 : 0; k < v.size() && k < i + 3; k++) s += (k == i ? " >" : " ") + show(v[k]); return s; }

bool prog_over;
int n_sent;
unsigned sg_n, sg_gap;
void *sig_main(void *)
{
    Rng r(mix(spec.seed, 99));
    for (unsigned i = 0; i < sg_n && !prog_over && !script_flag; i++) {
        const uint64_t until = step() + 1 + r.below(2 * sg_gap), dl = now_ns() + 25 * (1 + r.below(2 * sg_gap));
        wait_until([until] { return prog_over || script_flag || step() >= until; }, "signal source", false, dl);
        if (prog_over || script_flag) break;
        post_signal(SIGINT);
        n_sent++;
    }
    return nullptr;
}

enum Mode { PLAIN, M_OOM, M_INT };
void run_defer(Mode mode)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<std::string>;
    prog_over = script_flag = false; n_sent = 0;
    std::unique_ptr<Maker> mk;
    std::vector<int64_t> want;
    const int x0 = r.range(0, 9);
    for (int tries = 0;; tries++) {
        mk.reset(new Maker(r, mode != M_INT || r.chance(1, 4)));
        mk->make();
        Interp in(*mk);
        Out o = in.call(0, x0);
        if (in.too_long) { if (tries > 50) harness_error("cannot make a program"); continue; }
        if (in.ev.size() < 6 && tries < 30) continue;
        if (o.t == Out::THROW) in.ev.push_back(enc(8, 0, o.v)); else in.ev.push_back(enc(9, 0, o.v));
        want = in.ev;
        break;
    }
    const std::string src = Printer(*mk).program(x0);
    if (tracing) trace("program:\n%s", src.c_str());
    knobs_concurrency(r.chance(1, 4));
    knobs.max_steps = 120000000;
    if (mode == M_OOM) {
        switch (r.range(0, 2)) {
            case 0: knobs.at[F_MALLOC] = 1 + r.below(r.chance(1, 2) ? 8 : 40); knobs.at_len[F_MALLOC] = 1; break;
            case 1: knobs.rate[F_MALLOC] = r.pick(std::vector<int>{100, 1000, 8000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 3); break;
            case 2: knobs.at[F_MALLOC] = 1 + r.below(r.chance(1, 2) ? 6 : 30); knobs.at_len[F_MALLOC] = (uint64_t)r.range(2, 6); break;
        }
        if (r.chance(1, 4)) { knobs.rate[F_THREAD_CREATE] = 20000; knobs.burst_limit[F_THREAD_CREATE] = 1; }
    }
    if (mode == M_INT) { sg_n = (unsigned)r.range(1, 2); sg_gap = 1u << r.range(6, 15); }
    begin_run();
    if (mode == M_OOM) end_faults();            // the program turns them on once it is compiled
    const unsigned n = mode == M_OOM ? r.range(2, 16) : r.range(0, 6), gap = 1u << r.range(6, 12);
    if (n) start_gc_injector(n, gap);
    int st = -1;
    if (mode == M_INT) {
        set_sigact(SIGINT, [](int) {}, 0);
        if (KOS_hook_ctrl_c(mctx)) harness_error("cannot hook Ctrl-C");
        st = spawn_thread(sig_main, nullptr, "signals");
        mark_harness_thread(st);
    }
    std::string e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    prog_over = true;
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    if (st >= 0) join_thread(st);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool faulty = mode == M_OOM ? res->faults[F_MALLOC] || res->faults[F_THREAD_CREATE] : mode == M_INT && n_sent;
    std::vector<int64_t> got;
    bool complete = false;
    int64_t q = 0, q2 = 0, depth = 0;
    for (auto &x : *recs) {
        if (x.code == 1 && x.a == (int64_t)got.size()) got.push_back(x.b);
        if (x.code == 99) complete = true;
        if (x.code == 2) { q += x.a; q2 += x.b; if (x.a != x.b && !(x.a > x.b && faulty)) violation("defer:skipped", "deferred code ran %ld times for %ld entries in a recursion", (long)x.a, (long)x.b); depth++; }
    }
    res->custom[0] += got.size(); res->custom[1] += q;
    res->ops += got.size();
    if (fail && !(faulty && (exc_is_oom(e) || e.find("failed to") != std::string::npos || e.find("user pressed") != std::string::npos))) violation("defer:exception", "the program ended with %s", e.c_str());
    if (fail && !complete) { res->custom[2]++; goto out; }        // hit outside of the part which is being judged
    if (!complete) violation("defer:exception", "the program did not report");
    if (!faulty) {
        for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
            if (i >= got.size() || i >= want.size() || got[i] != want[i])
                violation("defer:trace", "the program did%s but should have done%s (event %zu)", around(got, i).c_str(), around(want, i).c_str(), i);
    } else {
        struct Open { int64_t d; int site; bool entered; };
        std::vector<Open> stack;
        std::vector<int64_t> thrown;
        std::set<int64_t> closed, gclosed;
        int64_t missing = 0, missing_with = 0;
        bool async_seen = false;
        for (size_t i = 0; i < got.size(); i++) {
            const int code = (int)(got[i] % 100), site = (int)(got[i] / 100 % 10000);
            const int64_t v = got[i] / 1000000;
            if (code == 6) stack.push_back(Open{v, site, true});
            if (code == 42) stack.push_back(Open{v, site, false});
            if (code == 44) for (auto &o : stack) if (o.site == site) o.entered = true;
            if (code == 15 || code == 53) if (!gclosed.insert(v).second) violation("defer:twice", "deferred code of a generator ran twice:%s", around(got, i).c_str());
            if (code == 5 || code == 43) {
                if (!closed.insert(v).second) violation("defer:twice", "deferred code ran twice for one entry:%s", around(got, i).c_str());
                bool known = false;
                for (auto &o : stack) if (o.d == v) known = true;
                if (known) while (stack.back().d != v) { if (stack.back().entered) { missing++; if (tracing) trace("missing %ld at %zu", (long)stack.back().d, i); } stack.pop_back(); }
                if (known) stack.pop_back();
            }
            if (code == 7) thrown.push_back(v);
            if (code == 8) {
                if (v == OOM || v == INT_) { async_seen = true; if (v == (mode == M_INT ? OOM : INT_)) violation("defer:exception", "caught a wrong kind of exception:%s", around(got, i).c_str()); }
                size_t k = thrown.size();
                while (k && thrown[k - 1] != v) k--;
                if (k) { thrown.resize(k - 1); continue; }
                if (v == OOM || v == INT_ || (v == RT && mode == M_OOM)) continue;
                violation("defer:exception", "caught an exception nobody threw:%s", around(got, i).c_str());
            }
        }
        for (auto &o : stack) if (o.entered) { missing++; if (tracing) trace("missing %ld at end", (long)o.d); }
        (void)missing_with;
        res->custom[3] += async_seen;
        if (missing) violation("defer:skipped", "deferred code was skipped %ld times (%s)", (long)missing, mode == M_INT ? "interrupt" : "out of memory");
    }
out:
    if (mode == M_INT) KOS_unhook_ctrl_c(mctx);
    KOS_clear_exception(mctx);
    KOS_instance_destroy(inst);
}
void run_plain() { run_defer(PLAIN); }
void run_oom() { run_defer(M_OOM); }
void run_int() { run_defer(M_INT); }
void setup() { setup_script(); }
SCENARIO("defer", setup, run_plain);
SCENARIO("defer_oom", setup, run_oom);
SCENARIO("defer_int", setup, run_int);
} // namespace
