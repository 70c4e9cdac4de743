// P19: random generators shared between threads, against an independent model of the generator.
#include "kosutil.h"
#include <cmath>
#include <cstring>
using namespace kx;

namespace {
// PCG XSH RR 32 as published; the 64-bit generator is a pair of them
uint32_t pcg(int64_t &st, int64_t stream)
{
    const uint64_t s = (uint64_t)st;
    st = (int64_t)(s * 6364136223846793005ull + (uint64_t)stream);
    const uint32_t x = (uint32_t)(((s >> 18) ^ s) >> 27);
    const int rot = (int)(s >> 59);
    return x >> rot | x << (-rot & 31);
}
typedef std::vector<int64_t> State;      // state0, stream0, state1, stream1
State seeded(uint64_t seed)
{
    auto init = [](uint64_t s, uint64_t stream, int64_t &st, int64_t &str) { str = (int64_t)(stream << 1 | 1); st = (int64_t)((uint64_t)str + s); pcg(st, str); };
    int64_t a, b;
    init(seed, ~seed, a, b);
    State r(4);
    for (int i = 0; i < 2; i++) {
        uint64_t w[4];
        for (auto &x : w) x = pcg(a, b);
        init(w[0] << 32 | w[1], w[2] << 32 | w[3], r[i * 2], r[i * 2 + 1]);
    }
    return r;
}
uint64_t draw(State &s) { const uint64_t lo = pcg(s[0], s[1]), hi = pcg(s[2], s[3]); return lo | hi << 32; }
uint64_t draw_range(State &s, uint64_t max)
{
    if (max == ~0ull) return draw(s);
    if (max == 0xFFFFFFFFull) return pcg(s[0], s[1]);
    if (max < 0xFFFFFFFFull) {
        const uint32_t n = (uint32_t)max + 1, t = (0u - n) % n;
        for (int i = 0;; i ^= 1) { const uint32_t r = pcg(s[i * 2], s[i * 2 + 1]); if (r >= t) return r % n; }
    }
    const uint64_t n = max + 1, t = (0 - n) % n;
    for (;;) { const uint64_t r = draw(s); if (r >= t) return r % n; }
}
// op: 0 integer(), 1 integer(a, b), 2 float() as 52-bit integer
bool model(State &s, const LOp &o)
{
    int64_t v;
    if (o.op == 0) v = (int64_t)draw(s);
    else if (o.op == 1) v = o.a == o.b ? o.a : (int64_t)((uint64_t)o.a + draw_range(s, (uint64_t)o.b - (uint64_t)o.a));
    else v = (int64_t)(draw(s) & ((1ull << 52) - 1));
    return o.maybe || v == o.ret;
}
std::string lit(int64_t v) { return v == INT64_MIN ? std::string("(-9223372036854775807 - 1)") : v < 0 ? fmt("(%ld)", (long)v) : fmt("%ld", (long)v); }

void run_rnd(bool oom)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<std::string>;
    const int ng = r.range(1, 3), nt = r.range(1, 4);
    std::string s = "import base.*\nimport sim\nimport random\nconst gs = []\n";
    std::vector<int64_t> seeds;
    s += "fun ex(e) { if typeof e == \"string\" { return e }; return e.value }\n";
    for (int g = 0; g < ng; g++) {
        int64_t seed = r.chance(1, 3) ? r.range(0, 5) : (int64_t)r.next();
        std::string l;
        if (r.chance(1, 4)) { double d = r.range(-100000, 100000) / 4.0; seed = (int64_t)std::floor(d); l = fmt("%.2f", d); if (d < 0) l = "(" + l + ")"; }
        else l = lit(seed);
        seeds.push_back(seed);
        s += fmt("gs.push(random.random(%s))\n", l.c_str());
    }
    struct Op { int g, op; int64_t a, b; };
    std::vector<Op> ops;
    std::vector<int> per(ng, 0);
    const bool hot = r.chance(1, 2);
    auto work = [&](int t) {
        std::string b = fmt("fun w%d {\n", t);
        const int n = r.range(2, hot ? 12 : 8);
        for (int i = 0; i < n; i++) {
            Op o{r.range(0, ng - 1), r.range(0, 3), 0, 0};
            if (per[o.g] >= 44) continue;
            per[o.g]++;
            if (o.op == 3) o.op = 0;
            if (o.op == 1) {
                switch (r.range(0, 5)) {
                    case 0: o.a = 0; o.b = 1; break;
                    case 1: o.a = r.range(-100, 100); o.b = o.a + r.range(0, 200); break;
                    case 2: o.a = -(int64_t)r.below(1ull << 40); o.b = (int64_t)r.below(1ull << 40); break;
                    case 3: o.a = INT64_MIN; o.b = INT64_MAX; break;
                    case 4: o.a = 5; o.b = 5 + 0xFFFFFFFFll; break;
                    case 5: o.a = -3; o.b = -3 + 0xC0000000ll; break;        // many rejections
                }
            }
            const int id = (int)ops.size();
            ops.push_back(o);
            std::string call = o.op == 0 ? fmt("gs[%d].integer()", o.g) : o.op == 1 ? fmt("gs[%d].integer(%s, %s)", o.g, lit(o.a).c_str(), lit(o.b).c_str()) : fmt("integer(gs[%d].float() * 4503599627370496.0)", o.g);
            b += fmt("    do { const t = sim.tick(); try { const v = %s; sim.rec(1, %d, v, t) } catch const e { sim.note(\"%d: \\(ex(e))\"); sim.rec(2, %d, 0, t) } }\n", call.c_str(), id, id, id);
            if (r.chance(1, 6)) b += "    sim.nap(700)\n";
            if (r.chance(1, 8)) b += "    do { try { const x = random.random(); const v = x.integer(3, 9); assert v >= 3 && v <= 9 } catch const e { sim.note(ex(e)) } }\n";
            if (r.chance(1, 12)) b += "    do { const x = random.grandom.float(); assert x >= 0 && x < 1; random.shuffle(range(3)) }\n";
        }
        return b + "}\n";
    };
    std::string defs, run = "const ts = []\n";
    for (int t = 1; t <= nt; t++) { defs += work(t); run += fmt("ts.push(async w%d())\n", t); }
    defs += work(0);
    s += defs + run + "w0()\nfor const t in ts { t.wait() }\n";
    // the same generator alone, and a permutation drawn from a shared generator
    s += "sim.fault(0)\n";
    s += fmt("const again = random.random(%s)\nsim.rec(3, 0, again.integer())\nsim.rec(3, 1, again.integer())\n", lit(seeds[0]).c_str());
    s += "do { const a = random.random(7).shuffle(range(20)); const b = random.random(7).shuffle(range(20)); var m = 0; for const i in range(20) { assert a[i] == b[i]; m |= 1 << a[i] }; assert m == 0xFFFFF }\n";
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 120000000;
    if (oom) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{20, 200, 2000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 4);
        for (FaultKind k : {F_MUTEX_INIT, F_OPEN_FAIL, F_EINTR, F_SHORT_IO, F_IO_ERROR}) if (r.chance(1, 4)) { knobs.rate[k] = 8000; knobs.burst_limit[k] = 2; }
    }
    if (tracing) trace("program:\n%s", s.c_str());
    begin_run();
    const unsigned n = r.range(0, 4), gap = 1u << r.range(7, 12);
    if (n) start_gc_injector(n, gap);
    std::string e;
    const bool fail = run_script(mctx, "m", s, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool hit = res->faults[F_MALLOC] || res->faults[F_MUTEX_INIT];
    auto tolerable = [&](const std::string &x) { return hit && (exc_is_oom(x) || x.find("failed to") != std::string::npos); };
    if (fail && !tolerable(e)) violation("random:exception", "the program ended with %s", e.c_str());
    for (auto &x : *notes) if (!tolerable(x)) violation("random:exception", "drawing a value failed: %s", x.c_str());
    for (int g = 0; g < ng; g++) {
        std::vector<LOp> h;
        for (auto &x : *recs) if ((x.code == 1 || x.code == 2) && ops[x.a].g == g) {
            const Op &o = ops[x.a];
            if (x.code == 1 && o.op == 1 && (x.b < o.a || x.b > o.b)) violation("random:range", "%ld is outside of %ld .. %ld", (long)x.b, (long)o.a, (long)o.b);
            LOp l{x.tid, o.op, o.a, o.b, x.b, (uint64_t)x.c, x.t};
            l.maybe = x.code == 2;
            h.push_back(l);
        }
        if (fail && h.empty()) continue;
        if (!linearizable(h, seeded((uint64_t)seeds[g]), model))
            violation("random:sequence", "the values drawn from a generator seeded with %ld are not its sequence in any order of the calls:%s", (long)seeds[g], dump(h, [](const LOp &o) { return fmt(" %s=%ld", o.op == 0 ? "integer()" : o.op == 1 ? "integer(a,b)" : "float()", (long)o.ret); }).c_str());
        res->ops += h.size();
    }
    if (!fail) {
        State st = seeded((uint64_t)seeds[0]);
        for (auto &x : *recs) if (x.code == 3) { const int64_t v = (int64_t)draw(st); if (v != x.b) violation("random:reproducible", "a generator seeded with %ld gave %ld instead of %ld", (long)seeds[0], (long)x.b, (long)v); }
    }
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
}
void run_rnd_share() { run_rnd(false); }
void run_rnd_faults() { run_rnd(true); }
void setup() { setup_script(); }
SCENARIO("rnd_share", setup, run_rnd_share);
SCENARIO("rnd_faults", setup, run_rnd_faults);
} // namespace
