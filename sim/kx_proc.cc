// P13: child processes used by several threads at once.
#include "kosutil.h"
#include <cstring>
#include <algorithm>
#include <set>
#include <csignal>
using namespace kx;

namespace {
typedef std::string S;

bool was_hit()
{
    for (int k = 0; k < F_COUNT; k++) if (res->faults[k] && k != F_CAS_WEAK && k != F_SPURIOUS_WAKE && k != F_GC_PRESSURE && k != F_STALL && k != F_SLOW_IO && k != F_SHORT_IO && k != F_SIGINT && k != F_CHILD_TIMING) return true;
    return false;
}
int add_blob(const S &s) { blob_table->push_back(s); return (int)blob_table->size() - 1; }

const char *const prelude = R"K(
import base.*
import sim
import io
import os
fun ex(e) { if typeof e == "string" { return e }; return e.value }
fun st(s) {
    var sig = "-"
    if s.signal != void { sig = "\(s.signal)" }
    return "\(s.status)/\(sig)/\(s.stopped)"
}
fun shut(f) {
    var n = 0
    while n < 12 { n += 1; try { f.close(); n = 99 } catch const e { if ex(e) == "file not open" { n = 99 } } }
    if n == 12 { sim.data(-9, 9, 0) }
}
fun take(p) { const s = p.wait(); return st(s) }
)K";

// one operation and what it must give
struct Op {
    S want;                        // what tag 1 must carry
    bool must_throw = false;       // tag 2 is the only right result
    S file, content;               // a file and what it must hold at the end
    bool tail_ok = false;          // with faults, the file may hold only the beginning
    bool prompt = true;
    S out, err;                    // lines which must appear on the standard streams, in this order
    int waiters = 0;               // how many threads called wait() for it
    bool lines_any_order = false;
};
struct Res { std::vector<S> ok, exc; uint64_t t0 = 0, t1 = 0; bool started = false; int seconds = 0; };

S sorted(const S &s)
{
    std::vector<S> v; S cur;
    for (char c : s) if (c == '\n') { v.push_back(cur); cur.clear(); } else cur += c;
    std::sort(v.begin(), v.end());
    S o; for (auto &x : v) o += x + "\n";
    return o;
}

S words(Rng &r, int op, std::vector<S> *v, bool longish)
{
    S a = "[";
    const int n = r.range(0, 4);
    for (int i = 0; i < n; i++) {
        S w = fmt("w%d.%d", op, i);
        if (r.chance(1, 4)) w += r.pick(std::vector<S>{"", " ", "two words", "=", "a=b", "\xc3\xa9\xc5\x82", "\xf0\x9f\x98\x80"});
        if (longish && r.chance(1, 3)) w += S(r.range(100, 1500), (char)('a' + r.below(26)));
        if (r.chance(1, 12)) w = "";
        v->push_back(w);
        a += fmt("%ssim.text(%d)", i ? ", " : "", add_blob(w));
    }
    return a + "]";
}

const char *const env0[] = {"PATH=/bin:/usr/bin", "Z=:/trap", "HOME=/home/u", "LANG=C", "EMPTY=", "EQ=a=b"};

void run(int level)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<S>;
    blobs = new std::vector<Blob>;
    blob_table = new std::vector<S>;
    set_env(std::vector<S>(env0, env0 + 6));
    Node *tool = fs_mkfile("/work/tool", "#!"); tool->program = P_EXIT; tool->mode = 0755;
    for (const char *p : {"/tool", "/trap/ghost"}) { Node *n = fs_mkfile(p, "#!"); n->program = P_KILLSELF; n->mode = 0755; }
    fs_mkdir("/work/sub");
    pipe_capacity = r.pick(std::vector<int>{1, 7, 64, 512, 65536, 65536});
    pid_reuse = r.chance(1, 3);
    const int nt = r.range(1, 4);
    const bool sleepers = r.chance(1, 2);
    std::vector<Op> ops;
    S src = prelude;
    S held;                                      // checks made at the very end
    const bool bulk = level == 0 && r.chance(1, 16);    // many programs at once which nobody waits for
    int nsleep = 0;
    for (int t = 0; t < nt; t++) {
        S fn = fmt("fun w%d {\n", t);
        if (held.empty() && t == 0) fn += "";
        const int n = r.range(1, 5);
        for (int k = 0; k < n; k++) {
            const int id = (int)ops.size();
            ops.push_back(Op());
            Op &o = ops.back();
            S body;
            const int code = r.range(0, 255);
            const S dot = fmt("sim.data(%d, 7, 0); ", id);            // a spawn which succeeded
            auto ok = [&](const S &e) { return fmt("sim.data(%d, 1, %s)", id, e.c_str()); };
            switch (bulk && !id ? 16 : r.range(0, 15)) {
                case 16: body = fmt("for const i in range(%d) { os.spawn(\"sleep\", [\"%s\"]); %s }; ", r.range(25, 90), r.chance(1, 2) ? "1000000" : "0.5", dot.c_str());
                    if (r.chance(1, 2)) body += "sim.collect(); ";
                    break;
                case 0: {        // status
                    const S prog = r.pick(std::vector<S>{"exit", "/bin/exit", "tool", "./tool"});
                    S cwd = r.chance(1, 4) ? "sub" : "";
                    body = fmt("const p = os.spawn(\"%s\", [\"%d\"], {}, \"%s\"); %sconst q = p.pid; ", prog.c_str(), code, cwd.c_str(), dot.c_str());
                    if (r.chance(1, 3)) body += fmt("sim.nap(%d); ", 1 << r.range(4, 16));
                    body += ok("take(p)") + "; ";
                    o.want = fmt("%d/-/false", code);
                    if (!pid_reuse && r.chance(1, 2)) body += fmt("var again = true; try { p.wait() } catch const e { again = false }; if again { sim.data(%d, 8, 0) }; if p.pid != q { sim.data(%d, 6, 0) }; ", id, id);
                    break;
                }
                case 1: {        // killed by a signal
                    const int sig = r.pick(std::vector<int>{1, 2, 6, 9, 11, 13, 15});
                    body = fmt("const p = os.spawn(\"killself\", [\"%d\"]); ", sig) + dot + ok("take(p)") + "; ";
                    o.want = fmt("%d/%d/false", 128 + sig, sig);
                    break;
                }
                case 2: case 3: {  // output through a pipe
                    const bool env = r.chance(1, 2);
                    S spawn;
                    if (env) {
                        const bool inherit = r.chance(1, 2), cwd = r.chance(1, 2);
                        std::map<S, S> m;
                        if (inherit) for (const char *e : env0) { const S x = e; m[x.substr(0, x.find('='))] = x.substr(x.find('=') + 1); }
                        S obj = "{";
                        const int ne = r.range(0, 4);
                        std::set<S> used;
                        for (int i = 0; i < ne; i++) {
                            const S key = r.pick(std::vector<S>{"HOME", "K1", "K2", "\xc3\xb3", "EQ", "LANG"}), val = r.pick(std::vector<S>{"", "v", "a=b", "\xe2\x82\xac uro", "1 2"});
                            if (!used.insert(key).second) continue;
                            m[key] = val;
                            obj += fmt("%s\"%s\": sim.text(%d)", obj.size() > 1 ? ", " : "", key.c_str(), add_blob(val));
                        }
                        obj += "}";
                        o.want = fmt("cwd=%s\n", cwd ? "/work/sub" : "/work");
                        for (auto &e : m) o.want += e.first + "=" + e.second + "\n";
                        o.want = sorted(o.want + "@0/-/false\n");
                        o.lines_any_order = true;
                        spawn = fmt("os.spawn(\"env\", [], %s, \"%s\", %s, void, wr)", obj.c_str(), cwd ? r.pick(std::vector<S>{"sub", "/work/sub"}).c_str() : "", inherit ? "true" : "false");
                    } else {
                        std::vector<S> v;
                        const S a = words(r, id, &v, true);
                        for (auto &x : v) o.want += x + "\n";
                        o.want += "@0/-/false\n";
                        spawn = fmt("os.spawn(\"writer\", %s, {}, \"\", true, void, wr)", a.c_str());
                    }
                    const bool wait_first = pipe_capacity >= 65536 && r.chance(1, 3);
                    body = fmt("const pp = io.pipe(); const rd = pp.read; const wr = pp.write; try { const p = %s; %ssim.safe(1); wr.close(); var s = \"\"; ", spawn.c_str(), dot.c_str());
                    if (wait_first) body += "s = take(p); const v = rd.read_line(); ";
                    const S rl = r.chance(1, 2) ? "var all = wait_line(rd)" : "var all = wait_some(rd)";
                    if (wait_first) body = body.substr(0, body.size() - S("const v = rd.read_line(); ").size());
                    body += rl + "; " + (wait_first ? "" : "s = take(p); ") + ok("all + \"@\" + s + \"\\n\"") + " } catch const e { shut(wr); shut(rd); throw e }; shut(rd); ";
                    break;
                }
                case 4: {        // input through a pipe
                    const size_t len = r.chance(1, 3) ? r.range(0, 20) : r.range(0, 3000);
                    const int b = add_blob(S(len, 'x'));
                    body = fmt("const pp = io.pipe(); const rd = pp.read; const wr = pp.write; try { const p = os.spawn(\"sink\", [], {}, \"\", true, rd); %ssim.safe(1); rd.close(); wr.write(sim.blob(%d)); wr.close(); %s } catch const e { shut(rd); shut(wr); throw e }; ", dot.c_str(), b, ok("take(p)").c_str());
                    o.want = fmt("%d/-/false", (int)(len % 251));
                    break;
                }
                case 5: {        // file to file
                    S data; const int nl = r.range(0, 40); for (int i = 0; i < nl; i++) data += fmt("<%d.%d>", id, i) + S(r.below(40), '.');
                    fs_mkfile(fmt("/work/in%d", id), data);
                    o.file = fmt("/work/out%d", id); o.content = data; o.want = "0/-/false";
                    const bool close_early = r.chance(1, 2);
                    body = fmt("const a = io.open(\"in%d\", \"rb\"); const b = io.create(\"out%d\"); const p = os.spawn(\"cat\", [], {}, \"\", true, a, b); %s", id, id, dot.c_str());
                    if (close_early) body += "a.close(); b.close(); ";
                    body += ok("take(p)") + "; ";
                    if (!close_early) body += "a.close(); b.close(); ";
                    break;
                }
                case 6: {        // both streams to files
                    std::vector<S> v;
                    const S a = words(r, id, &v, false);
                    const bool same = r.chance(1, 3);
                    o.file = fmt("/work/out%d", id);
                    for (auto &x : v) o.content += (same ? "o:" + x + "\ne:" + x : "e:" + x) + "\n";
                    o.want = "0/-/false";
                    body = fmt("const a = io.create(\"out%d\"); ", id) + (same ? "const b = a; " : fmt("const b = io.create(\"oth%d\"); ", id));
                    body += fmt("const p = os.spawn(\"both\", %s, {}, \"\", true, void, b, a); %s%s; a.close(); b.close(); ", a.c_str(), dot.c_str(), ok("take(p)").c_str());
                    break;
                }
                case 7: {        // the standard streams, possibly exchanged
                    std::vector<S> v;
                    const S a = words(r, id, &v, false);
                    const int how = r.range(0, 3);
                    const char *const arg[] = {"void, void, void", "void, io.stdout, io.stderr", "void, io.stderr, io.stdout", "void, io.stderr, void"};
                    for (auto &x : v) { (how >= 2 ? o.err : o.out) += "o:" + x + "\n"; (how == 2 ? o.out : o.err) += "e:" + x + "\n"; }
                    o.want = "0/-/false";
                    body = fmt("const p = os.spawn(\"both\", %s, {}, \"\", true, %s); %s%s; ", a.c_str(), arg[how], dot.c_str(), ok("take(p)").c_str());
                    break;
                }
                case 8: {        // never waited for
                    const bool lng = sleepers && nsleep < 3 && r.chance(1, 2);
                    if (lng) nsleep++;
                    body = fmt("os.spawn(\"%s\"%s); %s", r.chance(1, 2) || lng ? "sleep" : "true", lng ? ", [\"1000000\"]" : ", [\"0.00001\"]", dot.c_str());
                    if (r.chance(1, 3)) body += "sim.poke(); ";
                    break;
                }
                case 9: case 10: {  // cannot be spawned
                    o.must_throw = true;
                    const S call = r.pick(std::vector<S>{"os.spawn(\"missing\")", "os.spawn(\"/bin/noexec\")", "os.spawn(\"noexec\", [\"a\"])", "os.spawn(\"true\", [], {}, \"/nowhere\")", "os.spawn(\"ghost\")", "os.spawn(\"/bin/missing\")",
                        "os.spawn(\"true\", [1])", "os.spawn(\"true\", [], {\"A=B\": \"x\"})", "os.spawn(\"true\", [], {\"A\": 1})", "os.spawn(\"true\", [], {\"A\": 1}, \"\", false)", "os.spawn(\"true\", [], {}, \"\", true, 5)", "os.spawn(1)", "os.spawn(\"\")",
                        "os.spawn(\"true\", [], {}, \"\", true, void, closed())", "os.process()", "os.spawn(\"true\", [], {}, 7)", "os.spawn(\"true\", [], {}, \"\", 0)"});
                    // what was written before must not be written again by the child which failed
                    if (r.chance(1, 2)) {
                        o.file = fmt("/work/out%d", id); o.content = fmt("before%d ", id); o.tail_ok = true;
                        body = fmt("const f = io.create(\"out%d\"); f.write(\"before%d \"); try { %s; sim.data(%d, 1, \"\") } catch const e { f.close(); throw e }; ", id, id, call.c_str(), id);
                    } else body = fmt("%s; sim.data(%d, 1, \"\"); ", call.c_str(), id);
                    break;
                }
                case 11: {       // stopped and continued
                    body = "const p = os.spawn(\"stop\"); " + dot + "sim.safe(1); var a = \"\"; try { a = take(p) } catch const e { sim.kill(p.pid, 18); throw e }; sim.kill(p.pid, 18); const b = take(p); " + ok("a + \" \" + b") + "; ";
                    o.want = "147/19/true 0/-/false";
                    break;
                }
                case 12: {       // killed from outside
                    const int sig = r.pick(std::vector<int>{9, 15});
                    body = fmt("const p = os.spawn(\"sleep\", [\"2000000\"]); %sconst k = p.pid; sim.safe(1); sim.kill(k, %d); %s; ", dot.c_str(), sig, ok("take(p)").c_str());
                    o.want = fmt("%d/%d/false", 128 + sig, sig);
                    break;
                }
                case 13: {       // two threads wait for the same process
                    if (pid_reuse) { body = "sim.nap(100); " + ok("\"\""); break; }
                    o.waiters = 2;
                    body = fmt("const p = os.spawn(\"exit\", [\"%d\"]); %sconst q = async waiter(p, %d); waiter(p, %d); q.wait(); ", code, dot.c_str(), id, id);
                    o.want = fmt("%d/-/false", code);
                    break;
                }
                case 14: {       // text which cannot be encoded
                    o.must_throw = true;
                    const S bad = r.pick(std::vector<S>{"\\x{200000}", "x\\x{7fffff}", "\\x{ffffff}y"});
                    const S call = r.pick(std::vector<S>{"os.spawn(\"%s\")", "os.spawn(\"true\", [\"%s\"])", "os.spawn(\"true\", [], {\"A\": \"%s\"})", "os.spawn(\"true\", [], {\"%s\": \"v\"}, \"\", false)", "os.spawn(\"true\", [], {}, \"%s\")", "os.getenv(\"%s\")"});
                    body = fmt(call.c_str(), bad.c_str()) + fmt("; sim.data(%d, 1, \"\"); ", id);
                    break;
                }
                case 15: {       // waited for at the very end
                    if (held.size() < 400) {
                        body = fmt("const p = os.spawn(\"exit\", [\"%d\"]); %sheld.h%d = p; ", code, dot.c_str(), id);
                        held += fmt("try { if typeof held.h%d == \"object\" { sim.data(%d, 1, take(held.h%d)); held.h%d = void } } catch const e { sim.data(%d, 2, ex(e)) }\n", id, id, id, id, id);
                        src += "";
                        o.want = fmt("%d/-/false", code);
                        o.prompt = false;
                    } else { body = "const v = os.getenv(\"HOME\") + os.getenv(\"EMPTY\") + os.getenv(\"NONE\", \"-\"); " + ok("v"); o.want = "/home/u-"; }
                    break;
                }
            }
            fn += fmt("    sim.data(%d, 4, 0)\n    try { %s} catch const e { sim.data(%d, 2, ex(e)) }\n    sim.safe(0)\n    sim.data(%d, 5, 0)\n", id, body.c_str(), id, id);
            if (r.chance(1, 4)) fn += fmt("    sim.nap(%d)\n", 1 << r.range(4, 18));
            if (r.chance(1, 6)) fn += "    sim.poke()\n";
        }
        src += fn + "}\n";
    }
    // helpers used above, and the fields in which process objects are kept
    S fields = "const held = {";
    for (size_t i = 0; i < ops.size(); i++) fields += fmt("%sh%zu: void", i ? ", " : "", i);
    fields += "}\n";
    const S helpers =
        "fun closed { const f = io.create(\"/work/closed\"); f.close(); return f }\n"
        "fun wait_line(rd) { var all = \"\"; var more = true; while more { const v = rd.read_line(); if v.size == 0 { more = false }; all += v }; return all }\n"
        "fun wait_some(rd) { const all = buffer(0); var n = -1; while n != all.size { n = all.size; rd.read_some(0x100, all) }; return string(all) }\n"
        "fun waiter(p, id) { try { sim.data(id, 1, take(p)) } catch const e { sim.data(id, 2, ex(e)) } }\n";
    src.insert(strlen(prelude), fields + helpers);
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("try { ts.push(async w%d()) } catch const e { }\n", t);
    src += "w0()\nfor const t in ts { var i = 0; while i < 9 { i += 1; try { t.wait(); i = 9 } catch const e { } } }\n" + held;
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 100000000;
    if (r.chance(1, 2)) knobs.rate[F_SHORT_IO] = 20000;
    if (level == 2) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5);
    } else if (level == 1) {
        for (FaultKind k : {F_OPEN_FAIL, F_EINTR, F_SYSCALL_FAIL, F_PIPE_FAIL, F_FORK_FAIL, F_EXEC_FAIL}) if (r.chance(1, 2)) { knobs.rate[k] = r.pick(std::vector<int>{1000, 5000, 12000}); knobs.burst_limit[k] = (uint32_t)r.range(1, 6); }
    }
    if (tracing) trace("program:\n%s", src.c_str());
    begin_run();
    end_faults();
    const unsigned ninj = r.range(0, 4), gap = 1u << r.range(8, 13);
    if (ninj) start_gc_injector(ninj, gap);
    S e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    const bool hit = was_hit();
    if (fail && !hit) violation("proc:unexpected-exception", "the program ended with %s", e.c_str());

    std::map<int, Res> rs;
    int spawned = 0;
    for (auto &b : *blobs) {
        Res &x = rs[(int)b.id];
        switch (b.tag) {
            case 1: x.ok.push_back(b.data); break;
            case 2: x.exc.push_back(b.data); break;
            case 4: x.started = true; x.t0 = b.ns; break;
            case 5: x.t1 = b.ns; break;
            case 6: violation("proc:pid", "operation %d: the pid changed", (int)b.id);
            case 7: spawned++; break;
            case 8: violation("proc:wait-twice", "operation %d: the second wait() for a process which had ended succeeded", (int)b.id);
            case 9: if (!hit) violation("proc:unexpected-exception", "a pipe could not be closed"); break;
        }
    }
    for (auto &kv : rs) {
        if (kv.first < 0) continue;
        const Op &o = ops[kv.first];
        const Res &x = kv.second;
        for (auto &g : x.ok) {
            if (o.must_throw) violation("proc:no-exception", "operation %d succeeded although it must fail", kv.first);
            const S v = o.lines_any_order ? sorted(g) : g;
            if (v != o.want) violation("proc:wrong-result", "operation %d gave '%s' instead of '%s'", kv.first, printable(v, 300).c_str(), printable(o.want, 300).c_str());
        }
        if (x.ok.size() > 1) violation("proc:wait-twice", "operation %d: two threads got the status of the same process", kv.first);
        if (hit) continue;
        if (o.waiters) { if (x.ok.size() != 1 || x.exc.size() != 1) violation("proc:waiters", "operation %d: of two threads waiting for a process %zu got its status and %zu an exception", kv.first, x.ok.size(), x.exc.size()); }
        else if (!o.must_throw && !x.exc.empty()) violation("proc:unexpected-exception", "operation %d raised '%s'", kv.first, x.exc[0].c_str());
        else if (!o.must_throw && x.ok.empty() && !o.want.empty()) violation("proc:no-result", "operation %d did not end", kv.first);
        if (o.prompt && x.t1 > x.t0 + 900000000000ull) violation("proc:slow", "operation %d took %llu s of simulated time, longer than any of its processes", kv.first, (unsigned long long)((x.t1 - x.t0) / 1000000000ull));
    }
    // programs ran exactly as often as spawn() returned a process
    if (level != 2 && (!hit || level == 1) && (int)n_execs != spawned) violation("proc:exec-count", "%d programs were executed but %d processes were returned", (int)n_execs, spawned);
    // every child which is not waited for is reaped once its object is gone
    for (int i = 0; i < 4; i++) { KOS_GC_STATS gs = KOS_GC_STATS_INIT(~0U); if (KOS_collect_garbage(mctx, &gs)) KOS_clear_exception(mctx); }
    KOS_suspend_context(mctx);
    if (hit) for (auto &c : children()) if (!c.state) kill_child(c.pid, SIGCONT);        // its operation failed before it could be continued
    wait_until([] { return running_children() == 0; }, "children to end");
    KOS_resume_context(mctx);
    for (int i = 0; i < 200; i++) pause_point();
    if (!hit && zombie_children()) { S l; for (auto &c : children()) if (c.state == 1) l += fmt(" %d", c.pid); violation("proc:zombie", "children which no one refers to any more were never reaped:%s", l.c_str()); }
    res->gcs += gc_count();
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    if (open_files()) violation("leak:FILE", "%d FILE objects left open", open_files());
    if (get_sigact(SIGCHLD) && !hit) violation("proc:handler", "the SIGCHLD handler was left installed after the module was unloaded");
    // what the programs wrote
    for (size_t i = 0; i < ops.size(); i++) {
        const Op &o = ops[i];
        const Res &x = rs[(int)i];
        if (!o.file.empty() && x.started) {
            Node *n = fs_lookup(o.file);
            const S d = n ? n->data : "";
            const bool done = !hit || (!x.ok.empty());
            if (done ? d != o.content : o.content.compare(0, d.size(), d) != 0) violation("proc:wrong-file", "operation %zu: %s holds '%s' instead of '%s'", i, o.file.c_str(), printable(d, 200).c_str(), printable(o.content, 200).c_str());
        }
        for (int k = 0; k < 2; k++) {
            const S &want = k ? o.err : o.out, &all = k ? console_err() : console_out();
            size_t at = 0;
            if (x.ok.empty()) continue;
            for (size_t p = 0; p < want.size();) {
                const size_t q = want.find('\n', p);
                const S line = want.substr(p, q + 1 - p);
                const size_t f = all.find(line, at);
                if (f == S::npos) violation("proc:wrong-stream", "operation %zu: '%s' is missing from or out of order on %s", i, printable(line, 60).c_str(), k ? "stderr" : "stdout");
                at = f + line.size();
                p = q + 1;
            }
        }
    }
}
void run_proc() { run(0); }
void run_proc_faults() { run(1); }
void run_proc_oom() { run(2); }
void setup() { setup_script(); }
SCENARIO("proc", setup, run_proc);
SCENARIO("proc_faults", setup, run_proc_faults);
SCENARIO("proc_oom", setup, run_proc_oom);
} // namespace
