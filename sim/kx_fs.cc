// P12: files, pipes and directories used by several threads at once; directory operations against a model.
#include "kosutil.h"
#include <cstring>
#include <algorithm>
#include <set>
using namespace kx;

namespace {
typedef std::string S;

bool was_hit()
{
    for (int k = 0; k < F_COUNT; k++) if (res->faults[k] && k != F_CAS_WEAK && k != F_SPURIOUS_WAKE && k != F_GC_PRESSURE && k != F_STALL && k != F_SLOW_IO && k != F_SHORT_IO) return true;
    return disk_capacity != ~0ull;
}
void start_logs()
{
    recs = new std::vector<Rec>;
    notes = new std::vector<S>;
    blobs = new std::vector<Blob>;
    blob_table = new std::vector<S>;
}
int add_blob(const S &s) { blob_table->push_back(s); return (int)blob_table->size() - 1; }
void faults(Rng &r, int level)
{
    if (level == 2) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5);
    } else if (level == 1) {
        for (FaultKind k : {F_OPEN_FAIL, F_EINTR, F_IO_ERROR, F_ENOSPC, F_SYSCALL_FAIL, F_PIPE_FAIL}) if (r.chance(1, 2)) { knobs.rate[k] = r.pick(std::vector<int>{1000, 5000, 12000}); knobs.burst_limit[k] = (uint32_t)r.range(1, 6); }
    }
}
// runs the program; returns whether it was hit by faults
bool go(const S &src, int level)
{
    Rng &r = wrng();
    knobs_concurrency(r.chance(2, 3));
    knobs.max_steps = 100000000;
    if (r.chance(1, 2)) knobs.rate[F_SHORT_IO] = 20000;
    if (r.chance(1, 3)) knobs.rate[F_SLOW_IO] = 20000;
    if (tracing) trace("program:\n%s", src.c_str());
    faults(r, level);
    begin_run();
    end_faults();
    const unsigned n = r.range(0, 4), gap = 1u << r.range(8, 13);
    if (n) start_gc_injector(n, gap);
    S e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool hit = was_hit();
    if (fail && !hit) violation("file:unexpected-exception", "the program ended with %s", e.c_str());
    return hit;
}
void end_checks()
{
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    if (open_files()) violation("leak:FILE", "%d FILE objects left open", open_files());
    if (open_dirs()) violation("leak:DIR", "%d open directories left", open_dirs());
}
const char *const prelude =
    "import base.*\nimport sim\nimport io\nimport fs\n"
    "fun ex(e) { if typeof e == \"string\" { return e }; return e.value }\n";

S token(int t, int n, size_t len)
{
    S s = fmt("[%d.%d:", t, n);
    while (s.size() + 1 < len) s += (char)('a' + (t * 7 + n * 3 + (int)s.size()) % 26);
    return s + "]";
}

// ------------------------------------------------------------------ one handle, several writers
// Each token must come out whole, exactly once if the operation succeeded, in the order of its thread.
struct Tok { int t, n; S s; bool ok = false, exc = false; };

bool is_prefix(const S &all, size_t at, const S &t) { return !all.compare(at, t.size(), t); }

// splits the text in tokens; whatever is not a token is an error unless something failed
void check_tokens(const S &what, const S &data, const std::vector<Tok> &toks, bool torn_ok, bool loss_ok)
{
    std::map<S, const Tok *> by;
    for (auto &t : toks) by[t.s] = &t;
    std::map<const Tok *, int> seen;
    std::map<int, int> last;
    size_t i = 0;
    while (i < data.size()) {
        if (data[i] == '\n' || data[i] == ' ') { i++; continue; }
        size_t e = data.find(']', i);
        const Tok *k = nullptr;
        if (data[i] == '[' && e != S::npos) { auto it = by.find(data.substr(i, e + 1 - i)); if (it != by.end()) k = it->second; }
        if (!k) {
            if (!torn_ok) violation("file:torn", "%s: the text at %zu was not written by anyone: '%s'", what.c_str(), i, printable(data.substr(i, 60)).c_str());
            size_t nx = data.find('[', i + 1);
            if (nx == S::npos) break;
            i = nx;
            continue;
        }
        if (seen[k]++) violation("file:duplicate", "%s: %s appears twice", what.c_str(), k->s.substr(0, 12).c_str());
        auto it = last.find(k->t);
        if (it != last.end() && it->second > k->n) violation("file:order", "%s: thread %d wrote %d before %d", what.c_str(), k->t, k->n, it->second);
        last[k->t] = k->n;
        i = e + 1;
    }
    if (loss_ok) return;
    for (auto &t : toks) if (t.ok && !seen[&t]) violation("file:lost", "%s: %s was written but is missing", what.c_str(), t.s.substr(0, 12).c_str());
}

void run_share(int level)
{
    Rng &r = wrng();
    start_logs();
    const int nt = r.range(2, 4);
    const bool append = r.chance(1, 2), closing = r.chance(1, 2);
    std::vector<Tok> toks;
    S src = S(prelude) + fmt("const f = io.%s(\"/work/s\")\n", append ? "append" : "create");
    int stored = 0;
    for (int t = 0; t < nt; t++) {
        src += fmt("fun w%d {\n", t);
        const int n = r.range(1, 6);
        for (int i = 0; i < n; i++) {
            const S h = "f";
            const int id0 = stored;
            auto tok = [&](size_t len) { Tok k{t, (int)toks.size(), token(t, (int)toks.size(), len)}; toks.push_back(k); stored++; return add_blob(k.s); };
            auto len = [&] { return (size_t)(r.chance(1, 6) ? r.range(3900, 4500) : r.range(12, 80)); };
            S e;
            switch (r.range(0, 3)) {
                case 0: { const int b = tok(len()); e = fmt("%s.write(sim.%s(%d))", h.c_str(), r.chance(1, 2) ? "blob" : "text", b); break; }
                case 1: { const int b = tok(len()), c = tok(len()); e = fmt("%s.write(sim.blob(%d), sim.text(%d))", h.c_str(), b, c); break; }
                case 2: { const int b = tok(len()); e = fmt("%s.print(sim.text(%d))", h.c_str(), b); break; }
                case 3: { const int b = tok(len()), c = tok(len()); e = fmt("%s.print(sim.text(%d), sim.text(%d))", h.c_str(), b, c); break; }
            }
            src += fmt("    try { %s%s; sim.data(%d, 1, %d) } catch const e { sim.data(%d, 2, ex(e)) }\n", closing ? fmt("sim.data(%d, 0, 0); ", id0).c_str() : "", e.c_str(), id0, stored, id0);
            if (r.chance(1, 4)) src += fmt("    try { %s.flush() } catch const e { }\n", h.c_str());
            if (r.chance(1, 6)) src += fmt("    try { const p = %s.position; const q = %s.size; const s = %s.stat } catch const e { }\n", h.c_str(), h.c_str(), h.c_str());
        }
        if (closing && r.chance(1, 2)) src += fmt("    try { %sf.%s(); sim.data(-1, 1, true) } catch const e { sim.data(-1, 2, ex(e)) }\n", r.chance(1, 3) ? "sim.nap(2000); " : "", r.chance(1, 2) ? "close" : "release");
        src += "}\n";
    }
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("ts.push(async w%d())\n", t);
    src += "w0()\nfor const t in ts { t.wait() }\n";
    const bool drop = r.chance(1, 4);
    if (!drop) { src += "f.close()\n"; }
    const bool hit = go(src, level);
    std::vector<size_t> ids;
    bool failed_close = false;
    uint64_t closed_at = ~0ull;
    std::map<int64_t, uint64_t> began;
    for (auto &b : *blobs) {
        if (b.id >= 0 && b.tag == 0) { began[b.id] = b.t; continue; }
        if (b.id < 0 && b.tag == 1 && closed_at == ~0ull) closed_at = b.t;
        if (b.id >= 0 && b.tag == 1 && began.count(b.id) && began[b.id] > closed_at)
            violation("file:use-after-close", "writing to the file succeeded although it had been closed before the call");
        if (b.id < 0) { if (b.tag == 2) { failed_close = true; if (!hit) violation("file:unexpected-exception", "close raised '%s'", b.data.c_str()); } continue; }
        if (b.tag == 1) for (size_t i = (size_t)b.id; i < (size_t)atoi(b.data.c_str()); i++) toks[i].ok = true;
        else if (!hit && (!closing || b.data.find("not open") == S::npos)) violation("file:unexpected-exception", "writing raised '%s'", b.data.c_str());
    }
    (void)failed_close;
    end_checks();
    Node *nd = fs_lookup("/work/s");
    if (!nd) { if (!hit) violation("file:existence", "the file does not exist"); return; }
    check_tokens("the file", nd->data, toks, hit, level == 1 && hit);
}
void run_file_share() { run_share(0); }
void run_file_share_faults() { run_share(1); }
void run_file_share_oom() { run_share(2); }

// ------------------------------------------------------------------ closing a file which others are using, many times
void run_file_close(int level)
{
    Rng &r = wrng();
    start_logs();
    const int rounds = r.range(4, 10);
    std::vector<std::vector<Tok>> toks(rounds);
    std::vector<std::pair<int, int>> ids;           // (round, token) of each stored blob
    S src = S(prelude), main_ = "sim.fault(1)\n";
    for (int k = 0; k < rounds; k++) {
        const int nt = r.range(1, 3);
        main_ += fmt("do {\n    const f = io.create(\"/work/c%d\")\n    const ts = []\n", k);
        for (int t = 0; t < nt; t++) {
            src += fmt("fun u%d_%d(f) {\n", k, t);
            const int n = r.range(1, 3);
            for (int i = 0; i < n; i++) {
                S e;
                int id = -1;
                auto tok = [&] { Tok q{t, (int)toks[k].size(), token(t, (int)toks[k].size(), (size_t)r.range(12, 60))}; toks[k].push_back(q); id = add_blob(q.s); ids.push_back({k, (int)toks[k].size() - 1}); if ((int)ids.size() != id + 1) harness_error("blob ids"); return id; };
                switch (r.range(0, 9)) {
                    case 0: case 1: case 2: { const int b = tok(); e = fmt("f.write(sim.%s(%d))", r.chance(1, 2) ? "blob" : "text", b); break; }
                    case 3: { const int b = tok(); e = fmt("f.print(sim.text(%d))", b); break; }
                    case 4: e = "f.flush()"; break;
                    case 5: e = "const p = f.position"; break;
                    case 6: e = "const p = f.size"; break;
                    case 7: e = r.chance(1, 2) ? "const p = f.eof" : "const p = f.error"; break;
                    case 8: e = "const p = f.fd"; break;
                    case 9: e = "const l = f.lock(); l.release()"; break;
                }
                src += fmt("    try { %s; sim.data(%d, 1, 0) } catch const e { sim.data(%d, 2, ex(e)) }\n", e.c_str(), id, id);
            }
            if (r.chance(1, 4)) src += "    try { f.close() } catch const e { sim.data(-2, 2, ex(e)) }\n";
            src += "}\n";
            main_ += fmt("    ts.push(async u%d_%d(f))\n", k, t);
        }
        if (r.chance(1, 2)) main_ += fmt("    sim.nap(%d)\n", (int)(1 + r.below(1u << r.range(4, 14))));
        if (!r.chance(1, 8)) main_ += "    try { f.close() } catch const e { sim.data(-2, 2, ex(e)) }\n";
        if (r.chance(1, 3)) main_ += fmt("    try { const g = io.create(\"/work/d%d\"); g.close() } catch const e { sim.data(-3, 2, ex(e)) }\n", k);
        main_ += "    for const t in ts { t.wait() }\n}\n";
    }
    const bool hit = go(src + main_, level);
    for (auto &b : *blobs) {
        if (b.tag == 1) { if (b.id >= 0) toks[ids[b.id].first][ids[b.id].second].ok = true; continue; }
        if (!hit && (b.id < -1 || b.data.find("not open") == S::npos)) violation("file:unexpected-exception", "%s raised '%s'", b.id == -2 ? "close()" : b.id == -3 ? "creating another file" : "using the file", b.data.c_str());
    }
    end_checks();
    for (int k = 0; k < rounds; k++) {
        Node *nd = fs_lookup(fmt("/work/c%d", k).c_str());
        if (!nd) { if (!hit) violation("file:existence", "file %d does not exist", k); return; }
        check_tokens(fmt("file %d", k), nd->data, toks[k], hit, level == 1 && hit);
        nd = fs_lookup(fmt("/work/d%d", k).c_str());
        if (nd && nd->data.size()) violation("file:wrong-file", "%zu bytes landed in another file", nd->data.size());
    }
}
void run_file_close0() { run_file_close(0); }
void run_file_close1() { run_file_close(1); }
void run_file_close2() { run_file_close(2); }

// ------------------------------------------------------------------ buffers changed while a file operation uses them
// What the file gets is up to the race, but nothing may fail and memory must stay sane.
void run_file_bufs(int level)
{
    Rng &r = wrng();
    start_logs();
    const int nt = r.range(2, 4), nb = r.range(1, 2);
    fs_mkfile("/work/in", S(20000, 'i'));
    S src = S(prelude) + "const f = io.create(\"/work/b\")\nconst g = io.open(\"/work/in\", \"rb\")\n";
    for (int b = 0; b < nb; b++) src += fmt("const b%d = buffer()\nb%d.resize(%d, 0x61)\n", b, b, (int)r.range(1, 1800));
    for (int t = 0; t < nt; t++) {
        const int n = r.range(3, 14);
        src += fmt("fun w%d {\n", t);
        const bool writer = t == 0 || r.chance(1, 3);
        for (int i = 0; i < n; i++) {
            const int b = (int)r.below(nb), c = writer ? r.range(0, 5) : r.range(4, 11);
            const int len = r.chance(1, 2) ? r.range(500, 1800) : r.chance(1, 4) ? r.range(3000, 9000) : r.range(0, 520);
            S e;
            switch (c) {
                case 0: case 1: e = fmt("f.write(b%d)", b); break;
                case 2: e = fmt("f.write(b%d, sim.text(%d), b%d)", b, add_blob(S(r.range(1, 600), 't')), (int)r.below(nb)); break;
                case 3: e = fmt("f.write(b%d); f.flush()", b); break;
                case 4: e = fmt("g.read_some(%d, b%d)", len, b); break;
                case 5: e = fmt("g.position = 0; g.read_some(%d, b%d)", len, b); break;
                case 6: e = fmt("b%d.resize(%d, 0x62)", b, len); break;
                case 7: e = fmt("b%d.resize(0); b%d.reserve(%d); sim.collect()", b, b, len * (int)r.range(1, 12)); break;
                case 8: e = fmt("b%d.reserve(%d); sim.collect()", b, len + 1000 + 700 * i); break;
                case 9: e = "sim.collect()"; break;
                case 10: e = fmt("b%d.fill(0x63)", b); break;
                case 11: e = fmt("const s = b%d.slice(%d, %d); s.resize(700, 0x64)", b, (int)r.range(0, 600), (int)r.range(600, 1500)); break;
            }
            src += fmt("    try { %s } catch const e { sim.data(%d, 2, ex(e)) }\n", e.c_str(), t);
        }
        src += "}\n";
    }
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("ts.push(async w%d())\n", t);
    src += "w0()\nfor const t in ts { t.wait() }\n";
    const bool hit = go(src, level);
    for (auto &b : *blobs)
        if (!hit) violation("file:unexpected-exception", "thread %d: %s", (int)b.id, b.data.c_str());
    end_checks();
}
void run_file_bufs0() { run_file_bufs(0); }
void run_file_bufs2() { run_file_bufs(2); }

// ------------------------------------------------------------------ one handle, several readers
// The pieces which the threads got must tile the file.
void run_share_read(int level)
{
    Rng &r = wrng();
    start_logs();
    const int nt = r.range(2, 4), nrec = r.range(1, 300);
    const bool by_line = r.chance(1, 2), until_end = r.chance(2, 3), closing = r.chance(1, 3), sharedbuf = !by_line && r.chance(1, 3);
    S data;
    std::vector<size_t> starts;
    for (int i = 0; i < nrec; i++) { starts.push_back(data.size()); data += by_line ? token(i, 0, r.chance(1, 30) ? 3000 : r.range(8, 40)) + "\n" : fmt("<%06d>", i); }
    fs_mkfile("/work/s", data);
    S src = S(prelude) + "const f = io.open(\"/work/s\", \"rb\")\nvar shared = void\n";
    if (sharedbuf) src += "shared = buffer(0)\n";
    for (int t = 0; t < nt; t++) {
        const int n = r.range(1, 12);
        const S exprs = by_line ? S("f.read_line()") : sharedbuf ? fmt("f.read_some(%d, shared)", 8 * (int)r.range(1, 60)) : fmt("f.read_some(%d)", 8 * (int)r.range(1, 60));
        src += fmt("fun w%d {\n    try {\n", t);
        if (until_end) src += "        var more = true\n        while more {\n"; else src += fmt("        for const i in range(%d) {\n", n);
        src += fmt("            const v = %s\n", exprs.c_str());
        if (until_end) src += by_line ? "            if v.size == 0 { more = false }\n" : sharedbuf ? "            if f.eof { more = false }\n" : "            if v.size == 0 { more = false }\n";
        if (sharedbuf) src += r.chance(1, 2) ? "            shared.resize(0)\n" : "            shared.reserve(20000); shared.resize(3)\n";
        else src += fmt("            sim.data(%d, 1, v)\n", t);
        src += fmt("        }\n    }\n    catch const e { sim.data(%d, 2, ex(e)) }\n", t);
        if (closing && r.chance(1, 2)) src += fmt("    try { f.close() } catch const e { sim.data(%d, 3, ex(e)) }\n", t);
        src += "}\n";
    }
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("ts.push(async w%d())\n", t);
    src += "w0()\nfor const t in ts { t.wait() }\n";
    const bool hit = go(src, level);
    bool stopped = false;
    std::vector<std::pair<size_t, size_t>> got;
    std::map<int, size_t> last;
    for (auto &b : *blobs) {
        if (b.tag != 1) {
            stopped = true;
            if (!hit && (!closing || b.tag == 3 || b.data.find("not open") == S::npos)) violation("file:unexpected-exception", "thread %d: %s", (int)b.id, b.data.c_str());
            continue;
        }
        if (b.data.empty()) continue;
        size_t at;
        const S &d = b.data;
        if (by_line) { const int i = atoi(d.c_str() + 1); at = d[0] == '[' && i >= 0 && i < nrec ? starts[i] : 0; }
        else { const int i = atoi(d.c_str() + 1); at = d[0] == '<' && i >= 0 && i < nrec ? starts[i] : 0; }
        if (data.compare(at, d.size(), d)) {
            if (hit) continue;
            violation("file:wrong-data", "thread %d read '%s' which is not in the file like this", (int)b.id, printable(d).c_str());
        }
        got.push_back({at, d.size()});
        auto it = last.find((int)b.id);
        if (it != last.end() && at < it->second) violation("file:order", "thread %d read byte %zu after byte %zu", (int)b.id, at, it->second);
        last[(int)b.id] = at + d.size();
    }
    std::sort(got.begin(), got.end());
    size_t pos = 0;
    for (auto &g : got) {
        if (g.first < pos) violation("file:duplicate", "byte %zu was delivered twice", g.first);
        if (g.first > pos && !hit) violation("file:lost", "bytes %zu to %zu were delivered to no one", pos, g.first);
        pos = g.first + g.second;
    }
    if (until_end && !stopped && !hit && !sharedbuf && pos != data.size()) violation("file:lost", "the end of the file was reached but only %zu of %zu bytes were delivered", pos, data.size());
    end_checks();
}
void run_file_shread() { run_share_read(0); }
void run_file_shread_oom() { run_share_read(2); }

// ------------------------------------------------------------------ pipes
// Every line written by any of the writers is read by exactly one reader, after the writers close the readers see the end.
void run_pipe(int level)
{
    Rng &r = wrng();
    start_logs();
    pipe_capacity = r.pick(std::vector<int>{1, 7, 64, 512, 65536});
    const int nw = r.range(1, 3), nr = r.range(1, 3);
    // a pipe can be abandoned by its readers or by its writers
    const bool quit_readers = r.chance(1, 4);
    const bool by_line = r.chance(2, 3) || nr > 1;
    std::vector<Tok> toks;
    S src = S(prelude) + "var p = void\ntry { p = io.pipe() } catch const e { sim.note(\"nopipe\") }\nconst rd = p ? p.read : void\nconst wr = p ? p.write : void\np = void\n";
    for (int t = 0; t < nw; t++) {
        src += fmt("fun w%d {\n", t);
        const int n = r.range(0, 8);
        for (int i = 0; i < n; i++) {
            const int k = (int)toks.size();
            toks.push_back(Tok{t, k, token(t, k, r.chance(1, 8) ? r.range(400, 3000) : r.range(12, 60))});
            const int b = add_blob(toks.back().s + "\n");
            src += r.chance(1, 2) ? fmt("    try { wr.write(sim.blob(%d)); sim.data(%d, 1, 1) } catch const e { sim.data(%d, 2, ex(e)) }\n", b, k, k)
                                  : fmt("    try { wr.print(sim.text(%d)); sim.data(%d, 1, 1) } catch const e { sim.data(%d, 2, ex(e)) }\n", add_blob(toks.back().s), k, k);
            if (r.chance(1, 3)) src += "    try { wr.flush() } catch const e { sim.data(-3, 2, ex(e)) }\n";
            if (r.chance(1, 5)) src += "    sim.nap(500)\n";
        }
        src += "}\n";
    }
    for (int t = 0; t < nr; t++) {
        src += fmt("fun r%d {\n    try {\n        var more = true\n        var left = %d\n        while more && left > 0 {\n", t, quit_readers ? (int)r.range(0, 3) : 1000000);
        src += by_line ? "            const v = rd.read_line()\n" : fmt("            const v = rd.read_some(%d)\n", (int)r.range(1, 300));
        src += fmt("            if v.size == 0 { more = false; sim.data(%d, 4, 1) } else { sim.data(%d, 3, v) }\n            left -= 1\n        }\n    }\n    catch const e { sim.data(%d, 5, ex(e)) }\n}\n", t, t, t);
    }
    // the reading end is closed when the readers are done, the writing end when the writers are
    // (a collection which fails for lack of memory can fail any thread's operation, also of those which are spared)
    auto stubborn = [](const S &st, const S &ind) { return fmt("%s{\n%s    var n = 0\n%s    while n < 9 { n += 1; try { %s; n = 9 } catch const e { } }\n%s}\n", (ind + "do ").c_str(), ind.c_str(), ind.c_str(), st.c_str(), ind.c_str()); };
    auto close1 = [](const char *h, int id) { return fmt("try { %s.close() } catch const e { sim.data(%d, 2, ex(e)); if typeof e != \"string\" && e.value == \"out of memory\" { throw e } }", h, id); };
    src += "const ws = []\nconst rs = []\nvar started = false\nvar ready = false\n"
           "fun closer {\n    sim.safe(1)\n    started = true\n    while ! ready { try { sim.nap(100) } catch const e { } }\n    var i = 0\n    while i < rs.size {\n" + stubborn("rs[i].wait()", "        ") + "        i += 1\n    }\n" + stubborn(close1("rd", -4), "    ") + "}\n"
           "if rd && wr {\n    const c = async closer()\n    while ! started { sim.nap(100) }\n    sim.safe(1)\n    sim.fault(1)\n";
    for (int t = 0; t < nr; t++) src += fmt("    try { rs.push(async r%d()) } catch const e { }\n", t);
    for (int t = 0; t < nw; t++) src += fmt("    try { ws.push(async w%d()) } catch const e { }\n", t);
    src += "    ready = true\n    var i = 0\n    while i < ws.size {\n" + stubborn("ws[i].wait()", "        ") + "        i += 1\n    }\n" + stubborn(close1("wr", -2), "    ") + stubborn("c.wait()", "    ") + "}\n";
    const bool hit = go(src, level);
    S got;
    std::map<int, S> per;
    bool wfail = false, rfail = false;
    std::map<int, int> eof;
    for (auto &b : *blobs) switch (b.tag) {
        case 1: toks[b.id].ok = true; break;
        case 2: wfail = true; if (!hit && !quit_readers) violation("pipe:unexpected-exception", "operation %d raised '%s'", (int)b.id, b.data.c_str()); break;
        case 3: if (eof[(int)b.id]) violation("pipe:after-end", "reader %d got data after the end", (int)b.id); got += b.data; per[(int)b.id] += b.data; break;
        case 4: eof[(int)b.id]++; break;
        case 5: rfail = true; if (!hit) violation("pipe:unexpected-exception", "reader %d: '%s'", (int)b.id, b.data.c_str()); break;
    }
    if (hit && (int)eof.size() < nr) rfail = true;               // it could not even report
    if (hit && blobs->empty()) { end_checks(); return; }
    std::set<S> seen;
    if (by_line) {
        // lines of one reader: in the order of each writer
        for (auto &p : per) {
            std::vector<Tok> mine = toks;
            for (auto &t : mine) t.ok = false;
            check_tokens(fmt("reader %d", p.first), p.second, mine, hit || quit_readers, true);
        }
        std::map<S, int> cnt;
        for (size_t i = 0; (i = got.find('[', i)) != S::npos;) { const size_t e = got.find(']', i); if (e == S::npos) break; cnt[got.substr(i, e + 1 - i)]++; i = e; }
        for (auto &t : toks) {
            if (cnt[t.s] > 1) violation("pipe:duplicate", "%s was delivered twice", t.s.substr(0, 12).c_str());
            if (t.ok && !cnt[t.s] && !quit_readers && !(hit && (wfail || rfail))) violation("pipe:lost", "%s was written and the pipe was closed without an error, but no one got it", t.s.substr(0, 12).c_str());
        }
    } else check_tokens("the reader", got, toks, hit || quit_readers, quit_readers || (hit && (wfail || rfail)));
    end_checks();
}
void run_pipe_quiet() { run_pipe(0); }
void run_pipe_faults() { run_pipe(1); }
void run_pipe_oom() { run_pipe(2); }

// ------------------------------------------------------------------ directories
enum Kind { MKDIR, MKDEEP, RMDIR, REMOVE, CREATE, EXISTS, TYPE, LIST, LISTSOME, CWD };
struct Op { Kind k; S p; int n = 0; };
struct Tree {
    std::map<S, int> e;              // path -> 1 file, 2 directory
    static S parent(const S &p) { return p.substr(0, p.rfind('/')); }
    int at(const S &p) const { auto i = e.find(p); return i == e.end() ? 0 : i->second; }
    bool empty(const S &p) const { auto i = e.upper_bound(p); for (; i != e.end() && !i->first.compare(0, p.size(), p); ++i) if (i->first.size() > p.size() && i->first[p.size()] == '/') return false; return true; }
    S list(const S &p) const { S s; for (auto &i : e) if (parent(i.first) == p) s += i.first.substr(p.size() + 1) + ","; return s; }
};

void run_dirs(int level)
{
    Rng &r = wrng();
    start_logs();
    const int nt = r.range(1, 3);
    std::vector<std::vector<Op>> ops(nt);
    S src = S(prelude) +
        "fun list(p) { const a = []; for const n in fs.listdir(p) { if n != \".\" && n != \"..\" { a.push(n) } }; a.sort(); var s = \"\"; for const n in a { s += n + \",\" }; return s }\n"
        "fun some(p, n) { const it = fs.listdir(p); var k = 0; while k < n { k += 1; it() }; return true }\n"
        "fun mkfile(p) { io.create(p).close(); return true }\n"
        "fun chd(p) { fs.chdir(p); defer { fs.chdir(\"/work\") }; return fs.cwd() }\n";
    for (int t = 0; t < nt; t++) {
        const S base = fmt("/work/d%d", t);
        fs_mkdir(base);
        src += fmt("fun w%d {\n", t);
        const int n = r.range(3, 40);
        for (int i = 0; i < n; i++) {
            Op o;
            o.k = (Kind)r.range(MKDIR, nt == 1 ? CWD : LISTSOME);
            if (r.chance(1, 4)) o.k = r.chance(1, 2) ? MKDEEP : CREATE;
            o.p = base;
            const int depth = r.range(o.k == LIST ? 0 : 1, 3);
            for (int d = 0; d < depth; d++) o.p += fmt("/%c", "abc"[r.below(3)]);
            S e;
            const char *p = o.p.c_str();
            switch (o.k) {
                case MKDIR: e = fmt("fs.mkdir(\"%s\")", p); break;
                case MKDEEP: e = fmt("fs.mkdir(\"%s\", true)", p); break;
                case RMDIR: e = fmt("fs.rmdir(\"%s\")", p); break;
                case REMOVE: e = fmt("fs.remove(\"%s\")", p); break;
                case CREATE: e = fmt("mkfile(\"%s\")", p); break;
                case EXISTS: e = fmt("fs.file_exists(\"%s\")", p); break;
                case TYPE: e = fmt("fs.stat(\"%s\").type", p); break;
                case LIST: e = fmt("list(\"%s\")", p); break;
                case LISTSOME: o.n = r.range(1, 3); e = fmt("some(\"%s\", %d)", p, o.n); break;
                case CWD: e = fmt("chd(\"%s\")", p); break;
            }
            src += fmt("    try { const v = %s; sim.data(%d, 1, v) } catch const e { sim.data(%d, 2, ex(e)) }\n", e.c_str(), t * 1000 + i, t * 1000 + i);
            ops[t].push_back(o);
        }
        src += "}\n";
    }
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("ts.push(async w%d())\n", t);
    src += "w0()\nfor const t in ts { t.wait() }\n";
    const bool hit = go(src, level);
    std::vector<Tree> tr(nt);
    std::vector<bool> lost(nt, false);
    std::vector<size_t> done(nt, 0);
    for (int t = 0; t < nt; t++) tr[t].e[fmt("/work/d%d", t)] = 2;
    for (auto &b : *blobs) {
        const int t = (int)(b.id / 1000), i = (int)(b.id % 1000);
        if ((size_t)i != done[t]++) { lost[t] = true; }
        if (lost[t]) continue;
        const Op &o = ops[t][i];
        Tree &m = tr[t];
        const bool exc = b.tag == 2;
        const S par = Tree::parent(o.p);
        const int self = m.at(o.p), up = m.at(par);
        auto bad = [&](const char *why) { violation("fs:wrong-result", "thread %d operation %d on %s (which is %s): %s '%s' %s", t, i, o.p.c_str(), self == 0 ? "absent" : self == 1 ? "a file" : "a directory", exc ? "exception" : "result", printable(b.data).c_str(), why); };
        // exceptions because of faults: system calls which fail change nothing, but others may have been done
        auto may = [&](bool changed) { if (!hit) bad("although it had to succeed"); if (level == 2 || changed) lost[t] = true; };
        auto must_fail = [&](const char *why) { if (!exc) bad(why); };
        switch (o.k) {
            case MKDIR:
                if (self || up != 2) { must_fail("although it could not be created"); break; }
                if (exc) may(false); else { m.e[o.p] = 2; if (b.data != o.p) bad("is not the argument"); }
                break;
            case MKDEEP: {
                bool can = true;
                std::vector<S> made;
                for (size_t q = S("/work/d0").size();;) {
                    const size_t x = o.p.find('/', q + 1);
                    const S a = o.p.substr(0, x);
                    if (m.at(a) == 1) can = false;
                    if (can && !m.at(a)) made.push_back(a);
                    if (x == S::npos) break;
                    q = x;
                }
                if (!can) { must_fail("although a file is in the way"); if (hit) lost[t] = true; else for (auto &a : made) m.e[a] = 2; break; }
                if (exc) may(true);
                else for (auto &a : made) m.e[a] = 2;
                break;
            }
            case RMDIR:
                if (self == 1 || (self == 2 && !m.empty(o.p))) { must_fail("although it is a file or not empty"); break; }
                if (!self && up != 2 && up != 0) { must_fail("although the parent is a file"); break; }
                if (!self && exc && up == 0 && !hit) { S a = par; while (!m.at(a)) a = Tree::parent(a); if (m.at(a) == 1) break; }
                if (!self) { if (exc) may(false); else if (b.data != "0") { S a = par; bad("although there is nothing"); } break; }
                if (exc) may(false); else { if (b.data != "1") bad("although it was there"); m.e.erase(o.p); }
                break;
            case REMOVE:
                if (self == 2) { must_fail("although it is a directory"); break; }
                if (!self && exc && !hit) { S a = par; while (!m.at(a)) a = Tree::parent(a); if (m.at(a) == 1) break; }
                if (!self) { if (exc) may(false); else if (b.data != "0") bad("although there is nothing"); break; }
                if (exc) may(false); else { if (b.data != "1") bad("although it was there"); m.e.erase(o.p); }
                break;
            case CREATE:
                if (self == 2 || up != 2) { must_fail("although it could not be created"); break; }
                if (exc) may(true); else m.e[o.p] = 1;
                break;
            case EXISTS:
                if (exc) { may(false); break; }
                if (b.data == "1" ? self != 1 : self == 1 && !hit) bad("");
                break;
            case TYPE:
                if (!self) { must_fail("although it does not exist"); break; }
                if (exc) { may(false); break; }
                if (b.data != (self == 1 ? "file" : "directory")) bad("");
                break;
            case LIST:
                if (self != 2) { must_fail("although it is not a directory"); break; }
                if (exc) { may(false); break; }
                if (b.data != m.list(o.p)) bad(("instead of " + m.list(o.p)).c_str());
                break;
            case LISTSOME:
                if (self != 2) { must_fail("although it is not a directory"); break; }
                if (exc) { if (b.data.find("end") != S::npos || 1) { size_t k = 2; for (auto &x : m.e) k += Tree::parent(x.first) == o.p; if (k < (size_t)o.n) break; } may(false); }
                break;
            case CWD:
                if (self != 2) { must_fail("although it is not a directory"); break; }
                if (exc) { may(false); break; }
                if (b.data != o.p) bad("");
                break;
        }
    }
    end_checks();
    for (int t = 0; t < nt; t++) {
        if (done[t] != ops[t].size()) { if (!hit) violation("fs:skipped", "thread %d reported %zu of %zu operations", t, done[t], ops[t].size()); continue; }
        if (lost[t]) continue;
        std::map<S, int> now;
        std::function<void(const S &)> walk = [&](const S &p) { Node *n = fs_lookup(p, false); now[p] = n->type == Node::DIR_ ? 2 : 1; for (auto &k : n->kids) walk(p + "/" + k.first); };
        walk(fmt("/work/d%d", t));
        if (now != tr[t].e) {
            S a, b;
            for (auto &x : now) a += x.first + (x.second == 2 ? "/ " : " ");
            for (auto &x : tr[t].e) b += x.first + (x.second == 2 ? "/ " : " ");
            violation("fs:tree", "thread %d left %s instead of %s", t, a.c_str(), b.c_str());
        }
    }
}
void run_fs() { run_dirs(0); }
void run_fs_faults() { run_dirs(1); }
void run_fs_oom() { run_dirs(2); }

void setup() { setup_script(); }
SCENARIO("file_close", setup, run_file_close0);
SCENARIO("file_close_faults", setup, run_file_close1);
SCENARIO("file_close_oom", setup, run_file_close2);
SCENARIO("file_bufs", setup, run_file_bufs0);
SCENARIO("file_bufs_oom", setup, run_file_bufs2);
SCENARIO("file_share", setup, run_file_share);
SCENARIO("file_share_faults", setup, run_file_share_faults);
SCENARIO("file_share_oom", setup, run_file_share_oom);
SCENARIO("file_shread", setup, run_file_shread);
SCENARIO("file_shread_oom", setup, run_file_shread_oom);
SCENARIO("pipe", setup, run_pipe_quiet);
SCENARIO("pipe_faults", setup, run_pipe_faults);
SCENARIO("pipe_oom", setup, run_pipe_oom);
SCENARIO("fs", setup, run_fs);
SCENARIO("fs_faults", setup, run_fs_faults);
SCENARIO("fs_oom", setup, run_fs_oom);
} // namespace
