#!/usr/bin/env python3
"""Deterministic-simulation checks for kos-lang/kos.

  check.py PROPERTY [quick|thorough]   run the check of one property
  check.py replay FILE [--trace]       replay a violation (exit 1 = reproduced exactly)
  check.py setup                       build the simulator
  check.py sweep PROPERTY SEED SECONDS background search with another seed
"""
import json, os, re, subprocess, sys, time, tempfile, shutil, struct, threading, queue

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

NCPU = max(1, min(8, os.cpu_count() or 1))


def log(*a):
    print(*a, flush=True)


def resolve(exe, where):
    """Return addresses -> list of function names (innermost first)."""
    addrs = [a for a in where.split() if a.startswith("0x")]
    if not addrs:
        return []
    try:
        out = subprocess.run(["addr2line", "-f", "-s", "-C", "-e", exe] + [hex(int(a, 16) - 1) for a in addrs],
                             stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return []
    r = []
    for i in range(0, len(out) - 1, 2):
        r.append("%s (%s)" % (re.sub(r"\(.*", "", out[i]), out[i + 1]))
    return r


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def known_match(known, prop, scen, v, stack):
    names = [s.split(" ")[0] for s in stack]
    for k in known:
        if k["property"] != prop or k["scenario"] != scen:
            continue
        m = k["match"]
        if not re.search(m["kind"], v["kind"]):
            continue
        if "message" in m and not re.search(m["message"], v["msg"]):
            continue
        if "function" in m and not any(re.fullmatch(m["function"], n) for n in names):
            continue
        return k
    return None


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.exe = {}
        self.tmp = tempfile.mkdtemp(prefix="koscheck.")
        self.known = load_known()
        self.known_hits = {}
        self.violations = []
        self.errors = []
        self.sums = {}
        self.samples = []
        self.hashes = set()
        self.lock = threading.Lock()
        self.stop = False

    def build(self):
        for v in sorted({s["variant"] for s in self.cfg["scenarios"]}):
            self.exe[v] = B.build(v)

    def tasks(self, limit):
        t = []
        for s in self.cfg["scenarios"]:
            n = s["quick"] if self.tier == "quick" else s.get("thorough", s["quick"] * 20)
            n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
            chunks = max(1, min(s.get("chunks", NCPU), n)) * (1 if self.tier == "quick" else 4)
            per = (n + chunks - 1) // chunks
            for c in range(chunks):
                t.append((s, c * per, min(per, n - c * per)))
        # interleave scenarios so that each is represented early
        t.sort(key=lambda x: x[1] / max(1, x[2]))
        return [x for x in t if x[2] > 0]

    def run_task(self, s, start, count, deadline):
        if self.stop:
            return
        left = deadline - time.time()
        if left < 1:
            return
        exe = self.exe[s["variant"]]
        out = os.path.join(self.tmp, "%s.%s.%d" % (s["variant"], s["name"], start))
        p = subprocess.Popen([exe, "batch", s["name"], str(self.seed), str(start), str(count), out, "12", "%.1f" % left],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.tmp)
        try:
            txt, _ = p.communicate(timeout=left + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            txt, _ = p.communicate()
            with self.lock:
                self.errors.append("%s: batch did not end" % s["name"])
            return
        rc = p.returncode
        with self.lock:
            if rc == 4:
                m = re.search(r"SETUP-VIOLATION kind=(.*?) where=(.*?) msg=(.*)", txt)
                v = {"kind": m.group(1), "where": m.group(2), "msg": m.group(3), "seed": 0, "index": 0, "setup": 1} if m else None
                if v:
                    self.add_violation(s, v)
                else:
                    self.errors.append("%s: %s" % (s["name"], txt[-500:]))
                return
            if rc != 0:
                self.errors.append("%s: simulator exit %s: %s" % (s["name"], rc, txt[-800:]))
                return
            key = (s["variant"], s["name"])
            for line in open(out):
                d = json.loads(line)
                if "summary" in d:
                    a = self.sums.setdefault(key, {"runs": 0, "steps": 0, "switches": 0, "sim_ns": 0, "ops": 0, "gcs": 0, "inconclusive": 0,
                                                   "determinism_rechecks": 0, "nontrivial": 0, "wall": 0.0, "faults": {}, "opps": {}, "custom": [0] * 8, "timed_out": 0})
                    for k in ("runs", "steps", "switches", "sim_ns", "ops", "gcs", "inconclusive", "determinism_rechecks", "nontrivial", "wall", "timed_out"):
                        a[k] += d[k]
                    for k, (f, o) in d["faults"].items():
                        a["faults"][k] = a["faults"].get(k, 0) + f
                        a["opps"][k] = a["opps"].get(k, 0) + o
                    a["custom"] = [x + y for x, y in zip(a["custom"], d["custom"])]
                elif "violation" in d:
                    self.add_violation(s, d)
                elif "harness" in d:
                    self.errors.append("%s seed %s: %s" % (s["name"], d["seed"], d["msg"]))
                elif "sample" in d:
                    d["scenario"] = s["name"]
                    if len(self.samples) < 12:
                        self.samples.append(d)
                elif "inconclusive" in d:
                    log("note: inconclusive run", s["name"], d["seed"], d["msg"])
            try:
                hb = open(out + ".hash", "rb").read()
                for i in range(0, len(hb) - 7, 8):
                    self.hashes.add((key[1], hb[i:i + 8]))
            except OSError:
                pass
            for f in (out, out + ".hash"):
                if os.path.exists(f):
                    os.remove(f)

    def add_violation(self, s, v):
        stack = resolve(self.exe[s["variant"]], v["where"])
        k = known_match(self.known, self.prop, s["name"], v, stack)
        if k:
            self.known_hits[k["id"]] = k
            return
        v["stack"] = stack
        v["scen"] = s
        self.violations.append(v)
        self.stop = True

    def explore(self):
        budget = self.cfg.get("cap", 140) if self.tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", self.cfg.get("thorough_cap", 1800)))
        deadline = time.time() + budget
        q = queue.Queue()
        for t in self.tasks(budget):
            q.put(t)

        def work():
            while True:
                try:
                    s, st, n = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    self.run_task(s, st, n, deadline)
                except Exception as e:  # noqa
                    with self.lock:
                        self.errors.append("task %s: %r" % (s["name"], e))
        th = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in th:
            t.start()
        for t in th:
            t.join()

    def report(self, v):
        """Minimise, then gate on an exact replay in a fresh process."""
        s = v["scen"]
        exe = self.exe[s["variant"]]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.replay" % (self.prop, s["name"], v["seed"]))
        if v.get("setup"):
            with open(path, "w") as f:
                f.write("# variant %s\nsetup %s\nkind %s\nmessage %s\nend\n" % (s["variant"], s["name"], v["kind"], v["msg"]))
            r = subprocess.run([exe, "one", s["name"], "1"], stdout=subprocess.PIPE, text=True)
            return path if r.returncode == 4 else None
        sp = os.path.join(self.tmp, "spec")
        mn = os.path.join(self.tmp, "min")
        if os.path.exists(mn):
            os.remove(mn)
        subprocess.run([exe, "spec", s["name"], str(v["seed"]), sp], timeout=120)
        try:
            r = subprocess.run([exe, "min", sp, mn, str(self.cfg.get("min_s", 25))], stdout=subprocess.PIPE, text=True, timeout=300)
            log("minimise:", r.stdout.strip())
        except subprocess.TimeoutExpired:
            log("minimise: timeout")
        for cand in (mn, sp):
            if not os.path.exists(cand):
                continue
            r = subprocess.run([exe, "replay", cand], stdout=subprocess.PIPE, text=True, timeout=180)
            if r.returncode == 1 and "REPRODUCED" in r.stdout:
                txt = open(cand).read()
                with open(path, "w") as f:
                    f.write("# variant %s\n# replay with: python3 check.py replay <this file> [--trace]\n" % s["variant"])
                    for fr in v["stack"][:12]:
                        f.write("#   at %s\n" % fr)
                    f.write(txt)
                return path
        return None

    def evidence(self, wall):
        tot = {"runs": 0, "steps": 0, "switches": 0, "sim_ns": 0, "ops": 0, "gcs": 0, "determinism_rechecks": 0, "nontrivial": 0}
        faults, opps = {}, {}
        for a in self.sums.values():
            for k in tot:
                tot[k] += a[k]
            for k, f in a["faults"].items():
                faults[k] = faults.get(k, 0) + f
            for k, f in a["opps"].items():
                opps[k] = opps.get(k, 0) + f
        cov = {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(self.hashes),
            "rule": "one evaluation is one seeded simulated run (workload, schedule and faults all drawn from the seed); non-trivial: it performed "
                    "workload operations and had more than one context switch, an injected fault or a garbage collection; distinct: the hash of the "
                    "sequence (shared-memory operations between switches, thread switched to, fault decisions) was not seen before in this check",
            "samples": self.samples or [{"note": "no run completed"}],
            "runs_per_hour": int(tot["runs"] / wall * 3600) if wall > 0 else 0,
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "scheduling_points": tot["steps"],
            "context_switches": tot["switches"],
            "workload_operations": tot["ops"],
            "garbage_collections": tot["gcs"],
            "determinism_rechecks": tot["determinism_rechecks"],
            "faults_injected": {k: v for k, v in sorted(faults.items()) if v},
            "fault_opportunities": {k: v for k, v in sorted(opps.items()) if v},
            "per_scenario": {"%s/%s" % k: {"runs": a["runs"], "steps": a["steps"], "switches": a["switches"], "ops": a["ops"], "gcs": a["gcs"],
                                           "faults": sum(a["faults"].values()), "time_capped_chunks": a["timed_out"], "counters": a["custom"]}
                             for k, a in sorted(self.sums.items())},
            "real_code": "all of core/*.c and modules/*.c compiled from the working tree (compiler, VM, GC, heap, containers, threads, modules)",
            "stubs": "pthread primitives and thread scheduling, malloc family, clocks, signals, file descriptors, file system, pipes, fork/exec/waitpid, "
                     "sockets and select are the simulator's; stdio is glibc's over simulated descriptors; dlopen and readline-style terminal input are stubs",
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.cfg.get("assumptions", []) + ["sequentially consistent memory: reorderings by the CPU's memory model are not explored",
                                                               "preemption at every atomic operation, libc call and (in part of the runs) every shared memory access"],
              "wall_s": round(wall, 2), "violations": len(self.violations), "known_findings": sorted(self.known_hits)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def main(self):
        t0 = time.time()
        try:
            self.build()
            log("built in %.1fs" % (time.time() - t0))
            self.explore()
            wall = time.time() - t0
            self.evidence(wall)
            runs = sum(a["runs"] for a in self.sums.values())
            log("%s %s: %d runs, %d distinct, %.1fs, %d violations" % (self.prop, self.tier, runs, len(self.hashes), wall, len(self.violations)))
            for k in self.known:
                if k["property"] == self.prop:
                    log("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["what"], "" if k["id"] in self.known_hits else " (not hit in this run)"))
            self.violations.sort(key=lambda v: (v["scen"]["name"], v["index"]))
            seen = set()
            for v in self.violations:
                sig = (v["scen"]["name"], v["kind"])
                if sig in seen and len(seen) >= 1 and len(self.violations) > 3:
                    continue
                path = self.report(v)
                if not path:
                    self.errors.append("violation %s in %s seed %s did not replay exactly" % (v["kind"], v["scen"]["name"], v["seed"]))
                    continue
                seen.add(sig)
                log("violation kind=%s scenario=%s seed=%s: %s" % (v["kind"], v["scen"]["name"], v["seed"], v["msg"]))
                for fr in v["stack"][:10]:
                    log("    at", fr)
                log("VIOLATION property=%s replay=%s" % (self.prop, path))
                return 1
            if self.errors:
                for e in self.errors[:5]:
                    log("ERROR", e)
                return 2
            if runs == 0:
                log("ERROR no runs")
                return 2
            return 0
        except B.BuildError as e:
            log("BUILD ERROR\n" + str(e)[-3000:])
            return 2
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)


def replay(path, extra):
    txt = open(path).read()
    m = re.search(r"^# variant (\w+)", txt, re.M)
    exe = B.build(m.group(1) if m else "std")
    m = re.search(r"^setup (\w+)", txt, re.M)
    if m:
        r = subprocess.run([exe, "one", m.group(1), "1"])
        return 1 if r.returncode == 4 else 0
    r = subprocess.run([exe, "replay", path] + extra, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    w = re.search(r"^where (.*)$", r.stdout, re.M)
    if w:
        for s in resolve(exe, w.group(1)):
            log("  at", s)
    return r.returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        try:
            for v in B.VARIANTS:
                log(B.build(v))
        except B.BuildError as e:
            log(str(e)[-3000:])
            return 2
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2], sys.argv[3:])
    if sys.argv[1] == "sweep":
        os.environ["VERIF_THOROUGH_S"] = sys.argv[4]
        return Runner(sys.argv[2], "thorough", int(sys.argv[3])).main()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return Runner(prop, tier, int(os.environ.get("VERIF_SEED", "1"))).main()


if __name__ == "__main__":
    sys.exit(main())
