#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

build(variant, out) -> path of the simrun binary.  Incremental by content hash.
"""
import os, sys, glob, hashlib, subprocess, concurrent.futures, shutil

REPO = os.environ.get("KOS_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

DEFS = ["-DCONFIG_FAST_DISPATCH", "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L"]
REPO_FLAGS = ["-O1", "-g", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
              "-fno-builtin", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fno-pie",
              "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", "-w"]
VARIANTS = {
    "std": [],
    "mad": ["-DCONFIG_MAD_GC"],
}
SIM_FLAGS = ["-std=c++17", "-DVERIF_DIR=\"%s\"" % HERE, "-O2", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-Wall", "-Wno-unused-function"]
INTERNAL = {"switch", "capture", "resume", "slow_point", "step", "next", "count_plain", "atomics", "exit_hook"}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def _digest(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(variant="std", out=None, jobs=8):
    out = out or os.path.join(os.environ.get("KOS_VBUILD", os.path.join(HERE, "build")), variant)
    os.makedirs(out, exist_ok=True)
    vdefs = VARIANTS[variant]
    repo_src = sorted(glob.glob(os.path.join(REPO, "core", "*.c")) + glob.glob(os.path.join(REPO, "modules", "*.c")))
    repo_hdr = glob.glob(os.path.join(REPO, "core", "*.h")) + glob.glob(os.path.join(REPO, "inc", "*.h")) + glob.glob(os.path.join(REPO, "modules", "*.h"))
    sim_src = sorted(glob.glob(os.path.join(HERE, "sim", "*.cc")))
    sim_hdr = glob.glob(os.path.join(HERE, "sim", "*.h"))
    hdr_dig = _digest(repo_hdr, "hdr")
    shdr_dig = _digest(sim_hdr, hdr_dig)
    shdr_only = _digest(sim_hdr, "")
    jobsl = []
    objs_repo, objs_sim = [], []
    for s in repo_src:
        d = _digest([s], hdr_dig + variant + " ".join(REPO_FLAGS + DEFS))
        o = os.path.join(out, "r_%s_%s.o" % (os.path.basename(s)[:-2], d))
        objs_repo.append(o)
        if not os.path.exists(o):
            jobsl.append((o, ["gcc", "-c"] + REPO_FLAGS + DEFS + vdefs + ["-I", os.path.join(REPO, "inc"), s, "-o", o + ".tmp"]))
    for s in sim_src:
        uses_kos = os.path.basename(s).startswith("kx_")
        d = _digest([s], (shdr_dig if uses_kos else shdr_only) + variant + "2 " + " ".join(SIM_FLAGS))
        o = os.path.join(out, "s_%s_%s.o" % (os.path.basename(s)[:-3], d))
        objs_sim.append(o)
        if not os.path.exists(o):
            jobsl.append((o, ["g++", "-c"] + SIM_FLAGS + (["-DCONFIG_FAST_DISPATCH"] if uses_kos else []) + vdefs + ["-I", REPO, s, "-o", o + ".tmp"]))

    def run(job):
        o, cmd = job
        rc, txt = sh(cmd)
        if rc:
            return "%s\n%s" % (" ".join(cmd), txt)
        os.rename(o + ".tmp", o)
        return None

    # biggest first
    jobsl.sort(key=lambda j: -os.path.getsize(j[1][-3]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        errs = [e for e in ex.map(run, jobsl) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))

    exe = os.path.join(out, "simrun")
    key = hashlib.sha256("\n".join(objs_repo + objs_sim).encode()).hexdigest()
    keyf = os.path.join(out, "link.key")
    if os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key:
        return exe
    rc, txt = sh(["nm", "--defined-only"] + [o for o in objs_sim if "/s_core_" in o or "/s_kernel_" in o])
    names = set()
    for l in txt.split("\n"):
        f = l.split()
        if len(f) == 3 and f[1] in "TDBRW" and f[2].startswith("sim_") and f[2][4:] not in INTERNAL:
            names.add(f[2][4:])
    mapf = os.path.join(out, "redefine.map")
    with open(mapf, "w") as f:
        for n in sorted(names):
            f.write("%s sim_%s\n" % (n, n))
    reloc = os.path.join(out, "kos_repo.o")
    rc, txt = sh(["ld", "-r", "-o", reloc + ".tmp"] + objs_repo)
    if rc:
        raise BuildError(txt)
    rc, txt = sh(["objcopy", "--redefine-syms=" + mapf, reloc + ".tmp", reloc])
    if rc:
        raise BuildError(txt)
    os.remove(reloc + ".tmp")
    rc, txt = sh(["g++", "-no-pie", "-o", exe] + objs_sim + [reloc, "-lpthread", "-ldl", "-lm"])
    if rc:
        raise BuildError(txt)
    with open(keyf, "w") as f:
        f.write(key)
    # drop stale objects
    keep = set(objs_repo + objs_sim)
    for o in glob.glob(os.path.join(out, "[rs]_*.o")):
        if o not in keep:
            os.remove(o)
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["std"]:
        t = time.time()
        try:
            print(build(v), "%.1fs" % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(2)
