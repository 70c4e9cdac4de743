#!/usr/bin/env python3
"""trybug.py ID [--notest] [--nocheck]: tries a planted bug in a scratch copy (/tmp/kb), never in /repo."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KB = "/tmp/kb"
VP = "/tmp/kbvp"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def sync():
    if not os.path.isdir(KB):
        sh("cp -a /repo %s" % KB)
    sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (KB, KB, KB))
    if not os.path.isdir(VP):
        shutil.copytree("/opt/vp", VP)
        for f in os.listdir(VP):
            if f.endswith(".sh"):
                p = os.path.join(VP, f)
                t = open(p).read().replace("/opt/vp", VP).replace("/repo", KB)
                open(p, "w").write(t)


def build():
    r = sh("bash %s/build.sh" % VP)
    if r.returncode:
        print(r.stdout[-2000:]); print("BUILD FAILED"); sys.exit(1)


def main():
    i = sys.argv[1]
    d = os.path.join(V, "seeded", i)
    sync()
    meta = json.load(open(d + "/meta.json"))
    lay = "/tmp/kblay"
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    build()
    r0 = sh("timeout 300 bash %s/demo.sh" % lay, cwd=KB)
    r = sh("git -C %s apply %s/patch.diff" % (KB, d))
    if r.returncode:
        print("patch does not apply", r.stdout); return 1
    try:
        build()
        r1 = sh("timeout 300 bash %s/demo.sh" % lay, cwd=KB)
        print(i, "demo clean rc=%d patched rc=%d %s" % (r0.returncode, r1.returncode, "OK" if r0.returncode == 0 and r1.returncode != 0 else "BAD"))
        if r0.returncode: print(r0.stdout[-1500:])
        print("   ", r1.stdout.strip()[-300:])
        if "--notest" not in sys.argv:
            sh("bash %s/test.sh /tmp/kbt.json" % VP)
            b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/kbt.json"))
            miss = [x for x in b["stable"] if x not in set(t["passed"])]
            print("    tests:", "OK" if not miss else "FAIL %s" % miss[:5])
        if "--nocheck" not in sys.argv:
            r = sh("KOS_REPO=%s KOS_VBUILD=/tmp/kbv VERIF_SEED=1 python3 %s/check.py %s quick" % (KB, V, meta["property"]))
            m = re.search(r"^VIOLATION.*", r.stdout, re.M)
            k = re.search(r"^violation .*", r.stdout, re.M)
            print("    check %s rc=%d %s" % (meta["property"], r.returncode, "CAUGHT " + k.group(0)[:200] if m else "MISSED " + r.stdout[-300:]))
    finally:
        sh("git -C %s checkout -q -- ." % KB)


if __name__ == "__main__":
    sys.exit(main())
