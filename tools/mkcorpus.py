#!/usr/bin/env python3
"""Cut the repository's interpreter tests into blocks which run on their own (programs/corpus.txt).
Each entry keeps the top-level declarations of its file and one top-level do { } block."""
import os, re, subprocess, sys, tempfile
REPO = "/repo"; T = REPO + "/tests/interpreter_tests"
KOS = REPO + "/Out/vp/interpreter/kos"; MODS = REPO + "/Out/vp/share/kos/modules"
names = """arrays buffers exceptions functions loops module_base module_iter module_json module_kos module_math module_random
module_re objects operators optimizations ordering multi_assignment strings switch with async module_threads module_datetime fail_registers""".split()
def split(src):
    """yield (is_block, text)"""
    out = []; cur = []; depth_do = False
    for l in src.split("\n"):
        if not depth_do and re.match(r"do \{|do$", l):
            depth_do = True; out.append((False, "\n".join(cur))); cur = [l]
            if re.match(r"do \{.*\}\s*$", l): out.append((True, l)); cur = []; depth_do = False
        elif depth_do and re.match(r"\}", l):
            cur.append(l); out.append((True, "\n".join(cur))); cur = []; depth_do = False
        else: cur.append(l)
    out.append((depth_do, "\n".join(cur)))
    return out
def strip(s):
    return "\n".join(l.rstrip() for l in s.split("\n") if l.strip() and not l.lstrip().startswith("#"))
def run(src):
    with tempfile.NamedTemporaryFile("w", suffix=".kos", dir="/tmp", delete=False) as f: f.write(src)
    try:
        r = subprocess.run([KOS, f.name], env={"KOSPATH": MODS + ":/tmp/kostt", "PATH": "/usr/bin:/bin", "HOME": "/tmp"}, capture_output=True, timeout=20, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired: return 99, b"", b""
    finally: os.unlink(f.name)
tools = strip(open(T + "/test_tools.kos").read())
os.makedirs("/tmp/kostt", exist_ok=True); open("/tmp/kostt/test_tools.kos","w").write(tools)
open("/verif/programs/test_tools.kos","w").write(tools + "\n")
n = 0; res = []
for name in names:
    parts = split(open(T + "/" + name + ".kos").read())
    decl = "\n".join(t for b, t in parts if not b)
    # the declarations alone must be acceptable; otherwise keep only imports and column-0 functions
    d = strip(decl)
    if run(d)[0]:
        print("declarations of", name, "fail alone:", run(d)[2][-200:]); continue
    blocks = [strip(t) for b, t in parts if b]
    ok = 0
    for i, b in enumerate(blocks):
        s = d + "\n" + b + "\n"
        # the block must not depend on declarations which come after it either way
        if len(b) > 6000: continue
        r1 = run(s)
        if r1[0] == 0 and r1[1:] == run(s)[1:]:
            res.append(("%s_%d" % (name, i), s)); ok += 1
    if len(d) > 200: res.append((name + "_decl", d + "\n"))
    print(name, len(blocks), ok, "decl", len(d))
with open("/verif/programs/corpus.txt", "w") as f:
    for i, s in res: f.write("=== " + i + "\n" + s)
print(len(res), os.path.getsize("/verif/programs/corpus.txt"))
