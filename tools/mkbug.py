#!/usr/bin/env python3
"""mkbug.py DIR: reads DIR/edit.py (list E of (file, old, new)) and writes DIR/patch.diff against /repo HEAD."""
import os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
i = sys.argv[1]
d = V + "/seeded/" + i
KB = "/tmp/kb"
if not os.path.isdir(KB): subprocess.check_call(["cp", "-a", "/repo", KB])
sh = lambda c: subprocess.check_output(c, shell=True, text=True)
sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (KB, KB, KB))
E = runpy.run_path(sys.argv[2])["E"]
for f, o, n in E:
    p = KB + "/" + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o))
    open(p, "w").write(s.replace(o, n))
open(d + "/patch.diff", "w").write(sh("git -C %s diff" % KB))
sh("git -C %s checkout -q -- ." % KB)
