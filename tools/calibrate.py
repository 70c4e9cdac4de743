#!/usr/bin/env python3
"""Run every program twice in the simulator without faults (scenario prog_cal) and drop from
programs/corpus.txt the ones which fail, are slow, or do not repeat; 'nowrap' ones are listed in programs/nowrap.txt."""
import subprocess, re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open('/tmp/cal.in', 'w').write("scenario prog_cal\nseed 1\nmode seed\nkind \nhash 14695981039346656037\nwhere \nmessage \ndrop\nend\n")
o = subprocess.run([ROOT + '/build/std/simrun', 'replay', '/tmp/cal.in'], capture_output=True, text=True, errors='replace').stdout
drop = set(); nowrap = []
for m in re.finditer(r'^CAL (\S+) (\d+) (\d) (\w+) (\w+) (\d+) \|', o, re.M):
    i, us, same, ok, w, n = m.groups()
    if int(us) > 40000 or same == '0' or ok != 'ok': drop.add(i)
    elif w != 'wrap': nowrap.append(i)
out = []; keep = True
for l in open(ROOT + '/programs/corpus.txt'):
    if l.startswith('=== '): keep = l[4:].strip() not in drop
    if keep: out.append(l)
open(ROOT + '/programs/corpus.txt', 'w').writelines(out)
open(ROOT + '/programs/nowrap.txt', 'w').write(''.join(n + '\n' for n in nowrap))
print('dropped', sorted(drop), 'nowrap', nowrap)
