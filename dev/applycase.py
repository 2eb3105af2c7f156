#!/usr/bin/env python3
"""dev/applycase.py NAME DIR: scratch copy of /repo with the edit of one case applied (for debugging the checker)"""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(__file__))
import mut
c = [c for c in mut.load() if c[2] == sys.argv[1]][0]
d = sys.argv[2]
import shutil as _s; _s.rmtree(d, ignore_errors=True) if d.startswith('/tmp/') else None
os.makedirs(d)
shutil.copytree('/repo/src', d + '/src')
ed = c[3:]
for k in range(0, len(ed), 3):
    p = f'{d}/src/{ed[k]}'
    t = open(p, newline='', encoding='latin-1').read()
    assert ed[k+1] in t
    open(p, 'w', newline='', encoding='latin-1').write(t.replace(ed[k+1], ed[k+2], 1))
