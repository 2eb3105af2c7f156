#!/usr/bin/env python3
"""Checker self-test: applies small source edits to a scratch copy of /repo and runs one check on it.
usage: dev/mut.py [-c] [filter]      cases live in dev/cases/*.py as CASES = [(prop, want, name, file, old, new), ...]
want: 1 = must be reported, 0 = must stay quiet (behaviour preserved)."""
import os, sys, shutil, subprocess, tempfile, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/cases/*.py')):
        sp = importlib.util.spec_from_file_location('c', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.CASES
    return out


def ALL():
    import json
    return [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]


def run(c):
    props, want, name, *ed = c
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('src', 'Makefile'):
            s = '/repo/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + '/' + x)
        for k in range(0, len(ed), 3):
            fn, a, b = ed[k:k+3]
            p = f'{d}/src/{fn}'
            t = open(p, newline='', encoding='latin-1').read()
            if t.count(a) < 1:
                return name, 'NOEDIT ' + a[:50], want, ''
            t = t.replace(a, b, 1)
            open(p, 'w', newline='', encoding='latin-1').write(t)
        res = []
        o = ''
        for prop in (ALL() if props == 'ALL' else props.split(',')):
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev')
            r = subprocess.run([sys.executable, ROOT + '/check.py', prop, 'quick'], env=env, capture_output=True, text=True)
            res.append(r.returncode)
            if r.returncode or props != 'ALL':
                o += prop + ': ' + r.stdout[-1500:] + r.stderr[-800:]
        return name, res, want, o
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    flt = sys.argv[1] if len(sys.argv) > 1 else ''
    cs = [c for c in load() if flt in c[0] + ':' + c[2]]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for c, (n, r, w, o) in zip(cs, ex.map(run, cs)):
            ok = isinstance(r, list) and (1 in r and 3 not in r if w else all(x == 0 for x in r))
            print(('ok  ' if ok else 'BAD ') + c[0] + ':' + n, r, '(want %d)' % w)
            if not ok or '-v' in sys.argv:
                bad += not ok
                print(o)
    print(len(cs), 'cases,', bad, 'unexpected')
