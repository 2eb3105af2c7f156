#!/usr/bin/env python3
"""dev/mkseed.py [id ...]: (re)creates /verif/seeded/<id> from dev/seeds/*.py and verifies it in a scratch copy of /repo."""
import os, sys, glob, json, shutil, subprocess, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def sh(cmd, cwd, t=300):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = 'timeout'
        return R


def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        seeds += m.SEEDS
    assert len({x['id'] for x in seeds}) == len(seeds)
    tmp = tempfile.mkdtemp(prefix='seed')
    copy = tmp + '/repo'
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        r = sh('make linux', copy)
        assert r.returncode == 0, r.stdout[-500:]
        for x in seeds:
            if want and x['id'] not in want and not any(x['id'].startswith(w) for w in want):
                continue
            d = f'{ROOT}/seeded/{x["id"]}'
            os.makedirs(d, exist_ok=True)
            shutil.copy(HERE + '/demo/cm.py', d + '/cm.py')
            open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom cm import *\n' + x['demo'] + '\nprint("ok")\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': x['property'], 'needs': x['needs'], 'what_it_breaks': x['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            sh('git checkout -q -- . ', copy)
            sh('rm -rf src/obj/*.o bin; find src -name "*.[oa]" -delete', copy)
            r = sh('make linux', copy)
            a = sh(f'bash {d}/demo.sh', copy)
            e = x['edits']
            for k in range(0, len(e), 3):
                fn, old, new = e[k:k+3]
                t = open(f'{copy}/src/{fn}', newline='', encoding='latin-1').read()
                assert t.count(old) == 1, (x['id'], fn, t.count(old), old[:60])
                open(f'{copy}/src/{fn}', 'w', newline='', encoding='latin-1').write(t.replace(old, new))
            p = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(p)
            sh('rm -rf src/obj/*.o bin; find src -name "*.[oa]" -delete', copy)
            m = sh('make linux', copy)
            b = sh(f'bash {d}/demo.sh', copy)
            env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=tmp + '/ev')
            c = subprocess.run([sys.executable, ROOT + '/check.py', x['property'], 'quick'], env=env, capture_output=True, text=True)
            fails = sh('cd tests && for p in *-test.sh; do bash ./roundup $p < /dev/null; done 2>&1 | grep -cE "(PASS)"', copy).stdout.strip()
            base_ok = a.returncode == 0 and b.returncode not in (0,) and m.returncode == 0
            print(('ok  ' if base_ok else 'BAD ') + x['id'], 'clean', a.returncode, 'patched', b.returncode, 'build', m.returncode, 'passes', fails,
                  'CAUGHT' if c.returncode == 1 else 'MISSED(%d)' % c.returncode)
            if not base_ok:
                print(a.stdout[-1500:], '----', b.stdout[-1500:])
            elif '-v' in sys.argv:
                print(b.stdout[-500:], c.stdout[-500:])
            sh('git checkout -q -- .', copy)
    finally:
        shutil.rmtree(tmp)


main()
