"""Run, for each planted bug, the check of its own property and those given on the command line; writes seed_results.json."""
import os, sys, glob, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
only = [a for a in sys.argv[1:] if a[0] == 'b']
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def one(d):
    n = os.path.basename(d)
    tmp = tempfile.mkdtemp(prefix='seedrun')
    try:
        copy = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=copy, check=True)
        own = json.load(open(d + '/meta.json'))['property']
        got = []
        for c in sorted({own, *(a for a in sys.argv[1:] if a[0] == 'A')}):
            env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=tmp + '/ev')
            r = subprocess.run([sys.executable, ROOT + '/check.py', c, 'quick'], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                got.append(c)
        print(n, own, got, flush=True)
        return n, got
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(4) as ex:
    res = dict(ex.map(one, [d for d in sorted(glob.glob(ROOT + '/seeded/*')) if not only or os.path.basename(d)[:3] in only]))
json.dump(res, open(HERE + '/seed_results.json', 'w'), indent=1)
