"""Compile /repo's current working tree to LLVM IR, one linked module per program."""
import zlib, os, re, subprocess, sys, glob, hashlib, tempfile, shutil, pickle
from concurrent.futures import ThreadPoolExecutor
from . import names

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CLANG = os.path.join(LLVM, 'clang')
BASEFLAGS = ['-std=gnu17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-fno-builtin',
             '-fcommon', '-S', '-emit-llvm', '-w', '-Wno-error=implicit-function-declaration',
             '-Wno-error=int-conversion', '-Wno-error=implicit-int',
             '-Wno-error=incompatible-function-pointer-types']


class BuildError(Exception):
    pass


def make_flags():
    """-D flags taken from the real makefiles"""
    def get(mk):
        try:
            return open(os.path.join(REPO, 'src', mk), encoding='latin-1').read()
        except OSError as e:
            raise BuildError(str(e))
    txt = get('Makefile.linux')
    var = dict(re.findall(r'^(\w+)\s*=\s*(.*)$', txt, re.M))

    def exp(s, d=0):
        return re.sub(r'\$\((\w+)\)', lambda m: exp(var.get(m.group(1), ''), d+1) if d < 8 else '', s)
    defs = [w for w in exp(var.get('DEFS', '')).split() if w.startswith('-D')]
    if '-DPLATFORM_LINUX' not in defs:
        raise BuildError('Makefile.linux: DEFS no longer readable')
    return defs


def sources():
    s = os.path.join(REPO, 'src')
    g = lambda d: sorted(glob.glob(os.path.join(s, d, '*.c')))
    return {'crashmail': g('crashmail'), 'shared': g('shared'), 'os': g('oslib_linux'),
            'jam': g('jamlib'), 'cmnl': g('cmnllib'), 'tools': g('tools')}


def compile_all(outdir, canonical=True):
    defs = make_flags()
    src = os.path.join(REPO, 'src')
    groups = sources()
    jobs = []
    for grp, files in groups.items():
        if not files:
            raise BuildError(f'no sources for {grp}')
        for f in files:
            fl = list(BASEFLAGS)
            if grp == 'jam':
                fl += ['-D__LINUX__']
            elif grp in ('os', 'cmnl'):
                fl += ['-DPLATFORM_LINUX', '-I', src]
            else:
                fl += defs + ['-I', src]
            out = os.path.join(outdir, grp + '_' + os.path.basename(f)[:-2] + '.ll')
            jobs.append((fl, f, out))

    def run(j):
        fl, f, out = j
        rel = os.path.relpath(f, os.path.join(src, os.path.dirname(os.path.relpath(f, src))))
        r = subprocess.run([CLANG] + fl + [os.path.basename(f), '-o', out], cwd=os.path.dirname(f),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(f'{f}: {r.stdout[-800:]}')
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(run, jobs))
    keep_types_apart(outs)
    if canonical:
        names.rename(outs, names.renamed(outs))
    return dict(zip([j[1] for j in jobs], outs))


def keep_types_apart(files):
    """llvm-link merges struct types with the same layout and so loses field names: give each struct an
    empty last member of its own (structs that occur in constant initialisers keep their shape)"""
    texts = {}
    for f in files:
        with open(f, encoding='latin-1') as fh:
            texts[f] = fh.read()
    used = set()
    for t in texts.values():
        used |= set(re.findall(r'%struct\.([\w.]+) <?\{', t))
    for f, t in texts.items():
        def sub(m):
            if m.group(1) in used:
                return m.group(0)
            w = 1000 + zlib.crc32(m.group(1).encode()) % 8000000
            return f'%struct.{m.group(1)} = type {{ {m.group(2)}, [0 x i{w}] }}'
        n = re.sub(r'^%struct\.([\w.]+) = type \{ (.*) \}$', sub, t, flags=re.M)
        if n != t:
            with open(f, 'w', encoding='latin-1') as fh:
                fh.write(n)


def constants():
    """integer macros visible in crashmail.h"""
    src = os.path.join(REPO, 'src')
    inp = '#include "crashmail.h"\n#include <jamlib/jam.h>\n'
    r = subprocess.run([CLANG, '-E', '-dM', '-x', 'c', '-'] + make_flags() + ['-I', src, '-I', os.path.join(src, 'crashmail')],
                       input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       cwd=os.path.join(src, 'crashmail'))
    if r.returncode:
        raise BuildError('constants: ' + r.stderr[-500:])
    out = {}
    raw = dict(re.findall(r'^#define (\w+) (.+)$', r.stdout, re.M))
    for k, v in raw.items():
        e = re.sub(r'(?<=[0-9a-fA-F])[uUlL]+\b', '', v)
        if re.fullmatch(r'[-+()<>|&~ 0-9a-fA-Fx]+', e):
            try:
                out[k] = int(eval(e))
            except Exception:
                pass
    return out


def known_functions():
    with open(os.path.join(HERE, 'known_functions.txt')) as fh:
        return set(x.split()[0] for x in fh if x.strip() and x[0] != '#')


def link(outdir, name, lls, known):
    linked = os.path.join(outdir, name + '.linked.ll')
    # tools re-define library helpers; the real link takes the first definition
    r = subprocess.run([os.path.join(LLVM, 'llvm-link'), '-S', lls[0]] + ['--override=' + x for x in []] + lls[1:] +
                       ['-o', linked], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('link ' + name + ': ' + r.stdout[-800:])
    defs = []
    with open(linked, encoding='latin-1') as fh:
        for l in fh:
            if l.startswith('define'):
                defs.append(re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1).strip('"'))
    unknown = [d for d in defs if d not in known and d != 'main']
    final = os.path.join(outdir, name + '.ll')
    fa = []
    for u in unknown:
        fa += ['-force-attribute=' + u + ':alwaysinline']
    keep_first_members(linked, set(unknown))
    passes = 'forceattrs,always-inline,function(mem2reg)'
    r = subprocess.run([os.path.join(LLVM, 'opt'), '-S', '-passes=' + passes] + fa + [linked, '-o', final],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('opt ' + name + ': ' + r.stdout[-800:])
    restore_first_members(final)
    return final, defs, unknown


def keep_first_members(path, inlined):
    """the inliner drops the step to the first member of a struct (its address is that of the struct), and with it the
    name of the member: hide these steps in the functions that will be inlined"""
    out, used, inside = [], set(), False
    with open(path, encoding='latin-1') as fh:
        for l in fh:
            if l.startswith('define'):
                inside = re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1).strip('"') in inlined
            elif l.startswith('}'):
                inside = False
            elif inside:
                m = re.match(r'(\s*%[-\w.$"]+ = )getelementptr (?:inbounds )?%(struct\.[\w.]+), ptr ([%@][-\w.$"]+), i32 0, i32 0(,.*)?$', l.rstrip('\n'))
                if m:
                    used.add(m.group(2))
                    l = f'{m.group(1)}call ptr @"first.member.{m.group(2)}"(ptr {m.group(3)}){m.group(4) or ""}\n'
            out.append(l)
    if used:
        k = next(n for n, l in enumerate(out) if l.startswith('define'))
        out[k:k] = [f'declare ptr @"first.member.{u}"(ptr)\n' for u in sorted(used)]
        with open(path, 'w', encoding='latin-1') as fh:
            fh.writelines(out)


def restore_first_members(path):
    with open(path, encoding='latin-1') as fh:
        t = fh.read()
    if 'first.member.' in t:
        t = re.sub(r'^declare ptr @"?first\.member\..*\n', '', t, flags=re.M)
        t = re.sub(r'(?:tail )?call ptr @"?first\.member\.(struct\.[\w.]+?)"?\(ptr (.+?)\)(?=,|$| #)', r'getelementptr inbounds %\1, ptr \2, i32 0, i32 0', t, flags=re.M)
        if 'first.member.' in t:
            raise BuildError('first members')
        with open(path, 'w', encoding='latin-1') as fh:
            fh.write(t)


_cache = {}


def load(names=('crashmail',)):
    """-> {program: ir.Module}.  Modules carry .defs and .inlined (unknown helper functions)."""
    from . import ir
    tmp = tempfile.mkdtemp(prefix='vsa_')
    try:
        outs = compile_all(tmp)
        groups = sources()
        known = known_functions()
        lib = [outs[f] for g in ('shared', 'os', 'jam', 'cmnl') for f in groups[g]]
        res = {}

        def one(nm):
            if nm == 'crashmail':
                lls = [outs[f] for f in groups['crashmail']] + lib
            else:
                f = os.path.join(REPO, 'src', 'tools', nm + '.c')
                if f not in outs:
                    raise BuildError('no tool source ' + f)
                lls = [outs[f]] + lib
            final, defs, unknown = link(tmp, nm, lls, known)
            m = ir.parse(final)
            m.name = nm
            m.defs = defs
            m.inlined = unknown
            m.units = len(lls)
            return m
        for nm in names:
            res[nm] = one(nm)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def make_reference():
    """regenerate reference.json (run only on the reference tree): python3 -m sa.build"""
    import json
    from . import ir
    tmp = tempfile.mkdtemp(prefix='vsa_')
    outs = compile_all(tmp, canonical=False)
    funcs, glob = names.describe(outs.values())
    structs = {}
    for o in outs.values():
        for k, v in ir.struct_fields(ir.parse(o)).items():
            if v not in structs.setdefault(k, []):
                structs[k].append(v)
    shutil.rmtree(tmp)
    dl = lambda d: {k: sorted(v) if isinstance(v, set) else v for k, v in d.items()}
    with open(names.FILE, 'w') as fh:
        json.dump({'functions': {k: dl(funcs[k]) for k in sorted(funcs)}, 'globals': {k: dl(glob[k]) for k in sorted(glob)},
                   'structs': {k: structs[k] for k in sorted(structs)}, 'constants': constants()}, fh, indent=0, sort_keys=True)
        fh.write('\n')


if __name__ == '__main__':
    make_reference()
