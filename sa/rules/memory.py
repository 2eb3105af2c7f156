"""Pointers: nothing is read or written through a pointer that is null or was released."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *

PROGRAMS = ('crashmail', 'crashmaint', 'crashexport', 'crashwrite', 'crashstats', 'crashgetnode', 'crashlist', 'crashlistout')

# external functions whose result may be null
NULLABLE = {'malloc', 'calloc', 'realloc', 'strdup', 'fopen', 'fdopen', 'opendir', 'getenv', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'readdir', 'fgets'}
# external functions and the parameters they follow
DEREF = {'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1),
         'strncmp': (0, 1), 'strncasecmp': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'memcmp': (0, 1), 'sprintf': (0, 1), 'snprintf': (0, 2),
         'fclose': (0,), 'fread': (0, 3), 'fwrite': (0, 3), 'fgetc': (0,), 'getc': (0,), 'fputc': (1,), 'putc': (1,), 'fgets': (0, 2), 'fputs': (0, 1), 'fseek': (0,), 'ftell': (0,),
         'fflush': (), 'feof': (0,), 'ferror': (0,), 'fileno': (0,), 'fprintf': (0, 1), 'vfprintf': (0, 1), 'closedir': (0,), 'readdir': (0,), 'atoi': (0,), 'atol': (0,),
         'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'opendir': (0,), 'fopen': (0, 1), 'stat': (0, 1), 'remove': (0,), 'unlink': (0,), 'rename': (0, 1), 'fscanf': (0, 1), 'sscanf': (0, 1)}
# members that are null when there is nothing: pass-through areas, nodes without packer, no nodelist
OPTIONAL = {('Area', 'Messagebase'), ('ConfigNode', 'Packer'), ('Config', 'cfg_NodelistType')}
# members that are followed everywhere without a test
REQUIRED = {('Area', 'Aka'), ('Route', 'Aka'), ('TossNode', 'ConfigNode'), ('BannedNode', 'ConfigNode'), ('Arealist', 'Node')}
SEARCH = {'strchr', 'strrchr', 'strstr', 'strpbrk'}
# not null for reasons outside the function: COPY goes to local areas only, which are never pass-through (checked
# with the configuration); rescanned messages carry the name of an area that was found in the list
GIVEN = {('Filter_Copy', ('fld', 'Area', 'Messagebase')), ('HandleRescan', ('list', 'AreaList'))}
FREES = {'free': 0, 'fclose': 0, 'closedir': 0}


def base(a):
    """the pointer that is followed by an access to address a"""
    while a and a[0] in ('fld', 'idx', 'off'):
        a = a[1]
    return a


class Null(Rule):
    """null pointers are constants; every pointer that may be null is followed in both cases"""
    correlate = False
    keep_consts = 'ptr'
    max_states = 60

    def __init__(s, root, nullable, deref):
        s.root, s.nullable, s.deref = root, nullable, deref
        s.ptrs = set()
        s.retnull = False

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1][0] in ('phi', 'ld', 'call', 'arg') and s.isptr(atom[1])

    def track_mem(s, addr, val):
        return addr[0] == 'g' and (val == C0 or val[0] == 'call')

    def transient(s, atom):
        return not (atom[1][0] == 'call' and atom[1][3] is None or atom[1][0] == 'ld' and atom[1][1][0] == 'fld' and atom[1][1][2:] in OPTIONAL)

    def isptr(s, t):
        if t[0] == 'arg':
            return s.p.m.funcs[t[1]].params[t[2]][0] == 'ptr'
        if t[0] == 'phi':
            d = s.p.defs(s.p.m.funcs[t[1]]).get(t[2])
            return d is not None and d.ty == 'ptr'
        return t[0] == 'call' or t in s.ptrs

    def use(s, eng, st, i, a, fr, what):
        b = base(a)
        k = f'{fr.fn.name}: no null pointer is followed'
        s.ctx.oblige(k, locstr(i))
        if b[0] == 'null':
            if st.truth(('nz', b)) is not True:
                s.hit.add(b[1])
            return
        if (fr.fn.name, s.origin(b)) in GIVEN:
            return
        if b == C0 or b[0] != 'c' and st.truth(('nz', b)) is False:
            eng.report(k + f'@{what}', f'a pointer that is null here is followed ({what})', st, i, fr)

    def origin(s, b):
        if b[0] == 'ld' and b[1][0] == 'fld' and b[1][3] == 'First' and b[1][1][0] == 'fld':
            return ('list', b[1][1][3])
        if b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == 'Config':
            return ('list', b[1][3])
        if b[0] == 'phi':
            for x in s.walks(b[1]):
                if x[0] == b[2]:
                    return ('list', x[1])
        return None

    def walks(s, fn):
        """(loop variable, list) of the loops over lists of the configuration"""
        f = s.p.m.funcs[fn]
        out = set()
        for b in f.blocks:
            for ph in b.phis:
                for pb, v in ph.extra:
                    for l in s.heads(f, v):
                        out.add((ph.res, l))
        return out

    def heads(s, f, v):
        d = s.p.defs(f).get(v[1]) if v[0] == 'v' else None
        if d is None or d.op != 'load':
            return ()
        return [l[2] for l in s.p.loc_of(f, d.ops[0]) if l[0] == 'F' and l[1] == 'Config']

    def on_load(s, eng, st, i, a, fr):
        s.use(eng, st, i, a, fr, 'read')
        if i.ty != 'ptr':
            return None
        v = eng.load(st, a)
        s.ptrs.add(('ld', a))
        if a[0] == 'fld' and a[2:] in OPTIONAL and (fr.fn.name, ('fld',) + a[2:]) not in GIVEN and v == ('ld', a) and st.truth(('nz', v)) is None:
            no = st.copy()
            no.facts[('nz', v)] = False
            no.env[i.res] = C0
            st.facts[('nz', v)] = True
            st.env[i.res] = v
            return [st, no]
        return None

    def on_store(s, eng, st, i, a, v, fr):
        s.use(eng, st, i, a, fr, 'write')
        if a[0] == 'fld' and a[2:] in REQUIRED:
            k = f'{fr.fn.name}: {a[2]}.{a[3]} is never null'
            s.ctx.oblige(k, locstr(i))
            if (v == C0 or v[0] != 'c' and st.truth(('nz', v)) is False) and not (s.origin(v) == ('list', 'AkaList') and v[0] == 'ld'):
                eng.report(k, 'a pointer that is followed without a test elsewhere becomes null', st, i, fr)

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and atom[1][0] == 'null' and truth:
            return False
        if atom == ('nz', GL('nodelistopen')) and truth:
            st.facts[('nz', ('ld', ('fld', ('g', 'config'), 'Config', 'cfg_NodelistType')))] = True
        if atom[0] == 'eq' and truth:
            a, b = atom[1:]
            for x, y in ((a, b), (b, a)):
                if (x == C0 or st.truth(('nz', x)) is False) and y[0] == 'arg' and s.isptr(y):
                    return False        # parameters are not null unless the function asks

    def on_call(s, eng, st, i, t, args, fr):
        for k in s.deref.get(t, ()):
            if k < len(args):
                s.use(eng, st, i, args[k], fr, f'{t} argument {k + 1}')
        if t in s.nullable and i.res:
            if t in SEARCH:
                v = ('call', t, args, None)     # asked twice: the same answer
                if st.truth(('nz', v)):
                    return [(st, v)]
                no = st.copy()
                st.facts[('nz', v)] = True
                return [(st, v), (no, C0)]
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            return [(ok, v), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None and val is not None and fr.fn.retty == 'ptr' and (val == C0 or val[0] != 'c' and st.truth(('nz', val)) is False):
            s.retnull = True


def stale(t):
    return isinstance(t, tuple) and (bool(t) and t[0] == 'stale' or any(stale(x) for x in t))


class Freed(Rule):
    """ts: ('freed', pointer)"""
    correlate = False
    keep_consts = 'ptr'
    stale_ts = True
    max_states = 60

    def __init__(s, frees, deref, narrow=False):
        s.frees, s.deref, s.narrow = frees, deref, narrow
        s.every = None

    def on_back(s, eng, st, fr):
        st.ts = frozenset(x for x in st.ts if x[1][0] == 'arg')     # the names stand for other objects in the next round

    def use(s, eng, st, i, a, fr, what):
        b = base(a)
        k = f'{fr.fn.name}: released memory and files are not used again'
        s.ctx.oblige(k, locstr(i))
        if ('freed', b) in st.ts and not stale(b) and st.truth(('nz', b)) is not False:
            eng.report(k + f'@{what}', f'a pointer that was released is used ({what})', st, i, fr)

    def on_load(s, eng, st, i, a, fr):
        if st.ts:
            s.use(eng, st, i, a, fr, 'read')

    def on_store(s, eng, st, i, a, v, fr):
        if st.ts:
            s.use(eng, st, i, a, fr, 'write')

    def on_call(s, eng, st, i, t, args, fr):
        fk = s.frees.get(t, ())
        for k in set(s.deref.get(t, ())) | set(fk):
            if k < len(args):
                s.use(eng, st, i, args[k], fr, f'{t} argument {k + 1}')
        if fk:
            add = {('freed', args[k]) for k in fk if k < len(args) and args[k][0] in ('ld', 'phi', 'call', 'arg')}
            x = eng.opaque(st, i, t, args, fr)
            x.ts = frozenset(y for y in x.ts | add if not stale(y))
            if s.narrow:
                x.ts = frozenset(y for y in x.ts if y[1][0] != 'ld')
            return [(x, x.env.get(i.res) if i.res else None)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        if val is not None and ('freed', val) in st.ts and fr.fn.retty == 'ptr':
            eng.report(f'{fr.fn.name}: released memory and files are not used again@ret', 'a pointer that was released is returned', st, i, fr)
        got = {x[1][2] for x in st.ts if x[1][0] == 'arg' and x[1][1] == fr.fn.name}
        s.every = got if s.every is None else s.every & got


class Quiet:
    """a context that swallows obligations, for computing summaries"""
    def oblige(s, *a):
        pass


def order(p):
    """functions, callees before callers"""
    out, seen = [], set()

    def go(n):
        stack = [(n, iter(sorted(p.callees.get(n, ()))))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen and y in p.m.funcs:
                    seen.add(y)
                    stack.append((y, iter(sorted(p.callees.get(y, ())))))
                    break
            else:
                stack.pop()
                out.append(x)
    for n in p.m.funcs:
        if n not in seen:
            go(n)
    return out


def fixpoint(p, step):
    """step(name) -> did its summary change?"""
    o = order(p)
    todo = list(o)
    callers = {}
    for f, cs in p.callees.items():
        for c in cs:
            callers.setdefault(c, set()).add(f)
    for _ in range(6):
        nxt = set()
        for n in todo:
            if step(n):
                nxt |= callers.get(n, set())
        todo = [n for n in o if n in nxt]
        if not todo:
            break


def summaries(p):
    """(functions whose result may be null, function -> parameters it follows without a test, function -> parameters it releases)"""
    from ..engine import Engine
    nullable, deref = set(NULLABLE), dict(DEREF)
    frees = {k: (v,) for k, v in FREES.items()}
    frees['jbFreeNode'] = (1,)
    q = Quiet()

    def s1(n):
        if p.m.funcs[n].retty != 'ptr' or n in nullable:
            return False
        r = Null(n, nullable, {})
        r.p, r.ctx = p, q
        Engine(p, r).run(n, frozenset())
        if r.retnull:
            nullable.add(n)
        return r.retnull

    def s2(n):
        f = p.m.funcs[n]
        ks = [k for k, (ty, nm) in enumerate(f.params) if ty == 'ptr' and k not in deref.get(n, ())]
        if not ks:
            return False
        r = Null(n, set(), deref)
        r.p, r.ctx = p, q
        r.hit = set()
        e = Engine(p, r)
        e.run(n, frozenset(), args=tuple(('null', k) if k in ks else ('arg', n, k) for k in range(len(f.params))))
        if r.hit:
            deref[n] = tuple(deref.get(n, ())) + tuple(sorted(r.hit))
        return bool(r.hit)

    def s3(n):
        if not any(ty == 'ptr' for ty, nm in p.m.funcs[n].params):
            return False
        if not any(c in frees for c in p.callees.get(n, ())):
            return False
        r = Freed(frees, {})
        r.p, r.ctx = p, q
        Engine(p, r).run(n, frozenset())
        new = tuple(sorted(set(frees.get(n, ())) | (r.every or set())))
        if new != tuple(frees.get(n, ())):
            frees[n] = new
            return True
        return False
    fixpoint(p, s1)
    fixpoint(p, s2)
    fixpoint(p, s3)
    return nullable, deref, frees


def shards(ctx, p, names, make, n=7):
    """the rule make() is run on every function, in several processes"""
    import multiprocessing as mp
    from .. import core
    names = list(names)

    def work(k, q):
        c = core.Ctx(ctx.tier)
        err = None
        try:
            for x in names[k::n]:
                for last in (False, True):
                    r = make()
                    r.p, r.narrow = p, last
                    try:
                        c.run(p, r, x, frozenset())
                        break
                    except AnalysisBroken:
                        if last:
                            raise
                        c.notes.append(x)
        except AnalysisBroken as e:
            err = str(e)
        q.put((c.findings, c.obligations, c.functions, c.states, c.widened, c.notes, err))
    m = mp.get_context('fork')
    q = m.Queue()
    ps = [m.Process(target=work, args=(k, q)) for k in range(n)]
    for x in ps:
        x.start()
    errs = []
    for _ in ps:
        fi, ob, fu, stt, wi, no, err = q.get()
        for k, v in fi.items():
            ctx.findings.setdefault(k, v)
        ctx.obligations.update(ob)
        ctx.functions |= fu
        ctx.states += stt
        ctx.widened |= wi
        ctx.notes += no
        if err:
            errs.append(err)
    for x in ps:
        x.join()
    if errs:
        raise AnalysisBroken(errs[0])


def pointers(ctx):
    """no pointer that may be null (failed allocation or open, end of a list, nothing found, optional member) is followed; nothing released is used again"""
    done = set()
    for pn in PROGRAMS:
        p = ctx.prog(pn)
        nullable, deref, frees = summaries(p)
        todo = [n for n, f in p.m.funcs.items() if (n, f.loc) not in done or f.loc is None]
        done |= {(n, p.m.funcs[n].loc) for n in todo}
        shards(ctx, p, todo, lambda: Null('', nullable, deref))
        shards(ctx, p, todo, lambda: Freed(frees, deref))


RULES = {'A20': ('Only memory that is there is used', [pointers])}
