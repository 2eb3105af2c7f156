"""Interprocedural, path-sensitive typestate/guard dataflow (ESP style).

A state is (rule typestate, branch facts, memory bindings, SSA environment).
States are merged at block entry when they agree on everything the rule tracks;
loops are solved by fixpoint (values that change around a loop become opaque).
Callees that can reach an event of the rule are analysed in the caller's context
and memoised; other callees only invalidate what their mod set says they write.
No path is ever executed and no solver is involved: a branch is discarded only
when the very same canonical condition was decided before and nothing it depends
on has been written since."""
from functools import lru_cache
import sys

sys.setrecursionlimit(20000)
C0 = ('c', 0)
C1 = ('c', 1)


class AnalysisBroken(Exception):
    pass


REFS = {}


# ------------------------------------------------------------------ terms
def mk_fld(base, st, k):
    return ('fld', base, st, k)


@lru_cache(maxsize=None)
def subterms_phi(t):
    """set of volatile leaves (phi ids, call sites) inside a term"""
    r = set()
    if not isinstance(t, tuple):
        return frozenset()
    if t and t[0] in ('phi', 'stale', 'opq'):
        r.add(t)
    if t and t[0] == 'call' and len(t) > 3 and t[3] is not None:
        r.add(('site', t[3]))
    for x in t:
        if isinstance(x, tuple):
            r |= subterms_phi(x)
    return frozenset(r)


EMB = set()       # struct types embedded by value
INSIDE = {}       # (struct, field) -> struct types inside it


@lru_cache(maxsize=None)
def addr_loc(a):
    """abstract location: outermost field of the chain, or the variable"""
    h = a[0]
    if h == 'fld':
        b = a[1]
        while b[0] in ('idx', 'off'):
            b = b[1]
        if b[0] == 'fld':
            return addr_loc(b)
        if b[0] == 'al':
            return ('A', b[1], b[2])
        return ('F', a[2], a[3])
    if h == 'idx' or h == 'off':
        return addr_loc(a[1])
    if h == 'g':
        return ('G', a[1])
    if h == 'al':
        return ('A', a[1], a[2])
    if h == 's':
        return ('S',)
    return ('D',)


@lru_cache(maxsize=None)
def addr_deps(a):
    """everything whose modification may change a load from a"""
    r = {addr_loc(a), ('R', addr_root(a))}
    b = a
    inner = False
    while b[0] in ('fld', 'idx', 'off'):
        if b[0] == 'fld':
            c = b[1]
            while c[0] in ('idx', 'off'):
                c = c[1]
            if c[0] in ('fld', 'al', 'g'):
                if b[2] in EMB:
                    r.add(('N', b[2], b[3]))
            elif b[2] in EMB:
                r.add(('U', b[2]))
        b = b[1]
    return frozenset(r)


@lru_cache(maxsize=None)
def addr_root(a):
    while a[0] in ('fld', 'idx', 'off'):
        a = a[1]
    return a


@lru_cache(maxsize=None)
def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max((depth(x) for x in t), default=0)


@lru_cache(maxsize=None)
def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t if isinstance(y, tuple))


def subst(t, f):
    if not isinstance(t, tuple):
        return t
    r = f(t)
    if r is not None:
        return r
    return tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)


def is_pow2(n):
    return n > 0 and (n & (n-1)) == 0


def norm_cond(t, truth):
    """condition term + wanted truth -> (atom, truth); atoms: ('nz',x) ('eq',a,c) ('lt',a,b)/( 'ult',..)"""
    while True:
        if t[0] == 'c':
            return None, (t[1] != 0) == truth
        if t[0] == 'cmp':
            p, a, b = t[1], t[2], t[3]
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
                p = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
                     'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                M = (1 << 64)-1
                v = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y,
                     'ult': (x & M) < (y & M), 'ugt': (x & M) > (y & M), 'ule': (x & M) <= (y & M),
                     'uge': (x & M) >= (y & M)}.get(p)
                if v is not None:
                    return None, v == truth
            if p == 'ne':
                p = 'eq'
                truth = not truth
            if p == 'eq':
                if b == C0:
                    truth = not truth
                    t = a
                    if t[0] in ('cmp', 'bin'):
                        continue
                    return ('nz', t), truth
                if b[0] == 'c' and a[0] == 'bin' and a[1] == 'and' and a[3] == b and is_pow2(b[1]):
                    return ('nz', a), truth
                if b == C1 and a[0] == 'cmp':
                    t = a
                    continue
                if b[0] != 'c' and repr(a) > repr(b):
                    a, b = b, a
                return ('eq', a, b), truth
            if p in ('sgt', 'ugt'):
                return ('lt', p[0], b, a), truth
            if p in ('sge', 'uge'):
                return ('lt', p[0], a, b), not truth
            if p in ('sle', 'ule'):
                return ('lt', p[0], b, a), not truth
            if p in ('slt', 'ult'):
                return ('lt', p[0], a, b), truth
            return ('nz', t), truth
        if t[0] == 'bin' and t[1] == 'xor' and t[3] in (C1, ('c', -1)) and t[2][0] == 'cmp':
            t = t[2]
            truth = not truth
            continue
        return ('nz', t), truth


def canon_lt(atom):
    """x <s 1 is not an nz fact, but x <u 1 is"""
    if atom and atom[0] == 'lt' and atom[1] == 'u':
        if atom[3] == C1:
            return ('nz', atom[2]), True      # negated
        if atom[2] == C0:
            return ('nz', atom[3]), False
    return atom, False


class State:
    __slots__ = ('env', 'mem', 'facts', 'ts', 'trace')

    def __init__(s, env, mem, facts, ts, trace):
        s.env = env; s.mem = mem; s.facts = facts; s.ts = ts; s.trace = trace

    def copy(s):
        return State(dict(s.env), dict(s.mem), dict(s.facts), s.ts, s.trace)

    def key(s):
        return (s.ts, frozenset(s.facts.items()), frozenset(s.mem.items()), frozenset(s.env.items()))

    # ---- queries
    def truth(s, term_or_atom):
        """three-valued truth of a condition atom/term under the facts"""
        t = term_or_atom
        if t[0] in ('nz', 'eq', 'lt'):
            atom, want = t, True
        else:
            atom, want = norm_cond(t, True)
            if atom is None:
                return want
        a2, neg = canon_lt(atom)
        if neg:
            want = not want
        atom = a2
        v = s.lookup(atom)
        if v is None:
            return None
        return v == want

    def lookup(s, atom):
        f = s.facts
        if atom in f:
            return f[atom]
        if atom[0] == 'nz':
            x = atom[1]
            if x[0] == 'c':
                return x[1] != 0
            if x[0] in ('al', 'g', 's'):
                return True
            if x[0] in ('fld', 'idx', 'off') and addr_root(x)[0] in ('al', 'g', 's'):
                return True
            for a, v in f.items():
                if a[0] == 'eq' and v and a[1] == x and a[2][0] == 'c':
                    return a[2][1] != 0
            if x[0] == 'bin' and x[1] == 'and' and x[3][0] == 'c':
                m = x[3][1]
                for a, v in f.items():
                    if a[0] == 'nz' and a[1][0] == 'bin' and a[1][1] == 'and' and a[1][2] == x[2] and a[1][3][0] == 'c':
                        m2 = a[1][3][1]
                        if not v and (m & ~m2) == 0:
                            return False
                        if v and (m2 & ~m) == 0:
                            return True
                if f.get(('nz', x[2])) is False:
                    return False
                for a, v in f.items():
                    if a[0] == 'eq' and v and a[1] == x[2] and a[2][0] == 'c':
                        return (a[2][1] & m) != 0
            if x[0] == 'bin' and x[1] == 'or':
                p, q = s.lookup(('nz', x[2])), s.lookup(('nz', x[3]))
                if p or q:
                    return True
                if p is False and q is False:
                    return False
            if x[0] == 'cmp':
                at, w = norm_cond(x, True)
                if at is None:
                    return w
                v = s.lookup(at) if at != atom else None
                return None if v is None else v == w
        elif atom[0] == 'eq':
            x, c = atom[1], atom[2]
            if x == c:
                return True
            if c[0] == 'c':
                for a, v in f.items():
                    if a[0] == 'eq' and v and a[1] == x and a[2][0] == 'c' and a[2] != c:
                        return False
                if c[1] != 0 and f.get(('nz', x)) is False:
                    return False
        return None


class Rule:
    """Override what is needed.  Hooks return lists of (state, resultterm-or-None) or None for default."""
    name = 'rule'
    correlate = True
    stale_ts = False        # ts is a frozenset whose terms follow the same renaming as registers
    max_states = 48
    split_bools = True      # a condition stored in a variable is decided where it is computed
    count_loops = False     # values of loop counters are told apart
    keep_consts = True      # states that differ in a constant held in a register are kept apart
    max_depth = 40

    def joinextra(s, st):
        """anything else that keeps states apart"""
        return None

    def interesting(s, eng):
        """names of functions to descend into"""
        return set()

    def track(s, atom, st):
        return False

    def transient(s, atom):
        """a tracked fact that is only of use while a live register holds its subject"""
        return False

    def track_mem(s, addr, val):
        return False

    def on_call(s, eng, st, inst, callee, args, fr):
        return None

    def on_store(s, eng, st, inst, addr, val, fr):
        return None

    def on_load(s, eng, st, inst, addr, fr):
        return None

    def on_ret(s, eng, st, inst, val, fr):
        return None

    def on_back(s, eng, st, fr):
        """the edge back to the head of a loop"""

    def on_enter(s, eng, st, fn, args):
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        return None


class Frame:
    __slots__ = ('fn', 'args', 'caller', 'depth', 'inst')

    def __init__(s, fn, args, caller, inst=None):
        s.fn = fn; s.args = args; s.caller = caller; s.inst = inst
        s.depth = 0 if caller is None else caller.depth+1

    def stack(s):
        r = []
        x = s
        while x:
            r.append(x.fn.name)
            x = x.caller
        return list(reversed(r))


class Engine:
    def __init__(s, prog, rule):
        s.p = prog
        s.m = prog.m
        s.rule = rule
        s.memo = {}
        s._kl = {}
        s.active = []
        s.reports = {}
        s._counters = {}
        s.stats = {'functions': set(), 'states': 0, 'calls': 0, 'merges': 0, 'widened': set()}
        s._tested = {}
        s._reach = {}
        s.atom_shapes = {}
        REFS.clear(); REFS.update(prog.refs)
        EMB.clear(); EMB.update(prog.embedded()); INSIDE.clear(); INSIDE.update(prog.inside)
        for c in (tdeps, addr_deps, alldeps):
            c.cache_clear()
        s.descend = rule.interesting(s)

    def report(s, key, msg, st, inst, fr):
        if key in s.reports:
            return
        tr = []
        t = st.trace
        while t and len(tr) < 60:
            tr.append(t[0])
            t = t[1]
        s.reports[key] = {'key': key, 'msg': msg, 'at': locstr(inst), 'stack': fr.stack() if fr else [],
                          'path': list(reversed(tr))}

    # ------------------------------------------------ values
    def val(s, st, v, fr):
        k = v[0]
        if k == 'v':
            return st.env.get(v[1]) or ('opq', fr.fn.name, v[1])
        if k == 'c':
            return v
        if k == 'g':
            str_ = s.p.string(v[1])
            if str_ is not None:
                return ('s', str_)
            return ('g', v[1])
        if k == 'gep':
            return s.gep(v[1], s.val(st, v[2], fr), [s.val(st, x, fr) for x in v[3]])
        if k == 'undef':
            return ('undef',)
        if k == 'fc':
            return ('fc', v[1])
        return ('opq', 'const', repr(v)[:40])

    def gep(s, bt, base, idx):
        t = base
        ty = bt
        if idx[0] != C0:
            t = ('idx', t, idx[0])
        for v in idx[1:]:
            if isinstance(ty, tuple) and ty[0] == 'named':
                kk = v[1]
                t = mk_fld(t, ty[1][7:], s.m.fname(ty[1], kk))
                ty = s.m.types[ty[1]][kk]
            elif isinstance(ty, tuple) and ty[0] == 'arr':
                if v != C0:
                    t = ('idx', t, v)
                ty = ty[2]
            elif isinstance(ty, tuple) and ty[0] == 'st':
                t = mk_fld(t, 'anon', v[1])
                ty = ty[1][v[1]]
        if t[0] == 'idx' and t[1][0] == 'idx' and t[1][2][0] == 'c' and t[2][0] == 'c':
            t = ('idx', t[1][1], ('c', t[1][2][1] + t[2][1]))
        return t

    def clip(s, t, inst, fr):
        if depth(t) > 14:
            return ('opq', fr.fn.name, inst.res)
        return t

    # ------------------------------------------------ kills
    def stale(s, st, want):
        """replace every load (or dependent pure call) that depends on something in want"""
        cache = {}

        def f(t):
            if t and t[0] == 'ld' and not want.isdisjoint(tdeps(t)):
                return ('stale', t[1])
            if t and t[0] == 'call' and len(t) > 3 and t[3] is None and not want.isdisjoint(tdeps(t)):
                return ('stale', ('call', t[1]))
            return None

        def sub(t):
            r = cache.get(t)
            if r is None:
                r = cache[t] = subst(t, f)
            return r

        def needs(t):
            return not want.isdisjoint(alldeps(t))
        for k, v in st.env.items():
            if needs(v):
                st.env[k] = sub(v)
        for k, v in list(st.mem.items()):
            if needs(k):
                del st.mem[k]
            elif needs(v):
                st.mem[k] = sub(v)
        for a, v in list(st.facts.items()):
            if needs(a):
                del st.facts[a]
                na = sub(a)
                # keep facts on values still held in registers
                if any(contains(x, na[1]) for x in st.env.values()):
                    st.facts[na] = v
        if s.rule.stale_ts:
            if any(needs(x) for x in st.ts if isinstance(x, tuple)):
                st.ts = frozenset(sub(x) if isinstance(x, tuple) else x for x in st.ts)
        elif isinstance(st.ts, tuple) and needs(st.ts):
            st.ts = sub(st.ts)

    def kill_all(s, st, kl):
        """kl: set of (location, root or None) that may have been written"""
        locs = {l for l, r in kl}
        roots = {r for l, r in kl if r is not None}
        want = set(locs)
        for loc in locs:
            if loc[0] == 'F':
                if loc[1] in EMB:
                    want.add(('N', loc[1], loc[2]))
                for x in INSIDE.get((loc[1], loc[2]), ()):
                    want.add(('U', x))
        want |= {('R', r) for r in roots}
        for k in list(st.mem):
            if addr_loc(k) in locs or addr_root(k) in roots:
                del st.mem[k]
        s.stale(st, want)

    def kill_loc(s, st, loc, root=None):
        s.kill_all(st, {(loc, root)})

    def kill_call(s, st, name, args):
        key = (name, args)
        kl = s._kl.get(key)
        if kl is None:
            kl = s._kl[key] = frozenset(s.kill_list(name, args))
        if kl:
            s.kill_all(st, kl)

    def kill_list(s, name, args):
        mods = s.p.mods.get(name)
        if mods is None:
            from .prog import EXT_WRITES
            for k in EXT_WRITES.get(name) or ():
                if k < len(args):
                    yield from s.ptr_locs(args[k])
            return
        for l in mods:
            if l[0] == 'P':
                if l[1] < len(args):
                    yield from s.ptr_locs(args[l[1]])
            elif l[0] == 'PS':
                if l[1] < len(args):
                    a = args[l[1]]
                    if a[0] in ('fld', 'idx', 'al', 'g'):
                        yield from s.ptr_locs(a)
                    else:
                        yield (('F', l[2], l[3]), a)
            elif l[0] in ('F', 'G', 'D'):
                yield (l, None)

    def ptr_locs(s, a):
        if a[0] in ('c', 's', 'undef'):
            return
        root = addr_root(a)
        if a[0] in ('al',) or (a[0] in ('ld', 'call', 'arg', 'phi', 'opq', 'stale')):
            yield (addr_loc(a), root)
        else:
            yield (addr_loc(a), None)

    def kill_site(s, st, sid):
        """a call site / phi is re-evaluated: older facts about its previous value no longer apply"""
        def gone(t):
            return sid in subterms_phi(t) if isinstance(t, tuple) else False

        def f(t):
            if sid[0] == 'site':
                if t and t[0] == 'call' and len(t) > 3 and t[3] == sid[1]:
                    return ('stale', sid[1])
            elif t == sid:
                return ('stale', sid[1:])
            return None
        for k, v in list(st.env.items()):
            if gone(v):
                st.env[k] = subst(v, f)
        for k, v in list(st.mem.items()):
            if gone(k):
                del st.mem[k]
            elif gone(v):
                st.mem[k] = subst(v, f)
        for a in [a for a in st.facts if gone(a)]:
            v = st.facts.pop(a)
            na = subst(a, f)
            if any(contains(x, na[1]) for x in st.env.values()):
                st.facts[na] = v
        if s.rule.stale_ts:
            if any(gone(x) for x in st.ts):
                st.ts = frozenset(subst(x, f) for x in st.ts)
        elif gone(st.ts):
            st.ts = subst(st.ts, f)

    # ------------------------------------------------ facts
    def assume(s, st, cond, truth, inst, fr):
        """returns False if infeasible"""
        if cond[0] == 'undef':
            return True
        # boolean and/or built from selects or bit ops on comparisons
        if cond[0] == 'bin' and cond[1] == 'and' and cond[2][0] in ('cmp', 'bin') and cond[3][0] == 'cmp' and truth:
            return s.assume(st, cond[2], True, inst, fr) and s.assume(st, cond[3], True, inst, fr)
        if cond[0] == 'bin' and cond[1] == 'or' and cond[2][0] in ('cmp', 'bin') and cond[3][0] == 'cmp' and not truth:
            return s.assume(st, cond[2], False, inst, fr) and s.assume(st, cond[3], False, inst, fr)
        atom, w = norm_cond(cond, truth)
        if atom is None:
            return w
        a2, neg = canon_lt(atom)
        if neg:
            w = not w
        atom = a2
        if atom[0] == 'nz' and atom[1][0] == 'cmp':
            return s.assume(st, atom[1], w, inst, fr)
        v = st.lookup(atom)
        if v is not None:
            return v == w
        r = s.rule.on_branch(s, st, inst, atom, w, fr)
        if r is False:
            return False
        if s.rule.track(atom, st):
            st.facts[atom] = w
        elif s.rule.correlate and inst is not None:
            sh = s.tested(fr.fn)[0].get(inst.id)
            if sh:
                st.facts[atom] = w
                k = (fr.fn.name, atom)
                s.atom_shapes[k] = s.atom_shapes.get(k, frozenset()) | sh
        return True

    def counters(s, f):
        """registers of additions that are fed back into themselves"""
        c = s._counters.get(f.name)
        if c is None:
            use = {}
            for b in f.blocks:
                for i in list(b.phis) + b.insts:
                    if i.op == 'phi' or i.op == 'cast' or i.op == 'bin' and i.extra in ('add', 'sub'):
                        src = [v for _, v in i.extra] if i.op == 'phi' else i.ops
                        for v in src:
                            if v[0] == 'v':
                                use.setdefault(v[1], []).append(i)
            c = set()
            for b in f.blocks:
                for i in b.insts:
                    if i.op == 'bin' and i.extra in ('add', 'sub'):
                        seen, todo = set(), [i.res]
                        while todo:
                            r = todo.pop()
                            for u in use.get(r, ()):
                                if u.res not in seen:
                                    seen.add(u.res)
                                    todo.append(u.res)
                        if i.res in seen:
                            c.add(i.res)
            s._counters[f.name] = c
        return c

    def tested(s, f):
        """(branch id -> shapes it shares with another branch, block -> shapes tested from there on)"""
        if f.name not in s._tested:
            from collections import Counter
            shapes = {}
            cnt = Counter()
            gen = {}
            for b in f.blocks:
                t = b.insts[-1]
                gen[b.name] = set()
                if t.op in ('br', 'switch') and t.ops:
                    sh = frozenset(s.shape(f, t.ops[0], 0))
                    shapes[t.id] = sh
                    gen[b.name] = set(sh)
                    for x in sh:
                        cnt[x] += 1
            common = {i: frozenset(x for x in sh if cnt[x] > 1) for i, sh in shapes.items()}
            reach = {b.name: set(gen[b.name]) for b in f.blocks}
            ch = True
            while ch:
                ch = False
                for b in reversed(f.blocks):
                    n = len(reach[b.name])
                    for x in b.succs:
                        reach[b.name] |= reach[x]
                    if len(reach[b.name]) != n:
                        ch = True
            s._tested[f.name] = (common, reach)
        return s._tested[f.name]

    def shape(s, f, v, d):
        """static identity of the things a condition looks at (SSA names, load addresses)"""
        if v[0] != 'v' or d > 6:
            return []
        i = s.p.defs(f).get(v[1])
        if i is None:
            return [('v', v[1])]
        if i.op == 'icmp':
            return s.shape(f, i.ops[0], d+1) + s.shape(f, i.ops[1], d+1)
        if i.op == 'cast':
            return s.shape(f, i.ops[0], d+1)
        if i.op == 'bin':
            return s.shape(f, i.ops[0], d+1) + s.shape(f, i.ops[1], d+1)
        if i.op == 'load':
            return [('l', s.addrshape(f, i.ops[0], 0))]
        if i.op == 'call':
            nm = i.extra[0]
            if nm[0] == 'g' and nm[1] in s.p.pure:
                r = [('pc', nm[1], tuple(s.addrshape(f, o, 0) for o in i.ops))]
                return r
        return [('v', v[1])]

    def addrshape(s, f, v, d):
        if v[0] != 'v' or d > 8:
            return v if v[0] != 'gep' else ('gepc', repr(v))
        i = s.p.defs(f).get(v[1])
        if i is None or i.op in ('alloca', 'phi', 'call'):
            return v
        if i.op == 'gep':
            return ('gep', s.addrshape(f, i.ops[0], d+1), i.ty) + tuple(
                s.addrshape(f, o, d+1) for o in i.ops[1:])
        if i.op == 'load':
            return ('ld', s.addrshape(f, i.ops[0], d+1))
        if i.op == 'cast':
            return s.addrshape(f, i.ops[0], d+1)
        return v

    # ------------------------------------------------ running
    def run(s, fname, ts, args=None, facts=None, mem=None):
        f = s.m.funcs.get(fname)
        if f is None:
            raise AnalysisBroken(f'function {fname} not found')
        if args is None:
            args = tuple(('arg', fname, i) for i in range(len(f.params)))
        st = State({}, dict(mem or {}), dict(facts or {}), ts, None)
        return s.call(f, args, st, None, None)

    def call(s, f, args, st, caller, inst):
        key = (f.name, args, st.ts, frozenset(st.facts.items()), frozenset(st.mem.items()))
        if key in s.memo:
            s.stats['merges'] += 1
            return [(x.copy(), r) for x, r in s.memo[key]]
        if any(a == f.name for a in s.active) or len(s.active) > s.rule.max_depth:
            n = st.copy()
            s.kill_call(n, f.name, args)
            return [(n, ('opq', 'rec', f.name))]
        s.stats['calls'] += 1
        s.stats['functions'].add(f.name)
        s.active.append(f.name)
        fr = Frame(f, args, caller, inst)
        base = State({}, dict(st.mem), dict(st.facts), st.ts, st.trace)
        r = s.rule.on_enter(s, base, f, args)
        for (t, n), a in zip(f.params, args):
            base.env[n] = a
        exits = s.solve(f, base, fr)
        s.active.pop()
        s.memo[key] = exits
        return [(x.copy(), r) for x, r in exits]

    def solve(s, f, st0, fr):
        live = s.p.livein(f)
        seen = {b.name: {} for b in f.blocks}
        work = []
        exits = {}
        level = {}
        pending = {}
        order = {b.name: k for k, b in enumerate(rpo(f))}
        import heapq
        cnt = 0

        ptrs = {i.res for b in f.blocks for i in list(b.phis) + b.insts if i.ty == 'ptr'} if s.rule.keep_consts == 'ptr' else ()

        def push(bn, st):
            nonlocal cnt
            lv = live[bn]
            st.env = {k: v for k, v in st.env.items() if k in lv}
            s.prune_facts(st, f, bn)
            d = seen[bn]
            lim = s.rule.max_states
            lev = level.get(bn, 0)
            k = s.joinkey(st, lev, ptrs)
            if k not in d and len(d) >= lim:
                if lev == 2:
                    raise AnalysisBroken(f'state explosion in {f.name} block {bn}')
                # coarsen: re-key everything seen here
                level[bn] = lev = lev + 1
                s.stats['widened'].add(f'{f.name}:{bn}')
                nd = {}
                for o in d.values():
                    kk = s.joinkey(o, lev, ptrs)
                    nd[kk] = o if kk not in nd else s.join(nd[kk], o, f)[0]
                d.clear()
                d.update(nd)
                for kk, o in d.items():
                    cnt += 1
                    pending[(bn, id(o))] = 1
                    heapq.heappush(work, (order.get(bn, 0), cnt, bn, kk, o))
                k = s.joinkey(st, lev, ptrs)
            if k in d:
                j, changed = s.join(d[k], st, f)
                if not changed:
                    s.stats['merges'] += 1
                    return
                st = j
            d[k] = st
            s.stats['states'] += 1
            cnt += 1
            heapq.heappush(work, (order.get(bn, 0), cnt, bn, k, st))
        push(f.blocks[0].name, st0.copy())
        while work:
            _, _, bn, kk, st = heapq.heappop(work)
            if seen[bn].get(kk) is not st:
                continue              # superseded by a join
            b = f.bymap[bn]
            sts = [st.copy()]
            for inst in b.insts[:-1]:
                nxt = []
                for x in sts:
                    r = s.step(x, inst, fr)
                    nxt.extend(r)
                sts = nxt
                if not sts:
                    break
            t = b.insts[-1]
            for x in sts:
                if t.op == 'ret':
                    v = s.val(x, t.ops[0], fr) if t.ops else None
                    if v is not None and v[0] not in ('c',) and x.facts:
                        pass
                    s.rule.on_ret(s, x, t, v, fr)
                    x.env = {}
                    x.mem = {k: w for k, w in x.mem.items() if addr_root(k)[:2] != ('al', f.name)}
                    s.prune_exit(x, f, v)
                    k = (x.key(), v)
                    if k not in exits:
                        exits[k] = (x, v)
                elif t.op == 'br':
                    if not t.ops:
                        for y in s.decide(x, b, f.bymap[t.extra[0]], fr):
                            s.edge(y, b, f.bymap[t.extra[0]], fr, push)
                    else:
                        c = s.val(x, t.ops[0], fr)
                        for k, tgt in enumerate(t.extra):
                            y = x.copy()
                            if s.assume(y, c, k == 0, t, fr):
                                if t.loc:
                                    y.trace = ((locstr(t), k == 0), y.trace)
                                s.edge(y, b, f.bymap[tgt], fr, push)
                elif t.op == 'switch':
                    v = s.val(x, t.ops[0], fr)
                    dflt, cases = t.extra
                    bad = False
                    y0 = x.copy()
                    for cv, tgt in cases:
                        y = x.copy()
                        if s.assume(y, ('cmp', 'eq', v, ('c', cv)), True, t, fr):
                            if t.loc:
                                y.trace = ((locstr(t), cv), y.trace)
                            s.edge(y, b, f.bymap[tgt], fr, push)
                        if not s.assume(y0, ('cmp', 'eq', v, ('c', cv)), False, t, fr):
                            bad = True
                    if not bad:
                        s.edge(y0, b, f.bymap[dflt], fr, push)
                # unreachable: drop
        return list(exits.values())

    def decide(s, st, b, to, fr):
        """a condition that is merged with others is decided before"""
        if not s.rule.split_bools or s.rule.keep_consts is not True:
            return [st]
        for i in to.phis:
            if i.ty != 'i1':
                continue
            for bl, v in i.extra:
                if bl == b.name and v[0] == 'v' and st.env.get(v[1], C0)[0] == 'cmp':
                    out = []
                    for k in (1, 0):
                        y = st.copy()
                        if s.assume(y, st.env[v[1]], k == 1, b.insts[-1], fr):
                            y.env[v[1]] = ('c', k)
                            out.append(y)
                    return out
        return [st]

    def joinkey(s, st, lev, ptrs=()):
        if lev >= 2:
            return (st.ts,)
        tf = frozenset((a, v) for a, v in st.facts.items() if s.rule.track(a, st))
        if lev == 1 or not s.rule.keep_consts:
            return (st.ts, tf)
        if s.rule.keep_consts == 'ptr':
            ce = frozenset((k, v) for k, v in st.env.items() if v[0] == 'c' and k in ptrs)
        else:
            ce = frozenset((k, v) for k, v in st.env.items() if v[0] == 'c')
        cm = frozenset((k, v) for k, v in st.mem.items() if v[0] == 'c' or s.rule.track_mem(k, v))
        return (st.ts, tf, ce, cm, s.rule.joinextra(st))

    def join(s, a, b, f):
        """agreeing parts of two states; (state, changed relative to a)"""
        changed = False
        conf = []
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w == v:
                env[k] = v
            else:
                leaf = ('phi', f.name, k)
                env[k] = leaf
                conf.append(leaf)
                if v != leaf:
                    changed = True
        for k in b.env:
            if k not in env:
                env[k] = b.env[k]
                changed = True
        facts = {x: v for x, v in a.facts.items() if b.facts.get(x) == v}
        mem = {x: v for x, v in a.mem.items() if b.mem.get(x) == v}
        if len(facts) != len(a.facts) or len(mem) != len(a.mem):
            changed = True
        st = State(env, mem, facts, a.ts, a.trace)
        if conf:
            cs = set(conf)
            for x in [x for x in facts if subterms_phi(x) & cs]:
                del facts[x]
                changed = True
            for x in [x for x, v in mem.items() if (subterms_phi(x) | subterms_phi(v)) & cs]:
                del mem[x]
                changed = True
        return st, changed

    def prune_facts(s, st, f, bn):
        """drop untracked facts whose subject is dead or never tested again"""
        if not st.facts:
            return
        live_leaves = None
        reach = s.tested(f)[1][bn]
        for a in list(st.facts):
            if s.rule.track(a, st):
                if s.rule.transient(a) and not any(contains(v, a[1]) for v in st.env.values()):
                    del st.facts[a]
                continue
            sh = s.atom_shapes.get((f.name, a))
            if sh is not None and not (sh & reach):
                del st.facts[a]
                continue
            lv = subterms_phi(a)
            if lv:
                if live_leaves is None:
                    live_leaves = set()
                    for v in st.env.values():
                        live_leaves |= subterms_phi(v)
                if not (lv <= live_leaves) and mentions_local(a, f.name):
                    del st.facts[a]

    def prune_exit(s, st, f, ret):
        keep = {}
        for a, v in st.facts.items():
            if s.rule.track(a, st) or (ret is not None and contains(ret, a[1])):
                keep[a] = v
            elif s.active and len(s.active) > 1 and not mentions_local(a, f.name):
                keep[a] = v
        st.facts = keep

    def edge(s, st, frm, to, fr, push):
        if is_back(fr.fn, frm.name, to.name):
            s.back = (frm, to)
            s.rule.on_back(s, st, fr)
        if to.phis:
            new = {}
            for ph in to.phis:
                for (pb, v) in ph.extra:
                    if pb == frm.name:
                        new[ph.res] = (ph, s.val(st, v, fr))
                        break
            for name, (ph, t) in new.items():
                pid = ('phi', fr.fn.name, name)
                # a value that refers to its own previous binding is loop-carried
                if contains(t, pid) or depth(t) > 12:
                    new[name] = (ph, None)
                elif is_back(fr.fn, frm.name, to.name):
                    lit = any(pb == frm.name and v[0] == 'c' for pb, v in ph.extra)
                    old = st.env.get(name)
                    if old is not None and old != t and old[0] != 'c' and contains(t, old):
                        new[name] = (ph, None)
                    elif t[0] in ('ld', 'stale') and isinstance(t[1], tuple) and t[1][0] == 'fld' and t[1][3] == 'Next':
                        new[name] = (ph, None)       # list cursor
                    elif t[0] in ('bin', 'idx') or (t[0] == 'c' and not lit and t[1] not in (0, 1)):
                        new[name] = (ph, None)
            for name, (ph, t) in new.items():
                pid = ('phi', fr.fn.name, name)
                if t is None:
                    s.kill_site(st, pid)
            for name, (ph, t) in new.items():
                if t is None:
                    t = ('phi', fr.fn.name, name)
                else:
                    # the term may name the previous value of something killed just above
                    for n2, (p2, t2) in new.items():
                        pid = ('phi', fr.fn.name, n2)
                        if t2 is None and contains(t, pid):
                            t = subst(t, lambda x: ('stale', pid[1:]) if x == pid else None)
                st.env[name] = t
        push(to.name, st)

    def step(s, st, i, fr):
        op = i.op
        if op == 'alloca':
            st.env[i.res] = ('al', fr.fn.name, i.res)
            return [st]
        if op == 'load':
            a = s.val(st, i.ops[0], fr)
            r = s.rule.on_load(s, st, i, a, fr)
            if r is not None:
                return r
            st.env[i.res] = s.load(st, a)
            return [st]
        if op == 'store':
            v = s.val(st, i.ops[0], fr)
            a = s.val(st, i.ops[1], fr)
            r = s.rule.on_store(s, st, i, a, v, fr)
            if r is not None:
                return r
            s.do_store(st, a, v)
            return [st]
        if op == 'gep':
            base = s.val(st, i.ops[0], fr)
            st.env[i.res] = s.clip(s.gep(i.ty, base, [s.val(st, x, fr) for x in i.ops[1:]]), i, fr)
            return [st]
        if op == 'bin':
            a = s.val(st, i.ops[0], fr)
            b = s.val(st, i.ops[1], fr)
            v = s.clip(binop(i.extra, a, b), i, fr)
            if v[0] == 'c' and i.extra in ('add', 'sub') and not s.rule.count_loops and i.res in s.counters(fr.fn):
                v = ('opq', fr.fn.name, i.res)      # a loop counter: its values are not told apart
            st.env[i.res] = v
            return [st]
        if op == 'icmp':
            a = s.val(st, i.ops[0], fr)
            b = s.val(st, i.ops[1], fr)
            st.env[i.res] = s.clip(('cmp', i.extra, a, b), i, fr)
            return [st]
        if op == 'cast':
            v = s.val(st, i.ops[0], fr)
            if i.extra[0] == 'trunc' and v[0] == 'c':
                w = int(i.ty[1:])
                v = ('c', (v[1] + (1 << (w-1))) % (1 << w) - (1 << (w-1)))
            if i.extra[0] == 'trunc' and i.ty == 'i1':
                v = ('cmp', 'ne', v, C0)
            if i.extra[0] == 'zext' and (v[0] == 'cmp' or v[0] == 'bin' and v[1] == 'xor' and v[2][0] == 'cmp') and s.rule.split_bools and s.rule.keep_consts is True and i.ty != 'i1':
                # a condition kept in a variable: both cases are followed
                out = []
                for k in (1, 0):
                    y = st.copy()
                    if s.assume(y, v, k == 1, None, fr):
                        y.env[i.res] = ('c', k)
                        if i.ops[0][0] == 'v' and v[0] == 'cmp':
                            y.env[i.ops[0][1]] = ('c', k)       # decided for every other use as well
                        out.append(y)
                return out
            st.env[i.res] = v
            return [st]
        if op == 'select':
            c = s.val(st, i.ops[0], fr)
            out = []
            for k in (1, 2):
                y = st.copy()
                if s.assume(y, c, k == 1, None, fr):
                    if i.ops[0][0] == 'v' and c[0] == 'cmp':
                        y.env[i.ops[0][1]] = ('c', 2 - k)
                    y.env[i.res] = s.val(y, i.ops[k], fr)
                    out.append(y)
            return out
        if op == 'call':
            return s.do_call(st, i, fr)
        if i.res:
            st.env[i.res] = ('opq', fr.fn.name, i.res)
        return [st]

    def load(s, st, a):
        if a in st.mem:
            return st.mem[a]
        if a[0] == 's':
            return ('c', ord(a[1][0])) if a[1] else C0
        if a[0] == 'idx' and a[1][0] == 's' and a[2][0] == 'c' and 0 <= a[2][1] <= len(a[1][1]):
            k = a[2][1]
            return ('c', ord(a[1][1][k]) if k < len(a[1][1]) else 0)
        return ('ld', a)

    def do_store(s, st, a, v):
        loc = addr_loc(a)
        old = st.mem.get(a)
        s.kill_loc(st, loc)
        if s.rule.track_mem(a, v) or (a[0] == 'al'):
            if not (isinstance(v, tuple) and contains(v, a) and v[0] == 'ld'):
                if depth(v) < 12:
                    st.mem[a] = v

    def do_call(s, st, i, fr):
        c = i.extra[0]
        args = tuple(s.val(st, x, fr) for x in i.ops)
        if c[0] == 'g':
            targets = [c[1]]
        else:
            cv = s.val(st, c, fr)
            if cv[0] == 'g' and cv[1] in s.m.funcs:
                targets = [cv[1]]
            else:
                targets = sorted(s.p.call_targets(fr.fn, i)) or ['?indirect']
        out = []
        for k, t in enumerate(targets):
            x = st if len(targets) == 1 else st.copy()
            out.extend(s.do_call1(x, i, t, args, fr))
        return out

    def do_call1(s, st, i, t, args, fr):
        r = s.rule.on_call(s, st, i, t, args, fr)
        if r is not None:
            res = []
            for (x, v) in r:
                if i.res:
                    x.env[i.res] = v if v is not None else s.result(x, i, t, args, fr)
                res.append(x)
            return res
        if t in s.m.funcs and t in s.descend:
            env = st.env
            exits = s.call_env(s.m.funcs[t], args, st, fr, i)
            res = []
            for x, v in exits:
                if i.res:
                    x.env[i.res] = v if v is not None else ('undef',)
                res.append(x)
            return res
        return [s.opaque(st, i, t, args, fr)]

    def call_env(s, f, args, st, fr, inst):
        """descend while keeping the caller's registers alive through kills"""
        env = st.env
        s.age(st, f.name)
        aroots = {addr_root(x) for x in args}
        pf = {a: v for a, v in st.facts.items() if s.rule.track(a, st)}
        kf = {a: v for a, v in st.facts.items() if a not in pf}
        pm = {a: v for a, v in st.mem.items() if s.rule.track_mem(a, v) or addr_root(a) in aroots}
        km = {a: v for a, v in st.mem.items() if a not in pm}
        # argument truths the caller knows travel with the call
        for a, v in list(kf.items()):
            if a[0] == 'nz' and a[1] in args:
                pf[a] = v
        inner = State({}, pm, pf, st.ts, st.trace)
        exits = s.call(f, args, inner, fr, inst)
        res = []
        tmp = State(dict(env), km, kf, (), None)
        s.kill_call(tmp, f.name, args)
        for x, v in exits:
            y = State(dict(tmp.env), dict(tmp.mem), dict(tmp.facts), x.ts, x.trace or st.trace)
            y.mem.update(x.mem)
            y.facts.update(x.facts)
            res.append((y, v))
        return res

    def age(s, st, fname):
        """values produced by an earlier activation of the callee get distinct names"""
        rs = s._reach.get(fname)
        if rs is None:
            rs = s._reach[fname] = s.p.reach([fname])

        def local(t):
            return (t[0] == 'site' and t[1][0] in rs) or (t[0] in ('phi', 'opq') and len(t) > 2 and t[1] in rs)
        bad = set()
        for v in list(st.env.values()) + list(st.facts) + list(st.mem.values()) + (list(st.ts) if s.rule.stale_ts else [st.ts]):
            if isinstance(v, tuple):
                for x in subterms_phi(v):
                    if x[0] != 'stale' and local(x):
                        bad.add(x)
        for x in bad:
            s.kill_site(st, x)

    def result(s, st, i, t, args, fr):
        if t in s.p.pure:
            return s.clip(('call', t, args, None), i, fr)
        s.kill_site(st, ('site', i.id))
        return s.clip(('call', t, args, i.id), i, fr) if depth(args) < 12 else ('call', t, (), i.id)

    def fork(s, st, t, args):
        """call effects applied, two copies: (failing, succeeding)"""
        if t not in s.p.pure:
            s.kill_call(st, t, args)
        return st.copy(), st

    def opaque(s, st, i, t, args, fr):
        if t not in s.p.pure:
            s.kill_call(st, t, args)
        if i.res:
            v = s.result(st, i, t, args, fr)
            st.env[i.res] = v
        return st


def binop(op, a, b):
    if a[0] == 'c' and b[0] != 'c' and op in ('add', 'and', 'or', 'xor', 'mul'):
        a, b = b, a
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        try:
            v = {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'and': lambda: x & y,
                 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y,
                 'ashr': lambda: x >> y, 'urem': lambda: x % y if x >= 0 and y > 0 else 1/0,
                 'udiv': lambda: x // y if x >= 0 and y > 0 else 1/0, 'srem': lambda: x % y if x >= 0 and y > 0 else 1/0,
                 'sdiv': lambda: x // y if x >= 0 and y > 0 else 1/0}[op]()
            return ('c', v)
        except (KeyError, ValueError, ZeroDivisionError):
            pass
    if op == 'sub' and b[0] == 'c':
        op, b = 'add', ('c', -b[1])
    if op == 'add' and b == C0:
        return a
    if op == 'add' and b[0] == 'c' and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'c':
        return binop('add', a[2], ('c', a[3][1]+b[1]))
    if op == 'and' and b[0] == 'c' and a[0] == 'bin' and a[1] == 'and' and a[3][0] == 'c':
        return ('bin', 'and', a[2], ('c', a[3][1] & b[1]))
    return ('bin', op, a, b)


def is_back(f, frm, to):
    if not hasattr(f, '_rpo'):
        f._rpo = {b.name: k for k, b in enumerate(rpo(f))}
    return f._rpo.get(frm, 0) >= f._rpo.get(to, 0)


def rpo(f):
    if hasattr(f, '_rpol'):
        return f._rpol
    seen = set()
    post = []
    st = [(f.blocks[0], iter(f.blocks[0].succs))]
    seen.add(f.blocks[0].name)
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                nb = f.bymap[n]
                st.append((nb, iter(nb.succs)))
                break
        else:
            post.append(b)
            st.pop()
    f._rpol = list(reversed(post))
    return f._rpol


@lru_cache(maxsize=None)
def tdeps(t):
    """deps of the outermost load/call only"""
    if t[0] == 'ld':
        return addr_deps(t[1])
    if t[0] == 'call':
        r = set()
        ps = set()
        for l in REFS.get(t[1], ()):
            if l[0] == 'PS':
                if l[1] < len(t[2]):
                    r |= addr_deps(('fld', t[2][l[1]], l[2], l[3]))
                    ps.add(l[1])
            else:
                r.add(l)
        for k, a in enumerate(t[2]):
            if k in ps:
                continue
            if not isinstance(a, tuple):
                continue
            if a[0] in ('fld', 'idx', 'off', 'g', 'al'):
                r.add(addr_loc(a))
                r.add(('R', addr_root(a)))
            elif a[0] in ('ld', 'call', 'arg', 'phi', 'opq'):
                r.add(('R', a))
                r.add(('D',))
        return frozenset(r)
    return frozenset()


@lru_cache(maxsize=None)
def alldeps(t):
    """deps of every load and pure call inside a term"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    r = set()
    if t[0] == 'ld' or (t[0] == 'call' and len(t) > 3 and t[3] is None):
        r |= tdeps(t)
    for x in t:
        if isinstance(x, tuple):
            r |= alldeps(x)
    return frozenset(r)


@lru_cache(maxsize=None)
def mentions_local(t, fn):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ('phi', 'opq', 'al') and len(t) > 1 and t[1] == fn:
        return True
    if t and t[0] == 'call' and len(t) > 3 and t[3] is not None and t[3][0] == fn:
        return True
    return any(mentions_local(x, fn) for x in t if isinstance(x, tuple))


def locstr(i):
    if i is None:
        return '?'
    if i.loc:
        f = i.loc[0]
        return f'{f}:{i.loc[1]}'
    return f'{i.fn.name if i.fn else "?"}'
