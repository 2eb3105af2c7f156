"""Contracts of the primitives every other rule relies on: address comparison, copying, seen-by lookup."""
from ..engine import Rule, C0, C1, locstr, AnalysisBroken
from ..pat import *
from ..loops import covers

PARTS = ('Zone', 'Net', 'Node', 'Point')


def same(st, x, y):
    """the state implies x == y"""
    if st.truth(('eq',) + tuple(sorted((x, y), key=repr))) is True or st.truth(('eq', x, y)) is True:
        return True
    for sg in 'us':
        if st.truth(('lt', sg, x, y)) is False and st.truth(('lt', sg, y, x)) is False:
            return True
    for op in ('sub', 'xor'):
        for u, v in ((x, y), (y, x)):
            if st.truth(('nz', ('bin', op, u, v))) is False:
                return True
    return False


def differ(st, x, y):
    if st.truth(('eq',) + tuple(sorted((x, y), key=repr))) is False or st.truth(('eq', x, y)) is False:
        return True
    for sg in 'us':
        if st.truth(('lt', sg, x, y)) is True or st.truth(('lt', sg, y, x)) is True:
            return True
    for op in ('sub', 'xor'):
        for u, v in ((x, y), (y, x)):
            if st.truth(('nz', ('bin', op, u, v))) is True:
                return True
    return False


class Cmp4(Rule):
    correlate = False
    max_states = 2000

    def track(s, atom, st):
        return True

    def on_ret(s, eng, st, i, val, fr):
        f = fr.fn.name
        A = {F: LD(('arg', f, 0), 'Node4D', F) for F in PARTS}
        B = {F: LD(('arg', f, 1), 'Node4D', F) for F in PARTS}
        zero = val == C0 or st.truth(('nz', val)) is False
        nonzero = (val[0] == 'c' and val != C0) or st.truth(('nz', val)) is True
        wild = any(st.truth(('nz', x['Zone'])) is False for x in (A, B))
        eqs = {F: same(st, A[F], B[F]) for F in PARTS}
        rest = None
        if val[0] == 'bin' and val[1] in ('sub', 'add'):
            # return a->X - b->X
            rest = next((F for F in PARTS if val == ('bin', 'sub', A[F], B[F])), None)
        for F in PARTS:
            key = f'Compare4D: equal addresses agree in {F}' + (' unless one zone is unknown' if F == 'Zone' else '')
            s.ctx.oblige(key, locstr(i))
            if not nonzero and not eqs[F] and rest != F and not (F == 'Zone' and wild):
                eng.report(key, f'two addresses compare equal although their {F} was not compared', st, i, fr)
        key = 'Compare4D: different addresses differ somewhere'
        s.ctx.oblige(key, locstr(i))
        if not zero and rest is None:
            if not any(differ(st, A[F], B[F]) for F in PARTS):
                eng.report(key, 'two addresses compare different although no part was found to differ', st, i, fr)
            elif not any(differ(st, A[F], B[F]) for F in PARTS[1:]) and not (
                    st.truth(('nz', A['Zone'])) is True and st.truth(('nz', B['Zone'])) is True):
                eng.report(key + ' (zone 0)', 'an address without a zone is different from the same address with a zone', st, i, fr)


class Copy4(Rule):
    correlate = False

    def track_mem(s, a, v):
        return a[0] == 'fld' and a[2] == 'Node4D'

    def on_call(s, eng, st, i, t, args, fr):
        if (t == 'memcpy' or t.startswith('llvm.memcpy')) and args[0] == ('arg', fr.fn.name, 0) and args[1] == ('arg', fr.fn.name, 1):
            st.ts = args[2][0] == 'c' and args[2][1] >= 8
        return None

    def on_ret(s, eng, st, i, val, fr):
        f = fr.fn.name
        for F in PARTS:
            key = f'Copy4D: {F} is copied'
            s.ctx.oblige(key, locstr(i))
            if not st.ts and st.mem.get(('fld', ('arg', f, 0), 'Node4D', F)) != LD(('arg', f, 1), 'Node4D', F):
                eng.report(key, f'copying an address does not copy its {F}', st, i, fr)


def addresses(ctx):
    """address comparison and copying cover zone, net, node and point"""
    p = ctx.prog()
    ctx.need(p, 'Compare4D', 'Copy4D')
    ctx.run(p, Cmp4(), 'Compare4D', None)
    ctx.run(p, Copy4(), 'Copy4D', False)


def entry(t, F):
    """(list node, index) if t is the load of Nodes2D entry F"""
    if t[0] != 'ld':
        return None
    a, k = t[1], C0
    if a[0] == 'idx':
        a, k = a[1], a[2]
    b = fld(a, 'Nodes2D', F)
    return None if b is None else (b, k)


class Find2D(Rule):
    """ts: ('hit', which parts of which entry were found equal)"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and (points_to(s.p, atom[1]) == 'Nodes2D' or ldfld(atom[1], 'jbList', 'First') is not None):
            st.ts = frozenset() if truth else st.ts | {('end', None)}
        if atom[0] != 'eq':
            return
        for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
            for F in ('Net', 'Node'):
                e = entry(x, F)
                if e is not None and ldfld(y, 'Node4D', F) == ('arg', fr.fn.name, 1):
                    ts = {z for z in st.ts if z[1] == e}
                    st.ts = frozenset(ts | {(F, e)}) if truth else frozenset()

    def on_load(s, eng, st, i, addr, fr):
        if s.hit(st):
            key = 'FindNodes2D: a listed system is found'
            s.ctx.oblige(key, locstr(i))
            eng.report(key, 'the search goes on although the system was found', st, i, fr)
        return None

    def hit(s, st):
        return len({z[0] for z in st.ts if z[0] != 'end'}) == 2

    def on_ret(s, eng, st, i, val, fr):
        zero = val == C0 or st.truth(('nz', val)) is False
        hit = s.hit(st)
        key = 'FindNodes2D: a listed system is found'
        s.ctx.oblige(key, locstr(i))
        if zero and hit:
            eng.report(key, 'a system that is listed is reported missing', st, i, fr)
        elif zero and ('end', None) not in st.ts:
            eng.report(key + ' (end of the list)', 'a system is reported missing before the end of the list was reached', st, i, fr)
        key = 'FindNodes2D: found means net and node match'
        s.ctx.oblige(key, locstr(i))
        if not zero and not hit:
            eng.report(key, 'a system is reported as listed although net and node were not both found equal', st, i, fr)


def seenby_lookup(ctx):
    """a system is in seen-by exactly when an entry with its net and node exists"""
    p = ctx.prog()
    ctx.need(p, 'FindNodes2D')
    r = Find2D()
    r.p = p
    ctx.run(p, r, 'FindNodes2D', frozenset())
    covers(ctx, p, 'FindNodes2D', lambda i: i.op == 'gep' and any(l[0] == 'F' and l[1:] in (('Nodes2D', 'Net'), ('Nodes2D', 'Node'))
                                               for l in p.loc_of(p.m.funcs['FindNodes2D'], ('v', i.res))),
           'every entry of the list is looked at', 0, {('F', 'Nodes2D', 'Nodes')},
           'not every entry of the seen-by list is compared')
