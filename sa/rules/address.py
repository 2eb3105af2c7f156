"""Addresses and patterns: what is read from text, what matches, what a destination pattern stands for."""
from ..engine import Rule, C0, C1, locstr, AnalysisBroken
from ..pat import *
from .. import loops
from .prims import PARTS
from .maint import leaves

KINDS = ('PAT_PATTERN', 'PAT_ZONE', 'PAT_REGION', 'PAT_NET', 'PAT_HUB', 'PAT_NODE')
NEED = {'PAT_PATTERN': PARTS, 'PAT_ZONE': ('Zone',), 'PAT_REGION': ('Zone', 'Net'), 'PAT_NET': ('Zone', 'Net'),
        'PAT_HUB': ('Zone', 'Net', 'Node'), 'PAT_NODE': ('Zone', 'Net', 'Node')}


def zero(st, x):
    return x == C0 or st.truth(('nz', x)) is False


def nonzero(st, x):
    return x[0] == 'c' and x != C0 or st.truth(('nz', x)) is True


def types(ctx):
    return {k: ctx.const(k) for k in KINDS}


class Kinds(Rule):
    """rules about one pattern (argument 0): knows which kinds it can be"""
    correlate = False
    max_states = 2000

    def track(s, atom, st):
        return True

    def possible(s, st, base):
        t = LD(base, 'Node4DPat', 'Type')
        out = []
        for k, n in s.types.items():
            v = st.truth(('nz', t)) is False if n == 0 else st.truth(('eq', t, ('c', n)))
            if n == 0:
                v = True if v else False if st.truth(('nz', t)) is True else None
            if v is True:
                return [k]
            if v is None:
                out.append(k)
        return out

    def on_branch(s, eng, st, inst, atom, truth, fr):
        t = LD(s.pat, 'Node4DPat', 'Type')
        # if the kind is known, other kinds are impossible
        if truth and (atom[0] == 'eq' and atom[1] == t and atom[2][0] == 'c'):
            for k, n in s.types.items():
                x = st.truth(('nz', t)) if n == 0 else st.truth(('eq', t, ('c', n)))
                if n != atom[2][1] and (x is True and n != 0 or n == 0 and x is False):
                    return False
        return None


class Local4(Rule):
    """addresses put together in local variables: ts has ('4d', variable, part, value)"""

    def part(s, st, b, F):
        for x in st.ts:
            if x[0] == '4d' and x[1] == b and x[2] == F:
                return x[3]
        return LD(b, 'Node4D', F)

    def put(s, st, b, F, v):
        st.ts = frozenset(x for x in st.ts if not (x[0] == '4d' and x[1] == b and x[2] == F)) | {('4d', b, F, v)}

    def copy4(s, st, t, args):
        if t == 'Copy4D' or ('memcpy' in t or 'memmove' in t) and len(args) > 2 and args[2] == ('c', 8):
            v = [s.part(st, args[1], F) for F in PARTS]
            for F, x in zip(PARTS, v):
                s.put(st, args[0], F, x)
            return True
        return False

    def on_store(s, eng, st, i, a, v, fr):
        if a[0] == 'fld' and a[2] == 'Node4D':
            s.put(st, a[1], a[3], v)
        elif a[0] in ('al', 'arg') and v[0] == 'ld' and v[1][0] in ('al', 'arg'):       # a = *b
            s.copy4(st, 'Copy4D', (a, v[1]))


def looked_up(t):
    return 'Region' if t.endswith('nlGetRegion') else 'Hub' if t.endswith('nlGetHub') else None


class Nodelist(Local4):
    """asks the nodelist about the address (argument 1) without its point"""

    def on_call(s, eng, st, i, t, args, fr):
        if s.copy4(st, t, args):
            return [(st, C0)]
        k = looked_up(t)
        if k:
            key = f'{fr.fn.name}: the nodelist is asked for the address itself, without its point'
            s.ctx.oblige(key, locstr(i))
            for F in PARTS:
                v = s.part(st, args[0], F)
                if v != (C0 if F == 'Point' else LD(s.addr, 'Node4D', F)):
                    eng.report(key, f'the {F} of the address the nodelist is asked for is another one', st, i, fr)
            return [(st, ('call', 'nl' + k, (), None))]
        return None


def listed(st, k):
    """the nodelist has the address"""
    t = ('call', 'nl' + k, (), None)
    return st.truth(('eq', t, ('c', -1))) is False or st.truth(('lt', 's', t, C0)) is False or st.truth(('lt', 's', ('c', -1), t)) is True


class Compare(Kinds, Nodelist):
    """"""
    on_store = Local4.on_store

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        for k in s.possible(st, s.pat):
            for case in ((True, False) if not zero(st, v) and not nonzero(st, v) else (zero(st, v),)):
                s.judge(eng, st, i, v, case, k, fr)
        if not s.possible(st, s.pat):
            return

    def judge(s, eng, st, i, v, match, k, fr):
        def cmp(F):
            x = LD(s.addr, 'Node4D', F)
            if (k, F) == ('PAT_REGION', 'Net'):
                x = ('call', 'nlRegion', (), None)
            if (k, F) == ('PAT_HUB', 'Node'):
                x = ('call', 'nlHub', (), None)
            t = ('call', 'NodeCompare', (('fld', s.pat, 'Node4DPat', F), x), None)
            if v == t or v[0] == 'bin' and v[1] == 'icmp' and t in v:
                return match
            r = st.truth(('nz', t))
            return None if r is None else not r
        key = f'Compare4DPat: {k[4:]} matches only addresses with equal ' + ', '.join(NEED[k]).lower()
        self_closed = k in ('PAT_REGION', 'PAT_HUB') and (zero(st, GL('nodelistopen')) or any(
            t is True and a == ('eq', ('call', 'nl' + k[4:].title(), (), None), ('c', -1)) for a, t in st.facts.items()))
        s.ctx.oblige(key, locstr(i))
        if match:
            for F in NEED[k]:
                if cmp(F) is not True and not (F == 'Zone' and k != 'PAT_ZONE' and zero(st, LD(s.addr, 'Node4D', 'Zone'))):
                    eng.report(key, f'a pattern of kind {k[4:]} matches an address whose {F} was not found to match', st, i, fr)
            if self_closed or k in ('PAT_REGION', 'PAT_HUB') and not listed(st, k[4:].title()):
                eng.report(key, f'a pattern of kind {k[4:]} matches an address that is not in the nodelist', st, i, fr)
        else:
            key = f'Compare4DPat: {k[4:]} matches every address with equal ' + ', '.join(NEED[k]).lower()
            s.ctx.oblige(key, locstr(i))
            if not self_closed and not any(cmp(F) is False for F in NEED[k]):
                eng.report(key, f'a pattern of kind {k[4:]} refuses an address no part of which was found to differ', st, i, fr)


class Expand(Kinds, Nodelist):
    """"""
    on_store = Local4.on_store

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'iswildcard':
            b = fld(args[0], 'Node4DPat', None)
            return [(st, ('call', 'wild', (args[0],), None))]
        if t in ('atoi', 'strtol', 'strtoul', 'atol'):
            return [(st, ('call', 'number', (args[0],), None))]
        return Nodelist.on_call(s, eng, st, i, t, args, fr)

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        D = {F: LD(s.addr, 'Node4D', F) for F in PARTS}
        ks = s.possible(st, s.pat)
        t = LD(s.pat, 'Node4DPat', 'Type')
        if len(ks) == 1 and st.truth(('nz', t) if s.types[ks[0]] == 0 else ('eq', t, ('c', s.types[ks[0]]))) is None:
            return      # none of the known kinds
        for k in ks:
            if len(ks) > 1 and not any(x[0] == '4d' and x[1] == s.dest for x in st.ts):
                continue
            reg, hub = (('call', 'nl' + x, (), None) for x in ('Region', 'Hub'))
            want = {F: {D[F]} for F in PARTS}
            if k == 'PAT_PATTERN':
                for F in PARTS:
                    a = ('fld', s.pat, 'Node4DPat', F)
                    w = st.truth(('nz', ('call', 'wild', (a,), None)))
                    want[F] = {D[F]} if w is True else {('call', 'number', (a,), None)} if w is False else set()
            else:
                want['Point'] = {C0}
                if k == 'PAT_ZONE':
                    want['Net'] = {D['Zone']}
                if k == 'PAT_REGION':
                    miss = zero(st, GL('nodelistopen')) or zero(st, reg) or st.truth(('eq', reg, ('c', -1))) is True
                    want['Net'] = {D['Net']} if miss else {reg} if listed(st, 'Region') else set()
                if k == 'PAT_HUB':
                    miss = zero(st, GL('nodelistopen')) or zero(st, hub) or st.truth(('eq', hub, ('c', -1))) is True
                    want['Node'] = {C0, hub} if zero(st, hub) else {C0} if miss else {hub} if listed(st, 'Hub') else set()
                if k in ('PAT_ZONE', 'PAT_REGION', 'PAT_NET'):
                    want['Node'] = {C0}
            for F in PARTS:
                key = f'ExpandNodePat: {k[4:]}: {F}'
                s.ctx.oblige(key, locstr(i))
                got = s.part(st, s.dest, F)
                if got not in want[F]:
                    eng.report(key, f'the {F} a destination pattern of kind {k[4:]} stands for is not the one of the address, the pattern or the nodelist it should be', st, i, fr)


class Needs(Kinds):
    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        for k in s.possible(st, s.pat):
            key = f'Check4DPatNodelist: {k[4:]}'
            s.ctx.oblige(key, locstr(i))
            need = k in ('PAT_REGION', 'PAT_HUB')
            if need and not zero(st, v):
                eng.report(key, f'a pattern of kind {k[4:]} passes as one that needs no nodelist', st, i, fr)
            if not need and not nonzero(st, v):
                eng.report(key, f'a pattern of kind {k[4:]} is refused without a nodelist', st, i, fr)


def setup(r, ctx, fn):
    r.types = types(ctx)
    r.pat, r.addr, r.dest = (('arg', fn, k) for k in range(3))
    return r


def kinds(ctx):
    """a node pattern of each kind matches an address exactly when the parts this kind has match (or the zone of the address is unknown);
    regions and hubs are the ones the nodelist has for the address without its point"""
    p = ctx.prog()
    ctx.need(p, 'Compare4DPat', 'NodeCompare', 'ExpandNodePat')
    ctx.run(p, setup(Compare(), ctx, 'Compare4DPat'), 'Compare4DPat', frozenset())
    if 'Check4DPatNodelist' in p.m.funcs:
        ctx.run(p, setup(Needs(), ctx, 'Check4DPatNodelist'), 'Check4DPatNodelist', frozenset())
    ctx.run(p, setup(Two(), ctx, 'Compare2DPat'), 'Compare2DPat', frozenset())
    ctx.floor('', 8)


def expansion(ctx):
    """a destination pattern stands for the parts of the pattern that have no wildcard and the parts of the address otherwise; the keywords
    stand for the coordinator of the zone, region or net, the hub and the boss node of the address"""
    p = ctx.prog()
    ctx.need(p, 'ExpandNodePat', 'iswildcard')
    ctx.run(p, setup(Expand(), ctx, 'ExpandNodePat'), 'ExpandNodePat', frozenset())
    r = Wild()
    r.p = p
    ctx.run(p, r, 'iswildcard', frozenset())
    ctx.floor('', 8)


class Two(Rule):
    """the pattern of a net and node"""
    correlate = False

    def track(s, atom, st):
        return True

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        t = [('call', 'NodeCompare', (('fld', s.pat, 'Node2DPat', F), ('arg', fr.fn.name, k)), None) for k, F in ((1, 'Net'), (2, 'Node'))]
        key = 'Compare2DPat: matches exactly when net and node match'
        s.ctx.oblige(key, locstr(i))
        for match in ((True, False) if not zero(st, v) and not nonzero(st, v) else (zero(st, v),)):
            r = [match if v == x else None if st.truth(('nz', x)) is None else not st.truth(('nz', x)) for x in t]
            if match and not all(r) or not match and False not in r:
                eng.report(key, 'net or node is not compared', st, i, fr)


# ------------------------------------------------------------------ matching character by character
def folded(t):
    """(which folding of case, the character)"""
    if t[0] == 'call' and t[1] in ('tolower', 'toupper') and len(t[2]) == 1:
        return t[1], t[2][0]
    if t[0] == 'ld' and t[1][0] == 'idx' and t[1][1][0] == 'ld' and t[1][1][1][0] == 'call' and t[1][1][1][1] in ('__ctype_tolower_loc', '__ctype_toupper_loc'):
        return t[1][1][1][1][8:15], t[1][2]
    return None, t


def place(p, t, fn):
    """(object, position) of the character the term is the value of"""
    t = folded(t)[1]
    if t[0] != 'ld':
        return None
    return spot(p, t[1], fn)


def spot(p, a, fn):
    if a[0] == 'idx':
        b = spot(p, a[1], fn)
        return None if b is None else (b[0], a[2] if b[1] == C0 else ('walk', a[2]))
    if a[0] == 'arg' or a[0] == 'al':
        return a, C0
    if a[0] == 'call' and a[1] == 'mkstr':
        return a, C0
    if a[0] in ('phi', 'opq') and a[1] == fn:
        r = walks(p, p.m.funcs[fn], a[2])
        if r is not None:
            return r, ('walk',)
    return None


def walks(p, f, reg):
    """the object a pointer walks by steps of one"""
    defs = p.defs(f)
    seen, st, out = set(), [('v', reg)], set()
    args = {a[1]: k for k, a in enumerate(f.params)}
    while st:
        v = loops.strip(defs, st.pop())
        if v in seen:
            continue
        seen.add(v)
        if v[0] == 'v' and v[1] in args:
            out.add(('arg', f.name, args[v[1]]))
            continue
        d = defs.get(v[1]) if v[0] == 'v' else None
        if d is None:
            return None
        if d.op == 'phi':
            st += [x for _, x in d.extra]
        elif d.op == 'gep' and len(d.ops) == 2 and d.ops[1] == ('c', 1):
            st.append(d.ops[0])
        elif d.op == 'alloca':
            out.add(('al', f.name, d.res))
        elif d.op == 'gep' and all(x == C0 for x in d.ops[1:]):
            st.append(d.ops[0])
        else:
            return None
    return out.pop() if len(out) == 1 else None


class Match(Rule):
    """ts: frozenset of what is known of the characters at the current position: ('star',True), ('any',..), ('eq',..), ('pend',..), ('send',..)"""
    correlate = False
    max_states = 400

    def __init__(s, p, fn, fold, hit, empty):
        s.p = p
        s.fn, s.fold, s.hit, s.empty = fn, fold, hit, empty
        s.pat, s.subj = ('arg', fn, 0), ('arg', fn, 1)
        s.key = fn + ': '

    def note(s, st, pos, what, truth):
        ts = {x for x in st.ts if x[0] == 'cfg' or x[2] == pos}
        if (what, not truth, pos) in ts and what != 'wrong':
            return False
        st.ts = frozenset(ts | {(what, truth, pos)})

    def get(s, st, what):
        return next((x[1] for x in st.ts if x[0] == what), None)

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('sprintf', 'snprintf') and args[0][0] == 'al':
            k = 1 if t == 'sprintf' else 2
            key = s.key + 'the number is compared as decimal text'
            s.ctx.oblige(key, locstr(i))
            if args[k][0] != 's' or args[k][1] not in ('%u', '%d', '%hu', '%i', '%lu', '%ld') or args[k + 1] != ('arg', s.fn, 1):
                eng.report(key, 'the text the pattern is compared with is not the number in decimal', st, i, fr)
            s.subj = args[0]
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        p = s.p
        if atom[0] == 'nz':
            c = place(p, atom[1], s.fn)
            if c is not None and c[0] == s.pat:
                return s.note(st, c[1], 'pend', not truth)
            elif c is not None and c[0] == s.subj:
                return s.note(st, c[1], 'send', not truth)
            elif call(atom[1], 'strlen') == (s.pat,):
                return s.note(st, C0, 'pend', not truth)
        elif atom[0] == 'eq':
            a, b = place(p, atom[1], s.fn), place(p, atom[2], s.fn)
            if a is not None and a[0] == s.pat and atom[2][0] == 'c':
                ch = atom[2][1]
                if ch in (42, 63, 0):
                    return s.note(st, a[1], {42: 'star', 63: 'any', 0: 'pend'}[ch], truth)
            elif a is not None and b is not None and {a[0], b[0]} == {s.pat, s.subj}:
                f = {folded(x)[0] for x in (atom[1], atom[2])}
                ok = a[1] == b[1] and len(f) == 1 and (f != {None}) == s.fold
                return s.note(st, a[1], 'eq' if ok else 'wrong', truth)
        elif atom[0] == 'lt' and call(atom[3], 'strlen') == (s.pat,):
            return s.note(st, atom[2], 'pend', not truth)
        elif atom[0] == 'eq' and call(atom[2], 'strlen') == (s.pat,):
            return s.note(st, atom[1], 'pend', truth)

    def on_back(s, eng, st, fr):
        if fr.fn.name != s.fn:
            return
        i = eng.back[0].insts[-1]
        key = s.key + 'the comparison goes on only while the characters match'
        s.ctx.oblige(key, locstr(i))
        g = lambda x: s.get(st, x)
        if not (g('eq') is True or g('any') is True):
            eng.report(key, 'the next character is looked at although this one was not found to match', st, i, fr)
        elif g('any') is True and g('eq') is not True and g('send') is not False:
            eng.report(key, 'a wildcard for one character matches the end of the text', st, i, fr)
        elif g('eq') is True and g('pend') is not False and g('send') is not False:
            eng.report(key, 'the comparison goes on behind the end', st, i, fr)
        elif g('star') is not False and g('any') is not True and g('eq') is not True:
            eng.report(key, 'the wildcard for the rest is not looked for', st, i, fr)
        elif g('star') is not False and g('any') is not True:
            key = s.key + 'the wildcard for the rest is looked for'
            eng.report(key, 'the wildcard for the rest of the text is taken for an ordinary character', st, i, fr)
        st.ts = frozenset()

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        g = lambda x: s.get(st, x)
        res = zero(st, v) if s.hit == 0 else nonzero(st, v)
        sure = zero(st, v) or nonzero(st, v)
        pos = {x[2] for x in st.ts}
        both = g('pend') is True and g('send') is True
        # the value itself says whether the text ended: return(buf[c] != 0)
        c = place(s.p, v[1] if v[0] == 'nz' else v, s.fn)
        if not sure and c is not None and c[0] == s.subj and g('pend') is True and (not pos or c[1] in pos) and s.hit == 0:
            return
        if not sure and v[0] == 'not' or not sure and v[0] == 'bin':
            pass
        if res or not sure:
            key = s.key + 'a match is reported only at the wildcard or when both end'
            s.ctx.oblige(key, locstr(i))
            if not (g('star') is True or both or s.empty and g('pend') is True and pos == {C0}):
                eng.report(key, 'a match is reported although neither the wildcard for the rest nor the end of both was reached', st, i, fr)
        if not res or not sure:
            key = s.key + 'a mismatch is reported only where pattern and text differ'
            s.ctx.oblige(key, locstr(i))
            diff = g('eq') is False and g('any') is False and g('star') is False
            short = g('send') is True and g('star') is False and (g('pend') is False or g('any') is True)
            long = g('pend') is True and g('send') is False and g('star') is None
            if not (diff or short or long):
                eng.report(key, 'a mismatch is reported although pattern and text do not differ there', st, i, fr)


class Wild(Rule):
    correlate = False
    max_states = 200

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq' and atom[2] in (('c', 42), ('c', 63)) and place(s.p, atom[1], 'iswildcard') is not None:
            st.ts = st.ts | {(atom[2][1], truth)}
        elif atom[0] == 'nz' and call(atom[1], 'strchr'):
            a = call(atom[1], 'strchr')
            st.ts = st.ts | {(a[1][1], truth), ('srch', False)}
        elif not truth and (atom[0] == 'nz' and (place(s.p, atom[1], 'iswildcard') is not None or call(atom[1], 'strlen')) or atom[0] == 'lt' and call(atom[3], 'strlen')):
            st.ts = st.ts | {('end', False)}
        elif atom[0] == 'nz' and call(atom[1], 'strpbrk') and {'*', '?'} <= set(''.join(strings_in(atom[1]))):
            st.ts = st.ts | {(42, truth), (63, truth), ('srch', False)}

    def on_back(s, eng, st, fr):
        key = 'iswildcard: every character is looked at'
        i = eng.back[0].insts[-1]
        s.ctx.oblige(key, locstr(i))
        if not {(42, False), (63, False)} <= st.ts:
            eng.report(key, 'the next character is looked at although this one may be a wildcard', st, i, fr)
        st.ts = frozenset()

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        hit = any(t for _, t in st.ts)
        key = 'iswildcard: a text has a wildcard exactly if * or ? is in it'
        s.ctx.oblige(key, locstr(i))
        if v[0] == 'call' and v[1] in ('strpbrk', 'strchr'):
            return
        if zero(st, v) and ('end', False) not in st.ts and not {(42, False), (63, False), ('srch', False)} <= st.ts:
            eng.report(key, 'not all characters are looked at', st, i, fr)
        if hit != (not zero(st, v)):
            eng.report(key, 'a text with a wildcard passes for one without, or the other way round', st, i, fr)


def matching(ctx):
    """? stands for one character, * for the rest, any other character for itself (in names without regard to case); nothing else matches"""
    for prog in ('crashmail', 'crashmaint'):
        p = ctx.prog(prog)
        ctx.need(p, 'osMatchPattern')
        ctx.run(p, Match(p, 'osMatchPattern', True, 1, False), 'osMatchPattern', frozenset())
    p = ctx.prog()
    ctx.run(p, Match(p, 'NodeCompare', False, 0, True), 'NodeCompare', frozenset())
    for prog, fn in (('crashmail', 'osMatchPattern'), ('crashmaint', 'osMatchPattern'), ('crashmail', 'NodeCompare')):
        p = ctx.prog(prog)
        f = p.m.funcs[fn]
        for c in loops.counters(p, f):
            key = f'{prog}/{fn}: the comparison starts at the first character and takes every one'
            ctx.oblige(key, locstr(c.phi))
            if c.step != 1 or any(x != C0 for x in c.init):
                ctx.finding(key, 'the comparison does not start at the first character or leaves characters out', locstr(c.phi))
    ctx.floor('', 6)


# ------------------------------------------------------------------ reading addresses
SEPS = {58: ':', 47: '/', 46: '.'}
BEFORE = {':': 'Zone', '/': 'Net', '.': 'Node'}
BAD = {':': {':', '/', '.'}, '/': {'/', '.'}, '.': {'.'}}


class Reader(Rule):
    """an address is read character by character.  ts: ('seen', separator), ('dig',) something was read since the last one,
    ('cur', class of this character), ('put', part) written in this round or at the end"""
    correlate = False
    max_states = 4000

    def __init__(s, p, fn, S, pattern):
        s.p, s.fn, s.S, s.pattern = p, fn, S, pattern
        s.text, s.dest = ('arg', fn, 0), ('arg', fn, 1)
        s.seps = {k: v for k, v in SEPS.items() if S != 'Node2DPat' or v == '/'}
        s.two = S == 'Node2DPat'

    def joinextra(s, st):
        return frozenset((k, v) for k, v in st.env.items() if k in s.inner)

    def one(s, st, name):
        return next((x[1] for x in st.ts if x[0] == name), None)

    def set(s, st, name, v):
        st.ts = frozenset(x for x in st.ts if x[0] != name) | {(name, v)}

    def seen(s, st):
        return {x[1] for x in st.ts if x[0] == 'seen'}

    def char(s, t):
        c = place(s.p, t, s.fn)
        return c is not None and c[0] == s.text

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq' and atom[2][0] == 'c' and s.char(atom[1]):
            n = atom[2][1]
            if truth:
                if s.one(st, 'cur') not in (None, chr(n)):
                    return False
                s.set(st, 'cur', chr(n))
        elif atom[0] == 'lt':
            a, b = atom[2], atom[3]
            if s.char(a) and b in (('c', 48), ('c', 58)):
                s.range(st, 'low' if b[1] == 48 else 'high', truth if b[1] == 48 else not truth)
            elif s.char(b) and a in (('c', 57), ('c', 47)):
                s.range(st, 'high' if a[1] == 57 else 'low', truth if a[1] == 57 else not truth)
            elif a[0] == 'bin' and a[1] in ('add', 'sub') and s.char(a[2]) and a[3] in (('c', -48), ('c', 48)) and atom[1] == 'u' and b == ('c', 10):
                s.set(st, 'low', not truth)
                s.set(st, 'high', not truth)
        elif atom[0] == 'nz':
            x = atom[1]
            if call(x, 'isdigit') is not None or x[0] == 'bin' and x[1] == 'and' and x[3] == ('c', 2048):
                s.set(st, 'low', not truth)
                s.set(st, 'high', not truth)
            elif call(x, ('strcmp', 'strcasecmp')) == (s.text, ('s', '*')) and not truth:
                s.set(st, 'all', True)
        return None

    def range(s, st, which, out):
        s.set(st, which, out)

    def cls(s, st):
        c = s.one(st, 'cur')
        if c is not None:
            return c
        if s.one(st, 'low') is False and s.one(st, 'high') is False:
            return 'digit'
        return None

    def good(s, c):
        return c == 'digit' or s.pattern and c in ('*', '?')

    def put(s, eng, st, i, F, fr):
        c, seen = s.cls(st), s.seen(st)
        key = f'{s.fn}: {F}'
        s.ctx.oblige(key, locstr(i))
        if s.pattern and s.one(st, 'dig') is None and s.one(st, 'empty') is None:
            eng.report(f'{s.fn}: a part that is not given is empty', 'a part of a pattern that is not given gets what was in memory before, or the text of another part', st, i, fr)
        if c in s.seps.values():
            want = BEFORE[c]
            if not s.pattern and s.one(st, 'dig') is None:
                eng.report(key, 'a part is set although the address has no number for it', st, i, fr)
        elif c is not None:
            eng.report(key, 'a part is set in the middle of a number', st, i, fr)
            return
        else:
            want = s.last(seen)
        if want is not None and F != want:
            eng.report(key, f'what comes {"before " + c if c else "last"} is taken for the {F} instead of the {want}', st, i, fr)
        s.add(st, ('put', F))

    def add(s, st, x):
        st.ts = st.ts | {x}

    def last(s, seen):
        if s.two:
            return 'Node'
        if ':' in seen and '/' not in seen:
            return None if '.' in seen else 'Net'
        return 'Point' if '.' in seen else 'Node'

    def on_store(s, eng, st, i, a, v, fr):
        if a[0] == 'fld' and a[1] == s.dest and a[2] == s.S and s.S == 'Node4D':
            if v[0] == 'ld' and v[1][0] == 'fld' and v[1][1] == ('arg', s.fn, 2) and v[1][3] == a[3]:
                s.add(st, ('tpl', a[3]))
                return
            s.put(eng, st, i, a[3], fr)
        elif s.pattern and a[0] == 'al' and v == C0:
            s.set(st, 'empty', True)
        elif s.pattern and spot(s.p, a, s.fn) is not None and a != s.text and spot(s.p, a, s.fn)[0][0] == 'al' and s.char(v):
            key = f'{s.fn}: the characters of a part are collected'
            s.ctx.oblige(key, locstr(i))
            if not s.good(s.cls(st)):
                eng.report(key, 'another character than a digit or wildcard becomes part of a number', st, i, fr)
            at0 = a[0] == 'al'
            st.ts = frozenset(x for x in st.ts if x[0] != 'empty')
            if at0 != (s.one(st, 'dig') is None):
                eng.report(key, 'the text of a part does not begin with its first character', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'Copy4D' and args == (s.dest, ('arg', s.fn, 2)):
            for F in PARTS:
                s.add(st, ('tpl', F))
            return [(st, C0)]
        if t in ('memcpy', 'memmove') and args[:2] == (s.dest, ('arg', s.fn, 2)):
            for F in PARTS:
                s.add(st, ('tpl', F))
        if t in ('strcpy', 'mystrncpy', 'strncpy') and fld(args[0], s.S, None) == s.dest:
            F = args[0][3]
            if args[1] == ('s', '*'):
                s.add(st, ('tpl', F))
            elif args[1] == ('s', '0') and F == 'Point':
                s.add(st, ('put', 'Zero'))
            elif args[1][0] == 'al':
                s.put(eng, st, i, F, fr)
            else:
                eng.report(f'{s.fn}: {F}', 'a part is set to something that was not read', st, i, fr)
        return None

    def on_back(s, eng, st, fr):
        i = eng.back[0].insts[-1]
        if fr.fn.name != s.fn:
            return
        c, seen, dig = s.cls(st), s.seen(st), s.one(st, 'dig')
        key = f'{s.fn}: only digits, wildcards of patterns and separators in their order are accepted'
        s.ctx.oblige(key, locstr(i))
        if c in s.seps.values():
            if BAD[c] & seen:
                eng.report(key, f'a second or misplaced {c} is accepted', st, i, fr)
            k2 = f'{s.fn}: {BEFORE[c]}'
            if (dig or s.pattern) and not any(x == ('put', BEFORE[c]) for x in st.ts):
                eng.report(k2, f'the number before {c} is not taken for the {BEFORE[c]}', st, i, fr)
        elif not s.good(c):
            eng.report(key, 'another character is accepted', st, i, fr)
        if s.pattern is False:
            s.number(eng, st, i, c, dig, fr)
        ts = {x for x in st.ts if x[0] in ('seen', 'dig', 'tpl', 'empty')}
        if c in s.seps.values():
            ts = {x for x in ts if x[0] != 'dig'} | {('seen', c)}
        elif s.good(c):
            ts |= {('dig', True)}
        st.ts = frozenset(ts)

    def number(s, eng, st, i, c, dig, fr):
        """the variable that is stored: ten times what it was plus the digit, or the digit alone for the first one"""
        for ph in eng.back[1].phis:
            if ph.res not in s.vals:
                continue
            src = next((v for b, v in ph.extra if b == eng.back[0].name), None)
            if src is None:
                continue
            v = eng.val(st, src, fr)
            key = f'{s.fn}: numbers are read as decimal numbers'
            s.ctx.oblige(key, locstr(i))
            if c == 'digit':
                terms = flatten(v)
                d = [t for t in terms if s.char(t[0]) and t[1] == 1]
                k = sum(t[1] for t in terms if t[0] == 'one')
                o = [t for t in terms if t[0] != 'one' and not s.char(t[0])]
                if len(d) != 1 or k != -48 or (not dig and o) or (dig and (len(o) != 1 or o[0][1] != 10)):
                    eng.report(key, 'the number is not made of its decimal digits', st, i, fr)

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        c, seen, dig = s.cls(st), s.seen(st), s.one(st, 'dig')
        key = f'{s.fn}: an address is accepted only when all of it was read'
        s.ctx.oblige(key, locstr(i))
        parts = ('Net', 'Node') if s.two else PARTS
        for F in parts:
            k2 = f'{s.fn}: parts that are not given'
            s.ctx.oblige(k2, locstr(i))
            if not zero(st, v) and ('tpl', F) not in st.ts:
                eng.report(k2, f'the {F} is left undefined where the text does not give it', st, i, fr)
        if nonzero(st, v):
            if s.one(st, 'all'):
                return
            if c is not None:
                eng.report(key, 'an address is accepted before its end', st, i, fr)
                return
            want = s.last(seen)
            if want is not None and (dig or s.pattern) and ('put', want) not in st.ts:
                eng.report(f'{s.fn}: {want}', f'the last number of an address is not taken for the {want}', st, i, fr)
            if s.pattern and not s.two and want == 'Node' and ('put', 'Zero') not in st.ts:
                eng.report(f'{s.fn}: Point', 'a pattern without a point matches points', st, i, fr)
            if s.pattern and not s.two and want != 'Node' and ('put', 'Zero') in st.ts:
                eng.report(f'{s.fn}: Point', 'the point of a pattern is lost', st, i, fr)
        elif zero(st, v):
            key = f'{s.fn}: only texts that are no address are refused'
            s.ctx.oblige(key, locstr(i))
            if c in s.seps.values() and not BAD[c] & seen or s.good(c):
                eng.report(key, 'a proper address is refused', st, i, fr)


def flatten(t, k=1):
    """[(term, factor)] of a sum"""
    if t[0] == 'c':
        return [('one', t[1] * k)]
    if t[0] == 'bin' and t[1] == 'add':
        return flatten(t[2], k) + flatten(t[3], k)
    if t[0] == 'bin' and t[1] == 'sub':
        return flatten(t[2], k) + flatten(t[3], -k)
    if t[0] == 'bin' and t[1] == 'mul' and t[3][0] == 'c':
        return flatten(t[2], k * t[3][1])
    if t[0] == 'bin' and t[1] == 'shl' and t[3][0] == 'c':
        return flatten(t[2], k << t[3][1])
    return [(t, k)]


def stored_phis(p, f, S):
    """the loop variables whose value ends up in members of S"""
    defs = p.defs(f)
    seen, st = set(), []
    for i in f.insts():
        if i.op == 'store' and any(l[0] in ('F', 'PS') and l[-2] == S for l in p.loc_of(f, i.ops[1])):
            st.append(i.ops[0])
    out = set()
    while st:
        v = loops.strip(defs, st.pop())
        if v in seen or v[0] != 'v' or v[1] not in defs:
            continue
        seen.add(v)
        d = defs[v[1]]
        if d.op == 'phi':
            out.add(d.res)
            st += [x for _, x in d.extra]
        elif d.op == 'select':
            out.add(d.res)
            st += d.ops[1:]
        elif d.op == 'bin':
            out.add(d.res)
    return out


WORDS = {'ZONE': 'PAT_ZONE', 'REGION': 'PAT_REGION', 'NET': 'PAT_NET', 'HUB': 'PAT_HUB', 'NODE': 'PAT_NODE'}


class Words(Rule):
    """keyword -> kind.  ts: ('word', w), ('type', n), ('raw', offset), ('copy', F, G), ('clear', F)"""
    correlate = False
    max_states = 200

    def __init__(s, p, fn, dest, types):
        s.p, s.fn, s.isdest, s.types = p, fn, dest, types
        s.text, s.pat = ('arg', fn, 0), ('arg', fn, 1)

    def on_branch(s, eng, st, inst, atom, truth, fr):
        a = call(atom[1], ('strncasecmp', 'strcasecmp', 'strnicmp', 'stricmp')) if atom[0] == 'nz' else None
        if a is not None and a[0] == s.text and a[1][0] == 's':
            w = a[1][1].upper()
            n = a[2][1] if len(a) > 2 else None
            if not truth:
                if any(x[0] == 'word' for x in st.ts):
                    return False
                st.ts = st.ts | {('word', w, n)}
        return None

    def on_store(s, eng, st, i, a, v, fr):
        if fld(a, 'Node4DPat', 'Type') == s.pat:
            st.ts = frozenset(x for x in st.ts if x[0] != 'type') | {('type', v)}
        elif fld(a, 'Node4DPat', None) == s.pat and v == C0:
            st.ts = frozenset(x for x in st.ts if x[:2] != ('has', a[3])) | {('has', a[3], 'nothing')}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'rawParse4DPat':
            key = f'{s.fn}: the address of the pattern is read'
            s.ctx.oblige(key, locstr(i))
            if args[1] != s.pat:
                eng.report(key, 'the pattern is read to another place', st, i, fr)
            o = args[0]
            off = 0 if o == s.text else o[2][1] if o[0] == 'idx' and o[1] == s.text and o[2][0] == 'c' else None
            ts = {x for x in st.ts if x[0] not in ('has', 'raw')} | {('raw', off)} | {('has', F, F) for F in PARTS}
            st.ts = frozenset(ts)
            return [(st, ('call', 'rawParse4DPat', (), None))]
        if t == 'strcpy' and fld(args[0], 'Node4DPat', None) == s.pat:
            src = args[1][3] if fld(args[1], 'Node4DPat', None) == s.pat else '?'
            src = next((x[2] for x in st.ts if x[:2] == ('has', src)), '?')
            st.ts = frozenset(x for x in st.ts if x[:2] != ('has', args[0][3])) | {('has', args[0][3], src)}
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        w = next((x for x in st.ts if x[0] == 'word'), None)
        ty = next((x[1] for x in st.ts if x[0] == 'type'), None)
        raw = next((x[1] for x in st.ts if x[0] == 'raw'), None)
        kind = WORDS.get(w[1].strip(), '?') if w else 'PAT_PATTERN'
        key = f'{s.fn}: {kind[4:]}'
        s.ctx.oblige(key, locstr(i))
        if kind == '?':
            return
        if ty != ('c', s.types[kind]):
            eng.report(key, f'a pattern {"with the keyword " + w[1] if w else "without a keyword"} gets another kind', st, i, fr)
        if s.isdest and w:
            if not nonzero(st, v):
                eng.report(key, 'a keyword is refused', st, i, fr)
            return
        n = (w[2] if w[2] is not None else len(w[1])) if w else 0
        if w and (not w[1].endswith(' ') or n != len(w[1])):
            eng.report(key, 'the keyword is not compared completely', st, i, fr)
        if raw != n:
            eng.report(key, 'the address of the pattern is not read from behind the keyword', st, i, fr)
        if nonzero(st, v) or v != ('call', 'rawParse4DPat', (), None) and not zero(st, v):
            if st.truth(('nz', ('call', 'rawParse4DPat', (), None))) is not True:
                eng.report(key, 'an invalid address in a pattern is accepted', st, i, fr)
        has = {x[1]: x[2] for x in st.ts if x[0] == 'has'}
        for F in NEED[kind]:
            src = 'Node' if kind == 'PAT_ZONE' else F
            if has.get(F) != src:
                eng.report(key + f' ({F})', f'the {F} of the pattern is not the one that was given', st, i, fr)


def reading(ctx):
    """an address or pattern is read part by part: the number before ':' is the zone, before '/' the net, before '.' the node, and what comes last
    the point, node or net; missing parts come from the template (addresses) or match everything (patterns); the keywords of patterns give their kind"""
    p = ctx.prog()
    ctx.need(p, 'Parse4DTemplate', 'rawParse4DPat', 'Parse4DPat', 'Parse4DDestPat', 'Parse2DPat', 'Print4D')
    for fn, S, pat in (('Parse4DTemplate', 'Node4D', False), ('rawParse4DPat', 'Node4DPat', True), ('Parse2DPat', 'Node2DPat', True)):
        r = Reader(p, fn, S, pat)
        r.vals = stored_phis(p, p.m.funcs[fn], S)
        heads = {ph.res for c in loops.counters(p, p.m.funcs[fn]) for b in p.m.funcs[fn].blocks if c.phi in b.phis for ph in b.phis}
        r.inner = r.vals - heads
        ctx.run(p, r, fn, frozenset())
        for c in loops.counters(p, p.m.funcs[fn]):
            if not any(x == C0 for x in c.init) and c.init:
                ctx.finding(f'{fn}: reading starts at the first character', 'the first characters of an address are left out', locstr(c.phi))
            if c.step != 1:
                ctx.finding(f'{fn}: every character is read', 'characters of an address are left out', locstr(c.phi))
    for fn, d in (('Parse4DPat', False), ('Parse4DDestPat', True)):
        ctx.run(p, Words(p, fn, d, types(ctx)), fn, frozenset())
    ctx.run(p, Print(), 'Print4D', frozenset())
    ctx.floor('', 12)


class Print(Rule):
    correlate = False

    def track(s, atom, st):
        return True

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('sprintf', 'snprintf') and args[0] == ('arg', 'Print4D', 1):
            key = 'Print4D: an address is written as zone:net/node.point'
            s.ctx.oblige(key, locstr(i))
            k = 1 if t == 'sprintf' else 2
            L = [LD(('arg', 'Print4D', 0), 'Node4D', F) for F in PARTS]
            f = args[k][1].replace('d', 'u').replace('h', '') if args[k][0] == 's' else ''
            full = f == '%u:%u/%u.%u' and list(args[k + 1:]) == L
            short = f == '%u:%u/%u' and list(args[k + 1:]) == L[:3] and zero(st, L[3])
            if not full and not short:
                eng.report(key, 'a part of the address is left out or written in another place', st, i, fr)
            st.ts = frozenset(('done',))
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and not st.ts and not s.other(fr.fn):
            eng.report('Print4D: an address is written as zone:net/node.point', 'nothing is written', st, i, fr)

    def other(s, f):
        return sum(1 for i in f.insts() if i.op == 'call') > 2


RULES = {'A25': ('Patterns select exactly the addresses and names they describe', [kinds, expansion, matching, reading])}
