"""SEEN-BY and PATH of forwarded echomail."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .handle import Base, tossnode_of
from .prims import addresses, entry


def part_of(t, F):
    """base B if t loads B.F of a Node4D inside B"""
    return ldfld(t, 'Node4D', F)


def own(b):
    """b is &area->Aka->Node"""
    a = fld(b, 'Aka', 'Node')
    return a is not None and ldfld(a, 'Area', 'Aka') is not None


def link(b):
    """T if b is &T->ConfigNode->Node"""
    a = fld(b, 'ConfigNode', 'Node')
    return None if a is None else tossnode_of(a)


def is_rescan(b):
    a = fld(b, 'ConfigNode', 'Node')
    return a == GL('RescanNode')


class SeenBy(Base):
    """ts: what has been established about the lists of the message"""

    def __init__(s, ctx, p, root):
        super().__init__(ctx, p)
        s.root = root
        s.mm = ('arg', root, 0)

    def setup(s, c):
        s.PASSIVE, s.WO, s.P3 = c('NODE_PASSIVE'), c('TOSSNODE_WRITEONLY'), c('CFG_PATH3D')

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) == 'TossNode'

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom[0] == 'nz':
            x = atom[1]
            b = part_of(x, 'Point')
            if b is not None:
                if own(b) and truth:
                    ts.add('own is a point')
                if link(b) is not None:
                    ts.add('why' if truth else 'np')
                if is_rescan(b) and truth:
                    ts.add('dest is a point')
            if points_to(s.p, x) == 'TossNode':
                # a new iteration, or the end of the loop
                if 'pending' in ts and not ts & {'why', 'added'}:
                    ts.add('dirty')
                ts -= s.PER
                if truth:
                    ts.add('pending')
                elif 'dirty' not in ts:
                    ts.add('links')
            if x == ('ld', ('fld', ('fld', s.mm, 'MemMessage', 'SeenBy'), 'jbList', 'First')) and not truth:
                ts.add('zone')
        if atom[0] == 'eq':
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                b, d = part_of(x, 'Zone'), part_of(y, 'Zone')
                if b is not None and d is not None and own(b):
                    if link(d) is not None:
                        ts.add('sz' if truth else 'why')
                    if fld(d, 'MemMessage', 'PktOrig') == s.mm and truth:
                        ts.add('zone')
        fl = flag(atom, 'ConfigNode', 'Flags')
        if fl and fl[1] == s.PASSIVE and tossnode_of(fl[0]) is not None:
            ts.add('why' if truth else 'npas')
        fl = flag(atom, 'TossNode', 'Flags')
        if fl and fl[1] == s.WO:
            ts.add('why' if truth else 'nwo')
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and fl[1] == s.P3 and not truth:
            ts.add('no3d')
        st.ts = frozenset(ts)

    PER = {'why', 'np', 'sz', 'npas', 'nwo', 'added', 'pending'}

    def on_load(s, eng, st, i, addr, fr):
        if listhead(addr) == 'TossNodes':
            st.ts = st.ts - s.PER - {'dirty'}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        sb = bool(args) and fld(args[0], 'MemMessage', 'SeenBy') == s.mm
        if t == 'mmAddNodes2DList' and sb:
            n, f = part_of(args[1], 'Net'), part_of(args[2], 'Node')
            no, ok = eng.fork(st, t, args)
            ts = ok.ts
            if s.root == 'HandleEchomail':
                key = f'{s.root}: seen-by of another zone is dropped before anything is added'
                s.ctx.oblige(key, locstr(i))
                if 'zone' not in ts:
                    eng.report(key, 'systems are added to the seen-by list of a message that may come from another zone', ok, i, fr)
            if n is not None and n == f:
                if own(n):
                    ok.ts = ts | {'own'}
                elif link(n) is not None:
                    key = f'{s.root}: only receiving systems of the zone are added to seen-by'
                    s.ctx.oblige(key, locstr(i))
                    if not {'np', 'sz', 'npas', 'nwo'} <= ts:
                        eng.report(key, 'a link is listed in seen-by although it is a point, in another zone, passive or write-only', ok, i, fr)
                    ok.ts = ts | {'added'}
                elif is_rescan(n):
                    ok.ts = ts | {'dest'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t in ('mmRemNodes2DListPat', 'mmRemNodes2DList') and sb:
            st.ts = st.ts - {'own'}
        if t == 'jbFreeList':
            if sb:
                st.ts = (st.ts - {'own', 'links', 'dest'}) | {'zone'}
            if fld(args[0], 'MemMessage', 'Path') == s.mm:
                st.ts = st.ts - {'path'}
        if t == 'AddNodePath' and fld(args[0], 'MemMessage', 'Path') == s.mm and own(args[1]):
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {'path'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'WriteEchoMail':
            ts = st.ts
            want = [('the own system is in seen-by', {'own', 'own is a point'} & ts, 'echomail is sent without the own address in its seen-by list'),
                    ('the own system is in the path', 'path' in ts or {'own is a point', 'no3d'} <= ts, 'echomail is sent without the own address in its path')]
            if s.root == 'HandleEchomail':
                want.append(('all receiving links are in seen-by', 'links' in ts, 'echomail is sent although a link that receives the area may be missing in its seen-by list'))
            else:
                want.append(('the destination is in seen-by', {'dest', 'dest is a point'} & ts, 'a rescanned message is sent without its destination in its seen-by list'))
            for k, good, msg in want:
                key = f'{s.root}: {k}'
                s.ctx.oblige(key, locstr(i))
                if not good:
                    eng.report(key, msg, st, i, fr)
        return None


def forwarded(ctx):
    """own address and all receiving links are in SEEN-BY and PATH before echomail is written"""
    p = ctx.prog()
    for r in ('HandleEchomail', 'HandleRescan'):
        ctx.need(p, r)
        ctx.run(p, SeenBy(ctx, p, r), r, frozenset())
    ctx.floor('HandleEchomail: ', 3)


class Written(Base):
    """WriteEchoMail: which lists end up in the packet"""
    node, aka, mm = (('arg', 'WriteEchoMail', k) for k in (1, 2, 0))

    def __init__(s, ctx, p):
        super().__init__(ctx, p)
        s.mm, s.node, s.aka = (('arg', 'WriteEchoMail', k) for k in (0, 1, 2))

    def setup(s, c):
        s.TINY, s.NOSB = c('NODE_TINYSEENBY'), c('NODE_NOSEENBY')

    def who(s, b):
        if fld(b, 'ConfigNode', 'Node') == s.node:
            return 'node'
        if fld(b, 'Aka', 'Node') == s.aka:
            return 'aka'

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom[0] == 'eq':
            w = {s.who(part_of(x, 'Zone')) for x in atom[1:]}
            if w == {'node', 'aka'}:
                ts.add('same zone' if truth else 'other zone')
        fl = flag(atom, 'ConfigNode', 'Flags')
        if fl and fl[0] == s.node:
            if fl[1] == s.TINY:
                ts.add('tiny' if truth else 'not tiny')
            if fl[1] == s.NOSB and truth:
                ts.add('no seen-by')
        if atom[0] == 'nz' and truth:
            b = part_of(atom[1], 'Point')
            w = b is not None and s.who(b)
            if w:
                ts.add(w)
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'mmAddNodes2DList':
            n, f = part_of(args[1], 'Net'), part_of(args[2], 'Node')
            no, ok = eng.fork(st, t, args)
            w = s.who(n) if n is not None and n == f else None
            ok.ts = ok.ts | {w} if w else ok.ts | {'stranger'}
            return [(ok, C1), (no, C0)] if i.res else [(ok, None), (no, None)]
        if t == 'WriteSeenBy':
            no, ok = eng.fork(st, t, args)
            full = fld(args[1], 'MemMessage', 'SeenBy') == s.mm
            key = 'WriteEchoMail: links of other zones and tiny links get the short list'
            s.ctx.oblige(key, locstr(i))
            if full and not {'same zone', 'not tiny'} <= ok.ts:
                eng.report(key, 'the full seen-by list goes to a link of another zone or one configured for tiny seen-by', ok, i, fr)
            key = 'WriteEchoMail: the short list names receiver and own system'
            s.ctx.oblige(key, locstr(i))
            if not full and (not {'node', 'aka'} <= ok.ts or 'stranger' in ok.ts or not ok.ts & {'other zone', 'tiny'}):
                eng.report(key, 'the short seen-by list lacks the receiver or the own system, or is used for an ordinary link', ok, i, fr)
            ok.ts = ok.ts | {'seen-by'}
            return [(ok, C1), (no, C0)] if i.res else [(ok, None), (no, None)]
        if t == 'WritePath':
            no, ok = eng.fork(st, t, args)
            if fld(args[1], 'MemMessage', 'Path') == s.mm:
                ok.ts = ok.ts | {'path'}
            return [(ok, C1), (no, C0)] if i.res else [(ok, None), (no, None)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if val == C0 or st.truth(('nz', val)) is False:
            return
        for k, good in (('seen-by', st.ts & {'seen-by', 'no seen-by'}), ('path', 'path' in st.ts)):
            key = f'WriteEchoMail: every copy carries {k}'
            s.ctx.oblige(key, locstr(i))
            if not good:
                eng.report(key, f'an echomail copy is written without its {k} lines', st, i, fr)


def written(ctx):
    """each copy carries PATH and the SEEN-BY lines its receiver is to get"""
    p = ctx.prog()
    ctx.need(p, 'WriteEchoMail')
    ctx.run(p, Written(ctx, p), 'WriteEchoMail', frozenset())


class Add2D(Rule):
    """mmAddNodes2DList: success means the entry is in the list"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] != 'eq':
            return
        for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
            for F, k in (('Net', 1), ('Node', 2)):
                e = entry(x, F)
                if e is not None and y == ('arg', fr.fn.name, k):
                    st.ts = st.ts | {F} if truth else st.ts - {'Net', 'Node'}

    def on_load(s, eng, st, i, addr, fr):
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        for F, k in (('Net', 1), ('Node', 2)):
            if entry(('ld', addr), F) is not None:
                m = 'new ' + F
                st.ts = st.ts | {m} if val == ('arg', fr.fn.name, k) else st.ts - {m}
        if fld(addr, 'Nodes2D', 'Nodes') is not None:
            if val == ('bin', 'add', ('ld', addr), C1):
                st.ts = st.ts | {'counted'}
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'mmAddNodes2DList: success means the system is listed'
        s.ctx.oblige(key, locstr(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        if not ({'Net', 'Node'} <= st.ts or {'new Net', 'new Node', 'counted'} <= st.ts):
            eng.report(key, 'a system is reported as listed in seen-by although it is not', st, i, fr)


class Rem2D(Rule):
    """entries are removed from seen-by only when they match"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz':
            a = call(atom[1], 'Compare2DPat')
            if a and entry(a[1], 'Net') is not None and entry(a[2], 'Node') == entry(a[1], 'Net'):
                st.ts = entry(a[1], 'Net') if not truth else None

    def on_store(s, eng, st, i, addr, val, fr):
        for F in ('Net', 'Node'):
            e = entry(('ld', addr), F)
            if e is not None:
                key = f'{fr.fn.name}: only matching entries are removed'
                s.ctx.oblige(key, locstr(i))
                if st.ts != e:
                    eng.report(key, 'a seen-by entry is removed although it was not found to match the configured pattern', st, i, fr)
        return None


class PathTail(Rule):
    """AddNodePath: the address is taken as present only when net, node and point of the last entry match"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq' and truth:
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                for F in ('Net', 'Node', 'Point'):
                    b, d = part_of(x, F), part_of(y, F)
                    if d == ('arg', fr.fn.name, 1) and b is not None and b != d:
                        st.ts = st.ts | {F}
        if atom[0] == 'nz' and part_of(atom[1], 'Point') == ('arg', fr.fn.name, 1):
            st.ts = st.ts | {'has point' if truth else 'no point'}

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('strcat', 'sprintf', 'strcpy', 'snprintf') and any(fld(x, 'Path', 'Path') is not None for x in unwrap(args[0])):
            st.ts = st.ts | {'written'}
        if t in ('sprintf', 'snprintf') and any(part_of(a, 'Point') == ('arg', fr.fn.name, 1) for a in args):
            st.ts = st.ts | {'point written'}
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'AddNodePath: success means the address ends the path'
        s.ctx.oblige(key, locstr(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        if {'Net', 'Node', 'Point'} <= st.ts or ('written' in st.ts and ('point written' in st.ts or 'no point' in st.ts)):
            return
        eng.report(key, 'the own address is taken as the last of the path although it was neither compared completely nor added', st, i, fr)


def unwrap(t):
    while isinstance(t, tuple) and t:
        yield t
        t = t[1] if t[0] in ('idx', 'off') else None


def lists(ctx):
    """adding to and removing from the lists does what its result says"""
    p = ctx.prog()
    ctx.need(p, 'mmAddNodes2DList', 'mmRemNodes2DListPat', 'AddNodePath')
    ctx.run(p, Add2D(), 'mmAddNodes2DList', frozenset())
    ctx.run(p, Rem2D(), 'mmRemNodes2DListPat', None)
    ctx.run(p, PathTail(), 'AddNodePath', frozenset())


RULES = {
    'A24': ('Forwarded echomail names the own system and its receivers', [forwarded, written, lists, addresses]),
}
