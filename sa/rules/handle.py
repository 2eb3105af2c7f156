"""Message handling: who may post where, who gets a copy, duplicates, netmail, generated mail."""
from collections import Counter
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .prims import addresses, seenby_lookup
from ..loops import covers, counters, uses_index, bound


def importers(p):
    return set(p.fpslots.get(('F', 'Messagebase', 'importfunc'), ()))


def tossnode_of(t):
    """T if t is T->ConfigNode (T a TossNode)"""
    return ldfld(t, 'TossNode', 'ConfigNode')


class Base(Rule):
    correlate = False
    max_states = 400

    def __init__(s, ctx, p):
        s.p = p
        s.ctx = ctx
        c = ctx.const
        s.imp = importers(p)
        s.EXP, s.NOSEC, s.RESC, s.TOSSED = (c('MMFLAG_' + x) for x in ('EXPORTED', 'NOSECURITY', 'RESCANNED', 'TOSSED'))
        s.AUTOGEN, s.KILL, s.TWIT = (c('MMFLAG_' + x) for x in ('AUTOGEN', 'KILL', 'TWIT'))
        s.setup(c)

    def setup(s, c):
        pass

    def transient(s, atom):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) is not None

    def mmflag(s, atom, truth, masks):
        """atom/truth says that one of the bits in masks is set in mm->Flags"""
        fl = flag(atom, 'MemMessage', 'Flags')
        return fl is not None and truth and fl[1] & ~masks == 0

    def mmnot(s, atom, truth, mask):
        fl = flag(atom, 'MemMessage', 'Flags')
        return fl is not None and not truth and fl[1] & mask == mask


# ------------------------------------------------------------------ A06
class EchoAccess(Base):
    stale_ts = True
    """ts: facts established about sender and area"""

    def setup(s, c):
        s.UNC, s.RO = c('AREA_UNCONFIRMED'), c('TOSSNODE_READONLY')

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('Area', 'TossNode') and 'auth' not in st.ts

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if s.mmflag(atom, truth, s.EXP | s.NOSEC):
            ts.add('auth')
        if atom[0] == 'nz':
            a = call(atom[1], 'Compare4D')
            if a:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    b = fld(u, 'ConfigNode', 'Node')
                    if b is not None and fld(v, 'MemMessage', 'PktOrig') is not None and tossnode_of(b) is not None:
                        ts = {x for x in ts if not (isinstance(x, tuple) and x[0] == 'linked')}
                        if not truth:
                            ts.add(('linked', tossnode_of(b)))
            a = call(atom[1], ('strcasecmp', 'strcmp'))
            if a:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    b = fld(u, 'Area', 'Tagname')
                    if b is not None and fld(v, 'MemMessage', 'Area') is not None:
                        ts = {x for x in ts if not (isinstance(x, tuple) and x[0] == 'area')}
                        if not truth:
                            ts.add(('area', b))
        fl = flag(atom, 'TossNode', 'Flags')
        if fl and fl[1] & s.RO and fl[1] == s.RO and not truth and ('linked', fl[0]) in ts:
            ts.add('auth')
        fl = flag(atom, 'Area', 'Flags')
        if fl and fl[1] & s.UNC == s.UNC and not truth:
            ts.add(('conf', fl[0]))
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        ts = st.ts
        if t == 'AddArea':
            eng.kill_call(st, t, args)
            v = eng.result(st, i, t, (), fr)
            if fld(args[0], 'MemMessage', 'Area') is not None:
                st.ts = frozenset({x for x in ts if not (isinstance(x, tuple) and x[0] == 'area')} | {('area', v)})
            return [(st, v)]
        if t == 'WriteEchoMail' or t in s.imp:
            what = 'forwarding' if t == 'WriteEchoMail' else 'import'
            key = f'HandleEchomail: {what} only for an accepted sender'
            c.oblige(key, locstr(i))
            if 'auth' not in ts:
                eng.report(key, f'{what} of echomail although the sending system was not shown to be linked to the area with write access', st, i, fr)
            key = f'HandleEchomail: {what} only in a confirmed area'
            c.oblige(key, locstr(i))
            conf = {x[1] for x in ts if isinstance(x, tuple) and x[0] == 'conf'}
            area = {x[1] for x in ts if isinstance(x, tuple) and x[0] == 'area'}
            if not conf:
                eng.report(key, f'{what} in an area that may still be unconfirmed', st, i, fr)
            key = f'HandleEchomail: {what} in the area the message names'
            c.oblige(key, locstr(i))
            if t == 'WriteEchoMail':
                if not area:
                    eng.report(key, 'echomail forwarded for an area that was not looked up by the tag of the message', st, i, fr)
            elif args[1] not in area or args[1] not in conf:
                eng.report(key, 'echomail imported in an area other than the confirmed one named by the message', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        pass


def echo_access(ctx):
    """echomail is imported or forwarded only in a confirmed area, from a linked node that may write there"""
    p = ctx.prog()
    ctx.need(p, 'HandleEchomail', 'WriteEchoMail', 'AddArea')
    r = EchoAccess(ctx, p)
    ctx.run(p, r, 'HandleEchomail', frozenset())
    ctx.floor('HandleEchomail: import', 2)


class Rejected(Base):
    """a refused message goes to the bad area: once WriteBad was called nothing else is done with it, and a refusal
    never ends without WriteBad"""

    def setup(s, c):
        s.UNC, s.RO = c('AREA_UNCONFIRMED'), c('TOSSNODE_READONLY')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        fl = flag(atom, 'Area', 'Flags')
        # the decision itself, not the tests made only to word a log line
        if fl and fl[1] == s.UNC:
            st.ts = (st.ts - {'refused'}) | ({'refused'} if truth else frozenset())
        fl = flag(atom, 'TossNode', 'Flags')
        if fl and fl[1] == s.RO and truth:
            st.ts = st.ts | {'refused'}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'WriteBad':
            no, ok = eng.fork(st, t, args)
            ok.ts = frozenset({'bad'})
            no.ts = frozenset({'failed'})
            s.ctx.oblige('HandleEchomail: refused mail is kept in the bad area', locstr(i))
            return [(ok, C1), (no, C0)]
        if t == 'WriteEchoMail' or t in s.imp:
            key = 'HandleEchomail: a refused message goes nowhere else'
            s.ctx.oblige(key, locstr(i))
            if st.ts & {'bad', 'refused'}:
                eng.report(key, 'a refused message is imported or forwarded', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'HandleEchomail: refused mail is kept in the bad area'
        s.ctx.oblige(key, locstr(i))
        if 'refused' in st.ts and not (val == C0 or st.truth(('nz', val)) is False):
            eng.report(key, 'a refused message is dropped without being written to the bad area', st, i, fr)
        if 'failed' in st.ts and not (val == C0 or st.truth(('nz', val)) is False):
            eng.report(key + ' (failure)', 'the bad area could not be written and the message is dropped', st, i, fr)


def echo_refused(ctx):
    """mail refused in an area is written to the bad area and nothing else happens to it"""
    p = ctx.prog()
    ctx.run(p, Rejected(ctx, p), 'HandleEchomail', frozenset())


# ------------------------------------------------------------------ A07
class FanOut(Base):
    def setup(s, c):
        s.PASSIVE, s.WO, s.CSB = c('NODE_PASSIVE'), c('TOSSNODE_WRITEONLY'), c('CFG_CHECKSEENBY')

    def track(s, atom, st):
        if atom[0] == 'nz':
            a = call(atom[1], 'Compare4D')
            if a and (fld(a[0], 'MemMessage', 'PktOrig') is not None or fld(a[1], 'MemMessage', 'PktOrig') is not None) \
                    and any(tossnode_of(fld(x, 'ConfigNode', 'Node')) is not None for x in a):
                return True
            fl = flag(atom, 'ConfigNode', 'Flags')
            if fl and fl[1] == s.PASSIVE:
                return True
            fl = flag(atom, 'TossNode', 'Flags')
            if fl and fl[1] & s.WO:
                return True
            fl = flag(atom, 'Config', 'cfg_Flags')
            if fl and fl[1] == s.CSB:
                return True
            if ldfld(atom[1], 'ConfigNode', 'IsInSeenBy') is not None:
                return True
            if 'added' not in st.ts and ldfld(atom[1], 'Node4D', 'Point') is not None:
                return True
        if 'added' not in st.ts and atom[0] == 'eq' and ldfld(atom[1], 'Node4D', 'Zone') is not None:
            return True
        if atom[0] == 'eq' and ldfld(atom[1], 'ConfigNode', 'IsInSeenBy') is not None:
            return True
        return False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if s.mmnot(atom, truth, s.RESC):
            st.ts = st.ts | {'notrescanned'}
        if atom[0] == 'nz':
            x = atom[1]
            if not truth and 'head' in st.ts and points_to(s.p, x) == 'TossNode':
                st.ts = st.ts | {'reset'}            # the area has no links at all
            if call(x, 'FindNodes2D') is not None:
                a = call(x, 'FindNodes2D')
                if truth and fld(a[0], 'MemMessage', 'SeenBy') is not None:
                    st.ts = st.ts | {'found'}
                elif not truth:
                    st.ts = st.ts - {'found'}

    def on_load(s, eng, st, i, addr, fr):
        if listhead(addr) == 'TossNodes':
            st.ts = st.ts | {'head'}
        elif 'head' in st.ts and addr[0] == 'fld' and addr[2] == 'TossNode':
            st.ts = st.ts - {'head'}
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        b = fld(addr, 'ConfigNode', 'IsInSeenBy')
        if b is not None:
            key = 'HandleEchomail: seen-by state is that of this message'
            s.ctx.oblige(key, locstr(i))
            if val == C0:
                if 'found' in st.ts:
                    eng.report(key, 'a node found in seen-by is recorded as not being there', st, i, fr)
                st.ts = st.ts | {'reset'}
            else:
                ok = 'found' in st.ts or call(val, 'FindNodes2D') is not None
                if not ok:
                    eng.report(key, 'a node not found in seen-by is recorded as being there', st, i, fr)
                nd = ('fld', b, 'ConfigNode', 'Node')
                key = 'HandleEchomail: points and systems of other zones are not in seen-by'
                s.ctx.oblige(key, locstr(i))
                zone = LD(nd, 'Node4D', 'Zone')
                pt = st.truth(('nz', LD(nd, 'Node4D', 'Point'))) is False
                zn = any(a[0] == 'eq' and v and zone in a for a, v in st.facts.items())
                if not pt or not zn:
                    eng.report(key, 'a point, or a system of another zone, is taken for the node in seen-by and gets no copy', st, i, fr)
                st.ts = (st.ts | {'reset'}) - {'found'}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'FindNodes2D':
            if 'found' in st.ts:
                s.ctx.oblige('HandleEchomail: seen-by state is that of this message', locstr(i))
                eng.report('HandleEchomail: seen-by hit is recorded', 'a node found in seen-by is not remembered', st, i, fr)
            if 'added' in st.ts and fld(args[0], 'MemMessage', 'SeenBy') is not None:
                eng.report('HandleEchomail: seen-by is examined before it is extended',
                           'seen-by is searched after the own links were added to it', st, i, fr)
            st.ts = st.ts | {'searched'}
            return None
        if t == 'mmAddNodes2DList' and fld(args[0], 'MemMessage', 'SeenBy') is not None:
            s.ctx.oblige('HandleEchomail: seen-by is examined before it is extended', locstr(i))
            st.ts = st.ts | {'added'}
            return None
        if t == 'WriteEchoMail':
            c = s.ctx
            mm, cn = args[0], args[1]
            T = tossnode_of(cn)
            key = 'HandleEchomail: copies go to links of the area'
            c.oblige(key, locstr(i))
            if T is None:
                eng.report(key, 'echomail written for something that is not a link of the area', st, i, fr)
                return None
            p1, p2 = ('fld', mm, 'MemMessage', 'PktOrig'), ('fld', cn, 'ConfigNode', 'Node')
            ne = any(st.truth(('nz', ('call', 'Compare4D', q, None))) is True for q in ((p1, p2), (p2, p1)))
            csb = st.truth(('nz', AND(CFG('cfg_Flags'), s.CSB)))
            inn = LD(cn, 'ConfigNode', 'IsInSeenBy')
            notin = st.truth(('nz', inn)) is False or st.truth(('eq', inn, C1)) is False
            for name, ok, msg in (
                    ('not back to the sender', ne, 'echomail is sent back to the system it came from'),
                    ('not to passive nodes', st.truth(('nz', AND(LD(cn, 'ConfigNode', 'Flags'), s.PASSIVE))) is False,
                     'echomail is sent to a passive node'),
                    ('not to write-only links', st.truth(('nz', AND(LD(T, 'TossNode', 'Flags'), s.WO))) is False,
                     'echomail is sent to a write-only link'),
                    ('not to systems in seen-by', notin or csb is False,
                     'echomail is sent to a system that is already in seen-by'),
                    ('not for rescanned mail', 'notrescanned' in st.ts, 'rescanned mail is distributed again'),
                    ('seen-by state belongs to this message', 'reset' in st.ts or csb is False,
                     'the seen-by state of an earlier message decides who gets a copy')):
                key = f'HandleEchomail: {name}'
                c.oblige(key, locstr(i))
                if not ok:
                    eng.report(key, msg, st, i, fr)
        return None


def fan_out(ctx):
    """every copy written for a link is guarded: not the sender, not passive, not write-only, not in seen-by, not rescanned"""
    p = ctx.prog()
    ctx.need(p, 'HandleEchomail', 'WriteEchoMail', 'Compare4D', 'FindNodes2D')
    ctx.run(p, FanOut(ctx, p), 'HandleEchomail', frozenset())
    if not any(o.startswith('HandleEchomail: not ') for o in ctx.obligations):
        ctx.finding('HandleEchomail: forwards', 'HandleEchomail no longer forwards echomail to any link')


class Reaches(Base):
    """ts: position (before/after filter, inside an iteration over the links) and the reasons found for not sending"""

    def setup(s, c):
        s.PASSIVE, s.WO, s.CSB = c('NODE_PASSIVE'), c('TOSSNODE_WRITEONLY'), c('CFG_CHECKSEENBY')

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) == 'TossNode' and 'filtered' in st.ts

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if 'filtered' not in ts:
            return
        if s.mmflag(atom, truth, s.RESC):
            ts.add('exempt')
        if s.mmflag(atom, truth, s.KILL):
            ts |= {'exempt', 'noimport'}
        if s.mmflag(atom, truth, s.TWIT):
            ts.add('noimport')
        if s.mmflag(atom, truth, s.EXP):
            ts.add('noimport')
        fl = flag(atom, 'ConfigNode', 'Flags')
        if fl and fl[1] == s.PASSIVE and truth and tossnode_of(fl[0]) is not None:
            ts.add('why')
        fl = flag(atom, 'TossNode', 'Flags')
        if fl and fl[1] == s.WO and truth:
            ts.add('why')
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and fl[1] == s.CSB and truth:
            ts.add('csb')
        if atom[0] == 'nz':
            a = call(atom[1], 'Compare4D')
            if a and not truth:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    if fld(u, 'MemMessage', 'PktOrig') is not None and tossnode_of(fld(v, 'ConfigNode', 'Node')) is not None:
                        ts.add('why')
            x = atom[1]
            if ldfld(x, 'ConfigNode', 'IsInSeenBy') is not None and truth:
                ts.add('seen')
            if points_to(s.p, x) == 'TossNode':
                # a new iteration, or the end of the loop
                if 'pending' in ts:
                    key = 'HandleEchomail: every entitled link gets a copy'
                    s.ctx.oblige(key, locstr(inst))
                    if not ts & {'why', 'written'}:
                        eng.report(key, 'a link that is entitled to the message is skipped', st, inst, fr)
                ts -= {'why', 'seen', 'written', 'pending'}
                ts.add('pending' if truth else 'looped')
            if ldfld(x, 'Area', 'Messagebase') is not None and not truth:
                ts.add('noimport')
        if atom[0] == 'eq' and truth and ldfld(atom[1], 'ConfigNode', 'IsInSeenBy') is not None and atom[2] == C1:
            ts.add('seen')
        if {'csb', 'seen'} <= ts:
            ts.add('why')
        st.ts = frozenset(ts)

    def on_load(s, eng, st, i, addr, fr):
        if 'filtered' not in st.ts:
            return None
        if listhead(addr) == 'TossNodes':
            st.ts = st.ts - {'why', 'seen', 'written', 'pending'}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'Filter':
            no, ok = eng.fork(st, t, args)
            ok.ts = frozenset({'filtered'})
            return [(ok, C1), (no, C0)]
        if t == 'WriteEchoMail':
            no, ok = eng.fork(st, t, args)
            no.ts = ok.ts | {'failed'}
            ok.ts = ok.ts | {'written'}
            return [(ok, C1), (no, C0)]
        if t in s.imp:
            no, ok = eng.fork(st, t, args)
            no.ts = ok.ts | {'failed'}
            ok.ts = ok.ts | {'imported'}
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if 'filtered' not in st.ts or val == C0 or st.truth(('nz', val)) is False:
            return
        for key, ok, msg in (
                ('HandleEchomail: accepted mail is distributed', st.ts & {'looped', 'exempt'}, 'accepted echomail is never offered to the links of the area'),
                ('HandleEchomail: accepted mail is imported', st.ts & {'imported', 'noimport'},
                 'accepted echomail is not stored in the message base of its area'),
                ('HandleEchomail: a failed copy or import is a failure', 'failed' not in st.ts, 'success reported although a copy or the import failed')):
            s.ctx.oblige(key, locstr(i))
            if not ok:
                eng.report(key, msg, st, i, fr)


def reaches(ctx):
    """accepted echomail is written for every entitled link and stored in the area's message base"""
    p = ctx.prog()
    ctx.run(p, Reaches(ctx, p), 'HandleEchomail', frozenset())
    if not any('every entitled link' in o for o in ctx.obligations):
        ctx.finding('HandleEchomail: every entitled link gets a copy', 'accepted echomail is no longer offered to all links after filtering')


# ------------------------------------------------------------------ A06: auto-added areas
class NewArea(Base):
    """ts: does the new area carry the unconfirmed flag"""

    def setup(s, c):
        s.UNC = c('AREA_UNCONFIRMED')

    def track(s, atom, st):
        return atom == ('nz', ('arg', 'AddArea', 3))

    def on_store(s, eng, st, i, addr, val, fr):
        if fld(addr, 'Area', 'Flags') is not None:
            if val[0] == 'c':
                st.ts = bool(val[1] & s.UNC)
            elif val[0] == 'bin' and val[1] == 'or' and val[3][0] == 'c':
                st.ts = st.ts or bool(val[3][1] & s.UNC)
            elif val[0] == 'bin' and val[1] == 'and' and val[3][0] == 'c':
                st.ts = st.ts and bool(val[3][1] & s.UNC)
            else:
                st.ts = False
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'AddArea: an area that may not be used yet is marked unconfirmed'
        s.ctx.oblige(key, locstr(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        if st.truth(('nz', ('arg', 'AddArea', 3))) is not True and not st.ts:
            eng.report(key, 'an auto-added area is usable although auto-adding was not permitted', st, i, fr)


def auto_add(ctx):
    """an area created for an unknown tag is usable only if its sender has the auto-add permission"""
    p = ctx.prog()
    ctx.need(p, 'AddArea')
    ctx.run(p, NewArea(ctx, p), 'AddArea', False)
    AA = ctx.const('NODE_AUTOADD')

    class Arg(Base):
        def track(s, atom, st):
            fl = flag(atom, 'ConfigNode', 'Flags')
            return fl is not None and fl[1] == AA

        def on_call(s, eng, st, i, t, args, fr):
            if t == 'AddArea':
                key = 'HandleEchomail: auto-add permission is that of the sender'
                s.ctx.oblige(key, locstr(i))
                v = args[3]
                ok = v == C0 or (v[0] == 'bin' and v[1] == 'and' and v[3] == ('c', AA) and ldfld(v[2], 'ConfigNode', 'Flags') is not None)
                if not ok and st.truth(('nz', v)) is not False:
                    ok = any(flag(a, 'ConfigNode', 'Flags') and w for a, w in st.facts.items())
                    if not ok:
                        eng.report(key, 'an unknown area is made usable without the auto-add permission of the sender', st, i, fr)
                key = 'HandleEchomail: the new area belongs to the sender of the packet'
                s.ctx.oblige(key, locstr(i))
                if fld(args[1], 'MemMessage', 'PktOrig') is None or fld(args[0], 'MemMessage', 'Area') is None:
                    eng.report(key, 'an unknown area is created for another system or name', st, i, fr)
            return None
    ctx.run(p, Arg(ctx, p), 'HandleEchomail', frozenset())


# ------------------------------------------------------------------ A08
class Dupes(Base):
    def setup(s, c):
        s.IGN, s.BAD = c('DUPE_IGNORE'), c('DUPE_BAD')
        s.IGNA = c('AREA_IGNOREDUPES')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if s.mmnot(atom, truth, s.TOSSED):
            ts.add('exempt')
        fl = flag(atom, 'Area', 'Flags')
        if fl and fl[1] == s.IGNA and truth:
            ts.add('exempt')
        D = CFG('cfg_DupeMode')
        if atom == ('nz', D) and not truth and s.IGN == 0:
            ts.add('exempt')
        if atom[0] == 'eq' and atom[1] == D and truth:
            if atom[2] == ('c', s.IGN):
                ts.add('exempt')
            ts.add(('mode', atom[2][1]))
        if atom[0] == 'eq' and atom[1] == D and not truth and atom[2] == ('c', s.BAD):
            ts.add('notbad')
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'CheckDupe':
            no, ok = eng.fork(st, t, args)
            no.ts = no.ts | {'checked'}
            ok.ts = ok.ts | {'dupe'}
            key = 'HandleEchomail: the message itself is checked'
            c.oblige(key, locstr(i))
            if args[0] != ('arg', 'HandleEchomail', 0):
                eng.report(key, 'the duplicate check looks at something else than the message', st, i, fr)
            return [(ok, C1), (no, C0)]
        if t == 'WriteBad' and 'dupe' in st.ts:
            no, ok = eng.fork(st, t, args)
            ok.ts = st.ts | {'kept'}
            key = 'HandleEchomail: duplicates are kept only when configured'
            c.oblige(key, locstr(i))
            if 'notbad' in st.ts:
                eng.report(key, 'a duplicate is written to the bad area although duplicates are to be killed', st, i, fr)
            return [(ok, C1), (no, C0)]
        if t == 'WriteEchoMail' or t in s.imp:
            what = 'forwarded' if t == 'WriteEchoMail' else 'imported'
            key = f'HandleEchomail: duplicates are not {what}'
            c.oblige(key, locstr(i))
            if 'dupe' in st.ts:
                eng.report(key, f'a duplicate is {what}', st, i, fr)
            key = f'HandleEchomail: received mail is {what} only after the duplicate check'
            c.oblige(key, locstr(i))
            if not st.ts & {'checked', 'exempt'}:
                eng.report(key, f'received echomail is {what} without being checked for duplicates', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        if 'dupe' in st.ts:
            key = 'HandleEchomail: duplicates are kept when configured'
            s.ctx.oblige(key, locstr(i))
            zero = val == C0 or st.truth(('nz', val)) is False
            if not zero and 'kept' not in st.ts and 'notbad' not in st.ts:
                eng.report(key, 'a duplicate is dropped although duplicates are to be kept in the bad area', st, i, fr)
            if zero and 'kept' not in st.ts and not any(isinstance(x, tuple) for x in st.ts):
                eng.report(key + ' (toss goes on)', 'a duplicate makes the whole packet fail', st, i, fr)


def parts(t):
    yield t
    if isinstance(t, tuple) and t and t[0] in ('bin', 'ld'):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from parts(x)


def summed(t):
    """a sum of lengths and a constant"""
    if t[0] == 'c':
        return Counter(), t[1]
    if t[:2] == ('bin', 'add'):
        a, b = summed(t[2]), summed(t[3])
        return a[0] + b[0], a[1] + b[1]
    a = call(t, 'strlen')
    for F in ('MSGID', 'Area'):
        if a and fld(a[0], 'MemMessage', F) is not None:
            return Counter({('len', F): 1}), 0
    return Counter({t: 1}), 0


class CheckDupeRule(Base):
    """CheckDupe: TRUE only after a full comparison, FALSE only after recording the message"""
    LAID = 'laid out'
    whole = (Counter(), 4)          # what the entry consists of so far: the checksum

    def track(s, atom, st):
        return atom[0] == 'nz' and ldfld(atom[1], 'MemMessage', 'MSGID') is not None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq' and truth:
            b = next((ldfld(x, 'dupeentry', 'crc32') for x in atom[1:] if ldfld(x, 'dupeentry', 'crc32') is not None), None)
            if b is not None and any(call(x, 'calcstringcrc') for x in atom[1:]):
                st.ts = frozenset(x for x in st.ts if x[0] != 'crc') | {('crc', b)}
        if atom[0] == 'eq' and sum(any(call(y, 'strlen') for y in parts(x)) for x in atom[1:]) == 1:
            st.ts = st.ts | {'len'} if truth else st.ts - {'len'}
        if atom[0] == 'nz':
            if call(atom[1], ('dupecomp', 'memcmp', 'strcmp')) is not None:
                a = call(atom[1], ('dupecomp', 'memcmp', 'strcmp'))
                if not truth and len(a) > 2 and a[2][0] != 'c':
                    st.ts = st.ts | {'same'}
                    if 'len' not in st.ts:
                        key = 'CheckDupe: entries of different length are different'
                        s.ctx.oblige(key, locstr(inst))
                        eng.report(key, 'a message is compared with an entry of another length', st, inst, fr)
                elif truth:
                    st.ts = st.ts - {'same'}
            x = atom[1]
            if ldfld(x, 'MemMessage', 'MSGID') is not None and not truth:
                st.ts = st.ts | {'nomsgid'}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'AddDupeBuf':
            eng.kill_call(st, t, args)
            st.ts = st.ts | {'recorded'}
            key = 'CheckDupe: all of the id and the area are remembered'
            s.ctx.oblige(key, locstr(i))
            if s.LAID not in st.ts or summed(args[1]) != s.whole:
                eng.report(key, 'the remembered entry is not the checksum, the message id and the area one after the other', st, i, fr)
            return [(st, None)]
        if t == 'osSeek':
            st.ts = st.ts - {'sought'}
            b = ldfld(args[1], 'dupeentry', 'offset')
            if b is not None and ('crc', b) in st.ts and args[2] == s.BEG:
                st.ts = st.ts | {'sought'}
        if t == 'osRead' and args[2][0] == 'c':
            st.ts = st.ts - {'len'}
            key = 'CheckDupe: the entry with the same checksum is compared'
            s.ctx.oblige(key, locstr(i))
            if 'sought' not in st.ts:
                eng.report(key, 'a message is compared with another entry than the one with its checksum', st, i, fr)
        if t == 'strcpy':
            for F in ('MSGID', 'Area'):
                if fld(args[1], 'MemMessage', F) is not None:
                    st.ts = st.ts | {F}
                    off = summed(args[0][2]) if args[0][0] == 'idx' else (Counter(), 0)
                    n = Counter({('len', F): 1})
                    if off == s.whole:
                        s.whole = (off[0] + n, off[1] + 1)
                    elif (off[0] + n, off[1] + 1) != s.whole:
                        s.whole = None
                    if s.whole is not None and {'MSGID', 'Area'} <= st.ts:
                        st.ts = st.ts | {s.LAID}
        return None

    def on_ret(s, eng, st, i, val, fr):
        if val == C0 or st.truth(('nz', val)) is False:
            key = 'CheckDupe: a new message is remembered'
            s.ctx.oblige(key, locstr(i))
            if not st.ts & {'recorded', 'nomsgid'}:
                eng.report(key, 'a message with a message id is reported as new but not remembered', st, i, fr)
            if 'recorded' in st.ts and not {'MSGID', 'Area'} <= st.ts:
                eng.report(key + ' (with id and area)', 'the remembered entry does not contain message id and area', st, i, fr)
        if not (val == C0 or st.truth(('nz', val)) is False):
            key = 'CheckDupe: only a complete match is a duplicate'
            s.ctx.oblige(key, locstr(i))
            if 'same' not in st.ts or not {'MSGID', 'Area'} <= st.ts:
                eng.report(key, 'a message is called a duplicate without its message id and area being equal to a remembered entry', st, i, fr)


class DupeDB(Base):
    """CloseDupeDB replaces the database only with a completely written file"""

    def interesting(s, eng):
        return {'copydupe'}

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('osWrite', 'osClose', 'osPuts', 'osPutChar', 'osFPrintf'):
            if t == 'osClose' and args[0] == GL('dupefh'):
                return None
            no, ok = eng.fork(st, t, args)
            no.ts = True
            s.ctx.oblige(f'CloseDupeDB: failing {t} keeps the old file', locstr(i))
            return [(ok, C1), (no, C0)]
        if t in ('osDelete', 'osRename'):
            dst = args[0] if t == 'osDelete' else args[1]
            if fld(dst, 'Config', 'cfg_DupeFile') is not None:
                key = f'CloseDupeDB: {t} only after a complete copy'
                s.ctx.oblige(key, locstr(i))
                if st.ts:
                    eng.report(key, 'the duplicate database is replaced although writing the new one failed', st, i, fr)
        return None


def dupes(ctx):
    """a received duplicate is neither imported nor forwarded, and every received message is checked first"""
    p = ctx.prog()
    ctx.need(p, 'HandleEchomail', 'CheckDupe')
    ctx.run(p, Dupes(ctx, p), 'HandleEchomail', frozenset())


def index_of(p, g):
    """address computations into the array the global pointer g points to"""
    def pred(i):
        if i.op != 'gep':
            return False
        d = p.defs(i.fn).get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
        return d is not None and d.op == 'load' and d.ops[0] == ('g', g)
    return pred


class Ring(Base):
    """adddupeindex: a new entry goes to the next place, which wraps at the end of the index, and is counted.
    The place and the count at the start are symbols; ts: what is known about them and what was stored"""
    keep_consts = True
    NUM, MAX = ('g', 'dupeentrynum'), ('g', 'dupeentrymax')
    N, M = ('arg', 'ring', 'num'), ('arg', 'ring', 'max')

    def track_mem(s, a, v):
        return a in (s.NUM, s.MAX)

    def on_load(s, eng, st, i, addr, fr):
        for g, x in ((s.NUM, s.N), (s.MAX, s.M)):
            if addr == g and g not in st.mem:
                st.mem[g] = x
        return None

    def name(s, x):
        if x == s.N or x == s.M:
            return 'n' if x == s.N else 'm'
        if x in [('bin', 'add', y, ('c', 1)) for y in (s.N, s.M)]:
            return 'n1' if x[2] == s.N else 'm1'
        if ldfld(x, 'Config', 'cfg_DupeSize') is not None:
            return 'size'
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] not in ('eq', 'lt'):
            return
        x, y = s.name(atom[-2]), s.name(atom[-1])
        if atom[0] == 'eq':
            if {x, y} == {'n1', 'size'}:
                st.ts = st.ts | {('end', truth)}
            elif {x, y} == {'n', 'm'}:
                st.ts = st.ts | {('above', truth)}
            elif {x, y} == {'m', 'size'}:
                st.ts = st.ts | {('full', truth)}
        elif (x, y) == ('n1', 'size'):
            st.ts = st.ts | {('end', not truth)}
        elif (x, y) == ('m', 'n1'):
            st.ts = st.ts | {('above', truth)}
        elif (x, y) in (('n1', 'm'), ('n', 'm')):
            st.ts = st.ts | {('above', not truth)}
        elif (x, y) == ('m', 'size'):
            st.ts = st.ts | {('full', not truth)}

    def on_store(s, eng, st, i, addr, val, fr):
        for k, F in enumerate(('offset', 'crc32')):
            b = fld(addr, 'dupeentry', F)
            if b is not None:
                ok = b[0] == 'idx' and b[2] == s.N and val == ('arg', 'adddupeindex', k)
                st.ts = (st.ts - {F}) | ({F} if ok else set())

    def on_ret(s, eng, st, i, val, fr):
        fn, ts = fr.fn.name, st.ts
        key = f'{fn}: the index wraps at its end'
        s.ctx.oblige(key, locstr(i))
        num, mx = st.mem.get(s.NUM, s.N), st.mem.get(s.MAX, s.M)
        if not (num == C0 and ('end', True) in ts or s.name(num) == 'n1' and ('end', False) in ts
                or num[:2] == ('bin', 'urem') and s.name(num[2]) == 'n1' and s.name(num[3]) == 'size'):
            eng.report(key, 'the next entry is not recorded in the next place of the index', st, i, fr)
        key = f'{fn}: every place that is used is counted'
        s.ctx.oblige(key, locstr(i))
        if not (s.name(mx) == 'n1' and ('above', True) in ts or s.name(mx) == 'm1' and ts & {('full', False), ('above', True)}
                or s.name(mx) == 'm' and ts & {('full', True), ('above', False)}):
            eng.report(key, 'the number of remembered messages does not include the new one, or others that do not exist', st, i, fr)
        key = f'{fn}: the new entry is recorded'
        s.ctx.oblige(key, locstr(i))
        if not {'offset', 'crc32'} <= ts:
            eng.report(key, 'the place in the index does not describe the new entry', st, i, fr)


class NewDupe(Base):
    """AddDupeBuf: a new message is written at the end of the file and entered in the index with that place.
    ts: events so far"""

    def interesting(s, eng):
        return {'osSeek', 'osFTell', 'osWrite', 'adddupeindex'}

    def on_call(s, eng, st, i, t, args, fr):
        end = s.END
        if t == 'osSeek':
            st.ts = frozenset(x for x in st.ts if x != 'end') | ({'end'} if args[1:] == (C0, end) else set())
        elif t == 'osFTell':
            r = eng.result(st, i, t, args, fr)
            if 'end' in st.ts:
                st.ts = st.ts | {('at', r)}
            return [(st, r)]
        elif t == 'osWrite':
            no, yes = eng.fork(st, t, args)
            what = 'size' if args[2] == ('c', 2) and args[1][0] == 'al' else 'data' if args[1] == ('arg', 'AddDupeBuf', 0) and args[2] == ('arg', 'AddDupeBuf', 1) else '?'
            if what == 'size':
                v = yes.mem.get(args[1])
                what = 'size' if v is None or v == ('arg', 'AddDupeBuf', 1) else '?'
            yes.ts = frozenset(x for x in yes.ts if x != 'end') | {('w', sum(1 for x in yes.ts if x[0] == 'w'), what)}
            no.ts = no.ts | {'failed'}
            return [(yes, C1), (no, C0)]
        elif t == 'adddupeindex':
            key = 'AddDupeBuf: the new message is entered with its place in the file'
            s.ctx.oblige(key, locstr(i))
            at = [x[1] for x in st.ts if x[0] == 'at']
            ws = {x for x in st.ts if x[0] == 'w'}
            if args[0] not in at or args[1] != ('ld', ('arg', 'AddDupeBuf', 0)) or ws != {('w', 0, 'size'), ('w', 1, 'data')}:
                eng.report(key, 'the index does not say where the new message and its checksum are in the file', st, i, fr)
            st.ts = st.ts | {'entered'}
            return [(st, None)]
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        if addr == ('g', 'dupechanged'):
            st.ts = st.ts - {'changed'} if val == C0 else st.ts | {'changed'}

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        key = 'AddDupeBuf: a new message is entered and makes the file be written'
        s.ctx.oblige(key, locstr(i))
        if 'failed' not in st.ts and not {'entered', 'changed'} <= st.ts:
            eng.report(key, 'a message that was written is not entered in the index or the file is not brought up to date at the end', st, i, fr)


class OldDupes(Base):
    """OpenDupeDB: every entry of the file is entered in the index with its place and its checksum.
    ts: which entries have been read and entered in this pass of the loop"""

    def interesting(s, eng):
        return {'osRead', 'adddupeindex'}

    def place(s, f, op):
        """is the operand the place of the current entry: 4 at first, then two bytes and the entry further on"""
        d = s.p.defs(f)
        i = d.get(op[1]) if op[0] == 'v' else None
        if i is None or i.op != 'phi':
            return False
        for _, v in i.extra:
            if v[0] == 'c':
                if v[1] != 4:
                    return False
                continue
            parts, todo = [], [v]
            while todo:
                o = todo.pop()
                j = d.get(o[1]) if o[0] == 'v' else None
                if j is not None and j.op == 'bin' and j.extra == 'add':
                    todo += j.ops
                elif j is not None and j.op == 'cast':
                    todo.append(j.ops[0])
                else:
                    parts.append(o if j is None or j.op != 'load' else ('ld', frozenset(s.p.loc_of(f, j.ops[0]))))
            if sorted(parts, key=repr) != sorted([op, ('c', 2), ('ld', s.size)], key=repr):
                return False
        return True

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osRead' and args[2] == ('c', 2):
            s.size = frozenset(s.p.loc_of(fr.fn, i.ops[1]))
            r = eng.result(st, i, t, args, fr)
            st.ts = frozenset({('r', r)})
            return [(st, r)]
        if t == 'osRead' and args[2][0] != 'c':
            r = eng.result(st, i, t, args, fr)
            st.ts = frozenset(x for x in st.ts if x[0] != 'b') | {('b', args[1])}
            return [(st, r)]
        if t == 'adddupeindex':
            key = 'OpenDupeDB: an entry of the file is entered with its place and checksum'
            s.ctx.oblige(key, locstr(i))
            buf = [x[1] for x in st.ts if x[0] == 'b']
            if not s.place(fr.fn, i.ops[0]) or len(buf) != 1 or args[1] != ('ld', buf[0]):
                eng.report(key, 'the index does not say where an entry of the file begins or which checksum it has', st, i, fr)
            eng.kill_call(st, t, args)
            st.ts = st.ts | {'entered'}
            return [(st, None)]
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        for x in st.ts:
            if x[0] == 'r' and atom in (('eq', x[1], ('c', 2)), ('eq', ('c', 2), x[1])):
                st.ts = st.ts | {'entry' if truth else 'end'}

    def on_back(s, eng, st, fr):
        if fr.caller is None and 'entry' in st.ts and 'entered' not in st.ts:
            eng.report('OpenDupeDB: every entry of the file is entered', 'an entry of the file is passed over', st, None, fr)

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None and val == C1:
            key = 'OpenDupeDB: every entry of the file is entered'
            s.ctx.oblige(key, locstr(i))
            if 'end' not in st.ts:
                eng.report(key, 'reading the file stops before its end', st, i, fr)


def check_dupe(ctx):
    """the duplicate check remembers new messages and calls only complete matches duplicates"""
    p = ctx.prog()
    ctx.need(p, 'CheckDupe', 'AddDupeBuf', 'adddupeindex')
    r = CheckDupeRule(ctx, p)
    r.BEG = ('c', ctx.const('OFFSET_BEGINNING'))
    ctx.run(p, r, 'CheckDupe', frozenset())
    MX, NUM = {('G', 'dupeentrymax')}, {('G', 'dupeentrynum')}
    covers(ctx, p, 'CheckDupe', index_of(p, 'dupebuf'), 'every remembered message is compared', 0, MX,
           'not every remembered message is looked at')
    ctx.run(p, Ring(ctx, p), 'adddupeindex', frozenset())
    r = NewDupe(ctx, p)
    r.END = ('c', ctx.const('OFFSET_END'))
    ctx.run(p, r, 'AddDupeBuf', frozenset())
    ctx.need(p, 'OpenDupeDB')
    ctx.run(p, OldDupes(ctx, p), 'OpenDupeDB', frozenset())


def dupe_db(ctx):
    """the duplicate database is replaced only by a completely written file"""
    p = ctx.prog()
    ctx.need(p, 'CloseDupeDB')
    ctx.run(p, DupeDB(ctx, p), 'CloseDupeDB', False)
    f = p.m.funcs['CloseDupeDB']
    NUM, MAX = ('G', 'dupeentrynum'), ('G', 'dupeentrymax')
    have, at = set(), ''
    for c in counters(p, f):
        us = list(uses_index(p, c, lambda i: i.op == 'call' and i.extra[0] == ('g', 'copydupe')))
        if not us or c.step != 1 or len(c.init) != 1:
            continue
        at = locstr(us[0])
        x = c.init[0]
        d = p.defs(f).get(x[1]) if x[0] == 'v' else None
        lo = x[1] if x[0] == 'c' else (NUM if d is not None and d.op == 'load' and set(p.loc_of(f, d.ops[0])) == {NUM} else None)
        for l, o in bound(p, c):
            if l is not None:
                have.add((lo, next(iter(l), o) if o == 0 or not l else None))
    if have:
        key = 'CloseDupeDB: every remembered message is kept'
        ctx.oblige(key, at)
        if (0, MAX) not in have and not {(0, NUM), (NUM, MAX)} <= have:
            ctx.finding(key, 'not every remembered message is written to the new duplicate database', at)


# ------------------------------------------------------------------ A09
def checkers(p):
    return set(p.fpslots.get(('F', 'Nodelist', 'nlCheckNode'), ()))


class Netmail(Base):
    stale_ts = True

    def setup(s, c):
        f = lambda *n: sum(c('FLAG_' + x) for x in n)
        s.KEEP = f('PVT', 'CRASH', 'FILEATTACH', 'HOLD', 'RREQ', 'IRRR', 'AUDIT')
        s.PRIO = f('CRASH', 'HOLD')
        s.FA = c('FLAG_FILEATTACH')
        s.FLAV = {('c', c('PKTS_CRASH')), ('c', c('PKTS_HOLD'))}
        s.NOROUTE, s.BPT = c('CFG_NOROUTE'), c('CFG_BOUNCEPOINTS')
        s.NET = c('AREATYPE_NETMAIL')
        s.nl = checkers(s.p)

    def track(s, atom, st):
        if atom[0] != 'nz':
            return False
        pt = points_to(s.p, atom[1])
        return pt in ('Area', 'Aka', 'PatternNode', 'ImportNode', 'TossNode') or (pt == 'ConfigNode' and 'akapt' in st.ts)

    def on_load(s, eng, st, i, addr, fr):
        h = listhead(addr)
        if h == 'AkaList':
            st.ts = st.ts - {'mine'}
        elif h in ('FileAttachList', 'BounceList'):
            st.ts = frozenset(x for x in st.ts if x not in ('FileAttachList', 'BounceList')) | {h}
        elif h == 'RouteList':
            st.ts = st.ts | {'routing'}
            last = {x[1] for x in st.ts if isinstance(x, tuple) and x[0] == 'nettest'}
            for cond, name, msg in (('mine', 'mail for an own address', 'netmail for one of the own addresses is routed although there is a netmail area'),
                                    ('noroute', 'mail while routing is switched off', 'netmail is routed although NOROUTE is configured and there is a netmail area'),
                                    ('areamatch', 'mail for an import address', 'netmail for an address of a netmail area is routed')):
                key = f'HandleNetmail: {name} is not routed'
                s.ctx.oblige(key, locstr(i))
                if cond in st.ts and (cond == 'areamatch' or True in last):
                    eng.report(key, msg, st, i, fr)
            st.ts = frozenset(x for x in st.ts if x in ('notkill', 'routing', 'bounced', 'local', 'flavour') or x[0] == 'mask')
        elif h == 'AreaList':
            st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] in ('nettest', 'net')) and x not in ('areamatch', 'notautogen'))
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if s.mmnot(atom, truth, s.KILL):
            ts.add('notkill')
        if s.mmnot(atom, truth, s.TWIT):
            ts.add('nottwit')
        if s.mmnot(atom, truth, s.AUTOGEN):
            ts.add('notautogen')
        if s.mmnot(atom, truth, s.TOSSED):
            ts.add('local')
        if s.mmflag(atom, truth, s.EXP) and 'attach' in ts:
            ts.add('attachok')
        fl = flag(atom, 'MemMessage', 'Attr')
        if fl and fl[1] & s.PRIO and truth and 'local' not in ts and next((x[1] for x in ts if isinstance(x, tuple) and x[0] == 'mask'), 0xffff) & fl[1] & s.PRIO:
            ts.add('flavour')           # chosen by an attribute of a received message
        if fl and fl[1] == s.FA and truth and 'routing' in ts:
            ts.add('attach')
        if fl and fl[1] == s.FA and not truth and 'routing' in ts:
            ts.add('attachok')
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and fl[1] == s.NOROUTE and truth:
            ts.add('noroute')
        if atom[0] == 'eq' and atom[2] == ('c', s.NET):
            b = ldfld(atom[1], 'Area', 'AreaType')
            if b is not None:
                ts = {x for x in ts if not (isinstance(x, tuple) and x[0] in ('nettest', 'net'))}
                ts.add(('nettest', truth))
                if truth:
                    ts.add(('net', b))
        if atom[0] == 'nz':
            a = call(atom[1], 'Compare4D')
            if a:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    ak = fld(u, 'Aka', 'Node')
                    dest = fld(v, 'MemMessage', 'DestNode') is not None
                    if ak is not None and dest:
                        if ldfld(ak, 'Area', 'Aka') is not None:
                            ts.discard('areamatch')
                            if not truth:
                                ts.add('areamatch')
                        elif not truth:
                            ts.add('mine')
                    elif ak is not None and addr_root(v)[0] == 'al':
                        ts.discard('akapt')
                        if not truth:
                            ts.add('akapt')
                    if fld(u, 'ImportNode', 'Node') is not None and dest and not truth:
                        ts.add('areamatch')
                    if fld(u, 'ConfigNode', 'Node') is not None and dest and not truth:
                        ts.discard('akapt')
            a = call(atom[1], 'Compare4DPat')
            if a and not truth and fld(a[0], 'PatternNode', 'Pattern') is not None and fld(a[1], 'MemMessage', 'DestNode') is not None:
                if 'FileAttachList' in ts:
                    ts.add('attachok')
                if 'BounceList' in ts:
                    ts.add('bmatch')
            if not truth and 'akapt' in ts and points_to(s.p, atom[1]) == 'ConfigNode':
                ts.add('badpoint')
        st.ts = frozenset(ts)

    def on_store(s, eng, st, i, addr, val, fr):
        if fld(addr, 'MemMessage', 'Type') is not None and val in s.FLAV:
            key = 'HandleNetmail: received mail does not choose crash or hold'
            s.ctx.oblige(key, locstr(i))
            if 'flavour' in st.ts:
                eng.report(key, 'a received netmail is sent as crash or put on hold because of its attributes', st, i, fr)
        if fld(addr, 'MemMessage', 'Attr') == ('arg', 'HandleNetmail', 0):
            m = next((x[1] for x in st.ts if isinstance(x, tuple) and x[0] == 'mask'), 0xffff)
            if val[0] == 'bin' and val[3][0] == 'c' and val[1] in ('and', 'or') and ldfld(val[2], 'MemMessage', 'Attr') is not None:
                m = (m & val[3][1]) if val[1] == 'and' else (m | val[3][1])
            elif val[0] == 'c':
                m = val[1]
            else:
                m = 0xffff
            st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'mask')) | {('mask', m & 0xffff)}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx

        def need(key, ok, msg):
            key = 'HandleNetmail: ' + key
            c.oblige(key, locstr(i))
            if not ok:
                eng.report(key, msg, st, i, fr)
        ts = st.ts
        if t == 'Filter':
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts - {'notkill', 'nottwit'}
            return [(ok, C1), (no, C0)]
        if t in s.nl:
            no, ok = eng.fork(st, t, args)
            no.ts = (no.ts - {'bmatch'}) | {'absent'}
            ok.ts = ok.ts - {'bmatch'}
            return [(ok, C1), (no, C0)]
        if t == 'AreaFix':
            need('AreaFix is reached only by mail to an own address', 'mine' in ts, 'AreaFix handles a message that is not for one of the own addresses')
            need('AreaFix never answers generated mail', 'notautogen' in ts, 'AreaFix answers a message generated by CrashMail itself')
            return None
        if t == 'Bounce':
            eng.kill_call(st, t, args)
            no, ok = st.copy(), st
            ok.ts = frozenset({'bounced', 'notkill'} & (ok.ts | {'bounced'}))
            no.ts = frozenset()
            return [(ok, C1), (no, C0)]
        if t in s.imp:
            need('killed mail is not imported', 'notkill' in ts, 'a message killed by a filter is imported')
            need('twit mail is not imported', 'nottwit' in ts, 'a message marked as twit is imported')
            need('bounced mail is not imported', 'bounced' not in ts, 'a bounced message is also imported')
            need('imported into a netmail area', ('net', args[1]) in ts, 'netmail is imported into an area that is not a netmail area')
            need('only mail for this system is imported', bool(ts & {'mine', 'noroute', 'areamatch'}),
                 'netmail for another system is imported instead of routed')
            st.ts = frozenset()
        if t == 'WriteNetMail':
            need('killed mail is not routed', 'notkill' in ts, 'a message killed by a filter is routed')
            need('bounced mail is not routed', 'bounced' not in ts, 'a bounced message is also routed')
            need('mail to unlisted systems is bounced', not ts & {'absent', 'bmatch'},
                 'netmail matching BOUNCE is routed although its destination is not in the nodelist')
            need('mail to unknown points is bounced', 'badpoint' not in ts, 'netmail for an unknown point is routed')
            need('file-attaches are routed only when allowed', 'attachok' in ts,
                 'a received file-attach is routed to a destination that is not allowed by FILEATTACH')
            m = next((x[1] for x in ts if isinstance(x, tuple) and x[0] == 'mask'), 0xffff)
            need('only transit attributes are passed on', m & ~s.KEEP == 0, 'local message attributes leave the system with routed netmail')
            need('received mail is not routed as crash or hold', 'local' in ts or m & s.PRIO == 0,
                 'a received netmail keeps its crash or hold attribute when it is routed')
            need('the message itself is routed', args[0] == ('arg', 'HandleNetmail', 0), 'another message is routed')
            st.ts = frozenset()
        return None

    def on_ret(s, eng, st, i, val, fr):
        pass


def netmail(ctx):
    """netmail is routed or imported only along the permitted ways"""
    p = ctx.prog()
    ctx.need(p, 'HandleNetmail', 'WriteNetMail', 'Bounce', 'Filter')
    r = Netmail(ctx, p)
    ctx.run(p, r, 'HandleNetmail', frozenset())
    for o in ('HandleNetmail: the message itself is routed', 'HandleNetmail: imported into a netmail area'):
        if o not in ctx.obligations:
            ctx.finding(o, 'netmail is no longer ' + ('routed' if 'routed' in o else 'imported'))


RULES = {
    'A06': ('Echomail enters an area only from linked systems with write access', [echo_access, echo_refused, auto_add, addresses]),
    'A07': ('Each echomail copy goes only to links entitled to it', [fan_out, reaches, addresses, seenby_lookup]),
    'A08': ('Received duplicates are neither imported nor forwarded', [dupes, check_dupe, dupe_db]),
    'A09': ('Netmail is imported, routed or bounced only as configured', [netmail, addresses]),
}
