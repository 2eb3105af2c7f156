"""Export of messages from the message bases: what is sent, what is marked, what is remembered."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken
from ..pat import *
from .fate import zero
from .. import loops


def bits(atom, truth, S, F):
    """(bits known to be set, bits known to be clear) in S.F"""
    if atom[0] == 'nz':
        fl = flag(atom, S, F)
        if fl:
            m = fl[1]
            if not truth:
                return 0, m
            if m & (m - 1) == 0:
                return m, 0
    if atom[0] == 'eq' and truth and atom[2][0] == 'c':
        x = atom[1]
        if x[0] == 'bin' and x[1] == 'and' and x[3][0] == 'c' and ldfld(x[2], S, F) is not None:
            return atom[2][1], x[3][1] & ~atom[2][1]
    return 0, 0


def ored(val, m):
    """val is something | c with all bits of m in c"""
    return isinstance(val, tuple) and val and ((val[0] == 'bin' and val[1] == 'or' and val[3][0] == 'c' and val[3][1] & m == m)
                                               or (val[0] == 'c' and val[1] & m == m))


class ExportOne(Rule):
    """one message of a message base.  ts: what is known about it and what was done"""
    correlate = False
    max_states = 600
    S = F = None

    def __init__(s, ctx, p, fn):
        s.ctx, s.p, s.fn = ctx, p, fn
        c = ctx.const
        s.rescan = ('arg', fn, 3)
        s.num = ('arg', fn, 1)
        s.handlers = set(p.fpslots.get(('PV', fn, 2), ()))
        s.EXP, s.RES = c('MMFLAG_EXPORTED'), c('MMFLAG_RESCANNED')
        s.ALLOW, s.KILLSENT = c('CFG_ALLOWKILLSENT'), c('FLAG_KILLSENT')
        s.NETMAIL = c('AREATYPE_NETMAIL')
        s.setup(c)

    def mode(s, st):
        t = st.truth(('nz', s.rescan))
        return {True: 'rescan', False: 'export', None: None}[t]

    def track(s, atom, st):
        return atom == ('nz', s.rescan)

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        on, off = bits(atom, truth, s.S, s.F)
        if on & s.LOCAL:
            ts.add('local')
        if off & s.SENT:
            ts.add('unsent')
        if s.DELETED and off & s.DELETED:
            ts.add('undeleted')
        if on & s.KILLBITS:
            ts.add('killsent')
        on, off = bits(atom, truth, 'Config', 'cfg_Flags')
        if on & s.ALLOW:
            ts.add('allowed')
        if atom[0] == 'eq' and atom[2] == ('c', s.NETMAIL) and ldfld(atom[1], 'Area', 'AreaType') is not None:
            if 'handled' not in ts and ('echomail' if truth else 'netmail') in ts:
                return False        # the type of the area does not change while the message is read
            ts.discard('netmail'), ts.discard('echomail')
            ts.add('netmail' if truth else 'echomail')
        s.more(eng, st, atom, truth, ts)
        st.ts = frozenset(ts)

    def more(s, eng, st, atom, truth, ts):
        x = atom[1]
        if atom[0] == 'nz' and truth and x[0] == 'bin' and x[1] == 'and' and x[3] == ('c', s.KILLSENT):
            # a saved copy of the attributes
            ts.add('killsent')

    def on_store(s, eng, st, i, addr, val, fr):
        ts = set(st.ts)
        if fld(addr, 'MemMessage', 'Flags') is not None:
            m, v = 0, val
            while isinstance(v, tuple) and v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c':
                m, v = m | v[3][1], v[2]
            if ldfld(v, 'MemMessage', 'Flags') is None:
                ts -= {'fE', 'fR'}
                m |= v[1] if v[0] == 'c' else 0
            if m & s.EXP:
                ts.add('fE')
            if m & s.RES:
                ts.add('fR')
        if fld(addr, 'MemMessage', 'Attr') is not None and 'handled' in ts:
            ts.discard('mmattr')
            if ored(val, s.SENT) or ldfld(val, s.S, s.F) is not None and 'marked' in ts:
                ts.add('mmattr')
        if fld(addr, 'MemMessage', 'Area') is not None and val == C0:
            ts.discard('aE')
        if fld(addr, s.S, s.F) is not None:
            if ored(val, s.SENT):
                ts.add('marked')
                s.mark(eng, st, i, fr, 'marked as sent')
            if s.DELETED and ored(val, s.DELETED):
                ts.add('delmark')
                s.mark(eng, st, i, fr, 'marked as deleted')
                s.kill(eng, st, i, fr)
        if fld(addr, s.AREA, 'HighWater') is not None:
            s.mark(eng, st, i, fr, 'taken into the highwater mark')
            key = f'{s.fn}: highwater value'
            s.ctx.oblige(key, locstr(i))
            if val != s.num:
                eng.report(key, 'the highwater mark is set to something else than the number of the exported message', st, i, fr)
        st.ts = frozenset(ts)

    def mark(s, eng, st, i, fr, what):
        key = f'{s.fn}: a message is {what} only after it was exported'
        s.ctx.oblige(key, locstr(i))
        if 'handled' not in st.ts or s.mode(st) != 'export':
            eng.report(key, f'a message is {what} although it was not exported successfully', st, i, fr)

    def kill(s, eng, st, i, fr):
        key = f'{s.fn}: only KILLSENT netmail is deleted'
        s.ctx.oblige(key, locstr(i))
        miss = {'netmail', 'killsent', 'allowed'} - set(st.ts)
        if miss:
            eng.report(key, 'an exported message is deleted although it is not netmail with the KILLSENT flag (or ALLOWKILLSENT is off)', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        ts = set(st.ts)
        if t in s.handlers:
            return s.hand(eng, st, i, t, args, fr)
        if t in ('strcpy', 'mystrncpy', 'jbstrcpy', 'strncpy') and args and fld(args[0], 'MemMessage', 'Area') is not None:
            src = args[1]
            ts.discard('aE')
            if src[0] == 's' and src[1].rstrip('\0') == '':
                pass
            elif fld(src, 'Area', 'Tagname') is not None:
                ts.add('aE')
            else:
                key = f'{s.fn}: area name'
                eng.report(key, 'the message is given an area name that is not the one of its area', st, i, fr)
            st.ts = frozenset(ts)
        return s.othercall(eng, st, i, t, args, fr)

    def othercall(s, eng, st, i, t, args, fr):
        return None

    def hand(s, eng, st, i, t, args, fr):
        ts, c = st.ts, s.ctx
        m = s.mode(st)
        key = f'{s.fn}: only new local messages are exported'
        c.oblige(key, locstr(i))
        if m != 'rescan' and not {'local', 'unsent'} <= ts:
            eng.report(key, 'a message is exported that is not local or was sent before', st, i, fr)
        if s.DELETED:
            key = f'{s.fn}: deleted messages stay deleted'
            c.oblige(key, locstr(i))
            if 'undeleted' not in ts:
                eng.report(key, 'a deleted message is sent', st, i, fr)
        key = f'{s.fn}: messages are marked as exported or rescanned'
        c.oblige(key, locstr(i))
        want = {'export': {'fE'}, 'rescan': {'fR'}}.get(m)
        if want is not None and ts & {'fE', 'fR'} != want:
            eng.report(key, f'the message is not passed on as one of a{"n export" if m == "export" else " rescan"}', st, i, fr)
        if want is None and not ts & {'fE', 'fR'}:
            eng.report(key, 'the message is passed on without saying whether it is exported or rescanned', st, i, fr)
        key = f'{s.fn}: the message keeps its area'
        c.oblige(key, locstr(i))
        if 'netmail' in ts and 'aE' in ts:
            eng.report(key, 'netmail is exported as echomail', st, i, fr)
        if 'netmail' not in ts and 'aE' not in ts:
            eng.report(key, 'echomail is exported without its area name', st, i, fr)
        no, ok = eng.fork(st, t, args)
        ok.ts = ts | {'handled'}
        no.ts = ts | {'failed'}
        return [(ok, C1), (no, C0)]

    def on_ret(s, eng, st, i, val, fr):
        ts, c = st.ts, s.ctx
        if zero(st, val):
            return
        key = f'{s.fn}: failure to export is reported'
        c.oblige(key, locstr(i))
        if 'failed' in ts:
            eng.report(key, 'success is reported although the message was not handled', st, i, fr)
        if 'handled' in ts and s.mode(st) != 'rescan':
            key = f'{s.fn}: exported messages are marked as sent'
            c.oblige(key, locstr(i))
            if not ('stored' in ts or 'tried' in ts or 'gone' in ts):
                eng.report(key, 'a message was exported but neither marked as sent in the message base nor deleted', st, i, fr)


class ExportMSG(ExportOne):
    S, F, AREA = 'StoredMsg', 'Attr', 'msg_Area'

    def setup(s, c):
        s.LOCAL, s.SENT, s.DELETED = c('FLAG_LOCAL'), c('FLAG_SENT'), 0
        s.KILLBITS = s.KILLSENT

    def othercall(s, eng, st, i, t, args, fr):
        ts = set(st.ts)
        if t == 'MakeFullPath':
            ts = {x for x in ts if not (isinstance(x, tuple) and x[0] == 'path')}
            if ldfld(args[0], 'Area', 'Path') is not None or fld(args[0], 'Area', 'Path') is not None:
                ts.add(('path', args[2]))
            st.ts = frozenset(ts)
            return None
        if t in ('osOpen', 'osDelete', 'msg_WriteMSG'):
            a = args[1] if t == 'msg_WriteMSG' else args[0]
            key = f'{s.fn}: the file of the message is used'
            s.ctx.oblige(key, locstr(i))
            if ('path', a) not in ts:
                eng.report(key, 'a file is used whose name is not that of the message', st, i, fr)
        if t == 'osDelete':
            s.mark(eng, st, i, fr, 'deleted')
            s.kill(eng, st, i, fr)
            st.ts = st.ts | {'gone'}
            return None
        if t == 'msg_WriteMSG':
            key = f'{s.fn}: exported messages are marked as sent'
            s.ctx.oblige(key, locstr(i))
            s.mark(eng, st, i, fr, 'written back')
            if 'marked' not in ts or 'mmattr' not in ts:
                eng.report(key, 'the message is written back without the mark that it was sent', st, i, fr)
            st.ts = st.ts | {'stored'}
            return None
        if t == 'osWrite':
            key = f'{s.fn}: exported messages are marked as sent'
            s.ctx.oblige(key, locstr(i))
            s.mark(eng, st, i, fr, 'written back')
            if 'marked' not in ts:
                eng.report(key, 'the message is written back without the mark that it was sent', st, i, fr)
            st.ts = st.ts | {'stored'}
            return None
        if t == 'osOpen' and 'handled' in ts:
            no, ok = eng.fork(st, t, args)
            no.ts = frozenset(ts | {'tried'})
            r = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', r)] = True
            ok.ts = frozenset(ts)
            return [(ok, r), (no, C0)]
        # the buffer with the name is used for something else
        if t not in ('LogWrite', 'osClose', 'printf', 'osError', 'osErrorMsg'):
            bad = {x for x in ts if isinstance(x, tuple) and x[0] == 'path' and any(addr_root(a) == addr_root(x[1]) for a in args if isinstance(a, tuple))}
            if bad and t in ('msg_ReadCR', 'sprintf', 'snprintf', 'strcpy', 'strcat', 'mystrncpy', 'osRead'):
                if t != 'msg_ReadCR' and addr_root(args[0]) != addr_root(next(iter(bad))[1]):
                    return None
                st.ts = frozenset(ts - bad)
        return None


class ExportJAM(ExportOne):
    S, F, AREA = 's_JamMsgHeader', 'Attribute', 'jam_Area'

    def setup(s, c):
        s.LOCAL, s.SENT, s.DELETED = c('MSG_LOCAL'), c('MSG_SENT'), c('MSG_DELETED')
        s.KILLBITS = c('MSG_KILLSENT')

    def number(s, x):
        return x[0] == 'bin' and x[1] == 'sub' and x[2] == s.num and ldfld(x[3], 'jam_Area', 'BaseNum') is not None

    def othercall(s, eng, st, i, t, args, fr):
        if t in ('JAM_ReadMsgHeader', 'JAM_ChangeMsgHeader'):
            key = f'{s.fn}: the message asked for is read and marked'
            s.ctx.oblige(key, locstr(i))
            if not s.number(args[1]):
                eng.report(key, 'the header that is read or written is not the one of the message with this number', st, i, fr)
            hd = ('hdr', addr_root(args[2]))
            if t == 'JAM_ReadMsgHeader':
                st.ts = st.ts | {hd}
            else:
                if hd not in st.ts:
                    eng.report(key, 'the header that is written is not the one that was read', st, i, fr)
                s.mark(eng, st, i, fr, 'written back')
                key = f'{s.fn}: exported messages are marked as sent'
                s.ctx.oblige(key, locstr(i))
                if 'marked' not in st.ts:
                    eng.report(key, 'the header is written back without the mark that the message was sent', st, i, fr)
                st.ts = st.ts | {'stored'}
        if t == 'JAM_DeleteMessage':
            s.mark(eng, st, i, fr, 'deleted')
            s.kill(eng, st, i, fr)
        return None


def one(cls, fn):
    def rule(ctx):
        p = ctx.prog()
        ctx.need(p, fn)
        r = cls(ctx, p, fn)
        if not r.handlers:
            raise AnalysisBroken(f'no handler is passed to {fn}')
        ctx.run(p, r, fn, frozenset())
        if f'{fn}: only new local messages are exported' not in ctx.obligations:
            ctx.finding(f'{fn}: messages are handed on', 'no message is ever handed on', fn)
    rule.__name__ = 'export_' + fn
    rule.__doc__ = f'{fn}: only local unsent messages are exported, and afterwards marked as sent'
    return rule



# ------------------------------------------------------------------ which numbers are looked at
def L(S, *fs, c=0, arg=None):
    d = {('ld', frozenset({('F', S, x)})): 1 for x in fs}
    if arg is not None:
        d[('arg', arg)] = -1
    if c:
        d[1] = c
    return d


RANGES = {
    'msg_exportfunc': ('msg_ExportMSGNum', [L('msg_Area', 'LowMsg'), L('msg_Area', 'HighWater', c=1)], L('msg_Area', 'HighMsg', c=1)),
    'msg_rescanfunc': ('msg_ExportMSGNum', [L('msg_Area', 'LowMsg'), L('msg_Area', 'HighMsg', c=1, arg=1)], L('msg_Area', 'HighMsg', c=1)),
    'jam_exportfunc': ('jam_ExportJAMNum', [L('jam_Area', 'BaseNum'), L('jam_Area', 'HighWater', c=1)], L('jam_Area', 'BaseNum', 'OldNum')),
    'jam_rescanfunc': ('jam_ExportJAMNum', [L('jam_Area', 'BaseNum'), L('jam_Area', 'BaseNum', 'OldNum', arg=1)], L('jam_Area', 'BaseNum', 'OldNum')),
}


def unknown(form):
    return any(isinstance(x, tuple) and (x[0] == '?' or x[0] == 'ld' and not all(l[0] == 'F' and l[1].endswith('_Area') for l in x[1])) for x in form)


def ranges(ctx):
    """every message number of the area (behind the highwater mark; the newest ones asked for) is looked at"""
    p = ctx.prog()
    for fn, (one_, starts, end) in RANGES.items():
        ctx.need(p, fn, one_)
        f = p.m.funcs[fn]
        defs = p.defs(f)
        key = f'{fn}: every message is looked at'
        n = 0
        cut = {c.phi.res for c in loops.counters(p, f)}
        for i in f.insts():
            if i.op == 'store' and ('F', fn[:3] + '_Area', 'HighWater') in p.loc_of(f, i.ops[1]):
                for x in loops.linear(p, f, i.ops[0], cut=cut):
                    ctx.oblige(f'{fn}: value of the highwater mark', locstr(i))
                    last = {**end, 1: end.get(1, 0) - 1}
                    last = {k: v for k, v in last.items() if v}
                    if not unknown(x) and x != last:
                        ctx.finding(f'{fn}: value of the highwater mark', f'the highwater mark is set to {show(x)}', locstr(i))
        for c in loops.counters(p, f):
            us = list(loops.uses_index(p, c, lambda i: i.op == 'call' and i.extra and i.extra[0] == ('g', one_)))
            if not us:
                continue
            n += 1
            at = locstr(us[0])
            ctx.oblige(key, at)
            if c.step != 1:
                ctx.finding(key + ' (step)', 'message numbers are skipped', at)
            for v in c.init:
                for x in loops.linear(p, f, v):
                    if not unknown(x) and x not in starts:
                        ctx.finding(key + ' (start)', f'the search starts at {show(x)}', at)
                    if x.get(('arg', 1)) == -1:
                        maximum(ctx, p, f, fn, at)
            for own, y, d in c.bounds:
                pr = d.extra if loops.strip(defs, d.ops[1]) == y else loops.SWAP.get(d.extra, d.extra)
                for x in loops.linear(p, f, y):
                    x = dict(x)
                    if pr in ('ule', 'sle', 'ugt', 'sgt'):
                        x[1] = x.get(1, 0) + 1
                        if not x[1]:
                            del x[1]
                    if not unknown(x) and x != end and own:
                        ctx.finding(key + ' (end)', f'the search ends before {show(x)}', at)
        if n == 0 and one_ in {i.extra[0][1] for i in f.insts() if i.op == 'call' and i.extra and i.extra[0][0] == 'g'}:
            ctx.oblige(key, fn)
        elif n == 0:
            ctx.finding(key, 'messages are not looked at', fn)


def show(x):
    return ' + '.join(str(c) if k == 1 else ('' if c == 1 else f'{c}*') + (next(iter(k[1]))[-1] if k[0] == 'ld' else str(k)) for k, c in x.items()) or '0'


def maximum(ctx, p, f, fn, at):
    """a maximum of 0 means all messages"""
    defs = p.defs(f)
    mx = f.params[1][1]

    def edge(b, t):
        if t.op != 'br' or not t.ops:
            return ()
        d = defs.get(t.ops[0][1]) if t.ops[0][0] == 'v' else None
        if d is None or d.op != 'icmp':
            return ()
        a, e = loops.strip(defs, d.ops[0]), loops.strip(defs, d.ops[1])
        if a != ('v', mx):
            return ()
        if e == ('c', 0) and d.extra in ('ne', 'ugt'):
            return b.succs[:1]
        if e == ('c', 0) and d.extra == 'eq':
            return b.succs[1:]
        return ()
    key = f'{fn}: no maximum means everything'
    ctx.oblige(key, at)
    for b in f.blocks:
        for i in b.insts:
            if i.op == 'bin' and i.extra == 'sub' and loops.strip(defs, i.ops[1]) == ('v', mx):
                if not loops.guarded(f, b.name, edge):
                    ctx.finding(key, 'the first message is computed from a maximum that may be 0 (which means all messages)', at)


class Area(Rule):
    """export of one area.  ts: failed, interrupted"""
    correlate = False
    stale_ts = True

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom == ('nz', GL('ctrlc')):
            if not truth and 'int' in st.ts:
                return False
            if truth:
                st.ts = st.ts | {'int'}
        if not truth and atom[0] == 'nz' and call(atom[1], s.GETAREA) is not None:
            st.ts = st.ts | {'noarea'}

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == s.ONE:
            key = f'{s.fn}: messages are passed on'
            c.oblige(key, locstr(i))
            if args[3] != ('c', s.rescan):
                eng.report(key, 'messages of this area are looked at for the wrong purpose (export or rescan)', st, i, fr)
            if args[2] != ('arg', s.fn, s.hf) or args[0] != ('arg', s.fn, 0):
                eng.report(key, 'messages are handed to another handler, or are those of another area', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ts = frozenset(x for x in st.ts if not isinstance(x, tuple))
            no.ts = ts | {'failed'}
            ok.ts = ts | {('last', args[1])}
            return [(ok, C1), (no, C0)]
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        if fld(addr, s.AREA, 'HighWater') is not None:
            key = f'{s.fn}: highwater mark'
            s.ctx.oblige(key, locstr(i))
            if contains_load(val, 'StoredMsg', 'ReplyTo'):
                return           # the mark that was stored earlier
            if s.rescan or st.ts & {'failed', 'int'} or val[0] == 'phi' and ('last', val) not in st.ts:
                eng.report(key, 'the highwater mark is advanced although not all messages below it were exported', st, i, fr)

    def on_ret(s, eng, st, i, val, fr):
        key = f'{s.fn}: failure is reported'
        s.ctx.oblige(key, locstr(i))
        if zero(st, val):
            return
        if 'failed' in st.ts or st.ts & {'int'}:
            eng.report(key, 'success is reported although a message could not be handled or the user interrupted', st, i, fr)


def contains_load(t, S, F):
    if not isinstance(t, tuple):
        return False
    if ldfld(t, S, F) is not None:
        return True
    return any(contains_load(x, S, F) for x in t)


def areas(ctx):
    """the areas' export and rescan functions report failure and advance the highwater mark only after success"""
    p = ctx.prog()
    for fn, (one_, _, _) in RANGES.items():
        r = Area()
        r.fn, r.ONE = fn, one_
        r.GETAREA = fn[:3] + '_getarea'
        r.AREA = fn[:3] + '_Area'
        r.rescan = int('rescan' in fn)
        r.hf = 2 if r.rescan else 1
        ctx.run(p, r, fn, frozenset())


def highwater_writers(ctx):
    """the highwater mark in memory is only changed where messages are exported or the stored mark is read"""
    p = ctx.prog()
    ok = {'msg_ExportMSGNum', 'msg_exportfunc', 'jam_exportfunc', 'jam_gethighwater', 'jam_getarea', 'msg_getarea'}
    for S in ('msg_Area', 'jam_Area'):
        key = f'{S}: who changes the highwater mark'
        ctx.oblige(key, S)
        for fn, f in p.m.funcs.items():
            for i in f.insts():
                if i.op == 'store' and ('F', S, 'HighWater') in p.loc_of(f, i.ops[1]) and fn not in ok:
                    ctx.finding(key + f' ({fn})', f'{fn} changes the highwater mark', locstr(i))


class After(Rule):
    """afterfunc of a message base: the highwater mark is stored only after success"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom == ('nz', ('arg', s.fn, 0)):
            st.ts = st.ts | {'ok' if truth else 'bad'}
        on, off = bits(atom, truth, 'Config', s.cfg)
        if on & s.flag:
            st.ts = st.ts | {'asked'}
        if off & s.flag:
            st.ts = st.ts | {'notasked'}
        if atom[0] == 'eq' and truth and {'HighWater', 'OldHighWater'} <= {a[1][3] for a in atom[1:] if isinstance(a, tuple) and a[0] == 'ld' and a[1][0] == 'fld'}:
            st.ts = st.ts | {'same'}

    def on_call(s, eng, st, i, t, args, fr):
        if t == s.write:
            key = f'{s.fn}: the highwater mark is stored only after success'
            s.ctx.oblige(key, locstr(i))
            if 'ok' not in st.ts or 'asked' not in st.ts:
                eng.report(key, 'the highwater mark is stored although the run failed (or highwater marks are off): messages that were not sent would be skipped', st, i, fr)
            s.seen = True
        return None


def after(ctx):
    """the highwater marks are stored only after a successful run"""
    p = ctx.prog()
    for fn, w, cfg, fl in (('msg_afterfunc', 'msg_WriteHighWater', 'cfg_msg_Flags', 'CFG_MSG_HIGHWATER'),
                           ('jam_afterfunc', 'jam_writehighwater', 'cfg_jam_Flags', 'CFG_JAM_HIGHWATER')):
        ctx.need(p, fn, w)
        r = After()
        r.fn, r.write, r.cfg, r.flag, r.seen = fn, w, cfg, ctx.const(fl), False
        ctx.run(p, r, fn, frozenset())
        key = f'{w}: only at the end of a run'
        ctx.oblige(key, w)
        for f, i in p.callsites.get(w, ()):
            if f.name != fn:
                ctx.finding(key, f'{f.name} stores the highwater mark', locstr(i))
        if not r.seen:
            ctx.finding(f'{fn}: the highwater mark is stored', 'the highwater mark is never stored', fn)
        # what is stored is the mark
        key = f'{w}: what is stored'
        ctx.oblige(key, w)
        f = p.m.funcs[w]
        S = fn[:3] + '_Area'
        if not any(i.op == 'load' and ('F', S, 'HighWater') in p.loc_of(f, i.ops[0]) for i in f.insts()):
            ctx.finding(key, 'something else than the highwater mark is stored', w)


class Final(Rule):
    """AfterScanToss: the message bases are told about success only if everything was filed"""
    correlate = False
    max_states = 300
    keep_consts = True

    def track(s, atom, st):
        return atom == ('nz', ('arg', 'AfterScanToss', 0))

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom == ('nz', ('arg', 'AfterScanToss', 0)):
            ts.discard('no'), ts.discard('yes')
            ts.add('yes' if truth else 'no')
        for g in ('ioerror', 'nomem'):
            if atom == ('nz', GL(g)):
                ts.discard(g), ts.discard('no' + g)
                ts.add(g if truth else 'no' + g)
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'ArchiveOutbound':
            no, ok = eng.fork(st, t, args)
            ts = st.ts
            ok.ts, no.ts = ts | {'filed'}, ts | {'notfiled'}
            return [(ok, C1), (no, C0)]
        if t in s.after:
            key = 'AfterScanToss: the message bases learn whether the run succeeded'
            c.oblige(key, locstr(i))
            a = args[0]
            if not zero(st, a) and not ({'yes', 'filed', 'noioerror', 'nonomem'} <= st.ts):
                eng.report(key, 'the message bases are told that the run succeeded although it did not', st, i, fr)
            s.seen = True
        return None


def final(ctx):
    """the message bases are told about success only after all packets were filed"""
    p = ctx.prog()
    ctx.need(p, 'AfterScanToss', 'ArchiveOutbound')
    r = Final()
    r.after = set(p.fpslots.get(('F', 'Messagebase', 'afterfunc'), ()))
    r.seen = False
    ctx.run(p, r, 'AfterScanToss', frozenset())
    if not r.seen:
        ctx.finding('AfterScanToss: the message bases learn whether the run succeeded', 'the message bases are never told that the run ended', 'AfterScanToss')


# ------------------------------------------------------------------ scanning
class Scan(Rule):
    """ts: facts about the area under consideration, failed, interrupted"""
    correlate = False
    max_states = 400
    PER = ('echo', 'net', 'notnet', 'allow', 'base')

    def __init__(s, ctx, p, fn):
        s.ctx, s.p, s.fn = ctx, p, fn
        s.exp = set(p.fpslots.get(('F', 'Messagebase', 'exportfunc'), ()))
        c = ctx.const
        s.N, s.E, s.NO = c('AREATYPE_NETMAIL'), c('AREATYPE_ECHOMAIL'), c('CFG_NOEXPORTNETMAIL')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom == ('nz', GL('ctrlc')):
            if not truth and 'int' in ts:
                return False
            if truth:
                ts.add('int')
        if atom[0] == 'nz' and points_to(s.p, atom[1]) == 'Area':
            ts -= set(s.PER)
        if atom[0] == 'eq' and atom[2][0] == 'c' and ldfld(atom[1], 'Area', 'AreaType') is not None:
            k = atom[2][1]
            if k == s.N:
                if ('notnet' if truth else 'net') in ts or truth and 'echo' in ts:
                    return False
                ts.add('net' if truth else 'notnet')
            if k == s.E and truth:
                if 'net' in ts:
                    return False
                ts |= {'echo', 'notnet'}
        if atom[0] == 'nz' and truth and ldfld(atom[1], 'Area', 'Messagebase') is not None:
            ts.add('base')
        on, off = bits(atom, truth, 'Config', 'cfg_Flags')
        if off & s.NO:
            ts.add('allow')
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        c, ts = s.ctx, st.ts
        if t in s.exp:
            key = f'{s.fn}: only echomail and netmail areas are scanned'
            c.oblige(key, locstr(i))
            if not ts & {'echo', 'net'}:
                eng.report(key, 'an area is scanned that is neither a netmail nor an echomail area', st, i, fr)
            if 'base' not in ts:
                eng.report(key + ' (pass-through)', 'a pass-through area is scanned', st, i, fr)
            if s.fn != 'ScanArea':
                key = f'{s.fn}: NOEXPORTNETMAIL'
                c.oblige(key, locstr(i))
                if 'notnet' not in ts and 'allow' not in ts:
                    eng.report(key, 'netmail areas are scanned although NOEXPORTNETMAIL may be set', st, i, fr)
            key = f'{s.fn}: messages go to ScanHandle'
            c.oblige(key, locstr(i))
            if args[1] != ('g', 'ScanHandle'):
                eng.report(key, 'messages are handed to something else', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = ts - set(s.PER)
            no.ts = ok.ts | {'failed'}
            return [(ok, C1), (no, C0)]
        if t == 'AfterScanToss':
            key = f'{s.fn}: the run counts as successful only if every export was'
            c.oblige(key, locstr(i))
            if not zero(st, args[0]) and ts & {'failed', 'int'}:
                eng.report(key, 'the run is finished as successful although an area could not be exported or the user interrupted', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.fn.name != s.fn:
            return
        key = f'{s.fn}: failure is reported'
        s.ctx.oblige(key, locstr(i))
        if not zero(st, val) and st.ts & {'failed', 'int'}:
            eng.report(key, 'success is reported although an area could not be exported or the user interrupted', st, i, fr)


def scans(ctx):
    """the scan functions export netmail and echomail areas and report failure"""
    p = ctx.prog()
    for fn in ('Scan', 'ScanList', 'ScanDotJam', 'ScanArea'):
        ctx.need(p, fn)
        r = Scan(ctx, p, fn)
        if not r.exp:
            raise AnalysisBroken('no export functions')
        ctx.run(p, r, fn, frozenset())
        if f'{fn}: messages go to ScanHandle' not in ctx.obligations:
            ctx.finding(f'{fn}: areas are scanned', 'no area is ever scanned', fn)


class Passed(Rule):
    """a handler's result is the result of message handling"""
    correlate = False

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'HandleMessage' or t == 'WriteEchoMail':
            no, ok = eng.fork(st, t, args)
            ok.ts, no.ts = frozenset({'ok'}), frozenset({'no'})
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = f'{s.fn}: the result of handling counts'
        s.ctx.oblige(key, locstr(i))
        if not zero(st, val) and 'ok' not in st.ts:
            eng.report(key, 'a message is reported as handled although handling it failed (or it was not handled)', st, i, fr)


def filed_first(ctx):
    """messages are marked as sent only after their copies were filed in the outbound"""
    p = ctx.prog()
    late = set(p.fpslots.get(('F', 'Messagebase', 'afterfunc'), ()))
    late = p.reach(late) | late
    for fn, marks in (('msg_ExportMSGNum', ('msg_WriteMSG', 'osWrite', 'osDelete')), ('jam_ExportJAMNum', ('JAM_ChangeMsgHeader',))):
        key = f'{fn}: messages are marked as sent only after their copies were filed'
        ctx.oblige(key)
        if fn not in late:
            for i in p.m.funcs[fn].insts():
                if i.op == 'call' and i.extra[0][0] == 'g' and i.extra[0][1] in marks:
                    ctx.finding(key, 'the message is marked as sent (or deleted) while the packet with its copies is not filed yet', locstr(i))
                    break


def passed(ctx):
    """the result of handling an exported message is passed on to the message base"""
    p = ctx.prog()
    r = Passed()
    r.fn = 'ScanHandle'
    ctx.need(p, 'ScanHandle')
    ctx.run(p, r, 'ScanHandle', frozenset())


RULES = {
    'A16': ('Local messages are exported once', [one(ExportMSG, 'msg_ExportMSGNum'), one(ExportJAM, 'jam_ExportJAMNum'),
                                                ranges, areas, highwater_writers, after, final, scans, passed, filed_first]),
}
