"""What becomes of a message: nothing that was read is dropped without a reason."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .handle import Base, importers


def zero(st, val):
    return val == C0 or (val is not None and st.truth(('nz', val)) is False)


class EveryMessage(Rule):
    """ReadPkt: ts = (a message was begun and not handed over yet, handed over since the last header, interrupted)"""
    correlate = False
    max_states = 300

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom == ('nz', GL('ctrlc')):
            if not truth and st.ts[2]:
                return False        # an interruption is never taken back
            if truth:
                st.ts = st.ts[:2] + (True,)
        if atom[0] == 'eq' and atom[2] == ('c', 2):
            a = call(atom[1], 'getuword')
            if a is not None and a[1] == C0 and truth:
                st.ts = (True, False, st.ts[2])

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t in s.handlers:
            key = 'ReadPkt: a message is handled once'
            c.oblige(key, locstr(i))
            if st.ts[1]:
                eng.report(key, 'the same message is handled twice', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = (False, True, st.ts[2])
            no.ts = ok.ts
            return [(ok, C1), (no, C0)]
        if t == 'mmClear':
            st.ts = (st.ts[0], False, st.ts[2])
        if t == 'osRead' and len(args) > 2 and args[2] == ('c', s.MHDR):
            key = 'ReadPkt: every message is handled'
            c.oblige(key, locstr(i))
            if st.ts[0]:
                eng.report(key, 'the next message is read although this one was not handed to message handling', st, i, fr)
            st.ts = (False, False, st.ts[2])
        if t == 'BadFile':
            no, ok = eng.fork(st, t, args)
            ok.ts = no.ts = (False, False, st.ts[2])
            if i.res:
                return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'ReadPkt: every message is handled'
        s.ctx.oblige(key, locstr(i))
        if st.ts[0] and not zero(st, val):
            eng.report(key + ' (end)', 'the packet is reported processed although a message was not handed to message handling', st, i, fr)


def every_message(ctx):
    """each message of a packet is handed to message handling once, or the packet is not reported processed"""
    p = ctx.prog()
    ctx.need(p, 'ReadPkt')
    r = EveryMessage()
    r.MHDR = ctx.const('SIZE_PKTMSGHEADER')
    r.handlers = set(p.fpslots.get(('PV', 'ReadPkt', 3), ()))
    if not r.handlers:
        raise AnalysisBroken('no message handler is passed to the packet reader')
    ctx.run(p, r, 'ReadPkt', (False, False, False))
    if 'ReadPkt: a message is handled once' not in ctx.obligations:
        ctx.finding('ReadPkt: every message is handled', 'messages read from packets are never handed to message handling', 'ReadPkt')


class Dispatch(Rule):
    """HandleMessage: each message goes to exactly one handler and its result is the result"""
    correlate = False
    KINDS = {'HandleNetmail': False, 'HandleEchomail': True}

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and (ldfld(atom[1], 'MemMessage', 'Area') is not None or
                                (call(atom[1], 'strlen') and fld(call(atom[1], 'strlen')[0], 'MemMessage', 'Area') is not None)):
            st.ts = (truth,) + st.ts[1:]

    def on_call(s, eng, st, i, t, args, fr):
        if t in s.KINDS:
            key = f'HandleMessage: {t} gets its kind of mail'
            s.ctx.oblige(key, locstr(i))
            if st.ts[0] is not s.KINDS[t]:
                eng.report(key, f'{t} is called for the wrong kind of mail', st, i, fr)
            no, ok = eng.fork(st, t, args)
            k = st.ts[0]
            ok.ts, no.ts = (k, 'done'), (k, 'failed')
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'HandleMessage: success only after handling'
        s.ctx.oblige(key, locstr(i))
        if not zero(st, val) and st.ts[1] != 'done':
            eng.report(key, 'success is reported although no handler succeeded', st, i, fr)


class NetmailFate(Base):
    """ts: what became of the message"""
    max_states = 96

    def setup(s, c):
        s.IAF, s.IEM = c('CFG_IMPORTAREAFIX'), c('CFG_IMPORTEMPTYNETMAIL')
        s.RR, s.AU = c('FLAG_RREQ'), c('FLAG_AUDIT')
        s.ARR, s.AAU = c('CFG_ANSWERRECEIPT'), c('CFG_ANSWERAUDIT')
        s.NORMAL = c('PKTS_NORMAL')

    stale_ts = True

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('Area', 'Route')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if s.mmflag(atom, truth, s.KILL):
            ts.add('filtered')
        if s.mmflag(atom, truth, s.TWIT) and 'into' in ts:
            ts.add('filtered')
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and not truth:
            if fl[1] == s.IAF and 'areafix' in ts:
                ts.add('answered')
            if fl[1] == s.IEM and 'into' in ts:
                ts.add('empty?')
        if fl and truth and fl[1] == s.IEM:
            ts.discard('empty?')
        if fl and not truth and fl[1] == s.ARR:
            ts.add('noreceipt')
        if fl and not truth and fl[1] == s.AAU:
            ts.add('noaudit')
        fl = flag(atom, 'MemMessage', 'Attr')
        if fl and not truth and fl[1] == s.RR:
            ts.add('noreceipt')
        if fl and not truth and fl[1] == s.AU:
            ts.add('noaudit')
        if s.mmnot(atom, truth, s.TOSSED):
            ts.add('noaudit')
        if atom[0] == 'nz':
            x = atom[1]
            if ldfld(x, 'Area', 'Messagebase') is not None and not truth:
                ts.add('nobase')
            if points_to(s.p, x) == 'Area' and truth:
                ts.add('into')
            if points_to(s.p, x) == 'Area' and not truth:
                ts.discard('into')
            if not truth and 'routing' not in ts and (points_to(s.p, x) == 'TextChunk' or x[0] == 'ld' and listhead(x[1]) == 'TextChunks'):
                ts.add('allread')           # all of the text was looked at
            a = call(x, 'Compare4DPat')
            if a and fld(a[0], 'Route', 'Pattern') is not None:
                ts = {y for y in ts if not (isinstance(y, tuple) and y[0] == 'route')}
                if not truth and fld(a[1], 'MemMessage', 'DestNode') == ('arg', 'HandleNetmail', 0):
                    ts.add(('route', fld(a[0], 'Route', 'Pattern')))
        st.ts = s.norm(ts)

    DONE = {'filtered', 'answered', 'bounced', 'bad', 'imported', 'routed', 'nobase'}

    def norm(s, ts):
        if ts & s.DONE:
            ts = {x for x in ts if not isinstance(x, tuple) and x not in ('empty?', 'allread')}
            if ts & {'filtered', 'answered', 'bounced', 'bad'} and not ts & {'imported', 'routed'}:
                ts -= {'noreceipt', 'noaudit', 'areafix'}
        return frozenset(ts)

    def on_load(s, eng, st, i, addr, fr):
        h = listhead(addr)
        if h in ('TextChunks', 'RouteList'):
            st.ts = st.ts - {'allread'}
        if h == 'RouteList':
            st.ts = (st.ts - {'empty?', 'areafix'}) | {'routing'}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        ts = st.ts
        mm = ('arg', 'HandleNetmail', 0)
        if t == 'AreaFix':
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {'areafix'}
            return [(ok, C1), (no, C0)]
        if t in ('Bounce', 'WriteBad', 'AnswerReceipt', 'AnswerAudit'):
            no, ok = eng.fork(st, t, args)
            add = {'Bounce': 'bounced', 'WriteBad': 'bad', 'AnswerReceipt': 'noreceipt', 'AnswerAudit': 'noaudit'}[t]
            # a bad-area copy of something else (the header of loop mail) is no substitute for the message
            if t != 'WriteBad' or args[0] == mm:
                ok.ts = s.norm(set(ok.ts | {add}))
            return [(ok, C1), (no, C0)]
        if t in s.imp:
            no, ok = eng.fork(st, t, args)
            if args[0] == mm:
                ok.ts = s.norm(set(ok.ts | {'imported'}))
            return [(ok, C1), (no, C0)]
        if t in ('ExpandNodePat', 'Copy4D'):
            d = args[2] if t == 'ExpandNodePat' else args[0]
            src = args[1]
            r = None
            if fld(src, 'MemMessage', 'DestNode') == mm:
                r = 'direct'
                if t == 'ExpandNodePat':
                    b = fld(args[0], 'Route', 'DestPat')
                    r = ('by', b) if b is not None else None
            eng.kill_call(st, t, args)
            ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'to' and x[1] == d))
            st.ts = ts | {('to', d, r)} if addr_root(d)[0] == 'al' else ts
            return [(st, None)]
        if t == 'WriteNetMail':
            def need(key, ok, msg):
                key = 'HandleNetmail: ' + key
                c.oblige(key, locstr(i))
                if not ok:
                    eng.report(key, msg, st, i, fr)
            routes = {x[1] for x in ts if isinstance(x, tuple) and x[0] == 'route'}
            aka = ldfld(args[2], 'Route', 'Aka')
            need('the route matches the destination', aka is not None and aka in routes,
                 'netmail is routed by a route statement whose pattern was not matched against its destination')
            to = next((x[2] for x in ts if isinstance(x, tuple) and x[0] == 'to' and x[1] == args[1]), 0)
            if to != 0:
                need('mail goes to its destination or along its route', to == 'direct' or (to is not None and to[1] in routes),
                     'netmail is sent to a system that is neither its destination nor given by its route')
            no, ok = eng.fork(st, t, args)
            ok.ts = s.norm(set(ok.ts | {'routed'}))
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if zero(st, val):
            return
        ts = st.ts
        key = 'HandleNetmail: nothing is dropped'
        s.ctx.oblige(key, locstr(i))
        if not ts & {'filtered', 'answered', 'bounced', 'bad', 'imported', 'routed', 'nobase'} and not ts >= {'empty?', 'allread'}:
            eng.report(key, 'netmail is neither imported, routed, bounced nor stored as bad, and no filter killed it', st, i, fr)
        key = 'HandleNetmail: requested receipts are sent'
        s.ctx.oblige(key, locstr(i))
        if ts & {'imported'} and 'noreceipt' not in ts:
            eng.report(key, 'a netmail that asks for a receipt is imported without one being sent', st, i, fr)
        key = 'HandleNetmail: requested audit answers are sent'
        s.ctx.oblige(key, locstr(i))
        if 'routed' in ts and 'noaudit' not in ts:
            eng.report(key, 'a netmail that asks for an audit answer is routed without one being sent', st, i, fr)


class BadArea(Base):
    """WriteBad: ts = stored, no base, no bad area"""

    def setup(s, c):
        s.BAD = c('AREATYPE_BAD')

    stale_ts = True

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) == 'Area'

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq' and atom[2] == ('c', s.BAD) and ldfld(atom[1], 'Area', 'AreaType') is not None:
            ts = frozenset(x for x in st.ts if not isinstance(x, tuple))
            st.ts = ts | {('bad', ldfld(atom[1], 'Area', 'AreaType'))} if truth else ts
        if atom[0] == 'nz' and not truth:
            if ldfld(atom[1], 'Area', 'Messagebase') is not None:
                st.ts = st.ts | {'nobase'}
            if points_to(s.p, atom[1]) == 'Area' and not any(isinstance(x, tuple) for x in st.ts):
                st.ts = st.ts | {'none'}

    def on_call(s, eng, st, i, t, args, fr):
        if t in s.imp:
            key = 'WriteBad: stored in the bad area'
            s.ctx.oblige(key, locstr(i))
            if ('bad', args[1]) not in st.ts or args[0] != ('arg', 'WriteBad', 0):
                eng.report(key, 'a bad message is stored in an area that is not the bad area', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {'stored'}
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'WriteBad: success only when stored'
        s.ctx.oblige(key, locstr(i))
        if not zero(st, val) and not st.ts & {'stored', 'nobase', 'none'}:
            eng.report(key, 'a bad message counts as stored although it was not', st, i, fr)


def dispatch(ctx):
    """every message goes to the handler of its kind, whose result counts"""
    p = ctx.prog()
    ctx.need(p, 'HandleMessage', 'HandleNetmail', 'HandleEchomail')
    ctx.run(p, Dispatch(), 'HandleMessage', (None, None))


def netmail_fate(ctx):
    """netmail handled successfully was imported, routed, bounced, answered, stored as bad or killed by a filter"""
    p = ctx.prog()
    ctx.need(p, 'HandleNetmail', 'WriteNetMail', 'WriteBad', 'Bounce')
    ctx.run(p, NetmailFate(ctx, p), 'HandleNetmail', frozenset())


def bad_area(ctx):
    """bad messages are stored in the bad area"""
    p = ctx.prog()
    ctx.run(p, BadArea(ctx, p), 'WriteBad', frozenset())


RULES = {
    'A14': ('No message is dropped without a reason', [every_message, dispatch, netmail_fate, bad_area]),
}
