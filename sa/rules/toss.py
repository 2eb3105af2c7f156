"""Tossing: inbound mail is deleted only after it was fully processed."""
from ..engine import Rule, C0, C1, addr_root
from ..pat import *

PROC = {'ReadPkt', 'TossBundle'}


class InboundDelete(Rule):
    """ts = (processed-file terms, failed?, unpack state, bad-file terms)"""
    correlate = False

    def __init__(s, root):
        s.root = root

    def interesting(s, eng):
        return set()

    def track(s, atom, st):
        if atom[0] != 'nz':
            return False
        x = atom[1]
        if x == GL('ctrlc'):
            return True
        if ldfld(x, 'osFileEntry', 'Size') is not None:
            return True
        a = call(x, 'getuword')
        return a is not None and a[1] == C0

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom == ('nz', GL('ctrlc')) and truth:
            p, f, u, b = st.ts
            st.ts = (p, True, u, b)

    def on_call(s, eng, st, i, t, args, fr):
        p, f, u, b = st.ts
        c = s.ctx
        if t in PROC or t == 'BadFile' or t == 'osChDirExecute' or t == 'indirect-handler':
            no, ok = eng.fork(st, t, args)
            if t == 'osChDirExecute':
                ok.ts = (p, f, 'ok', b)
                no.ts = (p, f, 'bad', b)
                bad = ('call', t, (), i.id)
                no.facts[('nz', bad)] = True
                return [(ok, C0), (no, bad)]
            if t == 'BadFile':
                ok.ts = (p, f, u, b | {args[0]})
                if not i.res:
                    # result not looked at: the move may have failed silently
                    no.ts = (p, f, u, b)
                    return [(ok, None), (no, None)]
                return [(ok, C1), (no, C0)]
            ok.ts = (p | {args[0]}, f, u, b)
            no.ts = (p, True, u, b)
            c.oblige(f'{s.root}: result of {t} decides', engine_loc(i))
            return [(ok, C1), (no, C0)]
        if t == 'osReadDir':
            no, ok = eng.fork(st, t, args)
            no.ts = (p, True, u, b)
            return [(ok, C1), (no, C0)]
        if t in ('SafeDelete', 'osDelete'):
            key = f'{s.root}: {t} only after full processing'
            c.oblige(key, engine_loc(i))
            zero = any(a[0] == 'nz' and v is False and ldfld(a[1], 'osFileEntry', 'Size') is not None
                       for a, v in st.facts.items())
            if f:
                eng.report(key + '@fail', f'{t} of inbound mail although processing failed or was interrupted', st, i, fr)
            elif args[0] not in p and not (zero and t == 'osDelete'):
                eng.report(key, f'{t} of an inbound file that was not (yet) processed successfully', st, i, fr)
        if t == 'AfterScanToss':
            key = f'{s.root}: AfterScanToss told the truth'
            c.oblige(key, engine_loc(i))
            if f and not (args[0] == C0 or st.truth(('nz', args[0])) is False):
                eng.report(key, 'AfterScanToss is told the toss succeeded although a file failed or the user interrupted', st, i, fr)
        # the name buffer is rewritten: it denotes another file now
        w = {args[l[1]] for l in eng.p.mods.get(t, ()) if l[0] == 'P' and l[1] < len(args)}
        hit = {x for x in (p | b) if any(addr_root(x) == addr_root(y) for y in w)}
        if hit and t != 'SafeDelete':
            st.ts = (p - hit, f, u, b - hit)
        return None

    def on_ret(s, eng, st, i, val, fr):
        p, f, u, b = st.ts
        if val is None:
            return
        key = f'{s.root}: returns success only when everything succeeded'
        s.ctx.oblige(key, engine_loc(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        file = ('arg', s.root, 0)
        zero = any(a[0] == 'nz' and v is False and ldfld(a[1], 'osFileEntry', 'Size') is not None
                   for a, v in st.facts.items())
        if f:
            eng.report(key, 'success reported although a packet or message failed or the user interrupted', st, i, fr)
        elif s.root == 'TossBundle':
            if file not in b and u != 'ok' and not zero:
                eng.report(key + ' (unpacked)', 'bundle reported processed although it was neither unpacked nor kept as .bad', st, i, fr)


class PacketDone(Rule):
    """ReadPkt: ts = (failed handler, set aside as bad, interrupted)"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom == ('nz', GL('ctrlc')):
            if not truth and st.ts[2]:
                return False        # an interruption is never taken back
            if truth:
                st.ts = st.ts[:2] + (True,)

    def track(s, atom, st):
        if atom[0] == 'nz':
            a = call(atom[1], 'getuword')
            return a is not None and a[1] == C0
        return False

    def on_call(s, eng, st, i, t, args, fr):
        f, b, n = st.ts
        if t == 'BadFile' and args[0] == ('arg', 'ReadPkt', 0):
            key = 'ReadPkt: an interrupted packet stays where it is'
            s.ctx.oblige(key, engine_loc(i))
            if n:
                eng.report(key, 'a packet is set aside as bad because the user interrupted the run', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = (f, True, n)
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t in s.handlers:
            no, ok = eng.fork(st, t, args)
            no.ts = (True, b, n)
            s.ctx.oblige('ReadPkt: handler failure aborts', engine_loc(i))
            return [(ok, C1), (no, C0)]
        if t in ('mmAddLine', 'mmAlloc', 'osOpen'):
            no, ok = eng.fork(st, t, args)
            no.ts = (True, b, n)
            s.ctx.oblige(f'ReadPkt: failing {t} aborts', engine_loc(i))
            if t == 'mmAddLine':
                return [(ok, C1), (no, C0)]
            return [(ok, None), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        f, b, n = st.ts
        key = 'ReadPkt: success only for a completely handled or set-aside packet'
        s.ctx.oblige(key, engine_loc(i))
        if val == C0 or st.truth(('nz', val)) is False or b:
            return
        if f:
            eng.report(key + ' (failure)', 'packet reported processed although opening it, memory or message handling failed', st, i, fr)
            return
        done = any(a[0] == 'nz' and v is False and call(a[1], 'getuword') for a, v in st.facts.items())
        if not done:
            eng.report(key + ' (terminator)', 'packet reported processed although its end was not reached', st, i, fr)


class AfterToss(Rule):
    """ts = steps done before the deferred deletions"""
    correlate = False
    STEPS = {'ClosePackets', 'ArchiveOutbound'}

    def interesting(s, eng):
        return set()

    def track(s, atom, st):
        return atom[0] == 'nz' and (atom[1] in (GL('ioerror'), GL('nomem')) or atom[1][0] == 'arg')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        for m in ('ioerror', 'nomem'):
            if atom == ('nz', GL(m)) and not truth and 'ClosePackets' in st.ts:
                st.ts = st.ts | {m + ' checked'}

    def on_call(s, eng, st, i, t, args, fr):
        if t in s.STEPS:
            if t == 'ArchiveOutbound':
                no, ok = eng.fork(st, t, args)
                no.ts = st.ts | {'ArchiveOutbound!failed'}
                ok.ts = ok.ts | {t}
                if not i.res:
                    return [(ok, None), (no, None)]
                return [(ok, C1), (no, C0)]
            eng.kill_call(st, t, args)
            st.ts = st.ts | {t}
            return [(st, None)]
        if t == 'ProcessSafeDelete':
            c = s.ctx
            arg = ('arg', 'AfterScanToss', 0)
            for name, good in (('run succeeded', st.truth(('nz', arg)) is True),
                               ('all packets closed', 'ClosePackets' in st.ts),
                               ('outbound filed', 'ArchiveOutbound' in st.ts),
                               ('memory did not run out', 'nomem checked' in st.ts),
                               ('no write error', 'ioerror checked' in st.ts)):
                key = f'AfterScanToss: deferred deletes only when {name}'
                c.oblige(key, engine_loc(i))
                if not good:
                    eng.report(key, f'processed inbound files are deleted without "{name}" being established', st, i, fr)
        return None


def engine_loc(i):
    from ..engine import locstr
    return locstr(i)


def inbound_delete(ctx):
    """inbound files are scheduled for deletion only after successful processing, and success is never claimed after a failure"""
    p = ctx.prog()
    ctx.need(p, 'TossDir', 'TossFile', 'TossBundle', 'ReadPkt', 'SafeDelete', 'AfterScanToss', 'BadFile')
    for root in ('TossDir', 'TossFile', 'TossBundle'):
        r = InboundDelete(root)
        ctx.run(p, r, root, (frozenset(), False, None, frozenset()))
    ctx.floor('TossDir: SafeDelete', 1)
    ctx.floor('TossFile: SafeDelete', 1)


class Unpacked(Rule):
    """TossBundle: every packet that came out of a bundle is read, unless this very file was tossed before.
    ts: None, the name of the packet that has not been read yet"""
    correlate = False

    def track(s, atom, st):
        return atom[0] == 'nz' and (points_to(s.p, atom[1]) == 'osFileEntry' or ldfld(atom[1], 'jbList', 'First') is not None)

    def on_branch(s, eng, st, inst, atom, truth, fr):
        a = call(atom[1], ('strcmp',)) if atom[0] == 'nz' else None
        if a is not None and not truth and st.ts in a and any(fld(x, 'osFileEntry', 'Name') is not None for x in a if x != st.ts):
            st.ts = None

    def passed(s, eng, st, i, fr):
        key = 'TossBundle: every packet of a bundle is read'
        s.ctx.oblige(key, engine_loc(i))
        if st.ts is not None:
            eng.report(key, 'a packet from a bundle is passed over although it was not tossed before', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'MakeFullPath' and fld(args[1], 'osFileEntry', 'Name') is not None:
            s.passed(eng, st, i, fr)
            eng.kill_call(st, t, args)
            st.ts = args[2]
            return [(st, None)]
        if t == 'ReadPkt':
            if args[0] == st.ts:
                st.ts = None
            no, ok = eng.fork(st, t, args)
            return [(ok, C1), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None and val == C1:
            s.passed(eng, st, i, fr)


def unpacked(ctx):
    """every packet that came out of a bundle is read"""
    p = ctx.prog()
    r = Unpacked()
    r.p = p
    ctx.run(p, r, 'TossBundle', None)


def packet_done(ctx):
    """a packet counts as processed only when its terminator was reached or it was moved to .bad"""
    p = ctx.prog()
    r = PacketDone()
    r.handlers = set(p.fpslots.get(('PV', 'ReadPkt', 3), ()))
    ctx.run(p, r, 'ReadPkt', (False, False, False))
    ctx.floor('ReadPkt: handler', 1)


def after_toss(ctx):
    """deferred deletions happen only after packets are closed, outbound is filed and no write failed"""
    p = ctx.prog()
    ctx.run(p, AfterToss(), 'AfterScanToss', frozenset())
    ctx.floor('AfterScanToss:', 1)


def who_deletes(ctx):
    """the deferred-delete list is filled and processed only by the toss code"""
    p = ctx.prog()
    for f, i in p.callsites.get('SafeDelete', ()):
        ctx.oblige(f'SafeDelete called from {f.name}', engine_loc(i))
        if f.name not in ('TossDir', 'TossFile', 'TossBundle'):
            ctx.finding(f'SafeDelete called from {f.name}', 'inbound deletion scheduled outside the analysed toss entry points', engine_loc(i))
    key = 'SafeDelete only remembers the file'
    ctx.oblige(key)
    for n in sorted(p.reach({'SafeDelete'}) & {'osDelete', 'osRename', 'osRmDir', 'movefile', 'unlink', 'remove', 'rename'}):
        ctx.finding(key, f'an inbound file is removed at once ({n}), before the results of the run are safe', 'SafeDelete')
    for f, i in p.callsites.get('ProcessSafeDelete', ()):
        ctx.oblige(f'ProcessSafeDelete called from {f.name}', engine_loc(i))
        if f.name != 'AfterScanToss':
            ctx.finding(f'ProcessSafeDelete called from {f.name}', 'deferred deletions performed outside the end-of-run step', engine_loc(i))


RULES = {
    'A01': ('Inbound mail is deleted only after complete successful processing',
            [inbound_delete, unpacked, packet_done, after_toss, who_deletes]),
}
