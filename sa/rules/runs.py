"""Runs of crashmail: one at a time, opened and closed completely, doing what was asked for."""
import re
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken
from ..pat import *
from .fate import zero
from .. import loops


# ------------------------------------------------------------------ how files are opened
class Modes(Rule):
    """osOpen: ts = (mode, first attempt failed)"""
    correlate = False
    keep_consts = True

    def track(s, atom, st):
        return atom[0] == 'eq' and atom[1] == ('arg', 'osOpen', 1)

    def on_branch(s, eng, st, inst, atom, truth, fr):
        m = ('arg', 'osOpen', 1)
        if atom[0] == 'eq' and atom[1] == m and atom[2][0] == 'c' and st.ts[0] and (s.names.get(atom[2][1]) == st.ts[0]) != truth:
            return False
        if atom[0] == 'eq' and atom[1] == m and atom[2][0] == 'c' and truth and s.names.get(atom[2][1]) in st.ts[2]:
            return False
        if atom[0] == 'eq' and atom[1] == m and atom[2][0] == 'c':
            n = s.names.get(atom[2][1])
            if n and truth:
                st.ts = (n, st.ts[1], st.ts[2])
            elif n:
                st.ts = (st.ts[0], st.ts[1], st.ts[2] | {n})

    def on_call(s, eng, st, i, t, args, fr):
        if t not in ('fopen', 'fopen64'):
            return None
        c = s.ctx
        mode, failed, nots = st.ts
        left = set(s.names.values()) - nots
        if mode is None and len(left) == 1:
            mode = next(iter(left))
        w = args[1][1].rstrip('\0') if args[1][0] == 's' else None
        key = f'osOpen: {mode or "a mode"} is what it says'
        c.oblige(key, locstr(i))
        s.seen.add(mode)
        ok = True
        if w is None:
            ok = False
        elif mode == 'MODE_OLDFILE':
            ok = w[0] == 'r' and '+' not in w
        elif mode == 'MODE_NEWFILE':
            ok = w[0] == 'w' and 'x' not in w
        elif mode == 'MODE_CREATEFILE':
            ok = w[0] == 'w' and 'x' in w
        else:     # read and write, the contents stay
            ok = w.startswith('r') and '+' in w or (failed and w[0] == 'w' and '+' in w)
        if args[0] != ('arg', 'osOpen', 0):
            ok = False
        if not ok:
            eng.report(key, f'a file to be opened with {mode} is opened in mode {w!r}', st, i, fr)
        no, yes = eng.fork(st, t, args)
        v = eng.result(yes, i, t, args, fr)
        yes.facts[('nz', v)] = True
        no.ts = (st.ts[0], True, st.ts[2])
        return [(yes, v), (no, C0)]


def open_modes(ctx):
    """files are opened as the mode says: contents are lost only with MODE_NEWFILE, lock files are created exclusively"""
    p = ctx.prog()
    ctx.need(p, 'osOpen')
    r = Modes()
    r.names = {ctx.const(n): n for n in ('MODE_OLDFILE', 'MODE_NEWFILE', 'MODE_CREATEFILE', 'MODE_READWRITE')}
    r.seen = set()
    ctx.run(p, r, 'osOpen', (None, False, frozenset()))


# ------------------------------------------------------------------ the lock
class MakeLock(Rule):
    """a function that creates a lock file"""
    correlate = False

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osOpen':
            k = f'{s.fn}: the lock file of another program is respected'
            s.ctx.oblige(k, locstr(i))
            if args[1] != ('c', s.EXCL):
                eng.report(k, 'the lock file is not created exclusively, so two programs can both create it', st, i, fr)
            if 'created' in st.ts:
                eng.report(k, 'the lock file is created twice', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            ok.ts = ok.ts | {'created'}
            return [(ok, v), (no, C0)]
        if t == 'osDelete':
            k = f'{s.fn}: only an own lock file is removed'
            s.ctx.oblige(k, locstr(i))
            if 'created' not in st.ts:
                eng.report(k, 'the lock file of another program is removed', st, i, fr)
            st.ts = st.ts - {'created'}
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = f'{s.fn}: success only when the lock file was created'
        s.ctx.oblige(k, locstr(i))
        if not zero(st, val) and 'created' not in st.ts:
            eng.report(k, 'success is reported although no lock file was created', st, i, fr)
        if zero(st, val) and 'created' in st.ts:
            eng.report(k + ' (kept)', 'failure is reported although the lock file was created', st, i, fr)


def suffix(p, fn):
    r = set()
    for i in p.m.funcs[fn].insts():
        if i.op == 'call':
            for a in i.ops:
                if a[0] == 'g' and p.string(a[1]) is not None:
                    m = re.search(r'\.[a-z]+$', p.string(a[1]).rstrip('\0'))
                    if m:
                        r.add(m.group(0))
    return r


def lockfile(ctx):
    """the lock file is created exclusively, success means it was created, and the same file is removed"""
    p = ctx.prog()
    ctx.need(p, 'LockConfig', 'UnlockConfig')
    r = MakeLock()
    r.fn, r.EXCL = 'LockConfig', ctx.const('MODE_CREATEFILE')
    ctx.run(p, r, 'LockConfig', frozenset())
    k = 'LockConfig and UnlockConfig use the same file'
    ctx.oblige(k)
    a, b = suffix(p, 'LockConfig'), suffix(p, 'UnlockConfig')
    if a != b:
        ctx.finding(k, f'the lock file is created as {sorted(a)} but removed as {sorted(b)}', 'UnlockConfig')
    for fn in ('LockConfig', 'UnlockConfig'):
        for i in p.m.funcs[fn].insts():
            if i.op == 'call' and i.extra[0] in (('g', 'mystrncpy'), ('g', 'strncpy'), ('g', 'snprintf')):
                n = i.ops[1 if i.extra[0][1] == 'snprintf' else 2]
                k = f'{fn}: the name of the lock file is complete'
                ctx.oblige(k, locstr(i))
                if n[0] == 'c' and n[1] < 100:
                    ctx.finding(k, 'the name of the configuration file is cut off in the name of the lock file, which may be another one then', locstr(i))
    k = 'UnlockConfig removes the lock file'
    ctx.oblige(k)
    if not any(i.op == 'call' and i.extra[0] == ('g', 'osDelete') for i in p.m.funcs['UnlockConfig'].insts()):
        ctx.finding(k, 'the lock file is never removed', 'UnlockConfig')


WORK = {'SCAN': ('Scan', None), 'TOSS': ('TossDir', None), 'TOSSFILE': ('TossFile', None), 'TOSSDIR': ('TossDir', None),
        'SCANAREA': ('ScanArea', None), 'SCANLIST': ('ScanList', None), 'SCANDOTJAM': ('ScanDotJam', None),
        'RESCAN': ('Rescan', None), 'SENDQUERY': ('SendAFList', 'SENDLIST_QUERY'), 'SENDLIST': ('SendAFList', 'SENDLIST_FULL'),
        'SENDUNLINKED': ('SendAFList', 'SENDLIST_UNLINKED'), 'SENDHELP': ('SendAFList', 'SENDLIST_HELP'),
        'SENDINFO': ('SendAFList', 'SENDLIST_INFO'), 'REMOVE': ('RemoveArea', None)}


class Main(Rule):
    """main: ts = (facts, last keyword found given)"""
    correlate = False
    max_states = 500

    def track_mem(s, addr, val):
        return addr == ('g', 'done_lockconfig')

    def keyword(s, x):
        b = ldfld(x, 'argument', 'data')
        if b is None:
            return None
        k = 0
        if b[0] == 'idx':
            if b[2][0] != 'c':
                return None
            k, b = b[2][1], b[1]
        return s.kw.get(k) if b == ('g', 'args') else None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and fr.fn.name == 'main':
            k = s.keyword(atom[1])
            if k is not None and k in WORK and truth:
                st.ts = (st.ts[0], k)
            if k == 'UNLOCK' and truth:
                st.ts = (st.ts[0] | {'unlock'}, st.ts[1])
            if k == 'NOSECURITY':
                st.ts = (st.ts[0] | {'nosec'} if truth else st.ts[0] - {'nosec'}, st.ts[1])

    def on_store(s, eng, st, i, addr, val, fr):
        ts, k = st.ts
        if addr == ('g', 'done_lockconfig') and s.lock:
            key = 'main: the lock is remembered'
            s.ctx.oblige(key, locstr(i))
            if val != C0 and 'locked' not in ts:
                eng.report(key, 'the lock counts as held although it was not created by this run', st, i, fr)
            st.ts = (ts | {'remembered'} if val != C0 else ts - {'remembered'}, k)
        if addr == ('g', 'no_security') and val != C0 and not s.lock:
            key = 'main: security checks are switched off only with NOSECURITY'
            s.ctx.oblige(key, locstr(i))
            if 'nosec' not in ts:
                eng.report(key, 'security checks are switched off although NOSECURITY was not given', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        ts, k = st.ts
        if t == 'CleanUp' or t == 'exit':
            if t == 'exit' and s.lock:
                key = 'main: the run always ends with CleanUp'
                c.oblige(key, locstr(i))
                if 'locked' in ts:
                    eng.report(key, 'the run ends without removing the lock', st, i, fr)
            return []
        if t == 'LockConfig':
            no, ok = eng.fork(st, t, args)
            ok.ts = (ts | {'locked'}, k)
            return [(ok, C1), (no, C0)]
        if t == 'UnlockConfig' and s.lock:
            key = 'main: UNLOCK is the only way to remove the lock of another run'
            c.oblige(key, locstr(i))
            if 'unlock' not in ts:
                eng.report(key, 'the lock of another run is removed although UNLOCK was not given', st, i, fr)
            return None
        if t in s.funcs and not s.lock:
            key = f'main: each keyword does its work ({t})'
            c.oblige(key, locstr(i))
            want = WORK.get(k, (None, None))
            if want[0] != t:
                eng.report(key, f'{t} is called for the keyword {k}', st, i, fr)
            elif want[1] and args[1] != ('c', c.const(want[1])):
                eng.report(key, f'the wrong kind of list is sent for {k}', st, i, fr)
            elif t not in ('Scan', 'TossDir') or k == 'TOSSDIR':
                if s.keyword(args[0]) != k:
                    eng.report(key, f'the argument of {k} is not what is worked on', st, i, fr)
            elif k == 'TOSS' and fld(args[0], 'Config', 'cfg_Inbound') is None:
                eng.report(key, 'something else than the inbound directory is tossed', st, i, fr)
            s.done.add(k)
        if t in s.works or t in s.funcs:
            key = 'main: work is done only while the configuration is locked'
            if s.lock:
                c.oblige(key + f' ({t})', locstr(i))
            if not s.lock:
                pass
            elif 'locked' not in ts:
                eng.report(key, f'{t} is called although the configuration is not locked', st, i, fr)
            elif 'remembered' not in ts:
                eng.report(key + ' (released)', f'{t} is called although the lock would not be removed at the end of the run', st, i, fr)
            no, ok = eng.fork(st, t, args)
            if t in s.must:
                ok.ts = (ts | {t}, k)
                no.ts = (ts | {'failed ' + t}, k)
            if t in s.funcs and not s.lock:
                key = 'main: work is done only with a configuration that was read and checked'
                c.oblige(key, locstr(i))
                if not s.must <= ts or any(isinstance(x, str) and x.startswith('failed') for x in ts):
                    eng.report(key, f'{t} is called although reading or checking the configuration or the start failed', st, i, fr)
            if i.res:
                return [(ok, C1), (no, C0)]
        return None


def main_lock(ctx):
    """nothing is done before the configuration is locked"""
    main_rule(ctx, True)


def main_work(ctx):
    """nothing is done before the configuration is read and checked, and every keyword does its work"""
    main_rule(ctx, False)


def main_rule(ctx, lock):
    p = ctx.prog()
    ctx.need(p, 'main', 'CleanUp', 'LockConfig', 'ReadConfig', 'CheckConfig', 'Init')
    r = Main()
    r.lock = lock
    g = p.m.globals.get('args')
    if not g or g[1][0] != 'agg':
        raise AnalysisBroken('table of keywords not found')
    r.kw = {}
    for k, e in enumerate(g[1][1]):
        if e[0] == 'agg':
            for x in e[1]:
                if x[0] == 'g' and p.string(x[1]) is not None:
                    r.kw[k] = p.string(x[1]).rstrip('\0')
    r.funcs = {f for f, _ in WORK.values()}
    ctx.need(p, *r.funcs)
    r.must = {'ReadConfig', 'CheckConfig', 'Init'}
    touch = p.reaching({'osOpen', 'osDelete', 'osRename', 'unlink', 'rename', 'fopen', 'open'})
    r.works = (touch | r.must) - {'LockConfig', 'UnlockConfig', 'CleanUp', 'main', 'osInit', 'osEnd'}
    r.done = set()
    ctx.run(p, r, 'main', (frozenset(), None))
    for k in WORK if not lock else ():
        key = f'main: {k} is done'
        ctx.oblige(key)
        if k not in r.done:
            ctx.finding(key, f'the keyword {k} does nothing', 'main')


class Clean(Rule):
    """CleanUp: ts: facts about the lock"""
    correlate = False
    max_states = 300

    def on_branch(s, eng, st, inst, atom, truth, fr):
        for g in ('done_lockconfig', 'done_init'):
            if atom == ('nz', GL(g)):
                st.ts = st.ts | {g if truth else 'no ' + g}

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'UnlockConfig':
            key = 'CleanUp: only an own lock is removed'
            c.oblige(key, locstr(i))
            if 'done_lockconfig' not in st.ts:
                eng.report(key, 'the lock is removed although it may belong to another run', st, i, fr)
            if fld(args[0], 'Config', 'filename') is None:
                eng.report(key + ' (name)', 'another lock file is removed', st, i, fr)
            st.ts = st.ts | {'unlocked'}
            return None
        if t in s.works and 'unlocked' in st.ts:
            key = 'CleanUp: nothing is written after the lock was removed'
            c.oblige(key, locstr(i))
            eng.report(key, f'{t} is called after the lock was removed, so another run may already be at work', st, i, fr)
        if t == 'exit':
            key = 'CleanUp: the lock is removed'
            c.oblige(key, locstr(i))
            if 'no done_lockconfig' not in st.ts and 'unlocked' not in st.ts:
                eng.report(key, 'the run ends and leaves its lock behind', st, i, fr)
            return []
        if t == 'FreeConfig':
            st.ts = st.ts | {'freed'}
        if t == 'Free':
            st.ts = st.ts | {'closed'}
        return None


def cleanup(ctx):
    """the lock is removed at the end of the run that holds it, after everything was written"""
    p = ctx.prog()
    ctx.need(p, 'CleanUp', 'Free')
    r = Clean()
    r.works = p.reaching({'osWrite', 'osPuts', 'osPutChar', 'osFPrintf', 'osRename', 'CloseDupeDB', 'fwrite', 'fputs', 'fprintf'}) - {'CleanUp', 'UnlockConfig', 'main'}
    ctx.run(p, r, 'CleanUp', frozenset())
    key = 'CleanUp: the only way out'
    ctx.oblige(key)
    for n in ('exit', '_exit', 'abort', '_Exit', 'quick_exit'):
        for f, i in p.callsites.get(n, ()):
            if f.name != 'CleanUp':
                ctx.finding(f'{key} ({f.name})', f'{f.name} ends the program without removing the lock', locstr(i))


# ------------------------------------------------------------------ runs
class Bracket(Rule):
    """ts: open or not"""
    correlate = False
    max_states = 300

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'BeforeScanToss':
            key = f'{s.fn}: a run is opened once'
            s.ctx.oblige(key, locstr(i))
            if st.ts == 'open':
                eng.report(key, 'a run is opened within a run', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts, no.ts = 'open', 'failed'
            return [(ok, C1), (no, C0)]
        if t == 'AfterScanToss':
            key = f'{s.fn}: a run is closed once'
            s.ctx.oblige(key, locstr(i))
            if st.ts != 'open':
                eng.report(key, 'a run is closed that is not open', st, i, fr)
            st.ts = 'closed'
            return None
        if t in s.inside:
            key = f'{s.fn}: mail is handled only inside a run'
            s.ctx.oblige(key, locstr(i))
            if st.ts != 'open':
                eng.report(key, f'{t} is called outside a run (its packets and marks would never be finished)', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        key = f'{s.fn}: every run is closed'
        s.ctx.oblige(key, locstr(i))
        if st.ts == 'open':
            eng.report(key, 'the function returns without closing the run it opened', st, i, fr)
        if st.ts == 'failed' and not zero(st, val):
            eng.report(key + ' (failure)', 'success is reported although the run could not be opened', st, i, fr)


def brackets(ctx):
    """every run that was opened is closed exactly once, and mail is handled only inside a run"""
    p = ctx.prog()
    roots = {f.name for n in ('BeforeScanToss', 'AfterScanToss') for f, _ in p.callsites[n]}
    ctx.need(p, 'BeforeScanToss', 'AfterScanToss')
    for n in sorted(roots):
        r = Bracket()
        r.fn = n
        r.inside = p.reaching({'HandleMessage', 'WritePkt', 'WriteMessage', 'SafeDelete', 'DoSendAFList', 'SendRemoveMessages'}) - roots - {'main', 'BeforeScanToss', 'AfterScanToss'}
        ctx.run(p, r, n, 'none')


class Before(Rule):
    """BeforeScanToss: ts: nodelist state, failed message base"""
    correlate = False
    max_states = 300

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and ldfld(atom[1], 'Config', 'cfg_NodelistType') is not None:
            if truth and 'nonl' in st.ts or not truth and 'isnl' in st.ts:
                return False
            st.ts = st.ts | {'isnl' if truth else 'nonl'}

    def on_call(s, eng, st, i, t, args, fr):
        if t in s.start:
            no, ok = eng.fork(st, t, args)
            ts = st.ts
            ok.ts, no.ts = ts | {'nlopen'}, ts | {'failed'}
            return [(ok, C1), (no, C0)]
        if t in s.end:
            st.ts = st.ts - {'nlopen'}
            return None
        if t in s.before or t == 'osReadDir':
            no, ok = eng.fork(st, t, args)
            no.ts = st.ts | {'failed'}
            if t == 'osReadDir':
                ok.ts = st.ts | {'cleaned'}
            return [(ok, C1), (no, C0)]
        if t == 'osDelete':
            key = 'BeforeScanToss: only unfinished own packets are removed'
            s.ctx.oblige(key, locstr(i))
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        if addr == ('g', 'nodelistopen'):
            key = 'BeforeScanToss: the nodelist counts as open only when it is'
            s.ctx.oblige(key, locstr(i))
            if val != C0 and 'nlopen' not in st.ts:
                eng.report(key, 'the nodelist counts as open although it is not', st, i, fr)
            st.ts = st.ts | {'flag'} if val != C0 else st.ts - {'flag'}

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        key = 'BeforeScanToss: success only if everything was opened'
        s.ctx.oblige(key, locstr(i))
        if zero(st, val):
            if 'nlopen' in st.ts or 'flag' in st.ts:
                eng.report(key + ' (nodelist)', 'the run is not opened but the nodelist stays open', st, i, fr)
            return
        if 'failed' in st.ts:
            eng.report(key, 'success is reported although the nodelist, a directory or a message base could not be opened', st, i, fr)
        if 'isnl' in st.ts and not {'nlopen', 'flag'} <= st.ts:
            eng.report(key + ' (nodelist)', 'the run starts without the nodelist', st, i, fr)
        if 'cleaned' not in st.ts:
            eng.report(key + ' (orphans)', 'unfinished packets of an earlier run are not looked for', st, i, fr)


class Finish(Rule):
    """AfterScanToss: ts: order of the steps"""
    correlate = False
    keep_consts = True
    max_states = 400

    def track(s, atom, st):
        return atom == ('nz', ('arg', 'AfterScanToss', 0))

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and ldfld(atom[1], 'Config', 'cfg_NodelistType') is not None and not truth:
            st.ts = st.ts | {'nonl'}
        if atom == ('nz', ('arg', 'AfterScanToss', 0)):
            st.ts = (st.ts - {'yes', 'no'}) | {'yes' if truth else 'no'}
        for g in ('ioerror', 'nomem'):
            if atom == ('nz', GL(g)):
                st.ts = (st.ts - {g, 'no' + g}) | {g if truth else 'no' + g}

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'ClosePackets':
            st.ts = (st.ts | {'closed'}) - {'noioerror', 'nonomem'}
            return None
        if t == 'ArchiveOutbound':
            key = 'AfterScanToss: packets are filed after they were closed'
            c.oblige(key, locstr(i))
            if 'closed' not in st.ts:
                eng.report(key, 'packets are filed before they were closed', st, i, fr)
            if not {'yes', 'noioerror', 'nonomem'} <= st.ts:
                eng.report(key + ' (failure)', 'packets of a failed run are filed', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ts = st.ts
            ok.ts, no.ts = ts | {'filed'}, ts | {'notfiled'}
            return [(ok, C1), (no, C0)]
        if t in ('WriteStats', 'UpdateConfig', 'ProcessSafeDelete'):
            key = f'AfterScanToss: {t} only after success'
            c.oblige(key, locstr(i))
            if 'filed' not in st.ts:
                eng.report(key, f'{t} is called although the run failed', st, i, fr)
            if t == 'WriteStats':
                st.ts = st.ts | {'stats'}
        if t in s.end:
            st.ts = st.ts | {'nlclosed'}
            return None
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        if addr == ('g', 'nodelistopen') and val == C0:
            st.ts = st.ts | {'noflag'}

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        key = 'AfterScanToss: everything is finished'
        s.ctx.oblige(key, locstr(i))
        if 'closed' not in st.ts:
            eng.report(key, 'packets are left open', st, i, fr)
        if 'nonl' not in st.ts and 'nlclosed' not in st.ts or 'noflag' not in st.ts:
            eng.report(key + ' (nodelist)', 'the nodelist is left open', st, i, fr)
        if 'filed' in st.ts and 'stats' not in st.ts:
            eng.report(key + ' (statistics)', 'statistics of a successful run are not written', st, i, fr)
        if {'yes', 'noioerror', 'nonomem'} <= st.ts and not st.ts & {'filed', 'notfiled'}:
            eng.report(key + ' (filing)', 'the packets of a successful run are not filed', st, i, fr)


def steps(ctx):
    """a run is opened and finished completely: nodelist, message bases, packets, statistics"""
    p = ctx.prog()
    r = Before()
    r.before = set(p.fpslots.get(('F', 'Messagebase', 'beforefunc'), ()))
    r.start = set(p.fpslots.get(('F', 'Nodelist', 'nlStart'), ()))
    r.end = set(p.fpslots.get(('F', 'Nodelist', 'nlEnd'), ()))
    if not r.before or not r.start or not r.end:
        raise AnalysisBroken('message base or nodelist functions not found')
    ctx.run(p, r, 'BeforeScanToss', frozenset())
    r2 = Finish()
    r2.end = r.end
    ctx.run(p, r2, 'AfterScanToss', frozenset())
    for fn, slot in (('BeforeScanToss', 'beforefunc'), ('AfterScanToss', 'afterfunc')):
        key = f'{fn}: every message base is told'
        ctx.oblige(key)
        f = p.m.funcs[fn]
        for c in loops.counters(p, f):
            us = [i for i in loops.uses_index(p, c, lambda i: i.op == 'gep' and i.ops[0] == ('g', 'AvailMessagebases'))]
            if us and (c.step != 1 or any(x[0] == 'c' and x[1] != 0 for x in c.init)):
                ctx.finding(key, 'a message base is left out', locstr(us[0]))


RULES = {
    'A18': ('Only one run works with a configuration at a time', [open_modes, lockfile, main_lock, cleanup]),
    'A19': ('Every run is opened and closed completely', [main_work, brackets, steps]),
}
