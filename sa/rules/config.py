"""Configuration changes made at run time reach the configuration file, completely or not at all."""
import re
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .fail import WRITES

STORED = {  # what the configuration file says about a node / an area
    'ConfigNode': {'Node', 'PacketPW', 'Packer', 'AreafixPW', 'Groups', 'ReadOnlyGroups', 'AddGroups', 'DefaultGroup', 'Flags', 'SysopName',
                   'EchomailPri', 'PktFrom', 'RemoteAFName', 'RemoteAFPw'},
    'Area': {'Aka', 'Flags', 'AreaType', 'Tagname', 'Description', 'Messagebase', 'Path', 'Group', 'TossNodes', 'BannedNodes', 'KeepNum', 'KeepDays'}}
COPIES = {'strcpy', 'strncpy', 'mystrncpy', 'jbstrcpy', 'strcat', 'sprintf', 'Copy4D', 'Parse4D', 'memcpy', 'memmove', 'memset',
          'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memset.p0.i64'}
DST = {'Parse4D': 1}
LISTOPS = {'jbAddNode', 'jbFreeNode', 'jbFreeList', 'AddTossNode'}


def stored_field(addr, deep=False):
    """(struct, field, base) when addr lies in a stored field of a node or area"""
    a = addr
    while isinstance(a, tuple) and a and a[0] in ('fld', 'idx', 'off'):
        if a[0] == 'fld' and a[2] in STORED and a[3] in STORED[a[2]]:
            return a[2], a[3], a[1]
        a = a[1]
    return None


# ------------------------------------------------------------------ replacing the file
class Replace(Rule):
    """ts: (write failed, open, state of the file name: 'old' | 'moved' | 'new' | 'lost')"""
    correlate = False
    max_states = 100
    keep_consts = True
    transient = lambda s, a: True

    def interesting(s, eng):
        return s.reach - {'UpdateConfig'}

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1] == GL('ioerror')

    def track_mem(s, addr, val):
        return addr in (('g', 'ioerror'),) or addr_root(addr)[0] == 'al' and val in (C0, C1)

    def key(s, what):
        return f'UpdateConfig: {what}'

    def name(s, a):
        return fld(a, 'Config', 'filename') is not None

    def on_call(s, eng, st, i, t, args, fr):
        bad, opened, where = st.ts
        if t == 'osOpen' and s.name(args[0]) and args[1] != ('c', s.OLD):
            s.rep(eng, st, i, fr, 'the old configuration is never written in place', 'the configuration file itself is opened for writing')
            return None
        if t == 'osDelete' and s.name(args[0]):
            s.rep(eng, st, i, fr, 'the old configuration is never deleted', 'the configuration file itself is deleted')
            return None
        if t == 'osOpen' and args[1] != ('c', s.OLD):
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            ok.ts = (bad, True, where)
            no.ts = (True, opened, where)
            return [(ok, v), (no, C0)]
        if t in WRITES and t not in ('osClose', 'osRename') or t == 'osClose' and not (args[0][0] == 'call' and args[0][1] == 'osOpen' and args[0][2][1:] == (('c', s.OLD),)):
            s.ctx.oblige(s.key(f'a failing {t} keeps the old configuration'), locstr(i))
            no, ok = eng.fork(st, t, args)
            no.ts = (True, opened and t != 'osClose', where)
            ok.ts = (bad, opened and t != 'osClose', where)
            return [(ok, C1), (no, C0)]
        if t == 'osRename' and (s.name(args[0]) or s.name(args[1])):
            no, ok = eng.fork(st, t, args)
            away = s.name(args[0])
            if where == 'old' or (where == 'moved' and not bad):
                for k, c in (('a failed write', bad), ('an open file', opened)):
                    q = s.key(f'the configuration is not replaced after {k}' if c == bad else 'the new configuration is closed before it is used')
                q1, q2 = s.key('the configuration is not replaced after a failed write'), s.key('the new configuration is closed before it is used')
                s.ctx.oblige(q1, locstr(i))
                s.ctx.oblige(q2, locstr(i))
                if bad:
                    eng.report(q1, 'the configuration file is renamed although the new one could not be written completely', st, i, fr)
                elif opened:
                    eng.report(q2, 'the configuration file is renamed before the new one was closed', st, i, fr)
            if away:
                ok.ts = (bad, opened, 'moved')
                no.ts = (True, opened, where)
            else:
                ok.ts = (bad, opened, 'old' if bad else 'new')
                no.ts = (True, opened, 'lost' if bad and where == 'moved' and contains(args[0], s.bak(st, args[0])) else where)
            return [(ok, C1), (no, C0)]
        return None

    def bak(s, st, a):
        return a

    def rep(s, eng, st, i, fr, what, msg):
        s.ctx.oblige(s.key(what), locstr(i))
        eng.report(s.key(what), msg, st, i, fr)

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        bad, opened, where = st.ts
        k = s.key('success is reported only when the new configuration is in place')
        s.ctx.oblige(k, locstr(i))
        if val != C0 and st.truth(('nz', val)) is not False and (bad or where != 'new'):
            eng.report(k, 'UpdateConfig reports success although writing or renaming failed', st, i, fr)
        k = s.key('a failed update puts the old configuration back')
        s.ctx.oblige(k, locstr(i))
        if where == 'moved':
            eng.report(k, 'UpdateConfig returns while no file has the name of the configuration', st, i, fr)


def replace(ctx):
    """UpdateConfig replaces the configuration file only by a completely written and closed one and puts the old one back otherwise"""
    p = ctx.prog()
    ctx.need(p, 'UpdateConfig')
    r = Replace()
    r.OLD = ctx.const('MODE_OLDFILE')
    r.reach = p.reaching(WRITES - {'osClose', 'osRename'}) & p.reach(['UpdateConfig'])
    r.reach -= WRITES
    ctx.run(p, r, 'UpdateConfig', (False, False, 'old'))


# ------------------------------------------------------------------ marking changes
class Marked(Rule):
    """ts: ('dirty', base) ('set', base) 'cfgdirty' 'cfgset'"""
    correlate = False
    stale_ts = True
    keep_consts = False
    max_states = 300
    transient = lambda s, a: True

    def __init__(s, root):
        s.root = root

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('Area', 'ConfigNode') and any(isinstance(x, tuple) and contains(x, atom[1]) for x in st.ts)

    def dirty(s, eng, st, i, fr, S, F, base):
        if addr_root(base)[0] == 'al':
            return
        s.ctx.oblige(f'{s.root}: a change of {S}.{F} is marked for the configuration file', locstr(i))
        ts = set(st.ts)
        if ('set', base) not in ts:
            ts.add(('dirty', base, S + '.' + F))
        if 'cfgset' not in ts:
            ts.add('cfgdirty')
        st.ts = frozenset(ts)

    def on_store(s, eng, st, i, addr, val, fr):
        if isinstance(addr, tuple) and addr[0] == 'fld' and addr[3] == 'changed' and addr[2] in ('Area', 'ConfigNode', 'Config'):
            ts = set(st.ts)
            if val == C0:
                s.ctx.oblige(f'{s.root}: change marks are not cleared', locstr(i))
                eng.report(f'{s.root}: change marks are not cleared', f'{addr[2]}.changed is cleared', st, i, fr)
            elif addr[2] == 'Config':
                ts.discard('cfgdirty')
                ts.add('cfgset')
            else:
                ts = {x for x in ts if not (isinstance(x, tuple) and x[0] == 'dirty' and x[1] == addr[1])}
                ts = {x for x in ts if not (isinstance(x, tuple) and x[0] == 'set')}
                ts.add(('set', addr[1]))
            st.ts = frozenset(ts)
            return None
        f = stored_field(addr)
        if f:
            if f[1] == 'AreaType':
                st.ts = st.ts | ({'cfgdirty'} if 'cfgset' not in st.ts and val == ('c', s.DELETED) and not s.deleter else set())
            else:
                s.dirty(eng, st, i, fr, *f)
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t in COPIES and len(args) > DST.get(t, 0):
            f = stored_field(args[DST.get(t, 0)])
            if f:
                s.dirty(eng, st, i, fr, *f)
        elif t in LISTOPS and args:
            if t == 'AddTossNode':
                if s.root != t:
                    s.dirty(eng, st, i, fr, 'Area', 'TossNodes', args[0])
                return None
            f = stored_field(args[0])
            if f and s.root != 'AddTossNode' and not s.deleter:
                s.dirty(eng, st, i, fr, *f)
            b = listhead(args[0])
            if args[0] == ('fld', ('g', 'config'), 'Config', 'AreaList'):
                s.ctx.oblige(f'{s.root}: a new or removed area is marked for the configuration file', locstr(i))
                if 'cfgset' not in st.ts:
                    st.ts = st.ts | {'cfgdirty'}
                if t == 'jbAddNode':
                    s.dirty(eng, st, i, fr, 'Area', 'Tagname', args[1])
        elif t == 'AddArea' and s.root != t:
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            ok.ts = ok.ts - {'cfgdirty'} | {('set', v), 'cfgset'}
            return [(ok, v), (no, C0)]
        elif t == 'RemoveDeletedAreas' and s.root != t:
            # areas marked as deleted go away here; contract checked on its own
            eng.kill_call(st, t, args)
            st.ts = frozenset(x for x in st.ts if x != 'cfgdirty')
            return [(st, None)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        if val is not None and (val == C0 or st.truth(('nz', val)) is False) and s.mayfail:
            return
        for x in st.ts:
            if isinstance(x, tuple) and x[0] == 'dirty':
                eng.report(f'{s.root}: a change of {x[2]} is marked for the configuration file', f'{x[2]} is changed but the change is not marked for the configuration file', st, i, fr)
        if 'cfgdirty' in st.ts:
            eng.report(f'{s.root}: changes set config.changed', 'the configuration is changed but config.changed is not set', st, i, fr)


EXCLUDED = {'ReadConfig', 'InitConfig', 'FreeConfig', 'UpdateConfig', 'AddTossNode', 'Init', 'main', 'CheckConfig'}


def marked(ctx):
    """every function that changes a node, an area, a link or the list of areas marks both the entry and the configuration as changed"""
    p = ctx.prog()
    todo = set()
    for f in p.m.funcs.values():
        if f.name in EXCLUDED or f.loc and False:
            continue
        for i in f.insts():
            if i.op == 'store':
                l = p.loc_of(f, i.ops[1])
            elif i.op == 'call' and i.extra[0][0] == 'g' and i.extra[0][1] in COPIES | LISTOPS - {'jbFreeList'} and i.ops:
                k = DST.get(i.extra[0][1], 0)
                if k >= len(i.ops):
                    continue
                if i.extra[0][1] == 'AddTossNode':
                    todo.add(f.name)
                l = p.loc_of(f, i.ops[k])
            else:
                continue
            if any(x[0] == 'F' and x[1] in STORED and x[2] in STORED[x[1]] or x == ('F', 'Config', 'AreaList') for x in l):
                todo.add(f.name)
    todo -= {'SendRemoteAreafix'}
    for need in ('AreaFix', 'AddArea', 'RemoveDeletedAreas'):
        if need not in todo:
            ctx.finding(f'{need}: changes the configuration', f'{need} no longer changes the configuration', need)
    Marked.p = p
    Marked.DELETED = ctx.const('AREATYPE_DELETED')
    for f in sorted(todo):
        r = Marked(f)
        r.mayfail = f in ('AddArea',)
        r.deleter = f == 'RemoveDeletedAreas'
        ctx.run(p, r, f, frozenset())
    ctx.floor('AreaFix: a change', 4)


# ------------------------------------------------------------------ writing the changes at the end of a run
class After(Rule):
    """ts: True once the configuration was written or the run is known to have failed"""
    correlate = False
    keep_consts = True

    def interesting(s, eng):
        return s.p.reaching({'UpdateConfig'}) & s.p.reach(['AfterScanToss']) - {'UpdateConfig'}

    def ok(s, atom):
        return atom[0] == 'nz' and (atom[1] == ('arg', 'AfterScanToss', 0) or ldfld(atom[1], 'Config', 'changed') is not None)

    def track(s, atom, st):
        return s.ok(atom)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'UpdateConfig':
            st.ts = True
        elif t == 'ArchiveOutbound' and i.res:
            no, ok = eng.fork(st, t, args)
            no.ts = True
            return [(ok, C1), (no, C0)]
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom in (('nz', GL('ioerror')), ('nz', GL('nomem'))) and truth:
            st.ts = True

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = 'AfterScanToss: a changed configuration is written'
        s.ctx.oblige(k, locstr(i))
        if not st.ts and not any(s.ok(a) and v is False for a, v in st.facts.items()):
            eng.report(k, 'a run may end successfully without writing the changed configuration', st, i, fr)


def after(ctx):
    """AfterScanToss(TRUE) writes the configuration whenever config.changed is set"""
    p = ctx.prog()
    ctx.need(p, 'AfterScanToss', 'UpdateConfig')
    r = After()
    r.p = p
    ctx.run(p, r, 'AfterScanToss', False)


# ------------------------------------------------------------------ the lines of the old file
def literal_match(atom, truth):
    """(buffer, literal) when a case-insensitive comparison with a literal has just been decided; third: matched?"""
    if atom[0] == 'nz':
        a = call(atom[1], ('strcasecmp', 'stricmp'))
        if a is not None:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y[0] == 's':
                    return x, y[1].upper(), not truth
    return None


class Lines(Rule):
    """ts: (phase 'read'|'rest'|'done', line: None|'pending'|'copied', empty, area (state, kw), node (state, kw), owed, wrote)
    state: 'keep' lines are copied, 'start' an AREA/NODE line was just read, 'found' its entry was found, 'changed', 'gone' the entry is
    removed, 'written';  kw: '?' unknown, 'yes' the keyword belongs to the entry, 'no'"""
    correlate = False
    keep_consts = True
    max_states = 1200
    START = {'AREA': 3, 'NETMAIL': 3, 'LOCALAREA': 3, 'NODE': 4}
    WR = {'WriteArea': 3, 'WriteNode': 4}
    transient = lambda s, a: True

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('Area', 'ConfigNode')

    def interesting(s, eng):
        return set()

    def key(s, what):
        return f'UpdateConfig: {what}'

    def rep(s, eng, st, i, fr, what, msg):
        s.ctx.oblige(s.key(what), locstr(i))
        eng.report(s.key(what), msg, st, i, fr)

    def table(s, t):
        """the keyword table a pointer term walks through"""
        r = addr_root(t)
        if r[0] == 'g':
            return r[1]
        if r[0] == 'phi' and r[1] in s.p.m.funcs:
            for l in s.p.loc_of(s.p.m.funcs[r[1]], ('v', r[2])):
                if l[0] == 'G':
                    return l[1]
        return None

    def kind(s, g):
        """which entry's keywords a table lists"""
        ws = table_words(s.p, g)
        if not ws:
            return None
        s.tables[g] = ws
        return 4 if 'NODE' in ws else 3 if 'AREA' in ws else None

    def boundary(s, eng, st, i, fr):
        ph, line, empty, area, node, owed, wrote = st.ts
        if ph != 'read' or line is None:
            return
        for k, what in ((area, 'area'), (node, 'node')):
            w = f'a changed {what} is written in place of its old settings'
            s.ctx.oblige(s.key(w), locstr(i))
            if k[0] in ('found', 'changed'):
                s.rep(eng, st, i, fr, w, f'the settings of a changed {what} found in the old file are not replaced')
        if owed:
            s.rep(eng, st, i, fr, 'a change mark is cleared only when the entry is written', 'a change mark is cleared although the entry is not written')
        w = 'lines are dropped only when they belong to a rewritten or removed entry'
        s.ctx.oblige(s.key(w), locstr(i))
        if line == 'pending':
            just = any(k[0] in ('written', 'gone') and (k[1] == 'yes' or empty) for k in (area, node))
            if not just:
                s.rep(eng, st, i, fr, w, 'a line of the old configuration is neither copied nor part of a rewritten or removed entry')

    def on_call(s, eng, st, i, t, args, fr):
        ph, line, empty, area, node, owed, wrote = st.ts
        if t == 'osFGets':
            s.boundary(eng, st, i, fr)
            no, ok = eng.fork(st, t, args)
            S = lambda k: ('keep' if k[0] in ('keep', 'start', 'unch') else k[0], '?')
            ok.ts = ('read', 'pending', False, S(area), S(node), False, False)
            no.ts = ('rest', None, False, ('keep', '?'), ('keep', '?'), False, False)
            return [(ok, args[1]), (no, C0)]
        if t == 'jbstrcpy' and ph == 'read' and contains(args[1], ('g', 'cfgbuf')) and args[0] == s.word(st, args):
            no, ok = eng.fork(st, t, args)
            no.ts = (ph, line, True) + no.ts[3:]
            return [(ok, C1), (no, C0)]
        if t in s.WR:
            k = s.WR[t]
            ts = list(st.ts)
            ts[k] = ('written', ts[k][1])
            ts[6] = True
            ts[5] = False
            if ph == 'rest':
                ts[1] = 'ok'
            st.ts = tuple(ts)
            return None
        if t == 'osPuts' or t == 'osWrite':
            if contains(args[1], ('g', 'cfgbuf')) and ph == 'read':
                w = 'no line of a rewritten or removed entry is copied'
                s.ctx.oblige(s.key(w), locstr(i))
                if not empty and any(k[0] in ('written', 'gone') and k[1] != 'no' for k in (area, node)):
                    s.rep(eng, st, i, fr, w, 'a line that belongs to a rewritten or removed entry may be copied from the old configuration')
                st.ts = (ph, 'copied') + st.ts[2:]
            return None
        if t == 'osRename' and fld(args[1], 'Config', 'filename') is not None or t == 'osRename' and fld(args[0], 'Config', 'filename') is not None:
            w = 'areas that the old file does not have are written'
            s.ctx.oblige(s.key(w), locstr(i))
            if ph != 'done':
                s.rep(eng, st, i, fr, w, 'the configuration is replaced before all remaining changed areas were written')
        return None

    def word(s, st, args):
        if s.cfgword is None or args[0] == s.cfgword:
            s.cfgword = args[0]
        return s.cfgword

    def on_store(s, eng, st, i, addr, val, fr):
        if addr[0] == 'fld' and addr[3] == 'changed' and addr[2] in ('Area', 'ConfigNode') and val == C0:
            w = 'a change mark is cleared only when the entry is written'
            s.ctx.oblige(s.key(w), locstr(i))
            if not st.ts[6]:
                ts = list(st.ts)
                ts[5] = True
                st.ts = tuple(ts)
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        ph, line, empty, area, node, owed, wrote = st.ts
        ts = list(st.ts)
        m = literal_match(atom, truth)
        if m and m[1] in s.START and ph == 'read' and m[0] == s.cfgword:
            if m[2]:
                k = s.START[m[1]]
                ts[k] = ('start', ts[k][1])
                st.ts = tuple(ts)
            return None
        if atom[0] == 'nz' and ph == 'read':
            a = call(atom[1], ('strcasecmp', 'stricmp'))
            if a is not None and s.cfgword in a:
                o = a[1] if a[0] == s.cfgword else a[0]
                if o[0] == 'ld':
                    g = s.table(o[1])
                    k = g and s.kind(g)
                    if k and not truth:
                        ts[k] = (ts[k][0], 'yes')
                        st.ts = tuple(ts)
                return None
            if atom[1][0] == 'ld' and not truth:
                g = s.table(atom[1][1])
                k = g and s.kind(g)
                if k:
                    if ts[k][1] == '?':
                        ts[k] = (ts[k][0], 'no')
                    st.ts = tuple(ts)
                    return None
            if a is not None and any(fld(x, 'Area', 'Tagname') is not None for x in a) and not truth and area[0] == 'start':
                ts[3] = ('found', area[1])
                st.ts = tuple(ts)
                return None
            a = call(atom[1], 'Compare4D')
            if a is not None and any(fld(x, 'ConfigNode', 'Node') is not None for x in a) and not truth and node[0] == 'start':
                ts[4] = ('found', node[1])
                st.ts = tuple(ts)
                return None
            for k, S in ((3, 'Area'), (4, 'ConfigNode')):
                if ldfld(atom[1], S, 'changed') is not None and ts[k][0] == 'found':
                    ts[k] = ('changed' if truth else 'unch', ts[k][1])
                    st.ts = tuple(ts)
                    return None
            if points_to(s.p, atom[1]) == 'Area' and not truth and area[0] == 'start':
                ts[3] = ('gone', area[1])
                st.ts = tuple(ts)
            return None
        if atom[0] == 'nz' and ph == 'rest':
            if ldfld(atom[1], 'Area', 'changed') is not None:
                if not truth:
                    ts[1] = 'ok'
                    st.ts = tuple(ts)
            elif points_to(s.p, atom[1]) == 'Area':
                w = 'areas that the old file does not have are written'
                s.ctx.oblige(s.key(w), locstr(i))
                if line == 'pending':
                    s.rep(eng, st, i, fr, w, 'a changed area that the old file does not have may be left out')
                if owed:
                    s.rep(eng, st, i, fr, 'a change mark is cleared only when the entry is written', 'a change mark is cleared although the entry is not written')
                ts[1] = 'pending' if truth else None
                ts[5] = ts[6] = False
                if not truth:
                    ts[0] = 'done'
                st.ts = tuple(ts)
        return None


def table_words(p, g):
    """strings of a NULL-terminated table of keywords"""
    x = p.m.globals.get(g)
    if not x or not x[1] or x[1][0] != 'agg':
        return None
    r = []
    for v in x[1][1]:
        if v[0] == 'g' and p.string(v[1]) is not None:
            r.append(p.string(v[1]).upper())
        else:
            break
    return r


def lines(ctx):
    """UpdateConfig copies every line except those of rewritten or removed entries, which it drops, and writes every changed entry"""
    p = ctx.prog()
    ctx.need(p, 'UpdateConfig', 'WriteArea', 'WriteNode')
    r = Lines()
    r.p = p
    r.cfgword = None
    r.tables = {}
    ctx.run(p, r, 'UpdateConfig', ('start', None, False, ('keep', '?'), ('keep', '?'), False, False))
    ctx.cfgtables = r.tables
    ctx.floor('UpdateConfig: ', 6)


# ------------------------------------------------------------------ what is read is written
ENTRY = ('Area', 'ConfigNode', 'TossNode', 'ImportNode', 'BannedNode')


class Reader(Rule):
    """ts: (keyword of the current line, switches matched in the current word)"""
    correlate = False
    keep_consts = True
    max_states = 600
    max_depth = 3

    def __init__(s):
        s.word = None
        s.got = {}      # (keyword, switches, kind, struct, field, constant) -> where

    def put(s, st, i, kind, S, F, c=None):
        kw, sw = st.ts
        if kw and len(sw) < 2:
            s.got.setdefault((kw, sw, kind, S, F, c), (locstr(i), len(s.got)))

    def target(s, a):
        while isinstance(a, tuple) and a and a[0] in ('fld', 'idx', 'off'):
            if a[0] == 'fld' and a[2] in ENTRY:
                return a[2], a[3]
            a = a[1]

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osFGets':
            st.ts = (None, ())
        elif t in ('jbstrcpy', 'jbstrcpyrest', 'Parse4D', 'jbAddNode', 'Parse4DTemplate', 'mystrncpy', 'strcpy'):
            k = 1 if t.startswith('Parse4D') else 0
            f = s.target(args[k])
            if f:
                s.put(st, i, 'list' if t == 'jbAddNode' else 'value', *f)
            elif t.startswith('jbstrcpy'):
                if s.word is None:
                    s.word = args[0]
                st.ts = (st.ts[0], ())
        return None

    def on_store(s, eng, st, i, addr, val, fr):
        if addr[0] == 'fld' and addr[2] in ENTRY:
            S, F = addr[2], addr[3]
            if val[0] == 'bin' and val[1] == 'or' and val[3][0] == 'c':
                s.put(st, i, 'flag', S, F, val[3][1])
            elif val[0] == 'c':
                s.put(st, i, 'const', S, F, val[1])
            else:
                s.put(st, i, 'value', S, F)
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        kw, sw = st.ts
        m = literal_match(atom, truth)
        if m:
            buf, lit, hit = m
            if buf == s.word:
                if kw is None:
                    if hit:
                        st.ts = (lit, ())
                elif hit != (lit == kw):
                    return False
            elif hit and kw and buf[0] != 'ld' and addr_root(buf)[0] == 'al':
                st.ts = (kw, (lit,))
        elif atom[0] == 'eq' and truth and kw and atom[2][0] == 'c' and (33 <= atom[2][1] < 48 or 58 <= atom[2][1] < 65) and atom[1][0] == 'ld' and addr_root(atom[1][1])[0] == 'al':
            st.ts = (kw, sw + (chr(atom[2][1]),))
        return None


class Writer(Rule):
    """ts: (keyword of the line being written, keywords written, was the thing under observation written?)"""
    count_loops = True
    correlate = False
    keep_consts = True
    max_states = 60
    transient = lambda s, a: False

    def __init__(s, fn, atoms=(), word=None, kw=None, S=None, F=None, c=None):
        s.c = c
        s.fn, s.atoms, s.wanted, s.kw, s.S, s.F = fn, atoms, word, kw, S, F
        s.kws = set()
        s.seq = []

    def interesting(s, eng):
        return set()

    def track(s, atom, st):
        return any(a(atom) for a in s.atoms)

    def out(s, st, i, text, args):
        """a piece of text (with % directives) and the values printed"""
        cur, seen, done = st.ts
        args = list(args)
        for k, part in enumerate(text.split('\n')):
            if k:
                cur = None
            ws = part.split()
            if ws and cur is None:
                w = ws[0]
                if re.fullmatch(r'[A-Z][A-Z0-9_]*', w):
                    cur = w
                    s.kws.add(w)
                    seen = seen | {w} if s.wanted == w or s.kw == w else seen
                    if s.wanted == w == s.kw:
                        done = True
                    ws = ws[1:]
            if s.wanted and s.wanted != s.kw and cur == s.kw:
                if s.wanted in ws or not s.wanted[0].isalpha() and s.wanted in part.replace('%%', '%'):
                    done = True
            for _ in range(part.replace('%%', '').count('%') if text else len(args)):
                f = s.field(args.pop(0)) if args else None
                if f:
                    s.ctx_value(st, i, cur, f)
                    if f == (s.S, s.F) and cur == s.kw:
                        done = True
        st.ts = (cur, seen, done)

    def ctx_value(s, st, i, cur, f):
        s.seq.append((cur, f))

    def field(s, a):
        """the field of an entry that a printed value comes from"""
        best = None
        t = a
        while isinstance(t, tuple) and t:
            if listhead(t):
                break
            if t[0] == 'fld' and t[2] in ENTRY:
                best = (t[2], t[3])
                t = t[1]
            elif t[0] in ('fld', 'idx', 'off', 'ld'):
                t = t[1]
            else:
                break
        return best

    def on_call(s, eng, st, i, t, args, fr):
        if len(args) >= 2 and args[0] == ('arg', s.fn, 1):
            if args[1][0] == 's' and t != 'WriteSafely':
                s.out(st, i, args[1][1], args[2:])
            else:
                s.out(st, i, '', args[1:])
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and not truth and s.counter(atom[1]):
            return False

    def counter(s, t):
        """a counter that starts at 0, after its first increment (until then it is a constant)"""
        if t[0] != 'phi' or t[1] not in s.p.m.funcs:
            return False
        d = s.p.defs(s.p.m.funcs[t[1]])
        todo, seen, inc = [t[2]], set(), False
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            i = d.get(n)
            if i is None or i.op not in ('phi', 'bin'):
                return False
            if i.op == 'bin':
                if i.extra != 'add' or i.ops[1][0] != 'c' or i.ops[1][1] <= 0 or i.ops[0][0] != 'v':
                    return False
                inc = True
                todo.append(i.ops[0][1])
            else:
                for _, v in i.extra:
                    if v[0] == 'v':
                        todo.append(v[1])
                    elif v[0] != 'c' or v[1] < 0:
                        return False
        return inc

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None:
            s.exits.append((st.ts, dict(st.facts), st, i, fr, eng))


def wrun(ctx, p, fn, **kw):
    r = Writer(fn, **kw)
    r.exits = []
    ctx.run(p, r, fn, (None, frozenset(), False))
    return r


class PerNode(Writer):
    """every element of a link list is written, on a line that has its keyword"""
    keep_consts = True
    transient = lambda s, a: True
    LOOPS = {'TossNode': 'EXPORT', 'ImportNode': 'IMPORT', 'BannedNode': 'BANNED'}

    def track(s, atom, st):
        return atom[0] == 'nz' and s.cursor(atom[1])

    def cursor(s, t):
        if t[0] == 'phi' and t[1] == s.fn:
            return ptypes(s.p, s.p.m.funcs[s.fn]).get(t[2]) in s.LOOPS
        return t[0] == 'ld' and t[1][0] == 'fld' and (t[1][3] in ('TossNodes', 'BannedNodes') or t[1][3] == 'Next' and t[1][2] in s.LOOPS
                                                     or t[1][3] == 'First' and t[1][1][0] == 'fld' and t[1][1][3] in ('TossNodes', 'BannedNodes'))

    def ctx_value(s, st, i, cur, f):
        if f[0] in s.LOOPS and f[1] in ('ConfigNode', 'Node'):
            k = f'WriteArea: an element of the list is written on a line with its keyword ({f[0]})'
            s.ctx.oblige(k, locstr(i))
            if cur != s.LOOPS[f[0]]:
                s.ctx.finding(k, f'a node is written on a line that starts with {cur}, not {s.LOOPS[f[0]]}', locstr(i), [s.fn])
            s.put = True

    def on_call(s, eng, st, i, t, args, fr):
        s.put = False
        r = super().on_call(eng, st, i, t, args, fr)
        if s.put:
            st.ts = (st.ts[0], st.ts[1] | {'!'}, st.ts[2])
        return r

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and s.cursor(atom[1]):
            cur, seen, d = st.ts
            k = 'WriteArea: every element of a list is written'
            s.ctx.oblige(k, locstr(i))
            if 'loop' in seen and '!' not in seen:
                eng.report(k, 'a link or banned node may be left out of the rewritten configuration', st, i, fr)
            st.ts = (cur, seen - {'!', 'loop'} | ({'loop'} if truth else set()), d)
            return None
        return Writer.on_branch(s, eng, st, i, atom, truth, fr)


def roundtrip(ctx):
    """whatever ReadConfig reads for a node or an area, WriteNode and WriteArea write under the same keyword exactly when it is set"""
    p = ctx.prog()
    ctx.need(p, 'ReadConfig', 'WriteNode', 'WriteArea')
    rd = Reader()
    ctx.run(p, rd, 'ReadConfig', (None, ()))
    Writer.p = p
    base = {}
    for fn in ('WriteNode', 'WriteArea'):
        base[fn] = wrun(ctx, p, fn)
    r = PerNode('WriteArea')
    r.exits = []
    ctx.run(p, r, 'WriteArea', (None, frozenset(), False))
    writes = {k: fn for fn in base for k in base[fn].kws}
    known = {e[0] for e in rd.got}
    tables = {w: g for g, ws in ctx.cfgtables.items() for w in ws}
    for kw in sorted(set(writes) | set(tables)):
        k = f'keyword {kw}: dropped from the old file exactly when it is written again'
        ctx.oblige(k)
        if kw not in tables:
            ctx.finding(k, f'{writes[kw]} writes {kw} lines but UpdateConfig keeps the old ones too', writes[kw])
        elif kw not in writes:
            ctx.finding(k, f'UpdateConfig drops {kw} lines of changed entries but they are not written again', 'UpdateConfig')
        elif kw not in known:
            ctx.finding(k, f'{writes[kw]} writes {kw} lines that ReadConfig does not read', writes[kw])
    bycon = {}
    for (kw, sw, kind, S, F, c) in rd.got:
        if kind == 'const' and not sw:
            bycon.setdefault((S, F), {}).setdefault(kw, set()).add(c)
    for (kw, sw, kind, S, F, c), (where, n) in sorted(rd.got.items(), key=lambda x: x[1][1]):
        if kw not in writes or kw not in tables:
            continue
        fn = writes[kw]
        if F in ('Next', 'First', 'Last'):
            continue
        name = f'keyword {kw}{" " + sw[0] if sw else ""}: {S}.{F}{" " + str(c) if c is not None else ""}'
        if kind == 'flag' and S != 'TossNode' or kind == 'const' and S == 'TossNode' and F == 'Flags' and sw:
            ps = any(e[0] == kw and e[2] == 'value' for e in rd.got) and not sw
            word = sw[0] if sw else kw
            r = wrun(ctx, p, fn, atoms=[lambda a, S=S, F=F, c=c: (flag(a, S, F) or (0, 0))[1] == c], word=word, kw=kw)
            if S == 'TossNode':
                prefix(ctx, p, fn, kw, word, S, F, c, name)
                continue
            test(ctx, r, name, word, kw, sw, f'{S}.{F} & {c}', {True: True, False: False})
        elif kind == 'const' and sw:
            r = wrun(ctx, p, fn, atoms=[lambda a, S=S, F=F, c=c: a[0] == 'eq' and a[2] == ('c', c) and ldfld(a[1], S, F) is not None
                                        or c == 0 and a[0] == 'nz' and ldfld(a[1], S, F) is not None], word=sw[0], kw=kw)
            test(ctx, r, name, sw[0], kw, sw, f'{S}.{F} == {c}', None)
        elif kind == 'const':
            alt = bycon[(S, F)]
            if len(alt) < 2:
                continue
            mine = alt[kw]
            if len(mine) == 1:
                r = wrun(ctx, p, fn, atoms=[lambda a, S=S, F=F: a[0] == 'eq' and a[2][0] == 'c' and ldfld(a[1], S, F) is not None], word=kw, kw=kw, c=c)
                test(ctx, r, name, kw, kw, (), f'{S}.{F} == {c}', None)
            else:
                oth = {x for k2, v in alt.items() if k2 != kw for x in v}
                r = wrun(ctx, p, fn, atoms=[lambda a, S=S, F=F: a[0] == 'eq' and a[2][0] == 'c' and a[2][1] in oth and ldfld(a[1], S, F) is not None], word=kw, kw=kw)
                ctx.oblige(name)
                for (cur, seen, done), facts, st, i, fr, eng in r.exits:
                    other = any(v is True for a, v in facts.items())
                    if done == other:
                        ctx.finding(name, f'{fn} {"writes" if done else "does not write"} {kw} although the type of the area is {"another" if other else "this"} one', locstr(i), [fn])
        elif kind == 'value' and S in ('Area', 'ConfigNode'):
            guard = [e for e in rd.got if e[0] == kw and e[2] == 'flag' and not e[1]]
            ats = [lambda a, S=S, F=F: a[0] == 'nz' and nonempty(a[1], S, F)]
            for g in guard:
                ats.append(lambda a, g=g: (flag(a, g[3], g[4]) or (0, 0))[1] == g[5])
            if (S, F) == ('ConfigNode', 'RemoteAFPw'):      # of no use without a name
                ats.append(lambda a: a[0] == 'nz' and nonempty(a[1], 'ConfigNode', 'RemoteAFName'))
            if (S, F) == ('Area', 'Path'):
                ats.append(lambda a: a[0] == 'nz' and nonempty(a[1], 'Area', 'Messagebase'))
            if kw in bycon.get(('Area', 'AreaType'), {}) and kw != 'AREA':
                continue
            r = wrun(ctx, p, fn, atoms=ats, kw=kw, S=S, F=F) if kw != 'AREA' else wrun(ctx, p, fn, atoms=ats, kw='AREA', S=S, F=F)
            ctx.oblige(name)
            heads = set(bycon.get(('Area', 'AreaType'), {}))
            for (cur, seen, done), facts, st, i, fr, eng in r.exits:
                if not done and not any(v is False for v in facts.values()):
                    if kw == 'AREA' and 'AREA' not in seen:
                        continue
                    ctx.finding(name, f'{fn} may leave out {S}.{F}, which ReadConfig reads from {kw} lines', locstr(i), [fn])
    # order of the values on a line
    for fn, r in base.items():
        for kw in r.kws:
            a = [(e[3], e[4]) for e, (w, n) in sorted(rd.got.items(), key=lambda x: x[1][1]) if e[0] == kw and e[2] == 'value' and not e[1] and direct(rd, e)]
            b = []
            for c, f in r.seq:
                if c == kw and f not in b:
                    b.append(f)
            a = [x for x in a if x in b]
            b = [x for x in b if x in a]
            if len(a) > 1:
                k = f'keyword {kw}: values are written in the order in which they are read'
                ctx.oblige(k)
                if a != b:
                    ctx.finding(k, f'{fn} writes the values of {kw} lines in another order than ReadConfig reads them', fn)
    for w in ('AREA', 'NODE', 'EXPORT'):
        if w not in writes:
            ctx.finding(f'keyword {w}: written', f'no {w} lines are written', 'WriteArea')
    ctx.floor('keyword ', 30)


def direct(rd, e):
    return e[4] not in ('Aka', 'Packer', 'Messagebase')


def nonempty(t, S, F):
    return ldfld(t, S, F) is not None


def test(ctx, r, name, word, kw, sw, what, _):
    """word is written exactly when the tracked atom holds"""
    ctx.oblige(name)
    fn = r.fn
    for (cur, seen, done), facts, st, i, fr, eng in r.exits:
        vs = [(v if a[0] != 'eq' or r.c is None or a[2] == ('c', r.c) else False if v else None) if a[0] != 'nz' or a[1][0] == 'bin' else not v
              for a, v in facts.items() if r.track(a, st)]
        vs = [v for v in vs if v is not None]
        v = True if True in vs else False if vs else None
        if done and v is not True:
            ctx.finding(name, f'{fn} may write {word} although {what} does not hold', locstr(i), [fn])
        if not done and v is not False and not (sw and kw not in seen):
            ctx.finding(name, f'{fn} may leave out {word} although {what} holds', locstr(i), [fn])


class Prefix(PerNode):
    """the mark of a link is written directly in front of its address exactly when the flag is set"""

    def track(s, atom, st):
        return super().track(atom, st) or s.mine(atom)

    def transient(s, atom):
        return not s.mine(atom)

    def mine(s, atom):
        return (flag(atom, s.S, s.F) or (0, 0))[1] == s.c

    def out(s, st, i, text, args):
        old = st.ts
        st.ts = (old[0], old[1], False)
        super().out(st, i, text, args)
        hit = st.ts[2]
        st.ts = (st.ts[0], st.ts[1] | ({'mark'} if hit else set()), False)

    def ctx_value(s, st, i, cur, f):
        if f == (s.S, 'ConfigNode'):
            v = [x for a, x in st.facts.items() if s.mine(a)]
            has = 'mark' in st.ts[1]
            if has and True not in v:
                s.ctx.finding(s.name, f'{s.fn} may mark a link with {s.wanted} although {s.S}.{s.F} & {s.c} is not set', locstr(i), [s.fn])
            if not has and False not in v:
                s.ctx.finding(s.name, f'{s.fn} may leave out the mark {s.wanted} of a link', locstr(i), [s.fn])

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and s.cursor(atom[1]):
            st.ts = (st.ts[0], st.ts[1] - {'mark'}, False)
            return None
        return Writer.on_branch(s, eng, st, i, atom, truth, fr)


def prefix(ctx, p, fn, kw, word, S, F, c, name):
    r = Prefix(fn, word=word, kw=kw, S=S, F=F)
    r.c, r.name, r.exits = c, name, []
    ctx.oblige(name)
    ctx.run(p, r, fn, (None, frozenset(), False))


RULES = {
    'A13': ('Configuration changes reach the configuration file, completely or not at all', [replace, marked, after, lines, roundtrip]),
}
