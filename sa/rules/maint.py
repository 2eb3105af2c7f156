"""CrashMaint: deletes only what the settings say, packing and renumbering lose nothing."""
from ..engine import Rule, C0, C1, locstr
from ..pat import *
from .fate import zero
from .. import loops

PROG = 'crashmaint'
DAY = 86400


def leaves(p, f, reg):
    """(what the variable starts from: operands that are no phi, select or step, constants it is stepped by: {k: [blocks]})"""
    defs = p.defs(f)
    seen, st, out, steps = set(), [('v', reg)], [], {}
    where = {i.res: b.name for b in f.blocks for i in list(b.phis) + b.insts if i.res}
    while st:
        v = loops.strip(defs, st.pop())
        if v in seen:
            continue
        seen.add(v)
        d = defs.get(v[1]) if v[0] == 'v' else None
        if d is not None and d.op == 'phi':
            st += [x for _, x in d.extra]
        elif d is not None and d.op == 'select':
            st += list(d.ops[1:])
        elif d is not None and d.op == 'bin' and d.extra in ('add', 'sub') and d.ops[1][0] == 'c':
            k = d.ops[1][1] if d.extra == 'add' else -d.ops[1][1]
            steps.setdefault(k, []).append(where[d.res])
            st.append(d.ops[0])
        else:
            out.append(v)
    return out, steps


def member(p, f, addr, S, F):
    """addr is the address of the member F of some S (a local one included)"""
    if ('F', S, F) in p.loc_of(f, addr):
        return True
    d = p.defs(f).get(addr[1]) if addr[0] == 'v' else None
    return d is not None and d.op == 'gep' and len(d.ops) == 3 and d.ty[0] == 'named' and d.ty[1] == 'struct.' + S \
        and d.ops[2][0] == 'c' and p.m.fname(d.ty[1], d.ops[2][1]) == F


def cycle_without(f, block, avoid):
    """block can be reached from itself without passing a block of avoid"""
    if block in avoid:
        return False
    seen, st = set(), list(f.bymap[block].succs)
    while st:
        n = st.pop()
        if n in seen or n in avoid:
            continue
        if n == block:
            return True
        seen.add(n)
        st += f.bymap[n].succs
    return False


def values(p, f, t):
    """the terms' registers that make up a term that is a variable; None for anything else"""
    if t[0] in ('phi', 'opq') and t[1] == f.name:
        return t[2]
    return None


def has_time(t):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] == 'call' and t[1] == 'time':
        return True
    return any(has_time(x) for x in t)


def today(t):
    """t is the number of days until now"""
    return t[0] == 'bin' and t[1] in ('sdiv', 'udiv') and t[3] == ('c', DAY) and has_time(t[2])


class Maint(Rule):
    """what both kinds of areas have in common: ts is a set of tags"""
    correlate = False
    keep_consts = 'ptr'
    stale_ts = True
    max_states = 400

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1] in (('arg', s.fn, 1), ('arg', s.fn, 2))

    def keep(s, F):
        return LD(('arg', s.fn, 0), 'Area', F)

    def count_ok(s, X):
        raise NotImplementedError

    def days_of(s, t):
        """what a day belongs to"""
        raise NotImplementedError

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if fr.caller is not None:
            return None
        T = st.ts
        kn, kd = s.keep('KeepNum'), s.keep('KeepDays')
        if atom[0] == 'nz':
            x = atom[1]
            for k, name in ((1, 'maint'), (2, 'pack')):
                if x == ('arg', s.fn, k) and truth:
                    T = T | {name}
            if x == kn and truth:
                T = T | {'kn'}
            if x == kd and truth:
                T = T | {'kd'}
            if x == GL('ctrlc'):
                if not truth and 'ctrlc' in T:
                    return False
                if truth:
                    T = T | {'ctrlc'}
        if atom[0] == 'lt':
            _, sg, a, b = atom
            if a == kn and truth:
                T = T | {'bynum', 'fresh'}
            if a == kd and truth and b[0] == 'bin' and b[1] == 'sub' and today(b[2]):
                m = s.days_of(b[3])
                if m is not None:
                    T = T | {('old', m)}
                    if sg == 's':
                        T = T | {('past', m)}
            if truth and a[0] == 'bin' and a[1] == 'add' and kd in a[2:] and today(b):
                m = s.days_of(a[2] if a[3] == kd else a[3])
                if m is not None:
                    T = T | {('old', m), ('past', m)}
            if truth and today(b):
                m = s.days_of(a)
                if m is not None:
                    T = T | {('past', m)}
            if not truth and today(a):
                m = s.days_of(b)
                if m is not None:
                    T = T | {('past', m)}
        st.ts = T
        return s.branch(eng, st, inst, atom, truth, fr)

    def branch(s, eng, st, inst, atom, truth, fr):
        return None

    def expired(s, eng, st, i, fr, m, what):
        """a message is about to be deleted"""
        c = s.ctx
        T = st.ts
        k = f'{s.fn}: only maintenance deletes messages'
        c.oblige(k, locstr(i))
        if 'maint' not in T:
            eng.report(k, f'{what} although no maintenance was asked for', st, i, fr)
        num = 'bynum' in T
        k = f'{s.fn}: only messages beyond the number or the age to keep are deleted'
        c.oblige(k, locstr(i))
        if num:
            if 'kn' not in T:
                eng.report(k + ' (number)', f'{what} by number although the area has no number of messages to keep', st, i, fr)
        elif ('old', m) not in T or 'kd' not in T:
            eng.report(k, f'{what} although there are not more messages than are kept and it is not known to be older than the age to keep', st, i, fr)
        elif ('past', m) not in T:
            eng.report(k + ' (future)', f'{what} although it is dated in the future', st, i, fr)
        s.deletes.add((i.loc[1] if i.loc else 0, bool(num), s.block(i)))
        st.ts = T - {'bynum', 'fresh'}

    def block(s, i):
        for b in s.f.blocks:
            if any(x is i for x in b.insts):
                return b.name
        return None

    def counting(s, start):
        """the number that is compared with the number to keep: starts as it should and falls with every deletion"""
        c, p, f = s.ctx, s.p, s.f
        defs = p.defs(f)
        where = {i.res: b.name for b in f.blocks for i in list(b.phis) + b.insts if i.res}
        for i in f.insts():
            if i.op != 'icmp' or i.extra in ('eq', 'ne'):
                continue
            v = [loops.strip(defs, x) for x in i.ops]
            d = [defs.get(x[1]) if x[0] == 'v' else None for x in v]
            kn = [x is not None and x.op == 'load' and member(p, f, x.ops[0], 'Area', 'KeepNum') for x in d]
            if kn[0] == kn[1]:
                continue
            X, d = v[kn[0]], d[kn[0]]
            if X[0] != 'v':
                continue
            if d is not None and d.op == 'load':
                out, steps = [X], {-1: [where[X[1]]]}           # the number is looked up every time
            else:
                out, steps = leaves(p, f, X[1])
            k = f'{s.fn}: the messages that are left are counted'
            c.oblige(k)
            if not all(start(v) for v in out):
                c.finding(k + ' (start)', 'the number of messages that is compared with the number to keep does not start from the number of messages in the area', s.fn)
            if any(n not in (1, -1) for n in steps):
                c.finding(k + ' (step)', 'the number of messages is changed by more than one at a time', s.fn)
            for line, bynum, b in s.deletes:
                if bynum and b is not None and cycle_without(s.f, b, set(steps.get(-1, ()))):
                    c.finding(k + ' (deletions)', f'messages are deleted (line {line}) without the number of messages that are left going down, so more than the excess is deleted', s.fn)


class Msgs(Maint):
    """tags: ('name', buffer, message, member), ('path', buffer, message, member), ('gone'|'zeroed', message), 'renfail'"""

    def days_of(s, t):
        return ldfld(t, 'Msg', 'Day')

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        T = st.ts

        def drop(buf):
            return frozenset(x for x in T if not (isinstance(x, tuple) and x[0] in ('name', 'path') and x[1] == buf))
        PATH = ('fld', ('arg', s.fn, 0), 'Area', 'Path')
        if t in ('sprintf', 'snprintf', 'mysprintf'):
            a = args[1:] if t != 'snprintf' else args[2:]
            T = drop(args[0])
            if a[0][0] == 's' and a[0][1].rstrip('\0') in ('%u.msg', '%lu.msg', '%d.msg', '%ld.msg') and len(a) == 2 and a[1][0] == 'ld' and fld(a[1][1], 'Msg', None) is not None:
                T = T | {('name', args[0], a[1][1][1], a[1][1][3])}
            if a[0][0] == 's' and a[0][1].startswith('%s') and a[0][1].rstrip('\0').endswith('%u.msg') and len(a) == 3 and a[1] == PATH and a[2][0] == 'ld' and fld(a[2][1], 'Msg', None) is not None:
                T = T | {('path', args[0], a[2][1][1], a[2][1][3])}
            st.ts = T
        elif t == 'MakeFullPath':
            T = drop(args[2])
            if args[0] == PATH:
                for x in st.ts:
                    if isinstance(x, tuple) and x[0] == 'name' and x[1] == args[1]:
                        T = T | {('path', args[2], x[2], x[3])}
            st.ts = T
        elif t in ('osDelete', 'remove', 'unlink'):
            k = f'{s.fn}: the file of the expired message is the one that is deleted'
            c.oblige(k, locstr(i))
            m = [x for x in T if isinstance(x, tuple) and x[0] == 'path' and x[1] == args[0] and x[3] == 'Num']
            if not m:
                eng.report(k, 'a file is deleted whose name is not made of the directory of the area and the number of a message', st, i, fr)
                return None
            m = m[0][2]
            s.expired(eng, st, i, fr, m, 'a message is deleted')
            s.walks.add(m)
            st.ts = st.ts - {('zeroed', m)} if ('zeroed', m) in st.ts else st.ts | {('gone', m)}
        elif t in ('osRename', 'rename'):
            k = f'{s.fn}: a message is renamed from its old to its new number'
            c.oblige(k, locstr(i))
            a = {(x[2], x[3]) for x in T if isinstance(x, tuple) and x[0] == 'path' and x[1] == args[0]}
            b = {(x[2], x[3]) for x in T if isinstance(x, tuple) and x[0] == 'path' and x[1] == args[1]}
            if not any((m, 'NewNum') in b for m, n in a if n == 'Num'):
                eng.report(k, 'a message is renamed, but not from its own number to its own new number', st, i, fr)
            for m, n in a:
                s.walks.add(m)
            k = f'{s.fn}: only packing renumbers'
            c.oblige(k, locstr(i))
            if 'pack' not in T:
                eng.report(k, 'messages are renumbered although no packing was asked for', st, i, fr)
            k = f'{s.fn}: renumbering stops at the first failure'
            c.oblige(k, locstr(i))
            if 'renfail' in T:
                eng.report(k, 'messages are renumbered further after one could not be renamed, which overwrites that message', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            no.ts = no.ts | {'renfail'}
            return [(ok, v), (no, C0)]
        return None

    def on_store(s, eng, st, i, addr, v, fr):
        m = fld(addr, 'Msg', 'Num')
        if m is not None:
            if v == C0:
                st.ts = st.ts - {('gone', m)} if ('gone', m) in st.ts else st.ts | {('zeroed', m)}
            else:
                k = f'{s.fn}: the number of a message is its file'
                s.ctx.oblige(k, locstr(i))
                eng.report(k, 'the number of a message changes without its file', st, i, fr)
        m = fld(addr, 'Msg', 'NewNum')
        if m is not None:
            s.newnums.add((v, s.block(i)))
            s.walks.add(m)

    def settle(s, eng, st, fr):
        if not st.ts:
            return
        k = f'{s.fn}: a message counts as deleted exactly when it was deleted'
        s.ctx.oblige(k)
        for x in st.ts:
            if isinstance(x, tuple) and x[0] == 'gone':
                eng.report(k, 'a deleted message still takes part in the renumbering', st, None, fr)
            if isinstance(x, tuple) and x[0] == 'zeroed':
                eng.report(k + ' (kept)', 'a message that was not deleted counts as deleted, so another message may be renamed to its number', st, None, fr)

    def on_back(s, eng, st, fr):
        if fr.caller is None:
            s.settle(eng, st, fr)
            st.ts = frozenset(x for x in st.ts if not isinstance(x, tuple))

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None:
            s.settle(eng, st, fr)


def first_by_next(p, f, reg):
    """the variable starts at the first message of the list and goes on to the next ones"""
    defs = p.defs(f)
    out, steps = leaves(p, f, reg)
    if steps:
        return False
    for v in out:
        d = defs.get(v[1]) if v[0] == 'v' else None
        if v == ('c', 0):
            continue
        if d is None or d.op != 'load':
            return False
        locs = p.loc_of(f, d.ops[0])
        if not all(l[:1] == ('F',) and (l[1], l[2]) in (('jbList', 'First'), ('Msg', 'Next'), ('jbNode', 'Next')) for l in locs):
            return False
    return True


def msg_areas(ctx):
    """*.msg areas: what is deleted and renamed, under which conditions, and that renumbering cannot overwrite a message"""
    p = ctx.prog(PROG)
    ctx.need(p, 'ProcessAreaMSG', 'scanfunc', 'Compare', 'Sort')
    f = p.m.funcs['ProcessAreaMSG']
    r = Msgs()
    r.p, r.f, r.fn = p, f, 'ProcessAreaMSG'
    r.deletes, r.walks, r.newnums = set(), set(), set()
    ctx.run(p, r, 'ProcessAreaMSG', frozenset())
    r.counting(lambda v: v == ('c', 0))
    k = 'ProcessAreaMSG: the oldest messages are deleted and renumbered first'
    for m in sorted(r.walks, key=str):
        reg = values(p, f, m)
        if reg is not None:
            ctx.oblige(k)
            if not first_by_next(p, f, reg):
                ctx.finding(k, 'the messages are not taken one after the other from the first one of the sorted list', f.name)
    # new numbers: 2, 3, 4 ...
    k = 'ProcessAreaMSG: new numbers are consecutive from 2, so that none is higher than the old one'
    for v, b in sorted(r.newnums, key=str):
        ctx.oblige(k)
        reg = values(p, f, v)
        if v[0] == 'c':
            if v[1] != 2:
                ctx.finding(k + ' (first)', f'renumbering starts with {v[1]}', f.name)
        elif reg is None:
            ctx.finding(k, 'the new number of a message is not counted', f.name)
        else:
            out, steps = leaves(p, f, reg)
            if any(x != ('c', 2) for x in out) or set(steps) != {1}:
                ctx.finding(k, 'the new numbers do not count up by one from 2', f.name)
            elif b is not None and cycle_without(f, b, set(steps[1])):
                ctx.finding(k + ' (twice)', 'two messages get the same new number', f.name)
    ctx.floor('ProcessAreaMSG: the file of', 1)
    ctx.floor('ProcessAreaMSG: a message is renamed', 1)
    highwater(ctx, p, f)
    scanned(ctx, p)


def highwater(ctx, p, f):
    """the mark that is written: none, the old one, or the new number of a message up to the old mark"""
    defs = p.defs(f)
    k = 'ProcessAreaMSG: the highwater mark stays between the same messages'
    for i in f.insts():
        if i.op != 'store' or not member(p, f, i.ops[1], 'StoredMsg', 'ReplyTo'):
            continue
        ctx.oblige(k, locstr(i))
        v = loops.strip(defs, i.ops[0])
        if v[0] != 'v':
            ctx.finding(k, 'the highwater mark is always the same', locstr(i))
            continue
        out, steps = leaves(p, f, v[1])
        kinds = set()
        for x in out:
            d = defs.get(x[1]) if x[0] == 'v' else None
            if x == ('c', 0):
                kinds.add('none')
            elif d is not None and d.op == 'load' and member(p, f, d.ops[0], 'StoredMsg', 'ReplyTo'):
                kinds.add('old')
            elif d is not None and d.op == 'load' and member(p, f, d.ops[0], 'Msg', 'NewNum'):
                kinds.add('new')
            else:
                kinds.add('other')
        if 'other' in kinds or steps:
            ctx.finding(k, 'the highwater mark becomes something that is not the new number of a message', locstr(i))
        elif 'new' not in kinds:
            ctx.finding(k + ' (renumbering)', 'renumbering leaves the highwater mark as it is, so messages below it are taken for scanned', locstr(i))
        # the phi edges on which a new number becomes the mark
        web, st = set(), [v[1]]
        while st:
            x = st.pop()
            d = defs.get(x)
            if x in web or d is None:
                continue
            web.add(x)
            if d.op == 'phi':
                st += [y[1] for _, y in d.extra if y[0] == 'v']
            elif d.op in ('select', 'cast'):
                st += [y[1] for y in d.ops if y[0] == 'v']
        num = lambda d: d is not None and d.op == 'load' and member(p, f, d.ops[0], 'Msg', 'Num')
        new = lambda d: d is not None and d.op == 'load' and member(p, f, d.ops[0], 'Msg', 'NewNum')

        def below(b, t, exact=False):
            """successors on which the number of the message is not above the mark"""
            if t.op != 'br' or not t.ops:
                return ()
            res = []
            for d in loops.compares(defs, t.ops[0], None, f):
                x, y = loops.strip(defs, d.ops[0]), loops.strip(defs, d.ops[1])
                dx, dy = defs.get(x[1]) if x[0] == 'v' else None, defs.get(y[1]) if y[0] == 'v' else None
                pr = d.extra
                if num(dy) and not num(dx):
                    x, y, dx, dy, pr = y, x, dy, dx, loops.SWAP.get(pr, pr)
                if not num(dx) or y[0] != 'v' or y[1] not in web:
                    continue
                if pr in ('ule', 'sle') or exact and pr == 'eq':
                    res.append(b.succs[0])
                elif pr in ('ugt', 'sgt') or exact and pr == 'ne':
                    res.append(b.succs[1])
            return res
        k2 = 'ProcessAreaMSG: the mark moves to the last message up to the old mark'
        n = 0
        for x in web:
            d = defs[x]
            if d.op == 'phi':
                for bl, y in d.extra:
                    y = loops.strip(defs, y)
                    if y[0] == 'v' and new(defs.get(y[1])):
                        n += 1
                        ctx.oblige(k2, locstr(i))
                        if loops.guarded(f, bl, below):
                            pass
                        elif not loops.guarded(f, bl, lambda b, t: below(b, t, True)):
                            ctx.finding(k2, 'the highwater mark becomes the number of a message that was above it, so messages are taken for scanned that were not', locstr(i))
                        else:
                            ctx.finding(k2 + ' (exact)', 'the highwater mark follows only a message of exactly that number and otherwise stays above the renumbered messages', locstr(i))
    ctx.floor('ProcessAreaMSG: the highwater mark', 1)


class Scan(Rule):
    """scanfunc: ts has 'big' once the number is known to be at least 2"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'lt' and call(atom[2], 'atol') is not None and atom[3] == ('c', 2) and not truth:
            st.ts = st.ts | {'big'}
        if atom[0] == 'lt' and call(atom[3], 'atol') is not None and atom[2] == ('c', 1) and truth:
            st.ts = st.ts | {'big'}

    def on_store(s, eng, st, i, addr, v, fr):
        c = s.ctx
        if fld(addr, 'Msg', 'Num') is not None:
            k = 'scanfunc: messages are numbered by their file names, from 2'
            c.oblige(k, locstr(i))
            a = call(v, 'atol')
            if a is None or a[0] != ('arg', 'scanfunc', 0):
                eng.report(k, 'the number of a message is not that of its file', st, i, fr)
            elif 'big' not in st.ts:
                eng.report(k + ' (mark)', 'the file of the highwater mark is taken for a message', st, i, fr)
        if fld(addr, 'Msg', 'Day') is not None:
            k = 'scanfunc: the age of a message is that of its file'
            c.oblige(k, locstr(i))
            if not (v[0] == 'bin' and v[1] in ('sdiv', 'udiv') and v[3] == ('c', DAY) and ldfld(v[2], 'osFileEntry', 'Date') is not None):
                eng.report(k, 'the day of a message is not that of its file', st, i, fr)


class Cmp(Rule):
    """Compare: ts is what is known about the order of the two numbers"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        def who(t):
            b = ldfld(t, 'Msg', 'Num')
            return b[1][2] if b is not None and b[0] == 'ld' and b[1][0] == 'arg' else None
        if atom[0] == 'lt':
            a, b = who(atom[2]), who(atom[3])
            rel = {(0, 1): {'<'}, (1, 0): {'>'}}.get((a, b))
            if rel:
                st.ts = st.ts & (rel if truth else {'<', '=', '>'} - rel)
        if atom[0] == 'eq' and {who(atom[1]), who(atom[2])} == {0, 1}:
            st.ts = st.ts & ({'='} if truth else {'<', '>'})
        if not st.ts:
            return False

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = 'Compare: messages are sorted by number'
        s.ctx.oblige(k, locstr(i))
        if val[0] != 'c':
            if val[0] in ('cmp', 'bin', 'phi', 'opq', 'ite', 'sel', 'zext'):
                return
            return
        n = val[1]
        if n and st.ts & {'>' if n < 0 else '<'}:
            eng.report(k, 'messages are not sorted from the lowest to the highest number', st, i, fr)
        if not n and st.ts & {'<', '>'}:
            eng.report(k, 'different numbers count as equal, so the order of the messages is left to chance', st, i, fr)


def scanned(ctx, p):
    ctx.run(p, Scan(), 'scanfunc', frozenset())
    r = Cmp()
    ctx.run(p, r, 'Compare', frozenset({'<', '=', '>'}))
    ctx.floor('scanfunc: messages', 1)
    ctx.floor('Compare: ', 1)


# ------------------------------------------------------------------ JAM
DATES = ('DateReceived', 'DateProcessed', 'DateWritten')
FILES = ('.jhr', '.jdt', '.jdx')


class Jam(Maint):
    """tags: ('hdr', num, header): that header was read last; 'undeleted'; 'marked'; 'counted' ...; see on_call.
    while packing: 'copying', ('live', num), 'full', ('sub', place), ('text', buffer), 'notext', 'added', 'hdrout', 'all',
    'lost', ('file', buffer, old or new, extension), ('moved', extension), 'replacing'"""
    max_states = 1200
    keep_consts = True

    def days_of(s, t):
        def date(x):
            return x[0] == 'bin' and x[1] in ('udiv', 'sdiv') and x[3] == ('c', DAY) and any(ldfld(x[2], 's_JamMsgHeader', d) is not None for d in DATES)
        if date(t):
            return 'day'
        reg = values(s.p, s.f, t)
        if reg is None:
            return None
        out, steps = leaves(s.p, s.f, reg)
        defs = s.p.defs(s.f)
        if steps:
            return None
        for v in out:
            d = defs.get(v[1]) if v[0] == 'v' else None
            if d is None or d.op != 'bin' or d.extra not in ('udiv', 'sdiv') or d.ops[1] != ('c', DAY):
                return None
            w = loops.strip(defs, d.ops[0])
            e = defs.get(w[1]) if w[0] == 'v' else None
            if e is None or e.op != 'load' or not any(member(s.p, s.f, e.ops[0], 's_JamMsgHeader', x) for x in DATES):
                return None
        return 'day'

    def branch(s, eng, st, inst, atom, truth, fr):
        T = st.ts
        fl = flag(atom, 's_JamMsgHeader', 'Attribute')
        if fl and fl[1] == s.DEL:
            if truth:
                T = frozenset(x for x in T if x != 'undeleted' and not (isinstance(x, tuple) and x[0] == 'live')) | {'dead'}
            else:
                T = T | {'undeleted'}
        if atom[0] == 'eq' and atom[2] == ('c', s.NOMSG) and ('readfail', atom[1]) in T:
            if truth:
                T = T - {('readfail', atom[1])} | {'dead'}
        if atom[0] == 'nz' and ldfld(atom[1], 's_JamMsgHeader', 'TxtLen') is not None and not truth:
            T = T | {'notext'}
        if atom[0] == 'lt' and atom[3] == ('ld', s.total) and atom[2][0] != 'bin' and not truth or atom == ('nz', ('ld', s.total)) and not truth:
            T = T | {'all'}
        st.ts = T

    def done(s, eng, st, i, fr):
        """the message that was read before must have been dealt with"""
        T = st.ts
        if 'copying' in T:
            if any(isinstance(x, tuple) and x[0] in ('live', 'readfail') for x in T):
                T = T | {'lost'}
            if 'added' in T and 'plus' not in T:
                k = f'{s.fn}: the packed messagebase knows how many messages it has'
                s.ctx.oblige(k)
                eng.report(k, 'a message is packed without being counted', st, i, fr)
        elif 'marked' in T:
            k = f'{s.fn}: the number of messages goes down with every deletion'
            s.ctx.oblige(k)
            if 'minus' not in T:
                eng.report(k, 'a message is deleted but the number of messages in the messagebase stays, so that later runs delete too many', st, i, fr)
            elif 'mbout' not in T:
                eng.report(k + ' (written)', 'the lower number of messages is not written to the messagebase, so that later runs delete too many', st, i, fr)
        st.ts = frozenset(x for x in T if not (x in ('marked', 'minus', 'mbout', 'added', 'plus', 'undeleted', 'notext', 'full', 'dead', ('past', 'day'), ('old', 'day'))
                          or isinstance(x, tuple) and x[0] in ('live', 'readfail', 'text', 'sub', 'hdr')))

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        T = st.ts
        PATH = ('fld', ('arg', s.fn, 0), 'Area', 'Path')
        if t == 'JAM_OpenMB' and args[0] == PATH:
            s.base = ('ld', args[1])
        elif t == 'JAM_GetMBSize':
            s.total = args[1]
        elif t == 'JAM_CreateMB':
            s.done(eng, st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(no, i, t, args, fr)
            no.facts[('nz', v)] = True
            s.new = ('ld', args[2])
            ok.ts = frozenset(x for x in ok.ts if x in ('pack', 'ctrlc') or isinstance(x, tuple) and x[0] == 'file') | {'copying'}
            k = f'{s.fn}: packing starts with an empty messagebase of its own'
            c.oblige(k, locstr(i))
            if ('file', args[0], 'new', '') not in ok.ts:
                eng.report(k, 'the new messagebase is not created beside the old one', st, i, fr)
            if 'pack' not in ok.ts:
                eng.report(k + ' (pack)', 'the messagebase is packed although no packing was asked for', st, i, fr)
            return [(ok, C0), (no, v)]
        elif t == 'JAM_ReadMsgHeader':
            if any(isinstance(x, tuple) and x[0] == 'live' and x[1] == args[1] for x in T):
                pass                    # the same message once more
            else:
                s.done(eng, st, i, fr)
                st.ts = st.ts - {'fresh' if 'fresh' in st.ts else 'bynum'}
            no, ok = eng.fork(st, t, args)
            v = eng.result(no, i, t, args, fr)
            no.facts[('nz', v)] = True
            no.ts = frozenset(x for x in no.ts if not (isinstance(x, tuple) and x[0] in ('live', 'hdr'))) | {('readfail', v)} - {'all'}
            T = frozenset(x for x in ok.ts if not (isinstance(x, tuple) and x[0] in ('hdr', 'sub', 'text') or x in ('notext', 'all', 'undeleted')))
            T = T | {('hdr', args[1], args[2])}
            if 'copying' in T:
                T = T | {('live', args[1])}
            if args[3] != C0:
                T = T | {('sub', args[3])}
            if args[0] != s.base:
                k = f'{s.fn}: messages are read from the messagebase of the area'
                c.oblige(k)
                eng.report(k, 'a message header is read from another messagebase', st, i, fr)
            ok.ts = T
            return [(ok, C0), (no, v)]
        elif t in ('JAM_ChangeMsgHeader', 'JAM_DeleteMessage'):
            k = f'{s.fn}: the header of the expired message is the one that is marked as deleted'
            c.oblige(k, locstr(i))
            if args[0] != s.base or not any(isinstance(x, tuple) and x[0] == 'hdr' and x[1] == args[1] and (len(args) < 3 or x[2] == args[2]) for x in T):
                eng.report(k, 'the header that is changed is not the one that was read', st, i, fr)
            if 'undeleted' not in T:
                eng.report(k + ' (again)', 'a message that may be deleted already is deleted again, so the messages are counted wrongly', st, i, fr)
            if 'attr' not in T and t == 'JAM_ChangeMsgHeader':
                eng.report(k + ' (mark)', 'the header is written without the mark of deleted messages being added', st, i, fr)
            s.nums.add((args[1], s.block(i)))
            s.expired(eng, st, i, fr, 'day', 'a message is marked as deleted')
            st.ts = st.ts - {'attr'} | {'marked'}
        elif t == 'JAM_WriteMBHeader':
            if args[0] == s.base:
                st.ts = T | {'mbout'}
            else:
                no, ok = eng.fork(st, t, args)
                v = eng.result(no, i, t, args, fr)
                no.facts[('nz', v)] = True
                no.ts = no.ts - {'hdrout'} | {'lost'}
                ok.ts = ok.ts | {'hdrout'}
                return [(ok, C0), (no, v)]
        elif t == 'JAM_ReadMsgText':
            no, ok = eng.fork(st, t, args)
            v = eng.result(no, i, t, args, fr)
            no.facts[('nz', v)] = True
            h = [x for x in T if isinstance(x, tuple) and x[0] == 'hdr']
            if h and args[0] == s.base and args[1] == LD(h[0][2], 's_JamMsgHeader', 'TxtOffset') and args[2] == LD(h[0][2], 's_JamMsgHeader', 'TxtLen'):
                ok.ts = ok.ts | {('text', args[3])}
            return [(ok, C0), (no, v)]
        elif t == 'JAM_AddMessage':
            k = f'{s.fn}: packing copies header, subfields and text of every message'
            c.oblige(k, locstr(i))
            h = [x for x in T if isinstance(x, tuple) and x[0] == 'hdr']
            if args[0] != s.new:
                eng.report(k + ' (base)', 'a message is packed into another messagebase', st, i, fr)
            if not any(isinstance(x, tuple) and x[0] == 'live' for x in T) or not h or args[1] != h[0][2]:
                eng.report(k, 'what is packed is not the message that was read', st, i, fr)
            elif not any(isinstance(x, tuple) and x[0] == 'sub' and args[2] == ('ld', x[1]) for x in T):
                eng.report(k + ' (subfields)', 'a message is packed without the subfields that were read with it', st, i, fr)
            elif ('text', args[3]) not in T and not (args[3] == C0 and 'notext' in T):
                eng.report(k + ' (text)', 'a message is packed without the text that belongs to it', st, i, fr)
            elif args[4] != LD(h[0][2], 's_JamMsgHeader', 'TxtLen'):
                eng.report(k + ' (length)', 'a message is packed with another length of its text', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(no, i, t, args, fr)
            no.facts[('nz', v)] = True
            no.ts = no.ts | {'lost'}
            ok.ts = frozenset(x for x in ok.ts if not (isinstance(x, tuple) and x[0] == 'live')) - {'hdrout'} | {'added'}
            return [(ok, C0), (no, v)]
        elif t == 'JAM_AddEmptyMessage':
            k = f'{s.fn}: only deleted messages become place-holders'
            c.oblige(k, locstr(i))
            if 'dead' not in T:
                eng.report(k, 'a message that is not deleted is packed as a place-holder', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(no, i, t, args, fr)
            no.facts[('nz', v)] = True
            no.ts = no.ts | {'lost'}
            ok.ts = ok.ts - {'hdrout'}
            return [(ok, C0), (no, v)]
        elif t in ('strcpy', 'sprintf', 'strcat', 'snprintf'):
            a = args[1:] if t != 'snprintf' else args[2:]
            old = [x for x in T if isinstance(x, tuple) and x[0] == 'file' and x[1] == args[0]]
            T = frozenset(x for x in T if x not in old)
            txt = None
            if t == 'strcpy' and a[0] == PATH:
                txt = ''
            elif t == 'strcat' and old and a[0][0] == 's':
                txt = (('.cmtemp' if old[0][2] == 'new' else '') + old[0][3]) + a[0][1].rstrip('\0')
            elif t == 'sprintf' or t == 'snprintf':
                if a[0][0] == 's' and len(a) > 1 and a[1] == PATH and a[0][1].startswith('%s') and all(x[0] == 's' for x in a[2:]):
                    try:
                        txt = a[0][1].rstrip('\0')[2:] % tuple(x[1].rstrip('\0') for x in a[2:])
                    except (TypeError, ValueError):
                        txt = None
            if txt is not None:
                new = txt.startswith('.cmtemp')
                T = T | {('file', args[0], 'new' if new else 'old', txt[7:] if new else txt)}
            st.ts = T
        elif t in ('osDelete', 'osRename', 'remove', 'rename'):
            s.done(eng, st, i, fr)
            T = st.ts
            names = {x[1]: (x[2], x[3]) for x in T if isinstance(x, tuple) and x[0] == 'file'}
            a = names.get(args[0])
            b = names.get(args[1]) if len(args) > 1 else None
            k = f'{s.fn}: the old files give way only to a complete copy'
            touches = a is None or a[0] == 'old' or len(args) > 1
            if touches:
                c.oblige(k, locstr(i))
                if a is None:
                    eng.report(k + ' (name)', 'a file is deleted or renamed that is not one of this area', st, i, fr)
                elif 'copying' not in T or 'lost' in T:
                    eng.report(k, 'the messagebase is replaced although not all messages could be copied', st, i, fr)
                elif 'all' not in T:
                    eng.report(k + ' (all)', 'the messagebase is replaced before all messages were copied', st, i, fr)
                elif 'hdrout' not in T:
                    eng.report(k + ' (header)', 'the messagebase is replaced before the header of the new one was written', st, i, fr)
            if len(args) == 1:
                if a and a[0] == 'old' and a[1] not in FILES:
                    k = f'{s.fn}: the lastread file stays'
                    c.oblige(k, locstr(i))
                    eng.report(k, f'the {a[1]} file of the area is deleted', st, i, fr)
                if a and a[0] == 'new' and a[1] in FILES and ('moved', a[1]) not in T and 'pack' in T:
                    k = f'{s.fn}: the new files are kept until they have replaced the old ones'
                    c.oblige(k, locstr(i))
                    if any(isinstance(x, tuple) and x[0] == 'touched' and x[1] == a[1] for x in T):
                        eng.report(k, 'the copy is deleted after the old file was', st, i, fr)
                if a and a[0] == 'old':
                    st.ts = st.ts | {('touched', a[1]), 'replacing'}
                no, ok = eng.fork(st, t, args)
                return [(ok, C1), (no, C0)]
            k = f'{s.fn}: every new file replaces the old one of its kind'
            c.oblige(k, locstr(i))
            if a is None or b is None or a[0] != 'new' or b[0] != 'old' or a[1] != b[1]:
                eng.report(k, f'{"".join(a) if a else "a file"} is renamed to {"".join(b) if b else "another file"}', st, i, fr)
                return None
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {('moved', b[1]), 'replacing'}
            no.ts = no.ts | {'replacing'}
            return [(ok, C1), (no, C0)]
        return None

    def on_store(s, eng, st, i, addr, v, fr):
        T = st.ts
        b = fld(addr, 's_JamBaseHeader', 'ActiveMsgs')
        if b is not None:
            cur = ('ld', addr)
            k = f'{s.fn}: the number of messages changes by one'
            s.ctx.oblige(k, locstr(i))
            if v == ('bin', 'add', cur, ('c', -1)) or v == ('bin', 'sub', cur, C1):
                if 'minus' in T or 'copying' in T:
                    eng.report(k, 'the number of messages goes down although no message was deleted', st, i, fr)
                st.ts = T | {'minus'}
            elif v == ('bin', 'add', cur, C1):
                if 'plus' in T or 'copying' not in T:
                    eng.report(k, 'the number of messages goes up although no message was packed', st, i, fr)
                st.ts = T | {'plus'}
            elif v == C0:
                if 'copying' not in T:
                    eng.report(k + ' (reset)', 'the number of messages is reset', st, i, fr)
        if fld(addr, 's_JamMsgHeader', 'Attribute') is not None and v[0] == 'bin' and v[1] == 'or' and ('c', s.DEL) in v[2:]:
            st.ts = T | {'attr'}

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        if 'copying' not in st.ts:
            s.done(eng, st, i, fr)
        if 'replacing' in st.ts and not zero(st, val):
            k = f'{s.fn}: success only when all files were replaced'
            s.ctx.oblige(k, locstr(i))
            for x in FILES:
                if ('moved', x) not in st.ts:
                    eng.report(k, f'packing counts as done although the {x} file was not replaced', st, i, fr)


def jam_areas(ctx):
    """JAM areas: which headers are marked as deleted, and that the old files give way only to a complete copy"""
    p = ctx.prog(PROG)
    ctx.need(p, 'ProcessAreaJAM')
    f = p.m.funcs['ProcessAreaJAM']
    r = Jam()
    r.p, r.f, r.fn = p, f, 'ProcessAreaJAM'
    r.DEL, r.NOMSG = ctx.const('MSG_DELETED'), ctx.const('JAM_NO_MESSAGE')
    r.deletes, r.nums = set(), set()
    r.base = r.new = r.total = None
    ctx.run(p, r, 'ProcessAreaJAM', frozenset())
    defs = p.defs(f)

    def start(v):
        d = defs.get(v[1]) if v[0] == 'v' else None
        return d is not None and d.op == 'load' and member(p, f, d.ops[0], 's_JamBaseHeader', 'ActiveMsgs')
    r.counting(start)
    k = 'ProcessAreaJAM: the oldest messages are deleted first'
    for v, b in sorted(r.nums, key=str):
        reg = values(p, f, v)
        if reg is not None:
            ctx.oblige(k)
            out, steps = leaves(p, f, reg)
            if any(x != ('c', 0) for x in out) or set(steps) - {1}:
                ctx.finding(k, 'the messages are not taken one after the other from the first one', f.name)
    ctx.floor('ProcessAreaJAM: the header', 1)
    ctx.floor('ProcessAreaJAM: packing copies', 1)
    ctx.floor('ProcessAreaJAM: every new file', 1)


# ------------------------------------------------------------------ which areas, which settings
class Settings(Rule):
    """ReadConfig: ts = (kind of line, an area was made for this line, the area that settings go to is current)"""
    correlate = False
    keep_consts = 'ptr'
    WORDS = ('KEEPDAYS', 'KEEPNUM', 'AREA', 'NETMAIL', 'LOCALAREA')

    def track(s, atom, st):
        return False

    def word(s, atom):
        if atom[0] != 'nz':
            return None
        a = call(atom[1], ('strcasecmp', 'stricmp'))
        if a is None:
            return None
        for x in a:
            if x[0] == 's' and x[1].rstrip('\0').upper() in s.WORDS:
                return x[1].rstrip('\0').upper()
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        w = s.word(atom)
        if w and not truth:
            kind, cur = st.ts
            if kind is not None and kind != w:
                return False
            if w in s.WORDS[2:]:
                cur = False
            st.ts = (w, cur)
        elif w and truth and st.ts[0] == w:
            return False

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osFGets':
            st.ts = (None, st.ts[1])
        if t == 'jbAddNode' and args[0] == ('g', 'AreaList'):
            st.ts = (st.ts[0], True)
        return None

    def on_store(s, eng, st, i, addr, v, fr):
        for F, w in (('KeepNum', 'KEEPNUM'), ('KeepDays', 'KEEPDAYS')):
            if fld(addr, 'Area', F) is not None:
                k = f'ReadConfig: {w} is a setting of the area before it'
                s.ctx.oblige(k, locstr(i))
                kind, cur = st.ts
                if kind != w:
                    eng.report(k, f'{F} is set by something else than {w}', st, i, fr)
                elif not cur:
                    eng.report(k + ' (other area)', f'{w} of an area that is not maintained becomes a setting of the area before', st, i, fr)
                elif call(v, ('atol', 'atoi', 'strtoul', 'strtol')) is None:
                    eng.report(k + ' (value)', f'{F} is not the number that was given', st, i, fr)


class Main(Rule):
    """main: which areas are processed"""
    correlate = False
    keep_consts = True
    stale_ts = True
    max_states = 400

    def track(s, atom, st):
        return False

    def arg(s, t):
        """index of the command line argument whose value t is"""
        if t[0] == 'ld' and fld(t[1], 'argument', 'data') is not None:
            b = fld(t[1], 'argument', 'data')
            if b == ('g', 'args'):
                return 0
            if b[0] == 'idx' and b[1] == ('g', 'args') and b[2][0] == 'c':
                return b[2][1]
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] != 'nz':
            return
        k = s.arg(atom[1])
        if k in (0, 1, 4):
            if ('opt', k, not truth) in st.ts:
                return False
            st.ts = st.ts | {('opt', k, truth)}
        a = call(atom[1], 'osMatchPattern')
        if a is not None and s.arg(a[0]) == 4:
            b = fld(a[1], 'Area', 'Tagname')
            if b is not None and truth:
                st.ts = st.ts | {('match', b)}

    def on_call(s, eng, st, i, t, args, fr):
        if t not in ('ProcessAreaMSG', 'ProcessAreaJAM'):
            return None
        c = s.ctx
        k = f'main: {t} gets what was asked for'
        c.oblige(k, locstr(i))
        for n, w in ((0, 'MAINT'), (1, 'PACK')):
            v = args[1 + n]
            given = ('opt', n, True) in st.ts
            if v[0] == 'c' and v[1] and not given:
                eng.report(k + f' ({w})', f'{w} is done although it was not asked for', st, i, fr)
        k = f'main: only areas that match the pattern are processed'
        c.oblige(k, locstr(i))
        if ('opt', 4, False) not in st.ts and ('match', args[0]) not in st.ts:
            eng.report(k, 'an area is processed although its name does not match the pattern', st, i, fr)
        return None


def areas(ctx):
    """KEEPNUM and KEEPDAYS belong to the area before them, and only the areas and the work asked for are done"""
    p = ctx.prog(PROG)
    ctx.need(p, 'ReadConfig', 'main')
    ctx.run(p, Settings(), 'ReadConfig', (None, False))
    ctx.floor('ReadConfig: KEEP', 2)
    ctx.run(p, Main(), 'main', frozenset())
    ctx.floor('main: ', 2)


RULES = {'A22': ('message areas keep what maintenance should keep', [msg_areas, jam_areas, areas])}
