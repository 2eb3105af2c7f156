"""Messages are kept apart: none takes anything from the one before it, and none takes the place of another."""
from ..engine import Rule, C0, C1, locstr, addr_root
from ..pat import *


def least(p, t):
    """the size of a type without the gaps in it"""
    if t == 'ptr':
        return 8
    if isinstance(t, str):
        return int(t[1:]) // 8
    if t[0] == 'arr':
        return t[1] * least(p, t[2]) if t[1] else 0
    return sum(least(p, x) for x in p.m.types[t[1]])


class Clear(Rule):
    """mmClear, mmAlloc, jbFreeList, jbNewList: ts = parts that are empty now, local objects that are zero"""
    correlate = False

    def own(s, a, S):
        """the part of the object (argument or new one) an address is in"""
        while isinstance(a, tuple) and a[0] in ('fld', 'idx'):
            if a[0] == 'fld' and a[2] == S and s.obj(a[1]):
                return a[3]
            a = a[1]
        return None

    def obj(s, x):
        return x == ('arg', s.fn, 0) or call(x, ('osAllocCleared', 'calloc')) is not None

    def on_store(s, eng, st, i, addr, val, fr):
        r = addr_root(addr)
        if r[0] == 'al':
            st.ts = st.ts | {r} if val == C0 else st.ts - {r}
            return
        F = s.own(addr, s.S)
        if F is not None:
            st.ts = st.ts | {F} if val == C0 or (val[0] == 'ld' and addr_root(val[1]) in st.ts) else st.ts - {F}

    def on_call(s, eng, st, i, t, args, fr):
        if t.startswith('llvm.memset') or t == 'memset':
            zero = args[1] == C0
            if args[0][0] == 'al':
                st.ts = st.ts | {args[0]} if zero else st.ts - {args[0]}
            elif s.obj(args[0]) and zero and args[2][0] == 'c' and args[2][1] >= s.size:
                st.ts = st.ts | set(s.all)
            elif s.own(args[0], s.S) and zero:
                st.ts = st.ts | {s.own(args[0], s.S)}
        elif t in ('osAllocCleared', 'calloc') and s.fn == 'mmAlloc':
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | (set(s.all) if t == 'calloc' or args[0][0] != 'c' or args[0][1] >= s.size else set())
            return [(ok, eng.result(ok, i, t, args, fr)), (no, C0)]
        elif t.startswith('llvm.memcpy') or t in ('memcpy', 'Copy4D', 'strcpy'):
            F = s.own(args[0], s.S)
            src = args[1]
            zero = src in st.ts or (src[0] == 's' and src[1] == '') or (src[0] == 'g' and src[1] in s.p.m.globals and s.p.m.globals[src[1]][1] == ('zero',))
            if F is not None:
                st.ts = st.ts | {F} if zero else st.ts - {F}
            elif addr_root(args[0])[0] == 'al':
                st.ts = st.ts | {args[0]} if zero else st.ts - {args[0]}
        elif t in ('jbFreeList', 'jbNewList') and t != s.fn:
            F = s.own(args[0], s.S)
            if F is not None or s.obj(args[0]):
                st.ts = st.ts | ({F} if F is not None else {'First', 'Last'})
        else:
            return None
        eng.kill_call(st, t, args)
        return [(st, None)]

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None or val == C0:
            return
        for F in s.all:
            key = f'{s.fn}: {F} is empty'
            s.ctx.oblige(key, locstr(i))
            if F not in st.ts:
                eng.report(key, f'{s.what} keeps its {F}', st, i, fr)


class Each(Rule):
    """ReadPkt: every message begins empty.  ts: 'new', 'full' (something was put into it), 'used' (it was handled);
    'text' while its end has not been seen"""
    correlate = False

    def mm(s, x):
        return isinstance(x, tuple) and contains_call(x, 'mmAlloc')

    def on_store(s, eng, st, i, addr, val, fr):
        if addr[0] == 'fld' and 'MemMessage' in repr(addr) and 'new' in st.ts:
            st.ts = (st.ts - {'new'}) | {'full'}
        if addr == ('g', 'messageend'):
            st.ts = st.ts | {'text'} if val == C0 else st.ts - {'text'}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'mmAlloc':
            no, ok = eng.fork(st, t, args)
            ok.ts = frozenset({'new'})
            return [(ok, eng.result(ok, i, t, args, fr)), (no, C0)]
        if t == 'mmClear':
            key = 'ReadPkt: what was read of a message is kept'
            s.ctx.oblige(key, locstr(i))
            if 'full' in st.ts:
                eng.report(key, 'a part of the message that was read already is thrown away', st, i, fr)
            eng.kill_call(st, t, args)
            st.ts = frozenset({'new'})
            return [(st, None)]
        if t == 'ReadNull' and 'new' in st.ts:
            st.ts = (st.ts - {'new'}) | {'full'}
        if t == 'ReadCR':
            key = 'ReadPkt: the text of a message is read to its own end'
            s.ctx.oblige(key, locstr(i))
            if 'text' not in st.ts:
                eng.report(key, 'the end of the message before is taken for the end of this one', st, i, fr)
            eng.kill_call(st, t, args)
            return [(st, eng.result(st, i, t, args, fr))]
        if t in s.handlers:
            key = 'ReadPkt: every message begins empty'
            s.ctx.oblige(key, locstr(i))
            if 'used' in st.ts:
                eng.report(key, 'a message is handled with parts of the one before it', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = no.ts = frozenset({'used'})
            return [(ok, C1), (no, C0)]
        return None


def contains_call(x, name):
    return any(isinstance(y, tuple) and y[:2] == ('call', name) for y in parts(x))


class Fresh(Rule):
    """the exporting functions: the message that is handed on was made for it.  ts: messages made, 'ends' (end marks that are reset)"""
    correlate = False

    def on_store(s, eng, st, i, addr, val, fr):
        if addr[0] == 'g' and addr[1] in s.marks:
            st.ts = st.ts | {addr[1]} if val == C0 else st.ts - {addr[1]}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'mmAlloc':
            no, ok = eng.fork(st, t, args)
            r = eng.result(ok, i, t, args, fr)
            ok.ts = ok.ts | {r}
            return [(ok, r), (no, C0)]
        if t in s.readers:
            key = f'{s.fn}: the text of a message is read to its own end'
            s.ctx.oblige(key, locstr(i))
            if not s.marks <= st.ts:
                eng.report(key, 'the end of the message before is taken for the end of this one', st, i, fr)
            eng.kill_call(st, t, args)
            return [(st, eng.result(st, i, t, args, fr))]
        if t in s.handlers:
            key = f'{s.fn}: every message is a new one'
            s.ctx.oblige(key, locstr(i))
            if args[0] not in st.ts:
                eng.report(key, 'a message is handed on that was not made for it, or twice', st, i, fr)
            st.ts = st.ts - {args[0]}
            no, ok = eng.fork(st, t, args)
            return [(ok, C1), (no, C0)]
        return None


class Number(Rule):
    """msg_importfunc: a message is written under a name that no other message has.  ts: names known to be free"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        a = call(atom[1], 'osExists') if atom[0] == 'nz' else None
        if a is not None:
            st.ts = st.ts - {a[0]} if truth else st.ts | {a[0]}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osExists':
            st.ts = frozenset()
            return None
        if t == 'msg_WriteMSG':
            key = f'{s.fn}: a message is stored under a name of its own'
            s.ctx.oblige(key, locstr(i))
            if args[1] not in st.ts:
                eng.report(key, 'a message is stored in a file that may hold another message', st, i, fr)
            eng.kill_call(st, t, args)
            return [(st, eng.result(st, i, t, args, fr))]
        w = {args[l[1]] for l in eng.p.mods.get(t, ()) if l[0] == 'P' and l[1] < len(args)}
        if any(addr_root(x) == addr_root(y) for x in st.ts for y in w):
            st.ts = frozenset(x for x in st.ts if not any(addr_root(x) == addr_root(y) for y in w))
        return None


def empty(ctx):
    """a cleared or new message is empty in every part, a freed or new list has no entries"""
    p = ctx.prog()
    ctx.need(p, 'mmClear', 'mmAlloc', 'jbFreeList', 'jbNewList')
    for fn, S, what in (('mmClear', 'MemMessage', 'a cleared message'), ('mmAlloc', 'MemMessage', 'a new message'),
                        ('jbFreeList', 'jbList', 'a list that was freed'), ('jbNewList', 'jbList', 'a new list')):
        r = Clear()
        r.p, r.fn, r.S, r.what = p, fn, S, what
        r.all = [f for f in p.m.fields['struct.' + S] if f != 'msgnum']
        r.size = least(p, ('named', 'struct.' + S))
        ctx.run(p, r, fn, frozenset())


def messages(ctx):
    """every message of a packet begins empty and is read to its own end"""
    p = ctx.prog()
    ctx.need(p, 'ReadPkt')
    r = Each()
    r.handlers = set(p.fpslots.get(('PV', 'ReadPkt', 3), ()))
    ctx.run(p, r, 'ReadPkt', frozenset())


def exported(ctx):
    """every message taken out of a message base is a new one and read to its own end"""
    p = ctx.prog()
    for fn, marks, readers in (('msg_ExportMSGNum', {'msg_messageend', 'msg_shortread'}, {'msg_ReadCR'}), ('jam_ExportJAMNum', set(), set())):
        ctx.need(p, fn)
        r = Fresh()
        r.fn, r.marks, r.readers = fn, marks, readers
        r.handlers = set(p.fpslots.get(('PV', fn, 2), ()))
        ctx.run(p, r, fn, frozenset())


def numbers(ctx):
    """a message is never stored in the place of another one"""
    p = ctx.prog()
    ctx.need(p, 'msg_importfunc', 'msg_WriteMSG')
    r = Number()
    r.fn = 'msg_importfunc'
    ctx.run(p, r, 'msg_importfunc', frozenset())


RULES = {
    'A28': ('No message takes anything from another or takes its place', [empty, messages, exported, numbers]),
}
