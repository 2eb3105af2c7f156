"""Outgoing mail: the packet, the file and the directory belong to the system and flavour it was written for."""
import re
from ..engine import Rule, C0, C1, locstr, AnalysisBroken
from ..pat import *
from .. import loops
from .prims import PARTS
from .maint import leaves, cycle_without

CONV = re.compile(r'%([-0 +#]*\d*)(?:\.\d+)?[hlz]*([a-zA-Z%])')


def merge(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return tuple(out)


def first_of(t, lst):
    """t is the first element of the list at this address"""
    return t in (('ld', lst), ('ld', ('fld', lst, 'jbList', 'First')))


def walks(p, f, reg, lists):
    """the variable starts at the head of such a list and goes on by Next"""
    out, steps = leaves(p, f, reg)
    for o in out:
        e = p.defs(f).get(o[1]) if o[0] == 'v' else None
        locs = p.loc_of(f, e.ops[0]) if e is not None and e.op == 'load' else set()
        if o != C0 and (not locs or not all(l[0] in ('F', 'G', 'PS') and l[-1] in ('First', 'Next') + lists for l in locs)):
            return False
    return not steps


class Text(Rule):
    """follows what is put together in text buffers: ts has ('txt', buffer, parts), parts being literal text and
    (conversion, value)"""
    correlate = False
    max_states = 400
    ends = {}           # calls after which a buffer holds something that has a name: {callee: (argument, token)}
    spoil = {'osFGets': (1,), 'jbstrcpy': (0,), 'Print4D': (1,), 'osRead': (1,), 'ExpandPacker': (1,), 'memcpy': (0,), 'memmove': (0,), 'strncpy': (0,)}

    def text(s, st, a):
        if a[0] == 's':
            return merge((a[1],))
        for x in st.ts:
            if isinstance(x, tuple) and x[0] == 'txt' and x[1] == a:
                return x[2]
        return (('%s', a),)

    def has(s, st, a):
        return any(isinstance(x, tuple) and x[0] == 'txt' and x[1] == a for x in st.ts)

    def settext(s, st, a, parts):
        ts = {x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'txt' and x[1] == a)}
        if parts is not None:
            ts.add(('txt', a, merge(parts)))
        st.ts = frozenset(ts)

    def fmt(s, st, f, args):
        """the parts a format gives with these arguments"""
        if f[0] != 's':
            return (('?', f),)
        out, k, pos = [], 0, 0
        for m in CONV.finditer(f[1]):
            out.append(f[1][pos:m.start()])
            pos = m.end()
            c = m.group(2)
            if c == '%':
                out.append('%')
                continue
            v = args[k] if k < len(args) else ('?',)
            k += 1
            if c == 's' and not m.group(1):
                out += s.text(st, v)
            elif c == 'c' and v[0] == 'c':
                out.append(chr(v[1] & 255))
            elif c in 'diu' and not m.group(1) and v[0] == 'c':
                out.append(str(v[1]))
            else:
                out.append(('%' + m.group(1) + ('d' if c in 'iu' else c), v))
        out.append(f[1][pos:])
        return merge(out)

    def texts(s, eng, st, i, t, args, fr):
        if t == 'sprintf':
            s.settext(st, args[0], s.fmt(st, args[1], args[2:]))
        elif t == 'snprintf':
            s.settext(st, args[0], s.fmt(st, args[2], args[3:]))
        elif t in ('strcpy', 'mystrncpy'):
            s.settext(st, args[0], s.text(st, args[1]))
        elif t == 'strcat':
            s.settext(st, args[0], s.text(st, args[0]) + s.text(st, args[1]))
        elif t == 'MakeFullPath':
            s.settext(st, args[2], (('dir', args[0]),) + s.text(st, args[1]))
        elif t in s.ends:
            k, tok = s.ends[t]
            s.settext(st, args[k], ((tok, args),))
        elif t in s.spoil:
            for k in s.spoil[t]:
                if k < len(args):
                    s.settext(st, args[k], None)

    def on_store(s, eng, st, i, a, v, fr):
        if v[0] == 'c' and a[0] == 'idx':
            b, n = a[1], a[2]
            L = ('call', 'strlen', (b,), None)
            if n == L and v != C0:
                s.settext(st, b, s.text(st, b) + (chr(v[1] & 255),))
            elif n[0] == 'bin' and n[1] == 'add' and n[2] == L and n[3][0] == 'c' and n[3][1] < 0 and v == C0:
                s.settext(st, b, s.text(st, b) + (('chop', -n[3][1]),))
            elif n[0] == 'bin' and n[1] == 'add' and n[2] == L and n[3][0] == 'c' and n[3][1] < 0:
                x = s.text(st, b)
                if x and isinstance(x[-1], str) and len(x[-1]) >= -n[3][1]:
                    q = len(x[-1]) + n[3][1]
                    s.settext(st, b, x[:-1] + (x[-1][:q] + chr(v[1] & 255) + x[-1][q + 1:],))
                else:
                    s.settext(st, b, None)
        elif v == C0 and s.has(st, a):
            s.settext(st, a, ())
        elif v == C0 and a[0] == 'call' and a[1] == 'GetFilePart':
            s.settext(st, a[2][0], (('dirof', s.text(st, a[2][0])),))
        return s.stored(eng, st, i, a, v, fr)

    def stored(s, eng, st, i, a, v, fr):
        pass

    def on_call(s, eng, st, i, t, args, fr):
        r = s.event(eng, st, i, t, args, fr)
        if r is None:
            s.texts(eng, st, i, t, args, fr)
        return r

    def event(s, eng, st, i, t, args, fr):
        return None

    def on_back(s, eng, st, fr):
        if any(ptypes(s.p, fr.fn).get(ph.res) == 'ConfigNode' for ph in eng.back[1].phis):
            st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'cnode'))

    def tag(s, st, name, val=True):
        st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == name)) | {(name, val)}

    def get(s, st, name):
        return next((x[1] for x in st.ts if isinstance(x, tuple) and x[0] == name), None)


# ------------------------------------------------------------------ FindPkt
class Find(Rule):
    correlate = False
    max_states = 100

    def track(s, atom, st):
        return cmp4any(atom) is not None or atom[0] in ('eq', 'nz')

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None or v == C0 or v is None or st.truth(('nz', v)) is False:
            return
        for k, F in ((0, 'Dest'), (1, 'Orig')):
            key = f'FindPkt: the packet that is found has the {"destination" if k == 0 else "origin"} asked for'
            s.ctx.oblige(key, locstr(i))
            if not any(t is False and cmp4any(a) == {('arg', s.fn, k), ('fld', v, 'Pkt', F)} for a, t in st.facts.items()):
                eng.report(key, f'a packet is returned whose {F} was not compared equal', st, i, fr)
        key = 'FindPkt: the packet that is found has the type asked for'
        s.ctx.oblige(key, locstr(i))
        if not any(t and a[0] == 'eq' and {a[1], a[2]} == {('arg', s.fn, 2), LD(v, 'Pkt', 'Type')} for a, t in st.facts.items()):
            eng.report(key, 'a packet is returned whose type was not compared equal', st, i, fr)


def cmp4any(atom):
    if atom[0] == 'nz':
        a = call(atom[1], 'Compare4D')
        if a is not None:
            return set(a)
    return None


def find(ctx):
    """FindPkt returns a packet only if its destination, origin and type were compared equal with the ones asked for"""
    p = ctx.prog()
    ctx.need(p, 'FindPkt', 'Compare4D')
    r = Find()
    r.fn, r.p = 'FindPkt', p
    ctx.run(p, r, 'FindPkt', frozenset())
    ctx.floor('FindPkt', 3)


# ------------------------------------------------------------------ WriteEchoMail, WriteNetMail
class Write(Text):
    """ts: txt, pkt (the packet that is written to), listed, out (what was written since the header), typ (what was stored
    as type), pktfrom/cnode/pack/normal (decisions), cp (parts of the addresses that were set), done"""
    max_states = 3000
    stale_ts = True

    def __init__(s, p, fn, echo):
        s.p, s.fn, s.echo = p, fn, echo
        s.f = p.m.funcs[fn]
        s.mm, s.a1, s.aka = (('arg', fn, k) for k in range(3))
        s.dest = ('fld', s.a1, 'ConfigNode', 'Node') if echo else s.a1
        s.chunks = set()
        s.writes = set()

    def track(s, atom, st):
        return atom[0] == 'nz' and call(atom[1], 'Compare4D') is not None

    def is_type(s, t):
        return t == LD(s.mm, 'MemMessage', 'Type')

    def chunk(s, t):
        if first_of(t, ('fld', s.mm, 'MemMessage', 'TextChunks')):
            return True
        return t[0] in ('phi', 'opq') and t[1] == s.fn and t[2] in s.ptrs

    def on_branch(s, eng, st, i, atom, truth, fr):
        b = flag(atom, 'ConfigNode', 'Flags')
        if b and b[1] == s.PKTFROM:
            s.tag(st, 'pktfrom', (truth, b[0]))
        if b and b[1] == s.PACK:
            s.tag(st, 'pack', truth)
        if atom[0] == 'eq' and s.is_type(atom[1]) and atom[2] == ('c', s.NORMAL):
            s.tag(st, 'normal', truth)
        if atom[0] == 'nz':
            if points_to(s.p, atom[1]) == 'ConfigNode':
                if s.get(st, 'cnode') == (atom[1], not truth):
                    return False
                s.tag(st, 'cnode', (atom[1], truth))
            if cmp4any(atom) is not None:
                s.tag(st, 'match', None if truth else tuple(call(atom[1], 'Compare4D')))
            if not truth and s.chunk(atom[1]):
                s.tag(st, 'done')

    def stored(s, eng, st, i, a, v, fr):
        if fld(a, 'MemMessage', 'Type') == s.mm:
            k = f'{s.fn}: the flavour of the message'
            s.ctx.oblige(k, locstr(i))
            if s.echo:
                ok = v == ('c', s.ECHO)
            else:
                ok = v == ('c', s.ECHO) and s.get(st, 'pack') and s.get(st, 'normal')
            if not ok:
                eng.report(k, 'the message gets another flavour', st, i, fr)
            s.tag(st, 'typ', v)
            return
        b = fld(a, 'Node4D', None)
        if b is not None and v[0] == 'ld' and fld(v[1], 'Node4D', a[3]) is not None:
            m = fld(b, 'MemMessage', None)
            if m == s.mm:
                s.set4(st, b[3], {a[3]}, fld(v[1], 'Node4D', a[3]))

    def set4(s, st, F, parts, src):
        st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'cp' and x[1] == F and x[2] in parts)) | \
            {('cp', F, P, src) for P in parts}

    def orig(s, st):
        pf = s.get(st, 'pktfrom')
        if pf and pf[0]:
            return ('fld', pf[1], 'ConfigNode', 'PktFrom')
        return ('fld', s.aka, 'Aka', 'Node')

    def args_ok(s, eng, st, i, fr, what, dest, orig, typ):
        for name, got, want in (('destination', dest, s.dest), ('origin', orig, s.orig(st))):
            k = f'{s.fn}: {what} is asked for with the right {name}'
            s.ctx.oblige(k, locstr(i))
            if got != want:
                eng.report(k, f'the {name} of the packet is not that of the message', st, i, fr)
        pf = s.get(st, 'pktfrom')
        k = f'{s.fn}: a configured packet address is used'
        s.ctx.oblige(k, locstr(i))
        node, there = (s.a1, True) if s.echo else s.get(st, 'cnode') or (None, True)
        if node is None or there and (pf is None or pf[1] != node):
            eng.report(k, 'the packet address configured for the node is not looked at', st, i, fr)
        k = f'{s.fn}: {what} is asked for with the flavour of the message'
        s.ctx.oblige(k, locstr(i))
        have = s.get(st, 'typ')
        if s.echo:
            ok = typ == ('c', s.ECHO) or s.is_type(typ) and have == ('c', s.ECHO)
        else:
            ok = s.is_type(typ) or typ == have
        if not ok:
            eng.report(k, 'the packet is not of the flavour of the message', st, i, fr)
        if not s.echo:
            k = f'{s.fn}: netmail that is to be packed goes out with the echomail'
            s.ctx.oblige(k, locstr(i))
            if s.get(st, 'pack') and s.get(st, 'normal') is not False and have is None:
                eng.report(k, 'netmail for a node with packed netmail is sent unpacked', st, i, fr)

    def out(s, st, *parts):
        o = s.get(st, 'out')
        if o is not None:
            s.tag(st, 'out', merge(o + parts))

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t in ('FindPkt', 'CreatePkt'):
            new = t == 'CreatePkt'
            s.args_ok(eng, st, i, fr, 'a new packet' if new else 'a packet', args[0], args[2 if new else 1], args[3 if new else 2])
            if new:
                k = f'{s.fn}: a new packet is made for the configured node'
                c.oblige(k, locstr(i))
                want, there = (s.a1, True) if s.echo else s.get(st, 'cnode') or (None, True)
                if args[1] != want and (there or args[1] != C0):
                    eng.report(k, 'the password and settings of another node are used', st, i, fr)
                elif not s.echo and there and set(s.get(st, 'match') or ()) != {('fld', want, 'ConfigNode', 'Node'), s.dest}:
                    eng.report(k, 'the node was not compared equal with the destination', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = ('opq', fr.fn.name, i.res or 'none')
            ok.facts[('nz', v)] = True
            s.tag(ok, 'pkt', v)
            s.tag(ok, 'listed', not new)
            return [(ok, v), (no, C0)]
        if t == 'FinishPacket':
            k = f'{s.fn}: only the full packet is finished'
            c.oblige(k, locstr(i))
            if args[0] != s.get(st, 'pkt') or s.get(st, 'out') is not None:
                eng.report(k, 'another packet is finished, or one that is still written to', st, i, fr)
            s.tag(st, 'pkt', C0)
        if t == 'jbAddNode' and args[0] == ('g', 'PktList') and args[1] == s.get(st, 'pkt'):
            s.tag(st, 'listed', True)
        if t == 'Copy4D' or t in ('memcpy', 'memmove') and args[2] == ('c', 8):
            m = fld(args[0], 'MemMessage', None)
            if m == s.mm:
                s.set4(st, args[0][3], set(PARTS), args[1])
        if t in ('WriteMsgHeader', 'pktWrite', 'WriteSeenBy', 'WritePath', 'WriteNull'):
            k = f'{s.fn}: everything is written to the packet that was found or made'
            c.oblige(k, locstr(i))
            pk = s.get(st, 'pkt')
            if pk is None or pk == C0 or args[0] != pk:
                eng.report(k, 'a part of the message is written to another packet', st, i, fr)
        if t == 'WriteMsgHeader':
            k = f'{s.fn}: a message starts with its header'
            c.oblige(k, locstr(i))
            if s.get(st, 'out') is not None or args[1] != s.mm:
                eng.report(k, 'the header is written twice or belongs to another message', st, i, fr)
            if s.echo:
                for F, src in (('DestNode', s.dest), ('OrigNode', s.orig(st))):
                    k = f'{s.fn}: the header names the {"receiver" if F == "DestNode" else "sender"} of this copy'
                    c.oblige(k, locstr(i))
                    if any(('cp', F, P, src) not in st.ts for P in PARTS):
                        eng.report(k, f'the {F} of the copy is not the one of its packet', st, i, fr)
            no, ok = eng.fork(st, t, args)
            s.tag(ok, 'out', ())
            s.tag(no, 'failed')
            return [(ok, C1), (no, C0)] if i.res else [(ok, None), (no, None)]
        if t == 'WriteSeenBy':
            s.out(st, ('SEENBY',))
        if t == 'WritePath':
            k = f'{s.fn}: the path that is written is the one of the message'
            c.oblige(k, locstr(i))
            if args[1] != ('fld', s.mm, 'MemMessage', 'Path'):
                eng.report(k, 'another path is written', st, i, fr)
            s.out(st, ('PATH',))
        if t == 'WriteNull':
            s.out(st, *(s.text(st, args[1]) + ('\0',)))
        if t == 'pktWrite':
            x = fld(args[1], 'TextChunk', 'Data')
            if x is not None:
                k = f'{s.fn}: every chunk is written with its length'
                c.oblige(k, locstr(i))
                if not s.chunk(x):
                    eng.report(k, 'the text does not come from the chunks of the message', st, i, fr)
                if args[2] != LD(x, 'TextChunk', 'Length'):
                    eng.report(k, 'a chunk is written with another length', st, i, fr)
                o = s.get(st, 'out')
                if o is not None and (not o or o[-1] != ('TEXT',)):
                    s.out(st, ('TEXT',))
                return None
            n = args[2]
            tx = s.text(st, args[1])
            if n == ('call', 'strlen', (args[1],), None):
                s.out(st, *tx)
            elif n[0] == 'bin' and n[1] == 'add' and n[2] == ('call', 'strlen', (args[1],), None) and n[3] == C1:
                s.out(st, *(tx + ('\0',)))
            elif n[0] == 'c' and all(isinstance(y, str) for y in tx) and n[1] <= len(''.join(tx)) + 1:
                s.out(st, (''.join(tx) + '\0')[:n[1]])
            else:
                s.out(st, ('?', args[1]))
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None or v == C0:
            return
        c = s.ctx
        k = f'{s.fn}: success means that the whole message was written'
        c.oblige(k, locstr(i))
        o = s.get(st, 'out')
        area = ('AREA:', ('%s', ('fld', s.mm, 'MemMessage', 'Area')), '\r')
        want = area + (('PATH',), '\0') if s.echo else ('\0',)
        got = None if o is None else merge(x for x in o if x not in (('TEXT',), ('SEENBY',)))
        if got != merge(want):
            eng.report(k, 'the message is written without its header, area line, control lines or terminator, or in the wrong order', st, i, fr)
        else:
            seq = [x for x in o if isinstance(x, tuple) and x in (('TEXT',), ('SEENBY',), ('PATH',))]
            pos = {('TEXT',): 0, ('SEENBY',): 1, ('PATH',): 2}
            if [pos[x] for x in seq] != sorted(pos[x] for x in seq) or s.echo and o[:3] != area and o[:3] != area[:2] + ('\r\0',) \
                    or not o or not (isinstance(o[-1], str) and o[-1].endswith('\0')):
                eng.report(k, 'the parts of the message are written in the wrong order', st, i, fr)
        if s.get(st, 'done') is None:
            eng.report(k + ' (text)', 'the message is ended before all of its text was written', st, i, fr)
        k = f'{s.fn}: the packet stays known until it is closed'
        c.oblige(k, locstr(i))
        if s.get(st, 'listed') is not True:
            eng.report(k, 'a packet is written to that nobody will close and file', st, i, fr)


def data_of(p, f, v, S, F):
    """the operand b when v is &b->F"""
    defs = p.defs(f)
    d = defs.get(v[1]) if v[0] == 'v' else None
    while d is not None and d.op == 'gep':
        if d.ty[0] == 'named' and d.ty[1] == 'struct.' + S and len(d.ops) >= 3 and d.ops[2][0] == 'c' and p.m.fname(d.ty[1], d.ops[2][1]) == F:
            return loops.strip(defs, d.ops[0])
        v = loops.strip(defs, d.ops[0])
        d = defs.get(v[1]) if v[0] == 'v' else None
    return None


def chunk_loop(ctx, p, f):
    """the registers that walk the chunks that are written, after checking that the walk takes every one"""
    defs = p.defs(f)
    k = f'{f.name}: every chunk of the text is written'
    ctx.oblige(k)
    ptrs = set()
    for b in f.blocks:
        for i in b.insts:
            if i.op != 'call' or i.extra[0] != ('g', 'pktWrite') or len(i.ops) < 3:
                continue
            v = data_of(p, f, i.ops[1], 'TextChunk', 'Data')
            if v is None or v[0] != 'v':
                continue
            ptrs.add(v[1])
            d = defs.get(v[1])
            home = next(x for x in f.blocks if d in x.phis or d in x.insts)
            if d.op != 'phi':
                ctx.finding(k, 'a single chunk is written', locstr(i))
                continue
            if not walks(p, f, v[1], ('TextChunks',)):
                ctx.finding(k, 'the chunks are not taken one after the other', locstr(i))
            if cycle_without(f, home.name, {b.name}):
                ctx.finding(k, 'a chunk can be passed over', locstr(i))
    if not ptrs:
        ctx.finding(k, 'no text is written', f.name)
    return ptrs


def messages(ctx):
    """WriteEchoMail and WriteNetMail: the packet that is looked for and made has the destination, own address and flavour
    of this copy; header, area line, every text chunk, seen-by and path and the terminator are written to that packet in
    this order before success is reported"""
    p = ctx.prog()
    ctx.need(p, 'WriteEchoMail', 'WriteNetMail', 'CreatePkt', 'FindPkt', 'pktWrite')
    for fn, echo in (('WriteEchoMail', True), ('WriteNetMail', False)):
        r = Write(p, fn, echo)
        r.PKTFROM, r.PACK = ctx.const('NODE_PKTFROM'), ctx.const('NODE_PACKNETMAIL')
        r.ECHO, r.NORMAL = ctx.const('PKTS_ECHOMAIL'), ctx.const('PKTS_NORMAL')
        r.ptrs = chunk_loop(ctx, p, r.f)
        ctx.run(p, r, fn, frozenset())
        ctx.floor(fn, 8)


# ------------------------------------------------------------------ pktWrite, WriteNull, WriteSeenBy, WritePath
class Through(Rule):
    """a function passes what it is given on, once, on every path"""
    correlate = False

    def on_call(s, eng, st, i, t, args, fr):
        if t == s.callee:
            k = f'{s.fn}: passes on exactly what it is given'
            s.ctx.oblige(k, locstr(i))
            if not s.ok(args) or st.ts:
                eng.report(k, f'{s.callee} gets something else', st, i, fr)
            st.ts = 1
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and v != C0:
            k = f'{s.fn}: always writes'
            s.ctx.oblige(k, locstr(i))
            if not st.ts:
                eng.report(k, 'nothing is written', st, i, fr)


class Paths(Rule):
    """ts: (owed, stage)"""
    correlate = False
    max_states = 100

    def entry(s, t):
        """t is the address of the text of the entry at the counter"""
        if t[0] in ('phi', 'opq') and t[1] == s.fn:
            return data_of(s.p, s.p.m.funcs[s.fn], ('v', t[2]), 'Path', 'Path') is not None
        return t[0] == 'idx' and fld(t[1], 'Path', 'Path') is not None and t[2][0] in ('phi', 'opq', 'c') or fld(t, 'Path', 'Path') is not None

    def settle(s, eng, st, i, fr, what):
        k = 'WritePath: every path entry that is not empty is written'
        s.ctx.oblige(k)
        owed, stage = st.ts
        if owed or stage:
            eng.report(k, what, st, i, fr)

    def on_branch(s, eng, st, i, atom, truth, fr):
        owed, stage = st.ts
        if atom[0] == 'lt' and (ldfld(atom[3], 'Path', 'Paths') is not None or ldfld(atom[2], 'Path', 'Paths') is not None):
            s.settle(eng, st, i, fr, 'a path entry is passed over or written incompletely')
            up = ldfld(atom[3], 'Path', 'Paths') is not None
            st.ts = (bool(truth) if up else not truth, 0)
        if atom[0] == 'nz' and atom[1][0] == 'ld' and s.entry(atom[1][1]) and not truth:
            st.ts = (False, 0)

    def on_call(s, eng, st, i, t, args, fr):
        owed, stage = st.ts
        if t == 'pktWrite':
            k = 'WritePath: form of a path line'
            s.ctx.oblige(k, locstr(i))
            L = ('call', 'strlen', (args[1],), None)
            if stage == 0 and args[1] == ('s', '\x01PATH: ') and args[2] in (('c', 7), L):
                st.ts = (owed, 1)
            elif stage == 1 and s.entry(args[1]) and args[2] == L:
                st.ts = (owed, 2)
            elif stage == 2 and args[1] == ('s', '\r') and args[2] in (C1, L):
                st.ts = (False, 0)
            else:
                eng.report(k, 'a path line has another form', st, i, fr)
            if args[0] != ('arg', s.fn, 0):
                eng.report(k + ' (packet)', 'a path line is written to another packet', st, i, fr)
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and v != C0:
            s.settle(eng, st, i, fr, 'success is reported before a path entry was written')


def paths_first(p, f):
    """loops over the list given start at its first block and go on by Next"""
    for b in f.blocks:
        for d in b.phis:
            if ptypes(p, f).get(d.res) == 'Path':
                return walks(p, f, d.res, ())
    return None


def lines(ctx):
    """pktWrite, WriteNull, WriteSeenBy and WritePath write exactly what they are given: all bytes, the terminator of a
    string, the whole seen-by text, and every path entry that is not empty as a path line"""
    p = ctx.prog()
    ctx.need(p, 'pktWrite', 'WriteNull', 'WriteSeenBy', 'WritePath')
    A = lambda fn, k: ('arg', fn, k)
    L = lambda t: ('call', 'strlen', (t,), None)
    for fn, callee, ok in (
            ('pktWrite', 'osWrite', lambda a: a == (LD(A('pktWrite', 0), 'Pkt', 'fh'), A('pktWrite', 1), A('pktWrite', 2))),
            ('WriteNull', 'pktWrite', lambda a: a == (A('WriteNull', 0), A('WriteNull', 1), ('bin', 'add', L(A('WriteNull', 1)), C1))),
            ('WriteSeenBy', 'pktWrite', lambda a: a[0] == A('WriteSeenBy', 0) and call(a[1], 'mmMakeSeenByBuf') == (A('WriteSeenBy', 1),) and a[2] == L(a[1]))):
        r = Through()
        r.fn, r.callee, r.ok = fn, callee, ok
        ctx.run(p, r, fn, 0)
    r = Paths()
    r.fn, r.p = 'WritePath', p
    ctx.run(p, r, 'WritePath', (False, 0))
    f = p.m.funcs['WritePath']
    k = 'WritePath: every block of the path list is written'
    ctx.oblige(k)
    if paths_first(p, f) is not True:
        ctx.finding(k, 'the blocks are not taken from the first to the last', 'WritePath')
    n = loops.covers(ctx, p, 'WritePath', lambda i: i.op == 'gep', 'every entry of a block', 0, frozenset({('F', 'Path', 'Paths')}), 'entries of the path are left out')
    if not n:
        ctx.finding('WritePath: every entry of a block', 'the entries are not counted through', 'WritePath')
    ctx.floor('WritePath', 3)


# ------------------------------------------------------------------ FinishPacket
class Finish(Text):
    """ts: txt, type, ends (terminators written), closed"""

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[1] == LD(s.pkt, 'Pkt', 'Type'):
            k = 0 if atom[0] == 'nz' else atom[2][1] if atom[0] == 'eq' and atom[2][0] == 'c' else None
            if k is not None and truth == (atom[0] == 'eq'):
                s.tag(st, 'type', k)
            elif k is not None:
                no = (s.get(st, 'not') or frozenset()) | {k}
                s.tag(st, 'not', no)
                if not s.kinds - no:
                    return False
                if len(s.kinds - no) == 1:
                    s.tag(st, 'type', next(iter(s.kinds - no)))
        if atom == ('nz', LD(s.pkt, 'Pkt', 'hexnum')):
            s.tag(st, 'named', truth)

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'pktWrite' and args[0] == s.pkt:
            n = s.get(st, 'ends') or 0
            tx = s.text(st, args[1])
            if args[2][0] == 'c' and all(isinstance(x, str) for x in tx) and set((''.join(tx) + '\0')[:args[2][1]]) == {'\0'} \
                    and args[2][1] <= len(''.join(tx)) + 1:
                s.tag(st, 'ends', n + args[2][1])
            else:
                s.tag(st, 'ends', 99)
        if t == 'osClose':
            k = 'FinishPacket: a packet ends with its terminator'
            c.oblige(k, locstr(i))
            if s.get(st, 'ends') != 2:
                eng.report(k, 'the packet is closed without the two zero bytes at its end', st, i, fr)
            s.tag(st, 'closed')
        if t == 'osRename':
            k = 'FinishPacket: a finished packet gets the name of its receiver'
            c.oblige(k, locstr(i))
            s.renames += 1
            d = ('dir', ('fld', ('g', 'config'), 'Config', 'cfg_PacketCreate'))
            num = ('%08x', LD(s.pkt, 'Pkt', 'hexnum'))
            old, new = s.text(st, args[0]), s.text(st, args[1])
            if old != (d, num, '.newpkt'):
                eng.report(k + ' (old name)', 'the packet that is renamed is not the one that was created', st, i, fr)
            fields = [('%d', LD(('fld', s.pkt, 'Pkt', 'Dest'), 'Node4D', P)) for P in PARTS]
            parts = [x for x in new if not isinstance(x, str)]
            lits = ''.join(x if isinstance(x, str) else '\0' for x in new)
            m = re.fullmatch('\0\0_([A-Za-z]+)_\0_\0_\0_\0\\.newpkt', lits)
            T = s.get(st, 'type')
            if T is not None and (not m or parts != [d, num] + fields):
                eng.report(k, 'the name does not have number, flavour, zone, net, node and point of the receiver in their places', st, i, fr)
            elif m and T is not None:
                s.words.setdefault(T, set()).add(m.group(1))
            if s.get(st, 'closed') is None:
                eng.report(k + ' (open)', 'a packet is renamed before it was closed', st, i, fr)
            s.tag(st, 'renamed')
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None:
            k = 'FinishPacket: every packet gets the name of its receiver'
            s.ctx.oblige(k, locstr(i))
            if s.get(st, 'named') is not False and s.get(st, 'renamed') is None:
                eng.report(k, 'a packet is finished but not renamed, so it would not be filed', st, i, fr)


# ------------------------------------------------------------------ PackFile
class Filed(Text):
    """ts: txt, tok (how many words of the name were taken), word, n4 (parts of the address), cnode"""
    ends = {'MakeBaseName': (1, 'base'), 'MakeArcName': (1, 'arc')}
    stale_ts = True

    def __init__(s, p, fn):
        s.p, s.fn = p, fn
        s.file = ('arg', fn, 0)
        s.n4 = set()

    def track(s, atom, st):
        return atom[0] == 'nz' and call(atom[1], 'Compare4D') is not None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz':
            a = call(atom[1], ('strcasecmp', 'strcmp', 'stricmp'))
            if a is not None and not truth:
                w = next((x[1] for x in a if x[0] == 's'), None)
                b = next((x for x in a if x[0] != 's'), None)
                if w is not None and s.get(st, 'token') == (b, 2):
                    s.tag(st, 'word', w)
            if points_to(s.p, atom[1]) == 'ConfigNode':
                if s.get(st, 'cnode') == (atom[1], not truth):
                    return False
                s.tag(st, 'cnode', (atom[1], truth))
            if cmp4any(atom) is not None:
                s.tag(st, 'match', None if truth else tuple(call(atom[1], 'Compare4D')))
            if ldfld(atom[1], 'ConfigNode', 'Packer') is not None:
                s.tag(st, 'packer', truth)

    def stored(s, eng, st, i, a, v, fr):
        b = fld(a, 'Node4D', None)
        if b is not None and b[0] == 'al':
            n = call(v, ('atol', 'atoi', 'strtol', 'strtoul'))
            tk = s.get(st, 'token')
            src = tk[1] if n is not None and tk and tk[0] == n[0] else None
            st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'n4' and x[1] == b and x[2] == a[3])) | {('n4', b, a[3], src)}

    def address(s, st, b):
        """b holds the address the name of the packet gives"""
        return all(('n4', b, P, 3 + k) in st.ts for k, P in enumerate(PARTS))

    def type(s, st):
        w = s.get(st, 'word')
        for T, ws in s.words.items():
            if w is not None and w.lower() in {x.lower() for x in ws}:
                return T
        return None

    def node_ok(s, st, cn, b):
        return set(s.get(st, 'match') or ()) == {('fld', cn, 'ConfigNode', 'Node'), b}

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'jbstrcpy':
            src = args[1]
            n = s.get(st, 'count') or 0
            ok = s.text(st, src) == (('%s', ('call', 'GetFilePart', (s.file,), None)),)
            s.tag(st, 'count', n + 1 if ok else 99)
            s.tag(st, 'token', (args[0], n + 1 if ok else 99))
        if t == 'MakeBaseName':
            k = f'{s.fn}: the outbound is that of the receiver in the name of the packet'
            c.oblige(k, locstr(i))
            if not s.address(st, args[0]):
                eng.report(k, 'zone, net, node and point do not come from their places in the name of the packet', st, i, fr)
            s.tag(st, 'n4d', args[0])
        T = s.type(st)
        base = (('base', (s.get(st, 'n4d'),)),)

        def is_base(x):
            return x[:1] and x[0][0] == 'base' and x[0][1][0] == s.get(st, 'n4d')
        if t == 'osOpen' and args[0] != s.file:
            tx = s.text(st, args[0])
            k = f'{s.fn}: netmail goes to the outbound packet of its flavour'
            c.oblige(k, locstr(i))
            want = s.letters.get(T)
            if want is None or len(tx) != 2 or not is_base(tx) or tx[1] != f'.{want}ut':
                eng.report(k, f'a packet of flavour {s.get(st, "word")} is put in the wrong file', st, i, fr)
            else:
                s.seen.add(T)
        if t == 'MakeArcName':
            k = f'{s.fn}: the bundle is that of the receiver'
            c.oblige(k, locstr(i))
            if not s.node_ok(st, args[0], s.get(st, 'n4d')):
                eng.report(k, 'the bundle is named for another node', st, i, fr)
        if t in ('doAddFlow', 'MakeOrphan'):
            k = f'{s.fn}: packed mail is entered for its receiver with the configured priority'
            c.oblige(k, locstr(i))
            pri = args[2]
            cn = ldfld(pri, 'ConfigNode', 'EchomailPri')
            if T != s.ECHO:
                eng.report(k, 'netmail is sent as if it was echomail', st, i, fr)
            if t == 'doAddFlow':
                tx = s.text(st, args[1])
                if not is_base(tx) or len(tx) != 1:
                    eng.report(k + ' (node)', 'the flow file is not that of the receiver', st, i, fr)
            elif args[1] != s.get(st, 'n4d'):
                eng.report(k + ' (orphan)', 'the orphan file names another node', st, i, fr)
            if cn is not None:
                if not s.node_ok(st, cn, s.get(st, 'n4d')):
                    eng.report(k + ' (priority)', 'the priority of another node is used', st, i, fr)
            elif not (pri == ('c', s.NORMAL) and (s.get(st, 'cnode') or (0, True))[1] is False):
                eng.report(k + ' (priority)', 'the priority is not the one configured for the node', st, i, fr)
            if args[3] != ('c', s.DELETE):
                eng.report(k + ' (mode)', 'the file would not be deleted after it was sent', st, i, fr)
            s.seen.add(s.ECHO)
        if t == 'ExpandPacker':
            pk = fld(args[0], 'Packer', 'Packer')
            k = f'{s.fn}: the packer puts this packet in the bundle of the receiver'
            c.oblige(k, locstr(i))
            arc = s.text(st, args[3])
            if not (len(arc) == 2 and arc[0] == ('dir', ('fld', ('g', 'config'), 'Config', 'cfg_PacketDir')) and arc[1][0] == 'arc'):
                eng.report(k, 'the archive is not the bundle of the receiver', st, i, fr)
            if pk is not None:
                cn = ldfld(pk, 'ConfigNode', 'Packer')
                if cn is None or not s.node_ok(st, cn, s.get(st, 'n4d')):
                    eng.report(k + ' (packer)', 'the packer of another node is used', st, i, fr)
        return None


# ------------------------------------------------------------------ flow and orphan files
class Flow(Text):
    """doAddFlow: ts: txt, type, mode, crlf"""

    def on_branch(s, eng, st, i, atom, truth, fr):
        for k, name in ((2, 'type'), (3, 'mode')):
            if len(atom) > 1 and atom[1] == ('arg', s.fn, k):
                v = 0 if atom[0] == 'nz' else atom[2][1] if atom[0] == 'eq' and atom[2][0] == 'c' else None
                if v is not None:
                    if truth == (atom[0] == 'eq'):
                        s.tag(st, name, v)
                    elif s.get(st, name) == v:
                        return False
        return None

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'osOpen':
            k = 'doAddFlow: the flow file belongs to the node and the flavour'
            c.oblige(k, locstr(i))
            T = s.get(st, 'type')
            want = s.letters.get(T, 'f')
            tx = s.text(st, args[0])
            if tx != (('%s', ('arg', s.fn, 1)), f'.{want}lo'):
                eng.report(k, f'mail of flavour {T} is entered in the wrong flow file', st, i, fr)
            s.seen.add(T)
        if t in ('osFPrintf', 'osPuts', 'osWrite'):
            k = 'doAddFlow: the entry names the file and what becomes of it'
            c.oblige(k, locstr(i))
            tx = s.fmt(st, args[1], args[2:]) if t == 'osFPrintf' else s.text(st, args[1])
            M = s.get(st, 'mode')
            pre = s.modes.get(M, '')
            if not any(tx == merge((pre, ('%s', ('arg', s.fn, 0)), e)) for e in ('\n', '\r\n')):
                eng.report(k, f'the entry for mode {M} has the wrong mark, name or end', st, i, fr)
        return None


class Orphan(Text):
    """MakeOrphan: ts: txt, mode"""
    on_branch = Flow.on_branch

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        n4 = ('arg', s.fn, 1)
        if t == 'osOpen':
            k = 'MakeOrphan: the orphan file lies beside the file'
            c.oblige(k, locstr(i))
            if s.text(st, args[0]) != (('%s', ('arg', s.fn, 0)), '.orphan'):
                eng.report(k, 'the orphan file has another name', st, i, fr)
        if t in ('osPuts', 'osFPrintf'):
            k = 'MakeOrphan: flavour, address and mode are recorded'
            c.oblige(k, locstr(i))
            tx = s.fmt(st, args[1], args[2:]) if t == 'osFPrintf' else s.text(st, args[1])
            M = s.get(st, 'mode')
            w = s.modewords.get(M)
            F = [('%d', LD(n4, 'Node4D', P)) for P in PARTS]
            want = merge((('%s', ('ld', ('idx', ('g', 'prinames'), ('arg', s.fn, 2)))), ' ', F[0], ':', F[1], '/', F[2], '.', F[3], (' ' + w if w else '') + '\n'))
            if tx != want:
                eng.report(k, 'the record has other parts or another order', st, i, fr)
        return None


class Retry(Text):
    """HandleOrphan: ts: txt, token, word, modeword, n4"""
    ends = {'MakeBaseName': (1, 'base')}

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz':
            a = call(atom[1], ('strcasecmp', 'strcmp', 'stricmp'))
            if a is not None and not truth:
                w = next((x[1] for x in a if x[0] == 's'), None)
                b = next((x for x in a if x[0] != 's'), None)
                tk = s.get(st, 'token')
                if w is not None and tk and tk[0] == b:
                    if tk[1] == 1:
                        s.tag(st, 'word', w)
                    elif tk[1] == 3:
                        if s.get(st, 'modeword') not in (None, w):
                            return False
                        s.tag(st, 'modeword', w)
        return None

    def event(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'jbstrcpy':
            n = (s.get(st, 'token') or (None, 0))[1]
            s.tag(st, 'token', (args[0], n + 1))
        if t == 'Parse4D':
            tk = s.get(st, 'token')
            s.tag(st, 'n4', args[1] if tk == (args[0], 2) else C0)
        if t == 'MakeBaseName':
            k = 'HandleOrphan: the file is entered for the node in the orphan file'
            c.oblige(k, locstr(i))
            if args[0] != s.get(st, 'n4'):
                eng.report(k, 'the address does not come from the orphan file', st, i, fr)
        if t == 'doAddFlow':
            k = 'HandleOrphan: the file is entered with flavour and mode of the orphan file'
            c.oblige(k, locstr(i))
            w = s.get(st, 'word')
            s.back.setdefault(w, set()).add(args[2])
            m = s.get(st, 'modeword')
            want = {v.lower(): kk for kk, v in s.modewords.items()}.get(m.lower() if m else None, 0)
            if args[3] != ('c', want):
                eng.report(k + ' (mode)', f'mode {m} is understood as something else', st, i, fr)
            if s.text(st, args[0]) != (('%s', ('arg', s.fn, 0)), ('chop', 7)):
                eng.report(k + ' (file)', 'another file is entered than the one the orphan file stands for', st, i, fr)
            tx = s.text(st, args[1])
            if len(tx) != 1 or tx[0][0] != 'base' or tx[0][1][0] != s.get(st, 'n4'):
                eng.report(k + ' (node)', 'the file is entered for another node', st, i, fr)
        return None


def strings_of_global(p, name):
    """the texts of an array of strings"""
    init = p.m.globals[name][1] if name in p.m.globals else ()
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
                out.append(p.string(x[1]))
                return
            for y in x:
                walk(y)
        elif isinstance(x, str):
            for m in re.finditer(r'@([-\w.$]+)', x):
                if p.string(m.group(1)) is not None:
                    out.append(p.string(m.group(1)))
    walk(init)
    return out


def names(ctx):
    """FinishPacket writes the terminator, closes the packet and gives it a name with number, flavour and address of its
    receiver; PackFile takes the same parts out of the same places, and each flavour ends up in the file of that flavour of
    that node: netmail in its outbound packet, echomail through the packer of the node or unpacked in its flow file with
    the configured priority; doAddFlow, MakeOrphan and HandleOrphan agree about flavours, addresses and modes"""
    p = ctx.prog()
    ctx.need(p, 'FinishPacket', 'PackFile', 'doAddFlow', 'MakeOrphan', 'HandleOrphan')
    C = ctx.const
    ECHO, NORMAL, HOLD, DIRECT, CRASH = (C('PKTS_' + x) for x in ('ECHOMAIL', 'NORMAL', 'HOLD', 'DIRECT', 'CRASH'))
    NONE, TRUNC, DELETE = (C('FLOW_' + x) for x in ('NONE', 'TRUNC', 'DELETE'))
    kinds = {ECHO: 'echomail', NORMAL: 'normal', HOLD: 'hold', DIRECT: 'direct', CRASH: 'crash'}
    r = Finish()
    r.p, r.fn, r.pkt = p, 'FinishPacket', ('arg', 'FinishPacket', 0)
    r.words, r.renames, r.kinds = {}, 0, set(kinds)
    ctx.run(p, r, 'FinishPacket', frozenset())
    k = 'FinishPacket: each flavour has a word of its own'
    ctx.oblige(k)
    if r.renames:
        one = [next(iter(r.words[T])).lower() for T in kinds if len(r.words.get(T, ())) == 1]
        if len(one) != len(kinds) or len(set(one)) != len(one):
            ctx.finding(k, 'two flavours get the same word, or one gets none', 'FinishPacket')
    else:
        ctx.finding(k, 'packets are not renamed', 'FinishPacket')
    words = {T: ws for T, ws in r.words.items() if len(ws) == 1}

    r = Filed(p, 'PackFile')
    r.words, r.letters = words, {NORMAL: 'o', HOLD: 'h', DIRECT: 'd', CRASH: 'c'}
    r.ECHO, r.NORMAL, r.DELETE, r.seen = ECHO, NORMAL, DELETE, set()
    ctx.run(p, r, 'PackFile', frozenset())
    k = 'PackFile: every flavour is understood'
    ctx.oblige(k)
    if words:
        for T in kinds:
            if T in words and T not in r.seen:
                ctx.finding(k, f'packets of flavour {kinds[T]} are not filed', 'PackFile')

    letters = {NORMAL: 'f', ECHO: 'f', HOLD: 'h', DIRECT: 'd', CRASH: 'c'}
    r = Flow()
    r.p, r.fn, r.letters, r.modes, r.seen = p, 'doAddFlow', letters, {TRUNC: '#', DELETE: '^'}, set()
    ctx.run(p, r, 'doAddFlow', frozenset())
    modewords = {TRUNC: 'Truncate', DELETE: 'Delete'}
    r = Orphan()
    r.p, r.fn, r.modewords = p, 'MakeOrphan', modewords
    ctx.run(p, r, 'MakeOrphan', frozenset())
    r = Retry()
    r.p, r.fn, r.modewords, r.back = p, 'HandleOrphan', modewords, {}
    ctx.run(p, r, 'HandleOrphan', frozenset())
    pri = strings_of_global(p, 'prinames')
    k = 'orphan files keep the flavour'
    ctx.oblige(k)
    back = {w.lower(): v for w, v in r.back.items() if w}
    for T, n in kinds.items():
        w = pri[T].lower() if T < len(pri) and pri[T] else None
        v = back.get(w, set())
        if len(v) != 1 or next(iter(v))[0] != 'c' or letters.get(next(iter(v))[1]) != letters[T]:
            ctx.finding(k, f'an orphan of flavour {n} is entered as another flavour', 'HandleOrphan')


# ------------------------------------------------------------------ MakeBaseName
class Base(Text):
    """ts: txt, zone (same as the first own address), point, dom (domains differ)"""

    def on_branch(s, eng, st, i, atom, truth, fr):
        n4 = ('arg', s.fn, 0)
        z, pt = LD(n4, 'Node4D', 'Zone'), LD(n4, 'Node4D', 'Point')
        if atom[0] == 'eq' and z in atom[1:]:
            o = atom[2] if atom[1] == z else atom[1]
            b = ldfld(o, 'Node4D', 'Zone')
            a = fld(b, 'Aka', 'Node') if b is not None else None
            s.tag(st, 'zone', truth if a is not None and s.first(a) else None)
        if atom[0] == 'nz':
            if atom[1] == pt:
                if s.get(st, 'point') not in (None, truth):
                    return False
                s.tag(st, 'point', truth)
            a = call(atom[1], ('strcasecmp', 'stricmp', 'strcmp'))
            if a is not None and all(fld(x, 'Aka', 'Domain') is not None for x in a):
                s.tag(st, 'dom', truth)
        return None

    def first(s, a):
        return first_of(a, ('fld', ('g', 'config'), 'Config', 'AkaList'))

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        n4, out = ('arg', s.fn, 0), ('arg', s.fn, 1)
        W = {P: LD(n4, 'Node4D', P) for P in PARTS}
        tx = [x for x in s.text(st, out) if not (isinstance(x, tuple) and x[0] == 'chop')]
        k = 'MakeBaseName: every address has a name of its own'
        s.ctx.oblige(k, locstr(i))
        bad = None
        root = ('%s', ('fld', ('g', 'config'), 'Config', 'cfg_Outbound'))
        head, rest = [], list(tx)
        while rest and rest[0] != ('%04x', W['Net']):
            head.append(rest.pop(0))
        pt = s.get(st, 'point')
        tail = [('%04x', W['Net']), ('%04x', W['Node'])]
        if pt is True:
            tail += ['.pnt/', ('%08x', W['Point'])]
        if pt is None or rest != tail:
            bad = 'net, node and point are not all in the name'
        zone = s.get(st, 'zone')
        head = list(merge(head))
        if head[:1] == [root] and head[1:] == ['/']:
            if zone is not True:
                bad = 'mail for another zone is put in the directory of the own zone'
        elif head[:1] == [root] and len(head) == 4 and head[1:] == ['.', ('%03x', W['Zone']), '/']:
            if zone is not False:
                bad = 'mail for the own zone is put in the directory of a zone'
            if s.get(st, 'dom'):
                bad = 'mail for another domain is put in the directory of the own one'
        elif len(head) == 3 and head[0][0] == 'dirof' and head[1][0] == '%s' and fld(head[1][1], 'Aka', 'Domain') is not None and head[2] == '/':
            if s.get(st, 'dom') is not True:
                bad = 'mail for the own domain is put in the directory of another one'
        else:
            bad = 'the directory is not the outbound, that of the zone or that of the domain'
        if bad:
            eng.report(k, bad, st, i, fr)


def base(ctx):
    """MakeBaseName: the name has net and node, the point below it if there is one, in the directory of the zone if
    that is not the zone of the first own address, or of the domain if that differs"""
    p = ctx.prog()
    ctx.need(p, 'MakeBaseName')
    r = Base()
    r.p, r.fn = p, 'MakeBaseName'
    ctx.run(p, r, 'MakeBaseName', frozenset())
    ctx.floor('MakeBaseName', 1)


# ------------------------------------------------------------------ flavour of netmail
class Change(Rule):
    """ChangeType: ts: pri (the flavour given), match (the entry applies to the node), flags (flavours the entry changes)"""
    correlate = False
    stale_ts = True
    max_states = 400

    def track(s, atom, st):
        return len(atom) > 1 and atom[1] == ('arg', s.fn, 1)

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[1] == ('arg', s.fn, 1):
            v = 0 if atom[0] == 'nz' else atom[2][1] if atom[0] == 'eq' and atom[2][0] == 'c' else None
            if v is not None and truth == (atom[0] == 'eq'):
                st.ts |= {('pri', v)}
        a = call(atom[1], 'Compare4DPat') if atom[0] == 'nz' else None
        if a is not None and not truth and fld(a[0], 'Change', 'Pattern') is not None and a[1] == ('arg', s.fn, 0):
            st.ts |= {('match', fld(a[0], 'Change', 'Pattern'))}
        x = atom[1]
        if x[0] == 'ld' and fld(x[1], 'Change', None) is not None and (atom[0] == 'nz' or atom[0] == 'eq' and atom[2] == C1):
            e, F = x[1][1], x[1][3]
            if F in s.flags.values():
                if (F, e, not truth) in st.ts:
                    return False
                st.ts |= {(F, e, truth)}
        if atom[0] == 'eq' and ldfld(x, 'Change', 'DestPri') is not None and atom[2] == ('c', s.NORMAL) and truth:
            st.ts |= {('same', x[1][1])}
        return None

    def check(s, eng, st, i, fr, v):
        pri = next((x[1] for x in st.ts if x[0] == 'pri'), None)
        e = ldfld(v, 'Change', 'DestPri')
        F = s.flags.get(pri)
        k = 'ChangeType: the flavour changes exactly where an entry for the node and the flavour says so'
        s.ctx.oblige(k)
        if e is not None:
            if ('match', e) not in st.ts:
                eng.report(k + ' (node)', 'the flavour is changed by an entry that was not found to match the node', st, i, fr)
            if F is None or (F, e, True) not in st.ts:
                eng.report(k + ' (flavour)', 'the flavour is changed by an entry that is for other flavours', st, i, fr)
            return
        for x in st.ts:
            if x[0] == 'match' and F is not None and (F, x[1], True) in st.ts and not (pri == s.ECHO and ('same', x[1]) in st.ts):
                eng.report(k + ' (missed)', 'an entry that is for this node and flavour is not applied', st, i, fr)
        if v[0] == 'c' or v[0] == 'arg' and v != ('arg', s.fn, 1):
            eng.report(k + ' (value)', 'the result is neither the old flavour nor that of an entry', st, i, fr)

    def on_back(s, eng, st, fr):
        if fr.caller is not None:
            return
        frm, to = eng.back
        for ph in to.phis:
            if ph.res in s.vars:
                v = next(eng.val(st, x, fr) for b, x in ph.extra if b == frm.name)
                s.check(eng, st, None, fr, v)
                s.seen += 1
        st.ts = frozenset(x for x in st.ts if x[0] == 'pri')

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None:
            s.check(eng, st, i, fr, v)


def ret_vars(p, f):
    """registers the returned value is made of"""
    out, stk = set(), [i.ops[0] for i in f.insts() if i.op == 'ret' and i.ops]
    defs = p.defs(f)
    while stk:
        v = loops.strip(defs, stk.pop())
        if v[0] != 'v' or v[1] in out:
            continue
        out.add(v[1])
        d = defs.get(v[1])
        if d is not None and d.op == 'phi':
            stk += [x for _, x in d.extra]
        elif d is not None and d.op == 'select':
            stk += list(d.ops[1:])
    return out


class Flavour(Rule):
    """HandleNetmail: ts: crash, hold, attach, nodirect (decisions), typ (stored constant, or ('changed', destination)), is (flavour known
    after the change)"""
    correlate = False
    keep_consts = 'ptr'
    max_states = 600

    def tag(s, st, name, val):
        st.ts = frozenset(x for x in st.ts if x[0] != name) | ({(name, val)} if val is not None else set())

    def get(s, st, name):
        return next((x[1] for x in st.ts if x[0] == name), None)

    def on_branch(s, eng, st, i, atom, truth, fr):
        b = flag(atom, 'MemMessage', 'Attr')
        if b and b[0] == s.mm:
            for m, n in ((s.CRASH, 'crash'), (s.HOLD, 'hold'), (s.ATTACH, 'attach')):
                if b[1] == m:
                    if s.get(st, n) == (not truth):
                        return False
                    s.tag(st, n, truth)
        b = flag(atom, 'Config', 'cfg_Flags')
        if b and b[1] == s.NODIRECT:
            s.tag(st, 'nodirect', truth)
        typ = s.get(st, 'typ')
        if atom[0] == 'eq' and atom[1] == LD(s.mm, 'MemMessage', 'Type') and atom[2][0] == 'c':
            if isinstance(typ, int):
                if (typ == atom[2][1]) != truth:
                    return False
            elif typ is not None:
                if truth:
                    s.tag(st, 'is', atom[2][1])
                elif s.get(st, 'is') == atom[2][1]:
                    return False
        if atom[0] == 'nz' and typ is not None and not isinstance(typ, int) and ldfld(atom[1], 'Node4D', 'Point') == typ[1]:
            s.tag(st, 'point', truth)
        return None

    def on_store(s, eng, st, i, a, v, fr):
        if fld(a, 'MemMessage', 'Attr') == s.mm:
            st.ts = frozenset(x for x in st.ts if x[0] not in ('crash', 'hold', 'attach'))
        if fld(a, 'MemMessage', 'Type') == s.mm:
            if v[0] == 'c':
                s.tag(st, 'typ', v[1])
            else:
                c = call(v, 'ChangeType')
                s.tag(st, 'typ', ('changed', c[0]) if c is not None else ('?', None))
        typ = s.get(st, 'typ')
        if typ is not None and not isinstance(typ, int) and fld(a, 'Node4D', None) == typ[1]:
            k = 'HandleNetmail: only crash and direct mail goes to the boss of a point'
            s.ctx.oblige(k, locstr(i))
            if a[3] != 'Point' or v != C0 or s.get(st, 'is') not in s.direct:
                eng.report(k, 'the destination is changed for mail of another flavour', st, i, fr)
            s.tag(st, 'point', False)

    def on_call(s, eng, st, i, t, args, fr):
        typ = s.get(st, 'typ')
        c = s.ctx
        if t == 'ChangeType':
            k = 'HandleNetmail: the flavour follows the attributes of the message'
            c.oblige(k, locstr(i))
            crash, hold, att, nod = (s.get(st, n) for n in ('crash', 'hold', 'attach', 'nodirect'))
            ok = {s.T['HOLD']: hold is True, s.T['CRASH']: crash is True and hold is False,
                  s.T['DIRECT']: hold is False and crash is False and att is True and nod is False,
                  s.T['NORMAL']: hold is False and crash is False and (att is False or nod is True)}
            if not isinstance(typ, int) or not ok.get(typ):
                eng.report(k, 'crash, hold, file-attach or normal mail gets another flavour', st, i, fr)
            if args[1] != LD(s.mm, 'MemMessage', 'Type') and args[1] != ('c', typ):
                eng.report(k + ' (change)', 'another flavour is changed', st, i, fr)
        if t in ('WriteNetMail', 'AddFlow') and (t == 'AddFlow' or args[0] == s.mm):
            k = 'HandleNetmail: mail and files are sent with the flavour configured for the destination'
            c.oblige(k, locstr(i))
            if typ is None or isinstance(typ, int) or typ[0] != 'changed' or typ[1] != args[1]:
                eng.report(k, 'the flavour was not determined for this destination', st, i, fr)
            if t == 'AddFlow' and args[2] != LD(s.mm, 'MemMessage', 'Type'):
                eng.report(k + ' (file)', 'an attached file is sent with another flavour than its message', st, i, fr)
            if s.get(st, 'is') in s.direct and s.get(st, 'point') is not False:
                eng.report(k + ' (point)', 'crash or direct mail is sent to a point', st, i, fr)
        return None


def flavour(ctx):
    """HandleNetmail and ChangeType: hold, crash, direct (file-attach) and normal mail get the flavour of their attributes,
    changed only by entries that match the destination and the flavour, and message and attached files are sent with it"""
    p = ctx.prog()
    ctx.need(p, 'ChangeType', 'HandleNetmail')
    C = ctx.const
    r = Change()
    r.fn, r.NORMAL, r.ECHO = 'ChangeType', C('PKTS_NORMAL'), C('PKTS_ECHOMAIL')
    r.flags = {C('PKTS_ECHOMAIL'): 'ChangeNormal', C('PKTS_NORMAL'): 'ChangeNormal', C('PKTS_CRASH'): 'ChangeCrash', C('PKTS_DIRECT'): 'ChangeDirect', C('PKTS_HOLD'): 'ChangeHold'}
    r.vars, r.seen = ret_vars(p, p.m.funcs['ChangeType']), 0
    ctx.run(p, r, 'ChangeType', frozenset())
    ctx.floor('ChangeType', 1)
    r = Flavour()
    r.p, r.mm = p, ('arg', 'HandleNetmail', 0)
    r.CRASH, r.HOLD, r.ATTACH, r.NODIRECT = C('FLAG_CRASH'), C('FLAG_HOLD'), C('FLAG_FILEATTACH'), C('CFG_NODIRECTATTACH')
    r.T = {n: C('PKTS_' + n) for n in ('HOLD', 'CRASH', 'DIRECT', 'NORMAL')}
    r.direct = {r.T['CRASH'], r.T['DIRECT']}
    ctx.run(p, r, 'HandleNetmail', frozenset())
    ctx.floor('HandleNetmail', 3)


RULES = {'A23': ('Outgoing mail is complete and goes to the system and flavour it is meant for', [find, messages, lines, names, base, flavour])}
