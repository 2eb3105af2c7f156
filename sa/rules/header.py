"""Headers: every part of a header is written to and read from its own place."""
import re
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .prims import addresses, PARTS
from .pkt import al_of_copy

NAMED = {'MemMessage', 'StoredMsg', 's_JamMsgHeader', 's_JamBaseHeader', 's_JamIndex', 's_JamLastRead', 's_JamSubfield', 's_JamSaveSubfield',
         'ConfigNode', 'Aka', 'Config', 'tm', 'Pkt', 'idx', 'cmnlIdx', 'Area'}
COPY = {'strcpy': 0, 'mystrncpy': 0, 'strncpy': 0, 'memcpy': 0, 'memmove': 0, 'snprintf': None}
PUT = {'putuword': 2, 'jamputuword': 2, 'jamputuint32_t': 4, 'putulong': 4}
GET = {'getuword': 2, 'jamgetuword': 2, 'jamgetuint32_t': 4, 'cmnlgetuword': 2, 'cmnlgetlong': 4}


class Fields(Rule):
    """what the places of a header hold, as descriptions of where the value came from

    subclasses name the base objects (roles), the values a place may hold (allowed), and the
    events at which the places must have been written since the object was last started anew"""
    correlate = False
    max_states = 200
    roles = {}
    allowed = {}
    label = ''

    def desc(s, t):
        if t in s.roles:
            return s.roles[t]
        k = t[0]
        if k == 'c':
            return str(t[1])
        if k == 's':
            return repr(t[1])
        if k == 'ld':
            return s.desc(t[1])
        if k == 'fld':
            if t[2] == 'Node4D':
                return f'{s.desc(t[1])}.{t[3]}'
            if t[2] in NAMED:
                if t[2] == 'argument':
                    return s.desc(t[1])
                return f'{t[2]}.{t[3]}'
            return f'{s.desc(t[1])}.{t[3]}'
        if k == 'call' and t[1] in GET and t[2][1][0] == 'c':
            return f'{s.desc(t[2][0])}[{t[2][1][1]}]' + ('' if GET[t[1]] == 2 else f'/{GET[t[1]]}')
        if k == 'idx' and t[2][0] == 'c':
            return f'{s.desc(t[1])}[{t[2][1]}]'
        if k == 'bin' and t[1] in ('add', 'and', 'or', 'sub') and t[3][0] == 'c':
            return f'{s.desc(t[2])} {t[1]} {t[3][1]}'
        if k == 'phi' and t[1] in s.p.m.funcs:
            f = s.p.m.funcs[t[1]]
            d = s.p.defs(f).get(t[2])
            if d is not None and d.op == 'load':
                l = s.p.loc_of(f, d.ops[0])
                if len(l) == 1 and next(iter(l))[0] == 'F':
                    return '.'.join(next(iter(l))[1:])
        return '?'

    def place(s, a):
        """description of an address that is written to, and its offset when it is a byte buffer"""
        return s.desc(a)

    def put(s, st, place, value):
        if place not in s.allowed:
            return
        ts = {x for x in st.ts if x[0] != place}
        al = s.allowed[place]
        ok = value in al if al is not None else True
        ts.add((place, 'ok' if ok else value))
        st.ts = frozenset(ts)

    def forget(s, st, which):
        st.ts = frozenset(x for x in st.ts if not which(x[0]))

    def require(s, eng, st, i, fr, places, what):
        have = dict(st.ts)
        for pl in places:
            if pl not in s.allowed:
                raise AnalysisBroken(f'no values known for {pl}')
            k = f'{s.label}: {pl}'
            s.ctx.oblige(k, locstr(i))
            v = have.get(pl)
            if v is None:
                eng.report(k, f'{what} although {pl} was not set', st, i, fr)
            elif v != 'ok':
                eng.report(k, f'{pl} gets {v} instead of {" or ".join(sorted(map(str, s.allowed[pl])))}', st, i, fr)

    def on_store(s, eng, st, i, a, v, fr):
        s.put(st, s.place(a), s.desc(v))

    def copied(s, st, d, src):
        s.put(st, d, src)

    def on_call(s, eng, st, i, t, args, fr):
        if t in PUT and len(args) == 3:
            b, o = split(args[0], args[1])
            if o is not None:
                s.put(st, f'{s.desc(b)}[{o}]' + ('' if PUT[t] == 2 else f'/{PUT[t]}'), s.desc(args[2]))
        elif t == 'Copy4D' or t in ('memcpy', 'memmove') and args[2] == ('c', 8) and points_to(s.p, args[0]) == 'Node4D':
            a, b = s.desc(args[0]), s.desc(args[1])
            for F in PARTS:
                s.put(st, f'{a}.{F}', f'{b}.{F}')
            s.copied4(st, a, b)
        elif t in COPY:
            b, o = split(args[0], C0)
            pl = s.desc(b) + (f'[{o}]' if b[0] in ('al', 'g', 'arg') and b in s.roles and s.roles[b].endswith('hdr') else '')
            s.put(st, pl, s.desc(args[1]))
        elif t == 'memset':
            b, o = split(args[0], C0)
            if o is not None and args[2][0] == 'c':
                s.fill(st, s.desc(b), o, args[2][1], s.desc(args[1]))
        return s.event(eng, st, i, t, args, fr)

    def copied4(s, st, a, b):
        pass

    def fill(s, st, b, o, n, v):
        for pl in s.allowed:
            if pl.startswith(b + '[') and o <= int(pl[len(b) + 1:-1]) < o + n:
                s.put(st, pl, v)

    def event(s, eng, st, i, t, args, fr):
        return None


def split(a, off):
    """(object, constant offset) of a byte address"""
    o = off[1] if off[0] == 'c' else None
    while a[0] in ('idx', 'off'):
        if o is None or a[2][0] != 'c':
            o = None
        else:
            o += a[2][1]
        a = a[1]
    return a, o


# the packet header (FSC-0048, type 2+) and the header of a message in a packet
PKT = {0: 'orig.Node', 2: 'dest.Node', 4: 'tm.tm_year add 1900', 6: 'tm.tm_mon', 8: 'tm.tm_mday', 10: 'tm.tm_hour', 12: 'tm.tm_min', 14: 'tm.tm_sec',
       16: '0', 18: '2', 20: 'orig.Net', 22: 'dest.Net', 34: 'orig.Zone', 36: 'dest.Zone', 38: '0', 40: '256', 44: '1', 46: 'orig.Zone', 48: 'dest.Zone',
       50: 'orig.Point', 52: 'dest.Point'}
PKTBYTES = (24, 25, 42, 43, 54, 55, 56, 57)
MSG = {0: '2', 2: 'from.Node', 4: 'to.Node', 6: 'from.Net', 8: 'to.Net', 10: 'attr', 12: 'cost'}
STRINGS = ('DateTime', 'To', 'From', 'Subject')


class Create(Fields):
    """the header of a packet that is written"""
    label = 'header of a new packet'

    def __init__(s, p, fn):
        s.p = p
        s.hdr = header_buffers(p, fn, 'pktWrite', 1, 58)
        s.roles = {('arg', fn, 0): 'dest', ('arg', fn, 1): 'node', ('arg', fn, 2): 'orig', ('arg', fn, 3): 'type', **{h: 'hdr' for h in s.hdr}}
        s.allowed = {f'hdr[{o}]': {v} for o, v in PKT.items()}
        s.allowed.update({f'hdr[{o}]': None for o in PKTBYTES})
        s.allowed.update({f'hdr[{o}]': {'0', 'ConfigNode.PacketPW'} for o in range(26, 34)})
        s.allowed['Pkt.Type'] = {'type'}
        for F in PARTS:
            s.allowed[f'Pkt.Dest.{F}'] = {f'dest.{F}'}
            s.allowed[f'Pkt.Orig.{F}'] = {f'orig.{F}'}

    def track(s, atom, st):
        return s.about(atom)

    def about(s, atom):
        return atom == ('nz', ('arg', 'CreatePkt', 1)) or atom[1] == ('arg', 'CreatePkt', 3) or \
            flag(atom, 'ConfigNode', 'Flags') == (('arg', 'CreatePkt', 1), s.NOPW)

    def event(s, eng, st, i, t, args, fr):
        if t == 'memset' or t == 'strncpy':
            b, o = split(args[0], C0)
            if b in s.hdr and o == 26:
                pw = t == 'strncpy'
                if pw:
                    for k in range(27, 34):
                        s.put(st, f'hdr[{k}]', s.desc(args[1]))
                if pw and args[2] != ('c', 8):
                    eng.report('header of a new packet: length of the password', 'the password field of the packet header has 8 bytes', st, i, fr)
                st.ts = frozenset(x for x in st.ts if x[0] != 'password') | ({('password', 1)} if pw else set())
        if t != 'pktWrite' or args[2] != ('c', 58):
            return None
        s.require(eng, st, i, fr, s.allowed, 'the packet header is written')
        k = 'header of a new packet: the password is the one configured for the node'
        s.ctx.oblige(k, locstr(i))
        node = st.truth(('nz', ('arg', 'CreatePkt', 1)))
        echo = st.truth(('eq', ('arg', 'CreatePkt', 3), ('c', s.ECHO)))
        if s.ECHO == 0 and st.truth(('nz', ('arg', 'CreatePkt', 3))) is not None:
            echo = not st.truth(('nz', ('arg', 'CreatePkt', 3)))
        nopw = next((v for a, v in st.facts.items() if flag(a, 'ConfigNode', 'Flags') == (('arg', 'CreatePkt', 1), s.NOPW)), None)
        has = ('password', 1) in st.ts
        if has and (node is not True or echo is not True and nopw is not False):
            eng.report(k, 'a password is put in the header although none should be sent', st, i, fr)
        if not has and node is not False and not (echo is False and nopw is True):
            eng.report(k, 'the packet password of the node is missing', st, i, fr)
        return None


class MsgHead(Fields):
    """the header of a message in a packet, and the strings that follow"""
    label = 'header of a message in a packet'

    def __init__(s, p, fn):
        s.p = p
        s.roles = {h: 'hdr' for h in header_buffers(p, fn, 'pktWrite', 1, 14)}
        m = {'from': 'MemMessage.OrigNode', 'to': 'MemMessage.DestNode', 'attr': 'MemMessage.Attr', 'cost': 'MemMessage.Cost'}
        s.allowed = {f'hdr[{o}]': {'.'.join([m.get(v.split('.')[0], v.split('.')[0])] + v.split('.')[1:])} for o, v in MSG.items()}

    def event(s, eng, st, i, t, args, fr):
        stage = next((x[1] for x in st.ts if x[0] == 'stage'), None)
        if t == 'pktWrite' and s.desc(args[1]) == 'hdr':
            s.require(eng, st, i, fr, s.allowed, 'the message header is written')
            st.ts = st.ts - {('stage', stage)} | {('stage', 0)}
        elif t == 'WriteNull':
            d = s.desc(args[1])
            k = 'header of a message in a packet: order of date, receiver, sender, subject'
            s.ctx.oblige(k, locstr(i))
            if stage is None or stage > 3 or d != 'MemMessage.' + STRINGS[stage]:
                eng.report(k, f'{d} is written at the wrong place', st, i, fr)
            else:
                st.ts = st.ts - {('stage', stage)} | {('stage', stage + 1)}
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and v != C0:
            k = 'header of a message in a packet: complete'
            s.ctx.oblige(k, locstr(i))
            if ('stage', 4) not in st.ts:
                eng.report(k, 'a message header without all its strings is written', st, i, fr)


def header_buffers(p, fn, callee, arg, size):
    """the local or global buffers of fn that are passed to callee with this size"""
    f = p.m.funcs[fn]
    out = set()
    for i in f.insts():
        if i.op == 'call' and i.extra[0] == ('g', callee) and len(i.ops) > arg + 1 and i.ops[arg + 1] == ('c', size):
            v = i.ops[arg]
            d = p.defs(f).get(v[1]) if v[0] == 'v' else None
            while d is not None and d.op in ('gep', 'cast'):
                v = d.ops[0]
                d = p.defs(f).get(v[1]) if v[0] == 'v' else None
            if v[0] == 'v':
                out.add(('al', fn, v[1]))
            elif v[0] == 'g':
                out.add(v)
            elif v[0] == 'gep':
                out.add(v[1] if isinstance(v[1], tuple) else ('g', v[1]))
    if not out:
        raise AnalysisBroken(f'{fn}: no header of {size} bytes is passed to {callee}')
    return out


def new_packet(ctx):
    """CreatePkt: when the 58 bytes of the packet header are written, every one of its words was set from the
    part of the address, date or constant the format gives that place, and the password field holds the
    configured packet password exactly when one is to be sent; the packet remembers the same addresses and type"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'CreatePkt', 'putuword')
    r = Create(p, 'CreatePkt')
    r.ECHO, r.NOPW = ctx.const('PKTS_ECHOMAIL'), ctx.const('NODE_NONETMAILPASSWORD')
    ctx.run(p, r, 'CreatePkt', frozenset())
    ctx.floor('header of a new packet', 20)


def new_message(ctx):
    """WriteMsgHeader: the 14 bytes of the message header and then date, receiver, sender and subject, in this order"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'WriteMsgHeader')
    ctx.run(p, MsgHead(p, 'WriteMsgHeader'), 'WriteMsgHeader', frozenset())
    ctx.floor('header of a message in a packet', 7)


class Read(Fields):
    """what ReadPkt takes out of the headers"""
    label = 'header that is read'

    def __init__(s, p, fn):
        s.p, s.fn = p, fn
        f = p.m.funcs[fn]
        s.roles = {}
        for h in header_buffers(p, fn, 'osRead', 1, 58):
            s.roles[h] = 'pkthdr'
        s.msghdr = header_buffers(p, fn, 'osRead', 1, 14)
        for h in s.msghdr:
            s.roles[h] = 'msghdr'
        for role, field in (('orig', 'PktOrig'), ('dest', 'PktDest')):
            for x in al_of_copy(p, f, field):
                if x in s.roles:
                    raise AnalysisBroken('PktOrig and PktDest come from one variable')
                s.roles[x] = role
        s.allowed = {'orig.Zone': {'0', 'pkthdr[46]', 'pkthdr[34]', 'ConfigNode.Node.Zone', 'Config.cfg_DefaultZone'},
                     'orig.Net': {'pkthdr[20]', 'pkthdr[38]'}, 'orig.Node': {'pkthdr[0]'}, 'orig.Point': {'pkthdr[50]', 'none'},
                     'dest.Zone': {'0', 'pkthdr[48]', 'pkthdr[36]', 'Aka.Node.Zone', 'Config.cfg_DefaultZone'},
                     'dest.Net': {'pkthdr[22]'}, 'dest.Node': {'pkthdr[2]'}, 'dest.Point': {'pkthdr[52]', 'none'},
                     'MemMessage.OrigNode.Net': {'msghdr[6]'}, 'MemMessage.OrigNode.Node': {'msghdr[2]'},
                     'MemMessage.DestNode.Net': {'msghdr[8]'}, 'MemMessage.DestNode.Node': {'msghdr[4]'},
                     'MemMessage.OrigNode.Zone': {'orig.Zone'}, 'MemMessage.DestNode.Zone': {'dest.Zone'},
                     'MemMessage.Attr': {'msghdr[10]'}, 'MemMessage.Cost': {'msghdr[12]'}}
        s.head = [x for x in s.allowed if x[:4] in ('orig', 'dest')]
        s.msg = [x for x in s.allowed if x.startswith('Mem')]
        for F in PARTS:
            s.allowed[f'MemMessage.PktOrig.{F}'] = {f'orig.{F}'}
            s.allowed[f'MemMessage.PktDest.{F}'] = {f'dest.{F}'}
            s.msg += [f'MemMessage.PktOrig.{F}', f'MemMessage.PktDest.{F}']

    def words(s, t, out):
        """offsets of the packet header that a term speaks of"""
        if isinstance(t, tuple):
            if t and t[0] == 'call' and t[1] in GET and s.desc(t[2][0]) == 'pkthdr' and t[2][1][0] == 'c':
                out.add(t[2][1][1])
            elif t and t[0] == 'idx' and s.desc(t[1]) == 'pkthdr' and t[2][0] == 'c':
                out.add(t[2][1])
            else:
                for x in t:
                    s.words(x, out)
        return out

    def is_zone(s, t):
        return t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:] == ('Node4D', 'Zone') and s.roles.get(t[1][1]) in ('orig', 'dest')

    def track(s, atom, st):
        return atom[0] == 'nz' and s.is_zone(atom[1]) or bool(s.words(atom, set()) & {20, 46, 50})

    def on_branch(s, eng, st, i, atom, truth, fr):
        w = s.words(atom, set())
        if not truth and w & {40, 41} and w & {44, 45}:
            # no valid copy of the capability word: the header has no points
            for pl in ('orig.Point', 'dest.Point'):
                if (pl, '0') in st.ts:
                    st.ts = st.ts - {(pl, '0')} | {(pl, 'ok')}

    def known(s, st, off, val=None):
        """the state knows the word of the packet header to be val, or not 0 / 0 for val None / 0"""
        for a, v in st.facts.items():
            if s.words(a, set()) == {off}:
                if val and a[0] == 'eq' and a[2] == ('c', val) and v is True:
                    return True
                if val == 0 and a[0] == 'nz' and v is False or val is None and (a[0] == 'nz' and v is True or a[0] == 'eq' and a[2] == C0 and v is False):
                    return True
        return False

    def on_store(s, eng, st, i, a, v, fr):
        pl, d = s.place(a), s.desc(v)
        if d == 'pkthdr[38]' and not (s.known(st, 20, 0xffff) and s.known(st, 50)):
            d = 'the auxiliary net of a packet that is not from a point with net -1'
        elif d in ('pkthdr[34]', 'pkthdr[36]') and not s.known(st, 46, 0):
            d = 'the old zone word of a packet with new ones'
        elif d in ('pkthdr[46]', 'pkthdr[48]') and s.known(st, 46, 0):
            d = 'the new zone word of a packet without one'
        elif pl in ('orig.Zone', 'dest.Zone') and d in ('ConfigNode.Node.Zone', 'Aka.Node.Zone', 'Config.cfg_DefaultZone') and st.truth(('nz', ('ld', a))) is not False:
            d = 'a zone from the configuration although the packet has one'
        s.put(st, pl, d)

    def event(s, eng, st, i, t, args, fr):
        stage = next((x[1] for x in st.ts if x[0] == 'stage'), None)
        if t == 'osRead' and args[1] in s.msghdr:
            s.forget(st, lambda x: x.startswith('Mem') or x == 'stage')
        elif t == 'mmClear':
            s.forget(st, lambda x: x.startswith('Mem') or x == 'stage')
        elif t == 'ReadNull':
            n = 0 if stage is None else stage
            d = s.desc(args[0])
            k = 'header that is read: order of date, receiver, sender, subject'
            s.ctx.oblige(k, locstr(i))
            if n > 3 or d != 'MemMessage.' + STRINGS[n]:
                eng.report(k, f'{d} is read from the wrong place', st, i, fr)
            else:
                st.ts = st.ts - {('stage', stage)} | {('stage', n + 1)}
        elif t == '?' and len(args) == 1 or t in s.handlers:
            s.require(eng, st, i, fr, s.head + s.msg, 'a message is handled')
            k = 'header that is read: complete'
            s.ctx.oblige(k, locstr(i))
            if stage != 4:
                eng.report(k, 'a message is handled before its date, receiver, sender and subject were read', st, i, fr)
        return None


def read_packet(ctx):
    """ReadPkt: when a message is handled, the addresses of the packet come from the words of the packet header that
    hold them (or from the configuration where the header has no zone), and those of the message, its attributes and
    cost from the words of its own header; date, receiver, sender and subject are read in this order"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'ReadPkt', 'getuword', 'ReadNull')
    r = Read(p, 'ReadPkt')
    r.handlers = set()
    for i in p.m.funcs['ReadPkt'].insts():
        if i.op == 'call' and i.extra[0][0] == 'v':
            r.handlers |= set(p.call_targets(p.m.funcs['ReadPkt'], i))
    ctx.run(p, r, 'ReadPkt', frozenset())
    ctx.floor('header that is read', 20)



# ---------------------------------------------------------------- primitives

def bytes_of(t, base):
    """the value t as a sum of bytes of the object at base: {offset: factor}, offsets relative to the second argument"""
    if t[0] == 'bin' and t[1] in ('add', 'or'):
        a, b = bytes_of(t[2], base), bytes_of(t[3], base)
        if a is None or b is None or set(a) & set(b):
            return None
        return {**a, **b}
    if t[0] == 'bin' and t[1] in ('mul', 'shl'):
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0] == 'c' and (t[1] == 'mul' or y is t[3]):
                a = bytes_of(x, base)
                return None if a is None else {k: v * (y[1] if t[1] == 'mul' else 1 << y[1]) for k, v in a.items()}
        return None
    if t[0] == 'bin' and t[1] == 'and' and t[3] in (('c', 255), ('c', 65535)):
        return bytes_of(t[2], base)
    if t[0] == 'ld':
        o = offset_of(t[1], base)
        return None if o is None else {o: 1}
    return None


def offset_of(a, base):
    """k if address a is base + (second argument) + k"""
    arr, off = ('arg', base, 0), ('arg', base, 1)
    k, seen = 0, False
    while a != arr:
        if a[0] not in ('idx', 'off'):
            return None
        x = a[2]
        while x[0] == 'bin' and x[1] in ('add', 'sub') and x[3][0] == 'c':
            k += x[3][1] if x[1] == 'add' else -x[3][1]
            x = x[2]
        if x == off and not seen:
            seen = True
        elif x[0] == 'c':
            k += x[1]
        else:
            return None
        a = a[1]
    return k if seen else None


def byte_of(t, v):
    """k if t is byte k of v (the low one after truncation)"""
    k = 0
    while t != v:
        if t[0] != 'bin' or t[3][0] != 'c':
            return None
        c = t[3][1]
        if t[1] in ('srem', 'urem') and c == 256 or t[1] == 'and' and c == 255:
            pass
        elif t[1] in ('sdiv', 'udiv') and c in (256, 65536, 1 << 24):
            k += {256: 1, 65536: 2, 1 << 24: 3}[c]
        elif t[1] in ('lshr', 'ashr') and c % 8 == 0:
            k += c // 8
        else:
            return None
        t = t[2]
    return k


class Prim(Rule):
    correlate = False

    def __init__(s, fn, size, put):
        s.fn, s.size, s.put = fn, size, put
        s.key = f'{fn}: little-endian number of {size} bytes'

    def on_store(s, eng, st, i, a, v, fr):
        if not s.put or a[0] == 'al':
            return
        o, b = offset_of(a, s.fn), byte_of(v, ('arg', s.fn, 2))
        if o is None or o != b:
            eng.report(s.key, f'byte {b} of the number is stored at {o}', st, i, fr)
        else:
            st.ts = st.ts | {o}

    def on_call(s, eng, st, i, t, args, fr):
        if s.put and t in ('memcpy', 'memmove'):
            if offset_of(args[0], s.fn) != 0 or args[2] != ('c', s.size) or args[1][0] != 'al':
                eng.report(s.key, 'the number is copied to the wrong place', st, i, fr)
            else:
                st.ts = st.ts | set(range(s.size))
        return None

    def on_ret(s, eng, st, i, v, fr):
        s.ctx.oblige(s.key, locstr(i))
        if s.put:
            if st.ts != frozenset(range(s.size)):
                eng.report(s.key, 'a byte of the number is not stored', st, i, fr)
        else:
            b = bytes_of(v, s.fn)
            if b == {0: 1} and v[0] == 'ld' and s.width(fr) == s.size:
                return
            if b != {k: 256 ** k for k in range(s.size)}:
                eng.report(s.key, 'the bytes of the number are put together in another order', st, i, fr)

    def width(s, fr):
        for i in fr.fn.insts():
            if i.op == 'load' and i.ty in ('i16', 'i32'):
                return int(i.ty[1:]) // 8
        return 0


def primitives(ctx):
    """the functions that store and fetch numbers of two and four bytes do so low byte first, at the given offset"""
    for prog in ('crashmail', 'crashwrite', 'crashlist', 'crashgetnode', 'crashexport'):
        p = ctx.prog(prog)
        for tab, put in ((PUT, True), (GET, False)):
            for fn, n in tab.items():
                if fn in p.m.funcs and (not fn.startswith('jam') or prog in ('crashmail', 'crashexport')):
                    ctx.run(p, Prim(fn, n, put), fn, frozenset())
    ctx.floor('', 8)


# ---------------------------------------------------------------- *.msg

STORED = (('From', 0), ('To', 36), ('Subject', 72), ('DateTime', 144), ('TimesRead', 164), ('DestNode', 166), ('OrigNode', 168), ('Cost', 170), ('OrigNet', 172),
          ('DestNet', 174), ('DestZone', 176), ('OrigZone', 178), ('DestPoint', 180), ('OrigPoint', 182), ('ReplyTo', 184), ('Attr', 186), ('NextReply', 188))


def firstchar(a, F):
    """a is the address of the first character of this string of the message"""
    return fld(a, 'MemMessage', F) is not None


def empty_area(st):
    """the message is netmail: True, False, None if not known"""
    for a, v in st.facts.items():
        x = a[1]
        if a[0] == 'nz' and x[0] == 'ld' and firstchar(x[1], 'Area'):
            return not v
        if a[0] == 'nz' and call(x, ('strlen', 'strcmp')) and firstchar(x[2][0], 'Area'):
            return not v
    return None


class StoreMsg(Fields):
    label = '*.msg message that is written'

    def __init__(s, p, fn):
        s.p = p
        s.allowed = {f'StoredMsg.{x}': {f'MemMessage.{x}'} for x in ('From', 'To', 'Subject', 'DateTime', 'Cost', 'Attr')}
        s.allowed.update({f'StoredMsg.{x}': {'0'} for x in ('TimesRead', 'ReplyTo', 'NextReply')})
        for x in ('Dest', 'Orig'):
            for F in PARTS:
                s.allowed[f'StoredMsg.{x}{F}'] = {f'MemMessage.{x}Node.{F}', '0'}

    def track(s, atom, st):
        return contains_field(atom, 'MemMessage', 'Area')

    def on_store(s, eng, st, i, a, v, fr):
        pl, d = s.place(a), s.desc(v)
        if pl[:14] in ('StoredMsg.Dest', 'StoredMsg.Orig') and d == '0' and empty_area(st) is not False:
            d = '0 although the message is netmail'
        s.put(st, pl, d)

    def event(s, eng, st, i, t, args, fr):
        if t == 'osWrite' and args[2] == ('c', 190):
            s.require(eng, st, i, fr, s.allowed, 'the header is written')


def contains_field(t, S, F):
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == 'fld' and t[2:] == (S, F):
            return True
        return any(contains_field(x, S, F) for x in t)
    return False


class LoadMsg(Fields):
    label = '*.msg message that is read'

    def __init__(s, p, fn, mask):
        s.p, s.fn = p, fn
        s.allowed = {f'MemMessage.{x}': {f'StoredMsg.{x}'} for x in ('From', 'To', 'Subject', 'DateTime', 'Cost')}
        s.allowed['MemMessage.Attr'] = {f'StoredMsg.Attr and {mask}'}
        s.allowed['MemMessage.Area'] = {'Area.Tagname', "''"}
        for x in ('Dest', 'Orig'):
            for F in ('Net', 'Node'):
                s.allowed[f'MemMessage.{x}Node.{F}'] = {f'StoredMsg.{x}{F}'}
        s.needs = list(s.allowed)
        for x in ('Dest', 'Orig'):
            s.allowed[f'MemMessage.{x}Node.Zone'] = {f'Aka.Node.Zone', f'StoredMsg.{x}Zone'}

    def track(s, atom, st):
        return s.areatype(atom)

    def areatype(s, atom):
        return atom[0] == 'eq' and ldfld(atom[1], 'Area', 'AreaType') is not None

    def put(s, st, place, value):
        if place == 'MemMessage.Area':
            net = next((v for a, v in st.facts.items() if s.areatype(a) and a[2] == ('c', s.NETMAIL)), None)
            if value == "''" and net is not True or value == 'Area.Tagname' and net is not False:
                value = f'{value} although the area is {"" if net else "not "}the netmail area'
        Fields.put(s, st, place, value)

    def event(s, eng, st, i, t, args, fr):
        if t in s.handlers:
            s.require(eng, st, i, fr, s.needs, 'a message is handled')
            have = dict(st.ts)
            for x in ('Dest', 'Orig'):
                pl = f'MemMessage.{x}Node.Zone'
                if have.get(pl, 'ok') != 'ok':
                    eng.report(f'{s.label}: {pl}', f'{pl} gets {have[pl]}', st, i, fr)


def indirect(p, fn):
    f = p.m.funcs[fn]
    out = set()
    for i in f.insts():
        if i.op == 'call' and i.extra[0][0] == 'v':
            out |= set(p.call_targets(f, i))
    if not out:
        raise AnalysisBroken(f'{fn} hands its messages to nobody')
    return out


def sent_mask(ctx):
    m = 0
    for x in ('PVT', 'CRASH', 'FILEATTACH', 'FILEREQ', 'RREQ', 'IRRR', 'AUDIT', 'HOLD'):
        m |= ctx.const('FLAG_' + x)
    return m


def stored(ctx):
    """msg_WriteMSG and msg_ExportMSGNum: the header of a *.msg message holds the sender, receiver, subject, date, attributes,
    cost and (netmail) addresses of the message, each in the field of its name, and is read back the same way; the
    fields lie where FTS-0001 puts them"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'msg_WriteMSG', 'msg_ExportMSGNum')
    ctx.run(p, StoreMsg(p, 'msg_WriteMSG'), 'msg_WriteMSG', frozenset())
    r = LoadMsg(p, 'msg_ExportMSGNum', sent_mask(ctx))
    r.NETMAIL = ctx.const('AREATYPE_NETMAIL')
    r.handlers = indirect(p, 'msg_ExportMSGNum')
    ctx.run(p, r, 'msg_ExportMSGNum', frozenset())
    fs = layout(p, 'StoredMsg')
    for n, o in STORED:
        k = f'*.msg header: place of {n}'
        ctx.oblige(k, 'StoredMsg')
        if fs.get(n) != o:
            ctx.finding(k, f'{n} lies at {fs.get(n)} instead of {o}', 'StoredMsg')
    ctx.floor('*.msg', 40)


def layout(p, S):
    """{field: offset} of a struct"""
    nm = 'struct.' + S
    out, o = {}, 0
    for k, ty in enumerate(p.m.types[nm][1] if p.m.types[nm][0] == 'struct' else p.m.types[nm]):
        sz, al = size_of(ty)
        o = (o + al - 1) // al * al
        out[p.m.fname(nm, k)] = o
        o += sz
    return out


def size_of(ty):
    if ty == 'ptr':
        return 8, 8
    if isinstance(ty, str) and ty[0] == 'i':
        n = int(ty[1:]) // 8
        return n, n
    if ty[0] == 'arr':
        n, a = size_of(ty[2])
        return n * ty[1], a
    raise AnalysisBroken(f'size of {ty}')


# ---------------------------------------------------------------- JAM

JAM = {'baseheader': ('s_JamBaseHeader', 1024, {'Signature': 0, 'DateCreated': 4, 'ModCounter': 8, 'ActiveMsgs': 12, 'PasswordCRC': 16, 'BaseMsgNum': 20, 'RSRVD': 24}),
       'msgheader': ('s_JamMsgHeader', 76, {'Signature': 0, 'Revision': 4, 'ReservedWord': 6, 'SubfieldLen': 8, 'TimesRead': 12, 'MsgIdCRC': 16, 'ReplyCRC': 20,
                     'ReplyTo': 24, 'Reply1st': 28, 'ReplyNext': 32, 'DateWritten': 36, 'DateReceived': 40, 'DateProcessed': 44, 'MsgNum': 48, 'Attribute': 52,
                     'Attribute2': 56, 'TxtOffset': 60, 'TxtLen': 64, 'PasswordCRC': 68, 'Cost': 72}),
       'index': ('s_JamIndex', 8, {'UserCRC': 0, 'HdrOffset': 4}),
       'lastread': ('s_JamLastRead', 16, {'UserCRC': 0, 'UserID': 4, 'LastReadMsg': 8, 'HighReadMsg': 12})}
RAW = {'Signature', 'RSRVD'}
WORD = {'Revision', 'ReservedWord', 'LoID', 'HiID'}


class JamStruct(Fields):
    def __init__(s, p, fn, S, tab, size):
        s.p, s.fn = p, fn
        s.label = fn
        s.write = 'write' in fn
        if fn == 'getjamsubfield':
            s.roles = {('arg', fn, 0): 'hdr'}
        else:
            s.roles = {h: 'hdr' for h in header_buffers(p, fn, 'fwrite' if s.write else 'fread', 0, size)}
        s.allowed = {}
        for F, o in tab.items():
            raw = f'hdr[{o}]'
            num = raw if F in WORD or F in RAW else raw + '/4'
            if s.write:
                s.allowed[num] = {f'{S}.{F}'}
            else:
                s.allowed[f'{S}.{F}'] = {num, 'hdr'} if o == 0 and F in RAW else {num}

    def event(s, eng, st, i, t, args, fr):
        if t == 'fwrite':
            s.require(eng, st, i, fr, s.allowed, 'the header is written')

    def on_ret(s, eng, st, i, v, fr):
        if not s.write and v != C0 and fr.caller is None:
            s.require(eng, st, i, fr, s.allowed, 'reading the header succeeds')


def jam_structs(ctx):
    """every number of the JAM headers is written to and read from the offset the JAM format gives it, with its full size"""
    n = 0
    for prog in ('crashmail', 'crashmaint', 'crashexport'):
        p = ctx.prog(prog)
        for nm, (S, size, tab) in JAM.items():
            for kind in ('read', 'write'):
                fn = f'f{kind}jam{nm}'
                if fn in p.m.funcs:
                    n += 1
                    ctx.run(p, JamStruct(p, fn, S, tab, size), fn, frozenset())
        for fn, S in (('fwritejamsavesubfield', 's_JamSaveSubfield'), ('getjamsubfield', 's_JamSubfield')):
            if fn in p.m.funcs:
                n += 1
                tab = {'LoID': 0, 'HiID': 2, 'DatLen': 4}
                ctx.run(p, JamStruct(p, fn, S, tab, 8), fn, frozenset())
    if n < 6:
        raise AnalysisBroken('the functions that read and write JAM headers moved')
    ctx.floor('f', 30)



LINES = {'\x01PID:': 7, '\x01MSGID:': 4, '\x01REPLY:': 5, '\x01FLAGS:': 2003}
DROPPED = {'\x01INTL', '\x01TOPT', '\x01FMPT'}
KLUDGES = {4: '\x01MSGID: ', 5: '\x01REPLY: ', 7: '\x01PID: ', 2000: '\x01', 2001: 'SEEN-BY: ', 2002: '\x01PATH: '}
NAMES = {2: 'From', 3: 'To', 6: 'Subject'}
FLAGS = {4: 1, 0x80: 512, 0x100: 2, 0x20: 128, 0x10: 8, 8: 4, 0x2000: 16, 0x1000: 2048, 1: 256, 0x10000: 4096, 2: 32, 0x40000: 64}


def tail(t):
    """constant at the end of an address of text: 7 for &text[begin+7]"""
    if t[0] in ('idx', 'off'):
        x = t[2]
        if x[0] == 'c':
            return x[1]
        if x[0] == 'bin' and x[1] == 'add' and x[3][0] == 'c':
            return x[3][1]
    return None


def tail_ir(p, f, op):
    """the same for an operand"""
    d = p.defs(f).get(op[1]) if op[0] == 'v' else None
    while d is not None and d.op in ('gep', 'cast'):
        x = d.ops[-1]
        if x[0] == 'c' and x[1]:
            return x[1]
        e = p.defs(f).get(x[1]) if x[0] == 'v' else None
        while e is not None and e.op == 'cast':
            e = p.defs(f).get(e.ops[0][1]) if e.ops[0][0] == 'v' else None
        if e is not None and e.op == 'bin' and e.extra == 'add' and e.ops[1][0] == 'c':
            return e.ops[1][1]
        d = p.defs(f).get(d.ops[0][1]) if d.ops[0][0] == 'v' else None
    return None


class JamImport(Fields):
    """ts: places of the header; ('buf', local) -> what the text in it is; ('line', kludge) the line at hand; ('done', id)"""
    label = 'JAM message that is written'
    keep_consts = False

    def __init__(s, p, fn):
        s.p, s.fn = p, fn
        H = 's_JamMsgHeader.'
        s.allowed = {H + 'Cost': {'MemMessage.Cost'}, H + 'MsgIdCRC': {'crc of MemMessage.MSGID'}, H + 'ReplyCRC': {'crc of MemMessage.REPLY'},
                     H + 'DateWritten': {'time of MemMessage.DateTime, local'}, H + 'DateProcessed': {'now, local'}}
        s.need = list(s.allowed)
        s.allowed[H + 'DateWritten'] |= {'time of MemMessage.DateTime'}
        s.allowed[H + 'DateProcessed'] |= {'now'}

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1][0] == 'ld' and firstchar(atom[1][1], 'Area')

    def desc(s, t):
        c = call(t, 'JAM_Crc32')
        if c:
            return 'crc of ' + super().desc(c[0])
        c = call(t, 'FidoToTime')
        if c:
            return 'time of ' + super().desc(c[0])
        if call(t, 'time'):
            return 'now'
        if t[0] == 'bin' and t[1] == 'sub' and t[3] == GL('jam_utcoffset'):
            return s.desc(t[2]) + ', local'
        return super().desc(t)

    def set(s, st, key, val):
        st.ts = frozenset(x for x in st.ts if x[0] != key) | ({(key, val)} if val is not None else set())

    def get(s, st, key):
        return next((x[1] for x in st.ts if x[0] == key), None)

    def on_branch(s, eng, st, i, atom, truth, fr):
        x = atom[1]
        t, b = tested(atom, truth, 'fidoflagbit', 'MemMessage', 'Attr')
        if t:
            s.set(st, 'bit', b)
        c = call(x, ('strncmp', 'strcmp', 'memcmp')) if atom[0] == 'nz' else None
        if c and len(c) > 1 and c[1][0] == 's' and c[1][1] in set(LINES) | DROPPED:
            if not truth:
                s.set(st, 'line', c[1][1])
        if atom[0] == 'nz' and not truth and x[0] == 'ld':
            for n, F in NAMES.items():
                if firstchar(x[1], F):
                    st.ts = st.ts | {(('done', n), 1)}

    def on_store(s, eng, st, i, a, v, fr):
        if a[0] == 'fld' and a[2:] == ('s_JamMsgHeader', 'Attribute') and v[0] == 'bin' and v[1] == 'or':
            s.attribute(eng, st, i, v[3], fr)
            return
        pl, d = s.place(a), s.desc(v)
        if d == 's_JamMsgHeader.DateWritten, local' or d == 's_JamMsgHeader.DateProcessed, local':
            if d == pl + ', local':
                return
        s.put(st, pl, d)

    def attribute(s, eng, st, i, m, fr):
        k = 'JAM message that is written: attributes'
        s.ctx.oblige(k, locstr(i))
        net = empty_area(st)
        if m == ('c', s.TYPENET) and net is not True or m == ('c', s.TYPEECHO) and net is not False:
            eng.report(k, 'a message is marked as netmail or echomail though it is not', st, i, fr)
        if m in (('c', s.TYPENET), ('c', s.TYPEECHO)):
            s.set(st, 'type', 1)
        b = bit_of(m, 'jamflagbit')
        if b is not None and s.get(st, 'bit') != b:
            eng.report(k, 'an attribute is set that the message does not have', st, i, fr)
        if b is not None:
            s.ctx.oblige('JAM message that is written: attributes by the table', locstr(i))
            s.set(st, 'bit', None)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'Print4D':
            s.set(st, ('buf', args[1]), 'text of ' + s.desc(args[0]))
        elif t in COPY and args[0][0] == 'al' and t != 'strcat':
            o = tail(args[1])
            if o is None:
                o = tail_ir(s.p, fr.fn, i.ops[1])
            s.set(st, ('buf', args[0]), f'line from {o}' if o is not None else s.desc(args[1]))
        elif t == 'jam_addfield' and args[1][0] == 'c':
            s.field(eng, st, i, args[1][1], args[2], fr)
        elif t == 'JAM_AddMessage':
            s.require(eng, st, i, fr, s.need, 'the message is written')
            k = 'JAM message that is written: complete'
            s.ctx.oblige(k, locstr(i))
            net = empty_area(st)
            want = {0} | ({1} if net is not False else set()) | set(NAMES)
            lost = [n for n in want if (('done', n), 1) not in st.ts]
            if lost:
                eng.report(k, 'the message is written without ' + ', '.join({0: 'the address of its sender', 1: 'the address of its receiver'}.get(n) or NAMES[n] for n in lost), st, i, fr)
            if s.get(st, 'type') is None:
                eng.report(k, 'the message is written without its type', st, i, fr)
        return super().on_call(eng, st, i, t, args, fr)

    def field(s, eng, st, i, n, src, fr):
        k = f'JAM message that is written: subfield {n}'
        s.ctx.oblige(k, locstr(i))
        d = s.get(st, ('buf', src)) or s.desc(src)
        line = s.get(st, 'line')
        bad = None
        if n in NAMES:
            bad = d != 'MemMessage.' + NAMES[n]
        elif n == 0:
            bad = d != ('text of MemMessage.OrigNode' if empty_area(st) is not False else 'text of MemMessage.Origin4D')
        elif n == 1:
            bad = d != 'text of MemMessage.DestNode'
        elif n in (4, 5, 7):
            text = next(x for x, y in LINES.items() if y == n)
            bad = line != text or d != f'line from {len(text)}'
        elif n == 2003:
            bad = line != '\x01FLAGS:'
        elif n == 2000:
            bad = d != 'line from 1'
        if bad:
            eng.report(k, f'subfield {n} gets {d}' + (f' in the case of {line!r}' if n > 3 and n != 6 else ''), st, i, fr)
        if n in NAMES or n in (0, 1):
            st.ts = st.ts | {(('done', n), 1)}
        if n in (4, 5, 7, 2000, 2003):
            s.set(st, 'line', None)
        st.ts = frozenset(x for x in st.ts if not (isinstance(x[0], tuple) and x[0][0] == 'buf'))


def tested(atom, truth, F, S, G):
    """the entry of the table whose bit F the member G of S is tested for, None if it is not there: (it is a test, entry)"""
    x = atom[1]
    if atom[0] == 'eq' and x[0] != 'bin':
        atom = ('eq', atom[2], x)
        x = atom[1]
    if x[0] == 'bin' and x[1] == 'and' and (atom[0] == 'nz' or atom[0] == 'eq' and atom[2] in x[2:]) and any(ldfld(y, S, G) is not None for y in x[2:]):
        for y in x[2:]:
            b = bit_of(y, F)
            if b is not None:
                return True, b if truth else None
    return False, None


def bit_of(t, F):
    """the entry of the table of flags whose F this is"""
    if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2:] == ('flag', F):
        return t[1][1]
    return None


# ---------------------------------------------------------------- control lines

TEMPLATE = {'INTL': '\x01INTL #:#/# #:#/#\r', 'FMPT': '\x01FMPT #\r', 'TOPT': '\x01TOPT #\r'}
HOLDS = {'INTL': [('dest', 'Zone'), ('dest', 'Net'), ('dest', 'Node'), ('orig', 'Zone'), ('orig', 'Net'), ('orig', 'Node')],
         'FMPT': [('orig', 'Point')], 'TOPT': [('dest', 'Point')]}
PRINTF = {'sprintf': (1, 0), 'osFPrintf': (1, None), 'fprintf': (1, None), 'snprintf': (2, 0)}


def formatted(t, args):
    """(text with # for every number, numbers) of a printf whose format and strings are constant, else None"""
    k = PRINTF[t][0]
    if len(args) <= k or args[k][0] != 's':
        return None
    fmt, rest, out, nums = args[k][1], list(args[k + 1:]), '', []
    while fmt:
        m = re.match(r'%[-0-9]*(?:hh|h|l|ll)?([a-zA-Z%])', fmt)
        if not m:
            out, fmt = out + fmt[0], fmt[1:]
            continue
        fmt = fmt[m.end():]
        if m.group(1) == '%':
            out += '%'
        elif not rest:
            return None
        else:
            x = rest.pop(0)
            if m.group(1) == 's':
                if x[0] != 's':
                    return None
                out += x[1]
            else:
                out += '#'
                nums.append(x)
    return out, nums


class Control:
    """mixin: ts ('text', buffer) -> control line in it, ('kl', line) -> it was added or is not needed"""
    who = {'dest': ('MemMessage.DestNode.',), 'orig': ('MemMessage.OrigNode.',)}

    def control(s, eng, st, i, t, args, fr):
        if t in PRINTF:
            f = formatted(t, args)
            if f is None:
                return
            name = f[0][1:5] if f[0][:1] == '\x01' else None
            buf = PRINTF[t][1]
            if buf is not None:
                st.ts = frozenset(x for x in st.ts if x[0] != ('text', args[buf]))
            if name not in TEMPLATE:
                return
            k = f'control lines: {name}'
            s.ctx.oblige(k, locstr(i))
            if f[0] != TEMPLATE[name]:
                eng.report(k, f'the line has the form {f[0]!r}', st, i, fr)
                return
            for (who, F), x in zip(HOLDS[name], f[1]):
                d = s.desc(x)
                if not any(d == w + F for w in s.who[who]):
                    eng.report(k, f'{d} is written as the {F} of the {"receiver" if who == "dest" else "sender"}', st, i, fr)
            if buf is None:
                st.ts = st.ts | {(('kl', name), 1)}
            else:
                st.ts = st.ts | {(('text', args[buf]), name)}
        elif t in ('mmAddBuf', 'mmAddLine'):
            for x in st.ts:
                if x[0] == ('text', args[1]):
                    st.ts = st.ts - {x} | {(('kl', x[1]), 1)}

    def unneeded(s, st, atom, truth):
        """what a branch says about the need for control lines"""
        if atom[0] == 'nz' and not truth:
            d = s.desc(atom[1])
            for line, who in (('FMPT', 'orig'), ('TOPT', 'dest')):
                if any(d == w + 'Point' for w in s.who[who]):
                    st.ts = st.ts | {(('kl', line), 1)}
            fl = atom[1]
            if fl[0] == 'bin' and fl[1] == 'and' and fl[3] == ('c', s.FORCE) and s.desc(fl[2]) == 'Config.cfg_Flags':
                s.zones(st, 'noforce')
        if atom[0] == 'eq' and truth:
            d = {s.desc(atom[1]), s.desc(atom[2])}
            if any({a + 'Zone', b + 'Zone'} == d for a in s.who['dest'] for b in s.who['orig']):
                s.zones(st, 'same')

    def zones(s, st, what):
        st.ts = st.ts | {(what, 1)}
        if {('same', 1), ('noforce', 1)} <= st.ts:
            st.ts = st.ts - {('same', 1), ('noforce', 1)} | {(('kl', 'INTL'), 1)}

    def lines(s, eng, st, i, fr, which=('FMPT', 'TOPT', 'INTL')):
        for line in which:
            k = f'control lines: {line} is there when it is needed'
            s.ctx.oblige(k, locstr(i))
            if (('kl', line), 1) not in st.ts:
                eng.report(k, f'netmail is left without {line}', st, i, fr)


class JamExport(Control, Fields):
    """ts: ('case', id) the subfield at hand, ('did', 1), ('buf', local) filled from it, ('addr', 1) an address was parsed from it"""
    label = 'JAM message that is read'
    keep_consts = False
    max_states = 600

    def __init__(s, p, fn, mask):
        s.p, s.fn = p, fn
        s.mask = mask
        s.allowed = {'MemMessage.Cost': {'s_JamMsgHeader.Cost'}, 'MemMessage.Area': {'Area.Tagname', "''"}}
        s.need = list(s.allowed)

    areatype = LoadMsg.areatype

    def track(s, atom, st):
        return s.areatype(atom)

    def put(s, st, place, value):
        LoadMsg.put(s, st, place, value)

    set, get = JamImport.set, JamImport.get

    def on_branch(s, eng, st, i, atom, truth, fr):
        t, b = tested(atom, truth, 'jamflagbit', 's_JamMsgHeader', 'Attribute')
        if t:
            s.set(st, 'bit', b)
        s.unneeded(st, atom, truth)
        if truth and (atom[0] == 'eq' and atom[2][0] == 'c' or atom[0] == 'nz'):
            d = s.desc(atom[1])
        elif not truth and atom[0] == 'nz':
            d = s.desc(atom[1])
        else:
            return
        if d == 's_JamSubfield.LoID':
            if atom[0] == 'eq':
                s.set(st, 'case', atom[2][1])
            elif not truth:
                s.set(st, 'case', 0)
        c = call(atom[1], ('Parse5D', 'Parse4D')) if atom[0] == 'nz' else None
        if c and truth:
            s.set(st, 'addr', 1 if s.get(st, ('buf', c[0])) == 'field' else None)

    def say(s, eng, st, i, fr, place, d):
        k = f'JAM message that is read: {place}'
        s.ctx.oblige(k, locstr(i))
        eng.report(k, f'{place} gets {d} in the case of subfield {s.get(st, "case")}', st, i, fr)

    def on_store(s, eng, st, i, a, v, fr):
        pl, d = s.place(a), s.desc(v)
        if pl == 'MemMessage.Attr' and v[0] == 'bin':
            k = 'JAM message that is read: attributes'
            s.ctx.oblige(k, locstr(i))
            b = bit_of(v[3], 'fidoflagbit') or bit_of(v[2], 'fidoflagbit')
            if v[1] == 'or' and b is not None:
                s.ctx.oblige('JAM message that is read: attributes by the table', locstr(i))
                if s.get(st, 'bit') != b:
                    eng.report(k, 'an attribute is set that the message does not have', st, i, fr)
                s.set(st, 'bit', None)
            elif v[1] == 'and':
                if v[3] != ('c', s.mask):
                    eng.report(k, 'the attributes that are kept when a message is sent are not those of the format', st, i, fr)
                s.set(st, 'masked', 1)
        for n, x in ((0, 'OrigNode'), (1, 'DestNode')):
            if pl.startswith(f'MemMessage.{x}.'):
                F = pl.split('.')[-1]
                s.ctx.oblige(f'JAM message that is read: {pl}', locstr(i))
                if s.get(st, 'case') != n or not s.get(st, 'addr') or not (v[0] == 'ld' and v[1][0] == 'fld' and v[1][1][0] == 'al' and v[1][3] == F):
                    s.say(eng, st, i, fr, pl, d)
                else:
                    st.ts = st.ts | {(('part', F), n)}
                    if all((('part', G), n) in st.ts for G in PARTS):
                        s.set(st, 'did', 1)
        s.put(st, pl, d)

    def on_call(s, eng, st, i, t, args, fr):
        case = s.get(st, 'case')
        s.control(eng, st, i, t, args, fr)
        if t == 'JAM_GetSubfield':
            if case is not None:
                s.ended(eng, st, i, fr, case)
            st.ts = frozenset(x for x in st.ts if x[0] not in ('case', 'did', 'addr') and not (isinstance(x[0], tuple) and x[0][0] in ('buf', 'part')))
        elif t in ('Copy4D',) and s.desc(args[0]) in ('MemMessage.OrigNode', 'MemMessage.DestNode'):
            n = 0 if s.desc(args[0]) == 'MemMessage.OrigNode' else 1
            if case != n or not s.get(st, 'addr') or args[1][0] != 'al':
                s.say(eng, st, i, fr, s.desc(args[0]), s.desc(args[1]))
            else:
                s.set(st, 'did', 1)
        elif t in COPY:
            d = s.desc(args[0])
            src = 'field' if s.desc(args[1]) == 's_JamSubfield.Buffer' or s.get(st, ('buf', args[1])) == 'field' else s.desc(args[1])
            root = addr_root(args[0])
            if root[0] == 'al':
                s.set(st, ('buf', args[0]), src)
                if src == 'field' and case == 2003 and tail(args[0]) == 8:
                    s.set(st, 'did', 1)
            for n, F in NAMES.items():
                if d == 'MemMessage.' + F:
                    s.ctx.oblige(f'JAM message that is read: {d}', locstr(i))
                    if case == n and src == 'field':
                        s.set(st, 'did', 1)
                    elif not (F == 'Subject' and case is None and root != args[1]):
                        s.say(eng, st, i, fr, d, src)
        elif t == 'jam_makekludge':
            k = f'JAM message that is read: subfield {case}'
            s.ctx.oblige(k, locstr(i))
            if case not in KLUDGES or args[1] != ('s', KLUDGES[case]) or s.desc(args[2]) != 's_JamSubfield.Buffer' or s.desc(args[3]) != 's_JamSubfield.DatLen':
                eng.report(k, f'subfield {case} becomes a line starting {args[1][1]!r}', st, i, fr)
            else:
                s.set(st, 'did', 1)
        elif t == 'MakeFidoDate' and s.desc(args[1]) == 'MemMessage.DateTime':
            k = 'JAM message that is read: date'
            s.ctx.oblige(k, locstr(i))
            x = args[0]
            ok = x[0] == 'bin' and x[1] == 'add' and GL('jam_utcoffset') in x[2:] and any(s.desc(y) == 's_JamMsgHeader.DateWritten' for y in x[2:])
            if not ok:
                eng.report(k, 'the date of the message is not the one it was written', st, i, fr)
            else:
                s.set(st, 'date', 1)
        elif t in s.handlers:
            s.require(eng, st, i, fr, s.need, 'a message is handled')
            k = 'JAM message that is read: date'
            if not s.get(st, 'date'):
                eng.report(k, 'a message is handled without its date', st, i, fr)
            if any(v is True and s.areatype(a) and a[2] == ('c', s.NETMAIL) for a, v in st.facts.items()):
                s.lines(eng, st, i, fr)
            if not s.get(st, 'masked'):
                eng.report('JAM message that is read: attributes', 'a message is handled with the attributes of the message base', st, i, fr)
        return super().on_call(eng, st, i, t, args, fr)

    def ended(s, eng, st, i, fr, case):
        if case in KLUDGES or case in NAMES or case == 2003:
            k = f'JAM message that is read: subfield {case} is used'
            s.ctx.oblige(k, locstr(i))
            if not s.get(st, 'did'):
                eng.report(k, f'subfield {case} does not reach the message', st, i, fr)
        if case in (0, 1) and s.get(st, 'addr') and not s.get(st, 'did'):
            eng.report(f'JAM message that is read: subfield {case} is used', f'a part of the address in subfield {case} does not reach the message', st, i, fr)


def jam_messages(ctx):
    """jam_importfunc and jam_ExportJAMNum: sender, receiver, subject, addresses, message and reply identification, program,
    flags, seen-by and path lines go to the subfield of their kind and come back from it; date, cost and attributes
    go through the header; the table that relates the two sets of attributes is the one of the two formats"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'jam_importfunc', 'jam_ExportJAMNum', 'jam_addfield', 'jam_makekludge')
    r = JamImport(p, 'jam_importfunc')
    r.TYPENET, r.TYPEECHO = ctx.const('MSG_TYPENET'), ctx.const('MSG_TYPEECHO')
    ctx.run(p, r, 'jam_importfunc', frozenset())
    r = JamExport(p, 'jam_ExportJAMNum', sent_mask(ctx))
    r.NETMAIL, r.FORCE = ctx.const('AREATYPE_NETMAIL'), ctx.const('CFG_FORCEINTL')
    r.handlers = indirect(p, 'jam_ExportJAMNum')
    ctx.run(p, r, 'jam_ExportJAMNum', frozenset())
    g = p.m.globals.get('jam_flagarray')
    if g is None:
        raise AnalysisBroken('the table of attributes moved')
    seen = {}
    for e in g[1][1]:
        if e[0] == 'agg' and len(e[1]) == 3 and e[1][1][0] == 'c' and e[1][1][1] and e[1][2][0] == 'c' and e[1][2][1]:
            seen[e[1][1][1]] = e[1][2][1]
    for a, b in FLAGS.items():
        k = f'JAM attributes: {a:#x} and {b:#x} mean the same'
        ctx.oblige(k, 'jam_flagarray')
        if seen.get(a) != b:
            ctx.finding(k, f'{a:#x} is taken for {seen.get(a, 0):#x}', 'jam_flagarray')
    ctx.floor('JAM', 40)
    for x in ('read', 'written'):
        if f'JAM message that is {x}: attributes by the table' not in ctx.obligations:
            raise AnalysisBroken('the attributes no longer come from the table')


class Kludges(Control, Fields):
    """MakeNetmailKludges, and any other function that writes a control line"""
    label = 'control lines'

    def __init__(s, p, must):
        s.p, s.must = p, must
        if not must:
            s.who = {'dest': ('MemMessage.DestNode.', 'StoredMsg.Dest'), 'orig': ('MemMessage.OrigNode.', 'StoredMsg.Orig')}

    def on_branch(s, eng, st, i, atom, truth, fr):
        if s.must:
            s.unneeded(st, atom, truth)

    def on_store(s, eng, st, i, a, v, fr):
        pass

    def on_call(s, eng, st, i, t, args, fr):
        s.control(eng, st, i, t, args, fr)

    def on_ret(s, eng, st, i, v, fr):
        if s.must and fr.caller is None:
            s.lines(eng, st, i, fr)


class Process(Fields):
    """ProcessKludge; ts ('line', text), ('parsed', n), ('parse', n) successful, ('first', offset), ('set', place)"""
    label = 'control lines that are read'
    keep_consts = True
    KEYS = {'\x01MSGID:': 'MSGID', '\x01REPLY:': 'REPLY', '\x01FMPT': 'OrigNode.Point', '\x01TOPT': 'DestNode.Point', '\x01INTL': None, '\x01RESCANNED': None}

    def __init__(s, p, fn):
        s.p, s.fn = p, fn
        s.text = ('arg', fn, 1)

    set, get = JamImport.set, JamImport.get

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1][0] == 'ld' and firstchar(atom[1][1], 'Area') or s.colon(atom)

    def colon(s, atom):
        return atom[0] == 'eq' and atom[1] == ('ld', ('idx', s.text, ('c', 5)))

    def on_branch(s, eng, st, i, atom, truth, fr):
        x = atom[1]
        c = call(x, ('strncmp', 'memcmp')) if atom[0] == 'nz' else None
        if c and c[0] == s.text and c[1][0] == 's':
            k = f'control lines that are read: {c[1][1][1:]} is recognised'
            s.ctx.oblige(k, locstr(i))
            if c[2][0] != 'c' or c[2][1] > len(c[1][1]) or c[2][1] < 5:
                eng.report(k, f'{c[2][1] if c[2][0] == "c" else "?"} characters of {c[1][1]!r} are compared', st, i, fr)
            have = s.get(st, 'line')
            if not truth:
                if have not in (None, c[1][1]):
                    return False
                s.set(st, 'line', c[1][1])
        c = call(x, 'Parse4D') if atom[0] == 'nz' else None
        if c and truth:
            s.set(st, 'parse', (s.get(st, 'parsed') or 0, c[1]))

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'Parse4D':
            s.set(st, 'parsed', (s.get(st, 'parsed') or 0) + 1)
            s.set(st, 'parse', None)
        elif t == 'Copy4D' or t in ('memcpy', 'memmove') and points_to(s.p, args[0]) == 'Node4D':
            d = s.desc(args[0])
            if d.startswith('MemMessage.'):
                eng.report(f'control lines that are read: {d}.Point', 'the point of the address is lost with the line INTL', st, i, fr)
        elif t in COPY:
            d = s.desc(args[0])
            if d in ('MemMessage.MSGID', 'MemMessage.REPLY'):
                s.value(eng, st, i, fr, d[11:], args[1] == ('idx', s.text, ('c', 8)))
            elif args[0][0] == 'al':
                s.set(st, 'first', split(args[1], C0)[1] if split(args[1], C0)[0] == s.text else None)
        return None

    def value(s, eng, st, i, fr, place, ok, why=''):
        k = f'control lines that are read: {place}'
        s.ctx.oblige(k, locstr(i))
        if not ok:
            eng.report(k, f'{place} gets something else' + why, st, i, fr)
        st.ts = st.ts | {(('set', place), 1)}

    def on_store(s, eng, st, i, a, v, fr):
        pl = s.desc(a) if a[0] != 'idx' else s.desc(a[1])
        line = s.get(st, 'line')
        if pl in ('MemMessage.MSGID', 'MemMessage.REPLY'):
            ok = line == f'\x01{pl[11:]}:' and (v == C0 or v[0] == 'ld' and v[1][0] in ('idx', 'off') and addr_root(v[1]) == s.text)
            if ok and a[0] != 'idx' and v != C0 and v[1][2][0] == 'c':
                ok = v[1][2] == ('c', 8)
            s.value(eng, st, i, fr, pl[11:], ok)
        elif pl in ('MemMessage.OrigNode.Point', 'MemMessage.DestNode.Point'):
            c = call(v, ('atoi', 'atol', 'strtol', 'strtoul'))
            s.value(eng, st, i, fr, pl[11:], s.KEYS.get(line) == pl[11:] and empty_area(st) is True and bool(c) and c[0] in (('idx', s.text, ('c', 5)), ('idx', s.text, ('c', 6))))
        elif pl.startswith('MemMessage.OrigNode.') or pl.startswith('MemMessage.DestNode.'):
            F = pl.split('.')[-1]
            n, node = s.get(st, 'parse') or (None, None)
            ok = line == '\x01INTL' and empty_area(st) is True and n == (1 if 'Dest' in pl else 2) and v == ('ld', ('fld', node, 'Node4D', F))
            why = ''
            first = s.get(st, 'first')
            if n == 1 and first is not None:
                fifth = [(x[2], b) for x, b in st.facts.items() if s.colon(x)]
                want = {6, 7} if fifth else set()
                for x, b in fifth:
                    if x == ('c', 58):
                        want &= {7 if b else 6}
                    elif x == ('c', 32) and b:
                        want &= {6}
                if first not in want:
                    ok, why = False, ': the address is taken from the wrong place of the line'
            s.value(eng, st, i, fr, pl[11:], ok, why)
        elif a[0] == 'al' and v[0] == 'ld' and v[1][0] == 'idx' and v[1][1] == s.text and v[1][2][0] == 'c' and s.get(st, 'parsed') is None:
            s.set(st, 'first', v[1][2][1])
        if pl == 'MemMessage.Flags' and line != '\x01RESCANNED':
            s.value(eng, st, i, fr, 'Flags', False)

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        line = s.get(st, 'line')
        want = [s.KEYS.get(line)] if s.KEYS.get(line) else []
        n = s.get(st, 'parsed') or 0
        if line in ('\x01FMPT', '\x01TOPT', '\x01INTL') and empty_area(st) is not True:
            want, n = [], 2
        if line == '\x01INTL':
            p = (s.get(st, 'parse') or (None,))[0]
            if p == 2:
                want = ['OrigNode.' + F for F in PARTS[:3]]
            if n < 2:
                want = ['OrigNode']
        for w in want:
            k = f'control lines that are read: {w} is set'
            s.ctx.oblige(k, locstr(i))
            if (('set', w), 1) not in st.ts:
                eng.report(k, f'{w} is not set from the line {line!r}', st, i, fr)


class DestParts(Process):
    """the first address of INTL is taken completely: all parts are set when the second is parsed"""

    def on_call(s, eng, st, i, t, args, fr):
        p = s.get(st, 'parse')
        if t == 'Parse4D' and p and p[0] == 1 and s.get(st, 'line') == '\x01INTL':
            for F in PARTS[:3]:
                k = f'control lines that are read: DestNode.{F} is set'
                s.ctx.oblige(k, locstr(i))
                if (('set', 'DestNode.' + F), 1) not in st.ts:
                    eng.report(k, f'DestNode.{F} is not set from the line INTL', st, i, fr)
        return super().on_call(eng, st, i, t, args, fr)


class Line(Rule):
    """mmAddLine: lines that start with character 1 are looked at, and the address of the origin line is kept"""
    correlate = False

    def __init__(s, fn):
        s.fn = fn
        s.text = ('arg', fn, 1)

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'eq' and atom[1] == ('ld', s.text) and atom[2] == C1 and not truth:
            st.ts = st.ts | {'plain'}
        c = call(atom[1], ('strncmp', 'memcmp')) if atom[0] == 'nz' else None
        if c and c[0] == s.text and not truth and c[1][0] == 's' and c[1][1][:1] != '\x01':
            st.ts = st.ts | {'plain'}
        if atom[0] == 'nz' and call(atom[1], 'ExtractAddress') and truth:
            st.ts = st.ts | {('origin', atom[1][2][1])}

    def on_store(s, eng, st, i, a, v, fr):
        if a[0] == 'fld' and a[2:] == ('Node4D', 'Zone') and a[1][0] == 'al':
            k = 'lines that are read: zone of the origin'
            s.ctx.oblige(k, locstr(i))
            if st.truth(('nz', ('ld', a))) is not False:
                eng.report(k, 'the zone in the origin line is replaced', st, i, fr)

    def track(s, atom, st):
        return atom[0] == 'nz' and atom[1][0] == 'ld' and atom[1][1][0] == 'fld' and atom[1][1][2:] == ('Node4D', 'Zone')

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'ProcessKludge' and args[1] == s.text:
            st.ts = st.ts | {'plain'}
        elif t == 'Copy4D' and fld(args[0], 'MemMessage', 'Origin4D') is not None:
            st.ts = frozenset(x for x in st.ts if x != ('origin', args[1]))
        elif t == 'mmAddBuf':
            k = 'lines that are read: control lines are looked at'
            s.ctx.oblige(k, locstr(i))
            if 'plain' not in st.ts:
                eng.report(k, 'a control line is added to the message without being looked at', st, i, fr)
            if any(isinstance(x, tuple) for x in st.ts):
                eng.report('lines that are read: origin', 'the address in the origin line is not kept', st, i, fr)


def control_lines(ctx):
    """every control line of netmail that is written names the receiver and sender in the places the format gives them, is there
    unless it says nothing, and is read into the same parts of the addresses (ProcessKludge, mmAddLine)"""
    p = ctx.prog('crashmail')
    ctx.need(p, 'MakeNetmailKludges', 'ProcessKludge', 'mmAddLine')
    r = Kludges(p, True)
    r.FORCE = ctx.const('CFG_FORCEINTL')
    ctx.run(p, r, 'MakeNetmailKludges', frozenset())
    for fn in sorted(control_writers(p) - {'MakeNetmailKludges', 'jam_ExportJAMNum'}):
        ctx.run(p, Kludges(p, False), fn, frozenset())
    ctx.run(p, DestParts(p, 'ProcessKludge'), 'ProcessKludge', frozenset())
    ctx.run(p, Line('mmAddLine'), 'mmAddLine', frozenset())
    ctx.floor('control lines', 10)


def control_writers(p):
    out = set()
    for fn, f in p.m.funcs.items():
        for i in f.insts():
            if i.op == 'call' and i.extra[0][0] == 'g' and i.extra[0][1] in PRINTF:
                for a in i.ops:
                    t = p.string(a[1]) if a[0] == 'g' else None
                    if t is not None and t[:5] in ('\x01INTL', '\x01FMPT', '\x01TOPT'):
                        out.add(fn)
    return out


# ---------------------------------------------------------------- crashwrite

class Arguments(Rule):
    """which argument fills which variable"""
    correlate = False

    def __init__(s, names):
        s.names, s.roles = names, {}

    def name(s, t):
        if t[0] == 'ld':
            t = t[1]
        if t[0] == 'fld' and t[2:] == ('argument', 'data'):
            b = t[1]
            k = b[2][1] if b[0] == 'idx' and b[2][0] == 'c' else 0
            if addr_root(b) == ('g', 'args') and k < len(s.names):
                return s.names[k]
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'Parse4D' and s.name(args[0]):
            s.roles.setdefault(args[1], set()).add(s.name(args[0]))
        elif t in COPY and args[0][0] == 'al' and s.name(args[1]):
            s.roles.setdefault(args[0], set()).add(s.name(args[1]))
        elif t == 'MakeFidoDate':
            s.roles.setdefault(args[1], set()).add('date')


class CrashWrite(Control, Fields):
    label = 'packet that is written by CrashWrite'
    keep_consts = True
    who = {'dest': ('TOADDR.',), 'orig': ('FROMADDR.',)}

    def __init__(s, p, names, roles):
        s.p, s.a = p, Arguments(names)
        s.roles = dict(roles)
        s.hdr = header_buffers(p, 'main', 'osWrite', 1, 58)
        s.mhdr = header_buffers(p, 'main', 'osWrite', 1, 14)
        if s.hdr & s.mhdr:
            raise AnalysisBroken('one buffer holds both headers')
        s.roles.update({h: 'pkthdr' for h in s.hdr})
        s.roles.update({h: 'msghdr' for h in s.mhdr})
        ren = {'orig': 'PKTFROMADDR', 'dest': 'PKTTOADDR', 'from': 'FROMADDR', 'to': 'TOADDR', 'cost': '0'}
        tr = lambda v: '.'.join([ren.get(v.split('.')[0], v.split('.')[0])] + v.split('.')[1:])
        s.allowed = {f'pkthdr[{o}]': {tr(v)} for o, v in PKT.items()}
        s.allowed.update({f'pkthdr[{o}]': None for o in PKTBYTES})
        s.pk = list(s.allowed)
        s.allowed.update({f'msghdr[{o}]': {tr(v)} for o, v in MSG.items()})
        s.mk = [x for x in s.allowed if x.startswith('msghdr')]
        s.need4 = []
        for a, b in (('PKTFROMADDR', 'FROMADDR'), ('PKTTOADDR', 'TOADDR')):
            for F in PARTS:
                s.allowed[f'{a}.{F}'] = {f'{b}.{F}'}
                s.need4.append(f'{a}.{F}')

    def fill(s, st, b, o, n, v):
        Fields.fill(s, st, b, o, n, v)

    def track(s, atom, st):
        return atom[0] == 'nz' and s.a.name(atom[1]) in ('AREA', 'FILEATTACH')

    def given(s, st, name):
        return next((v for a, v in st.facts.items() if a[0] == 'nz' and s.a.name(a[1]) == name), None)

    def on_branch(s, eng, st, i, atom, truth, fr):
        n = s.a.name(atom[1]) if atom[0] == 'nz' else None
        if n in ('FROMADDR', 'TOADDR', 'PKTFROMADDR', 'PKTTOADDR', 'FROMNAME', 'TONAME', 'SUBJECT', 'PASSWORD') and truth:
            st.ts = st.ts | {(('given', n), 1)}
        s.unneeded(st, atom, truth)

    FORCE = 0

    def on_call(s, eng, st, i, t, args, fr):
        s.control(eng, st, i, t, args, fr)
        n = None
        if t == 'Parse4D' and s.a.name(args[0]) == s.roles.get(args[1]):
            n = s.a.name(args[0])
        elif t in COPY and s.a.name(args[1]):
            n = s.a.name(args[1])
            if n == 'PASSWORD':
                b, o = split(args[0], C0)
                if b not in s.hdr or o != 26 or len(args) < 3 or args[2] != ('c', 8):
                    n = None
                    eng.report(f'{s.label}: password', 'the password is not put in its place', st, i, fr)
            elif s.roles.get(args[0]) != n:
                n = None
        if n:
            st.ts = st.ts - {(('given', n), 1)}
        if t == 'putuword' and args[0] in s.mhdr and args[1] == ('c', 10):
            a, f = s.given(st, 'AREA'), s.given(st, 'FILEATTACH')
            v = args[2][1] if args[2][0] == 'c' else None
            ok = v is not None and a is not None and f is not None and v == (0 if a else s.PVT) | (s.FILE if f else 0)
            s.put(st, 'msghdr[10]', 'attr' if ok else s.desc(args[2]))
            return None
        return super().on_call(eng, st, i, t, args, fr)

    def event(s, eng, st, i, t, args, fr):
        stage = next((x[1] for x in st.ts if x[0] == 'stage'), None)
        if t in ('osWrite', 'exit') and (t == 'osWrite' or args[0] == C0 and stage is not None):
            left = sorted(x[0][1] for x in st.ts if x[0][0] == 'given')
            if left:
                eng.report(f'{s.label}: arguments', 'the arguments are not used: ' + ', '.join(left), st, i, fr)
        if t == 'osWrite' and args[1] in s.hdr:
            s.require(eng, st, i, fr, s.pk + s.need4, 'the packet header is written')
            st.ts = frozenset(x for x in st.ts if x[0] not in s.pk and x[0] not in s.need4)
        elif t == 'osWrite' and args[1] in s.mhdr:
            s.require(eng, st, i, fr, s.mk, 'the message header is written')
            st.ts = frozenset(x for x in st.ts if x[0] not in s.mk and x[0] != 'stage') | {('stage', 0)}
        elif t == 'WriteNull':
            k = f'{s.label}: order of date, receiver, sender, subject'
            s.ctx.oblige(k, locstr(i))
            d = s.roles.get(args[1])
            if stage is None or stage > 3 or d != ('date', 'TONAME', 'FROMNAME', 'SUBJECT')[stage]:
                eng.report(k, f'{d} is written at the wrong place', st, i, fr)
            else:
                st.ts = st.ts - {('stage', stage)} | {('stage', stage + 1)}
        elif t == 'exit' and args[0] == C0 and stage is not None:
            k = f'{s.label}: complete'
            s.ctx.oblige(k, locstr(i))
            if stage != 4:
                eng.report(k, 'a packet is left without all strings of the header', st, i, fr)
            if s.given(st, 'AREA') is not True:
                s.lines(eng, st, i, fr)
            elif ('area', 1) not in st.ts:
                eng.report(k, 'echomail is left without the name of its area', st, i, fr)
        elif t == 'osFPrintf' and args[1][0] == 's' and args[1][1].startswith('AREA:'):
            if args[1][1] == 'AREA:%s\r' and s.a.name(args[2]) == 'AREA':
                st.ts = st.ts | {('area', 1)}
        return None


def written(ctx):
    """CrashWrite: the packet and message header hold the addresses, password and attributes given as arguments in the places of
    the format, followed by date, receiver, sender, subject and the control lines or area name"""
    p = ctx.prog('crashwrite')
    ctx.need(p, 'main', 'putuword', 'WriteNull')
    g = p.m.globals.get('args')
    if g is None or g[1][0] != 'agg':
        raise AnalysisBroken('the arguments of crashwrite moved')
    names = [p.string(e[1][1][1]) if e[0] == 'agg' and e[1][1][0] == 'g' else None for e in g[1][1]]
    a = Arguments(names)
    ctx.run(p, a, 'main', frozenset())
    roles = {}
    for v, ns in a.roles.items():
        if len(ns) == 1:
            roles[v] = next(iter(ns))
    for n in ('FROMADDR', 'TOADDR', 'PKTFROMADDR', 'PKTTOADDR', 'FROMNAME', 'TONAME', 'SUBJECT', 'date'):
        if n not in roles.values():
            raise AnalysisBroken(f'{n} is not kept in a variable of its own')
    r = CrashWrite(p, names, roles)
    r.PVT, r.FILE = ctx.const('FLAG_PVT'), ctx.const('FLAG_FILEATTACH')
    ctx.run(p, r, 'main', frozenset())
    ctx.floor('packet that is written by CrashWrite', 20)


RULES = {
    'A21': ('Header fields keep their places', [addresses, primitives, new_packet, new_message, read_packet, stored, jam_structs, jam_messages, control_lines, written]),
}
