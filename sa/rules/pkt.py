"""Packets: what is accepted from an incoming packet, and what leaves in an outgoing one."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .prims import addresses, same
from .toss import packet_done, PacketDone


def al_of_copy(p, f, field):
    """the local variables of f that become mm->field"""
    out = set()
    for b in f.blocks:
        for i in b.insts:
            if i.op != 'call' or i.extra[0][0] != 'g':
                continue
            n = i.extra[0][1]
            if n == 'Copy4D' or n.startswith('llvm.memcpy') or n == 'memcpy':
                d = p.defs(f).get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
                if d is not None and d.op == 'gep' and d.ty == ('named', 'struct.MemMessage') and \
                        p.m.fname('struct.MemMessage', d.ops[2][1]) == field and i.ops[1][0] == 'v':
                    out.add(('al', f.name, i.ops[1][1]))
    return out


class PacketGate(Rule):
    """ts = frozenset of what has been established about the current packet/message"""
    correlate = False
    max_states = 300

    def __init__(s, ctx, p):
        s.p = p
        c = ctx.const
        s.CHK, s.NONM = c('CFG_CHECKPKTDEST'), c('NODE_NONETMAILPASSWORD')
        s.PW = c('PKTHEADER_PASSWORD')
        s.HDR, s.MHDR = c('SIZE_PKTHEADER'), c('SIZE_PKTMSGHEADER')
        s.TYPE = c('PKTHEADER_PKTTYPE')
        f = p.m.funcs['ReadPkt']
        s.handlers = set(p.fpslots.get(('PV', 'ReadPkt', 3), ()))
        s.dest = al_of_copy(p, f, 'PktDest')
        s.orig = al_of_copy(p, f, 'PktOrig')
        s.readers_short = {n for n, m in p.mods.items() if ('G', 'shortread') in m and n != 'ReadPkt'}
        s.readers_long = {n for n, m in p.mods.items() if ('G', 'longread') in m and n != 'ReadPkt'}

    def track(s, atom, st):
        return s.mode == 'auth' and atom[0] == 'nz' and 'dest' not in st.ts and points_to(s.p, atom[1]) == 'Aka'

    def isdest(s, t):
        return t in s.dest or fld(t, 'MemMessage', 'PktDest') is not None

    def isorig(s, t):
        return t in s.orig or fld(t, 'MemMessage', 'PktOrig') is not None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom[0] == 'nz':
            x = atom[1]
            if x == GL('no_security') and truth:
                ts |= {'dest', 'pw'}
            fl = flag(atom, 'Config', 'cfg_Flags')
            if fl and fl[1] == s.CHK and not truth:
                ts.add('dest')
            fl = flag(atom, 'ConfigNode', 'Flags')
            if fl and fl[1] == s.NONM and truth:
                ts.add('nonm')
            if ldfld(x, 'ConfigNode', 'PacketPW') is not None and not truth:
                ts.add('pw')
            if ldfld(x, 'MemMessage', 'Area') is not None and not truth:
                ts.add('netmail')
            a = call(x, ('strcasecmp', 'strcmp', 'strncasecmp', 'strncmp', 'stricmp'))
            if a and not truth:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    if fld(v, 'ConfigNode', 'PacketPW') is not None and (len(a) < 3 or (a[2][0] == 'c' and a[2][1] >= 8)):
                        if ('pwbuf', root_of(u)) in ts or s.pwaddr(u):
                            ts.add('pw')
            a = call(x, 'Compare4D')
            if a and not truth:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    if fld(u, 'Aka', 'Node') is not None and s.isdest(v):
                        ts.add('dest')
            if not truth and points_to(s.p, x) == 'ConfigNode':
                ts.add('pw')
            if x == GL('shortread') and not truth:
                ts = {y for y in ts if not (isinstance(y, tuple) and y[0] == 'short')}
            if x == GL('messageend') and truth:
                ts = {y for y in ts if not (isinstance(y, tuple) and y[0] == 'short')}
            if x == GL('longread') and not truth:
                ts.discard('long')
        b = lt_const(atom, truth)
        if b:
            a = call(b[0], 'osRead')
            if a is not None:
                n = a[2][1] if len(a) > 2 and a[2][0] == 'c' else None
                if n == s.HDR and b[1] >= s.HDR:
                    ts.add('hdr')
                if n == s.MHDR and b[1] >= 2:
                    ts.add('mhdr')
        if atom[0] == 'eq' and truth and atom[2] == ('c', 2):
            a = call(atom[1], 'getuword')
            if a is not None:
                if a[1] == C0:
                    if ('zeroed', root_of(a[0])) in ts:
                        return False
                    ts.add('mtype')
                if a[1] == ('c', s.TYPE):
                    ts.add('type')
        st.ts = s.keep(ts)

    AUTH = {'dest', 'pw', 'nonm', 'netmail', 'pwbuf'}

    def keep(s, ts):
        return frozenset(y for y in ts if ((y[0] if isinstance(y, tuple) else y) in s.AUTH) == (s.mode == 'auth'))

    def pwaddr(s, t):
        return t[0] == 'idx' and t[2] == ('c', s.PW) and t[1][0] == 'al'

    def on_store(s, eng, st, i, addr, val, fr):
        if s.mode == 'auth' or val != C0:
            return
        for g, what, pend in (('shortread', 'the packet ended early', any(isinstance(y, tuple) and y[0] == 'short' for y in st.ts)),
                              ('longread', 'a header string did not fit', 'long' in st.ts)):
            if addr == ('g', g):
                key = f'{fr.fn.name}: {g} is looked at before it is cleared'
                s.ctx.oblige(key, locstr(i))
                if pend:
                    eng.report(key, f'the note that {what} is thrown away', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t in s.handlers:
            ts = st.ts
            def need(key, ok, msg):
                c.oblige('handler: ' + key, locstr(i))
                if not ok:
                    eng.report('handler: ' + key, msg, st, i, fr)
            if s.mode == 'auth':
                need('packet destination', 'dest' in ts,
                     'message handled although the packet destination was not matched against our addresses (and checking is on)')
                need('packet password', 'pw' in ts or {'netmail', 'nonm'} <= ts,
                     'message handled although the packet password of a password-protected link was not verified')
            else:
                need('no short read', not any(isinstance(y, tuple) and y[0] == 'short' for y in ts),
                     'message handled although the packet may have ended inside it')
                need('header strings fit', 'long' not in ts, 'message handled although a header string was too long')
                need('packet header complete', 'hdr' in ts, 'message handled although the packet header may be incomplete')
                need('packet type 2', 'type' in ts, 'message handled although the packet is not known to be type 2')
                need('message header read', 'mhdr' in ts, 'message handled although its header may not have been read')
                need('message type 2', 'mtype' in ts, 'message handled although the message type is not known to be 2')
            eng.kill_call(st, t, args)
            st.ts = frozenset(y for y in st.ts if y not in ('netmail', 'mhdr', 'mtype'))
            return [(st, C1)]
        ts = set(st.ts)
        if t in ('strncpy', 'memcpy', 'mystrncpy') or t.startswith('llvm.memcpy'):
            r = root_of(args[0])
            ts.discard(('pwbuf', r))
            if s.pwaddr(args[1]):
                ts.add(('pwbuf', r))
        else:
            for y in list(ts):
                if isinstance(y, tuple) and y[0] == 'pwbuf':
                    if any(addr_root(args[l[1]]) == y[1] for l in eng.p.mods.get(t, ()) if l[0] == 'P' and l[1] < len(args)):
                        ts.discard(y)
        if any(fld(a, 'MemMessage', 'Area') is not None for a in args[:1]) or t == 'mmClear':
            ts.discard('netmail')
        if t in s.readers_short:
            if s.mode != 'auth':
                for y in ts:
                    if y == ('short', i.id):
                        key = f'read at EOF in {fr.fn.name} stops'
                        c.oblige(key, locstr(i))
                        eng.report(key, 'text is read in a loop without checking for the end of the packet', st, i, fr)
            ts = {y for y in ts if not (isinstance(y, tuple) and y[0] == 'short')} | {('short', i.id)}
        if t in s.readers_long:
            ts.add('long')
        if t == 'osRead' and len(args) > 2 and args[2] == ('c', s.MHDR):
            ts.discard('mhdr')
            ts.discard('mtype')
            ts.discard(('zeroed', root_of(args[1])))
        if t.startswith('llvm.memset') or t == 'memset':
            ts.discard('mtype')
            if args[1] == C0:
                ts.add(('zeroed', root_of(args[0])))
        st.ts = s.keep(ts)
        return None


def gate(ctx, mode):
    p = ctx.prog()
    ctx.need(p, 'ReadPkt', 'ReadNull', 'ReadCR', 'Compare4D')
    r = PacketGate(ctx, p)
    r.mode = mode
    if not r.handlers:
        raise AnalysisBroken('no message handler is passed to the packet reader')
    ctx.run(p, r, 'ReadPkt', frozenset())
    ctx.floor('handler: ', 1)
    return p, r


def packet_auth(ctx):
    """no message of a packet reaches message handling before destination and password checks succeeded"""
    p, r = gate(ctx, 'auth')
    # the link whose password counts is the packet's origin
    for f, i in p.callsites.get('Compare4D', ()):
        if f.name != 'ReadPkt':
            continue
        defs = p.defs(f)

        def side(v):
            d = defs.get(v[1]) if v[0] == 'v' else None
            if d is not None and d.op == 'alloca':
                return ('al', f.name, v[1])
            if d is not None and d.op == 'gep' and isinstance(d.ty, tuple) and d.ty[0] == 'named':
                k = d.ops[2] if len(d.ops) > 2 else C0
                return (d.ty[1][7:], p.m.fname(d.ty[1], k[1]))
            return None
        a, b = side(i.ops[0]), side(i.ops[1])
        for x, y in ((a, b), (b, a)):
            if x is not None and x[0] in ('ConfigNode', 'Aka') and x[1] != 'PktFrom':
                want = r.orig if x[0] == 'ConfigNode' else r.dest
                names = 'PktOrig' if x[0] == 'ConfigNode' else 'PktDest'
                key = f'ReadPkt: {x[0]} is looked up by the packet {"origin" if x[0] == "ConfigNode" else "destination"}'
                ctx.oblige(key, locstr(i))
                if y is not None and y not in want and y != ('MemMessage', names):
                    ctx.finding(key, 'the packet is attributed to the wrong address', locstr(i))


def packet_wellformed(ctx):
    """only complete, correctly framed messages of a type-2 packet reach message handling"""
    gate(ctx, 'form')


class Reader(Rule):
    """ReadNull/ReadCR: what ended the string is noted.
    ts: 'eof?' the last character may be the end of the packet, 'more?' it may be something else than the end of the
    string, ('last', call), shortread/longread = noted"""
    correlate = False

    def limit(s, t):
        return contains(t, ('arg', s.root, 1))

    def track(s, atom, st):
        return atom == ('nz', GL('shortread')) or any(call(x, 'osGetChar') or s.limit(x) for x in atom[1:] if isinstance(x, tuple))

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        last = next((x[1] for x in ts if isinstance(x, tuple)), None)

        def ch(x):
            return isinstance(x, tuple) and x[0] == 'call' and x[1] == 'osGetChar' and x[3] == last
        if atom[0] == 'nz' and ch(atom[1]) and not truth:
            ts -= {'eof?', 'more?'}
        if atom[0] == 'eq' and ch(atom[1]) and atom[2][0] == 'c' and truth != (atom[2][1] == -1):
            ts.discard('eof?')
        lt = lt_const(atom, truth)
        if lt and ch(lt[0]) and lt[1] >= 0:
            ts.discard('eof?')
        # the index never passes the limit: it grows by one
        if atom[0] in ('eq', 'lt') and any(s.limit(x) for x in atom[1:] if isinstance(x, tuple)):
            u, v = atom[-2:]
            lim, x = (u, v) if s.limit(u) else (v, u)
            eq = same(st, x, lim)
            ge = any(st.truth(('lt', g, x, lim)) is False for g in 'us')
            if atom[0] == 'eq' and not truth and (eq or ge):
                return False
            if atom[0] == 'lt' and truth and (u == lim or eq):
                return False
        st.ts = frozenset(ts)

    def on_store(s, eng, st, i, addr, val, fr):
        if addr in (('g', 'shortread'), ('g', 'longread')):
            st.ts = st.ts - {addr[1]} if val == C0 else st.ts | {addr[1]}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osGetChar':
            st.ts = frozenset(x for x in st.ts if isinstance(x, str)) | {'eof?', 'more?', ('last', i.id)}
        return None

    def on_ret(s, eng, st, i, val, fr):
        what = 'the end of the packet' if 'Null' not in s.root else 'everything but the end of the string'
        key = f'{s.root}: {what} is noted'
        s.ctx.oblige(key, locstr(i))
        if 'eof?' in st.ts and 'shortread' not in st.ts:
            eng.report(key, 'reading a string may stop at the end of the packet without this being noted', st, i, fr)
        elif s.root == 'ReadNull' and 'more?' in st.ts and not st.ts & {'shortread', 'longread'}:
            eng.report(key, 'reading a string may stop before its end (no room) without this being noted', st, i, fr)


def readers(ctx):
    """reading a string notes when the packet ended in it and when it did not fit"""
    p = ctx.prog()
    ctx.need(p, 'ReadNull', 'ReadCR')
    for root in ('ReadNull', 'ReadCR'):
        r = Reader()
        r.root = root
        ctx.run(p, r, root, frozenset())


class BadName(Rule):
    correlate = False

    def track(s, atom, st):
        return atom[0] == 'nz' and call(atom[1], 'osExists') is not None

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('movefile', 'osRename', 'copyfile') and len(args) > 1:
            key = f'BadFile: {t} target does not exist'
            s.ctx.oblige(key, locstr(i))
            ok = any(a[0] == 'nz' and v is False and call(a[1], 'osExists') and call(a[1], 'osExists')[0] == args[1]
                     for a, v in st.facts.items())
            if not ok:
                eng.report(key, 'a bad packet may be moved over an earlier one', st, i, fr)
            if args[0] != ('arg', 'BadFile', 0):
                eng.report(key + ' (source)', 'something else than the bad file is moved', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts, no.ts = 'moved', 'failed'
            return [(ok, C1), (no, C0)]
        if t in ('osDelete',):
            key = 'BadFile: nothing is deleted'
            s.ctx.oblige(key, locstr(i))
            eng.report(key, 'a bad packet is deleted instead of kept', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = 'BadFile: success means kept as .bad'
        s.ctx.oblige(key, locstr(i))
        if st.ts != 'moved' and not (val == C0 or (val is not None and st.truth(('nz', val)) is False)):
            eng.report(key, 'success reported although the bad file was not moved', st, i, fr)


def bad_kept(ctx):
    """a rejected packet or bundle is kept under a fresh .bad name"""
    p = ctx.prog()
    ctx.need(p, 'BadFile', 'osExists')
    ctx.run(p, BadName(), 'BadFile', 'no')
    ctx.floor('BadFile: ', 2)


class Move(Rule):
    """movefile/copyfile: the source goes away only after the copy is complete"""
    correlate = False

    def readonly(s, h):
        a = call(h, 'osOpen')
        return a is not None and a[1] == ('c', s.ctx.const('MODE_OLDFILE'))

    def interesting(s, eng):
        return set()

    def track(s, atom, st):
        return atom == ('nz', GL('ioerror'))

    def track_mem(s, a, v):
        return a == ('g', 'ioerror')

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('osRename', 'copyfile', 'osWrite', 'osClose'):
            no, ok = eng.fork(st, t, args)
            if t == 'osClose' and s.readonly(args[0]):
                return None
            if t in ('osWrite', 'osClose'):
                no.ts = 'bad'
                s.ctx.oblige(f'{s.root}: failing {t} means failure', locstr(i))
            elif t in ('osRename', 'copyfile'):
                ok.ts = 'done'
                s.ctx.oblige(f'{s.root}: {t} result decides', locstr(i))
            return [(ok, C1), (no, C0)]
        if t == 'osDelete' and args[0] == ('arg', s.root, 0):
            key = f'{s.root}: source deleted only after a complete copy'
            s.ctx.oblige(key, locstr(i))
            if st.ts != 'done':
                eng.report(key, 'the source file is deleted although it was not copied', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = f'{s.root}: success only when complete'
        s.ctx.oblige(key, locstr(i))
        if st.ts == 'done' or (st.ts == 'no' and s.root == 'copyfile'):
            return
        if not (val == C0 or (val is not None and st.truth(('nz', val)) is False)):
            eng.report(key, 'success reported although the file was not (completely) transferred', st, i, fr)


def moves(ctx):
    """moving a file never loses it: success only after a complete transfer, source removed last"""
    p = ctx.prog()
    ctx.need(p, 'movefile', 'copyfile')
    for root in ('movefile', 'copyfile'):
        r = Move()
        r.root = root
        ctx.run(p, r, root, 'no')


RULES = {
    'A04': ('Malformed packets are set aside and their messages never processed',
            [packet_wellformed, readers, packet_done, bad_kept, moves]),
    'A05': ('Packet destination and password are enforced before any message is processed',
            [packet_auth, addresses]),
}
