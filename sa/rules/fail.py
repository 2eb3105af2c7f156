"""A failing write, allocation or hand-over is never forgotten: it reaches the caller or the nomem/ioerror marks."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *

MARKS = ('nomem', 'ioerror')
PRIVATE = ('jam_nomem',)       # file-local failure flag, see Pass.on_store

# C library: name -> 'neg' (negative/EOF on failure, 0 or more else), 'nonzero' (0 = success), 'null', 'count'
LIBC = {'fwrite': 'count', 'fputs': 'neg', 'fputc': 'neg', 'putc': 'neg', 'vfprintf': 'neg', 'fprintf': 'neg', 'ftell': 'neg',
        'ftello': 'neg', 'fseek': 'nonzero', 'fseeko': 'nonzero', 'fflush': 'nonzero', 'fclose': 'nonzero', 'rename': 'nonzero',
        'malloc': 'null', 'calloc': 'null', 'realloc': 'null', 'strdup': 'null', 'fopen': 'null', 'fcntl': 'nonzero', 'mkdir': 'nonzero'}
WRITES = {'osWrite', 'osPuts', 'osPutChar', 'osFPrintf', 'osVFPrintf', 'osClose', 'osRename'}
ALLOC = {'osAlloc', 'osAllocCleared'}
# failures of X that are made good by a successful Y
RECOVER = {'doAddFlow': {'MakeOrphan'}, 'LockBasename': {'MakeOrphan'}, 'osRename': {'copyfile'}, 'movefile': {'AddFlow'},
           'PackFile': {'MakePktTmp'}, 'JAM_OpenMB': {'JAM_CreateMB'}}
# calls whose failure loses nothing: (function, callee)
EXEMPT = {('JAM_CreateMB', 'JAM_UnlockMB')}      # the header was flushed by JAM_WriteMBHeader, nothing else is pending
NEG = lambda n: n.startswith(('JAM_', 'jam_Open', 'jam_Lock')) and n not in ('JAM_NewSubPacket', 'JAM_GetSubfield', 'JAM_GetSubfield_R')


class Pass(Rule):
    """ts: ('' | 'marked' | name of the callee that failed, anything written)"""
    correlate = False
    max_states = 200
    keep_consts = True

    def __init__(s, name, fallible, marking, libc=False, old=None, nomem=1):
        s.name = name
        s.NOMEM = nomem
        s.F = fallible
        s.M = marking
        s.libc = libc
        s.OLD = old
        s.unmarked = False
        s.silent = False

    def track(s, atom, st):
        return atom[0] in ('nz', 'eq', 'lt') and any(x[0] == 'call' and (x[1] in s.F or x[1] in LIBC) for x in atom[1:] if isinstance(x, tuple)) \
            or atom == ('nz', GL(PRIVATE[0]))

    def transient(s, a):
        return a[0] != 'nz' or a[1] != GL(PRIVATE[0])

    def track_mem(s, addr, val):
        return addr == ('g', PRIVATE[0]) or val == C0 and addr_root(addr)[0] == 'call'

    def fails(s, t, args, st):
        if t not in s.F or (s.name, t) in EXEMPT:
            return False
        if t == 'osOpen':
            return args[1] != ('c', s.OLD)
        if t == 'osClose':
            fh = args[0]
            return not (fh[0] == 'call' and fh[1] == 'osOpen') or fh[2][1:] != (('c', s.OLD),) and st.ts[1]
        return True

    def ob(s, fr, t, i):
        if not s.silent:
            s.ctx.oblige(f'{s.name}: failing {t} is passed on', locstr(i))

    def recover(s, st):
        return RECOVER.get(st.ts[0], ())

    def put(s, st, x):
        st.ts = (x, st.ts[1])

    def failed(s, st, t):
        if st.ts[0] == '' or t in s.recover(st):
            s.put(st, 'marked' if t in s.M and t != 'jam_addfield' else t)

    def on_call(s, eng, st, i, t, args, fr):
        if t in LIBC and (s.libc or LIBC[t] == 'null') and t not in s.p.m.funcs and i.res:
            return s.on_libc(eng, st, i, t, args, fr)
        if t == 'jam_addfield' and s.name != t:
            was = st.mem.get(('g', PRIVATE[0]))
            no, ok = eng.fork(st, t, args)
            s.failed(no, t)
            no.mem[('g', PRIVATE[0])] = C1
            if was is not None:
                ok.mem[('g', PRIVATE[0])] = was
            s.ob(fr, t, i)
            return [(ok, None), (no, None)]
        if not i.res or not s.fails(t, args, st):
            if t in s.recover(st):
                s.put(st, '')
            return None
        s.ob(fr, t, i)
        no, ok = eng.fork(st, t, args)
        s.failed(no, t)
        if t in s.recover(ok):
            s.put(ok, '')
        if t in WRITES and t not in ('osClose', 'osRename'):
            ok.ts, no.ts = (ok.ts[0], True), (no.ts[0], True)
        if NEG(t):
            return [(ok, C0), (no, ('c', s.NOMEM))]
        v = eng.result(ok, i, t, args, fr)
        ok.facts[('nz', v)] = True
        return [(ok, v), (no, C0)]

    def on_libc(s, eng, st, i, t, args, fr):
        if t in ('fseek', 'fseeko', 'fcntl', 'ftell', 'ftello') and fr.fn.name not in s.strict:
            return None
        if t == 'fclose' and fr.fn.name in s.noclose or t == 'fopen':
            return None
        s.ob(fr, t, i)
        kind = LIBC[t]
        no, ok = eng.fork(st, t, args)
        s.failed(no, t)
        if kind == 'null':
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            return [(ok, v), (no, C0)]
        if kind == 'neg':
            v = eng.result(ok, i, t, (), fr)
            ok.facts[('lt', 's', v, C0)] = False
            ok.facts[('eq', v, ('c', -1))] = False
            return [(ok, v), (no, ('c', -1))]
        if kind == 'nonzero':
            return [(ok, C0), (no, ('c', -1))]
        n = args[2]
        if n == C1:
            return [(ok, C1), (no, C0)]
        v = eng.result(no, i, t, (), fr)
        for a in (('eq', v, n), ('eq', n, v)):
            no.facts[a] = False
        for u in 'us':
            no.facts[('lt', u, v, n)] = True
        return [(ok, n), (no, v)]

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'nz' and atom[1] in [GL(x) for x in MARKS] and truth:
            s.put(st, 'marked')

    def on_store(s, eng, st, i, addr, val, fr):
        if addr in [('g', x) for x in MARKS]:
            if val == C0:
                s.ctx.oblige(f'{fr.fn.name}: marks are not cleared', locstr(i))
                eng.report(f'{fr.fn.name}: marks are not cleared', 'a failure mark is cleared', st, i, fr)
            else:
                s.put(st, 'marked')
        elif addr in [('g', x) for x in PRIVATE] and val != C0 and fr.caller is None:
            s.put(st, 'marked')
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        bad = None if val is None else s.isfail(st, s.name, val)
        what = st.ts[0]
        if what in ('', 'marked'):
            if what == '' and bad:
                s.unmarked = True
            return
        s.unmarked = True
        if bad:
            return
        if not s.silent:
            eng.report(f'{s.name}: failing {what} is passed on', f'{what} failed but {s.name} reports success and leaves no mark', st, i, fr)

    def isfail(s, st, f, val):
        if NEG(f):
            return val[0] == 'c' and val[1] != 0 or st.truth(('nz', val)) is True
        return val == C0 or st.truth(('nz', val)) is False


# functions of the chain from a received message to its stored or outgoing copies
WRITERS = '''pktWrite WriteNull CreatePkt WriteMsgHeader WritePath WriteSeenBy WriteEchoMail WriteNetMail FinishPacket ClosePackets
WriteMSG WriteRFC copyfile movefile msg_WriteMSG msg_importfunc jam_importfunc doAddFlow MakeOrphan AddFlow PackFile'''.split()
OS = sorted(WRITES)
HANDLERS = '''HandleMessage HandleEchomail HandleNetmail HandleRescan WriteBad AddTossNode AddNodePath AddArea Bounce AnswerReceipt AnswerAudit
Filter Filter_Copy Filter_Execute Filter_Masquerade Filter_Remap mmAlloc mmAddBuf mmAddLine mmAddNodes2DList mmAddPath mmSortNodes2D
mmMakeSeenByBuf AddSeenby MakeNetmailKludges AddTID jam_makekludge jam_addfield jam_getarea msg_getarea'''.split()
JAMW = '''JAM_AddMessage JAM_WriteMBHeader JAM_CreateMB JAM_OpenMB JAM_UnlockMB JAM_LockMB JAM_ChangeMsgHeader JAM_AddEmptyMessage JAM_DeleteMessage
fwritejambaseheader fwritejammsgheader fwritejamindex fwritejamsavesubfield fwritejamlastread JAM_PutSubfield JAM_NewSubPacket'''.split()


def chain(ctx, report):
    """run Pass over the whole chain until the set of self-marking functions is stable; report only for the given functions"""
    p = ctx.prog()
    have = [f for f in WRITERS + OS + HANDLERS + JAMW if f in p.m.funcs]
    Pass.p = p
    Pass.strict = set(JAMW)
    Pass.noclose = set()
    F = (WRITES | ALLOC | {'osOpen'} | set(have)) - {'AddFlow'}
    old, nomem = ctx.const('MODE_OLDFILE'), ctx.const('JAM_NO_MEMORY')

    def one(f, M, silent):
        r = Pass(f, F, M, libc=f in JAMW or f in OS, old=old, nomem=nomem)
        r.silent = silent
        ctx.run(p, r, f, ('', False))
        return not r.unmarked
    M = set()
    while True:
        M2 = set()
        for f in have:
            if f in M or one(f, M, True):
                M2.add(f)
        if M2 == M:
            break
        M = M2
    ctx.notes.append('functions that leave a failure mark whenever they fail: ' + ' '.join(sorted(M)))
    for f in have:
        if f in report:
            one(f, M, False)


def writes_reported(ctx):
    """every failing write, flush, close or rename on the way to a stored or outgoing message makes the function that issued it report failure or leave an error mark, and so does each of its callers"""
    chain(ctx, set(WRITERS + OS + JAMW))
    ctx.floor('', 60)


def handling_reported(ctx):
    """every failing allocation, write, import or hand-over while a message is handled makes handling fail or leaves an error mark"""
    chain(ctx, set(HANDLERS))
    ctx.floor('', 40)


def marks_kept(ctx):
    """the error marks are cleared nowhere but at the start of a run"""
    p = ctx.prog()
    for f in p.m.funcs.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[1][1] in MARKS and i.ops[0] in (C0, ('c', 0)):
                    key = f'{f.name}: error mark {i.ops[1][1]} is not cleared during a run'
                    ctx.oblige(key, locstr(i))
                    if f.name not in ('Init', 'main'):
                        ctx.finding(key, f'{i.ops[1][1]} is cleared, so failures before this point are forgotten', locstr(i), [f.name])
    

RULES = {
    'A02': ('A failure while a message is handled is never forgotten', [handling_reported, marks_kept]),
    'A03': ('Failing writes to message stores and outgoing packets are never taken for success', [writes_reported]),
}
