"""Mail generated by CrashMail itself: marked, never answered, never bounced."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .handle import Base
from .prims import addresses

HANDLERS = ('HandleMessage', 'HandleNetmail', 'HandleEchomail')


class Generated(Base):
    """ts: message pointers whose own Flags carry the generated mark"""
    stale_ts = True

    def on_store(s, eng, st, i, addr, val, fr):
        mm = fld(addr, 'MemMessage', 'Flags')
        if mm is not None:
            g = None
            if val[0] == 'c':
                g = bool(val[1] & s.AUTOGEN)
            elif val[0] == 'bin' and val[1] == 'or' and val[3][0] == 'c' and val[3][1] & s.AUTOGEN:
                g = True
            elif val[0] == 'bin' and val[1] == 'and' and val[3][0] == 'c' and not val[3][1] & s.AUTOGEN:
                g = False
            elif val[0] != 'bin':
                g = False
            if g is True:
                st.ts = st.ts | {mm}
            elif g is False:
                st.ts = st.ts - {mm}
        if addr[0] == 'fld' and addr[2] == 'afReply' and addr[3] == 'mm':
            # from now on the message is known through the reply structure
            pass
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t in HANDLERS:
            key = f'{fr.fn.name}: generated mail is marked'
            s.ctx.oblige(key, locstr(i))
            if args[0] not in st.ts:
                eng.report(key, 'a message generated by CrashMail is sent without being marked as such', st, i, fr)
            eng.kill_call(st, t, args)
            no, ok = st.copy(), st
            if not i.res:
                return [(st, None)]
            return [(ok, C1), (no, C0)]
        if t == 'mmClear':
            st.ts = frozenset(x for x in st.ts if x != args[0])
        return None

    def track_mem(s, a, v):
        return fld(a, 'afReply', 'mm') is not None


class NoBounce(Base):
    def on_branch(s, eng, st, inst, atom, truth, fr):
        fl = flag(atom, 'MemMessage', 'Flags')
        if fl and fl[0] == ('arg', 'Bounce', 0) and fl[1] == s.AUTOGEN and not truth:
            st.ts = True

    def on_call(s, eng, st, i, t, args, fr):
        if t in HANDLERS:
            key = 'Bounce: generated mail is never bounced'
            s.ctx.oblige(key, locstr(i))
            if not st.ts:
                eng.report(key, 'a message generated by CrashMail is bounced', st, i, fr)
        return None


class NoAnswer(Base):
    """receipts and audits only where requested; AreaFix never answers generated mail"""

    def setup(s, c):
        s.want = {'AnswerReceipt': (c('FLAG_RREQ'), c('CFG_ANSWERRECEIPT')), 'AnswerAudit': (c('FLAG_AUDIT'), c('CFG_ANSWERAUDIT'))}

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        fl = flag(atom, 'MemMessage', 'Attr')
        if fl and fl[0] == ('arg', 'HandleNetmail', 0):
            for n, (f, c) in s.want.items():
                if fl[1] == f:
                    ts.discard(n + ' asked')
                    if truth:
                        ts.add(n + ' asked')
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl:
            for n, (f, c) in s.want.items():
                if fl[1] == c and truth:
                    ts.add(n + ' on')
        if s.mmnot(atom, truth, s.AUTOGEN):
            ts.add('notgen')
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        if t in s.want:
            key = f'HandleNetmail: {t} only when requested and configured'
            s.ctx.oblige(key, locstr(i))
            if t + ' asked' not in st.ts or t + ' on' not in st.ts:
                eng.report(key, 'an answer is sent that was not requested or is not configured', st, i, fr)
        if t == 'AreaFix':
            key = 'HandleNetmail: AreaFix does not answer generated mail'
            s.ctx.oblige(key, locstr(i))
            if 'notgen' not in st.ts:
                eng.report(key, 'AreaFix answers mail generated by CrashMail', st, i, fr)
        return None


class AnswerAttr(Base):
    """attributes given to generated mail never request another answer (ts: mask of attributes that may be set)"""

    def setup(s, c):
        s.RREQ, s.AUDIT = c('FLAG_RREQ'), c('FLAG_AUDIT')

    def on_store(s, eng, st, i, addr, val, fr):
        mm = fld(addr, 'MemMessage', 'Attr')
        if mm is not None:
            def mask(v):
                if v[0] == 'c':
                    return v[1] & 0xffff
                if v[0] == 'bin' and v[1] == 'and':
                    return mask(v[2]) & mask(v[3])
                if v[0] == 'bin' and v[1] == 'or':
                    return mask(v[2]) | mask(v[3])
                if v == ('ld', addr):
                    return st.ts
                return 0xffff
            st.ts = mask(val)
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t in HANDLERS:
            key = f'{fr.fn.name}: generated mail requests no receipt or audit'
            s.ctx.oblige(key, locstr(i))
            if st.ts & (s.RREQ | s.AUDIT):
                eng.report(key, 'generated mail asks for a receipt or audit itself', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.fn.name == 'afInitReply':
            key = 'afInitReply: generated mail requests no receipt or audit'
            s.ctx.oblige(key, locstr(i))
            if st.ts & (s.RREQ | s.AUDIT):
                eng.report(key, 'generated mail asks for a receipt or audit itself', st, i, fr)


def generated(ctx):
    """every message CrashMail generates is marked as such before it is handled and asks for no answer"""
    p = ctx.prog()
    ctx.need(p, 'HandleMessage', 'mmAlloc')
    roots = set()
    for h in HANDLERS:
        for f, i in p.callsites.get(h, ()):
            if i.extra[0] == ('g', h):
                roots.add(f.name)
    roots -= {'HandleMessage', 'ScanHandle'}
    for r in sorted(roots):
        if r == 'afSendMessage':
            continue
        ctx.run(p, Generated(ctx, p), r, frozenset())
        ctx.run(p, AnswerAttr(ctx, p), r, 0)
    # replies built up through a structure: the constructor must mark the message, nobody may unmark it
    for f, i in p.callsites.get('afSendMessage', ()):
        ctx.oblige(f'{f.name}: sends a reply made by the constructor', locstr(i))
    ctx.floor('Bounce: generated mail is marked', 1)


class ReplyCtor(Base):
    stale_ts = True

    def interesting(s, eng):
        return set()

    def on_store(s, eng, st, i, addr, val, fr):
        mm = fld(addr, 'MemMessage', 'Flags')
        if mm is not None:
            on = (val[0] == 'bin' and val[1] == 'or' and val[3][0] == 'c' and val[3][1] & s.AUTOGEN) or (val[0] == 'c' and val[1] & s.AUTOGEN)
            st.ts = st.ts | {'marked'} if on else st.ts - {'marked'}
        return None

    def on_ret(s, eng, st, i, val, fr):
        key = f'{fr.fn.name}: generated mail is marked'
        s.ctx.oblige(key, locstr(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        if 'marked' not in st.ts:
            eng.report(key, 'a reply message is created without being marked as generated', st, i, fr)


def replies(ctx):
    """reply messages are marked when created and the mark is never removed"""
    p = ctx.prog()
    if 'afInitReply' in p.m.funcs:
        ctx.run(p, ReplyCtor(ctx, p), 'afInitReply', frozenset())
        ctx.run(p, AnswerAttr(ctx, p), 'afInitReply', 0)
    b = Base(ctx, p)
    # nobody clears the mark: every store to Flags is |=, &= with a mask that keeps it, or the constructor's 0
    for f in p.m.funcs.values():
        for i in f.insts():
            if i.op != 'store':
                continue
            for l in p.loc_of(f, i.ops[1]):
                if l == ('F', 'MemMessage', 'Flags'):
                    key = f'{f.name}: the generated mark is kept'
                    d = p.defs(f).get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
                    ok = True
                    if i.ops[0][0] == 'c':
                        ok = f.name in ('mmClear', 'mmAlloc') or bool(i.ops[0][1] & b.AUTOGEN)
                    elif d is not None and d.op == 'bin' and d.extra == 'and':
                        cs = [o[1] for o in d.ops if o[0] == 'c']
                        ok = bool(cs) and bool(cs[0] & b.AUTOGEN)
                    elif d is not None and d.op == 'bin' and d.extra in ('xor',):
                        ok = False
                    ctx.oblige(key, locstr(i))
                    if not ok:
                        ctx.finding(key, 'the mark of generated mail may be lost', locstr(i))


def no_bounce(ctx):
    """generated mail is never bounced"""
    p = ctx.prog()
    ctx.need(p, 'Bounce')
    ctx.run(p, NoBounce(ctx, p), 'Bounce', False)


COPY4 = ('Copy4D', 'llvm.memcpy.p0.p0.i64', 'memcpy')
COPYS = ('strcpy', 'strncpy', 'mystrncpy', 'sprintf', 'snprintf', 'stpcpy')


class Addressed(Base):
    """answers go to the sender of the message answered; ts: what is known about address and name"""

    def __init__(s, ctx, p, root):
        super().__init__(ctx, p)
        s.mm = ('arg', root, 0)
        s.area = ('nz', LD(s.mm, 'MemMessage', 'Area'))
        s.root = root

    def track(s, atom, st):
        return atom == s.area

    def good(s, st, src):
        if fld(src, 'MemMessage', 'OrigNode') == s.mm:
            return s.root != 'Bounce' or st.truth(s.area) is False
        if fld(src, 'MemMessage', 'Origin4D') == s.mm:
            return st.truth(s.area) is True
        return ('good', src) in st.ts

    def on_call(s, eng, st, i, t, args, fr):
        if t in COPY4 and len(args) > 1:
            b = fld(args[0], 'MemMessage', 'DestNode')
            ok = s.good(st, args[1])
            mark = 'dest' if b is not None else ('good', args[0]) if args[0][0] == 'al' else None
            if mark:
                st.ts = st.ts | {mark} if ok else st.ts - {mark}
        if t in COPYS and fld(args[0], 'MemMessage', 'To') is not None:
            ok = any(fld(x, 'MemMessage', 'From') == s.mm for x in args[1:])
            st.ts = st.ts | {'to'} if ok else st.ts - {'to'}
        if t in HANDLERS:
            for m, what in (('dest', 'system'), ('to', 'person')):
                key = f'{s.root}: the answer goes to the {what} that sent the message'
                s.ctx.oblige(key, locstr(i))
                if m not in st.ts:
                    eng.report(key, f'an automatic answer is not addressed to the {what} the message came from', st, i, fr)
        return None


def addressed(ctx):
    """bounces, receipts and audits are addressed to the sender of the message"""
    p = ctx.prog()
    for r in ('Bounce', 'AnswerReceipt', 'AnswerAudit'):
        ctx.need(p, r)
        ctx.run(p, Addressed(ctx, p, r), r, frozenset())


def no_answer(ctx):
    """receipts, audits and AreaFix replies are sent only on request and never for generated mail"""
    p = ctx.prog()
    ctx.need(p, 'HandleNetmail')
    ctx.run(p, NoAnswer(ctx, p), 'HandleNetmail', frozenset())


RULES = {
    'A10': ('Generated mail is marked and never answered or bounced', [generated, replies, no_bounce, no_answer, addressed, addresses]),
}
