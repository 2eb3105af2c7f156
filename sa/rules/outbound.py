"""Outgoing packets: from the finished packet to the outbound of the node."""
import re
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .runs import open_modes


# ------------------------------------------------------------------ busy files
class Lock(Rule):
    """ts: None or the buffer with the base name that is locked"""
    correlate = False
    keep_consts = True
    max_states = 200

    def __init__(s, root):
        s.root = root

    def interesting(s, eng):
        return s.inner

    def key(s, what):
        return f'{s.root}: {what}'

    def on_call(s, eng, st, i, t, args, fr):
        c = s.ctx
        if t == 'LockBasename':
            k = s.key('a busy file is requested only when none is held')
            c.oblige(k, locstr(i))
            if st.ts is not None:
                eng.report(k, 'a second busy file is requested while one is held', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = args[0]
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'UnlockBasename':
            k = s.key('only an own busy file is removed')
            c.oblige(k, locstr(i))
            if st.ts != args[0]:
                eng.report(k, 'a busy file is removed that may belong to another program', st, i, fr)
            eng.kill_call(st, t, args)
            st.ts = None
            return [(st, None)]
        if t == 'doAddFlow':
            k = s.key('flow files are changed only while the node is locked')
            c.oblige(k, locstr(i))
            if st.ts is None or st.ts != args[1]:
                eng.report(k, 'a flow file is changed without the busy file of its node', st, i, fr)
        if t == 'osWrite' and fr.fn.name == 'PackFile':
            k = s.key('outbound packets are changed only while the node is locked')
            c.oblige(k, locstr(i))
            if st.ts is None:
                eng.report(k, 'an outbound packet is changed without the busy file of its node', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = s.key('the busy file is removed on every path')
        s.ctx.oblige(k, locstr(i))
        if st.ts is not None:
            eng.report(k, 'the function returns while its busy file is left behind', st, i, fr)


class Busy(Rule):
    """LockBasename: ts: the busy file is known not to exist / was created"""
    correlate = False

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osExists':
            no, ok = eng.fork(st, t, args)
            no.ts = st.ts | {('absent', args[0])}
            return [(ok, C1), (no, C0)]
        if t == 'osOpen':
            k = 'LockBasename: a busy file of another program is respected'
            s.ctx.oblige(k, locstr(i))
            if args[1] != ('c', s.EXCL):
                eng.report(k, 'the busy file is not created exclusively, so two programs can both create it', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            ok.ts = ok.ts | {'created'}
            return [(ok, v), (no, C0)]
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = 'LockBasename: success only when the busy file was created'
        s.ctx.oblige(k, locstr(i))
        if val != C0 and 'created' not in st.ts:
            eng.report(k, 'success is reported although no busy file was created', st, i, fr)
        k = 'LockBasename: a created busy file is reported'
        s.ctx.oblige(k, locstr(i))
        if val == C0 and 'created' in st.ts:
            eng.report(k, 'failure is reported although the busy file was created', st, i, fr)


def suffixes(p, fn):
    """literals appended to the base name in fn"""
    r = set()
    for i in p.m.funcs[fn].insts():
        if i.op == 'call':
            for a in i.ops:
                if a[0] == 'g' and p.string(a[1]) is not None:
                    m = re.search(r'\.[a-z]{3}$', p.string(a[1]))
                    if m:
                        r.add(m.group(0))
    return r


def locks(ctx):
    """the outbound of a node is changed only while its busy file is held; it is created only when there is none and removed on every path"""
    p = ctx.prog()
    ctx.need(p, 'LockBasename', 'UnlockBasename', 'doAddFlow', 'PackFile')
    roots = {f.name for n in ('LockBasename', 'UnlockBasename', 'doAddFlow') for f, _ in p.callsites[n]}
    for r in sorted(roots):
        x = Lock(r)
        x.inner = set()
        ctx.run(p, x, r, None)
    ctx.floor('PackFile: ', 3)
    b = Busy()
    b.EXCL = ctx.const('MODE_CREATEFILE')
    ctx.run(p, b, 'LockBasename', frozenset())
    a, b = suffixes(p, 'LockBasename'), suffixes(p, 'UnlockBasename')
    k = 'LockBasename and UnlockBasename use the same file'
    ctx.oblige(k)
    if a != b:
        ctx.finding(k, f'busy files are created as {sorted(a)} but removed as {sorted(b)}', 'UnlockBasename')
    dels = [i for i in p.m.funcs['UnlockBasename'].insts() if i.op == 'call' and i.extra[0] == ('g', 'osDelete')]
    k = 'UnlockBasename removes the busy file'
    ctx.oblige(k)
    if not dels:
        ctx.finding(k, 'UnlockBasename does not delete anything', 'UnlockBasename')


# ------------------------------------------------------------------ PackFile
class Pack(Rule):
    """ts: (where the mail is, bad, seeks, absent, template)
    where: 'file' the packet, ('as', buf) renamed, 'packed' in a bundle, 'copied' in an outbound packet, 'filed' recorded in flow or orphan file"""
    correlate = False
    keep_consts = True
    max_states = 800
    START = ('file', None, frozenset(), frozenset(), None, None, False)
    transient = lambda s, a: True
    # where, copy state (None 'open' 'bad' 'eof' 'done'), seeks, absent outbound files, template of the command, bundle buffer, deleted

    def key(s, what):
        return f'PackFile: {what}'

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) == 'ConfigNode'

    def chk(s, eng, st, i, fr, what, good, msg):
        s.ctx.oblige(s.key(what), locstr(i))
        if not good:
            eng.report(s.key(what), msg, st, i, fr)

    def two(s, eng, st, i, t, args, ok_ts, no_ts):
        no, ok = eng.fork(st, t, args)
        ok.ts, no.ts = ok_ts, no_ts
        if not i.res:
            return [(ok, None), (no, None)]
        return [(ok, C1), (no, C0)]

    def on_call(s, eng, st, i, t, args, fr):
        where, cp, seeks, absent, tpl, arc, gone = st.ts
        T = lambda **k: tuple(k.get(n, v) for n, v in zip(('where', 'cp', 'seeks', 'absent', 'tpl', 'arc', 'gone'), (where, cp, seeks, absent, tpl, arc, gone)))
        file = ('arg', 'PackFile', 0)
        if t == 'osRename' or t == 'movefile':
            if args[0] == file:
                s.chk(eng, st, i, fr, 'the packet is moved once', where == 'file', 'the packet is renamed although it is not there any more')
                return s.two(eng, st, i, t, args, T(where=('as', args[1])), st.ts)
            if args[1] == file and isinstance(where, tuple) and where[1] == args[0]:
                return s.two(eng, st, i, t, args, T(where='file'), T(where='stuck'))
            return None
        if t == 'ExpandPacker':
            st.ts = T(tpl=('packer' if ldp(args[0]) else 'other', args[1]), arc=args[3] if len(args) > 3 else None)
            return None
        if t == 'osExecute':
            if tpl and tpl[1] == args[0]:
                no, ok = eng.fork(st, t, args)
                if tpl[0] == 'packer':
                    s.chk(eng, st, i, fr, 'the packer gets the renamed packet', isinstance(where, tuple) and where[0] == 'as', 'the packer is run before the packet has its final name')
                    ok.ts = T(where=('packed', where[1] if isinstance(where, tuple) else None), tpl=None)
                else:
                    ok.ts = T(tpl=None)
                no.ts = T(tpl=None)
                v = eng.result(no, i, t, args, fr)
                no.facts[('nz', v)] = True
                return [(ok, C0), (no, v)]
            return None
        if t == 'osExists':
            return self_exists(s, eng, st, i, t, args, T, absent)
        if t == 'osOpen':
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            if args[1] == ('c', s.NEW):
                s.chk(eng, st, i, fr, 'an outbound packet is created only when there is none', args[0] in absent, 'an outbound packet that may exist is overwritten')
                ok.ts = T(cp='open', seeks=frozenset({'new'}))
            elif args[1] == ('c', s.RW):
                ok.ts = T(cp='open', seeks=frozenset({'append'}))
            return [(ok, v), (no, C0)]
        if t == 'osSeek':
            st.ts = T(seeks=seeks | {('seek', args[1], args[2])})
            return None
        if t == 'osRead':
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            no.ts = T(cp='eof' if cp == 'open' else cp)
            return [(ok, v), (no, C0)]
        if t == 'osWrite':
            if 'append' in seeks:
                s.chk(eng, st, i, fr, 'mail is appended behind the mail already in the outbound packet', ('seek', ('c', -2), ('c', s.END)) in seeks and ('seek', ('c', s.HDR), ('c', s.BEG)) in seeks,
                      'mail is appended without skipping the packet header and the old end of the packet')
            else:
                s.chk(eng, st, i, fr, 'a new outbound packet gets the whole packet', not any(isinstance(x, tuple) for x in seeks), 'a new outbound packet gets only a part of the packet')
            return s.two(eng, st, i, t, args, st.ts, T(cp='bad'))
        if t == 'osClose':
            if args[0][0] == 'call' and args[0][1] == 'osOpen' and len(args[0][2]) > 1 and args[0][2][1] == ('c', s.OLD):
                return None
            return s.two(eng, st, i, t, args, T(cp='done' if cp == 'eof' else cp), T(cp='bad' if cp else cp))
        if t == 'osDelete':
            s.chk(eng, st, i, fr, 'the file that has the mail is not deleted', not (args[0] == arc and (where == 'filed' or isinstance(where, tuple) and where[0] == 'packed')), 'the bundle or packet that has the mail is deleted')
            if args[0] == file:
                s.chk(eng, st, i, fr, 'a packet is deleted only when it was copied completely', cp == 'done' and where == 'file', 'the packet is deleted although not all of it is known to be in the outbound')
                st.ts = T(where='filed', gone=True)
            elif isinstance(where, tuple) and where[1] == args[0]:
                s.chk(eng, st, i, fr, 'a packet is deleted only when it was packed', where[0] == 'packed', 'the packet is deleted although the packer did not succeed')
                st.ts = T(gone=True)
            return None
        if t == 'doAddFlow':
            s.chk(eng, st, i, fr, 'flow entries name the file that has the mail', s.names(where, arc, args[0]), 'the flow entry names another file than the one with the mail')
            s.chk(eng, st, i, fr, 'sent files are deleted or truncated by the mailer', args[3] in (('c', s.FDEL), ('c', s.FTRUNC)), 'the flow entry leaves the file in place after sending')
            return s.two(eng, st, i, t, args, T(where='filed', arc=args[0]), st.ts)
        if t == 'MakeOrphan':
            s.chk(eng, st, i, fr, 'orphan records name the file that has the mail', s.names(where, arc, args[0]), 'the orphan record names another file than the one with the mail')
            st.ts = T(where='filed', arc=args[0])
            return None
        return None

    def names(s, where, arc, x):
        if not isinstance(where, tuple):
            return False
        return x == arc if where[0] == 'packed' else x == where[1]

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        where, cp, seeks, absent, tpl, arc, gone = st.ts
        yes = val != C0 and st.truth(('nz', val)) is not False
        if yes:
            s.chk(eng, st, i, fr, 'success only when the mail is filed in the outbound', where == 'filed', 'success is reported although the mail is neither in a flow file nor in an outbound packet')
        else:
            s.chk(eng, st, i, fr, 'failure only while the packet still exists', where in ('file', 'stuck'), 'failure is reported although the packet is gone or was filed')


def self_exists(s, eng, st, i, t, args, T, absent):
    no, ok = eng.fork(st, t, args)
    no.ts = T(absent=absent | {args[0]})
    return [(ok, C1), (no, C0)]


def ldp(t):
    """is the command template that of a packer?"""
    return fld(t, 'Packer', 'Packer') is not None or fld(t, 'Packer', None) is not None and t[3] == 'Packer'


def packs(ctx):
    """PackFile deletes a packet only after packing or copying it completely, files it, and otherwise leaves it in place and reports failure"""
    p = ctx.prog()
    ctx.need(p, 'PackFile', 'doAddFlow', 'MakeOrphan')
    r = Pack()
    r.p = p
    r.OLD, r.NEW, r.RW = (ctx.const(x) for x in ('MODE_OLDFILE', 'MODE_NEWFILE', 'MODE_READWRITE'))
    r.END, r.BEG, r.HDR = ctx.const('OFFSET_END'), ctx.const('OFFSET_BEGINNING'), ctx.const('SIZE_PKTHEADER')
    r.FDEL, r.FTRUNC = ctx.const('FLOW_DELETE'), ctx.const('FLOW_TRUNC')
    ctx.run(p, r, 'PackFile', Pack.START)
    ctx.floor('PackFile: ', 8)


# ------------------------------------------------------------------ flow files, orphans
class Flow(Rule):
    """doAddFlow: ts: 'found' | 'seek' | 'written' | 'bad' | 'closed' ..."""
    correlate = False
    keep_consts = True
    max_states = 200

    def on_call(s, eng, st, i, t, args, fr):
        k0 = 'doAddFlow: '
        if t == 'osOpen':
            k = k0 + 'an existing flow file is never truncated'
            s.ctx.oblige(k, locstr(i))
            if args[1] == ('c', s.NEW) and ('absent', args[0]) not in st.ts:
                eng.report(k, 'the flow file is created anew although it may exist', st, i, fr)
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            return [(ok, v), (no, C0)]
        if t == 'osExists':
            no, ok = eng.fork(st, t, args)
            no.ts = st.ts | {('absent', args[0])}
            return [(ok, C1), (no, C0)]
        if t == 'osSeek' and args[1:] == (C0, ('c', s.END)):
            st.ts = st.ts | {'end'}
        if t == 'osFGets':
            st.ts = st.ts - {'end'}
            no, ok = eng.fork(st, t, args)
            no.ts = st.ts | {'scanned'}
            return [(ok, args[1]), (no, C0)]
        if t in ('osFPrintf', 'osPuts', 'osWrite', 'osVFPrintf'):
            k = k0 + 'entries are added behind the existing ones'
            s.ctx.oblige(k, locstr(i))
            if 'end' not in st.ts:
                eng.report(k, 'the entry is not written at the end of the flow file', st, i, fr)
            k = k0 + 'the entry names the file'
            s.ctx.oblige(k, locstr(i))
            if t == 'osFPrintf' and ('arg', 'doAddFlow', 0) not in args:
                eng.report(k, 'the entry does not contain the name of the file', st, i, fr)
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {'written'}
            no.ts = no.ts | {'bad'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'osClose':
            no, ok = eng.fork(st, t, args)
            if 'written' in st.ts:
                no.ts = no.ts | {'bad'}
            ok.ts = ok.ts | {'closed'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and not truth:
            a = call(atom[1], ('strcasecmp', 'strcmp'))
            if a is not None and ('arg', 'doAddFlow', 0) in a:
                st.ts = st.ts | {'found'}

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = 'doAddFlow: success only when the entry is in the flow file'
        s.ctx.oblige(k, locstr(i))
        if val != C0 and st.truth(('nz', val)) is not False and not ('found' in st.ts or 'written' in st.ts and 'bad' not in st.ts and 'closed' in st.ts):
            eng.report(k, 'success is reported although the entry was not written completely', st, i, fr)


class Orphan(Rule):
    """HandleOrphan: the record goes away only after the file was entered; AddFlow: entered or recorded"""
    correlate = False
    keep_consts = True

    def __init__(s, root):
        s.root = root

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'doAddFlow':
            no, ok = eng.fork(st, t, args)
            ok.ts = ok.ts | {'filed'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'MakeOrphan':
            if s.root == 'AddFlow':
                k = 'AddFlow: the orphan record names the file'
                s.ctx.oblige(k, locstr(i))
                if args[0] != ('arg', 'AddFlow', 0):
                    eng.report(k, 'the orphan record names another file', st, i, fr)
            st.ts = st.ts | {'filed'}
        if t == 'osDelete' and s.root == 'HandleOrphan':
            k = 'HandleOrphan: the record is deleted only after its file was entered in the flow file'
            s.ctx.oblige(k, locstr(i))
            if args[0] != ('arg', 'HandleOrphan', 0):
                eng.report('HandleOrphan: only the record is deleted', 'another file than the orphan record is deleted', st, i, fr)
            if 'filed' not in st.ts:
                eng.report(k, 'the orphan record is deleted although its file was not entered in the flow file', st, i, fr)
            st.ts = st.ts | {'deleted'}
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        if s.root == 'AddFlow':
            k = 'AddFlow: the file is entered in the flow file or recorded as orphan'
            s.ctx.oblige(k, locstr(i))
            if 'filed' not in st.ts:
                eng.report(k, 'a file is neither entered in the flow file nor recorded as orphan', st, i, fr)


def flows(ctx):
    """files for a node are entered in its flow file completely or recorded as orphans, and records are deleted only after that"""
    p = ctx.prog()
    ctx.need(p, 'doAddFlow', 'AddFlow', 'HandleOrphan')
    r = Flow()
    r.NEW, r.END = ctx.const('MODE_NEWFILE'), ctx.const('OFFSET_END')
    ctx.run(p, r, 'doAddFlow', frozenset())
    for n in ('AddFlow', 'HandleOrphan'):
        ctx.run(p, Orphan(n), n, frozenset())


# ------------------------------------------------------------------ the directory of new packets
def cfgdir(t, name):
    return fld(t, 'Config', name) is not None or ldfld(t, 'Config', name) is not None


def entry(p, t):
    """a cursor over directory entries"""
    return points_to(p, t) == 'osFileEntry' or t[0] == 'ld' and fld(t[1], 'jbList', 'First') is not None


class Archive(Rule):
    """ts: 'ok' | ('new', name): a packet that is not filed yet | 'bad': a directory could not be read"""
    correlate = False
    keep_consts = True
    max_states = 300

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osReadDir':
            no, ok = eng.fork(st, t, args)
            ok.ts = (st.ts[0], 'new' if cfgdir(args[0], 'cfg_PacketCreate') else st.ts[1], st.ts[2])
            no.ts = ('bad',) + st.ts[1:]
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t in ('PackFile', 'MakePktTmp') and i.res is not None:
            if t == 'MakePktTmp':
                k = 'ArchiveOutbound: the packet that could not be packed is kept'
                s.ctx.oblige(k, locstr(i))
                if st.ts[2] != ('failed', args[0]):
                    eng.report(k, 'another packet than the one that could not be packed is renamed', st, i, fr)
            no, ok = eng.fork(st, t, args)
            new = st.ts[1] == 'new'
            ok.ts = (st.ts[0], st.ts[1], 'done')
            no.ts = (st.ts[0], st.ts[1], ('failed', args[0]) if new else 'done')
            return [(ok, C1), (no, C0)]
        if t == 'HandleOrphan':
            st.ts = st.ts[:2] + ('done',)
            return None
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and entry(s.p, atom[1]):
            k = 'ArchiveOutbound: every packet found is handled'
            s.ctx.oblige(k, locstr(i))
            if st.ts[2] == 'pending' and st.ts[1] == 'new':
                eng.report(k, 'a new packet is neither packed nor kept for the next run', st, i, fr)
            s.fail(eng, st, i, fr)
            st.ts = st.ts[:2] + ('pending' if truth else None,)

    def fail(s, eng, st, i, fr):
        k = 'ArchiveOutbound: a packet that cannot be packed is kept or reported'
        s.ctx.oblige(k, locstr(i))
        if isinstance(st.ts[2], tuple):
            eng.report(k, 'a packet that could neither be packed nor kept is not reported', st, i, fr)

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        if val != C0 and st.truth(('nz', val)) is not False:
            s.fail(eng, st, i, fr)
            k = 'ArchiveOutbound: success only when all directories were read'
            s.ctx.oblige(k, locstr(i))
            if st.ts[0] == 'bad' or st.ts[1] != 'new':
                eng.report(k, 'success is reported although the new packets were not looked for', st, i, fr)


class Move(Rule):
    """movefile: ts: 'old' | 'moved' | 'copied' | 'gone'"""
    correlate = False
    keep_consts = True

    def __init__(s, root):
        s.root = root

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('osRename', 'copyfile', 'movefile') and args[0] == ('arg', s.root, 0):
            no, ok = eng.fork(st, t, args)
            ok.ts = 'copied' if t == 'copyfile' else 'moved'
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'osDelete' and args[0] == ('arg', s.root, 0):
            k = f'{s.root}: the source is deleted only after it was copied'
            s.ctx.oblige(k, locstr(i))
            if st.ts != 'copied':
                eng.report(k, 'a file is deleted although it was not copied completely', st, i, fr)
            st.ts = 'moved'
        return None

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is not None:
            return
        k = f'{s.root}: success only when the file has its new name'
        s.ctx.oblige(k, locstr(i))
        if val != C0 and st.truth(('nz', val)) is not False and st.ts not in ('moved', 'copied'):
            eng.report(k, 'success is reported although the file was not moved', st, i, fr)
        k = f'{s.root}: failure only while the file still exists'
        s.ctx.oblige(k, locstr(i))
        if val == C0 and st.ts == 'moved':
            eng.report(k, 'failure is reported although the file was moved', st, i, fr)


class Copy(Rule):
    """copyfile: ts: set of 'bad', 'eof', 'closed'"""
    correlate = False
    keep_consts = True
    max_states = 200

    def track(s, atom, st):
        return atom == ('nz', GL('ioerror'))

    def track_mem(s, addr, val):
        return addr == ('g', 'ioerror')

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osOpen':
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            ok.ts = ok.ts | ({'src'} if args[0] == ('arg', 'copyfile', 0) else {'dst'})
            if args[0] == ('arg', 'copyfile', 0) and args[1] != ('c', s.OLD):
                eng.report('copyfile: the source is only read', 'the source is opened for writing', st, i, fr)
            return [(ok, v), (no, C0)]
        if t == 'osRead':
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, args, fr)
            ok.facts[('nz', v)] = True
            no.ts = no.ts | {'eof'}
            return [(ok, v), (no, C0)]
        if t in ('osWrite', 'osClose'):
            if t == 'osClose' and args[0][0] == 'call' and args[0][2][1:] == (('c', s.OLD),):
                return None
            no, ok = eng.fork(st, t, args)
            no.ts = no.ts | {'bad'}
            if t == 'osClose':
                ok.ts = ok.ts | {'closed'}
            if not i.res:
                return [(ok, None), (no, None)]
            return [(ok, C1), (no, C0)]
        if t == 'osDelete' and args[0] == ('arg', 'copyfile', 0):
            eng.report('copyfile: the source is only read', 'the source is deleted', st, i, fr)
        return None

    def on_ret(s, eng, st, i, val, fr):
        k = 'copyfile: success only when everything was written and closed'
        s.ctx.oblige(k, locstr(i))
        if fr.caller is None and val != C0 and st.truth(('nz', val)) is not False and ('bad' in st.ts or not {'eof', 'closed', 'src', 'dst'} <= st.ts):
            eng.report(k, 'success is reported although the copy is not complete', st, i, fr)


class Zero(Rule):
    """DeleteZero: ts: the entry is known to be empty"""
    correlate = False

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'nz' and ldfld(atom[1], 'osFileEntry', 'Size') is not None:
            st.ts = ('zero' if not truth else 'used', ldfld(atom[1], 'osFileEntry', 'Size'))
        elif atom[0] == 'nz' and entry(s.p, atom[1]):
            st.ts = (None, None)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osDelete':
            k = 'DeleteZero: only empty bundles are deleted'
            s.ctx.oblige(k, locstr(i))
            if st.ts[0] != 'zero':
                eng.report(k, 'a bundle is deleted that is not known to be empty', st, i, fr)
        return None


def archive(ctx):
    """ArchiveOutbound packs every new packet or keeps it for the next run, and reports failure otherwise; files are moved without loss; only empty bundles are deleted"""
    p = ctx.prog()
    ctx.need(p, 'ArchiveOutbound', 'PackFile', 'MakePktTmp', 'movefile', 'copyfile', 'DeleteZero')
    r = Archive()
    r.p = p
    ctx.run(p, r, 'ArchiveOutbound', ('ok', None, None))
    for n in ('MakePktTmp', 'movefile'):
        ctx.run(p, Move(n), n, 'old')
    c = Copy()
    c.OLD = ctx.const('MODE_OLDFILE')
    ctx.run(p, c, 'copyfile', frozenset())
    z = Zero()
    z.p = p
    ctx.run(p, z, 'DeleteZero', (None, None))


# ------------------------------------------------------------------ packet numbers
class Numbers(Rule):
    """CreatePkt: ts: 'new': the second differs from the one of the last packet, 'same': it does
    not; 'low': the number inside the second is in range; 'noted': the second was remembered;
    ('absent', name): no such file"""
    correlate = False

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'time' and args and args[0] == C0:
            st.ts = st.ts - {'new', 'same', 'noted'}
            return None
        if t == 'osExists':
            no, ok = eng.fork(st, t, args)
            no.ts = no.ts | {('absent', args[0])}
            return [(ok, C1), (no, C0)]
        if t == 'osOpen':
            k = 'CreatePkt: a packet is created only under a name that no file has'
            s.ctx.oblige(k, locstr(i))
            if ('absent', args[0]) not in st.ts:
                eng.report(k, 'the packet is created without looking whether there is a file with this name', st, i, fr)
            k = 'CreatePkt: the number of a packet is not used a second time in a run'
            s.ctx.oblige(k, locstr(i))
            if 'low' not in st.ts:
                eng.report(k, 'the number inside the second may have run over', st, i, fr)
            if not st.ts & {'same', 'noted'}:
                eng.report(k, 'the second that is part of the number is not remembered', st, i, fr)
        if t in ('sprintf', 'snprintf', 'MakeFullPath'):
            st.ts = frozenset(x for x in st.ts if not (x[0] == 'absent' and x[1] in args))
        return None

    def on_branch(s, eng, st, i, atom, truth, fr):
        if atom[0] == 'eq':
            a = {s.what(st, x) for x in atom[1:]}
            if a == {'now', 'last'}:
                st.ts = st.ts - {'new', 'same'} | {'same' if truth else 'new'}
            elif 'count' in a and not truth and any(x[0] == 'c' and 0 < x[1] <= 256 for x in atom[1:]):
                st.ts = st.ts | {'low'}
        if atom[0] == 'lt':
            a, b, tr = atom[2], atom[3], truth
            if s.what(st, a) == 'count' and b[0] == 'c' and b[1] <= 256 and truth:
                st.ts = st.ts | {'low'}
            if s.what(st, b) == 'count' and a[0] == 'c' and a[1] < 256 and not truth:
                st.ts = st.ts | {'low'}
            if s.what(st, a) == 'last' and s.what(st, b) == 'now' and truth:
                st.ts = st.ts - {'new', 'same'} | {'new'}

    def what(s, st, x):
        """now: the present second; last: a remembered second; count: a number kept between packets"""
        while x[0] in ('cast', 'trunc', 'zext', 'sext'):
            x = x[-1]
        if x[0] == 'call' and x[1] == 'time' or x[0] in ('phi', 'opq') and x[1] == 'CreatePkt' and s.times(x[2]):
            return 'now'
        if x[0] == 'ld' and ('now', x[1]) in st.ts:
            return 'now'
        if x[0] == 'ld' and x[1][0] == 'g':
            return 'last' if x[1][1] in s.last else 'count' if x[1][1] in s.count else ''
        if x[0] == 'bin' and x[1] == 'add' and x[3] == C1:
            return 'count' if s.what(st, x[2]) == 'count' else ''
        return ''

    def times(s, reg, seen=()):
        """is the register always the result of a call of time?"""
        d = s.defs.get(reg)
        if reg in seen:
            return True
        if d is None:
            return False
        if d.op == 'call':
            return d.extra[0] == ('g', 'time')
        if d.op == 'cast':
            return d.ops[0][0] == 'v' and s.times(d.ops[0][1], seen + (reg,))
        return d.op == 'phi' and all(v[0] == 'v' and s.times(v[1], seen + (reg,)) for b, v in d.extra)

    def on_store(s, eng, st, i, addr, val, fr):
        if addr[0] != 'g':
            if s.what(st, val) == 'now':
                st.ts = st.ts | {('now', addr)}
            else:
                st.ts = st.ts - {('now', addr)}
            return
        g = addr[1]
        k = 'CreatePkt: the number of a packet is not used a second time in a run'
        if g in s.last:
            if s.what(st, val) != 'now':
                eng.report(k, 'something else than the present second is remembered', st, i, fr)
            st.ts = st.ts | {'noted'}
        elif g in s.count:
            if val[0] == 'c':
                if 'new' not in st.ts:
                    eng.report(k, 'the numbers of a second start again although its packets may have been finished and renamed', st, i, fr)
                st.ts = st.ts | {'low'}
            else:
                st.ts = st.ts - {'low'}
                if s.what(st, val) != 'count':
                    eng.report(k, 'the number inside the second is changed in an unknown way', st, i, fr)


def numbers(ctx):
    """CreatePkt never uses a packet number twice in a run: numbers start again only in a new second, which is remembered in variables nothing else changes"""
    p = ctx.prog()
    ctx.need(p, 'CreatePkt')
    r = Numbers()
    r.last, r.count = set(), set()
    f = p.m.funcs['CreatePkt']
    cand = {}
    r.defs = {i.res: i for b in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks) for i in b.phis + b.insts if i.res}
    for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
        for i in b.insts:
            if i.op == 'store' and i.ops[1][0] == 'g':
                cand.setdefault(i.ops[1][1], []).append(i)
    for g, st in cand.items():
        if g in ('nomem', 'ioerror', 'ioerrornum'):
            continue
        if p.m.globals[g][0] == 'i64':
            r.last.add(g)
        else:
            r.count.add(g)
    k = 'CreatePkt: the number of a packet is not used a second time in a run'
    for n, h in p.m.funcs.items():
        if n == 'CreatePkt':
            continue
        for b in h.blocks.values() if isinstance(h.blocks, dict) else h.blocks:
            for i in b.insts:
                if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[1][1] in r.last | r.count:
                    ctx.finding(k + '@' + n, f'{n} changes a variable the packet numbers depend on', locstr(i))
    ctx.run(p, r, 'CreatePkt', frozenset())
    ctx.floor('CreatePkt:', 2)


RULES = {
    'A15': ('Outgoing mail is filed in the outbound without loss', [locks, packs, flows, archive, numbers, open_modes]),
}
