"""What a line of the configuration means: every keyword sets its own setting from its own words."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .config import literal_match

READ = ('jbstrcpy', 'jbstrcpyrest')
PARSE = {'Parse4D': 'addr', 'Parse4DTemplate': 'addr', 'Parse4DPat': 'pat', 'Parse4DDestPat': 'dpat', 'Parse2DPat': 'pat2'}
NUM = ('atoi', 'atol', 'strtol', 'strtoul')


class K:
    """meaning of a keyword.  counts: numbers of words a line may have; need: effects every accepted line has (if its word is there);
    words: {number of the word (0: any further word): {literal: effects}}; each: effects of every word; on: 'new' or 'last' object per struct"""
    def __init__(s, counts, need=(), words=None, each=(), on=None, flags=()):
        s.counts, s.need, s.words, s.each, s.on, s.flags = counts, frozenset(need), words or {}, frozenset(each), on or {}, flags


def table(c):
    T = {}

    def flagword(w, m, S='Config', F='cfg_Flags', on=None):
        T[w] = K({0}, [('or', S, F, c(m))], on=on)
    for w in ('STRIPRE', 'FORCEINTL', 'BOUNCEHEADERONLY', 'REMOVEWHENFEED', 'INCLUDEFORWARD', 'NOMAXOUTBOUNDZONE', 'ALLOWKILLSENT', 'FLOWCRLF',
              'NOEXPORTNETMAIL', 'NOROUTE', 'ANSWERRECEIPT', 'ANSWERAUDIT', 'CHECKSEENBY', 'CHECKPKTDEST', 'PATH3D', 'IMPORTEMPTYNETMAIL',
              'IMPORTAREAFIX', 'AREAFIXREMOVE', 'NODIRECTATTACH', 'BOUNCEPOINTS', 'IMPORTSEENBY', 'WEEKDAYNAMING', 'ADDTID', 'ALLOWRESCAN', 'FORWARDPASSTHRU'):
        flagword(w, 'CFG_' + w)
    for w in ('MSG_HIGHWATER', 'MSG_WRITEBACK'):
        flagword(w, 'CFG_' + w, F='cfg_msg_Flags')
    for w in ('JAM_HIGHWATER', 'JAM_LINK', 'JAM_QUICKLINK'):
        flagword(w, 'CFG_' + w, F='cfg_jam_Flags')
    for w in ('UNCONFIRMED', 'MANDATORY', 'DEFREADONLY', 'IGNOREDUPES', 'IGNORESEENBY'):
        flagword(w, 'AREA_' + w, 'Area', 'Flags', {'Area': 'last'})
    for w, F in (('INBOUND', 'cfg_Inbound'), ('OUTBOUND', 'cfg_Outbound'), ('SYSOP', 'cfg_Sysop'), ('BEFORETOSS', 'cfg_BeforeToss'), ('BEFOREPACK', 'cfg_BeforePack'),
                 ('AREAFIXHELP', 'cfg_AreaFixHelp'), ('LOGFILE', 'cfg_LogFile'), ('STATSFILE', 'cfg_StatsFile'), ('TEMPDIR', 'cfg_TempDir'),
                 ('CREATEPKTDIR', 'cfg_PacketCreate'), ('PACKETDIR', 'cfg_PacketDir')):
        T[w] = K({1}, [('str', 'Config', F, 1)])
    for w, F, m in (('MAXPKTSIZE', 'cfg_MaxPktSize', 1024), ('MAXBUNDLESIZE', 'cfg_MaxBundleSize', 1024), ('DEFAULTZONE', 'cfg_DefaultZone', 1),
                    ('AREAFIXMAXLINES', 'cfg_AreaFixMaxLines', 1), ('JAM_MAXOPEN', 'cfg_jam_MaxOpen', 1), ('LOGLEVEL', 'cfg_LogLevel', 1)):
        T[w] = K({1}, [('num', 'Config', F, (1, m))])
    T['DUPEFILE'] = K({2}, [('str', 'Config', 'cfg_DupeFile', 1), ('num', 'Config', 'cfg_DupeSize', (2, 1))])
    T['DUPEMODE'] = K({1}, words={1: {w: {('set', 'Config', 'cfg_DupeMode', c('DUPE_' + w))} for w in ('IGNORE', 'KILL', 'BAD')}})
    T['LOOPMODE'] = K({1}, words={1: {w: {('set', 'Config', 'cfg_LoopMode', c('LOOP_' + w.replace('+', '')))} for w in ('IGNORE', 'LOG', 'LOG+BAD')}})
    T['NODELIST'] = K({2}, [('str', 'Config', 'cfg_Nodelist', 1), ('ref', 'Config', 'cfg_NodelistType', 2)])
    T['GROUPNAME'] = K({2}, [('strat', 'Config', 'cfg_GroupNames', (2, 1))], flags={1})
    A = {'Aka': 'new'}
    T['AKA'] = K({1}, [('add', 'Config', 'AkaList', 'Aka'), ('addr', 'Aka', 'Node', 1)], on=A)
    A = {'Aka': 'last', 'AddNode': 'new', 'RemNode': 'new'}
    T['ADDNODE'] = K(None, each=[('add', 'Aka', 'AddList', 'AddNode'), ('addr', 'AddNode', 'Node', 'w')], on=A)
    T['REMNODE'] = K(None, each=[('add', 'Aka', 'RemList', 'RemNode'), ('pat2', 'RemNode', 'NodePat', 'w')], on=A)
    T['DOMAIN'] = K({1}, [('str', 'Aka', 'Domain', 1)], on=A)
    sw = {w: {('or', 'ConfigNode', 'Flags', c('NODE_' + w))} for w in ('NOTIFY', 'PASSIVE', 'NOSEENBY', 'TINYSEENBY', 'FORWARDREQ', 'PACKNETMAIL', 'SENDAREAFIX',
                                                                        'SENDTEXT', 'AUTOADD', 'NONETMAILPASSWORD')}
    sw.update({w: {('set', 'ConfigNode', 'EchomailPri', c('PKTS_' + w))} for w in ('CRASH', 'DIRECT', 'HOLD')})
    T['NODE'] = K(3, [('add', 'Config', 'CNodeList', 'ConfigNode'), ('addr', 'ConfigNode', 'Node', 1), ('ref', 'ConfigNode', 'Packer', 2), ('str', 'ConfigNode', 'PacketPW', 3),
                      ('set', 'ConfigNode', 'EchomailPri', c('PKTS_NORMAL'))], {0: sw}, on={'ConfigNode': 'new'})
    N = {'ConfigNode': 'last'}
    T['PKTFROM'] = K({1}, [('or', 'ConfigNode', 'Flags', c('NODE_PKTFROM')), ('addr', 'ConfigNode', 'PktFrom', 1)], on=N)
    T['AREAFIXINFO'] = K({1, 2, 3, 4}, [('str', 'ConfigNode', 'AreafixPW', 1), ('str', 'ConfigNode', 'Groups', 2), ('str', 'ConfigNode', 'ReadOnlyGroups', 3),
                                        ('str', 'ConfigNode', 'AddGroups', 4)], on=N, flags={2, 3, 4})
    T['DEFAULTGROUP'] = K({1}, [('chr', 'ConfigNode', 'DefaultGroup', 1)], on=N, flags={1})
    T['REMOTEAF'] = K(2, [('str', 'ConfigNode', 'RemoteAFName', 1), ('str', 'ConfigNode', 'RemoteAFPw', 2)],
                      {0: {'NEEDSPLUS': {('or', 'ConfigNode', 'Flags', c('NODE_AFNEEDSPLUS'))}}}, on=N)
    T['REMOTESYSOP'] = K({1}, [('str', 'ConfigNode', 'SysopName', 1)], on=N)
    for w in ('AREA', 'NETMAIL', 'LOCALAREA'):
        T[w] = K({2, 4} if w == 'AREA' else {4}, [('add', 'Config', 'AreaList', 'Area'), ('str', 'Area', 'Tagname', 1), ('ref', 'Area', 'Aka', 2), ('ref', 'Area', 'Messagebase', 3),
                                                  ('str', 'Area', 'Path', 4), ('type',)], on={'Area': 'new'})
    L = {'Area': 'last', 'TossNode': 'new', 'ImportNode': 'new', 'BannedNode': 'new'}
    T['EXPORT'] = K(None, each=[('add', 'Area', 'TossNodes', 'TossNode'), ('ref', 'TossNode', 'ConfigNode', 'w'), ('prefix',), ('tpl',)], on=L)
    T['IMPORT'] = K(None, each=[('add', 'Area', 'TossNodes', 'ImportNode'), ('addr', 'ImportNode', 'Node', 'w')], on=L)
    T['BANNED'] = K(None, each=[('add', 'Area', 'BannedNodes', 'BannedNode'), ('ref', 'BannedNode', 'ConfigNode', 'w')], on=L)
    T['DESCRIPTION'] = K({1}, [('str', 'Area', 'Description', 1)], on=L)
    T['GROUP'] = K({1}, [('chr', 'Area', 'Group', 1)], on=L, flags={1})
    T['KEEPNUM'] = K({1}, [('num', 'Area', 'KeepNum', (1, 1))], on=L)
    T['KEEPDAYS'] = K({1}, [('num', 'Area', 'KeepDays', (1, 1))], on=L)
    T['AREAFIXNAME'] = K({1}, [('add', 'Config', 'AreaFixList', 'AreaFixName'), ('str', 'AreaFixName', 'Name', 1)], on={'AreaFixName': 'new'})
    for w, F in (('FILEATTACH', 'FileAttachList'), ('BOUNCE', 'BounceList')):
        T[w] = K(None, each=[('add', 'Config', F, 'PatternNode'), ('pat', 'PatternNode', 'Pattern', 'w')], on={'PatternNode': 'new'})
    T['PACKER'] = K({4}, [('add', 'Config', 'PackerList', 'Packer')] + [('str', 'Packer', F, k + 1) for k, F in enumerate(('Name', 'Packer', 'Unpacker', 'Recog'))], on={'Packer': 'new'})
    T['ROUTE'] = K({3}, [('add', 'Config', 'RouteList', 'Route'), ('pat', 'Route', 'Pattern', 1), ('dpat', 'Route', 'DestPat', 2), ('ref', 'Route', 'Aka', 3)], on={'Route': 'new'})
    one = {w: {('set', 'Change', 'Change' + w.capitalize(), 1)} for w in ('NORMAL', 'CRASH', 'HOLD', 'DIRECT')}
    one['*'] = set().union(*one.values())
    T['CHANGE'] = K({3}, [('add', 'Config', 'ChangeList', 'Change'), ('pat', 'Change', 'Pattern', 2)],
                    {1: one, 3: {w: {('set', 'Change', 'DestPri', c('PKTS_' + w))} for w in ('NORMAL', 'CRASH', 'HOLD', 'DIRECT')}}, on={'Change': 'new'})
    T['AREALIST'] = K(2, [('add', 'Config', 'ArealistList', 'Arealist'), ('ref', 'Arealist', 'Node', 1), ('str', 'Arealist', 'AreaFile', 2)],
                      {0: {'FORWARD': {('or', 'Arealist', 'Flags', c('AREALIST_FORWARD'))}, 'DESC': {('or', 'Arealist', 'Flags', c('AREALIST_DESC'))},
                           'GROUP': {('chr', 'Arealist', 'Group', 'w')}}}, on={'Arealist': 'new'})
    T['FILTER'] = K({1}, [('add', 'Config', 'FilterList', 'Filter'), ('str', 'Filter', 'Filter', 1)], on={'Filter': 'new'})
    C = {'Filter': 'last', 'Command': 'new'}
    for w in ('KILL', 'TWIT', 'COPY', 'EXECUTE', 'WRITELOG', 'WRITEBAD', 'BOUNCEMSG', 'BOUNCEHEADER', 'REMAPMSG', 'MASQUERADE'):
        need = [('add', 'Filter', 'CommandList', 'Command'), ('set', 'Command', 'Cmd', c('COMMAND_' + w))]
        n = 0 if w in ('KILL', 'TWIT') else 1
        if n:
            need.append(('dup', 'Command', 'string', 1))
        if w in ('REMAPMSG', 'MASQUERADE'):
            need.append(('dpat', 'Command', 'n4ddestpat', 2))
            n = 2
        T[w] = K({n}, need, on=C)
    return T


PREFIX = {'!': 'TOSSNODE_READONLY', '@': 'TOSSNODE_WRITEONLY', '%': 'TOSSNODE_FEED'}
STRUCTS = {'Config', 'Aka', 'AddNode', 'RemNode', 'ConfigNode', 'Area', 'TossNode', 'ImportNode', 'BannedNode', 'AreaFixName', 'PatternNode', 'Packer', 'Route', 'Change',
           'Arealist', 'Filter', 'Command'}
TYPE = {'Aka': 'Aka', 'ConfigNode': 'ConfigNode', 'Packer': 'Packer', 'Messagebase': 'Messagebase', 'cfg_NodelistType': 'Nodelist', 'Node': 'ConfigNode'}


class Meaning(Rule):
    """ts: ('kw', word), ('k', words read), ('miss', first word that is not there), ('in', buffer, word), ('4d', variable, word), ('done', effect), ('sw', literal),
    ('tested', literal), ('swdone', effect), ('found', base, struct, word), ('bad', what), ('why',), ('new', struct, object), ('empty', word), ('pfx', char), ..."""
    correlate = False
    max_states = 4000
    max_depth = 6

    def __init__(s, p, T, c):
        s.p, s.T, s.c = p, T, c
        s.word = None
        s.seen = set()
        s.last = {}
        s.lasts = ()
        s.cfg = ('arg', 'ReadConfig', 1)

    # -- small helpers
    def one(s, st, *n):
        return next((x[len(n):] for x in st.ts if x[:len(n)] == n), None)

    def val(s, st, n, d=None):
        x = s.one(st, n)
        return x[0] if x else d

    def drop(s, st, *names):
        st.ts = frozenset(x for x in st.ts if x[0] not in names)

    def put(s, st, name, *v):
        st.ts = frozenset(x for x in st.ts if x[0] != name) | {(name,) + v}

    def add(s, st, *x):
        st.ts = st.ts | {x}

    def kw(s, st):
        return s.val(st, 'kw')

    def kkey(s, st):
        return f'configuration: {s.kw(st)}'

    def wordno(s, st, buf):
        """number of the word that is in a buffer"""
        b = buf
        while isinstance(b, tuple) and b and b[0] in ('idx', 'off'):
            b = b[1]
        x = s.one(st, 'in', b)
        return x[0] if x else None

    def effect(s, eng, st, i, fr, kind, S, F, base, x):
        """something is changed by this line"""
        w = s.kw(st)
        if w is None:
            if S != 'Config' or F not in ('changed', 'filename'):
                eng.report('configuration: only known words change settings', f'{S}.{F} is changed by a line without a known keyword', st, i, fr)
            return
        k = s.T[w]
        key = s.kkey(st)
        e = (kind, S, F, x)
        n = s.val(st, 'k', 0)
        if S == 'Config':
            if base != s.cfg:
                eng.report(key, f'another configuration than the one being read is changed ({F})', st, i, fr)
        elif S in k.on:
            new = s.fresh(st, base)
            if new:
                o = s.one(st, 'new', S)
                if o is None:
                    s.add(st, 'new', S, base)
                elif o != (base,):
                    eng.report(key, f'{F} of another {S} than the one being added is changed', st, i, fr)
            elif base[0] in ('phi', 'opq') and base[1] == 'ReadConfig':
                s.last.setdefault(S, set()).add(base[2])
            if new != (k.on[S] == 'new'):
                eng.report(key, f'{F} of {"a new" if new else "an earlier"} {S} is set by "{w}"', st, i, fr)
        ew = (kind, S, F, 'w') if x == n else e
        sw = s.val(st, 'sw')
        W = s.lits(w, n)
        if sw is not None and W and (e in W.get(sw, ()) or ew in W.get(sw, ())):
            s.add(st, 'swdone', e if e in W[sw] else ew)
        elif e in k.need:
            s.add(st, 'done', e)
        elif ew in k.each:
            s.add(st, 'done', ew)
        elif e in k.each:
            s.add(st, 'done', e)
        elif (kind, S, F, x) == ('set', 'Config', 'cfg_NodelistType', 0):
            pass
        else:
            eng.report(key, f'"{w}"{" with " + repr(sw) if sw else ""} sets {S}.{F} (word {n})', st, i, fr)

    def lits(s, w, n):
        k = s.T[w]
        return k.words.get(n) or (k.words.get(0) if n > (k.counts if isinstance(k.counts, int) else 0) else None)

    def fresh(s, st, x):
        """allocated by this line"""
        return x[0] == 'call' and x[1].startswith('osAlloc') and ('fresh', x[3]) in st.ts

    # -- reading
    def finish_word(s, eng, st, i, fr):
        """the current word has been dealt with"""
        w = s.kw(st)
        if w is None:
            return
        k, n = s.T[w], s.val(st, 'k', 0)
        key = s.kkey(st)
        s.ctx.oblige(key, i and locstr(i))
        missing = s.val(st, 'miss')
        sw, W = s.val(st, 'sw'), s.lits(w, n)
        if n and missing is None:
            if sw is not None and W:
                left = W.get(sw, set()) - {x[1] for x in st.ts if x[0] == 'swdone'}
                if left:
                    eng.report(key, f'"{w}" with "{sw}" does not set {sorted(left)[0][1]}.{sorted(left)[0][2]}', st, i, fr)
            elif W and not s.val(st, 'argof') and (s.one(st, 'tested') or (w, n) != ('CHANGE', 1)):
                eng.report(key, f'an unknown word after "{w}" is accepted', st, i, fr)
            if k.each:
                left = k.each - {x[1] for x in st.ts if x[0] == 'done'}
                if left:
                    e = sorted(left)[0]
                    eng.report(key, f'a word of "{w}" does not set {".".join(map(str, e[1:3])) or e[0]}', st, i, fr)
                s.drop(st, 'done', 'new', 'fresh', 'strobj')
            if n in k.flags and not s.one(st, 'group', n):
                eng.report(key, f'word {n} of "{w}" is taken without a check of the groups in it', st, i, fr)
        s.drop(st, 'sw', 'swdone', 'tested', 'found', 'pfx', 'argof', 'empty', 'null')

    def finish_line(s, eng, st, i, fr):
        w = s.kw(st)
        if s.one(st, 'line') is None:
            return
        if w is None:
            key = 'configuration: unknown words are refused'
            s.ctx.oblige(key, i and locstr(i))
            if not s.one(st, 'blank'):
                eng.report(key, 'a line with an unknown keyword is accepted', st, i, fr)
            return
        s.finish_word(eng, st, i, fr)
        k, n, miss = s.T[w], s.val(st, 'k', 0), s.val(st, 'miss')
        key = s.kkey(st)
        have = miss - 1 if miss is not None else n
        if isinstance(k.counts, set) and have not in k.counts and not (have > max(k.counts)) or isinstance(k.counts, int) and have < k.counts:
            eng.report(key, f'a line with "{w}" is accepted although a word is missing', st, i, fr)
        elif s.val(st, 'argmiss'):
            eng.report(key, f'a line with "{w}" is accepted although a word is missing', st, i, fr)
        for e in sorted(k.need - {x[1] for x in st.ts if x[0] == 'done'}, key=repr):
            if e[0] == 'type':
                eng.report(key, 'an area gets no type', st, i, fr)
            elif not isinstance(e[3], int) or e[0] in ('or', 'set', 'add') or e[3] <= have:
                x = e[3][0] if isinstance(e[3], tuple) else None
                if x is None or x <= have:
                    eng.report(key, f'"{w}" does not set {e[1]}.{e[2]}', st, i, fr)
        if s.one(st, 'areatype'):
            tags = {x[1]: x[2] for x in st.ts if x[0] == 'tag'}
            want = {'NETMAIL': 'AREATYPE_NETMAIL', 'LOCALAREA': 'AREATYPE_LOCAL'}.get(w)
            known = True
            if want is None:
                want = 'AREATYPE_BAD' if tags.get('BAD') else 'AREATYPE_DEFAULT' if tags.get('DEFAULT') or tags.get('DEFAULT_*') else 'AREATYPE_ECHOMAIL'
                known = any(tags.get(x) for x in ('BAD', 'DEFAULT', 'DEFAULT_*')) or all(tags.get(x) is False for x in ('BAD', 'DEFAULT', 'DEFAULT_*'))
            if s.val(st, 'areatype') != ('c', s.c(want)) or not known:
                eng.report(key, 'an area gets a type that is not the one of its keyword and name', st, i, fr)
        b = s.val(st, 'bad')
        if b:
            eng.report(key, f'a line with "{w}" is accepted although {b}', st, i, fr)
        for x in st.ts:
            if x[0] == 'unchk':
                eng.report(key, f'a line with "{w}" is accepted without asking whether {x[1]} understood its word', st, i, fr)
        if w == 'LOGLEVEL':
            ok = [v for v in range(-3, 12) if all((v < x[2]) == x[3] if x[1] == '<' else (v > x[2]) == x[3] for x in st.ts if x[0] == 'rng')]
            if ok != [1, 2, 3, 4, 5, 6]:
                eng.report(key, 'a log level out of range is accepted or a valid one refused', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osFGets':
            s.finish_line(eng, st, i, fr)
            st.ts = frozenset({('line',)})
            return None
        w = s.kw(st)
        if t.startswith('osAlloc'):
            s.add(st, 'fresh', i.id)
        elif t in READ:
            if s.one(st, 'word') is None:
                s.add(st, 'word', args[0])
                s.word = args[0]
                return None
            if w is None:
                return None
            sw = s.val(st, 'sw')
            if not (w == 'AREALIST' and sw == 'GROUP' and not s.val(st, 'argof')):
                s.finish_word(eng, st, i, fr)
            else:
                s.put(st, 'argof', sw)
            n = s.val(st, 'k', 0) + 1
            k = s.T[w]
            cap = k.counts + 1 if isinstance(k.counts, int) else 1 if k.counts is None else max(k.counts) + 1
            n = min(n, cap)
            s.put(st, 'k', n)
            st.ts = frozenset(x for x in st.ts if x[:2] != ('in', args[0])) | {('in', args[0], n)}
            if s.val(st, 'miss') is None or s.val(st, 'miss') == n:
                s.put(st, 'miss', n)
            if t == 'jbstrcpyrest' and w != 'FILTER':
                eng.report(s.kkey(st), f'the rest of the line is taken for word {n}', st, i, fr)
            a, ix = args[0], None
            if a[0] == 'idx' and fld(a[1], 'Config', 'cfg_GroupNames') is not None:
                ix, a = a[2], a[1]
            if a[0] == 'fld' and a[2] in STRUCTS:
                if ix is not None:
                    x = [y for y in s.chars(ix)]
                    g = s.wordno(st, x[0]) if len(x) == 1 else None
                    s.effect(eng, st, i, fr, 'strat', a[2], a[3], a[1], (n, g))
                else:
                    s.effect(eng, st, i, fr, 'str', a[2], a[3], a[1], n)
        elif t in PARSE and w is not None:
            n = s.wordno(st, args[0])
            s.add(st, 'unchk', t)
            a = args[1]
            if a[0] == 'fld' and a[2] in STRUCTS:
                s.effect(eng, st, i, fr, PARSE[t], a[2], a[3], a[1], n)
            elif addr_root(a)[0] == 'al':
                st.ts = frozenset(x for x in st.ts if x[:2] != ('4d', a)) | {('4d', a, n)}
            if t == 'Parse4DTemplate':
                s.ctx.oblige(s.kkey(st), locstr(i))
                z = {x[1] for x in st.ts if x[0] == 'tz'}
                if not s.one(st, 'tplset') and z != {'Zone', 'Net', 'Node', 'Point'}:
                    eng.report(s.kkey(st), 'the first address of a line is completed with parts of something else', st, i, fr)
                s.drop(st, 'tz', 'tplset', 'tplcopy')
                s.put(st, 'tplvar', args[2], a)
        elif t == 'CorrectFlags' and w is not None:
            s.add(st, 'unchk', t)
        elif t == 'Copy4D' and w == 'EXPORT':
            v = s.one(st, 'tplvar')
            if v and args[0] == v[0] and args[1] == v[1]:
                s.put(st, 'tplcopy', True)
        elif t == 'jbAddNode' and w is not None:
            a = args[0]
            if a[0] == 'fld' and a[2] in STRUCTS:
                S = next((e[3] for e in (s.T[w].need | s.T[w].each) if e[0] == 'add' and e[1:3] == (a[2], a[3])), None)
                o = s.one(st, 'new', S)
                if o is not None and o != (args[1],):
                    eng.report(s.kkey(st), f'another {S} than the one being read is added', st, i, fr)
                elif o is None and S is not None:
                    s.add(st, 'new', S, args[1])
                if not s.fresh(st, args[1]):
                    eng.report(s.kkey(st), f'something else than a new {S} is added', st, i, fr)
                s.effect(eng, st, i, fr, 'add', a[2], a[3], a[1], S)
        elif t in ('strcpy', 'mystrncpy') and w is not None:
            b = ldfld(args[0], 'Command', 'string')
            n = s.wordno(st, args[1])
            if b is not None:
                s.effect(eng, st, i, fr, 'dup', 'Command', 'string', b, n)
            elif args[0][0] == 'call' and args[0][1].startswith('osAlloc'):
                o = next((x for x in st.ts if x[0] == 'strobj' and x[2] == args[0]), None)
                if o:
                    s.effect(eng, st, i, fr, 'dup', 'Command', 'string', o[1], n)
            elif args[0][0] == 'fld' and args[0][2] in STRUCTS:
                s.effect(eng, st, i, fr, 'str', args[0][2], args[0][3], args[0][1], n)
        elif t == 'strdup' and w is not None:
            s.add(st, 'dupof', i.res, s.wordno(st, args[0]))
        return None

    def chars(s, t):
        """buffers whose first character the term uses"""
        if isinstance(t, tuple) and t:
            if t[0] == 'ld':
                yield t[1]
            else:
                for x in t[1:]:
                    yield from s.chars(x)

    def on_store(s, eng, st, i, a, v, fr):
        w = s.kw(st)
        if w == 'EXPORT' and a[0] == 'fld' and a[2] == 'Node4D' and v == C0 and addr_root(a)[0] == 'al':
            tv = s.one(st, 'tplvar')
            if a[3] == 'Point' and s.one(st, 'tplcopy') and tv and a[1] == tv[0]:
                s.drop(st, 'tplcopy')
                s.put(st, 'tplset', True)
                s.add(st, 'done', ('tpl',))
            elif not tv:
                s.add(st, 'tz', a[3])
            return
        if a[0] != 'fld' or a[2] not in STRUCTS or a[3] in ('Next', 'First', 'Last'):
            return
        S, F, base = a[2], a[3], a[1]
        n = s.val(st, 'k', 0)
        if v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' and v[2] == ('ld', a):
            s.effect(eng, st, i, fr, 'or', S, F, base, v[3][1])
        elif (S, F) == ('Area', 'AreaType') and w is not None:
            s.put(st, 'areatype', v)
            s.add(st, 'done', ('type',))
            if w not in ('AREA', 'NETMAIL', 'LOCALAREA') or not s.fresh(st, base):
                eng.report(s.kkey(st), 'the type of an area is changed by another line', st, i, fr)
        elif F in TYPE and (S, F) not in (('AddNode', 'Node'), ('ImportNode', 'Node')) and (S, F) != ('Aka', 'Node') and (S, F) != ('ConfigNode', 'Node') and w is not None:
            if v == C0:
                if (S, F) == ('Config', 'cfg_NodelistType'):
                    return
                if F == 'Packer' and s.one(st, 'empty', s.val(st, 'k', 0)) is not None:
                    s.effect(eng, st, i, fr, 'ref', S, F, base, s.val(st, 'k', 0))
                    return
            f = next((x for x in st.ts if x[0] == 'found' and x[1] == v), None)
            if f is None or f[2] != TYPE[F]:
                eng.report(s.kkey(st), f'{S}.{F} is set to something that was not found by the word of the line', st, i, fr)
                s.add(st, 'done', ('ref', S, F, n))
            else:
                s.effect(eng, st, i, fr, 'ref', S, F, base, f[3])
        elif (S, F) == ('TossNode', 'Flags') and w == 'EXPORT':
            s.ctx.oblige(s.kkey(st), locstr(i))
            x = s.val(st, 'pfx')
            if v != ('c', s.c(PREFIX[x]) if x else 0):
                eng.report(s.kkey(st), f'a node {"with the mark " + x if x else "without mark"} gets other rights', st, i, fr)
            s.add(st, 'done', ('prefix',))
        elif (S, F) == ('Command', 'string'):
            if v[0] == 'call' and v[1] == 'strdup':
                s.effect(eng, st, i, fr, 'dup', S, F, base, s.wordno(st, v[2][0]))
            else:
                s.add(st, 'strobj', base, v)
        elif v[0] == 'c':
            s.effect(eng, st, i, fr, 'set', S, F, base, v[1])
        elif v[0] == 'ld':
            s.effect(eng, st, i, fr, 'chr', S, F, base, s.wordno(st, v[1]) if v[1][0] == 'al' else None)
        elif call(v, NUM):
            s.effect(eng, st, i, fr, 'num', S, F, base, (s.wordno(st, call(v, NUM)[0]), 1))
        elif v[0] == 'bin' and v[1] in ('mul', 'shl') and call(v[2], NUM) and v[3][0] == 'c':
            s.effect(eng, st, i, fr, 'num', S, F, base, (s.wordno(st, call(v[2], NUM)[0]), v[3][1] if v[1] == 'mul' else 1 << v[3][1]))
        else:
            s.effect(eng, st, i, fr, 'value', S, F, base, None)

    def on_branch(s, eng, st, inst, atom, truth, fr):
        w = s.kw(st)
        m = literal_match(atom, truth)
        if m:
            buf, lit, hit = m
            if (buf,) == s.one(st, 'word'):
                if w is None:
                    if hit:
                        s.add(st, 'kw', lit)
                        s.seen.add(lit)
                        if lit not in s.T:
                            eng.report(f'configuration: {lit}', f'the keyword "{lit}" is accepted', st, inst, fr)
                            return False
                elif hit != (lit == w):
                    return False
                return None
            b = fld(buf, 'Area', 'Tagname')
            if b is not None and w is not None:
                if hit and any(x[0] == 'tag' and x[2] and x[1] != lit for x in st.ts):
                    return False
                s.add(st, 'tag', lit, hit)
                return None
            n = s.wordno(st, buf)
            if w is not None and n is not None:
                if n != s.val(st, 'k'):
                    eng.report(s.kkey(st), 'another word than the one just read is compared', st, inst, fr)
                W = s.lits(w, n) or {}
                sw = s.val(st, 'sw')
                loop = (w, n) == ('CHANGE', 1)
                if sw is not None and not loop:
                    if hit != (lit == sw):
                        return False
                elif hit:
                    if sw is not None and loop:
                        left = W.get(sw, set()) - {x[1] for x in st.ts if x[0] == 'swdone'}
                        if left:
                            eng.report(s.kkey(st), f'"{w}" with "{sw}" does not set {sorted(left)[0][2]}', st, inst, fr)
                    s.drop(st, 'tested', 'swdone')
                    s.put(st, 'sw', lit)
                    if lit not in W:
                        eng.report(s.kkey(st), f'"{w}" accepts the word "{lit}"', st, inst, fr)
                else:
                    if loop:
                        if ('tested', lit) in st.ts:
                            eng.report(s.kkey(st), f'an unknown word after "{w}" is accepted', st, inst, fr)
                        if sw is not None:
                            left = W.get(sw, set()) - {x[1] for x in st.ts if x[0] == 'swdone'}
                            if left:
                                eng.report(s.kkey(st), f'"{w}" with "{sw}" does not set {sorted(left)[0][2]}', st, inst, fr)
                            s.drop(st, 'sw', 'swdone')
                    s.add(st, 'tested', lit)
                    s.add(st, 'why')
                return None
        if atom[0] == 'nz':
            x = atom[1]
            a = call(x, ('strncasecmp', 'strnicmp'))
            if a is not None and w is not None:
                b = fld(a[0], 'Area', 'Tagname')
                if b is not None and a[1][0] == 's' and a[2] == ('c', len(a[1][1])):
                    s.add(st, 'tag', a[1][1].upper() + '*', not truth)
                    return None
            a = call(x, READ)
            if a is not None and w is not None:
                n = s.val(st, 'k', 0)
                if truth:
                    if s.val(st, 'miss') == n:
                        s.drop(st, 'miss')
                else:
                    s.add(st, 'why')
                    if s.val(st, 'argof'):
                        s.put(st, 'argmiss', True)
                return None
            for t in PARSE:
                if call(x, t) is not None:
                    s.drop(st, 'unchk')
                    if not truth:
                        s.put(st, 'bad', 'a word of it is no valid address or pattern')
                        s.add(st, 'why')
                    return None
            a = call(x, 'CorrectFlags')
            if a is not None and w is not None:
                s.drop(st, 'unchk')
                if not truth:
                    s.put(st, 'bad', 'it has an invalid group')
                    s.add(st, 'why')
                else:
                    n = s.wordno(st, a[0])
                    if n is not None:
                        s.add(st, 'group', n)
                        st.ts = frozenset(y for y in st.ts if y[:2] != ('group', n)) | {('group', n, True)}
                return None
            c = call(x, 'Compare4D')
            if c is not None and w is not None and not truth:
                for p, q in ((c[0], c[1]), (c[1], c[0])):
                    v = s.one(st, '4d', p)
                    if v and q[0] == 'fld' and q[3] == 'Node':
                        s.put(st, 'found', q[1], q[2], v[0])
                return None
            c = call(x, ('strcasecmp', 'stricmp'))
            if c is not None and w is not None and not truth:
                for p, q in ((c[0], c[1]), (c[1], c[0])):
                    n = s.wordno(st, p)
                    if n is not None:
                        if q[0] == 'fld' and q[3] == 'Name':
                            s.put(st, 'found', q[1], q[2], n)
                        elif q[0] == 'ld' and q[1][0] == 'fld' and q[1][3] == 'name':
                            s.put(st, 'found', q[1][1], q[1][2], n)
                return None
            if x[0] == 'ld' and (x[1],) == s.one(st, 'word') and not truth:
                s.add(st, 'blank', True)
            n = s.wordno(st, x[1]) if x[0] == 'ld' else None
            if n is not None and not truth and x[1][0] == 'al':
                s.add(st, 'empty', n, True)
            b = ldfld(x, 'Area', 'Messagebase')
            if b is not None and truth and s.fresh(st, b) and ('done', ('ref', 'Area', 'Messagebase', 3)) not in st.ts:
                return False         # still cleared
            if x[0] in ('phi', 'opq', 'ld') and w is not None:
                if truth and ('null', x) in st.ts:
                    return False
                if not truth:
                    s.add(st, 'null', x)
            if not truth:
                s.add(st, 'why')
        elif atom[0] == 'eq' and atom[2][0] == 'c' and atom[1][0] == 'ld':
            c = atom[2][1]
            if (atom[1][1],) == s.one(st, 'word') and c == 59 and truth:
                s.add(st, 'blank', True)
            n = s.wordno(st, atom[1][1])
            if w == 'EXPORT' and n is not None and truth and 33 <= c < 127 and chr(c) in PREFIX:
                s.put(st, 'pfx', chr(c))
            if w == 'CHANGE' and n == 1 and c == 42 and truth and atom[1][1][0] == 'al':
                s.put(st, 'sw', '*')
            if fld(atom[1][1], 'Area', 'AreaType') is not None:
                s.add(st, 'why')
        elif atom[0] == 'lt' and w == 'LOGLEVEL':
            if call(atom[2], NUM) and atom[3][0] == 'c':
                s.add(st, 'rng', '<', atom[3][1], truth)
                s.add(st, 'why')
            elif call(atom[3], NUM) and atom[2][0] == 'c':
                s.add(st, 'rng', '>', atom[2][1], truth)
                s.add(st, 'why')
        return None

    def on_back(s, eng, st, fr):
        f, w = fr.fn, s.kw(st)
        if fr.caller is not None or w is None:
            return
        for S, reg in s.lasts:
            ph = next((x for x in eng.back[1].phis if x.res == reg), None)
            if ph is None:
                continue
            op = next((v for b, v in ph.extra if b == eng.back[0].name), None)
            if op is None:
                continue
            key = f'configuration: lines after a {S} belong to it'
            s.ctx.oblige(key, 'config.c')
            v = eng.val(st, op, fr)
            new = s.one(st, 'new', S) if s.T[w].on.get(S) == 'new' else None
            if new is not None and v != new[0]:
                eng.report(key, f'after "{w}" the following lines belong to another {S}', st, None, fr)
            elif not s.leaves(f, op) <= {('v', reg)} | s.allocs(f):
                eng.report(key, f'a line makes the following ones belong to another {S}', st, None, fr)

    def leaves(s, f, op):
        """the values an operand can have, through the joins inside one pass of the loop"""
        d, out, seen, todo = s.p.defs(f), set(), set(), [op]
        heads = {reg for _, reg in s.lasts}
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            i = d.get(o[1]) if o[0] == 'v' else None
            if i is not None and i.op == 'phi' and o[1] not in heads:
                todo += [v for _, v in i.extra]
            elif i is not None and i.op == 'select':
                todo += list(i.ops[1:])
            elif o[0] != 'undef':
                out.add(o)
        return out

    def allocs(s, f):
        return {('v', i.res) for i in f.insts() if i.op == 'call' and i.extra[0] == ('g', 'osAllocCleared')}

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        if v == C1:
            s.finish_line(eng, st, i, fr) if s.kw(st) else None
        elif v == C0:
            key = 'configuration: valid lines are accepted'
            s.ctx.oblige(key, locstr(i))
            w = s.kw(st)
            nobody = w is not None and 'last' in s.T[w].on.values() and not s.val(st, 'k') and not any(x[0] in ('done', 'new') for x in st.ts)
            if w is not None and not s.one(st, 'why') == () and not nobody:
                eng.report(f'{key} ({s.kw(st)})', f'a valid line with "{s.kw(st)}" is refused', st, i, fr)


def meaning(ctx):
    """every keyword of the configuration changes exactly the settings the manual gives it, from the right words of its line, on the object it
    belongs to; lines that lack a word, hold an invalid one or an unknown keyword are refused, and no others"""
    p = ctx.prog()
    ctx.need(p, 'ReadConfig')
    T = table(ctx.const)
    r = Meaning(p, T, ctx.const)
    keep = dict(ctx.findings)
    ctx.run(p, r, 'ReadConfig', frozenset())
    ctx.findings.clear()
    ctx.findings.update(keep)
    r.lasts = sorted((S, x) for S in r.last for x in r.last[S])
    ctx.run(p, r, 'ReadConfig', frozenset())
    for w in T:
        key = f'configuration: {w}'
        ctx.oblige(key, 'config.c')
        if w not in r.seen:
            ctx.finding(key, f'the keyword "{w}" is not understood', 'config.c ReadConfig')
    ctx.floor('', 60)
    return r


RULES = {'A27': ('Every line of the configuration means what the manual says', [meaning])}
