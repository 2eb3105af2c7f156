"""The nodelist index: crashlist writes what the library reads, and a lookup finds exactly the listed entry."""
from ..engine import Rule, C0, C1, locstr, AnalysisBroken
from ..pat import *
from .header import PUT, GET, split
from .address import zero, nonzero

NUMS = ('zone', 'net', 'node', 'point', 'region', 'hub')
ALL = NUMS + ('offset',)
ASKED = ('zone', 'net', 'node', 'point')
NONE = ('c', -1)


class Layout(Rule):
    """how an entry is put together before it is written"""
    correlate = False

    def __init__(s):
        s.found = {}

    def on_call(s, eng, st, i, t, args, fr):
        if t in PUT and len(args) == 3:
            b, o = split(args[0], args[1])
            F = next((F for F in ALL if ldfld(args[2], 'idx', F) == ('arg', 'WriteIdx', 1)), '?')
            st.ts = frozenset(x for x in st.ts if x[2] != o) | {(F, b, o, PUT[t])}
        elif t == 'osWrite':
            key = 'WriteIdx: an entry of the index has every number in a place of its own'
            s.ctx.oblige(key, locstr(i))
            used = []
            for F in ALL:
                x = [y for y in st.ts if y[0] == F and y[1] == args[1]]
                if len(x) != 1:
                    eng.report(key, f'the {F} of a node is not written to the index', st, i, fr)
                    continue
                o, n = x[0][2], x[0][3]
                if o is None or args[2][0] != 'c' or o < 0 or o + n > args[2][1] or (F == 'offset') != (n == 4):
                    eng.report(key, f'the {F} of a node does not fit into the entry', st, i, fr)
                    continue
                if set(range(o, o + n)) & set(used):
                    eng.report(key, f'the {F} of a node is written over another number', st, i, fr)
                used += range(o, o + n)
                s.found[F] = (o, n)
            s.size = args[2][1] if args[2][0] == 'c' else None
            if args[0] != ('arg', 'WriteIdx', 0):
                eng.report(key, 'the entry is written to another file', st, i, fr)
            st.ts = st.ts | {('written', None, None, None)}
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and not any(x[0] == 'written' for x in st.ts):
            eng.report('WriteIdx: an entry of the index has every number in a place of its own', 'an entry is not written', st, i, fr)


KEYS = {'ZONE,': {'zone': 'n', 'net': 'n', 'region': 0, 'hub': 0, 'node': 0, 'point': 0},
        'REGION,': {'region': 'n', 'net': 'n', 'hub': 0, 'node': 0, 'point': 0},
        'HOST,': {'net': 'n', 'hub': 0, 'node': 0, 'point': 0},
        'HUB,': {'hub': 'n', 'node': 'n', 'point': 0},
        'PVT,': {'node': 'n', 'point': 0}, 'HOLD,': {'node': 'n', 'point': 0}, ',': {'node': 'n', 'point': 0}, 'POINT,': {'point': 'n'}}


class Process(Rule):
    """ts: ('set', F, value) since the line was read, ('key', word), ('pos',) the offset is the place of the next line, ('out', n) entries of this line"""
    correlate = False
    max_states = 400

    def one(s, st, name):
        return next((x[1:] for x in st.ts if x[0] == name), None)

    def put(s, st, F, v):
        st.ts = frozenset(x for x in st.ts if x[:2] != ('set', F)) | {('set', F, v)}

    def get(s, st, F):
        return next((x[2] for x in st.ts if x[:2] == ('set', F)), None)

    def drop(s, st, *names):
        st.ts = frozenset(x for x in st.ts if x[0] not in names)

    def on_store(s, eng, st, i, a, v, fr):
        b = fld(a, 'idx', None)
        if b is None or a[3] not in ALL:
            return
        F = a[3]
        if v[0] == 'c':
            s.put(st, F, v[1])
        elif v[0] == 'ld' and fld(v[1], 'idx', None) == b:
            s.put(st, F, s.get(st, v[1][3]))
        elif call(v, ('atoi', 'strtol', 'strtoul', 'atol')):
            x = call(v, ('atoi', 'strtol', 'strtoul', 'atol'))[0]
            s.put(st, F, ('num', x[2][1]) if x[0] == 'idx' and x[2][0] == 'c' and x[1] == s.buf else '?')
        elif F == 'offset' and call(v, ('osFTell', 'ftell')):
            s.put(st, F, 'pos' if s.one(st, 'moved') is None else '?')
        elif v == ('arg', 'ProcessList', 3):
            s.put(st, F, 'default')
        else:
            s.put(st, F, '?')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        a = call(atom[1], ('strncasecmp', 'strnicmp')) if atom[0] == 'nz' else None
        if a is not None and a[1][0] == 's' and a[0] == s.buf:
            w, n = a[1][1].upper(), a[2][1]
            if w in KEYS:
                key = f'crashlist: lines with "{a[1][1]}"'
                s.ctx.oblige(key, inst and locstr(inst))
                s.words.add(w)
                if n != len(w):
                    eng.report(key, 'the keyword of a line is not compared completely', st, inst, fr)
                if not truth:
                    if s.one(st, 'key') is not None:
                        return False         # one line has one keyword
                    st.ts = st.ts | {('key', w)}
        elif atom[0] == 'eq' and atom[2] == ('c', 44) and atom[1] == ('ld', s.buf):
            s.words.add(',')
            if truth:
                if s.one(st, 'key') is not None:
                    return False
                st.ts = st.ts | {('key', ',')}
        elif atom[0] == 'nz' and call(atom[1], 'osFGets') and not truth:
            st.ts = st.ts | {('eof', True)}
        return None

    def line_done(s, eng, st, i, fr):
        k = s.one(st, 'key')
        if k is not None:
            key = 'crashlist: every listed node is entered in the index once'
            s.ctx.oblige(key, locstr(i))
            if (s.one(st, 'out') or (0,))[0] != 1:
                eng.report(key, f'a line with "{k[0]}" is not entered in the index exactly once', st, i, fr)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osFGets':
            s.buf = args[1]
            s.line_done(eng, st, i, fr)
            key = 'crashlist: the offset of an entry is the beginning of its line'
            s.ctx.oblige(key, locstr(i))
            if s.get(st, 'offset') != 'pos':
                eng.report(key, 'the offset in the index is not the place where the line begins', st, i, fr)
            first = s.one(st, 'name')
            key = 'crashlist: the entries of a list follow its name'
            s.ctx.oblige(key, locstr(i))
            if first is None:
                eng.report(key, 'a list is read although its name was not written to the index', st, i, fr)
            s.drop(st, 'key', 'out', 'moved')
            st.ts = frozenset(x for x in st.ts if x[0] != 'set') | {('moved', True), ('set', 'offset', 'line' if s.get(st, 'offset') == 'pos' else '?')}
            return None
        if t == 'osFTell' or t == 'ftell':
            s.drop(st, 'moved')
        elif t == 'osSeek':
            st.ts = st.ts | {('moved', True)}
        elif t == 'osWrite':
            s.namelen.add(args[2])
            st.ts = st.ts | {('name', True)}
        elif t == 'WriteIdx':
            if s.one(st, 'eof'):
                key = 'crashlist: the entries of a list end with a mark'
                s.ctx.oblige(key, locstr(i))
                if s.get(st, 'offset') not in (-1, 0xffffffff):
                    eng.report(key, 'the last entry of a list is no end mark', st, i, fr)
                st.ts = st.ts | {('marked', True)}
                return None
            n = (s.one(st, 'out') or (0,))[0]
            s.drop(st, 'out')
            st.ts = st.ts | {('out', min(n + 1, 2))}
            k = s.one(st, 'key')
            if k is None:
                eng.report('crashlist: every listed node is entered in the index once', 'a line without a node is entered in the index', st, i, fr)
                return None
            want = KEYS[k[0]]
            for F in ALL:
                key = f'crashlist: {F} of lines with "{k[0]}"'
                s.ctx.oblige(key, locstr(i))
                got = s.get(st, F)
                if F == 'offset':
                    if got != 'line':
                        eng.report(key, 'the offset in the index is not the place where the line begins', st, i, fr)
                elif F in want:
                    w = ('num', len(k[0])) if want[F] == 'n' else 0
                    if got != w:
                        eng.report(key, f'the {F} of a line with "{k[0]}" is not {"its number" if want[F] == "n" else "0"}', st, i, fr)
                elif got is not None:
                    eng.report(key, f'a line with "{k[0]}" changes the {F}', st, i, fr)
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is None and s.one(st, 'name') is not None:
            key = 'crashlist: the entries of a list end with a mark'
            s.ctx.oblige(key, locstr(i))
            if s.one(st, 'marked') is None:
                eng.report(key, 'a list is left without its end mark', st, i, fr)


class Find(Rule):
    """ts: ('m', F, value) of the entry that was read, ('eq', F, truth), ('last', what was read last), ('short',), ('end', truth)"""
    correlate = False
    max_states = 1000

    def __init__(s, p, layout, size, name, skip):
        s.p, s.layout, s.size, s.name, s.skip = p, layout, size, name, skip
        s.nl, s.dir, s.q, s.line = (('arg', 'cmnlFindNL', k) for k in range(4))

    def one(s, st, *name):
        return next((x[len(name):] for x in st.ts if x[:len(name)] == name), None)

    def drop(s, st, *names):
        st.ts = frozenset(x for x in st.ts if x[0] not in names)

    def add(s, st, *x):
        st.ts = st.ts | {x}

    def value(s, st, t):
        """('e', F): number F of the entry; ('q', F): the number asked for"""
        if t[0] == 'call' and t[1] in GET and t[2][1][0] == 'c':
            return ('e', next((F for F, x in s.layout.items() if x == (t[2][1][1], GET[t[1]])), '?'))
        b = ldfld(t, 'cmnlIdx', None)
        if b == s.q:
            return ('q', t[1][3])
        if t[0] == 'ld' and fld(t[1], 'idx', None) is not None:
            v = s.one(st, 'm', t[1][3])
            return v[0] if v else ('e', '?')
        if t[0] == 'c':
            return t
        return None

    def on_store(s, eng, st, i, a, v, fr):
        if fld(a, 'idx', None) is not None:
            x = s.value(st, v)
            st.ts = frozenset(y for y in st.ts if y[:2] != ('m', a[3])) | {('m', a[3], x)}
        elif fld(a, 'cmnlIdx', None) == s.q:
            st.ts = frozenset(y for y in st.ts if y[:2] != ('res', a[3])) | {('res', a[3], s.value(st, v))}

    def on_branch(s, eng, st, inst, atom, truth, fr):
        if atom[0] == 'eq':
            a, b = s.value(st, atom[1]), s.value(st, atom[2])
            if a and b:
                if {a[0], b[0]} == {'q', 'e'}:
                    F = a[1] if a[1] == b[1] else '?'
                    old = s.one(st, 'eq', F)
                    if old is not None and old[0] != truth:
                        return False
                    s.add(st, 'eq', F, truth)
                elif ('e', 'offset') in (a, b) and NONE in (a, b) or ('e', 'offset') in (a, b) and ('c', 0xffffffff) in (a, b):
                    old = s.one(st, 'end')
                    if old is not None and old[0] != truth:
                        return False
                    s.add(st, 'end', truth)
                elif a[0] == 'c' and b[0] == 'c' and a != b and truth:
                    return False
                elif a == b and not truth:
                    return False
        a = atom[1] if atom[0] in ('eq', 'nz') else None
        if atom[0] == 'eq' and call(atom[1], ('osRead', 'fread')) and atom[2][0] == 'c':
            last = s.one(st, 'last')
            if last and atom[2] == last[1]:
                s.drop(st, 'short')
                s.add(st, 'short', not truth)
        elif atom[0] == 'lt' and call(atom[2], 'osRead') and atom[3][0] == 'c':
            last = s.one(st, 'last')
            if last and atom[3] == last[1]:
                s.drop(st, 'short')
                s.add(st, 'short', truth)
        elif a is not None and atom[0] == 'nz' and call(a, 'osOpen') and not truth:
            s.add(st, 'noopen', True)
        return None

    def hit(s, st):
        return all(s.one(st, 'eq', F) == (True,) for F in ASKED)

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'osSeek' and args[0] == s.nl:
            key = 'cmnlFindNL: the search begins with the first list'
            s.ctx.oblige(key, locstr(i))
            if args[1] != ('c', s.skip) or s.one(st, 'last'):
                eng.report(key, 'the search does not begin behind the head of the index', st, i, fr)
            s.add(st, 'start', True)
        elif t == 'osRead' and args[0] == s.nl:
            key = 'cmnlFindNL: the search begins with the first list'
            s.ctx.oblige(key, locstr(i))
            if s.one(st, 'start') is None:
                eng.report(key, 'the search does not begin at the beginning of the index', st, i, fr)
            key = 'cmnlFindNL: every entry is compared and a matching one is found'
            s.ctx.oblige(key, locstr(i))
            last = s.one(st, 'last')
            if s.hit(st) and s.one(st, 'end') != (True,):
                eng.report(key, 'the search goes on although the entry was found', st, i, fr)
            if last and s.one(st, 'short') != (False,):
                eng.report(key, 'the search goes on although the index could not be read', st, i, fr)
            key = 'cmnlFindNL: names and entries of the index are read as they were written'
            s.ctx.oblige(key, locstr(i))
            if args[2] == ('c', s.size) and s.size != s.name:
                if not last or last[0] == 'entry' and s.one(st, 'end') != (False,):
                    eng.report(key, 'an entry is read where a list name may follow', st, i, fr)
                if last and last[0] == 'entry' and not any(s.one(st, 'eq', F) for F in ASKED):
                    eng.report('cmnlFindNL: every entry is compared and a matching one is found', 'an entry is passed over without comparing it', st, i, fr)
                kind = 'entry'
            elif args[2] == ('c', s.name):
                if last and (last[0] != 'entry' or s.one(st, 'end') != (True,)):
                    eng.report(key, 'a list name is read where an entry may follow', st, i, fr)
                kind = 'name'
                s.drop(st, 'namebuf')
                s.add(st, 'namebuf', args[1])
            else:
                eng.report(key, 'neither a list name nor an entry is read completely', st, i, fr)
                kind = 'entry'
            s.drop(st, 'm', 'eq', 'last', 'short', 'end')
            s.add(st, 'last', kind, args[2])
        elif t == 'MakeFullPath':
            s.drop(st, 'path')
            if args[0] == s.dir and (args[1],) == s.one(st, 'namebuf'):
                s.add(st, 'path', args[2])
        elif t == 'osOpen':
            key = 'cmnlFindNL: the line comes from the list the entry belongs to'
            s.ctx.oblige(key, locstr(i))
            if s.one(st, 'path') != (args[0],):
                eng.report(key, 'another file than the list the entry belongs to is opened', st, i, fr)
        elif t == 'osSeek':
            key = 'cmnlFindNL: the line is the one of the entry'
            s.ctx.oblige(key, locstr(i))
            if s.value(st, args[1]) != ('e', 'offset'):
                eng.report(key, 'the line is read from another place than the entry says', st, i, fr)
            s.add(st, 'sought', True)
        elif t == 'osFGets' and args[1] == s.line:
            key = 'cmnlFindNL: the line is the one of the entry'
            s.ctx.oblige(key, locstr(i))
            if not s.one(st, 'sought'):
                eng.report(key, 'the line is read from another place than the entry says', st, i, fr)
            s.add(st, 'got', True)
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        if not zero(st, v):
            key = 'cmnlFindNL: only an entry with the zone, net, node and point asked for is found'
            s.ctx.oblige(key, locstr(i))
            for F in ASKED:
                if s.one(st, 'eq', F) != (True,):
                    eng.report(key, f'an entry is found although its {F} was not compared equal', st, i, fr)
            if s.one(st, 'end') != (False,):
                eng.report(key + ' (end mark)', 'the end mark of a list passes for the entry of a node', st, i, fr)
            for F in ('region', 'hub'):
                key = f'cmnlFindNL: {F} of the entry that was found'
                s.ctx.oblige(key, locstr(i))
                if s.one(st, 'res', F) != (('e', F),):
                    eng.report(key, f'the {F} that is returned is not the one of the entry', st, i, fr)
        else:
            key = 'cmnlFindNL: a listed node is found'
            s.ctx.oblige(key, locstr(i))
            if s.one(st, 'noopen') is None and s.one(st, 'short') != (True,):
                eng.report(key, 'a node is reported as missing before the end of the index', st, i, fr)


class Ask(Rule):
    """fills in what is looked up and hands on the answer"""
    correlate = False
    max_states = 100

    def __init__(s, fn, answer, miss):
        s.fn, s.answer, s.miss = fn, answer, miss

    def track(s, atom, st):
        return atom[0] == 'nz' and call(atom[1], 'cmnlFindNL') is not None or atom == ('nz', ('call', 'found', (), None))

    def on_store(s, eng, st, i, a, v, fr):
        if fld(a, 'cmnlIdx', None) is not None:
            G = a[3].capitalize()
            x = ldfld(v, 'Node4D', G)
            st.ts = frozenset(y for y in st.ts if y[0] != a[3]) | {(a[3], x is not None and (s.fn == 'main' or x == ('arg', s.fn, 0)))}

    def on_call(s, eng, st, i, t, args, fr):
        if t == 'cmnlFindNL':
            for F in ASKED:
                key = f'{s.fn}: {F} of the address is looked up'
                s.ctx.oblige(key, locstr(i))
                if (F, True) not in st.ts:
                    eng.report(key, f'another {F} is looked up', st, i, fr)
            st.ts = frozenset({('asked', args[2])})
            return [(st, ('call', 'found', (), None))]
        return None

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None or s.fn == 'main':
            return
        key = f'{s.fn}: the answer of the lookup is handed on'
        s.ctx.oblige(key, locstr(i))
        F = ('call', 'found', (), None)
        idx = next((x[1] for x in st.ts if x[0] == 'asked'), None)
        if idx is None:
            eng.report(key, 'the nodelist is not asked', st, i, fr)
        elif v == F and s.answer is None:
            return
        elif zero(st, F):
            if v != s.miss:
                eng.report(key, 'a node that is not listed passes for a listed one', st, i, fr)
        elif not nonzero(st, F) or (not nonzero(st, v) if s.answer is None else v != ('ld', ('fld', idx, 'cmnlIdx', s.answer))):
            eng.report(key, 'a listed node gets another answer', st, i, fr)


class Newest(Rule):
    correlate = False
    max_states = 200

    def track(s, atom, st):
        return True

    def on_call(s, eng, st, i, t, args, fr):
        if t in ('mystrncpy', 'strcpy', 'strncpy') and args[0] == ('g', 'nlname'):
            f = ('arg', 'scandirfunc', 0)
            key = 'crashlist: the newest file of a list is taken'
            s.ctx.oblige(key, locstr(i))
            L = ('call', 'strlen', (f,), None)
            stem = ('bin', 'add', L, ('c', -4))
            G = ('call', 'strlen', (GL('findfile'),), None)
            fe = ldfld(args[1], 'osFileEntry', 'Name') if args[1][0] == 'ld' else fld(args[1], 'osFileEntry', 'Name')
            cmp = any(t is False and a[0] == 'nz' and call(a[1], ('strncasecmp', 'strnicmp')) and set(call(a[1], ('strncasecmp', 'strnicmp'))[:2]) == {f, GL('findfile')}
                      and call(a[1], ('strncasecmp', 'strnicmp'))[2] in (stem, G) for a, t in st.facts.items())
            if not cmp:
                eng.report(key, 'a file of another name is taken for the nodelist', st, i, fr)
            if not any(t is True and a[0] == 'eq' and stem in (a[1], a[2]) and G in (a[1], a[2]) or t is True and a[0] == 'eq' and L in (a[1], a[2]) and ('bin', 'add', G, ('c', 4)) in (a[1], a[2])
                       for a, t in st.facts.items()):
                eng.report(key + ' (whole name)', 'a file whose name is only the beginning of the name of the list is taken', st, i, fr)
            new = fe is not None and any(t is True and a[0] == 'lt' and a[2] == GL('newest') and ldfld(a[3], 'osFileEntry', 'Date') == fe for a, t in st.facts.items())
            if not new and not zero(st, ('ld', ('g', 'nlname'))):
                eng.report(key, 'an older file of the list is taken', st, i, fr)
            st.ts = frozenset({('name', fe)})
        return None

    def on_store(s, eng, st, i, a, v, fr):
        if a == ('g', 'newest'):
            st.ts = st.ts | {('date', ldfld(v, 'osFileEntry', 'Date'))}

    def on_ret(s, eng, st, i, v, fr):
        if fr.caller is not None:
            return
        n = next((x[1] for x in st.ts if x[0] == 'name'), None)
        d = next((x[1] for x in st.ts if x[0] == 'date'), None)
        if n != d:
            eng.report('crashlist: the newest file of a list is taken', 'the date that is remembered is not the one of the file that was taken', st, i, fr)


def index(ctx):
    """crashlist enters every line that lists a node once, with zone, net, node and point from its keyword and the lines before it and the offset of
    the line, between the name of the list and an end mark"""
    p = ctx.prog('crashlist')
    ctx.need(p, 'WriteIdx', 'ProcessList', 'scandirfunc')
    lay = Layout()
    ctx.run(p, lay, 'WriteIdx', frozenset())
    r = Process()
    r.words, r.namelen, r.buf = set(), set(), None
    ctx.run(p, r, 'ProcessList', frozenset())
    for w in KEYS:
        key = f'crashlist: lines with "{w}"'
        ctx.oblige(key, 'crashlist.c')
        if w not in r.words:
            ctx.finding(key, f'lines with "{w}" are not entered in the index', 'crashlist.c ProcessList')
    ctx.run(p, Newest(), 'scandirfunc', frozenset())
    ctx.floor('', 20)
    return lay, r


def lookup(ctx):
    """a lookup compares zone, net, node and point of every entry with the ones asked for, returns region, hub and line of the entry that is equal in all
    of them, and reports a node as missing only at the end of the index; the answers are handed on as they are"""
    p = ctx.prog('crashlist')
    lay, r = Layout(), Process()
    r.words, r.namelen, r.buf = set(), set(), None
    keep = (dict(ctx.findings), ctx)
    ctx.run(p, lay, 'WriteIdx', frozenset())
    ctx.run(p, r, 'ProcessList', frozenset())
    ctx.findings.clear()
    ctx.findings.update(keep[0])
    skip = None
    for f, i in p.callsites.get('osWrite', ()):
        if f.name == 'main':
            skip = next((x[1] for x in i.ops if x[0] == 'c'), None)
    name = next((x[1] for x in r.namelen if x[0] == 'c'), None)
    if len(lay.found) != len(ALL) or name is None or skip is None or lay.size is None:
        return          # reported by the rule about the index
    for prog in ('crashmail', 'crashgetnode'):
        q = ctx.prog(prog)
        ctx.need(q, 'cmnlFindNL')
        ctx.run(q, Find(q, lay.found, lay.size, name, skip), 'cmnlFindNL', frozenset())
    q = ctx.prog()
    for fn, ans, miss in (('cmnl_nlCheckNode', None, C0), ('cmnl_nlGetHub', 'hub', NONE), ('cmnl_nlGetRegion', 'region', NONE)):
        ctx.need(q, fn)
        ctx.run(q, Ask(fn, ans, miss), fn, frozenset())
    ctx.run(ctx.prog('crashgetnode'), Ask('main', None, None), 'main', frozenset())
    ctx.floor('', 15)


RULES = {'A26': ('A node is found in the nodelist exactly when it is listed', [index, lookup])}
