"""AreaFix does what a permitted request asks for, and nothing else, and answers it."""
from ..engine import Rule, C0, C1, addr_root, locstr, contains
from ..pat import *
from .areafix import AF, drop, listhead


def char(atom, c):
    """the buffer whose first character is compared with c"""
    if atom[0] == 'eq' and atom[2] == ('c', ord(c)) and atom[1][0] == 'ld' and atom[1][1][0] == 'al':
        return atom[1][1]
    return None


def word(atom):
    """the text a buffer is compared with"""
    if atom[0] == 'nz':
        a = call(atom[1], ('strcasecmp', 'strcmp', 'strncasecmp', 'strncmp'))
        if a:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if y[0] == 's':
                    return y[1].upper()
    return None


OVER = {'AddCommandReply', 'afAddLine', 'afSendMessage', 'afFreeReply', 'rawSendList', 'rawSendHelp', 'rawSendInfo', 'SendRemoteAreafix', 'RemoveDeletedAreas',
        'SendRemoveMessages', 'RemoteAreafixAdd', 'RemoteAreafixRemove', 'AddTossNode'}


class Line(AF):
    """common: what the line asks for"""
    max_states = 400
    KEEP = frozenset()
    TESTS = ()
    POINTERS = ('ConfigNode', 'Area', 'TossNode', 'BannedNode', 'Arealist')

    def track(s, atom, st):
        if atom[0] == 'eq':
            return 'cmd' in s.KEEP and any(char(atom, c) is not None for c in '-=+')
        return atom[0] == 'nz' and (points_to(s.p, atom[1]) in s.POINTERS or (atom[1][0] == 'call' and atom[1][1] in s.TESTS))

    def transient(s, atom):
        return atom[0] == 'nz' and atom[1][0] != 'call' and points_to(s.p, atom[1]) is not None

    def flt(s, ts):
        return frozenset(x for x in ts if (x[0] if isinstance(x, tuple) else x) in s.KEEP)

    def cmd(s, ts):
        for x in ts:
            if isinstance(x, tuple) and x[0] == 'cmd':
                return x[1]
        return None

    def ask(s, ts, atom, truth):
        for c, k in (('-', 'rm'), ('=', 'up'), ('+', 'add')):
            if char(atom, c) is not None:
                if truth:
                    ts = drop(ts, 'cmd', 'n-', 'n=') | {('cmd', k)}
                elif c != '+':
                    ts = (ts - {('cmd', k)}) | {'n' + c}
                    if {'n-', 'n='} <= ts:
                        ts = drop(ts, 'cmd', 'n-', 'n=') | {('cmd', 'add')}
        if atom[0] == 'nz' and call(atom[1], ('osIsPattern',)):
            ts = drop(ts, 'wild') | {('wild', truth)}
        return ts

    def need(s, eng, st, i, fr, what, good, msg):
        key = 'AreaFix: ' + what
        s.ctx.oblige(key, locstr(i))
        if not good:
            eng.report(key, msg, st, i, fr)

    LINE = ('cmd', 'n-', 'n=', 'wild')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = s.sender(st.ts, atom, truth)
        if char(atom, '%') is not None:
            st.ts = ts
            s.done(eng, st, inst, fr)
            ts = drop(st.ts, *s.LINE)
        ts = s.ask(ts, atom, truth)
        st.ts = s.flt(s.test(eng, st, inst, ts, atom, truth, fr))

    def on_call(s, eng, st, i, t, args, fr):
        s.subject(st, t, args)
        if t == 'RemoveDeletedAreas':
            s.done(eng, st, i, fr)
            st.ts = drop(st.ts, *s.LINE)
        r = s.event(eng, st, i, t, args, fr)
        st.ts = s.flt(st.ts)
        return r if r is not None else s.over(eng, st, i, t, args, fr)

    def over(s, eng, st, i, t, args, fr):
        if t in OVER:
            eng.kill_call(st, t, args)
            return [(st, eng.result(st, i, t, (), fr))]

    def on_ret(s, eng, st, i, val, fr):
        if fr.caller is None:
            s.end(eng, st, i, val, fr)

    def done(s, eng, st, i, fr):
        pass

    def end(s, eng, st, i, val, fr):
        pass

    def event(s, eng, st, i, t, args, fr):
        return None

    def test(s, eng, st, inst, ts, atom, truth, fr):
        return ts


WHO = {'node', 'pw', 'subj', 'cmd', 'n-', 'n=', 'wild'}


class Links(Line):
    """the links of the areas a line names"""
    PER = ('ME', 'match', 'mine', 'l?', 'l~', 'l!', 'b?', 'b~', 'b!', 'banned', 'g', 'r', 'man', 'feed', 'did', 'rwf', 'afr', 'mb', 'few', 'one', 'left', 'gone', 'told', 'unreq')
    LINE = Line.LINE + PER + ('echo',)

    def setup(s, c):
        s.FEED, s.MAN, s.ECHO, s.DEL = c('TOSSNODE_FEED'), c('AREA_MANDATORY'), c('AREATYPE_ECHOMAIL'), c('AREATYPE_DELETED')
        s.RWF, s.AFR = c('CFG_REMOVEWHENFEED'), c('CFG_AREAFIXREMOVE')
        s.seen = set()

    def search(s, ts, k, S, atom, truth):
        if atom[0] == 'nz' and points_to(s.p, atom[1]) == S:
            if k + '?' in ts:
                ts = ts | {k + '~'}
            ts = ts - {k + '?', k + '!'}
            if truth:
                ts = ts | {k + '?'}
            elif k + '~' not in ts:
                ts = ts | {k + '!'}
        return ts

    def on_load(s, eng, st, i, addr, fr):
        h = listhead(addr)
        if h == 'TossNodes' and 'did' not in st.ts:
            st.ts = drop(st.ts, 'l?', 'l~', 'l!', 'mine')
        elif h == 'BannedNodes':
            st.ts = drop(st.ts, 'b?', 'b~', 'b!', 'banned')

    def test(s, eng, st, inst, ts, atom, truth, fr):
        X = s.node(ts)
        if atom[0] == 'nz':
            x = atom[1]
            a = call(x, ('osMatchPattern',))
            A = fld(a[1], 'Area', 'Tagname') if a else None
            if A is not None and truth:
                ts = ts | {('match', A)} | ({'ME'} if ('echo', A) in ts else frozenset())
            a = call(x, 'CheckFlags')
            if a and ldfld(a[0], 'Area', 'Group') is not None:
                for F, k in (('Groups', 'g'), ('ReadOnlyGroups', 'r')):
                    if fld(a[1], 'ConfigNode', F) in X:
                        ts = drop(ts, k) | {(k, truth)}
            if ldfld(x, 'Area', 'Messagebase') is not None:
                ts = drop(ts, 'mb') | {('mb', truth)}
            if 'did' in ts:
                if x[0] == 'ld' and listhead(x[1]) == 'TossNodes':
                    ts = drop(ts, 'left') | {('left', truth)} | (frozenset() if truth else {'few'})
                b = ldfld(x, 'TossNode', 'Next')
                if b is not None and b[0] == 'ld' and listhead(b[1]) == 'TossNodes':
                    ts = drop(ts, 'one') | (frozenset() if truth else {'one'})
            elif any(x[0] == 'match' for x in ts):
                ts = s.search(ts, 'b', 'BannedNode', atom, truth)
                ts = s.search(ts, 'l', 'TossNode', atom, truth)
        if atom[0] == 'eq':
            if atom[2] == ('c', s.ECHO) and ldfld(atom[1], 'Area', 'AreaType') is not None:
                A = ldfld(atom[1], 'Area', 'AreaType')
                ts = drop(ts, 'echo') | ({('echo', A)} if truth else frozenset())
                if truth and ('match', A) in ts:
                    ts = ts | {'ME'}
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if y not in X:
                    continue
                T = ldfld(x, 'TossNode', 'ConfigNode')
                if T is not None and 'did' not in ts:
                    ts = drop(ts, 'l?', 'mine') | ({'mine'} if truth else frozenset())
                if ldfld(x, 'BannedNode', 'ConfigNode') is not None:
                    ts = ts - {'b?'}
                    if truth:
                        ts = (ts - {'b!'}) | {'b~', 'banned'}
        fl = flag(atom, 'Area', 'Flags')
        if fl and fl[1] == s.MAN:
            ts = drop(ts, 'man') | {('man', truth)}
        fl = flag(atom, 'TossNode', 'Flags')
        if fl and fl[1] == s.FEED:
            if 'did' not in ts:
                ts = drop(ts, 'feed') | {('feed', truth)}
            elif truth and 'one' in ts:
                ts = ts | {'few'}
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and fl[1] in (s.RWF, s.AFR):
            k = 'rwf' if fl[1] == s.RWF else 'afr'
            ts = drop(ts, k) | {(k, truth)}
        return ts

    def on_store(s, eng, st, i, addr, val, fr):
        if fld(addr, 'Area', 'AreaType') is not None and val == ('c', s.DEL):
            ts = st.ts
            if s.PART == 3 and s.cmd(ts):
                s.need(eng, st, i, fr, 'an area is removed only when its feed or its last reader detaches',
                       s.cmd(ts) == 'rm' and 'did' in ts and ({('feed', True), ('rwf', True)} <= ts or {('afr', True), ('mb', False), 'few'} <= ts),
                       'an area is removed although neither its feed nor its last reader was detached, or such areas are to be kept')
            st.ts = ts | {'gone'}

    def done(s, eng, st, i, fr):
        """the area that was named last is finished"""
        ts = st.ts
        c = s.cmd(ts)
        if 'ME' not in ts or c is None:
            return
        s.seen.add(c)
        n = lambda *a: s.need(eng, st, i, fr, *a)
        if c == 'add' and s.PART == 1:
            n('a node is linked to the area it asks for', 'did' in ts or 'mine' in ts or 'banned' in ts or {('g', False), ('r', False)} <= ts,
              'a node is not linked to an area it asks for and has access to')
        if c == 'rm' and s.PART == 2:
            n('a node is detached from the area it does not want', 'did' in ts or 'l!' in ts or {('man', True), ('feed', False)} <= ts,
              'a node stays linked to an area it wants to be detached from')
        if c == 'rm' and s.PART == 3:
            if 'did' in ts:
                n('an area is removed when its feed is', 'gone' in ts or not {('feed', True), ('rwf', True)} <= ts,
                  'the area of a feed that detached is kept although such areas are to be removed')
                n('an area nobody reads is removed', 'gone' in ts or not {('afr', True), ('mb', False), 'few'} <= ts,
                  'an area without readers is kept although such areas are to be removed')
            if 'gone' in ts and {('feed', True), ('rwf', True)} <= ts:
                n('the links of a removed area are told', 'told' in ts, 'an area is removed without telling the systems that are linked to it')
            elif 'gone' in ts and ('left', True) in ts:
                n('a removed area is cancelled at its feed', 'unreq' in ts, 'an area is removed but still comes from its feed')

    def event(s, eng, st, i, t, args, fr):
        ts = st.ts
        c = s.cmd(ts)
        if t == 'osMatchPattern':
            s.done(eng, st, i, fr)
            st.ts = drop(st.ts, *s.PER)
        if (t == 'jbAddNode' and fld(args[0], 'Area', 'TossNodes') is not None) or (t == 'AddTossNode' and 'ME' in ts):
            if c:
                s.need(eng, st, i, fr, 'a node is linked only when it asks for that', c == 'add', 'a node is linked to an area by a request that does not ask for it')
            st.ts = ts | {'did'}
        if t == 'jbFreeNode' and fld(args[0], 'Area', 'TossNodes') is not None:
            if c:
                s.need(eng, st, i, fr, 'a node is detached only when it asks for that', c == 'rm', 'a node is detached from an area by a request that does not ask for it')
            st.ts = ts | {'did'}
        if t == 'SendRemoveMessages':
            st.ts = ts | {'told'}
        if t == 'RemoteAreafixRemove':
            a = fld(args[0], 'Area', 'Tagname')
            T = ldfld(args[1], 'TossNode', 'ConfigNode')
            if a is not None and T is not None and T[0] == 'ld' and listhead(T[1]) == 'TossNodes' and contains(T, a):
                st.ts = ts | {'unreq'}
        return None


class Attach(Links):
    PART = 1
    KEEP = (WHO - {'wild'}) | {'ME', 'match', 'echo', 'mine', 'banned', 'g', 'r', 'did'}


class Detach(Links):
    PART = 2
    KEEP = (WHO - {'wild'}) | {'ME', 'match', 'echo', 'did', 'l?', 'l~', 'l!', 'man', 'feed'}


class Remove(Links):
    PART = 3
    KEEP = (WHO - {'wild'}) | {'ME', 'match', 'echo', 'did', 'feed', 'rwf', 'afr', 'mb', 'few', 'one', 'left', 'gone', 'told', 'unreq'}


class Old(Line):
    """rescanning. ts: want (the area was added or is to be updated), opt (R= was given), glob (%RESCAN was given)"""
    KEEP = WHO | {'match', 'want', 'opt', 'noopt', 'glob', 'exempt', 'did', 'kw'}
    LINE = Line.LINE + ('match', 'want', 'opt', 'noopt', 'exempt', 'did', 'kw')
    TESTS = ('osIsPattern',)

    def setup(s, c):
        s.resc = set(s.p.fpslots.get(('F', 'Messagebase', 'rescanfunc'), ()))
        s.ALLOW = c('CFG_ALLOWRESCAN')

    def test(s, eng, st, inst, ts, atom, truth, fr):
        X = s.node(ts)
        w = word(atom)
        if w == 'R=':
            ts = (ts - {'opt', 'noopt'}) | {'noopt' if truth else 'opt'}
        if w is not None and not truth:
            if w == '%RESCAN':
                ts = ts | {'kw'}
        if atom[0] == 'nz':
            x = atom[1]
            a = call(x, ('osMatchPattern',))
            if a and truth and fld(a[1], 'Area', 'Tagname') is not None:
                ts = ts | {'match'}
            for S, F in (('Area', 'Messagebase'), ('Messagebase', 'rescanfunc')):
                if ldfld(x, S, F) is not None and not truth and ('opt' in ts or 'glob' in ts):
                    ts = ts | {'exempt'}
        if atom[0] == 'eq' and truth and 'match' in ts:
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if y in X and ldfld(x, 'TossNode', 'ConfigNode') is not None and s.cmd(ts) == 'up' and ('wild', False) in ts:
                    ts = ts | {'want'}
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and fl[1] == s.ALLOW:
            if not truth and ('opt' in ts or 'glob' in ts):
                ts = ts | {'exempt'}
            if 'kw' in ts:
                ts = ts - {'kw'}
                if truth:
                    ts = ts | {'glob'}
        return ts

    def done(s, eng, st, i, fr):
        ts = st.ts
        if 'want' in ts and ('opt' in ts or {'glob', 'noopt'} <= ts):
            s.need(eng, st, i, fr, 'old messages are sent when they are asked for', 'did' in ts or 'exempt' in ts,
                   'a node that asks for old messages does not get them')

    def event(s, eng, st, i, t, args, fr):
        ts = st.ts
        if t == 'jbAddNode' and fld(args[0], 'Area', 'TossNodes') is not None and ('wild', False) in ts and 'match' in ts:
            st.ts = ts | {'want'}
        if t == 'osMatchPattern':
            st.ts = ts - {'match'}
        if t in s.resc:
            s.need(eng, st, i, fr, 'old messages are sent only when they are asked for', 'opt' in ts or 'glob' in ts,
                   'a node gets old messages it did not ask for')
            n = args[1]
            s.need(eng, st, i, fr, 'as many old messages are sent as asked for', n[0] != 'c' if 'opt' in ts else n == C0,
                   'a node gets another number of old messages than it asked for')
            st.ts = ts | {'did'}
        return None


class Unknown(Line):
    """areas that are not here yet"""
    TESTS = ('osIsPattern',)
    KEEP = WHO | {'echo', 'match', 'any', 'fwd', 'ff', 'ff!', 'asked', 'made', 'linked', 'grp'}
    LINE = Line.LINE + ('echo', 'match', 'any', 'fwd', 'ff', 'ff!', 'asked', 'made', 'linked', 'grp')

    def setup(s, c):
        s.FWD, s.PASS, s.ECHO = c('NODE_FORWARDREQ'), c('CFG_FORWARDPASSTHRU'), c('AREATYPE_ECHOMAIL')

    def test(s, eng, st, inst, ts, atom, truth, fr):
        if atom[0] == 'nz':
            a = call(atom[1], ('osMatchPattern',))
            if a and truth and fld(a[1], 'Area', 'Tagname') is not None:
                ts = ts | {'any'}
            for x in ts:
                if isinstance(x, tuple) and x[0] == 'ff' and x[1] == atom[1]:
                    ts = drop(ts, 'ff!') | {('ff!', truth)}
        fl = flag(atom, 'ConfigNode', 'Flags')
        if fl and fl[1] == s.FWD and fl[0] in s.node(ts):
            ts = drop(ts, 'fwd') | {('fwd', truth)}
        return ts

    def done(s, eng, st, i, fr):
        ts = st.ts
        if ('ff!', True) in ts:
            n = lambda *a: s.need(eng, st, i, fr, *a)
            n('an area that is listed by an uplink is requested', 'asked' in ts, 'an area that an uplink has is not requested from it')
            n('a requested area is created', any(x[0] == 'made' for x in ts), 'an area that was requested is not created')
            n('the node is linked to the area requested for it', 'linked' in ts or ('made', False) in ts, 'a node is not linked to the area it requested')
            n('a requested area is in the group of its list', 'grp' in ts or ('made', False) in ts, 'an area that was requested gets another group than its list has')
        if s.cmd(ts) == 'add' and ('wild', False) in ts and 'any' not in ts and ('fwd', False) not in ts:
            s.need(eng, st, i, fr, 'unknown areas are looked for at the uplinks', any(x[0] == 'ff' for x in ts), 'an unknown area is not looked for at the uplinks')

    def on_store(s, eng, st, i, addr, val, fr):
        b = fld(addr, 'Area', 'Group')
        if b is not None and ('made', b) in st.ts and any(x[0] == 'ff' and ldfld(val, 'Arealist', 'Group') == x[1] for x in st.ts):
            st.ts = st.ts | {'grp'}

    def event(s, eng, st, i, t, args, fr):
        ts = st.ts
        n = lambda *a: s.need(eng, st, i, fr, *a)
        if t == 'FindForward':
            eng.kill_call(st, t, args)
            v = eng.result(st, i, t, (), fr)
            st.ts = s.flt(drop(st.ts, 'ff', 'ff!') | {('ff', v)})
            if s.cmd(ts):
                n('areas are requested only by nodes that ask for them', s.cmd(ts) == 'add', 'an area is requested that the node does not ask for')
            return [(st, v)]
        lists = {x[1] for x in ts if x[0] == 'ff'}
        if t == 'RemoteAreafixAdd':
            if ldfld(args[1], 'Arealist', 'Node') in lists:
                st.ts = ts | {'asked'}
        if t == 'AddArea':
            N = fld(args[1], 'ConfigNode', 'Node')
            n('a requested area comes from the uplink that has it', N is not None and ldfld(N, 'Arealist', 'Node') in lists, 'an area that was requested is not linked to the uplink it was requested from')
            n('a requested area may be used at once', args[3] != C0, 'an area that was requested stays unconfirmed')
            n('requested areas are pass-through as configured', flag(('nz', args[4]), 'Config', 'cfg_Flags') == (('g', 'config'), s.PASS),
              'an area that was requested is pass-through against the configuration')
            no, ok = eng.fork(st, t, args)
            v = eng.result(ok, i, t, (), fr)
            ok.ts = s.flt(drop(ok.ts, 'made') | {('made', v)})
            ok.facts[('nz', v)] = True
            no.ts = s.flt(drop(no.ts, 'made') | {('made', False)})
            return [(ok, v), (no, C0)]
        if t == 'AddTossNode' and ('made', args[0]) in ts and args[1] in s.node(ts):
            st.ts = ts | {'linked'}
        return None


class Keyword(Line):
    """the commands that begin with %. ts: kw (the command of this line)"""
    keep_consts = True
    POINTERS = ('ConfigNode', 'Packer')
    KEEP = {'node', 'pw', 'subj', 'kw', 'pas', 'did', 'arg', 'none', 'pk', 'pk!'}
    LINE = Line.LINE + ('kw', 'pas', 'did', 'arg', 'none', 'pk', 'pk!')
    COMMANDS = ('%PAUSE', '%RESUME', '%PWD', '%COMPRESS', '%RESCAN', '%LIST', '%QUERY', '%UNLINKED', '%HELP', '%INFO')

    def setup(s, c):
        s.PAS = c('NODE_PASSIVE')

    def kw(s, ts):
        for x in ts:
            if isinstance(x, tuple) and x[0] == 'kw':
                return x[1]
        return None

    def test(s, eng, st, inst, ts, atom, truth, fr):
        w = word(atom)
        if w is not None and not truth:
            if w in s.COMMANDS:
                ts = drop(ts, 'kw', 'arg', 'none', 'pk', 'did', 'pas') | {('kw', w)}
            elif w == 'NONE':
                ts = ts | {'none'}
        if atom[0] == 'nz':
            if call(atom[1], 'jbstrcpy') and s.kw(ts) and truth:
                ts = ts | {('arg', call(atom[1], 'jbstrcpy')[0])}
            a = call(atom[1], ('strcasecmp', 'strcmp'))
            if a:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    b = fld(x, 'Packer', 'Name')
                    if b is not None:
                        ts = drop(ts, 'pk')
                        if not truth:
                            ts = ts | {('pk', b)}
        fl = flag(atom, 'ConfigNode', 'Flags')
        if atom[0] == 'nz' and not truth and ldfld(atom[1], 'Packer', 'Packer') is not None:
            ts = drop(ts, 'pk')
        if fl and fl[1] == s.PAS and fl[0] in s.node(ts):
            ts = drop(ts, 'pas') | {('pas', truth)}
        return ts

    def effect(s, eng, st, i, fr, what, k, good=True):
        s.need(eng, st, i, fr, f'{what} by {k} only', s.kw(st.ts) == k and good, f'{what} by another command than {k}')
        st.ts = st.ts | {'did'}

    def on_store(s, eng, st, i, addr, val, fr):
        b = fld(addr, 'ConfigNode', 'Flags')
        if b is not None:
            if val == ('bin', 'or', ('ld', addr), ('c', s.PAS)):
                s.effect(eng, st, i, fr, 'a node is paused', '%PAUSE')
            else:
                ok = val[0] == 'bin' and val[1] == 'and' and val[2] == ('ld', addr) and val[3][0] == 'c' and (val[3][1] & 0xffffffff) == (~s.PAS & 0xffffffff)
                s.effect(eng, st, i, fr, 'a node is resumed', '%RESUME', ok)
        if fld(addr, 'ConfigNode', 'Packer') is not None:
            good = 'none' in st.ts if val == C0 else ('pk', val) in st.ts
            s.effect(eng, st, i, fr, 'the packer of a node is changed', '%COMPRESS', good)

    def done(s, eng, st, i, fr):
        ts = st.ts
        k = s.kw(ts)
        n = lambda *a: s.need(eng, st, i, fr, *a)
        if k == '%PAUSE':
            n('%PAUSE pauses the node', 'did' in ts or ('pas', True) in ts, 'a node that asks for a pause is not paused')
        if k == '%RESUME':
            n('%RESUME resumes the node', 'did' in ts or ('pas', False) in ts, 'a node that wants its mail again does not get it')
        if k == '%PWD' and any(x[0] == 'arg' for x in ts):
            n('%PWD changes the password', 'did' in ts, 'a node that changes its password keeps the old one')
        if k == '%COMPRESS' and ('none' in ts or any(x[0] == 'pk' for x in ts)):
            n('%COMPRESS changes the packer', 'did' in ts, 'a node that changes its packer keeps the old one')

    def event(s, eng, st, i, t, args, fr):
        if t in ('strcpy', 'mystrncpy', 'strncpy', 'sprintf', 'snprintf', 'jbstrcpy', 'strcat') and fld(args[0], 'ConfigNode', None) is not None:
            s.effect(eng, st, i, fr, 'the password of a node is changed', '%PWD', args[0][3] == 'AreafixPW' and len(args) > 1 and ('arg', args[1]) in st.ts)
        return None


SENDS = (('%LIST', 'rawSendList', 'SENDLIST_FULL'), ('%QUERY', 'rawSendList', 'SENDLIST_QUERY'), ('%UNLINKED', 'rawSendList', 'SENDLIST_UNLINKED'),
         ('%HELP', 'rawSendHelp', None), ('%INFO', 'rawSendInfo', None))


class Lists(Line):
    """one of the commands that ask for a text. ts: asked, sent"""
    KEEP = {'asked', 'sent', 'fail'}

    def setup(s, c):
        s.resc = set(s.p.fpslots.get(('F', 'Messagebase', 'rescanfunc'), ()))

    def on_branch(s, eng, st, inst, atom, truth, fr):
        w = word(atom)
        if w is not None and not truth and (w == s.K or (s.K == '%LIST' and w in ('-Q', '-L'))):
            st.ts = st.ts | {'asked'}
        if atom[0] == 'nz' and atom[1] in (GL('nomem'), GL('ioerror'), GL('ctrlc')) and truth:
            st.ts = st.ts | {'fail'}

    def on_call(s, eng, st, i, t, args, fr):
        if t == s.T and (s.N is None or args[0] == ('c', s.N)):
            s.need(eng, st, i, fr, f'what {s.K} asks for is sent only when it was asked for', 'asked' in st.ts, f'the text for {s.K} is sent without having been asked for')
            s.need(eng, st, i, fr, f'what {s.K} asks for is sent to the node that asked', fld(args[-2], 'MemMessage', 'From') == ('arg', 'AreaFix', 0), f'the text for {s.K} is sent to another name')
            st.ts = st.ts | {'sent'}
        if t in s.resc or t in ('osAlloc', 'osAllocCleared', 'malloc', 'calloc'):
            no, ok = eng.fork(st, t, args)
            no.ts = no.ts | {'fail'}
            v = eng.result(ok, i, t, (), fr)
            ok.facts[('nz', v)] = True
            return [(ok, C1 if t in s.resc else v), (no, C0)]
        return s.over(eng, st, i, t, args, fr)

    def end(s, eng, st, i, val, fr):
        if val != C0 and 'asked' in st.ts and 'fail' not in st.ts:
            s.need(eng, st, i, fr, f'what {s.K} asks for is sent', 'sent' in st.ts, f'the text {s.K} asks for is not sent')


class Answer(Line):
    """every request is answered. ts: text (the line is not empty), said; open (lines that were not sent yet)"""
    keep_consts = True
    TESTS = ('osIsPattern',)
    KEEP = {'cmd', 'n-', 'n=', 'text', 'said', 'n1', 'n0'}
    LINE = Line.LINE + ('text', 'said', 'n1', 'n0')

    def test(s, eng, st, inst, ts, atom, truth, fr):
        if char(atom, '%') is not None and truth:
            ts = ts | {'text'}
        if atom[0] == 'eq' and atom[2] == C1 and atom[1][0] == 'ld' and atom[1][1][0] == 'al' and not truth:
            ts = ts | {'n1'}
        if atom[0] == 'nz' and atom[1][0] == 'ld' and atom[1][1][0] == 'al' and truth:
            ts = ts | {'n0'}
        if {'n1', 'n0'} <= ts:
            ts = ts | {'text'}
        return ts

    def done(s, eng, st, i, fr):
        if 'text' in st.ts:
            s.need(eng, st, i, fr, 'every request is answered', 'said' in st.ts, 'a request is not answered')

    def event(s, eng, st, i, t, args, fr):
        if t in ('AddCommandReply', 'afAddLine'):
            st.ts = st.ts | {'said'}
        return None


class Sent(Line):
    """the answer is sent. ts: open (there are lines that were not sent yet)"""
    KEEP = {'open'}
    keep_consts = True

    def event(s, eng, st, i, t, args, fr):
        if t == 'afInitReply':
            a = args
            s.need(eng, st, i, fr, 'the answer goes to the sender', fld(a[2], 'MemMessage', 'From') == ('arg', 'AreaFix', 0) and fld(a[3], 'MemMessage', 'OrigNode') == ('arg', 'AreaFix', 0),
                   'the answer to a request goes to somebody else')
            no, ok = eng.fork(st, t, args)
            ok.ts = s.flt(ok.ts | {'open'})
            return [(ok, eng.result(ok, i, t, (), fr)), (no, C0)]
        if t in ('AddCommandReply', 'afAddLine'):
            st.ts = st.ts | {'open'}
        if t == 'afSendMessage':
            st.ts = st.ts - {'open'}
        return None

    def end(s, eng, st, i, val, fr):
        if val != C0 and not (st.truth(('nz', val)) is False):
            s.need(eng, st, i, fr, 'the answer is sent', 'open' not in st.ts, 'the answer to a request is not sent')


def links(ctx):
    """areas are linked, detached, removed, rescanned and requested as the request says"""
    p = ctx.prog()
    ctx.need(p, 'AreaFix')
    seen = set()
    for c in (Attach, Detach, Remove):
        r = c(ctx, p)
        ctx.run(p, r, 'AreaFix', frozenset())
        seen |= r.seen
    for c, what in (('add', 'link'), ('rm', 'detach')):
        if seen and c not in seen:
            ctx.finding(f'AreaFix: a request can {what}', f'no request can {what} a node any more', 'areafix.c')
    for c in (Old, Unknown):
        ctx.run(p, c(ctx, p), 'AreaFix', frozenset())


def commands(ctx):
    """every command has its own effect and no other"""
    p = ctx.prog()
    ctx.need(p, 'AreaFix')
    ctx.run(p, Keyword(ctx, p), 'AreaFix', frozenset())
    for k, t, n in SENDS:
        r = Lists(ctx, p)
        r.K, r.T, r.N = k, t, ctx.const(n) if n else None
        ctx.run(p, r, 'AreaFix', frozenset())


def answers(ctx):
    """every request is answered, and the answer is sent to the sender"""
    p = ctx.prog()
    ctx.need(p, 'AreaFix')
    for c in (Answer, Sent):
        ctx.run(p, c(ctx, p), 'AreaFix', frozenset())


RULES = {
    'A29': ('AreaFix does what a permitted request asks for, and answers it', [links, commands, answers]),
}
