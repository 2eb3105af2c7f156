"""AreaFix: who may command it, and what a command may do."""
from ..engine import Rule, C0, C1, addr_root, locstr, AnalysisBroken, contains
from ..pat import *
from .handle import Base
from .prims import addresses

MM = ('arg', 'AreaFix', 0)


class AF(Base):
    """common: the node found for the sender"""
    stale_ts = True
    max_states = 200
    keep_consts = False

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('ConfigNode', 'Area', 'TossNode', 'BannedNode', 'Arealist')

    def node(s, ts):
        return {x[1] for x in ts if isinstance(x, tuple) and x[0] == 'pw'}

    def sender(s, ts, atom, truth):
        """updates ts with what a test says about the sender"""
        if atom[0] != 'nz':
            return ts
        a = call(atom[1], 'Compare4D')
        if a:
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                b = fld(u, 'ConfigNode', 'Node')
                if b is not None and fld(v, 'MemMessage', 'OrigNode') == MM:
                    ts = frozenset(x for x in ts if not (isinstance(x, tuple) and x[0] in ('node', 'pw')))
                    if not truth:
                        ts = ts | {('node', b)}
        a = call(atom[1], ('strcasecmp', 'strcmp'))
        if a and not truth:
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                b = fld(u, 'ConfigNode', 'AreafixPW')
                if b is not None and ('node', b) in ts and ('subj', v) in ts:
                    ts = ts | {('pw', b)}
        return ts

    def subject(s, st, t, args):
        """the buffer that holds the password given in the subject"""
        if t == 'jbstrcpy' and fld(args[1], 'MemMessage', 'Subject') == MM:
            st.ts = frozenset(x for x in st.ts if not (isinstance(x, tuple) and x[0] == 'subj')) | {('subj', args[0])}
        elif t in ('strcpy', 'strcat', 'sprintf', 'mystrncpy', 'strncpy', 'jbstrcpy') and ('subj', args[0]) in st.ts:
            st.ts = st.ts - {('subj', args[0])}


SENDS = {'rawSendList': 3, 'rawSendHelp': 2, 'rawSendInfo': 2}


class Auth(AF):
    """A11: everything that changes or discloses something happens for the authenticated node only"""

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = s.sender(st.ts, atom, truth)
        if atom[0] == 'eq':
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                T = ldfld(x, 'TossNode', 'ConfigNode')
                if T is not None and y in s.node(ts):
                    ts = frozenset(z for z in ts if not (isinstance(z, tuple) and z[0] == 'mine'))
                    if truth:
                        ts = ts | {('mine', T)}
        st.ts = ts

    def need(s, eng, st, i, fr, what, who=None, ok=True):
        """who: the node affected"""
        pw = s.node(st.ts)
        key = f'AreaFix: {what} only for the node that gave its password'
        s.ctx.oblige(key, locstr(i))
        if not pw or (who is not None and who not in pw) or not ok:
            eng.report(key, f'{what} although the sender was not identified by address and password'
                       if not pw else f'{what} for another system than the one that gave its password', st, i, fr)

    def on_store(s, eng, st, i, addr, val, fr):
        b = addr
        while b[0] in ('idx', 'off'):
            b = b[1]
        x = fld(b, 'ConfigNode', None)
        if x is not None:
            s.need(eng, st, i, fr, f'changing {b[3]} of a node', x)
        if fld(b, 'TossNode', 'ConfigNode') is not None:
            s.need(eng, st, i, fr, 'linking a system', val)
            st.ts = frozenset(z for z in st.ts if not (isinstance(z, tuple) and z[0] == 'new')) | {('new', fld(b, 'TossNode', 'ConfigNode'))}
        if fld(b, 'Area', 'AreaType') is not None:
            s.need(eng, st, i, fr, 'removing an area')
        if b == ('g', 'RescanNode') and val != C0:
            s.need(eng, st, i, fr, 'rescanning', val)
            st.ts = st.ts | {'resc'}
        return None

    def on_call(s, eng, st, i, t, args, fr):
        s.subject(st, t, args)
        if t in ('strcpy', 'mystrncpy', 'strncpy', 'sprintf', 'strcat', 'snprintf', 'jbstrcpy'):
            x = fld(args[0], 'ConfigNode', None)
            if x is not None:
                s.need(eng, st, i, fr, f'changing {args[0][3]} of a node', x)
        if t == 'jbAddNode' and fld(args[0], 'Area', 'TossNodes') is not None:
            s.need(eng, st, i, fr, 'linking a system', None, ('new', args[1]) in st.ts)
        if t in ('jbFreeNode', 'jbFreeList') and fld(args[0], 'Area', 'TossNodes') is not None:
            s.need(eng, st, i, fr, 'unlinking a system', None, t == 'jbFreeNode' and ('mine', args[1]) in st.ts)
        if t == 'AddTossNode':
            s.need(eng, st, i, fr, 'linking a system', args[1])
        if t in ('AddArea', 'RemoteAreafixAdd'):
            s.need(eng, st, i, fr, 'requesting an area from an uplink')
        if t in ('RemoteAreafixRemove', 'SendRemoveMessages'):
            s.need(eng, st, i, fr, 'removing an area')
        if t in SENDS:
            s.need(eng, st, i, fr, 'sending lists and information', args[SENDS[t]])
        if t in s.resc:
            s.need(eng, st, i, fr, 'rescanning', None, 'resc' in st.ts)
            st.ts = st.ts - {'resc'}
        return None

    def setup(s, c):
        s.resc = set(s.p.fpslots.get(('F', 'Messagebase', 'rescanfunc'), ()))


def auth(ctx):
    """AreaFix acts only for the configured node whose address and AreaFix password the message carries"""
    p = ctx.prog()
    ctx.need(p, 'AreaFix')
    ctx.run(p, Auth(ctx, p), 'AreaFix', frozenset())
    ctx.floor('AreaFix: ', 3)



def drop(ts, *tags):
    return frozenset(x for x in ts if not (x in tags or (isinstance(x, tuple) and x[0] in tags)))


class Access(AF):
    """A12: what a command may do to the links of an area.
    ts: node/pw/subj (sender), facts about the area under the cursor, search state of the link (l) and ban (b) lists"""
    PER = ('echo', 'match', 'grp', 'rog', 'defro', 'ro', 'may', 'feed', 'mine', 'l?', 'l~', 'l!', 'b?', 'b~', 'b!', 'detached', 'wasfeed',
           'rwf', 'afr', 'nomb', 'one', 'few', 'cur')

    def setup(s, c):
        s.resc = set(s.p.fpslots.get(('F', 'Messagebase', 'rescanfunc'), ()))
        s.RO, s.FEED = c('TOSSNODE_READONLY'), c('TOSSNODE_FEED')
        s.DEFRO, s.MAN = c('AREA_DEFREADONLY'), c('AREA_MANDATORY')
        s.RWF, s.AFR, s.ALLOW, s.FWD = c('CFG_REMOVEWHENFEED'), c('CFG_AREAFIXREMOVE'), c('CFG_ALLOWRESCAN'), c('NODE_FORWARDREQ')
        s.ECHO, s.DEL = c('AREATYPE_ECHOMAIL'), c('AREATYPE_DELETED')

    def search(s, ts, k, S, atom, truth):
        if atom[0] == 'nz' and points_to(s.p, atom[1]) == S:
            if k + '?' in ts:
                ts = ts | {k + '~'}
            ts = ts - {k + '?', k + '!'}
            if truth:
                ts = ts | {k + '?'}
            elif k + '~' not in ts:
                ts = ts | {k + '!'}
        return ts

    def on_load(s, eng, st, i, addr, fr):
        h = listhead(addr)
        if h == 'TossNodes' and 'detached' not in st.ts:
            st.ts = drop(st.ts, 'l?', 'l~', 'l!', 'mine', 'cur') | {('cur', listbase(addr))}
            st.ts = s.flt(st.ts)
        elif h == 'BannedNodes':
            st.ts = drop(st.ts, 'b?', 'b~', 'b!')
        elif h == 'AreaList':
            st.ts = drop(st.ts, 'exists', 'att', *s.PER)
        return None

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = s.sender(st.ts, atom, truth)
        X = s.node(ts)
        if atom[0] == 'nz':
            x = atom[1]
            if points_to(s.p, x) == 'Area':
                ts = drop(ts, *s.PER)
                if not truth:
                    ts = drop(ts, 'l?', 'b?')
            a = call(x, 'CheckFlags')
            if a and ldfld(a[0], 'Area', 'Group') is not None:
                for F in ('Groups', 'ReadOnlyGroups'):
                    if fld(a[1], 'ConfigNode', F) in X:
                        if truth:
                            ts = ts | {'grp'}
                        if F == 'ReadOnlyGroups':
                            ts = drop(ts, 'rog') | {('rog', truth)}
            a = call(x, ('osMatchPattern',))
            if a and truth and fld(a[1], 'Area', 'Tagname') is not None:
                ts = ts | {'match'}
                if 'echo' in ts:
                    ts = ts | {'exists'}
            a = call(x, ('strcasecmp', 'strcmp'))
            if a and not truth and any(fld(u, 'Area', 'Tagname') is not None for u in a):
                ts = ts | {'match', 'exists'}
            if ldfld(x, 'Area', 'Messagebase') is not None and not truth:
                ts = ts | {'nomb'}
            if 'detached' in ts and not truth:
                if x[0] == 'ld' and listhead(x[1]) == 'TossNodes':
                    ts = ts | {'few'}
                b = ldfld(x, 'TossNode', 'Next')
                if b is not None and b[0] == 'ld' and listhead(b[1]) == 'TossNodes':
                    ts = ts | {'one'}
            else:
                ts = s.search(ts, 'b', 'BannedNode', atom, truth)
                ts = s.search(ts, 'l', 'TossNode', atom, truth)
        if atom[0] == 'eq':
            if atom[2] == ('c', s.ECHO) and ldfld(atom[1], 'Area', 'AreaType') is not None:
                ts = ts - {'echo'} | ({'echo'} if truth else frozenset())
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if y not in X:
                    continue
                T = ldfld(x, 'TossNode', 'ConfigNode')
                if T is not None:
                    ts = drop(ts, 'l?', 'mine')
                    if truth:
                        ts = ts | {('mine', T)} | {('att', z[1]) for z in ts if z[0] == 'cur'}
                if ldfld(x, 'BannedNode', 'ConfigNode') is not None:
                    ts = ts - {'b?'}
                    if truth:
                        ts = (ts - {'b!'}) | {'b~'}
        for S, F, m, k in (('Area', 'Flags', s.MAN, 'man'), ('Area', 'Flags', s.DEFRO, 'defro'), ('TossNode', 'Flags', s.FEED, 'feed')):
            fl = flag(atom, S, F)
            if fl and fl[1] == m:
                if k == 'feed' and 'detached' in ts:
                    if truth and 'one' in ts and fl[0][0] == 'ld' and listhead(fl[0][1]) == 'TossNodes':
                        ts = ts | {'few'}
                    continue
                ts = drop(ts, k) | {(k, truth)}
                if (k, truth) in (('man', False), ('feed', True)):
                    ts = ts | {'may'}
        fl = flag(atom, 'Config', 'cfg_Flags')
        if fl and truth:
            ts = ts | {n for m, n in ((s.RWF, 'rwf'), (s.AFR, 'afr'), (s.ALLOW, 'allow')) if fl[1] == m}
        if fl and not truth and fl[1] & s.ALLOW:
            ts = ts - {'allow'}
        fl = flag(atom, 'ConfigNode', 'Flags')
        if fl and fl[1] == s.FWD and fl[0] in X:
            ts = (ts - {'fwd'}) | ({'fwd'} if truth else frozenset())
        st.ts = s.flt(ts)

    def need(s, eng, st, i, fr, what, good, msg):
        if what.split()[0] not in s.ABOUT:
            return
        key = 'AreaFix: ' + what
        s.ctx.oblige(key, locstr(i))
        if not good:
            eng.report(key, msg, st, i, fr)

    def flt(s, ts):
        return frozenset(x for x in ts if (x[0] if isinstance(x, tuple) else x) in s.KEEP)

    def ro(s, ts):
        return 'ro' in ts or {('rog', False), ('defro', False)} <= ts

    def on_store(s, eng, st, i, addr, val, fr):
        if fld(addr, 'TossNode', 'Flags') is not None:
            if ronly(val, s.RO):
                st.ts = s.flt(st.ts | {'ro'})
            elif val[0] == 'c':
                st.ts = st.ts - {'ro'}
        if fld(addr, 'Area', 'AreaType') is not None:
            ts = st.ts
            s.need(eng, st, i, fr, 'an area is removed only by a detached link and when that is configured',
                   'detached' in ts and ({'wasfeed', 'rwf'} <= ts or {'afr', 'nomb', 'few'} <= ts),
                   'an area is removed although it has other links or a message base, or removal is not configured')
        return None

    def on_call(s, eng, st, i, t, args, fr):
        s.subject(st, t, args)
        ts = st.ts
        n = lambda *a: s.need(eng, st, i, fr, *a)
        if t == 'jbAddNode' and fld(args[0], 'Area', 'TossNodes') is not None:
            n('links are added only to echomail areas the request names', {'echo', 'match'} <= ts, 'a link is added to an area that is not an echomail area named by the request')
            n('links are added only with access to the group of the area', 'grp' in ts, 'a node is linked to an area whose group it has no access to')
            n('banned nodes are not linked', 'b!' in ts, 'a node is linked although it may be banned from the area')
            n('a node is not linked twice', 'l!' in ts, 'a node is linked to an area it may already be linked to')
            n('read-only access gives read-only links', s.ro(ts), 'a node with read-only access gets a link with write access')
            st.ts = drop(ts, 'l!', 'ro') | {('att', fld(args[0], 'Area', 'TossNodes'))}
            st.ts = s.flt(st.ts)
        if t == 'jbFreeNode' and fld(args[0], 'Area', 'TossNodes') is not None:
            n('links are removed only from echomail areas the request names', {'echo', 'match'} <= ts, 'a link of an area is removed that the request does not name')
            n('only the own link is removed', ('mine', args[1]) in ts, 'the link of another node is removed')
            n('links of mandatory areas are not removed', 'may' in ts, 'a node detaches from a mandatory area')
            st.ts = (drop(ts, 'mine') - {('att', fld(args[0], 'Area', 'TossNodes'))}) | {'detached'} | ({'wasfeed'} if ('feed', True) in ts else frozenset())
            st.ts = s.flt(st.ts)
        if t == 'FindForward':
            eng.kill_call(st, t, args)
            v = eng.result(st, i, t, (), fr)
            st.ts = drop(st.ts, 'ff')
            if fld(args[1], 'ConfigNode', 'Groups') in s.node(st.ts):
                st.ts = s.flt(st.ts | {('ff', v)})
            return [(st, v)]
        if t == 'RemoteAreafixAdd':
            n('areas are requested from uplinks only for nodes that may do so', 'fwd' in ts and ('ff', ldfld(args[1], 'Arealist', 'Node')) in ts,
              'an area is requested from an uplink for a node without that permission, or from an uplink it has no access to')
            n('only unknown areas are requested from uplinks', 'exists' not in ts, 'an area that exists here is requested from an uplink')
        if t == 'AddArea':
            n('areas are created only for nodes that may request them', 'fwd' in ts and any(x[0] == 'ff' for x in ts), 'an area is created for a node that may not request areas')
            n('only unknown areas are created', 'exists' not in ts, 'an area that exists is created again')
            st.ts = drop(ts, *s.PER)
        if t == 'AddTossNode':
            n('read-only access gives read-only links to requested areas', ronly(args[2], s.RO) or {('rog', False), ('defro', False)} <= ts, 'a node with read-only access gets a link with write access')
        if t in s.resc:
            n('rescans only when allowed', 'allow' in ts, 'an area is rescanned although rescanning is not allowed')
            n('rescans only of areas the node is linked to', ('att', args[0]) in ts, 'an area is rescanned for a node that is not linked to it')
        return None


def ronly(v, RO):
    if v[0] == 'c':
        return bool(v[1] & RO)
    return v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' and bool(v[3][1] & RO)


WHO = {'node', 'pw', 'subj'}


class Attach(Access):
    KEEP = WHO | {'echo', 'match', 'grp', 'rog', 'defro', 'ro', 'l?', 'l~', 'l!', 'b?', 'b~', 'b!'}
    ABOUT = ('links', 'banned', 'a', 'read-only')
    max_states = 400

    def need(s, eng, st, i, fr, what, good, msg):
        if 'removed' not in what and 'requested' not in what:
            super().need(eng, st, i, fr, what, good, msg)


class Detach(Access):
    KEEP = WHO | {'echo', 'match', 'may', 'feed', 'mine', 'detached', 'wasfeed', 'rwf', 'afr', 'nomb', 'one', 'few', 'l?'}
    ABOUT = ('links', 'only', 'an')
    max_states = 400

    def need(s, eng, st, i, fr, what, good, msg):
        if 'removed' in what:
            super().need(eng, st, i, fr, what, good, msg)


class Rescan(Access):
    KEEP = WHO | {'mine', 'cur', 'att', 'allow'}
    ABOUT = ('rescans',)

    def joinextra(s, st):
        return frozenset((k, v) for k, v in st.env.items() if ('att', v) in st.ts)
    keep_consts = 'ptr'
    max_states = 400


class Forward(Access):
    KEEP = WHO | {'echo', 'exists', 'fwd', 'ff', 'rog', 'defro'}
    ABOUT = ('areas', 'only', 'read-only')
    max_states = 400

    def need(s, eng, st, i, fr, what, good, msg):
        if 'request' in what or 'created' in what:
            super().need(eng, st, i, fr, what, good, msg)


def access(ctx):
    """links are added, removed, rescanned and requested only as the permissions of node and area allow"""
    p = ctx.prog()
    ctx.need(p, 'AreaFix', 'CheckFlags')
    for c in (Attach, Detach, Rescan, Forward):
        ctx.run(p, c(ctx, p), 'AreaFix', frozenset())
    ctx.floor('AreaFix: links are ', 2)


class Member(Rule):
    """CheckFlags: TRUE only when the group is one of the letters, FALSE only at the end of the letters"""
    correlate = False

    def on_branch(s, eng, st, inst, atom, truth, fr):
        f = fr.fn.name
        g = ('arg', f, 0)
        if atom[0] == 'eq':
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if x == g and y[0] == 'ld' and addr_root(y[1]) == ('arg', f, 1):
                    st.ts = (st.ts - {'hit'}) | ({'hit', 'cmp'} if truth else {'cmp'})
        if atom[0] == 'nz':
            a = call(atom[1], ('strchr', 'memchr', 'index'))
            if a and a[0] == ('arg', f, 1) and a[1] == g:
                st.ts = st.ts | ({'hit', 'cmp'} if truth else {'cmp'})

    def on_ret(s, eng, st, i, val, fr):
        zero = val == C0 or st.truth(('nz', val)) is False
        a = call(val, ('strchr', 'memchr', 'index')) or (val[0] == 'cmp' and call(val[2], ('strchr', 'memchr', 'index')))
        if a:
            return
        key = f'{fr.fn.name}: only a listed group is accepted'
        s.ctx.oblige(key, locstr(i))
        if not zero and 'hit' not in st.ts:
            eng.report(key, 'a group is accepted that is not in the list', st, i, fr)
        key = f'{fr.fn.name}: a listed group is accepted'
        s.ctx.oblige(key, locstr(i))
        if zero and 'hit' in st.ts:
            eng.report(key, 'a listed group is refused', st, i, fr)


class ForwardList(Base):
    """FindForward: only from lists that may be forwarded and whose group the node has"""

    def setup(s, c):
        s.FWD = c('AREALIST_FORWARD')

    def track(s, atom, st):
        return atom[0] == 'nz' and points_to(s.p, atom[1]) == 'Arealist'

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        f = fr.fn.name
        if atom[0] == 'nz':
            if points_to(s.p, atom[1]) == 'Arealist':
                ts = set()
            a = call(atom[1], 'CheckFlags')
            if a and truth and ldfld(a[0], 'Arealist', 'Group') is not None and a[1] == ('arg', f, 1):
                ts.add('grp')
            a = call(atom[1], ('strcasecmp', 'strcmp'))
            if a and ('arg', f, 0) in a:
                ts.discard('name')
                if not truth:
                    ts.add('name')
        fl = flag(atom, 'Arealist', 'Flags')
        if fl and fl[1] == s.FWD and truth:
            ts.add('fwd')
        st.ts = frozenset(ts)

    def on_ret(s, eng, st, i, val, fr):
        key = f'{fr.fn.name}: only forwardable lists of an accessible group'
        s.ctx.oblige(key, locstr(i))
        if val == C0 or st.truth(('nz', val)) is False:
            return
        if not {'grp', 'fwd', 'name'} <= st.ts:
            eng.report(key, 'an uplink is chosen whose list may not be forwarded, is not accessible to the node, or does not contain the area', st, i, fr)


class Lists(Base):
    """rawSendList: what a node gets to see"""

    def setup(s, c):
        s.FWD, s.INC, s.NF = c('AREALIST_FORWARD'), c('CFG_INCLUDEFORWARD'), c('NODE_FORWARDREQ')
        s.Q, s.U = c('SENDLIST_QUERY'), c('SENDLIST_UNLINKED')
        s.ECHO = c('AREATYPE_ECHOMAIL')
        s.X = ('arg', 'rawSendList', 3)

    def track(s, atom, st):
        if atom[0] == 'eq' and atom[1] == ('arg', 'rawSendList', 0):
            return True
        return atom[0] == 'nz' and points_to(s.p, atom[1]) in ('TossNode', 'Area', 'Arealist')

    def on_branch(s, eng, st, inst, atom, truth, fr):
        ts = set(st.ts)
        if atom[0] == 'nz':
            x = atom[1]
            pt = points_to(s.p, x)
            if pt in ('Area', 'Arealist'):
                ts -= {'echo', 'mine', 'grp', 'afwd', 'agrp', 'l?', 'l~', 'l!'}
            if pt == 'TossNode':
                if 'l?' in ts:
                    ts.add('l~')
                ts -= {'l?', 'l!'}
                if truth:
                    ts.add('l?')
                elif 'l~' not in ts:
                    ts.add('l!')
            a = call(x, 'CheckFlags')
            if a and truth:
                if ldfld(a[0], 'Area', 'Group') is not None and any(fld(a[1], 'ConfigNode', F) == s.X for F in ('Groups', 'ReadOnlyGroups')):
                    ts.add('grp')
                if ldfld(a[0], 'Arealist', 'Group') is not None and fld(a[1], 'ConfigNode', 'Groups') == s.X:
                    ts.add('agrp')
        if atom[0] == 'eq':
            if ldfld(atom[1], 'Area', 'AreaType') is not None and atom[2] == ('c', s.ECHO) and truth:
                ts.add('echo')
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if ldfld(x, 'TossNode', 'ConfigNode') is not None and y == s.X:
                    ts.discard('l?')
                    if truth:
                        ts.add('mine')
        for S, F, m, k in (('Config', 'cfg_Flags', s.INC, 'inc'), ('ConfigNode', 'Flags', s.NF, 'nf'), ('Arealist', 'Flags', s.FWD, 'afwd')):
            fl = flag(atom, S, F)
            if fl and fl[1] == m and truth and (S != 'ConfigNode' or fl[0] == s.X):
                ts.add(k)
        st.ts = frozenset(ts)

    def on_call(s, eng, st, i, t, args, fr):
        ts = st.ts

        def need(what, good, msg):
            key = 'rawSendList: ' + what
            s.ctx.oblige(key, locstr(i))
            if not good:
                eng.report(key, msg, st, i, fr)
        ty = lambda c: st.truth(('eq', ('arg', 'rawSendList', 0), ('c', c)))
        if t == 'AddSortList':
            need('only echomail areas are listed', 'echo' in ts, 'an area that is not an echomail area is listed')
            need('only accessible areas are listed', ts & {'mine', 'grp'}, 'an area is listed for a node that is neither linked to it nor has access to its group')
            need('a query lists linked areas only', 'mine' in ts or ty(s.Q) is False, 'a query lists an area the node is not linked to')
            need('the list of unlinked areas has no linked areas', 'mine' not in ts or ty(s.U) is False, 'a linked area is listed as unlinked')
        if t == 'AddForwardList':
            need('areas of uplinks are listed only for nodes that may request them', {'inc', 'nf', 'afwd', 'agrp'} <= ts,
                 'areas of an uplink are listed for a node that may not request them')
        if t == 'afInitReply':
            need('the list goes to the node it was made for', fld(args[3], 'ConfigNode', 'Node') == s.X, 'the list of areas is sent to another node')
        return None


def lists(ctx):
    """lists and forward requests are limited to what the node has access to"""
    p = ctx.prog()
    ctx.need(p, 'CheckFlags', 'FindForward', 'rawSendList', 'AddSortList')
    ctx.run(p, Member(), 'CheckFlags', frozenset())
    ctx.run(p, ForwardList(ctx, p), 'FindForward', frozenset())
    ctx.run(p, Lists(ctx, p), 'rawSendList', frozenset())


RULES = {
    'A12': ('AreaFix commands respect the permissions of node and area', [access, lists]),
    'A11': ('AreaFix obeys only the configured node that gives its password', [auth, addresses]),
}
