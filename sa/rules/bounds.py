"""Fixed-size buffers: nothing is written behind their end.

A forward dataflow analysis over the SSA form of every function.  Abstract value of a character buffer: an
upper bound of the length of the string in it; abstract value of an integer: an upper bound, refined by the
comparisons on the way.  Objects are local arrays, global arrays and array members of structs; what a
function gets through its parameters is bounded by what its callers hand over."""
import re
from ..engine import AnalysisBroken, Rule, locstr
from ..pat import LD, fld, ldfld

INF = None


def minn(a, b):
    return b if a is None else a if b is None else min(a, b)


def maxn(a, b):
    return None if a is None or b is None else max(a, b)


def addn(a, b):
    return None if a is None or b is None else a + b


# function -> (index of the destination, index of the size): the function writes at most that many bytes
# MakeDirectory writes at most as many bytes as its size argument says
SIZED = {'MakeDirectory': (0, 1), 'mystrncpy': (0, 2), 'strncpy': (0, 2), 'osFGets': (1, 2), 'osRead': (1, 2),
         'MakeFullPath': (2, 3), 'snprintf': (0, 1), 'vsnprintf': (0, 1), 'fgets': (0, 1),
         'memset': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2), 'llvm.memcpy.p0.p0.i64': (0, 2),
         'llvm.memset.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'read': (1, 2),
         'jbstrcpy': (0, 2), 'jbstrcpyrest': (0, 2)}
RAW = {'memset', 'memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64', 'osRead',
       'read'}
UNSIZED = {'strcpy', 'strcat', 'sprintf', 'vsprintf', 'strncat', 'stpcpy', 'gets'}
COPYIN = {'memcpy': 1, 'memmove': 1, 'llvm.memcpy.p0.p0.i64': 1, 'llvm.memmove.p0.p0.i64': 1}
SAMESTR = {'strchr': 0, 'strrchr': 0, 'strstr': 0, 'strcpy': 0, 'strcat': 0, 'strncpy': 0, 'strtok': 0, 'strpbrk': 0,
           'GetFilePart': 0}
READONLY = {'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strchr', 'strrchr', 'strstr', 'printf', 'fprintf',
            'atoi', 'atol', 'strtol', 'strtoul', 'LogWrite', 'osFPuts', 'osFPrintf', 'osWrite', 'hextodec', 'osOpen',
            'osDelete', 'osExists', 'toupper', 'tolower', 'isspace', '__ctype_b_loc', 'fwrite', 'fputs', 'fopen', 'unlink',
            'puts', 'strpbrk', 'memcmp', 'strdup', 'stat', 'mkdir', 'access', 'open', 'opendir', 'rename', 'remove', 'rmdir',
            'chdir', 'system', 'fclose', 'fseek', 'ftell', 'fgetc', 'fputc', 'putc', 'getc', 'free', 'time', 'localtime', 'chmod',
            'strtoull', 'exit', 'signal', 'symlink', 'creat', 'lockf', 'fcntl', 'close', 'perror', 'vprintf', 'vfprintf'}


# members that say how much of an array of the struct is in use
COUNTS = {('TextChunk', 'Length'): 'Data'}


class Func:
    """per-function facts"""
    pass


class Bounds:
    def __init__(s, p):
        s.p = p
        s.m = p.m
        s.F = {}
        s._pcap = {}
        s._plen = {}
        s._ret = {}
        s._sum = {}
        s._gs = {}
        s._pf = {}
        s.cx = None        # (function, {parameter: (room, length, integer)})
        s.rec = None
        s.cur = None       # (function, flow state)
        s.todo = {}

    # ---------------------------------------------------------------- sizes
    def size(s, ty):
        if isinstance(ty, str):
            if ty[0] == 'i' and ty[1:].isdigit():
                return max(1, int(ty[1:]) // 8)
            return 8
        if ty[0] == 'arr':
            return ty[1] * s.size(ty[2])
        if ty[0] in ('named', 'st'):
            off = 0
            al = 1
            for x in (s.m.types[ty[1]] if ty[0] == 'named' else ty[1]):
                if isinstance(x, tuple) and x[0] == 'arr' and x[1] == 0:
                    continue
                a = s.align(x)
                al = max(al, a)
                off = (off + a - 1) // a * a + s.size(x)
            return (off + al - 1) // al * al
        return 8

    def align(s, ty):
        if isinstance(ty, str):
            return min(8, s.size(ty))
        if ty[0] == 'arr':
            return s.align(ty[2])
        if ty[0] in ('named', 'st'):
            return max([s.align(x) for x in (s.m.types[ty[1]] if ty[0] == 'named' else ty[1])
                        if not (isinstance(x, tuple) and x[0] == 'arr' and x[1] == 0)] or [1])
        return 8

    # ---------------------------------------------------------------- control flow
    def func(s, f):
        if f.name in s.F:
            return s.F[f.name]
        a = Func()
        s.F[f.name] = a
        a.bl = {b.name: b for b in f.blocks}
        a.succ = {}
        for b in f.blocks:
            t = b.insts[-1]
            if t.op == 'br':
                a.succ[b.name] = list(t.extra)
            elif t.op == 'switch':
                a.succ[b.name] = [t.extra[0]] + [x for _, x in t.extra[1]]
            else:
                a.succ[b.name] = []
        a.pred = {n: [] for n in a.bl}
        for n, ss in a.succ.items():
            for x in set(ss):
                a.pred[x].append(n)
        # reverse postorder and dominators
        order = []
        seen = set()
        st = [(f.blocks[0].name, iter(a.succ[f.blocks[0].name]))]
        seen.add(f.blocks[0].name)
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(a.succ[x])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        a.order = order
        num = {n: k for k, n in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for q in a.pred[n]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        a.idom = idom
        a.guards = {}
        a.where = {}
        for b in f.blocks:
            for i in b.phis:
                a.where[i.res] = b.name
            for i in b.insts:
                if i.res:
                    a.where[i.res] = b.name
        return a

    def edge(s, f, q, n):
        """conditions known on the edge q -> n"""
        a = s.func(f)
        t = a.bl[q].insts[-1]
        if t.op == 'br' and t.ops and t.extra[0] != t.extra[1]:
            return [(t.ops[0], t.extra[0] == n)]
        if t.op == 'switch':
            vs = [c for c, x in t.extra[1] if x == n]
            if vs and n != t.extra[0]:
                return [('switch', t.ops[0], max(vs))]
        return []

    def guards(s, f, b):
        a = s.func(f)
        if b in a.guards:
            return a.guards[b]
        out = []
        n = b
        while True:
            q = a.pred.get(n, [])
            if len(q) == 1:
                out += s.edge(f, q[0], n)
            d = a.idom.get(n)
            if d is None or d == n:
                break
            n = d
        a.guards[b] = out
        return out

    # ---------------------------------------------------------------- integers
    def strip(s, f, v):
        D = s.p.defs(f)
        while v[0] == 'v':
            d = D.get(v[1])
            if d is not None and d.op == 'cast' and d.extra[0] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                v = d.ops[0]
            else:
                break
        return v

    def conds(s, f, g):
        """flatten a guard (cond, truth) into simple comparisons (pred, a, b)"""
        D = s.p.defs(f)
        out = []
        st = [g]
        n = 0
        while st and n < 40:
            n += 1
            x = st.pop()
            if x[0] == 'switch':
                out.append(('sle', x[1], ('c', x[2])))
                continue
            c, t = x
            if c[0] != 'v':
                continue
            d = D.get(c[1])
            if d is None:
                continue
            if d.op == 'cast':
                st.append((d.ops[0], t))
            elif d.op == 'icmp':
                pr = d.extra
                a, b = d.ops
                # (zext i1 x) != 0
                ina = D.get(a[1]) if a[0] == 'v' else None
                if b == ('c', 0) and pr in ('ne', 'eq') and ina is not None and ina.op == 'cast' and ina.extra[1] == 'i1':
                    st.append((ina.ops[0], t == (pr == 'ne')))
                    continue
                if not t:
                    pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge',
                          'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}.get(pr)
                if pr:
                    out.append((pr, a, b))
            elif d.op == 'bin' and d.extra == 'and' and t:
                st += [(d.ops[0], True), (d.ops[1], True)]
            elif d.op == 'bin' and d.extra == 'or' and not t:
                st += [(d.ops[0], False), (d.ops[1], False)]
            elif d.op == 'bin' and d.extra == 'xor' and d.ops[1] == ('c', 1):
                st.append((d.ops[0], not t))
            elif d.op == 'select' and d.ops[2] == ('c', 0) and t:
                st += [(d.ops[0], True), (d.ops[1], True)]
            elif d.op == 'select' and d.ops[1] == ('c', 1) and not t:
                st += [(d.ops[0], False), (d.ops[2], False)]
            elif d.op == 'phi' and d.ty == 'i1':
                # a && b, a || b: one incoming edge brings a constant
                pos = [(q, v) for q, v in d.extra if v != ('c', 0 if t else 1)]
                if len(pos) == 1:
                    q, v = pos[0]
                    if v[0] == 'v':
                        st.append((v, t))
                    for e in s.edge(f, q, s.func(f).where[d.res]):
                        st.append(e)
                    for e in s.guards(f, q):
                        st.append(e)
        return out

    def ischar(s, f, x):
        d = s.p.defs(f).get(x[1])
        return d is not None and d.op == 'load' and d.ty == 'i8'

    def width(s, ty):
        return int(ty[1:]) if isinstance(ty, str) and ty[0] == 'i' and ty[1:].isdigit() else 64

    def ub(s, f, v, b, extra=()):
        """upper bound of integer v when block b runs"""
        n = s._ub(f, v, b, extra, (), frozenset())
        if (n is None or n >= 65535) and v[0] == 'v' and b is not None:
            # where ways meet: the largest of them
            a = s.func(f)
            home = a.where.get(s.strip(f, v)[1])
            x = b
            while x != home and x in a.idom and a.idom[x] != x:
                q = [z for z in a.pred[x] if z in a.idom]
                if 1 < len(q) <= 4:
                    r = -1
                    for z in q:
                        r = maxn(r, s._ub(f, v, z, list(extra) + s.edge(f, z, x), (), frozenset()))
                    n = minn(n, r)
                    break
                x = a.idom[x]
        return None if n is None or n < 0 else n

    def counter(s, f, v):
        """v counts up by one: the values it starts from, with the blocks they come from"""
        D = s.p.defs(f)
        a = s.func(f)
        d = D.get(v[1])
        if d is None or d.op != 'phi':
            return None
        src = []
        todo = [(v, None)]
        seen = set()
        up = False
        while todo:
            x, q = todo.pop()
            x = s.strip(f, x)
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'c':
                src.append((x, q))
                continue
            e = D.get(x[1]) if x[0] == 'v' else None
            if e is None:
                src.append((x, q))
            elif e.op == 'phi':
                todo += [(y, z) for z, y in e.extra if z in a.idom]
            elif e.op == 'bin' and e.extra == 'add' and e.ops[1] == ('c', 1):
                todo.append((e.ops[0], q))
                up = True
            else:
                src.append((x, q))
        return src if up else None

    def _ub(s, f, v, b, extra, seen, pc):
        """seen: values being computed; pc: phis this value is a copy of.  -1: no contribution"""
        if v[0] == 'c':
            return v[1] if v[1] >= 0 else None
        if v[0] != 'v':
            return None
        sv = s.strip(f, v)
        if sv[0] == 'c':
            return sv[1] if sv[1] >= 0 else None
        if (f.name, sv) in pc:
            return -1
        if len(seen) > 40:
            return None
        D = s.p.defs(f)
        best = None
        neq = []
        if s.cur is not None and s.cur[0] == f.name:
            best = s.cur[1].get(('ub', sv[1]))
        none = frozenset()
        for g in list(extra) + s.guards(f, b):
            for pr, x, y in s.conds(f, g):
                x, y = s.strip(f, x), s.strip(f, y)
                if y == sv or x != sv and y[0] == 'v' and s.same(f, y, sv):
                    x, y = y, x
                    pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge',
                          'sge': 'sle'}.get(pr, pr)
                k = 0
                if x[0] == 'v' and x != sv and y[0] == 'c' and (pr == 'ne' and y[1] == 0 or pr == 'eq' and y[1] != 0 or
                                                               pr in ('sgt', 'ugt') and y[1] >= 0) and s.ischar(f, x):
                    # text[v] is not the terminator
                    d = D.get(x[1])
                    a = D.get(d.ops[0][1]) if d is not None and d.op == 'load' and d.ty == 'i8' and d.ops[0][0] == 'v' else None
                    if a is not None and a.op == 'gep' and s.strip(f, a.ops[-1]) == sv:
                        base = a.ops[0]
                        n = s.lenof(f, base, None, (), b) if len(a.ops) == 2 else \
                            s.lenpl(s.gepplace(f, a.ty, base, list(a.ops[1:-1]) + [('c', 0)], b, ()))
                        if n is not None and n > 0:
                            best = minn(best, n - 1)
                    continue
                if x != sv and not s.same(f, x, sv):
                    # guard on v + c
                    d = D.get(x[1]) if x[0] == 'v' else None
                    if d is not None and d.op == 'bin' and d.extra in ('add', 'sub') and d.ops[1][0] == 'c' and s.same(f, s.strip(f, d.ops[0]), sv):
                        k = d.ops[1][1] if d.extra == 'add' else -d.ops[1][1]
                    else:
                        continue
                if pr not in ('ult', 'ule', 'slt', 'sle', 'eq', 'ne'):
                    continue
                if y[0] == 'c':
                    n = y[1]
                elif (f.name, sv, b, 'g') in seen:
                    n = None
                else:
                    n = s._ub(f, y, b, extra, seen + ((f.name, sv, b, 'g'),), none)
                if n is None or n < 0:
                    continue
                if pr == 'ne':
                    # a counter that stops there
                    neq.append(n - k)
                    src = s.counter(f, sv)
                    if src is None or (f.name, sv, 'ne') in seen:
                        continue
                    if any(m is None or m > n for m in (s._ub(f, z, bz, (), seen + ((f.name, sv, 'ne'),), none) for z, bz in src)):
                        continue
                if pr in ('ult', 'slt', 'ne'):
                    n -= 1
                n -= k
                if n >= 0:
                    best = minn(best, n)
        key = (f.name, sv, b)
        if key in seen:
            return best
        seen = seen + (key,)
        d = D.get(sv[1])
        r = None

        def rec(x, bb=b, ex=extra, p=none):
            return s._ub(f, x, bb, ex, seen, p)

        def val(n):
            return None if n is None or n < 0 else n
        if d is None:
            r = s.pub(f, sv, seen)
        elif d.op == 'phi':
            r = -1
            a = s.func(f)
            for q, x in d.extra:
                if q not in a.idom:
                    continue
                if s.strip(f, x) == sv:
                    continue
                r = maxn(r, rec(x, q, s.edge(f, q, a.where[d.res]), pc | {(f.name, sv)}))
                if r is None:
                    break
            if r is None:
                r = s.together(f, sv, b, seen)
        elif d.op == 'select':
            r = maxn(rec(d.ops[1], b, list(extra) + [(d.ops[0], True)], pc), rec(d.ops[2], b, list(extra) + [(d.ops[0], False)], pc))
        elif d.op == 'bin':
            x, y = d.ops
            if d.extra == 'add':
                if y[0] == 'c' and y[1] < 0:
                    r = rec(x, p=pc)
                    r = r if r is None or r < 0 else max(0, r + y[1])
                else:
                    r = addn(val(rec(x)), val(rec(y)))
            elif d.extra == 'sub':
                if y[0] == 'c' and y[1] >= 0:
                    r = rec(x, p=pc)
                    r = r if r is None or r < 0 else max(0, r - y[1])
                else:
                    r = val(rec(x))
            elif d.extra == 'and':
                for z in (x, y):
                    if z[0] == 'c' and z[1] >= 0:
                        r = minn(r, z[1])
                r = minn(r, val(rec(x)))
            elif d.extra in ('urem', 'srem') and y[0] == 'c':
                r = abs(y[1]) - 1
            elif d.extra in ('udiv', 'sdiv') and y[0] == 'c' and y[1] > 0:
                n = val(rec(x))
                r = None if n is None else n // y[1]
            elif d.extra == 'lshr' and y[0] == 'c':
                n = val(rec(x))
                r = None if n is None else n >> y[1]
            elif d.extra == 'mul' and y[0] == 'c' and y[1] >= 0:
                n = val(rec(x))
                r = None if n is None else n * y[1]
        elif d.op == 'call' and d.extra[0] == ('g', 'strlen'):
            r = s.lenof(f, d.ops[0], None)
        elif d.op == 'load':
            if s.width(d.ty) <= 16:
                r = (1 << s.width(d.ty)) - 1
            k = s.memkey(f, d.ops[0])
            if d.ops[0][0] == 'g':
                r = minn(r, s.gscalar(d.ops[0][1]))
            elif k is not None and k[2] != 'scalar':
                r = minn(r, s.invfield(k[2], k[3]))
                if k[2] == 'struct.tm':
                    r = minn(r, (61, 59, 23, 31, 11, 8099, 6, 366, 1)[k[3][0]] if k[3][0] < 9 else None)
        r = minn(best, r)
        if r in neq and r is not None and r > 0:
            r -= 1
        return r

    def together(s, f, v, b, seen):
        """v and another counter of the same loop start at constants and v never gets ahead of it"""
        D = s.p.defs(f)
        a = s.func(f)
        src = s.counter(f, v)
        if src is None or (f.name, v, 't') in seen or any(x[0] != 'c' for x, _ in src):
            return None
        c0 = max(x[1] for x, _ in src)
        hd = a.where.get(v[1])
        r = None
        for o in a.bl[hd].phis:
            w = ('v', o.res)
            if w == v:
                continue
            st = None
            ok = True
            for q, x in o.extra:
                x = s.strip(f, x)
                if x[0] == 'c':
                    st = x[1]
                    continue
                d = D.get(x[1]) if x[0] == 'v' else None
                # every time round the other one goes up
                if d is None or not s.goesup(f, x, w, ()):
                    ok = False
                    break
            if not ok or st is None:
                continue
            # v goes up at most once each time round
            n = 0
            for q, x in D[v[1]].extra:
                m = s.ups(f, x, v, ())
                if m is None:
                    n = None
                    break
                n = max(n, m)
            if n is None:
                continue
            m = s._ub(f, w, b, (), seen + ((f.name, v, 't'),), frozenset())
            if m is not None and m >= 0:
                r = minn(r, n * (m - st) + c0)
        return r

    def goesup(s, f, x, w, seen):
        """x is w plus at least one on every way"""
        x = s.strip(f, x)
        if x in seen:
            return True
        d = s.p.defs(f).get(x[1]) if x[0] == 'v' else None
        if d is None:
            return False
        if d.op == 'bin' and d.extra == 'add' and d.ops[1][0] == 'c' and d.ops[1][1] >= 1:
            y = s.strip(f, d.ops[0])
            return y == w or s.goesup(f, y, w, seen + (x,))
        if d.op == 'phi' and x != w:
            return all(s.goesup(f, y, w, seen + (x,)) for y in d.ops)
        return False

    def ups(s, f, x, v, seen):
        """how often x = v + 1 + 1 ...; constants count as not at all"""
        x = s.strip(f, x)
        if x == v or x[0] == 'c':
            return 0
        if x in seen:
            return None
        d = s.p.defs(f).get(x[1]) if x[0] == 'v' else None
        if d is None:
            return None
        if d.op == 'bin' and d.extra == 'add' and d.ops[1] == ('c', 1):
            return addn(1, s.ups(f, d.ops[0], v, seen + (x,)))
        if d.op == 'phi':
            r = 0
            for y in d.ops:
                r = maxn(r, s.ups(f, y, v, seen + (x,)))
            return r
        return None

    def pub(s, f, v, seen):
        """upper bound of an integer parameter: the largest argument of any caller"""
        k = f._pidx.get(v[1])
        if k is None:
            return None
        w = s.width(f.params[k][0])
        n = s.pub1(f, k, seen)
        return minn(n, (1 << w) - 1) if w <= 16 else n

    def pub1(s, f, k, seen):
        if s.cx and s.cx[0] == f.name:
            return s.cx[1][k][2] if k < len(s.cx[1]) else None
        key = ('int', f.name, k)
        if key in seen:
            return -1
        cs = s.p.callsites.get(f.name)
        if not cs or f.name == 'main':
            return None
        r = -1
        for g, i in cs:
            if k >= len(i.ops):
                return None
            s.p.defs(g)
            n = s._ub(g, i.ops[k], s.blk(g, i), (), seen + (key,), frozenset())
            r = maxn(r, n)
            if r is None:
                return None
        return r

    def slack(s, f, z, off, b):
        """size z = C - index of the place: C"""
        if not isinstance(off, tuple) or off == ('in',) or off[3] != 1:
            return None
        v = s.strip(f, off[1])
        D = s.p.defs(f)
        k = 0
        x = s.strip(f, z)
        hit = False
        while x[0] == 'v':
            d = D.get(x[1])
            if d is None or d.op != 'bin' or d.extra not in ('sub', 'add'):
                break
            y = s.strip(f, d.ops[1])
            if d.extra == 'sub' and y == v:
                hit = True
            elif y[0] == 'c':
                k += y[1] if d.extra == 'add' else -y[1]
            else:
                return None
            x = s.strip(f, d.ops[0])
        if not hit:
            return None
        n = s.ub(f, x, b)
        return None if n is None else n + k

    def blk(s, f, i):
        a = s.func(f)
        if not hasattr(a, 'ib'):
            a.ib = {id(x): b.name for b in f.blocks for x in b.insts}
        return a.ib.get(id(i))

    # ---------------------------------------------------------------- objects
    def gepplace(s, f, bt, base, idx, b, seen):
        """-> list of (root, offset, capacity)"""
        first = idx[0]
        out = s.places(f, base, b, seen)
        if len(idx) == 1:
            if out is None:
                return None
            es = s.size(bt)
            r = []
            for root, off, cap in out:
                if first[0] == 'c':
                    k = first[1] * es
                    r.append((root, None if off is None else off + k if isinstance(off, int) else
                              None if off == ('in',) else off[:2] + (off[2] + k, off[3]), cap))
                else:
                    r.append((root, ('i', first, off, es) if isinstance(off, int) else None, cap))
            return r
        roots = None
        if out is not None and first == ('c', 0) and all(o == 0 for _, o, _ in out):
            roots = [r for r, _, _ in out]
        if not roots:
            roots = [('x', s.strip(f, base) if base[0] == 'v' else base)] if first == ('c', 0) else \
                [('x', s.strip(f, base) if base[0] == 'v' else base, s.canon(f, first))]
        ty = bt
        cap = s.size(bt)
        off = 0
        for v in idx[1:]:
            if isinstance(ty, tuple) and ty[0] in ('named', 'st'):
                nm = ty[1] if ty[0] == 'named' else str(ty)
                roots = [('f', r, nm, v[1]) for r in roots]
                ty = s.m.types[ty[1]][v[1]] if ty[0] == 'named' else ty[1][v[1]]
                cap = s.size(ty)
                off = 0
            elif isinstance(ty, tuple) and ty[0] == 'arr':
                es = s.size(ty[2])
                if isinstance(ty[2], tuple):
                    roots = [('e', r, s.canon(f, v)) for r in roots]
                    cap = es
                    off = 0
                else:
                    off = v[1] * es if v[0] == 'c' else ('i', v, 0, es)
                ty = ty[2]
        return [(r, off, cap) for r in roots]

    def canon(s, f, v):
        """a name for the value of v that does not depend on how often it is computed"""
        st = s.cur[1] if s.cur is not None and s.cur[0] == f.name else {}
        l = s.rlin(f, v, st)
        return l if l is not None else v

    def same(s, f, x, y):
        return x == y or x[0] == 'v' and y[0] == 'v' and s.canon(f, x) == s.canon(f, y)

    def places(s, f, v, b, seen=()):
        if v[0] == 'g':
            g = s.m.globals.get(v[1])
            if g is None or g[2]:
                return None
            return [(('g', v[1]), 0, s.size(g[0]))]
        if v[0] == 'gep':
            return s.gepplace(f, v[1], v[2], list(v[3]), b, seen)
        if v[0] != 'v' or v in seen:
            return [] if v in seen else None
        seen = seen + (v,)
        d = s.p.defs(f).get(v[1])
        if d is None:
            k = f._pidx.get(v[1])
            return [(('p', k), 0, s.pcap(f, k))] if k is not None else None
        if d.op == 'alloca':
            return [(('a', d.res), 0, s.size(d.ty))]
        if d.op == 'gep':
            return s.gepplace(f, d.ty, d.ops[0], list(d.ops[1:]), b, seen)
        if d.op == 'cast':
            return s.places(f, d.ops[0], b, seen)
        if d.op in ('phi', 'select'):
            out = []
            for x in (d.ops if d.op == 'phi' else d.ops[1:]):
                if x[0] in ('c', 'undef'):
                    continue
                r = s.places(f, x, b, seen)
                if r is None:
                    return None
                cyc = d.op == 'phi' and len(d.ops) > 1
                out += [(a, None if cyc and o != 0 else o, c) for a, o, c in r]
            if d.op == 'phi' and any(o is None for _, o, _ in out):
                out = [(a, None, c) for a, o, c in out]
            return list(dict.fromkeys(out))
        if d.op == 'call' and d.extra[0][0] == 'g' and d.extra[0][1] in ('malloc', 'osAlloc', 'osAllocCleared', 'calloc'):
            z = d.ops[0]
            if d.extra[0][1] == 'calloc':
                if d.ops[0][0] == 'c' and d.ops[1][0] == 'c':
                    z = ('c', d.ops[0][1] * d.ops[1][1])
                else:
                    z = ('undef',)
            return [(('h', d.res), 0, z[1] if z[0] == 'c' else None)]
        if d.op == 'call' and d.extra[0][0] == 'g' and d.extra[0][1] in SAMESTR:
            r = s.places(f, d.ops[SAMESTR[d.extra[0][1]]], b, seen)
            return r and [(a, ('in',), c) for a, o, c in r]
        return None

    def pcap(s, f, k):
        """room behind pointer parameter k: the least any caller hands over"""
        if s.cx and s.cx[0] == f.name:
            return s.cx[1][k][0] if k < len(s.cx[1]) else None
        key = (f.name, k)
        if key in s._pcap:
            return s._pcap[key]
        s._pcap[key] = None
        r = None
        for g, i in s.p.callsites.get(f.name, ()):
            if k >= len(i.ops):
                continue
            s.p.defs(g)
            pl = s.places(g, i.ops[k], s.blk(g, i))
            for root, off, cap in pl or ():
                o = s.offub(g, off, s.blk(g, i))
                if cap is not None and o is not None:
                    r = minn(r, max(0, cap - o))
        s._pcap[key] = r
        return r

    def offub(s, f, off, b):
        if isinstance(off, int):
            return off
        if off is None or off == ('in',):
            return None
        _, v, base, es = off
        n = s.ub(f, v, b)
        if n is None or not isinstance(base, int):
            return None
        return base + n * es

    # ---------------------------------------------------------------- strings
    def lenof(s, f, v, st, seen=(), b=None):
        """upper bound of strlen(v); st: flow state or None (declared sizes only)"""
        if v[0] == 'g':
            t = s.p.string(v[1])
            if t is not None:
                return len(t.split('\0')[0])
        if v[0] == 'gep' and v[2][0] == 'g' and all(x == ('c', 0) for x in v[3]):
            t = s.p.string(v[2][1])
            if t is not None:
                return len(t)
        if v in seen:
            return -1
        seen = seen + (v,)
        if st is not None:
            n = st.get(('s', v))
            if n is not None:
                return n
        if v[0] == 'v':
            d = s.p.defs(f).get(v[1])
            if d is None:
                k = f._pidx.get(v[1])
                if k is None:
                    return None
                if st is not None and ('p', k) in st:
                    return st[('p', k)]
                return s.plen(f, k)
            if d.op in ('phi', 'select'):
                r = -1
                for x in (d.ops if d.op == 'phi' else d.ops[1:]):
                    if x[0] in ('c', 'undef'):
                        continue
                    r = maxn(r, s.lenof(f, x, st, seen))
                return r
            if d.op == 'cast':
                return s.lenof(f, d.ops[0], st, seen)
            if d.op == 'call' and d.extra[0][0] == 'g':
                t = d.extra[0][1]
                if t in SAMESTR:
                    return s.lenof(f, d.ops[SAMESTR[t]], st, seen)
                if t in ('strerror', 'ctime'):
                    return {'strerror': 100, 'ctime': 25}[t]
                if t in s.m.funcs:
                    return s.retlen(s.m.funcs[t], f, d, st, seen)
                return None
            if d.op == 'load':
                a = d.ops[0]
                x = s.p.defs(f).get(a[1]) if a[0] == 'v' else None
                if x is not None and x.op == 'gep' and x.ops[0][0] == 'v':
                    z = s.p.defs(f).get(x.ops[0][1])
                    if z is not None and z.op == 'alloca':
                        g = s.copied(f, z.res)
                        return s.table(g) if g else None
                if x is not None and x.op == 'gep' and x.ops[0][0] == 'g':
                    a = x.ops[0]
                elif a[0] == 'gep':
                    a = a[2]
                if a[0] == 'g':
                    return s.table(a[1])
                return s.ptrfield(f, d.ops[0])
            if d.op == 'gep' and len(d.ops) == 2:
                n = s.lenof(f, d.ops[0], st, seen)
                if n is not None and d.ops[1][0] == 'c' and d.ops[1][1] >= 0:
                    return max(0, n - d.ops[1][1])
                return n
        pl = s.places(f, v, b)
        if not pl:
            return None
        r = -1
        for root, off, cap in pl:
            n = None
            if st is not None:
                n = st.get(root)
            if n is None:
                n = None if cap is None else cap - 1
            if isinstance(off, int) and n is not None:
                n = max(0, n - off)
            r = maxn(r, n)
        return r

    def ptrfield(s, f, a):
        """longest string behind a pointer member: what is allocated for it"""
        key = s.memkey(f, a)
        if key is None:
            return None
        if not hasattr(s, '_ptrf'):
            s._ptrf = {}
            for g in s.m.funcs.values():
                s.p.defs(g)
                for b in g.blocks:
                    for i in b.insts:
                        if i.op == 'store' and i.ty == 'ptr':
                            k = s.memkey(g, i.ops[1])
                            if k is not None:
                                s._ptrf.setdefault(k[2:], []).append((g, b.name, i.ops[0]))
        if key[2:] in s._pf:
            return s._pf[key[2:]]
        s._pf[key[2:]] = None
        r = -1
        cur, s.cur = s.cur, None
        for g, b, v in s._ptrf.get(key[2:], ()):
            if v == ('c', 0):
                continue
            d = s.p.defs(g).get(v[1]) if v[0] == 'v' else None
            if d is not None and d.op == 'call' and d.extra[0][0] == 'g' and d.extra[0][1] in ('osAlloc', 'osAllocCleared', 'malloc'):
                n = s.ub(g, d.ops[0], b)
                r = maxn(r, None if n is None else n - 1)
            else:
                r = None
        if not s._ptrf.get(key[2:]) and key[2] != 'scalar':
            r = s.initial(key[2], key[3])
        s.cur = cur
        s._pf[key[2:]] = None if r is None or r < 0 else r
        return s._pf[key[2:]]

    def copied(s, f, reg):
        """the constant a local array is initialised with, when nothing else is stored there"""
        src = None
        D = s.p.defs(f)
        for i in f.insts():
            if i.op == 'call' and i.extra[0] == ('g', 'llvm.memcpy.p0.p0.i64') and i.ops[0] == ('v', reg):
                if src or i.ops[1][0] != 'g':
                    return None
                src = i.ops[1][1]
            elif i.op == 'store':
                a = D.get(i.ops[1][1]) if i.ops[1][0] == 'v' else None
                if i.ops[1] == ('v', reg) or a is not None and a.op == 'gep' and a.ops[0] == ('v', reg):
                    return None
        return src

    def lenpl(s, pl):
        if not pl:
            return None
        r = -1
        for root, off, cap in pl:
            r = maxn(r, None if cap is None else cap - 1)
        return r

    def table(s, g):
        """longest string in a table of strings that nobody changes"""
        x = s.m.globals.get(g)
        if x is None or not x[1] or x[1][0] != 'agg':
            return None
        if not hasattr(s, '_stored'):
            s._stored = set()
            for f in s.m.funcs.values():
                s.p.defs(f)
                for i in f.insts():
                    if i.op == 'store':
                        a = i.ops[1]
                        while a[0] in ('gep', 'v'):
                            if a[0] == 'gep':
                                a = a[2]
                            else:
                                d = s.p.defs(f).get(a[1])
                                if d is None or d.op != 'gep':
                                    break
                                a = d.ops[0]
                        if a[0] == 'g':
                            s._stored.add(a[1])
        if g in s._stored:
            return None
        r = -1
        work = list(x[1][1])
        while work:
            v = work.pop()
            if v[0] == 'agg':
                work += v[1]
                continue
            t = s.p.string(v[1]) if v[0] == 'g' else '' if v[0] == 'c' else None
            if t is None:
                return None
            r = max(r, len(t))
        return r if r >= 0 else None

    def initial(s, st, path):
        """longest string in a pointer member that only initialisers set"""
        if len(path) != 1:
            return None
        r = -1
        work = [(ty, init) for ty, init, c in s.m.globals.values() if init]
        while work:
            ty, v = work.pop()
            if not isinstance(ty, tuple) or v is None or v[0] != 'agg':
                continue
            if ty[0] == 'arr':
                work += [(ty[2], x) for x in v[1]]
            elif ty[0] == 'named':
                work += list(zip(s.m.types[ty[1]], v[1]))
                if ty[1] == st:
                    x = v[1][path[0]]
                    t = s.p.string(x[1]) if x[0] == 'g' else '' if x[0] == 'c' else None
                    r = maxn(r, None if t is None else len(t))
        return r

    def plen(s, f, k):
        if s.cx and s.cx[0] == f.name:
            return s.cx[1][k][1] if k < len(s.cx[1]) else None
        key = (f.name, k)
        if key in s._plen:
            return s._plen[key]
        s._plen[key] = -1
        cs = s.p.callsites.get(f.name)
        r = -1
        if not cs:
            r = None
        for g, i in cs or ():
            if k >= len(i.ops):
                r = None
                break
            s.p.defs(g)
            r = maxn(r, s.lenof(g, i.ops[k], None))
            if r is None:
                break
        s._plen[key] = r
        return r

    def retlen(s, t, f, call, st, seen):
        key = t.name
        if key not in s._ret:
            s._ret[key] = None
            s.p.defs(t)
            out = []
            for i in t.insts():
                if i.op == 'ret' and i.ops:
                    out.append(i.ops[0])
            s._ret[key] = out
        r = -1
        for v in s._ret[key] or [None]:
            if v is None:
                return None
            if v[0] == 'c':
                continue
            n = s.lenof(t, v, None, ())
            r = maxn(r, n)
        return r

    # ---------------------------------------------------------------- printf
    def fmtlen(s, f, i, k, st, b):
        """upper bound of the characters sprintf produces; k: index of the format operand"""
        v = i.ops[k]
        fmt = s.p.string(v[1]) if v[0] == 'g' else None
        if fmt is None:
            return None, 'format not constant'
        n = 0
        a = k + 1
        pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([diuxXcsp%o])', fmt):
            n += m.start() - pos
            pos = m.end()
            fl, wd, pr, ln, cv = m.groups()
            if cv == '%':
                n += 1
                continue
            if wd == '*':
                a += 1
            if pr == '*':
                a += 1
            if a >= len(i.ops):
                return None, 'missing argument'
            arg = i.ops[a]
            a += 1
            if cv == 's':
                x = s.lenof(f, arg, st, (), b)
                if pr and pr != '*':
                    x = minn(x, int(pr))
            elif cv == 'c':
                x = 1
            else:
                u = s.ub(f, arg, b)
                bits = 64 if ln in ('l', 'll', 'z', 'j') else 32
                if u is None or u >= 1 << bits:
                    u = (1 << bits) - 1 if cv in 'uxXo' else 1 << (bits - 1)
                    sign = cv in 'di'
                else:
                    sign = False
                x = len({'x': '%x', 'X': '%X', 'o': '%o'}.get(cv, '%d') % u) + (1 if sign else 0)
                if pr and pr != '*':
                    x = max(x, int(pr))
            if x is None:
                return None, f'length of argument {a-1-k} unknown'
            if wd and wd != '*':
                x = max(x, int(wd))
            n += x
        n += len(fmt) - pos
        return n, ''

    # ---------------------------------------------------------------- flow
    def term(s, f, v, b):
        pl = s.places(f, v, b)
        if pl and len(pl) == 1 and pl[0][1] == 0:
            return pl[0][0]
        return ('s', v)

    def kill(s, f, st, root, b):
        st.pop(root, None)
        for k in list(st):
            if k[0] == 'sum' and root in k[1]:
                del st[k]
            elif k[0] == 'live' and st[k] == root:
                del st[k]
            elif k[0] == 's' or k[0] == 'live' and st[k][0] == 's':
                v = k[1] if k[0] == 's' else st[k][1]
                pl = s.places(f, v, b)
                if pl is None or any(r == root for r, _, _ in pl):
                    del st[k]
        if root[0] in ('f', 'e'):
            # the same member reached through another pointer, another element of the same array
            for k in list(st):
                if k[0] == root[0] == 'f' and k != root and k[2:] == root[2:] or k[0] == root[0] == 'e' and k != root and \
                        (k[1] == root[1] or k[1][0] == root[1][0] == 'f' and k[1][2:] == root[1][2:]):
                    del st[k]

    def setlen(s, f, st, pl, n, b):
        for root, off, cap in pl or ():
            s.kill(f, st, root, b)
        if pl and len(pl) == 1 and n is not None and n >= 0:
            root, off, cap = pl[0]
            if isinstance(off, int):
                n += off
            elif off is not None and off != ('in',):
                o = s.offub(f, off, b)
                n = addn(n, o)
            else:
                n = None
            if n is not None and (cap is None or n < cap):
                st[root] = n

    def lin(s, f, v, st):
        """v as a sum of current string lengths and a constant"""
        v = s.strip(f, v)
        if v[0] == 'c':
            return (), v[1]
        if v[0] != 'v':
            return None
        if ('live', v[1]) in st:
            return (st[('live', v[1])],), 0
        d = s.p.defs(f).get(v[1])
        if d is not None and d.op == 'bin' and d.extra in ('add', 'sub'):
            a = s.lin(f, d.ops[0], st)
            c = s.lin(f, d.ops[1], st)
            if a is not None and c is not None:
                if d.extra == 'add':
                    return tuple(sorted(a[0] + c[0], key=repr)), a[1] + c[1]
                if not c[0]:
                    return a[0], a[1] - c[1]
        return None

    def invariant(s, f, i, st, b, k):
        cap = s.invfield(k[2], k[3])
        if cap is None:
            return
        n = minn(s.ub(f, i.ops[0], b), s.rsum(st, s.rlin(f, i.ops[0], st)))
        nm = k[2][7:] + '.' + s.m.fname(k[2], k[3][-1])
        s.site(f, i, 'count', 'ok' if n is not None and n <= cap else 'over' if n is not None else 'len', f'{nm} gets {n}, the array has {cap}')

    def invfield(s, st, path):
        """members that count what is used of an array of the same struct"""
        x = COUNTS.get((st[7:] if st.startswith('struct.') else st, s.m.fname(st, path[0]) if len(path) == 1 else None))
        if x is None:
            return None
        for k, ty in enumerate(s.m.types[st]):
            if s.m.fname(st, k) == x and isinstance(ty, tuple) and ty[0] == 'arr':
                return ty[1]
        return None

    def gscalar(s, g):
        """a number read from a file into a global: the limit it is checked against before that succeeds"""
        if g not in s._gs:
            s._gs[g] = None
            if all(i.op == 'load' or i.op == 'call' and i.extra[0] == ('g', 'osRead') or i.op == 'icmp'
                   for f in s.m.funcs.values() for i in f.insts() if ('g', g) in i.ops):
                r = -1
                for f, i in s.p.callsites.get('osRead', ()):
                    if i.ops[1] != ('g', g):
                        continue
                    s.p.defs(f)
                    a = s.func(f)
                    for bl in f.blocks:
                        t = bl.insts[-1]
                        if t.op != 'ret' or not t.ops:
                            continue
                        d = s.p.defs(f).get(t.ops[0][1]) if t.ops[0][0] == 'v' else None
                        ways = [(q, x) for q, x in d.extra] if d is not None and d.op == 'phi' else [(bl.name, t.ops[0])]
                        for q, x in ways:
                            if x == ('c', 0):
                                continue
                            n = None
                            for c in s.guards(f, q) + (s.edge(f, q, bl.name) if q != bl.name else []):
                                for pr, x, y in s.conds(f, c):
                                    x = s.strip(f, x)
                                    e = s.p.defs(f).get(x[1]) if x[0] == 'v' else None
                                    if e is not None and e.op == 'load' and e.ops[0] == ('g', g) and y[0] == 'c' and pr in ('ult', 'slt', 'ule', 'sle'):
                                        n = minn(n, y[1] - (pr in ('ult', 'slt')))
                            r = maxn(r, n)
                s._gs[g] = r if r is not None and r >= 0 else None
        return s._gs[g]

    def positive(s, f, v, b, extra=(), seen=()):
        """v is at least 1"""
        if v[0] == 'c':
            return v[1] >= 1
        if v[0] != 'v':
            return False
        v = s.strip(f, v)
        if v[0] == 'c':
            return v[1] >= 1
        if (v, b) in seen or len(seen) > 12:
            return True
        seen = seen + ((v, b),)
        st = s.cur[1] if s.cur is not None and s.cur[0] == f.name else {}
        l = s.rlin(f, v, st)
        for g in list(extra) + s.guards(f, b):
            for pr, x, y in s.conds(f, g):
                x, y = s.strip(f, x), s.strip(f, y)
                for pr, x, y in ((pr, x, y), ({'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge',
                                               'sge': 'sle'}.get(pr, pr), y, x)):
                    if y[0] != 'c' or x[0] != 'v':
                        continue
                    n = y[1] + 1 if pr in ('ugt', 'sgt') else y[1] if pr in ('uge', 'sge', 'eq') else 1 if pr == 'ne' and y[1] == 0 else None
                    if n is None:
                        continue
                    k = s.rlin(f, x, st)
                    # v = x + (difference)
                    if l is not None and k is not None and l[:2] == k[:2] and n + l[2] - k[2] >= 1:
                        return True
        D = s.p.defs(f)
        d = D.get(v[1])
        if d is None:
            k = f._pidx.get(v[1])
            if k is None:
                return False
            cs = s.p.callsites.get(f.name) or ()
            cur, s.cur = s.cur, None
            r = bool(cs) and all(k < len(i.ops) and (s.p.defs(g) is not None) and s.positive(g, i.ops[k], s.blk(g, i), (), seen) for g, i in cs)
            s.cur = cur
            return r
        if d.op == 'phi':
            a = s.func(f)
            return all(s.positive(f, x, q, s.edge(f, q, a.where[d.res]), seen) for q, x in d.extra if q in a.idom)
        if d.op == 'select':
            return s.positive(f, d.ops[1], b, list(extra) + [(d.ops[0], True)], seen) and s.positive(f, d.ops[2], b, list(extra) + [(d.ops[0], False)], seen)
        if d.op == 'bin' and d.extra == 'add' and d.ops[1][0] == 'c':
            return d.ops[1][1] >= 1
        if d.op == 'bin' and d.extra == 'add':
            return s.positive(f, d.ops[0], b, extra, seen) or s.positive(f, d.ops[1], b, extra, seen)
        return False

    def rlin(s, f, v, st, dep=0):
        """v as (registers added, registers subtracted, constant)"""
        v = s.strip(f, v)
        if v[0] == 'c':
            return (), (), v[1]
        if v[0] != 'v':
            return None
        r = st.get(('eq', v[1]), v[1])
        d = s.p.defs(f).get(r)
        if d is not None and d.op == 'bin' and d.extra in ('add', 'sub') and dep < 5:
            a = s.rlin(f, d.ops[0], st, dep + 1)
            c = s.rlin(f, d.ops[1], st, dep + 1)
            if a is not None and c is not None:
                return s.radd(a, c if d.extra == 'add' else (c[1], c[0], -c[2]))
        return (r,), (), 0

    def radd(s, a, c):
        pos, neg = list(a[0] + c[0]), list(a[1] + c[1])
        for x in list(pos):
            if x in neg:
                pos.remove(x)
                neg.remove(x)
        return tuple(sorted(pos)), tuple(sorted(neg)), a[2] + c[2]

    def rsum(s, st, l):
        """upper bound of a linear expression from the recorded sums"""
        if l is None or l[1]:
            return None
        if not l[0]:
            return l[2]
        n = st.get(('rs', l[0]))
        return None if n is None else n + l[2]

    def rlearn(s, f, st, pr, x, y):
        if pr in ('ugt', 'uge', 'sgt', 'sge'):
            x, y = y, x
            pr = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pr]
        if pr not in ('ult', 'ule', 'slt', 'sle'):
            return
        a, c = s.rlin(f, x, st), s.rlin(f, y, st)
        if a is None or c is None:
            return
        l = s.radd(a, (c[1], c[0], -c[2]))
        if len(l[0]) == 2 and not l[1]:
            n = -l[2] - (1 if pr in ('ult', 'slt') else 0)
            k = ('rs', l[0])
            if k not in st or st[k] > n:
                st[k] = n

    def memkey(s, f, a):
        d = s.p.defs(f).get(a[1]) if a[0] == 'v' else None
        if d is not None and d.op == 'gep' and len(d.ops) > 2 and isinstance(d.ty, tuple) and d.ty[0] == 'named' \
                and all(x[0] == 'c' for x in d.ops[1:]):
            return ('mem', s.strip(f, d.ops[0]), d.ty[1], tuple(x[1] for x in d.ops[2:]))
        if d is not None and d.op == 'alloca' and isinstance(d.ty, str):
            return ('mem', a, 'scalar', a[1])
        if a[0] == 'g':
            return ('mem', a, 'scalar', a[1])
        return None

    def learn(s, f, st, g, b):
        for pr, x, y in s.conds(f, g):
            s.rlearn(f, st, pr, x, y)
            for pr, x, y in ((pr, x, y), ({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle', 'eq': 'eq'}.get(pr), y, x)):
                if pr not in ('ult', 'ule', 'slt', 'sle', 'eq'):
                    continue
                l = s.lin(f, x, st)
                if l is None or not l[0]:
                    continue
                n = y[1] if y[0] == 'c' else s.ub(f, y, b)
                if n is None:
                    continue
                n = n - l[1] - (1 if pr in ('ult', 'slt') else 0)
                if n < 0:
                    continue
                if len(l[0]) == 1:
                    k = l[0][0]
                    if k not in st or st[k] > n:
                        st[k] = n
                else:
                    k = ('sum', l[0])
                    if k not in st or st[k] > n:
                        st[k] = n
                    for k in l[0]:
                        if k not in st or st[k] > n:
                            st[k] = n

    def site(s, f, i, kind, verdict, detail):
        if s.rec is not None:
            s.rec.append((f, i, kind, verdict, detail))

    def fits(s, f, i, kind, pl, n, b, what, st=None, extra=None):
        """writing n bytes (None: unknown) to pl"""
        if pl is None:
            s.site(f, i, kind, 'where', what)
            return
        for root, off, cap in pl:
            if cap is None:
                s.site(f, i, kind, 'cap', what)
                continue
            o = s.offub(f, off, b)
            if n is None:
                s.site(f, i, kind, 'len', f'{what} to {s.name(f, root)} of {cap} bytes')
            elif o is None:
                s.site(f, i, kind, 'over' if n > cap else 'off', f'{n} bytes by {what} at an unknown place in {s.name(f, root)} of {cap}')
            elif o + n > cap:
                s.site(f, i, kind, 'over', f'up to {n} bytes by {what} at {o} of {s.name(f, root)}, which has {cap}')
            else:
                s.site(f, i, kind, 'ok', f'{n} bytes by {what} at {o} of {s.name(f, root)}, which has {cap}')

    def place_of(s, f, v, seen=()):
        """the object or member a pointer leads to, without the position in it"""
        if v in seen:
            return v
        seen += (v,)

        def gep(ty, base, idx):
            r = s.place_of(f, base, seen)
            for x in idx[1:]:
                if isinstance(ty, tuple) and ty[0] == 'named':
                    r = ('f', r, ty[1], x[1])
                    ty = s.m.types[ty[1]][x[1]]
                elif isinstance(ty, tuple) and ty[0] == 'arr':
                    ty = ty[2]
            return r
        if v[0] == 'gep':
            return gep(v[1], v[2], list(v[3]))
        d = s.p.defs(f).get(v[1]) if v[0] == 'v' else None
        if d is None:
            return v
        if d.op == 'gep':
            return gep(d.ty, d.ops[0], list(d.ops[1:]))
        if d.op == 'cast':
            return s.place_of(f, d.ops[0], seen)
        if d.op == 'load':
            return ('ld', s.place_of(f, d.ops[0], seen))
        return v

    def unterminated(s, f, call, b):
        """can the destination of this strncpy be used as text, or left for others, before a 0 is put behind it?"""
        F = s.func(f)
        root = s.place_of(f, call.ops[0])
        d = s.p.defs(f).get(root[1]) if root[0] == 'v' else None
        local = d is not None and d.op == 'alloca'
        work, seen = [(b, F.bl[b].insts.index(call) + 1)], set()
        while work:
            b, k = work.pop()
            for i in F.bl[b].insts[k:]:
                if i.op == 'store' and i.ops[0] == ('c', 0) and s.place_of(f, i.ops[1]) == root:
                    break
                if i.op == 'call' and any(s.place_of(f, x) == root for x in i.ops) and \
                        not (i.extra[0][0] == 'g' and i.extra[0][1].startswith(('llvm.', 'strncpy', 'memset', 'osWrite', 'fwrite', 'pktWrite'))):
                    return True
                if i.op == 'ret':
                    if not local:
                        return True
                    break
            else:
                for n in F.succ[b]:
                    if n not in seen:
                        seen.add(n)
                        work.append((n, 0))
        return False

    def name(s, f, root):
        if root[0] == 'f':
            n = s.m.fname(root[2], root[3]) if root[2].startswith('struct.') else str(root[3])
            return (root[2][7:] if root[2].startswith('struct.') else root[2]) + '.' + n
        if root[0] == 'e':
            return s.name(f, root[1])
        if root[0] == 'a':
            return 'local ' + re.sub(r'(\.addr)?(\.?i?\d+)*$', '', root[1])
        if root[0] == 'p':
            return 'parameter ' + f.params[root[1]][1]
        if root[0] == 'g':
            return 'global ' + root[1]
        return 'allocated memory'

    def step(s, f, i, st, b):
        s.cur = (f.name, st)
        if i.op == 'load':
            if i.ty in ('i32', 'i16', 'i64'):
                k = s.memkey(f, i.ops[0])
                st.pop(('eq', i.res), None)
                if k is not None:
                    if k in st:
                        st[('eq', i.res)] = st[k]
                    else:
                        st[k] = i.res
            return
        if i.op == 'store':
            if i.ty != 'i8':
                k = s.memkey(f, i.ops[1])
                if k is not None:
                    for x in list(st):
                        if x[0] == 'mem' and x[2:] == k[2:]:
                            del st[x]
                    s.invariant(f, i, st, b, k)
                return
            pl = s.places(f, i.ops[1], b)
            if not pl:
                return
            for root, off, cap in pl:
                if off == ('in',):
                    # somewhere in the string
                    cur = st.get(root)
                    s.kill(f, st, root, b)
                    if cur is not None and i.ops[0] == ('c', 0):
                        st[root] = cur
                    continue
                if cap is not None and (off is None or not isinstance(off, int)):
                    o = s.offub(f, off, b)
                    s.site(f, i, 'index', 'ok' if o is not None and o < cap else 'over' if o is not None else 'idx',
                           f'index {o} of {s.name(f, root)} with {cap} bytes')
                elif cap is not None and isinstance(off, int):
                    s.site(f, i, 'index', 'ok' if off < cap else 'over', f'index {off} of {s.name(f, root)} with {cap} bytes')
                cur = st.get(root)
                s.kill(f, st, root, b)
                o = s.offub(f, off, b)
                if i.ops[0] == ('c', 0):
                    n = minn(cur, o)
                    if n is not None:
                        st[root] = n
                elif cur is not None and isinstance(off, int) and off < cur:
                    st[root] = cur
            return
        if i.op != 'call':
            return
        c = i.extra[0]
        t = c[1] if c[0] == 'g' else None
        if t == 'strlen':
            st[('live', i.res)] = s.term(f, i.ops[0], b)
            n = s.lenof(f, i.ops[0], st, (), b)
            st.pop(('ub', i.res), None)
            if n is not None and n >= 0:
                st[('ub', i.res)] = n
            return
        if t in RAW:
            for k in list(st):
                if k[0] == 'mem' and (k[2] == 'scalar' or t not in COPYIN):
                    del st[k]
        if t in SIZED:
            d, z = SIZED[t]
            pl = s.places(f, i.ops[d], b)
            zv = i.ops[z]
            n = zv[1] if zv[0] == 'c' else s.ub(f, zv, b)
            l = s.lin(f, zv, st)
            if l is not None and l[0]:
                # so many bytes as a string is long
                m = s.total(st, l[0], f, b)
                n = minn(n, addn(m, l[1]))
            if n is not None:
                s.enter(f, i, [t], st, b)
            if t == 'mystrncpy':
                s.site(f, i, t, 'ok' if s.positive(f, zv, b) else 'zero', 'the size handed to mystrncpy can be 0: it then writes before the destination and without limit')
            sl = s.slack(f, zv, pl[0][1], b) if pl and len(pl) == 1 else None
            if pl and len(pl) == 1 and isinstance(pl[0][1], tuple) and pl[0][1][0] == 'i' and pl[0][1][3] == 1:
                a, c = s.rlin(f, pl[0][1][1], st), s.rlin(f, zv, st)
                if a is not None and c is not None:
                    sl = minn(sl, s.rsum(st, s.radd(a, c)))
            if sl is not None:
                # as many bytes as are left behind the index
                s.fits(f, i, t, [(pl[0][0], pl[0][1][2], pl[0][2])], sl, b, t)
            else:
                s.fits(f, i, t, pl, n, b, t)
            if t in COPYIN:
                sp = s.places(f, i.ops[1], b)
                if sp and len(sp) == 1 and isinstance(sp[0][1], int) and sp[0][2] is not None and n is not None and zv[0] == 'c' \
                        and n > sp[0][2] - sp[0][1] and sp[0][0][0] != 'p':
                    s.site(f, i, t, 'over', f'reads {n} bytes from {s.name(f, sp[0][0])}, which has {sp[0][2]}')
            L = None
            if t == 'mystrncpy':
                L = minn(None if n is None else n - 1, s.lenof(f, i.ops[1], st, (), b))
            elif t in ('osFGets', 'fgets', 'MakeDirectory', 'MakeFullPath', 'jbstrcpy', 'jbstrcpyrest', 'snprintf', 'vsnprintf'):
                L = None if n is None else n - 1
                if t == 'MakeFullPath':
                    L = minn(L, addn(addn(s.lenof(f, i.ops[0], st, (), b), s.lenof(f, i.ops[1], st, (), b)), 1))
                if t == 'snprintf':
                    L = minn(L, s.fmtlen(f, i, 2, st, b)[0])
            elif t == 'strncpy':
                x = s.lenof(f, i.ops[1], st, (), b)
                L = x if x is not None and n is not None and x < n else None
                if L is None:
                    s.site(f, i, 'text', 'term' if s.unterminated(f, i, b) else 'ok', f'{s.name(f, pl[0][0]) if pl else "the destination"} of strncpy')
            elif 'memset' in t and i.ops[1] == ('c', 0) and n:
                L = 0
            s.setlen(f, st, pl, L, b)
            return
        if t in UNSIZED:
            pl = s.places(f, i.ops[0], b)
            if t in ('strcpy', 'stpcpy'):
                n = s.lenof(f, i.ops[1], st, (), b)
                s.fits(f, i, t, pl, addn(n, 1), b, t)
                s.setlen(f, st, pl, n, b)
            elif t == 'sprintf':
                n, why = s.fmtlen(f, i, 1, st, b)
                s.fits(f, i, t, pl, addn(n, 1), b, t + (f' ({why})' if why else ''))
                s.setlen(f, st, pl, n, b)
            elif t in ('strcat', 'strncat'):
                a = s.lenof(f, i.ops[0], st, (), b)
                n = s.lenof(f, i.ops[1], st, (), b)
                if t == 'strncat':
                    n = minn(n, i.ops[2][1] if i.ops[2][0] == 'c' else s.ub(f, i.ops[2], b))
                tot = addn(a, n)
                ks = tuple(sorted((s.term(f, i.ops[0], b), s.term(f, i.ops[1], b)), key=repr))
                tot = minn(tot, st.get(('sum', ks)))
                # the place written to starts at the string, wherever that is
                if pl:
                    for root, off, cap in pl:
                        if cap is None:
                            s.site(f, i, t, 'cap', t)
                        elif tot is None:
                            s.site(f, i, t, 'len', f'{t} to {s.name(f, root)} of {cap} bytes')
                        else:
                            o = off if isinstance(off, int) else 0
                            s.site(f, i, t, 'over' if o + tot + 1 > cap else 'ok',
                                   f'up to {tot+1} bytes ({a}+{n}+1) by {t} in {s.name(f, root)}, which has {cap}')
                else:
                    s.site(f, i, t, 'where', t)
                keep = {k: st[k] + n for k in st if k[0] == 'sum' and ks[0] != ks[1] and s.term(f, i.ops[0], b) in k[1]} if n is not None else {}
                s.setlen(f, st, pl, tot, b)
                st.update(keep)
            else:
                s.fits(f, i, t, pl, None, b, t)
                s.setlen(f, st, pl, None, b)
            return
        if t in READONLY or t and t.startswith('llvm.'):
            return
        ts = s.p.call_targets(f, i)
        s.enter(f, i, ts, st, b)
        for k, v in enumerate(i.ops):
            if k < len(i.extra[1]) and i.extra[1][k] != 'ptr':
                continue
            if ts and all(x in s.m.funcs and k not in s.W.get(x, ()) for x in ts):
                continue
            pl = s.places(f, v, b)
            if not pl:
                continue
            n = -1
            for x in ts:
                n = maxn(n, s.summary(x, k))
            if n == -1 or not ts:
                n = None
            if n == 'same':
                continue
            s.setlen(f, st, pl, n, b)
        for k in list(st):
            if k[0] == 'mem':
                del st[k]
        if any(x in s.m.funcs for x in ts):
            for k in list(st):
                if k[0] in ('f', 'g', 'e') or k[0] == 's' and not s.places(f, k[1], b):
                    s.kill(f, st, k, b)

    def enter(s, f, i, ts, st, b):
        if s.rec is not None:
            for t in ts:
                if t in s.R and t in s.m.funcs:
                    s.todo.setdefault((t, s.context(f, i, st, b)), f.name + ':' + locstr(i))

    def total(s, st, terms, f, b):
        if len(terms) > 1 and ('sum', terms) in st:
            return st[('sum', terms)]
        r = 0
        for t in terms:
            n = st.get(t)
            if n is None:
                if t[0] == 's':
                    n = s.lenof(f, t[1], st, (), b)
                else:
                    n = s.rootlen(f, t)
            r = addn(r, n)
        return r

    def rootlen(s, f, root):
        if root[0] == 'p':
            return s.plen(f, root[1])
        if root[0] == 'a':
            d = s.p.defs(f)[root[1]]
            return s.size(d.ty) - 1
        if root[0] == 'g':
            return s.size(s.m.globals[root[1]][0]) - 1
        if root[0] == 'f':
            return s.size(s.m.types[root[2]][root[3]]) - 1 if root[2] in s.m.types else None
        if root[0] == 'e' and root[1][0] == 'f' and root[1][2] in s.m.types:
            ty = s.m.types[root[1][2]][root[1][3]]
            return s.size(ty[2]) - 1 if ty[0] == 'arr' else None
        return None

    def mentions(s, k, regs):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'v':
                return k[1] in regs
            return any(s.mentions(x, regs) for x in k)
        return isinstance(k, str) and k in regs

    def summary(s, fn, k):
        """length of the string in parameter k when fn returns; None: unknown"""
        if fn not in s.m.funcs:
            return None
        f = s.m.funcs[fn]
        if fn not in s._sum:
            s._sum[fn] = {}
            rec, s.rec = s.rec, None
            s._sum[fn] = s.flow(f)
            s.rec = rec
        return s._sum[fn].get(('p', k))

    def flow(s, f):
        """-> string lengths in the parameters at exit"""
        s.p.defs(f)
        a = s.func(f)
        ins = {a.order[0]: {}}
        visits = {}
        work = [a.order[0]]
        num = {n: k for k, n in enumerate(a.order)}
        heads = {n for n in a.order if any(q in num and num[q] >= num[n] for q in a.pred[n])}
        rec, s.rec = s.rec, None
        exits = []
        while work:
            work.sort(key=lambda n: num[n])
            n = work.pop(0)
            st = dict(ins[n])
            for i in a.bl[n].insts:
                s.step(f, i, st, n)
            for x in dict.fromkeys(a.succ[n]):
                o = dict(st)
                for g in s.edge(f, n, x):
                    if len([y for y in a.succ[n] if y == x]) == 1 or g[0] == 'switch':
                        s.learn(f, o, g, n)
                # registers defined by phis of x get new values
                ph = {i.res for i in a.bl[x].phis}
                if ph:
                    new = []
                    for p in a.bl[x].phis:
                        v = dict(p.extra).get(n)
                        l = s.rlin(f, v, o) if v is not None and p.ty in ('i32', 'i64', 'i16') else None
                        if l is None:
                            continue
                        if not l[0] and len(l[1]) == 1 and l[1][0] not in ph:
                            new.append((tuple(sorted((p.res, l[1][0]))), l[2]))
                        elif len(l[0]) == 1 and not l[1]:
                            for k in o:
                                if k[0] == 'rs' and l[0][0] in k[1]:
                                    y = list(k[1])
                                    y.remove(l[0][0])
                                    if y[0] not in ph:
                                        new.append((tuple(sorted((p.res, y[0]))), o[k] + l[2]))
                    for k in list(o):
                        if k[0] == 'rs' and (k[1][0] in ph or k[1][1] in ph) or k[0] == 'mem' and (k[1][1] in ph or o[k] in ph) \
                                or k[0] in ('eq', 'ub', 'live') and k[1] in ph or k[0] == 'eq' and o[k] in ph:
                            del o[k]
                    for k, m in new:
                        o[('rs', k)] = min(m, o.get(('rs', k), m))
                    for k in list(o):
                        if k[0] == 's' and k[1][0] == 'v' and k[1][1] in ph:
                            del o[k]
                        elif k[0] in ('f', 'e') and s.mentions(k, ph):
                            del o[k]
                if x not in ins:
                    ins[x] = o
                    work.append(x)
                    continue
                old = ins[x]
                if len(a.pred[x]) == 1:
                    if o != old:
                        ins[x] = o
                        if x not in work:
                            work.append(x)
                    continue
                new = {k: o[k] for k in o if k not in old and (k[0] == 'ub' or k[0] == 'eq' and not s.dom(a, a.where.get(k[1]), x))}
                for k in old:
                    if k not in o:
                        if k[0] == 'ub' or k[0] == 'eq' and not s.dom(a, a.where.get(k[1]), x):
                            new[k] = old[k]
                        continue
                    if k[0] in ('live', 'mem', 'eq'):
                        if old[k] == o[k]:
                            new[k] = old[k]
                    else:
                        m = max(old[k], o[k])
                        if m > old[k]:
                            visits[(x, k)] = visits.get((x, k), 0) + 1
                            if visits[(x, k)] > (40 if x in heads else 200):
                                continue
                        new[k] = m
                if new != old:
                    ins[x] = new
                    if x not in work:
                        work.append(x)
        s.rec = rec
        out = None
        for n in a.order:
            st = dict(ins[n])
            for i in a.bl[n].insts:
                s.step(f, i, st, n)
                if i.op == 'ret':
                    e = {k: v for k, v in st.items() if k[0] == 'p'}
                    out = e if out is None else {k: max(v, e[k]) for k, v in out.items() if k in e}
        return out or {}

    def dom(s, a, d, x):
        while True:
            if d == x:
                return True
            if x not in a.idom or a.idom[x] == x:
                return False
            x = a.idom[x]

    def receivers(s):
        """-> (functions that write characters through a parameter, functions for which the room or the length
        behind a parameter matters: those are analysed once per kind of call)"""
        W, R = {}, {}
        work = []
        for f in s.m.funcs.values():
            s.p.defs(f)
            for b in f.blocks:
                for i in b.insts:
                    if i.op == 'store' and i.ty == 'i8':
                        work.append((f, b.name, i, ()))
                    elif i.op == 'call':
                        work.append((f, b.name, i, s.p.call_targets(f, i)))
        ch = True
        while ch:
            ch = False
            for f, b, i, ts in work:
                dst, use = [], []
                if i.op == 'store':
                    dst = [i.ops[1]]
                for t in ts:
                    if t in SIZED:
                        dst.append(i.ops[SIZED[t][0]])
                    elif t in UNSIZED:
                        dst.append(i.ops[0])
                    elif t not in s.m.funcs and t not in READONLY:
                        dst += [x for x, ty in zip(i.ops, i.extra[1]) if ty == 'ptr']
                    if t in UNSIZED or t in SIZED or t == 'strlen':
                        use += [x for x, ty in zip(i.ops, i.extra[1]) if ty == 'ptr']
                    dst += [i.ops[k] for k in W.get(t, ()) if k < len(i.ops)]
                    use += [i.ops[k] for k in R.get(t, ()) if k < len(i.ops)]
                for M, vs in ((W, dst), (R, dst + use)):
                    for v in vs:
                        for root, off, cap in s.places(f, v, b) or ():
                            if root[0] == 'p' and root[1] not in M.setdefault(f.name, set()):
                                M[f.name].add(root[1])
                                ch = True
        s._pcap = {}
        return W, R

    def context(s, f, i, st, b):
        out = []
        offs = []
        for v in i.ops:
            pl = s.places(f, v, b) if v[0] != 'c' else None
            if pl and len(pl) == 1 and isinstance(pl[0][1], tuple) and pl[0][1] != ('in',):
                offs.append(pl[0][1])
        corr = [(o, k) for o in offs for k, z in enumerate(i.ops) if s.slack(f, z, o, b) is not None]
        for k, v in enumerate(i.ops):
            ty = i.extra[1][k] if k < len(i.extra[1]) else None
            hit = [o for o, z in corr if z == k]
            if hit:
                # place and size move together: the case index 0 stands for all
                out.append((None, None, s.slack(f, v, hit[0], b)))
                continue
            if ty == 'ptr':
                cap = None
                pl = s.places(f, v, b)
                for root, off, c in pl or ():
                    o = s.offub(f, off, b) if not any(off == x for x, z in corr) else off[2]
                    if c is not None and o is not None:
                        cap = minn(cap, max(0, c - o))
                out.append((cap, s.lenof(f, v, st, (), b), None))
            else:
                n = s.ub(f, v, b) if v[0] != 'c' else v[1]
                l = s.lin(f, v, st)
                if l is not None and l[0]:
                    n = minn(n, addn(s.total(st, l[0], f, b), l[1]))
                out.append((None, None, n))
        return tuple(out)

    def run(s):
        s.W, s.R = s.receivers()
        R = s.R
        s.rec = []
        done = set()
        s.n = {}
        # what main can reach, directly or through a pointer
        live = set()
        work = [x for x in ('main',) if x in s.m.funcs] + [g for x in s.p.fpslots.values() for g in x] + \
            [x[1] for f in s.m.funcs.values() for i in f.insts() for x in i.ops if x[0] == 'g' and x[1] in s.m.funcs]
        while work:
            x = work.pop()
            if x in live or x not in s.m.funcs:
                continue
            live.add(x)
            for i in s.m.funcs[x].insts():
                if i.op == 'call':
                    work += list(s.p.call_targets(s.m.funcs[x], i))
        s.live = live
        for f in s.m.funcs.values():
            if f.name not in live:
                continue
            if f.name not in R or not s.p.callsites.get(f.name):
                s.cx = None
                s.flow(f)
        while s.todo:
            (fn, cx), via = s.todo.popitem()
            if (fn, cx) in done or fn not in s.m.funcs:
                continue
            done.add((fn, cx))
            s.cx = (fn, cx)
            s.n[fn] = s.n.get(fn, 0) + 1
            s.via = via
            s.flow(s.m.funcs[fn])
        s.contexts = len(done)
        s.cx = None
        return s.rec


# writes that are safe for a reason this analysis does not see: (function, operation, destination)
# function, its array (locals only as such: their names may change), size of the array, furthest byte allowed
# (None: an index that is not known), reason
ASSUME = [
    ('HandleNetmail', 'MemMessage.Subject', 72, 151, 'the file names are taken from the old subject, where they were separated: '
     'putting them together again never gets longer'),
    ('PackFile', 'local', 200, None, 'names of packet files have eight characters before the extension'),
    ('PackFile', 'local', 200, 204, 'names of packet files have eight characters before the extension, which is replaced'),
    ('BadFile', 'local', 10, 13, 'the number counts bad files of the same name'),
    ('BadFile', 'local', 100, 103, 'the number counts bad files of the same name'),
]


def assumed(fname, dest, detail):
    m = re.search(r'which has (\d+)| with (\d+) bytes', detail)
    if not m:
        return False
    cap = int(m.group(1) or m.group(2))
    m = re.match(r'up to (\d+) bytes(?:.* at (\d+) of)?', detail)
    need = int(m.group(1)) + int(m.group(2) or 0) if m else None
    for fn, d, c, n, why in ASSUME:
        if fn == fname and c == cap and (d == dest or d == 'local' and dest.startswith('local ')):
            if n is None and detail.startswith('index None') or n is not None and need is not None and need <= n:
                return True
    return False


PROGRAMS = ('crashmail', 'crashmaint', 'crashexport', 'crashwrite', 'crashstats', 'crashgetnode', 'crashlist', 'crashlistout')
WHAT = {'over': 'can write behind the end', 'len': 'writes text whose length nothing limits', 'idx': 'writes at an index that nothing limits',
        'term': 'is used as text although nothing terminates it',
        'off': 'writes at a place that nothing limits', 'zero': 'can be called with size 0'}


def buffers(ctx):
    """every write to an array of known size (string and block functions, single characters) stays inside it, for all lengths the checks on the way allow"""
    for name in PROGRAMS:
        p = ctx.prog(name)
        B = Bounds(p)
        ok = {}
        for f, i, kind, verdict, detail in B.run():
            ctx.functions.add(f.name)
            dest = re.search(r'(local \S+|global \S+|parameter \S+|[A-Za-z]\w*\.\w+|allocated memory)(?=,| of \d| with \d)', detail)
            dest = dest.group(1) if dest else ''
            key = f'{f.name}: {kind} to {dest}' if dest else f'{f.name}: {kind}'
            if verdict in ('where', 'cap'):
                ok.setdefault('open', set()).add((f.name, kind, locstr(i)))
                continue
            ctx.oblige(key, locstr(i))
            if verdict == 'ok':
                continue
            if assumed(f.name, dest, detail):
                continue
            ctx.finding(key, f'{WHAT[verdict]}: {detail}', locstr(i))
        ctx.states += B.contexts
        ctx.notes.append(f'{name}: {len(ok.get("open", ()))} writes to memory whose size is not known here (allocated or handed over) are not decided')
    for a in ASSUME:
        ctx.notes.append(f'assumed: {a[0]}: write to {a[1]} array of {a[2]}: {a[4]}')
    ctx.floor('', 150)


# lists of blocks: how many elements of a block are in use -> the arrays
BLOCKS = {('Nodes2D', 'Nodes'): ('Net', 'Node'), ('Path', 'Paths'): ('Path',)}


def leaf(st, x):
    """the current value behind a load, when it is known"""
    return st.mem.get(x[1], x) if x[0] == 'ld' else x


class Room(Rule):
    correlate = False
    max_states = 400

    def track(s, atom, st):
        return any(ldfld(x, S, F) is not None for x in atom[1:] if isinstance(x, tuple) for S, F in BLOCKS) or \
            atom[0] == 'nz' and atom[1][0] in ('ld', 'call', 'arg', 'new')

    def track_mem(s, a, v):
        return any(fld(a, S, F) is not None for S, F in BLOCKS)

    def below(s, st, x, base, S, F, n):
        """x < n, given that the count of a block is never more than n"""
        if x[0] == 'c':
            return 0 <= x[1] < n
        cnt = LD(base, S, F)
        if st.truth(('eq', x, ('c', n))) is False and x == cnt:
            return True
        for sg in 'us':
            if st.truth(('lt', sg, x, ('c', n))) is True or st.truth(('lt', sg, x, cnt)) is True:
                return True
            for k in (n - 1, n):
                if st.truth(('lt', sg, ('c', n - 1), x)) is False:
                    return True
        if x[0] == 'bin' and x[1] in ('sub', 'add') and x[3][0] == 'c' and x[2] == cnt:
            d = x[3][1] if x[1] == 'add' else -x[3][1]
            return d <= -1 or d >= 1 << 15
        return False

    def place(s, eng, st, i, a, fr):
        x = a
        while x[0] in ('idx', 'off'):
            for (S, F), arrs in BLOCKS.items():
                for A in arrs:
                    base = fld(x[1], S, A) if x[0] == 'idx' else None
                    if base is None:
                        continue
                    n = s.size(S, A)
                    k = f'{eng.p.m and fr.fn.name}: elements of {S}.{A} inside the block'
                    s.ctx.oblige(k, locstr(i))
                    if not s.below(st, x[2], base, S, F, n):
                        eng.report(k, f'an element of {S}.{A} is written at an index that can be {n} or more', st, i, fr)
            x = x[1]

    def on_store(s, eng, st, i, addr, val, fr):
        s.place(eng, st, i, addr, fr)
        for (S, F), arrs in BLOCKS.items():
            base = fld(addr, S, F)
            if base is None:
                continue
            n = s.size(S, arrs[0])
            k = f'{fr.fn.name}: {S}.{F} never exceeds the block'
            s.ctx.oblige(k, locstr(i))
            ok = val[0] == 'c' and 0 <= val[1] <= n
            if val[0] == 'bin' and val[1] == 'add' and val[3] == ('c', 1):
                ok = s.below(st, val[2], base, S, F, n)
            if not ok:
                eng.report(k, f'{S}.{F} can get more than {n}', st, i, fr)
        return None

    def on_call(s, eng, st, i, t, args, fr):
        if t in SIZED or t in UNSIZED:
            s.place(eng, st, i, args[SIZED[t][0] if t in SIZED else 0], fr)
        return None


def blocks(ctx):
    """the blocks of seen-by and path lists are filled only up to their size"""
    p = ctx.prog()
    B = Bounds(p)
    r = Room()

    def size(S, A):
        ty = p.m.types['struct.' + S]
        for k, x in enumerate(ty):
            if p.m.fname('struct.' + S, k) == A:
                return x[1]
        raise AnalysisBroken(f'{S}.{A} is not an array any more')
    r.size = size
    fs = []
    for f in p.m.funcs.values():
        p.defs(f)
        for i in f.insts():
            if i.op == 'store':
                d = p.defs(f).get(i.ops[1][1]) if i.ops[1][0] == 'v' else None
                if d is not None and d.op == 'gep' and isinstance(d.ty, tuple) and d.ty[0] == 'named' and len(d.ops) > 2 \
                        and any(d.ty[1] == 'struct.' + S and p.m.fname(d.ty[1], d.ops[2][1]) in (F,) + A for (S, F), A in BLOCKS.items()):
                    fs.append(f.name)
    for n in sorted(set(fs)):
        ctx.run(p, r, n, None)
    ctx.floor('', 8)


RULES = {
    'A17': ('Text that is too long is cut off or refused, never written behind the end of a buffer', [buffers, blocks]),
}
