"""Counting loops: where the counter starts, how it steps, what it is compared with.

Only loops whose counter is a plain SSA phi are described; anything else yields nothing (and no verdict)."""


class Counter:
    def __init__(s, f, phi, init, step, body):
        s.f, s.phi, s.init, s.step, s.body = f, phi, init, step, body
        s.bounds = []     # (the comparison is with the counter itself (not the next value), other operand, comparison)


def strip(defs, v):
    while v[0] == 'v' and v[1] in defs and defs[v[1]].op == 'cast':
        v = defs[v[1]].ops[0]
    return v


def compares(defs, v, seen=None, f=None):
    """the comparisons a condition is made of"""
    seen = set() if seen is None else seen
    if v[0] != 'v' or v[1] in seen or v[1] not in defs:
        return
    seen.add(v[1])
    d = defs[v[1]]
    if d.op == 'icmp':
        yield d
        for x in d.ops:          # (a < b) != 0
            yield from compares(defs, x, seen, f)
    elif d.op in ('phi', 'select', 'bin', 'cast') and (d.op != 'phi' or d.ty == 'i1'):
        for x in d.ops if d.op != 'phi' else [y for _, y in d.extra]:
            yield from compares(defs, x, seen, f)
        if d.op == 'phi' and f is not None:       # a && b, a || b
            for bl, x in d.extra:
                t = f.bymap[bl].insts[-1]
                if x[0] == 'c' and t.op == 'br' and t.ops:
                    yield from compares(defs, t.ops[0], seen, f)


def natural(f, head, tail):
    body = {head, tail}
    st = [tail] if tail != head else []
    while st:
        x = st.pop()
        for y in f.bymap[x].preds:
            if y not in body:
                body.add(y)
                st.append(y)
    return body


def counters(p, f):
    """every loop counter of f"""
    defs = p.defs(f)
    out = []
    for b in f.blocks:
        for i in b.phis:
            init, step, body = [], None, set()
            for bl, v in i.extra:
                w = strip(defs, v)
                d = defs.get(w[1]) if w[0] == 'v' else None
                k = None
                if d is not None and d.op == 'bin' and d.extra in ('add', 'sub'):
                    x, y = strip(defs, d.ops[0]), strip(defs, d.ops[1])
                    if x == ('v', i.res) and y[0] == 'c':
                        k = y[1] if d.extra == 'add' else -y[1]
                    elif y == ('v', i.res) and x[0] == 'c' and d.extra == 'add':
                        k = x[1]
                if k is not None:
                    step = (k, w[1])
                    body |= natural(f, b.name, bl)
                elif w != ('v', i.res):
                    init.append(w)
            if step is None:
                continue
            c = Counter(f, i, init, step[0], body)
            for n in body:
                bb = f.bymap[n]
                t = bb.insts[-1]
                if t.op != 'br' or not t.ops or all(x in body for x in bb.succs):
                    continue
                for d in compares(defs, t.ops[0], None, f):
                    a, e = strip(defs, d.ops[0]), strip(defs, d.ops[1])
                    for x, y in ((a, e), (e, a)):
                        if x in (('v', i.res), ('v', step[1])):
                            c.bounds.append((x == ('v', i.res), y, d))
            out.append(c)
    return out


def uses_index(p, c, pred):
    """instructions of the loop that use the counter itself as an index of a place pred accepts"""
    defs = p.defs(c.f)
    for n in c.body:
        for i in c.f.bymap[n].insts:
            if i.op in ('gep', 'call') and any(strip(defs, x) == ('v', c.phi.res) for x in i.ops[i.op == 'gep':]) and pred(i):
                yield i


SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def bound(p, c):
    """[(locations the bound is loaded from, offset)]: the loop goes on while counter < loaded value + offset;
    ((), n) for a constant bound n, (None, 0) for a bound that is something else"""
    defs = p.defs(c.f)
    out = []
    for own, y, d in c.bounds:
        pr = d.extra
        if strip(defs, d.ops[1]) != y:
            pr = SWAP.get(pr, pr)
        off = 1 if pr in ('sle', 'ule', 'sgt', 'ugt') else 0
        e = defs.get(y[1]) if y[0] == 'v' else None
        while e is not None and e.op == 'bin' and e.extra in ('add', 'sub') and e.ops[1][0] == 'c':
            off += e.ops[1][1] if e.extra == 'add' else -e.ops[1][1]
            y = strip(defs, e.ops[0])
            e = defs.get(y[1]) if y[0] == 'v' else None
        if y[0] == 'c':
            out.append(((), off + y[1]))
        elif e is not None and e.op == 'load':
            out.append((frozenset(p.loc_of(c.f, e.ops[0])), off))
        else:
            out.append((None, 0))
    return out


def covers(ctx, p, fname, pred, what, start, ends, msg):
    """every counting loop of fname that walks the places pred accepts starts at 0, takes every one and ends at
    one of the given locations.  start: constant, or None for any"""
    from .engine import locstr
    n = 0
    f = p.m.funcs[fname]
    for c in counters(p, f):
        us = list(uses_index(p, c, pred))
        if not us or c.step < 0:
            continue
        n += 1
        key = f'{fname}: {what}'
        at = locstr(us[0])
        ctx.oblige(key, at)
        if c.step != 1:
            ctx.finding(key + ' (step)', msg, at)
        if start is not None and any(x[0] == 'c' and x[1] != start for x in c.init):
            ctx.finding(key + ' (start)', msg, at)
        bs = bound(p, c)
        if ends and bs and not any(l is None or (l and l <= ends and o == 0) for l, o in bs):
            ctx.finding(key + ' (end)', msg, at)
    return n


def linear(p, f, v, depth=12, cut=()):
    """the values v can have at a merge, each as {leaf: coefficient, 1: constant}; leaves are the locations loads read,
    ('arg', k), or ('?', reg).  phis and selects are expanded, loop counters (cut) are leaves"""
    defs = p.defs(f)
    args = {a[1]: k for k, a in enumerate(f.params)}

    def plus(a, b, k):
        r = dict(a)
        for x, c in b.items():
            r[x] = r.get(x, 0) + k * c
            if not r[x]:
                del r[x]
        return r

    def go(v, d, seen):
        v = strip(defs, v)
        if v[0] == 'c':
            return [{1: v[1]} if v[1] else {}]
        if v[0] != 'v' or d == 0:
            return [{('?', str(v)): 1}]
        if v[1] in args:
            return [{('arg', args[v[1]]): 1}]
        i = defs.get(v[1])
        if i is None or v[1] in cut or v[1] in seen:
            return [{('?', v[1]): 1}]
        if i.op == 'load':
            l = p.loc_of(f, i.ops[0])
            return [{('ld', frozenset(l)): 1}]
        if i.op == 'bin' and i.extra in ('add', 'sub'):
            k = 1 if i.extra == 'add' else -1
            return [plus(a, b, k) for a in go(i.ops[0], d - 1, seen) for b in go(i.ops[1], d - 1, seen)]
        if i.op == 'phi':
            return [x for _, w in i.extra for x in go(w, d - 1, seen | {v[1]})]
        if i.op == 'select':
            return [x for w in i.ops[1:] for x in go(w, d - 1, seen)]
        return [{('?', v[1]): 1}]

    out = []
    for x in go(v, depth, frozenset()):
        if x not in out:
            out.append(x)
    return out


def guarded(f, block, edge):
    """every path to block takes one of the edges edge(block, terminator) -> successor names"""
    seen, st = set(), [f.blocks[0].name]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        b = f.bymap[n]
        cut = edge(b, b.insts[-1])
        st += [x for x in b.succs if x not in cut]
    return block not in seen
