"""Whole-program facts over an ir.Module: call graph (with function-pointer slots
resolved), field-based mod sets, purity, liveness, static address shapes."""
from . import ir
from collections import defaultdict

# ---- C library: which pointer arguments are written (by index); '' = none.
EXT_WRITES = {
    'strcpy': [0], 'strcat': [0], 'strncpy': [0], 'strncat': [0], 'memcpy': [0], 'memmove': [0], 'memset': [0],
    'sprintf': [0], 'vsprintf': [0], 'snprintf': [0], 'vsnprintf': [0], 'fread': [0], 'fgets': [0], 'read': [1],
    'sscanf': [2, 3, 4, 5, 6, 7, 8, 9], 'qsort': [0], 'time': [0], 'stat': [1], 'strtol': [1], 'strtoul': [1],
    'llvm.memcpy.p0.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0], 'llvm.memset.p0.i64': [0],
    'stpcpy': [0],
}
EXT_PURE = {'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strlen', 'strchr', 'strrchr', 'strstr', 'toupper',
            'tolower', 'isdigit', 'isspace', 'isalpha', 'isxdigit', 'isprint', 'isalnum', 'atoi', 'atol', 'memcmp',
            'abs', '__ctype_b_loc', '__ctype_toupper_loc', '__ctype_tolower_loc', 'strcspn', 'strspn', 'fnmatch'}


class Program:
    def __init__(s, mod):
        s.m = mod
        s._first_fields()
        s._shape = {}
        s.fpslots = defaultdict(set)       # ('F',struct,idx) / ('P',fn,i) / ('G',name) -> function names
        s._resolve_globals()
        s._collect_fp()
        s.callees = {}
        s._callgraph()
        s._mods()
        s._pure()
        s._live = {}

    # ---------- static helpers
    def _first_fields(s):
        """the compiler folds &global.first_member to &global: name the member again"""
        for f in s.m.funcs.values():
            for i in f.insts():
                k = 0 if i.op == 'load' else 1 if i.op == 'store' else None
                if k is None or i.ops[k][0] != 'g':
                    continue
                g = s.m.globals.get(i.ops[k][1])
                ty = g and g[0]
                idx = [('c', 0)]
                while isinstance(ty, tuple) and ty[0] == 'named' and s.m.types.get(ty[1]):
                    idx.append(('c', 0))
                    ty = s.m.types[ty[1]][0]
                if len(idx) > 1:
                    i.ops = list(i.ops)
                    i.ops[k] = ('gep', g[0], i.ops[k], tuple(idx))

    def string(s, name):
        g = s.m.globals.get(name)
        if g and g[1] and g[1][0] == 'cstr' and g[2]:
            return g[1][1].rstrip('\0')
        if g and g[1] and g[1][0] == 'zero' and g[2] and isinstance(g[0], tuple) and g[0][0] == 'arr' and g[0][2] == 'i8':
            return ''
        return None

    def _resolve_globals(s):
        """function pointers in global initialisers"""
        def walk(ty, v):
            if v is None:
                return
            if v[0] == 'agg':
                if isinstance(ty, tuple) and ty[0] == 'arr':
                    for x in v[1]:
                        walk(ty[2], x)
                elif isinstance(ty, tuple) and ty[0] == 'named':
                    for k, x in enumerate(v[1]):
                        ft = s.m.types[ty[1]][k]
                        if x[0] == 'g' and x[1] in s.m.funcs:
                            s.fpslots[('F', ty[1][7:], s.m.fname(ty[1], k))].add(x[1])
                        else:
                            walk(ft, x)
                elif isinstance(ty, tuple) and ty[0] == 'st':
                    for k, x in enumerate(v[1]):
                        if x[0] == 'g' and x[1] in s.m.funcs:
                            s.fpslots[('anon',)].add(x[1])
                        else:
                            walk(ty[1][k], x)
        for n, (ty, init, c) in s.m.globals.items():
            if init and init[0] == 'g' and init[1] in s.m.funcs:
                s.fpslots[('G', n)].add(init[1])
            walk(ty, init)

    def defs(s, f):
        if not hasattr(f, '_defs'):
            f._defs = {i.res: i for i in f.insts() if i.res}
            f._pidx = {p[1]: k for k, p in enumerate(f.params)}
        return f._defs

    def embedded(s):
        """struct types that occur by value inside other structs"""
        if not hasattr(s, '_emb'):
            emb = set()
            inside = {}

            def walk(ty, acc):
                if isinstance(ty, tuple):
                    if ty[0] == 'arr':
                        walk(ty[2], acc)
                    elif ty[0] == 'named':
                        acc.add(ty[1][7:])
                        for x in s.m.types.get(ty[1], ()):
                            walk(x, acc)
            for n, fs in s.m.types.items():
                for k, ty in enumerate(fs):
                    acc = set()
                    walk(ty, acc)
                    emb |= acc
                    if acc:
                        inside[(n[7:], s.m.fname(n, k))] = frozenset(acc)
            s._emb = emb
            s.inside = inside
        return s._emb

    def gep_loc(s, bt, base_loc, idx):
        """abstract location of an address produced by a gep"""
        loc = base_loc
        ty = bt
        first = True
        for v in idx:
            if first:
                first = False
                continue
            if isinstance(ty, tuple) and ty[0] == 'named':
                k = v[1]
                sn, fn = ty[1][7:], s.m.fname(ty[1], k)
                if loc[0] in ('F', 'A', 'PS'):
                    pass
                elif loc[0] == 'P' and sn in s.embedded():
                    loc = ('PS', loc[1], sn, fn)
                else:
                    loc = ('F', sn, fn)
                ty = s.m.types[ty[1]][k]
            elif isinstance(ty, tuple) and ty[0] == 'arr':
                ty = ty[2]
            elif isinstance(ty, tuple) and ty[0] == 'st':
                ty = ty[1][v[1]]
        return loc

    def at_arg(s, f, l, ops):
        """a callee's parameter-relative location, seen from the call site"""
        if l[1] >= len(ops):
            return
        for x in s.loc_of(f, ops[l[1]]):
            if l[0] == 'PS' and x[0] == 'D':
                yield ('F', l[2], l[3])
            elif l[0] == 'PS' and x[0] == 'P':
                yield ('PS', x[1], l[2], l[3])
            else:
                yield x

    def loc_of(s, f, v, seen=()):
        """flow-insensitive abstract location of pointer value v in f (set)"""
        if v[0] == 'g':
            return {('G', v[1])}
        if v[0] == 'gep':
            b = s.loc_of(f, v[2], seen)
            return {s.gep_loc(v[1], x, v[3]) for x in b}
        if v[0] != 'v':
            return set()
        d = s.defs(f).get(v[1])
        if d is None:
            return {('P', f._pidx[v[1]])} if v[1] in f._pidx else {('D',)}
        if v[1] in seen:
            return set()
        seen = seen + (v[1],)
        if d.op == 'alloca':
            return {('A', f.name, d.res)}
        if d.op == 'gep':
            b = s.loc_of(f, d.ops[0], seen)
            return {s.gep_loc(d.ty, x, d.ops[1:]) for x in b} if b else set()
        if d.op == 'cast':
            return s.loc_of(f, d.ops[0], seen)
        if d.op in ('phi', 'select'):
            r = set()
            for o in (d.ops if d.op == 'phi' else d.ops[1:]):
                r |= s.loc_of(f, o, seen)
            return r
        return {('D',)}

    # ---------- function pointers
    def _collect_fp(s):
        for _ in range(4):
            n0 = sum(len(x) for x in s.fpslots.values())
            for f in s.m.funcs.values():
                s.defs(f)
                for i in f.insts():
                    if i.op == 'store':
                        for t in s.fp_targets(f, i.ops[0]):
                            for l in s.loc_of(f, i.ops[1]):
                                s.fpslots[l].add(t)
                    elif i.op == 'call':
                        for k, a in enumerate(i.ops):
                            ts = s.fp_targets(f, a)
                            if ts:
                                for c in s.call_targets(f, i):
                                    s.fpslots[('PV', c, k)] |= ts
            if n0 == sum(len(x) for x in s.fpslots.values()):
                break

    def fp_targets(s, f, v, seen=()):
        if v[0] == 'g':
            return {v[1]} if v[1] in s.m.funcs else set()
        if v[0] != 'v' or v[1] in seen:
            return set()
        d = s.defs(f).get(v[1])
        if d is None:
            if v[1] in f._pidx:
                return set(s.fpslots.get(('PV', f.name, f._pidx[v[1]]), ()))
            return set()
        seen = seen + (v[1],)
        if d.op == 'load':
            if d.ty != 'ptr':
                return set()
            r = set()
            for l in s.loc_of(f, d.ops[0]):
                r |= s.fpslots.get(l, set())
            return r
        if d.op in ('phi', 'select'):
            r = set()
            for o in (d.ops if d.op == 'phi' else d.ops[1:]):
                r |= s.fp_targets(f, o, seen)
            return r
        if d.op == 'cast':
            return s.fp_targets(f, d.ops[0], seen)
        return set()

    def call_targets(s, f, i):
        c = i.extra[0]
        if c[0] == 'g':
            return {c[1]}
        return s.fp_targets(f, c)

    # ---------- call graph
    def _callgraph(s):
        s.callsites = defaultdict(list)    # callee -> [(fn, inst)]
        for f in s.m.funcs.values():
            cs = set()
            for i in f.insts():
                if i.op == 'call':
                    for t in s.call_targets(f, i):
                        cs.add(t)
                        s.callsites[t].append((f, i))
                    # callbacks handed to external functions
                    if i.extra[0][0] == 'g' and i.extra[0][1] not in s.m.funcs:
                        for a in i.ops:
                            for t in s.fp_targets(f, a):
                                cs.add(t)
            s.callees[f.name] = cs

    def reach(s, roots):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(s.callees.get(x, ()))
        return seen

    def reaching(s, targets):
        """functions from which some target (function name) is called, transitively"""
        rev = defaultdict(set)
        for f, cs in s.callees.items():
            for c in cs:
                rev[c].add(f)
        seen = set()
        st = list(targets)
        while st:
            x = st.pop()
            for p in rev.get(x, ()):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    # ---------- mod sets
    def _mods(s):
        direct = {}
        for f in s.m.funcs.values():
            r = set()
            for i in f.insts():
                if i.op == 'store':
                    for l in s.loc_of(f, i.ops[1]):
                        if l[0] != 'A':
                            r.add(l)
                elif i.op == 'call':
                    c = i.extra[0]
                    if c[0] == 'g' and c[1] not in s.m.funcs:
                        w = EXT_WRITES.get(c[1])
                        if w is None and c[1] not in EXT_PURE:
                            r.add(('X',))      # external effect
                        for k in w or ():
                            if k < len(i.ops):
                                for l in s.loc_of(f, i.ops[k]):
                                    if l[0] != 'A':
                                        r.add(l)
            direct[f.name] = r
        mods = {k: set(v) for k, v in direct.items()}
        ch = True
        while ch:
            ch = False
            for f in s.m.funcs.values():
                cur = mods[f.name]
                n0 = len(cur)
                for i in f.insts():
                    if i.op != 'call':
                        continue
                    for t in s.call_targets(f, i):
                        if t in mods:
                            for l in mods[t]:
                                if l[0] in ('P', 'PS'):
                                    for x in s.at_arg(f, l, i.ops):
                                        if x[0] != 'A':
                                            cur.add(x)
                                else:
                                    cur.add(l)
                if len(cur) != n0:
                    ch = True
        s.mods = mods

    def _pure(s):
        s.pure = set(EXT_PURE)
        for f, m in s.mods.items():
            if not m:
                s.pure.add(f)
        s.refs = {}
        for n in s.pure:
            f = s.m.funcs.get(n)
            if f:
                r = set()
                for i in f.insts():
                    if i.op == 'load':
                        r |= {l for l in s.loc_of(f, i.ops[0]) if l[0] in ('F', 'G', 'PS')}
                s.refs[n] = r
        ch = True
        while ch:
            ch = False
            for n in s.refs:
                f = s.m.funcs[n]
                for i in f.insts():
                    if i.op != 'call':
                        continue
                    for c in s.call_targets(f, i):
                        add = set()
                        for l in s.refs.get(c, ()):
                            if l[0] == 'PS':
                                add |= {x for x in s.at_arg(f, l, i.ops) if x[0] in ('F', 'G', 'PS')}
                            else:
                                add.add(l)
                        if not add <= s.refs[n]:
                            s.refs[n] |= add
                            ch = True

    # ---------- liveness
    def livein(s, f):
        if f.name in s._live:
            return s._live[f.name]
        use = {}
        de = {}
        for b in f.blocks:
            u = set()
            d = set()
            for i in b.phis:
                d.add(i.res)
            for i in b.insts:
                for o in operands(i):
                    if o not in d:
                        u.add(o)
                if i.res:
                    d.add(i.res)
            use[b.name] = u
            de[b.name] = d
        live = {b.name: set() for b in f.blocks}
        # phi uses are live-out of the predecessor
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for sn in b.succs:
                    sb = f.bymap[sn]
                    out |= live[sn] - {i.res for i in sb.phis}
                    for i in sb.phis:
                        for (pb, v) in i.extra:
                            if pb == b.name:
                                out |= set(vals(v))
                n = use[b.name] | (out - de[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        # live at block entry *after* phi evaluation: include phi results that are used
        res = {}
        for b in f.blocks:
            out = set()
            for sn in b.succs:
                sb = f.bymap[sn]
                out |= live[sn] - {i.res for i in sb.phis}
                for i in sb.phis:
                    for (pb, v) in i.extra:
                        if pb == b.name:
                            out |= set(vals(v))
            ph = {i.res for i in b.phis}
            used = set()
            d = set()
            for i in b.insts:
                for o in operands(i):
                    used.add(o)
            res[b.name] = live[b.name] | (ph & (out | used))
        s._live[f.name] = res
        return res


def vals(v):
    if v[0] == 'v':
        yield v[1]
    elif v[0] == 'gep':
        yield from vals(v[2])
        for x in v[3]:
            yield from vals(x)


def operands(i):
    for o in i.ops:
        yield from vals(o)
    if i.op == 'call':
        yield from vals(i.extra[0])
