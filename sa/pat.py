"""Recognisers for condition atoms and terms (see engine.py for the term language)."""


def fld(addr, S, F):
    """base if addr is &base->S.F"""
    if isinstance(addr, tuple) and addr and addr[0] == 'fld' and addr[2] == S and (F is None or addr[3] == F):
        return addr[1]
    return None


def ldfld(t, S, F):
    if isinstance(t, tuple) and t and t[0] == 'ld':
        return fld(t[1], S, F)
    return None


def LD(base, S, F):
    return ('ld', ('fld', base, S, F))


def GL(name):
    return ('ld', ('g', name))


def CFG(F):
    return ('ld', ('fld', ('g', 'config'), 'Config', F))


def AND(x, m):
    return ('bin', 'and', x, ('c', m))


def flag(atom, S, F):
    """(base, mask) if atom tests base->S.F & mask"""
    if atom[0] == 'nz':
        x = atom[1]
        if x[0] == 'bin' and x[1] == 'and' and x[3][0] == 'c':
            b = ldfld(x[2], S, F)
            if b is not None:
                return b, x[3][1]
    return None


def call(t, names):
    if isinstance(t, tuple) and t and t[0] == 'call' and (t[1] == names or t[1] in names if not isinstance(names, str) else t[1] == names):
        return t[2]
    return None


def cmp4(atom, A, B):
    """atom is Compare4D(&a->A, &b->B) != 0 (either order) -> (a, b)"""
    if atom[0] != 'nz':
        return None
    a = call(atom[1], 'Compare4D')
    if a is None:
        return None
    for x, y in ((a[0], a[1]), (a[1], a[0])):
        p = fld(x, *A)
        q = fld(y, *B)
        if p is not None and q is not None:
            return p, q
    return None


def strings_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 's':
            yield t[1]
        for x in t:
            yield from strings_in(x)


def known(st, atom):
    """True/False/None"""
    return st.truth(atom)


def is_zero(st, x):
    v = st.truth(('nz', x))
    return v is False


def is_nonzero(st, x):
    return st.truth(('nz', x)) is True


def first_byte(addr, S, F):
    """term for base->F[0] given the address of the array field: ('ld', addr) """
    return ('ld', addr)


LISTS = {'TossNodes': 'TossNode', 'CNodeList': 'ConfigNode', 'AkaList': 'Aka', 'AreaList': 'Area', 'RouteList': 'Route',
         'PackerList': 'Packer', 'BounceList': 'PatternNode', 'FileAttachList': 'PatternNode',
         'BannedNodes': 'BannedNode', 'ArealistList': 'Arealist'}


def ptypes(p, f):
    """SSA name -> struct it points to (from the address computations made with it, closed over phis)"""
    if not hasattr(p, '_ptypes'):
        p._ptypes = {}
    if f.name in p._ptypes:
        return p._ptypes[f.name]
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    typ = {}
    for b in f.blocks:
        for i in list(b.phis) + b.insts:
            if i.op == 'phi':
                for _, v in i.extra:
                    if v[0] == 'v':
                        par[find(v[1])] = find(i.res)
            elif i.op == 'gep' and i.ops[0][0] == 'v' and isinstance(i.ty, tuple) and i.ty[0] == 'named':
                typ.setdefault(i.ops[0][1], i.ty[1][7:])
    cl = {}
    for n, t in typ.items():
        cl.setdefault(find(n), set()).add(t)
    out = {}
    for n in list(par) + list(typ):
        c = cl.get(find(n))
        if c and len(c) == 1:
            out[n] = next(iter(c))
        elif n in typ:
            out[n] = typ[n]
    p._ptypes[f.name] = out
    return out


def points_to(p, t):
    """struct a pointer term points to, when the analysis can tell"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] in ('phi', 'opq') and len(t) == 3 and t[1] in p.m.funcs:
        return ptypes(p, p.m.funcs[t[1]]).get(t[2])
    if t[0] == 'ld' and t[1][0] == 'fld':
        a = t[1]
        if a[3] == 'Next':
            return a[2]
        if a[3] in LISTS:
            return LISTS[a[3]]
        if a[3] == 'First' and a[1][0] == 'fld':
            return LISTS.get(a[1][3])
    if t[0] == 'call' and len(t) > 3 and t[3]:
        pass
    return None


def root_of(t):
    while isinstance(t, tuple) and t and t[0] in ('fld', 'idx', 'off'):
        t = t[1]
    return t


def lt_const(atom, truth):
    """(term, lower bound) implied by a comparison with a constant; None if it gives no lower bound"""
    if atom[0] == 'lt':
        _, sg, a, b = atom
        if a[0] != 'c' and b[0] == 'c' and not truth:      # not a<c  => a>=c
            return a, b[1]
        if a[0] == 'c' and b[0] != 'c' and truth:          # c<b => b>=c+1
            return b, a[1]+1
    if atom[0] == 'eq' and truth and atom[2][0] == 'c':
        return atom[1], atom[2][1]
    if atom[0] == 'nz' and truth:
        return atom[1], 1
    return None


def listhead(addr):
    """name of the list field if addr is the address of a list's first pointer"""
    if isinstance(addr, tuple) and addr and addr[0] == 'fld':
        if addr[2] == 'jbList' and addr[3] == 'First' and addr[1][0] == 'fld':
            return addr[1][3]
        if addr[3] in LISTS:
            return addr[3]
    return None


def listbase(addr):
    """the object whose list addr is the first pointer of"""
    if addr[2] == 'jbList' and addr[3] == 'First' and addr[1][0] == 'fld':
        return addr[1][1]
    return addr[1]
