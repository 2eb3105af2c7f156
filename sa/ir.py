"""Textual LLVM IR reader (clang 18, opaque pointers, after inlining + mem2reg).

Only what the analyses need: types, globals with initialisers, functions,
basic blocks, instructions with resolved operands and source locations."""
import re
from . import names

TOK = re.compile(r'''
   c"(?:[^"])*"                |   # char array constant
   [%@]"(?:[^"])*"             |   # quoted names
   [%@][-\w.$]+                |
   "(?:[^"])*"                 |
   ![-\w.]*                    |
   \#\d+                       |
   -?0x[0-9A-Fa-fKLMHR]+       |
   -?\d+\.\d+(?:e[+-]?\d+)?    |
   -?\d+                       |
   [A-Za-z_][\w.]*             |
   \.\.\.                      |
   [\[\]{}()<>,=*|:]
''', re.X)

BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor',
          'fadd','fsub','fmul','fdiv','frem'}
CASTS = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptosi','fptoui','sitofp','uitofp',
         'fpext','fptrunc','addrspacecast'}
FLAGS = {'nuw','nsw','exact','inbounds','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc',
         'disjoint','nneg','volatile','samesign'}
LINKAGE = {'private','internal','external','common','global','constant','unnamed_addr','local_unnamed_addr',
           'dso_local','weak','linkonce_odr','linkonce','weak_odr','hidden','default','thread_local','extern_weak',
           'appending','available_externally','protected'}


def cstr(tok):
    """c"..." -> python str (latin-1), without trailing NUL"""
    body = tok[2:-1]
    out = []
    i = 0
    while i < len(body):
        if body[i] == '\\':
            if body[i+1] == '\\':
                out.append('\\'); i += 2
            else:
                out.append(chr(int(body[i+1:i+3], 16))); i += 3
        else:
            out.append(body[i]); i += 1
    return ''.join(out)


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


def canon_struct(n):
    # %struct.Area.12 -> struct.Area
    n = unq(n)[1:]
    return re.sub(r'\.\d+$', '', n)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'ops', 'extra', 'loc', 'id', 'bb', 'fn')

    def __init__(s, op, res, ty, ops, extra, loc):
        s.op = op; s.res = res; s.ty = ty; s.ops = ops; s.extra = extra; s.loc = loc
        s.id = None; s.bb = None; s.fn = None

    def __repr__(s):
        return f'<{s.op} {s.res or ""} {s.ops} {s.extra}>'


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'phis', 'idx')

    def __init__(s, name):
        s.name = name; s.insts = []; s.succs = []; s.preds = []; s.phis = []; s.idx = 0


class Function:
    def __init__(s, name, params, vararg, retty):
        s.name = name; s.params = params; s.vararg = vararg; s.retty = retty
        s.blocks = []; s.bymap = {}; s.loc = None; s.sub = None
        s.internal = False

    def insts(s):
        for b in s.blocks:
            yield from b.phis
            yield from b.insts


class Module:
    def __init__(s):
        s.types = {}       # 'struct.X' -> list of types
        s.globals = {}     # name -> (ty, init, const)
        s.funcs = {}
        s.decls = set()
        s.meta = {}
        s.fields = {}

    def fname(s, st, k):
        f = s.fields.get(st)
        return f[k] if f and k < len(f) else str(k)


class P:
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod

    def peek(s, k=0):
        return s.t[s.i+k] if s.i+k < len(s.t) else None

    def next(s):
        x = s.t[s.i]; s.i += 1
        return x

    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        y = s.next()
        if y != x:
            raise SyntaxError(f'expected {x} got {y} at {" ".join(s.t[max(0,s.i-8):s.i+8])}')

    # ---- types
    def type(s):
        x = s.next()
        if x == '[':
            n = int(s.next()); s.expect('x'); t = s.type(); s.expect(']')
            ty = ('arr', n, t)
        elif x == '<':
            if s.peek() == '{':
                s.next()
                fs = []
                while not s.accept('}'):
                    fs.append(s.type()); s.accept(',')
                s.expect('>')
                ty = ('st', tuple(fs))
            else:
                n = int(s.next()); s.expect('x'); t = s.type(); s.expect('>')
                ty = ('vec', n, t)
        elif x == '{':
            fs = []
            while not s.accept('}'):
                fs.append(s.type()); s.accept(',')
            ty = ('st', tuple(fs))
        elif x[0] == '%':
            ty = ('named', canon_struct(x))
        else:
            ty = x
        # function type
        if s.peek() == '(' and ty != 'metadata':
            s.next()
            ps = []
            while not s.accept(')'):
                if s.accept('...'):
                    ps.append('...')
                else:
                    ps.append(s.type())
                s.accept(',')
            ty = ('fn', ty, tuple(ps))
        while s.accept('*'):
            ty = 'ptr'
        return ty

    ATTR = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly',
            'readnone','returned','immarg','nofree','noext','dead_on_unwind','writable','range'}

    def attrs(s):
        while True:
            x = s.peek()
            if x in s.ATTR:
                s.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype'):
                s.next()
                if s.peek() == '(':
                    d = 0
                    while True:
                        y = s.next()
                        if y == '(':
                            d += 1
                        if y == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    s.next()
            elif x and x[0] == '#':
                s.next()
            else:
                return

    # ---- values: returns value repr
    def value(s, ty):
        x = s.next()
        if x[0] == '%':
            return ('v', unq(x)[1:])
        if x[0] == '@':
            return ('g', unq(x)[1:])
        if x == 'null':
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('undef', 'poison', 'none'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x.startswith('c"'):
            return ('cstr', cstr(x))
        if re.match(r'^-?\d+$', x):
            return ('c', int(x))
        if re.match(r'^-?(0x|\d+\.)', x):
            return ('fc', x)
        if x == '[':
            vs = []
            while not s.accept(']'):
                t = s.type(); vs.append(s.value(t)); s.accept(',')
            return ('agg', tuple(vs))
        if x == '{':
            vs = []
            while not s.accept('}'):
                t = s.type(); vs.append(s.value(t)); s.accept(',')
            return ('agg', tuple(vs))
        if x == '<':
            s.expect('{')
            vs = []
            while not s.accept('}'):
                t = s.type(); vs.append(s.value(t)); s.accept(',')
            s.expect('>')
            return ('agg', tuple(vs))
        if x == 'getelementptr':
            while s.peek() in FLAGS:
                s.next()
            if s.peek() == 'inrange':
                s.next(); d = 0
                while True:
                    y = s.next()
                    if y == '(': d += 1
                    if y == ')':
                        d -= 1
                        if d == 0: break
            s.expect('(')
            bt = s.type(); s.expect(',')
            s.type(); base = s.value('ptr')
            idx = []
            while s.accept(','):
                s.accept('inrange')
                t = s.type(); idx.append(s.value(t))
            s.expect(')')
            return ('gep', bt, base, tuple(idx))
        if x in CASTS:
            s.expect('(')
            t = s.type(); v = s.value(t); s.expect('to'); s.type(); s.expect(')')
            return v
        if x in BINOPS:
            while s.peek() in FLAGS:
                s.next()
            s.expect('(')
            t = s.type(); a = s.value(t); s.expect(','); t = s.type(); b = s.value(t); s.expect(')')
            return ('cbin', x, a, b)
        if x in ('icmp', 'select'):
            raise SyntaxError('constexpr ' + x)
        raise SyntaxError(f'value? {x} at {" ".join(s.t[max(0,s.i-10):s.i+8])}')

    def tv(s):
        t = s.type(); s.attrs()
        return t, s.value(t)


META_NODE = re.compile(r'^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$')
FIELD = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![\d]+|[-\w. |]+)')


def parse_meta(line, mod):
    m = META_NODE.match(line)
    if not m:
        m2 = re.match(r'^!(\d+) = (?:distinct )?!\{(.*)\}$', line)
        if m2:
            mod.meta[m2.group(1)] = ('T', re.findall(r'!(\d+)|null', m2.group(2)))
        return
    d = dict((k, v) for k, v in FIELD.findall(m.group(3)))
    mod.meta[m.group(1)] = (m.group(2), d)


class LocResolver:
    def __init__(s, mod):
        s.m = mod; s.cache = {}; s.fcache = {}

    def file_of(s, scope):
        if scope in s.fcache:
            return s.fcache[scope]
        node = s.m.meta.get(scope)
        r = ('?', '?')
        if node and node[0] != 'T':
            d = node[1]
            if node[0] == 'DIFile':
                r = (d.get('filename', '"?"').strip('"'), '')
            elif node[0] == 'DISubprogram':
                f = s.file_of(d['file'][1:])[0] if 'file' in d else '?'
                r = (f, d.get('name', '"?"').strip('"'))
            elif 'scope' in d:
                r = s.file_of(d['scope'][1:])
        s.fcache[scope] = r
        return r

    def get(s, mid):
        if mid is None:
            return None
        if mid in s.cache:
            return s.cache[mid]
        node = s.m.meta.get(mid)
        r = None
        if node and node[0] == 'DILocation':
            d = node[1]
            f, fn = s.file_of(d['scope'][1:])
            r = (f, int(d.get('line', '0')), fn)
        s.cache[mid] = r
        return r


def struct_fields(mod):
    """'struct.X' -> [member names] from the debug metadata"""
    out = {}

    def members(d):
        el = d.get('elements')
        if not el:
            return None
        t = mod.meta.get(el[1:])
        if not t or t[0] != 'T':
            return None
        r = []
        for x in t[1]:
            n = mod.meta.get(x)
            if not n or n[0] != 'DIDerivedType':
                return None
            r.append(n[1].get('name', '"?"').strip('"'))
        return r
    for k, n in mod.meta.items():
        if n[0] == 'DICompositeType' and 'structure_type' in n[1].get('tag', '') and 'name' in n[1]:
            r = members(n[1])
            if r:
                out.setdefault('struct.' + n[1]['name'].strip('"'), r)
        elif n[0] == 'DIDerivedType' and 'typedef' in n[1].get('tag', '') and 'baseType' in n[1]:
            b = mod.meta.get(n[1]['baseType'][1:])
            if b and b[0] == 'DICompositeType' and 'name' not in b[1] and 'structure_type' in b[1].get('tag', ''):
                r = members(b[1])
                if r:
                    out.setdefault('struct.' + n[1]['name'].strip('"'), r)
    return out


def parse(path):
    mod = Module()
    with open(path, encoding='latin-1') as fh:
        lines = fh.read().split('\n')
    # metadata first
    for l in lines:
        if l.startswith('!') and ' = ' in l:
            parse_meta(l, mod)
    mod.fields = names.members(struct_fields(mod))
    loc = LocResolver(mod)
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] == ';' or l[0] == '!':
            continue
        if l[0] == '%':
            m = re.match(r'^(%\S+) = type (.*)$', l)
            if m:
                if m.group(2) == 'opaque':
                    continue
                p = P(TOK.findall(m.group(2)), mod)
                t = p.type()
                nm = canon_struct(m.group(1))
                mod.types.setdefault(nm, list(t[1]))
        elif l[0] == '@':
            m = re.match(r'^(@(?:"[^"]*"|\S+)) = (.*)$', l)
            nm = unq(m.group(1))[1:]
            body = re.sub(r', align \d+.*$|, !dbg.*$', '', m.group(2))
            toks = TOK.findall(body)
            k = 0
            const = False
            ext = False
            while toks[k] in LINKAGE:
                if toks[k] == 'constant':
                    const = True
                if toks[k] == 'external':
                    ext = True
                k += 1
            p = P(toks[k:], mod)
            ty = p.type()
            init = None
            if not ext and p.peek() is not None:
                try:
                    init = p.value(ty)
                except SyntaxError:
                    init = None
            mod.globals[nm] = (ty, init, const)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            mod.decls.add(m.group(1).strip('"'))
        elif l.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            i += 1
            f = parse_func(l, body, mod, loc)
            mod.funcs[f.name] = f
    return mod


def parse_func(head, body, mod, loc):
    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
    name = m.group(1).strip('"')
    pre = head[:m.start()]
    toks = TOK.findall(head[m.end()-1:])
    p = P(toks, mod)
    p.expect('(')
    params = []
    vararg = False
    while not p.accept(')'):
        if p.accept('...'):
            vararg = True
        else:
            t = p.type(); p.attrs()
            params.append((t, unq(p.next())[1:]))
        p.accept(',')
    ptoks = [t for t in TOK.findall(pre)[1:] if t not in LINKAGE and t not in P.ATTR and t not in
             ('dso_local', 'internal')]
    retty = P(ptoks, mod).type() if ptoks else 'void'
    f = Function(name, params, vararg, retty)
    f.internal = ' internal ' in pre
    dm = re.search(r'!dbg !(\d+)', head)
    if dm and dm.group(1) in mod.meta:
        d = mod.meta[dm.group(1)][1]
        f.loc = (loc.file_of(dm.group(1))[0], int(d.get('line', '0')), name)
    cur = Block('entry')
    first = True
    k = 0
    while k < len(body):
        l = body[k]
        k += 1
        if not l.strip():
            continue
        if l[0] != ' ':
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            nm = m.group(1).strip('"')
            if first and not cur.insts and not cur.phis:
                cur = Block(nm)
            else:
                f.blocks.append(cur)
                cur = Block(nm)
            first = False
            continue
        first = False if cur.insts else first
        s = l.strip()
        if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[')[-1]:
            while True:
                l2 = body[k]; k += 1
                s += ' ' + l2.strip()
                if l2.strip().startswith(']'):
                    break
        ins = parse_inst(s, mod, loc)
        if ins is None:
            continue
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.insts.append(ins)
    f.blocks.append(cur)
    # unnamed entry blocks are referenced by number rarely (preds in phi); fix below
    f.bymap = {b.name: b for b in f.blocks}
    cnt = 0
    for bi, b in enumerate(f.blocks):
        b.idx = bi
        for ins in b.phis + b.insts:
            ins.id = (name, cnt); cnt += 1
            ins.bb = b; ins.fn = f
        t = b.insts[-1]
        if t.op == 'br':
            b.succs = list(dict.fromkeys(t.extra))
        elif t.op == 'switch':
            b.succs = list(dict.fromkeys([t.extra[0]] + [x[1] for x in t.extra[1]]))
        else:
            b.succs = []
    for b in f.blocks:
        for s in b.succs:
            f.bymap[s].preds.append(b.name)
    return f


def parse_inst(s, mod, loc):
    dm = re.search(r'!dbg !(\d+)', s)
    l = loc.get(dm.group(1)) if dm else None
    if 'call void @llvm.' in s and ('@llvm.dbg.' in s or '@llvm.lifetime.' in s or '@llvm.assume' in s):
        return None
    # strip trailing metadata
    s2 = re.sub(r'(, ![\w.]+ ![\d]+)+$', '', s)
    s2 = re.sub(r', align \d+', '', s2)
    toks = TOK.findall(s2)
    p = P(toks, mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next())[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        t = p.type()
        return Inst('alloca', res, t, [], None, l)
    if op == 'load':
        p.accept('volatile')
        t = p.type(); p.expect(',')
        _, v = p.tv()
        return Inst('load', res, t, [v], None, l)
    if op == 'store':
        p.accept('volatile')
        t, v = p.tv(); p.expect(',')
        _, a = p.tv()
        return Inst('store', None, t, [v, a], None, l)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type(); p.expect(',')
        _, base = p.tv()
        idx = []
        while p.accept(','):
            _, v = p.tv()
            idx.append(v)
        return Inst('gep', res, bt, [base] + idx, None, l)
    if op in BINOPS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t); p.expect(','); b = p.value(t)
        return Inst('bin', res, t, [a, b], op, l)
    if op == 'fneg':
        t, v = p.tv()
        return Inst('bin', res, t, [('c', 0), v], 'fsub', l)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t); p.expect(','); b = p.value(t)
        return Inst('icmp', res, t, [a, b], pred, l)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t, v = p.tv(); p.expect('to'); t2 = p.type()
        return Inst('cast', res, t2, [v], (op, t), l)
    if op == 'freeze':
        t, v = p.tv()
        return Inst('cast', res, t, [v], ('freeze', t), l)
    if op == 'select':
        t, c = p.tv(); p.expect(',')
        t, a = p.tv(); p.expect(',')
        t, b = p.tv()
        return Inst('select', res, t, [c, a, b], None, l)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t); p.expect(','); b = unq(p.next())[1:]
            p.expect(']')
            inc.append((b, v))
            if not p.accept(','):
                break
        return Inst('phi', res, t, [v for _, v in inc], inc, l)
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, [], [unq(p.next())[1:]], l)
        t, c = p.tv(); p.expect(','); p.expect('label'); a = unq(p.next())[1:]
        p.expect(','); p.expect('label'); b = unq(p.next())[1:]
        return Inst('br', None, None, [c], [a, b], l)
    if op == 'switch':
        t, v = p.tv(); p.expect(','); p.expect('label'); d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv = p.tv(); p.expect(','); p.expect('label')
            cases.append((cv[1], unq(p.next())[1:]))
        return Inst('switch', None, None, [v], (d, cases), l)
    if op == 'ret':
        if p.accept('void'):
            return Inst('ret', None, None, [], None, l)
        t, v = p.tv()
        return Inst('ret', None, t, [v], None, l)
    if op == 'unreachable':
        return Inst('unreachable', None, None, [], None, l)
    if op == 'call':
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        t = p.type()
        callee = p.value('ptr')
        p.expect('(')
        args = []
        argt = []
        while not p.accept(')'):
            at = p.type(); p.attrs()
            if at == 'metadata':
                # skip the metadata operand
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y == '(': d += 1
                    if y == ')': d -= 1
                args.append(('undef',))
            else:
                args.append(p.value(at))
            argt.append(at)
            p.accept(',')
        rt = t[1] if isinstance(t, tuple) and t[0] == 'fn' else t
        return Inst('call', res, rt, args, (callee, argt), l)
    if op == 'extractvalue':
        t, v = p.tv()
        return Inst('other', res, None, [v], op, l)
    if op == 'insertvalue':
        t, v = p.tv()
        return Inst('other', res, None, [v], op, l)
    if op == 'va_arg':
        t, v = p.tv()
        return Inst('other', res, None, [v], op, l)
    raise SyntaxError('inst? ' + s)
