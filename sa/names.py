"""Names are anchors only: a function, global, struct member or constant that merely got another name is found
again by what it is (what it refers to, who refers to it, its type and place) and called by its old name.
reference.json holds that description of the reference tree; it contains no code and decides nothing."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'reference.json')
NAME = r'@("[^"]*"|[-\w.$]+)'
_ref = None


def reference():
    global _ref
    if _ref is None:
        with open(FILE) as fh:
            _ref = json.load(fh)
    return _ref


def describe(files):
    """functions and global variables of the compiled units"""
    funcs, glob = {}, {}
    for fn in files:
        with open(fn, encoding='latin-1') as fh:
            text = fh.read()
        strs = dict(re.findall(r'^@([\w.]+) = private unnamed_addr constant \[\d+ x i8\] c"((?:[^"])*)"', text, re.M))
        for m in re.finditer(r'^@([\w$][\w.$]*) = (?!external)(?:\w+ )*?(?:global|constant) (.+?)(?: zeroinitializer| \{| \[| c"|, | null| \d|$)', text, re.M):
            if m.group(1).startswith('.str') or m.group(1).startswith('__const'):
                continue
            g = glob.setdefault(m.group(1), {'type': m.group(2), 'users': set()})
        for m in re.finditer(r'^define [^@\n]*' + NAME + r'\(([^\n]*)\n(.*?)^\}', text, re.M | re.S):
            name, body = m.group(1).strip('"'), m.group(3)
            head = m.group(2).split(') ')[0]
            d = funcs.setdefault(name, {'args': head.count('%'), 'refs': set(), 'callers': set(), 'size': body.count('\n')})
            for r in re.findall(NAME, body):
                r = r.strip('"')
                if r.startswith('llvm.'):
                    continue
                d['refs'].add('"' + strs[r] if r in strs else r)
            d['refs'] |= set(re.findall(r'%struct\.[\w.]+', body))
    for n, d in funcs.items():
        for r in d['refs']:
            if r in funcs and r != n:
                funcs[r]['callers'].add(n)
            if r in glob:
                glob[r]['users'].add(n)
    return funcs, glob


def alike(a, b):
    a, b = set(a), set(b)
    return 1.0 if not a and not b else len(a & b) / len(a | b)


def renamed(files):
    """-> {new name: reference name}"""
    ref = reference()
    funcs, glob = describe(files)
    out = {}
    for _ in range(2):                    # a second round knows the names found in the first
        back = lambda xs: {out.get(x, x) for x in xs}
        taken = set(out.values())
        for kind, cur, old in (('f', funcs, ref['functions']), ('g', glob, ref['globals'])):
            lost = [n for n in old if n not in cur and n not in taken]
            new = [n for n in cur if n not in old and n not in out]
            pairs = []
            for n in new:
                for o in lost:
                    a, b = cur[n], old[o]
                    if kind == 'f':
                        if a['args'] != b['args']:
                            continue
                        s = alike(back(a['refs']), b['refs'])
                        c = alike(back(a['callers']), b['callers'])
                        size = min(a['size'], b['size']) / max(a['size'], b['size'], 1)
                        if s >= 0.5 and c >= 0.5 and size >= 0.4 or s >= 0.8 and len(b['refs']) >= 6:
                            pairs.append((s + c + size, n, o))
                    elif a['type'] == b['type'] and alike(back(a['users']), b['users']) >= 0.6:
                        pairs.append((alike(back(a['users']), b['users']), n, o))
            for sc, n, o in sorted(pairs, reverse=True):
                if n not in out and o not in out.values():
                    out[n] = o
    return out


def rename(files, names):
    if not names:
        return
    pat = re.compile('@(' + '|'.join(re.escape(x) for x in sorted(names, key=len, reverse=True)) + r')(?![-\w.$])')
    for fn in files:
        with open(fn, encoding='latin-1') as fh:
            t = fh.read()
        n = pat.sub(lambda m: '@' + names[m.group(1)], t)
        if n != t:
            with open(fn, 'w', encoding='latin-1') as fh:
                fh.write(n)


def members(fields):
    """struct members: a member with a new name in the place of a lost one keeps the old name"""
    ref = reference()['structs']
    for s, lst in list(fields.items()):
        alts = ref.get(s, ())
        if any(set(lst) == set(a) for a in alts):
            continue
        alts = [a for a in alts if len(a) == len(lst) and len(set(a) & set(lst)) * 2 >= len(lst)]
        if alts:
            old = max(alts, key=lambda a: len(set(a) & set(lst)))
            fields[s] = [o if n not in old and o not in lst else n for n, o in zip(lst, old)]
    return fields
