"""Check driver: runs the rules of one property, compares with the known-findings
file, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import json, os, sys, time, traceback
from . import build, prog, engine, names
from .engine import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Ctx:
    """program under analysis + everything a rule reports"""

    def __init__(s, tier):
        s.tier = tier
        s._mods = {}
        s._progs = {}
        s.findings = {}
        s.obligations = {}
        s.functions = set()
        s.states = 0
        s.widened = set()
        s.notes = []
        s.rules = []

    def module(s, name='crashmail'):
        if name not in s._mods:
            s._mods.update(build.load([name]))
        return s._mods[name]

    def prog(s, name='crashmail'):
        if name not in s._progs:
            s._progs[name] = prog.Program(s.module(name))
        return s._progs[name]

    def const(s, name):
        if not hasattr(s, '_consts'):
            s._consts = build.constants()
        if name not in s._consts:
            old = names.reference()['constants']      # no longer a macro (an enumerator, say)
            if name not in old:
                raise AnalysisBroken(f'constant {name} no longer defined')
            return old[name]
        return s._consts[name]

    def need(s, p, *names):
        for n in names:
            if n not in p.m.funcs:
                raise AnalysisBroken(f'anchor function {n} no longer exists')

    def run(s, p, rule, fname, ts, **kw):
        e = engine.Engine(p, rule)
        rule.ctx = s
        ex = e.run(fname, ts, **kw)
        for k, r in e.reports.items():
            s.findings.setdefault(k, r)
        s.functions |= e.stats['functions']
        s.states += e.stats['states']
        s.widened |= e.stats['widened']
        return ex

    def oblige(s, key, where=''):
        """record one checked obligation (distinct keys counted)"""
        s.obligations[key] = where

    def finding(s, key, msg, at='', stack=(), path=()):
        s.findings.setdefault(key, {'key': key, 'msg': msg, 'at': at, 'stack': list(stack), 'path': list(path)})

    def floor(s, prefix, n):
        k = sum(1 for o in s.obligations if o.startswith(prefix))
        if k < n:
            raise AnalysisBroken(f'only {k} obligations "{prefix}*" found, expected at least {n}: the anchors of this rule moved')


def known_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l or l.startswith('fixed:') or l.startswith('#'):
                continue
            d = json.loads(l)
            if d['property'] == pid:
                out[d['key']] = d
    return out


def main(pid, tier):
    from .rules import RULES
    if pid not in RULES:
        print('unknown property', pid)
        return 2
    t0 = time.time()
    title, rules = RULES[pid]
    ctx = Ctx(tier)
    try:
        for r in rules:
            ctx.rules.append((r.__doc__ or r.__name__).strip().split('\n')[0])
            r(ctx)
        if not ctx.obligations:
            raise AnalysisBroken('no obligation was found for this property')
    except (AnalysisBroken, build.BuildError) as e:
        print(f'ERROR property={pid}: analysis cannot answer: {e}')
        if not set(ctx.findings) - set(known_findings(pid)):
            return 3
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={pid}: internal error')
        return 3
    known = known_findings(pid)
    bad = []
    for k, f in sorted(ctx.findings.items()):
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {known[k]["what"]}')
        else:
            bad.append(f)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f'{pid}.findings.json')
    if bad:
        with open(replay, 'w') as fh:
            json.dump(bad, fh, indent=1, default=str)
        for f in bad:
            print(f'  {f["at"]}: {f["msg"]}  [{f["key"]}]')
            if f['stack']:
                print('     in ' + ' > '.join(f['stack']))
            if f['path']:
                print('     path: ' + ' '.join(f'{a}={"T" if b is True else "F" if b is False else b}' for a, b in f['path'][-14:]))
        print(f'VIOLATION property={pid} replay={replay}')
    elif os.path.exists(replay):
        os.remove(replay)
    ob = sorted(ctx.obligations)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {
              'explanation': f'{title}. Rules applied: ' + ' | '.join(ctx.rules),
              'obligations': len(ob),
              'discharged': len(ob) - len({f['key'].split('@')[0] for f in ctx.findings.values()} & set(ob)),
              'functions_analysed': sorted(ctx.functions),
              'abstract_states': ctx.states,
              'widened_blocks': len(ctx.widened),
              'inlined_helpers': sorted({x for m in ctx._mods.values() for x in m.inlined}),
              'programs_analysed': sorted(ctx._mods),
              'samples': [{'obligation': o, 'at': ctx.obligations[o]} for o in ob[:40]],
              'known_findings': [k for k in ctx.findings if k in known],
              'notes': ctx.notes},
          'assumptions': ['LLVM IR produced by clang 18 from the working tree has the semantics of the source',
                          'field-based aliasing: pointers to different struct types do not overlap',
                          'indirect calls go only to functions stored in the matching table slot'],
          'wall_s': round(time.time()-t0, 2), 'violations': len(bad)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f'{pid} {tier}: {len(ob)} obligations, {len(ctx.functions)} functions, {ctx.states} abstract states, '
          f'{len(bad)} violations, {time.time()-t0:.1f}s')
    return 1 if bad else 0
