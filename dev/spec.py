#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing (python3 dev/spec.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, T, P, S = 'src/crashmail/handle.c', 'src/crashmail/toss.c', 'src/crashmail/pkt.c', 'src/crashmail/scan.c'
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, technique='path-sensitive typestate dataflow on the LLVM IR of the working tree'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((id, reason))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, technique=None))


exec(open(os.path.join(ROOT, 'dev', 'properties.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in sorted(PROPS, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick',
               'thorough_cmd': f'python3 check.py {p["id"]} thorough', 'technique': p['technique'], 'level': 'other',
               'level_note': p['note']} for p in sorted(PROPS, key=lambda p: p['id']) if p['technique']]
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py >/dev/null 2>&1; test -x /usr/lib/llvm-18/bin/clang && test -x /usr/lib/llvm-18/bin/opt',
           'checks': checks, 'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
           'notes': 'All checks are static: clang compiles the working tree to LLVM IR (nothing is executed), sa/ analyses the IR. '
                    'See DESIGN.md. known_findings.jsonl lists repaired and open defects.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks')


main()
