#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry

P = []		# (id, title, statement, over, quantifier text, why, files, mechanisms)
NA = {}		# id -> reason


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA[id] = na


exec(open(os.path.join(V, 'tools', 'props.py')).read())

LEVEL_NOTE = 'static: decided from the IR or syntax of the current sources; nothing is executed; bounds and assumptions are in the evidence file'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        if p['id'] in NA:
            continue
        if p['id'] not in registry.CHECKS:
            sys.exit('no check for ' + p['id'])
        checks.append(dict(property=p['id'], quick_cmd='python3 checks/check.py %s quick' % p['id'], thorough_cmd='python3 checks/check.py %s thorough' % p['id'],
                           technique=registry.CHECKS[p['id']][2], level='other', level_note=LEVEL_NOTE))
    m = dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
             notes='No hooks: /repo is analysed as it stands. See DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for e, s in (('PROPERTIES', None), ('MANIFEST', m)):
        import importlib.util
        if importlib.util.find_spec('jsonschema'):
            import jsonschema
            sch = json.load(open('/root/.vp/%s.schema.json' % e))
            for x in ([s] if s else P):
                jsonschema.validate(x, sch)
    print(len(P), 'properties', len(checks), 'checks')


main()
