"""Write properties.jsonl and MANIFEST.json from tools/props.py and sa/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, 'sa')]
sys.dont_write_bytecode = True
import props
import registry

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(props.PROPS, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': a}) + '\n')
checks = []
ids = {p['id']: p for p in props.PROPS}
for c in sorted(registry.CHECKS):
    p = ids[c]
    checks.append({'property': c, 'quick_cmd': 'python3 sa/check.py %s quick' % c,
                   'thorough_cmd': 'python3 sa/check.py %s thorough' % c,
                   'technique': p['tech'], 'level': registry.CHECKS[c][2],
                   'level_note': p['note'] + ' ' + props.COMMON})
na = [n for n in props.NA]
claimed = set(registry.CHECKS)
for n in na:
    assert n['property'] in ids and n['property'] not in claimed, n
assert set(ids) == claimed | {n['property'] for n in na}, set(ids) ^ (claimed | {n['property'] for n in na})
m = {'version': 1, 'setup_cmd': 'cd driver && CARGO_NET_OFFLINE=true cargo +nightly build --offline',
     'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: a MIR dumper (driver/) and rules over it (sa/). Nothing of /repo is executed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(ids), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
