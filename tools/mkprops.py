#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
for p in props.PROPS:
    for w in p['files'] + [w for _, w in p['mech']]:
        assert os.path.exists('/repo/' + w), 'no such file ' + w
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }) + '\n')
checks = []
na = []
for p in props.PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s -tier quick' % p['id'],
        'thorough_cmd': './check.sh %s -tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of the Go SSA of the real code, SMT (z3, cvc5)' + p.get('tech', ''),
        'level': 'model_checking',
        'level_note': p['note'],
    })
json.dump({
    'version': 1,
    'setup_cmd': './build.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'One engine (engine/) interprets the SSA of harness/cNN and of the packages of /repo it calls; see DESIGN.md.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
subprocess.check_call([sys.executable, os.path.join(here, "mkdesign.py")])
