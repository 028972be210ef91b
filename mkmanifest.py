#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'technique': 'symbolic execution of the compiled crate (wasm), branches and assertions decided by z3',
        'level': 'model_checking',
        'level_note': props.NOTE.get(i, 'For every value of the symbolic inputs, within the bounds listed per run in the evidence file; trusts rustc, '
                      'the host model in /verif/stubs, the engine (cross-checked against node on sample paths and by its self-test) and z3.'),
    } for i in ids if i in props.RUNS],
    'not_applicable': [{'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'check not built yet')} for i in ids if i not in props.RUNS],
    'notes': 'No hooks in /repo: the crate is compiled unmodified against stand-ins for wasm-bindgen and js-sys. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
