#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness/<id>.cpp is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
def bounds(pid):
    return ' '.join(l.strip()[len('//@bounds '):] for l in open(V + '/harness/%s.cpp' % pid) if l.startswith('//@bounds '))
m = {'version': 1, 'setup_cmd': 'make -s -C engine -j2', 'checks': [], 'not_applicable': [],
     'notes': 'Each check compiles /repo to LLVM bitcode, executes it symbolically (engine/symex.cpp, Z3) and replays counterexamples natively. See DESIGN.md.'}
for p in props:
    pid = p['id']
    if os.path.exists(V + '/harness/%s.cpp' % pid):
        m['checks'].append({'property': pid, 'quick_cmd': './check.py %s --tier quick' % pid, 'thorough_cmd': './check.py %s --tier thorough' % pid,
            'technique': 'solver-based checking: symbolic execution of the LLVM bitcode of the real code with Z3, against an independent oracle',
            'level': 'model_checking', 'level_note': 'bounded: ' + bounds(pid)})
    else:
        m['not_applicable'].append({'property': pid, 'reason': 'check not built yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
