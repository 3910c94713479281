#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (both are committed; this script is not run by the checks)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from proptable import TABLE
def main():
    tech = 'deterministic simulation with fault injection (seeded search, minimised replay)'
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in TABLE:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': tech, 'level': 'exploration', 'level_note': p['note']} for p in TABLE if not p.get('na')]
    m = {'version': 1, 'setup_cmd': 'python3 -m py_compile run.py props.py', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in TABLE if p.get('na')],
         'notes': 'No hooks in /repo: the library is header-only and its linear solver, problem callbacks, preconditioner, QP solver and polynomial are template parameters, which are the seams. Every check compiles the headers of /repo/src from the working tree (content-hashed build directory under /verif/build). /repo commits are fix: commits only.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
main()
