#!/usr/bin/env python3
"""MANIFEST.json from jobs.py (claimed) and the not-applicable list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from jobs import PROPS, NA
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'hooks': {'guard': 'pcrs_verif', 'enable': 'RUSTFLAGS="--cfg pcrs_verif" (set by build.sh for the harness builds only)', 'source_commits': ['fb04498']},
     'checks': [{'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                 'technique': d.get('technique', 'symbolic execution of the compiled LLVM IR with SMT (z3, bit-vectors); counterexamples replayed natively'),
                 'level': 'model_checking', 'level_note': 'Bounded: ' + d['bounds']} for p, d in sorted(PROPS.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
