#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, config
props = [json.loads(l) for l in open('properties.jsonl')]
NA = config.NOT_APPLICABLE
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    eng = [e for e, c in (('kani', config.KANI), ('sym', config.SYM)) if i in c]
    if not eng:
        NA[i] = 'no check has been built for it yet'
        continue
    t = {'kani': 'Kani/CBMC bounded symbolic execution of the compiled code (SAT), counterexamples replayed natively',
         'sym': 'symbolic execution of the real generic code over a term-valued coefficient type, obligations decided by z3 (reals), counterexamples replayed over exact rationals'}
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': ' + '.join(t[e] for e in eng),
        'level': 'other',
        'level_note': config.LEVEL_NOTE.get(i) or ('Bounded: holds for every value within the bounds listed in DESIGN.md and in the evidence file; says nothing outside them. '
                      + ' '.join(config.assumptions(i))),
    })
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': '--cfg verif_hooks="lie" | "hall_key" | "key_iter" | "borrowed" | "hall_set"',
               'enable': 'RUSTFLAGS=\'--cfg verif_hooks="..."\' (each check enables only the values it needs, see config.py)',
               'source_commits': config.HOOK_COMMITS},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'Every check rebuilds /repo in a scratch directory under /verif/target and removes it. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
