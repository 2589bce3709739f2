#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the harness directives: a property with at least one entry is claimed."""
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mode, entries = {}, {}
for f in sorted(glob.glob(root + '/harness/*.cpp')):
    t = open(f).read(); m = 'ir' if re.search(r'^//! mode=ir', t, re.M) else 'seq'
    for ids in re.findall(r'^//@ (\S+) H_', t, re.M):
        for i in ids.split(','): entries[i] = entries.get(i, 0) + 1; mode.setdefault(i, set()).add(m)
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
na = json.load(open(root + '/tools/not_applicable.json')) if os.path.exists(root + '/tools/not_applicable.json') else {}
checks = []
for p in props:
    if p not in entries: continue
    conc = 'ir' in mode[p]
    checks.append({
        'property': p, 'quick_cmd': f'./check.py {p} --tier quick', 'thorough_cmd': f'./check.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'symbolic execution of the LLVM IR of the real code with Z3' + (', all interleavings within bounds,' if conc else ',') + ' counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': f'{entries[p]} entr' + ('y' if entries[p] == 1 else 'ies') + ' in harness/; every path within the bounds listed in DESIGN.md and in the evidence file is decided by the solver; nothing is claimed outside them'})
json.dump({'version': 1, 'setup_cmd': './check.py --setup', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': na.get(p, 'check not built yet')} for p in props if p not in entries]},
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed')
