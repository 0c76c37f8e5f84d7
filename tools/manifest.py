#!/usr/bin/env python3
# regenerate MANIFEST.json from checks/meta.py and properties.jsonl
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks'); import meta
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in meta.CHECKS: continue
    m = meta.CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='bounded symbolic execution of the LLVM IR of /repo, decided by Z3',
        level='model_checking',
        level_note=('Solver verdict for every value within the bounds: ' + m['bounds'] + '. ' + ('Assumes: ' + '; '.join(m['assumptions']) + '. ' if m.get('assumptions') else '') + 'Trusts clang, the engine, Z3, the C-library model rt/rt.c and the harness oracle; counterexamples are replayed on a native build.')))
na = [dict(property=i, reason=meta.NOT_APPLICABLE.get(i, 'no check has been built yet')) for i in ids if i not in meta.CHECKS]
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
    notes='No hooks: the checks compile /repo unmodified. DESIGN.md describes the method; known_findings.json lists recorded and repaired defects.'), open(V + '/MANIFEST.json', 'w'), indent=1)
