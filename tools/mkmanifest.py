"""Regenerates MANIFEST.json from props/ and tools/claims.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from claims import NOTES, NA
import re
LEVEL = {}
for f in os.listdir(R + '/props'):
    m = re.search(r"^P\.level\s*=\s*'(\w+)'", open(R + '/props/' + f).read(), re.M) if f.endswith('.py') else None
    if m: LEVEL[f[:-3]] = m.group(1)
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
TECH = 'contract-based deductive verification: contracts on the real C++ functions (clang AST extraction, symbolic VC generation, sum/extremum-algebra normaliser + z3), with the contracts executed against the compiled code to replay counterexamples'
BASE = ('Every obligation of every contract is regenerated from the current /repo sources and discharged for all sizes and values; assumed: real arithmetic instead of floating point, '
        'contracts of Eigen / std library calls in engine/lib.py, the VC generator itself. ')
checks = []
for i in ids:
    if os.path.exists(R + '/props/%s.py' % i) and i not in NA:
        cmd = 'python3-vt engine/check.py ' + i
        n = NOTES.get(i, '')
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': LEVEL.get(i, 'proof'), 'level_note': (BASE if i not in LEVEL else '') + n})
na = [{'property': i, 'reason': NA.get(i, 'no contract written yet; not claimed')} for i in ids if i not in {c['property'] for c in checks}]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy, mpmath"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo carries only fix: commits. Properties, contracts and defects are described in DESIGN.md; known findings are in known_findings.json.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
