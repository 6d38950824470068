"""writes MANIFEST.json from vc/meta.py: python3 tools/mkmanifest.py"""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R)
from vc.meta import META, NA, TECH
checks = []
for pid in sorted(META):
    m = META[pid]
    checks.append(dict(property=pid, quick_cmd='bash run.sh %s' % pid, thorough_cmd='bash run.sh %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid, technique=m.get('tech', TECH), level=m['level'],
        level_note=m['note'] + ((' Bounded part: ' + m['bounded'] + '.') if m.get('bounded') else '') +
        ' Assumes: float arithmetic read as real arithmetic; trusts z3/cvc5 and the symbolic executor' + (''.join('; ' + t for t in m.get('trust', []) + m.get('assume', []))) + '.'))
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
na = [dict(property=i, reason=NA.get(i, 'not claimed yet')) for i in ids if i not in META]
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3, numpy, sympy"',
    checks=checks, not_applicable=na,
    notes='No hooks in /repo. run.sh ID runs the contracts of property ID against /repo: symbolic execution and SMT for the obligations, plus the runtime-contract harness.'),
    open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
