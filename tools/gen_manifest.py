#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABSINT = 'abstract interpretation of the package source, trace-partitioned'
TECH = {}
NOTE = {}
TRUST = ('Trusts the analyser\'s models of Python, its library and NumPy '
         '(dsa/library.py); partitions it cannot decide are counted in the '
         'evidence and never alarm.')
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'dsa', 'checks', pid.lower() + '.py')):
        t, note = CLAIMS[pid]
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python check.py %s quick' % pid,
            thorough_cmd='/opt/venv/bin/python check.py %s thorough' % pid,
            technique=t, level='other', level_note=note + ' ' + TRUST))
    else:
        na.append(dict(property=pid, reason=NA.get(
            pid, 'no check has been built for it yet')))
out = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import ast"',
           checks=checks, not_applicable=na,
           notes='See DESIGN.md. All checks analyse /repo/datashape/*.py from '
                 'source on every run and never import the package.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
