#!/usr/bin/env python3
"""Developer tool: known_findings.json = tools/findings_known.json + one "fixed" entry per fix: commit in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = json.load(open(V + '/tools/fixes.json'))
known = json.load(open(V + '/tools/findings_known.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = list(known)
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        k = s[5:].strip()
        assert k in FIX, k
        pid, what = FIX[k]
        out.append(dict(property=pid, status='fixed', commit=h, what='fixed: property=%s %s %s' % (pid, h, what)))
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1)
print(len(out), 'entries')
