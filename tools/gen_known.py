#!/usr/bin/env python3
"""known_findings.txt from tools/fixes.txt (commit -> properties) and the log of /repo."""
import subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines())
out = ['# Findings on the pinned tree. "fixed" entries record repairs made in /repo and suppress nothing;',
       '# a line starting "KNOWN-FINDING: property=<id> " would list a defect left unrepaired (there is none).']
for l in open(R + '/tools/fixes.txt'):
    c, ids = l.split()
    s = log[c]; assert s.startswith('fix: ')
    out.append(f'fixed: property={ids.split(",")[0]} {c} {s[5:]}' + (f' (also {", ".join(ids.split(",")[1:])})' if ',' in ids else ''))
missing = [c for c, s in log.items() if s.startswith('fix:') and not any(o.split()[2] == c for o in out if o.startswith('fixed'))]
assert not missing, missing
open(R + '/known_findings.txt', 'w').write('\n'.join(out) + '\n'); print(len(out) - 2)
