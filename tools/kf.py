"""Append a fixed: line for a /repo commit: kf.py PROP COMMIT_SUBJECT_SUBSTRING  what."""
import subprocess, sys
prop, sub, what = sys.argv[1:4]
log = subprocess.run(['git', '-C', '/repo', 'log', '--oneline'], capture_output=True, text=True).stdout
m = [l.split()[0] for l in log.splitlines() if sub in l]
assert len(m) == 1, m
open('/verif/KNOWN_FINDINGS.txt', 'a').write(f'fixed: property={prop} {m[0]} {what}\n')
