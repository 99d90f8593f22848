"""Rewrites the 'fixed:' lines of known-findings.txt from the fix commits of /repo (property ids below)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject (after 'fix: ') -> property
PROP = {}
for line in open(os.path.join(HERE, 'tools', 'fixed_props.txt')):
    line = line.rstrip('\n')
    if line:
        pid, subj = line.split(' ', 1)
        PROP[subj] = pid
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        if s not in PROP:
            print('unassigned:', s)
            continue
        fixed.append('fixed: property=%s %s %s' % (PROP[s], h, s))
p = os.path.join(HERE, 'known-findings.txt')
keep = [x.rstrip('\n') for x in open(p) if not x.startswith('fixed:')]
open(p, 'w').write('\n'.join(keep + fixed) + '\n')
print(len(fixed), 'fixed entries')
