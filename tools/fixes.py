#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.txt from the fix commits of /repo (development helper)."""
import subprocess
PROPS = ('P01 P03 P03 P03 P03 P01 P03 P01 P02 P02 P03 P03 P03 P03 P05 P05 P05 P05 P05 P05 P05 P05 P04 '
         'P06 P06 P06 P06 P07 P07 P07 P13 P06 P07 P09 P09 P10 P10 P10 P10 P10 P10 P13 P13 P11 P13 ').split()
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f4acabf..HEAD'], text=True).split('\n') if l]
log = [l for l in log if l[1].startswith('fix:')]
import os
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.txt'
keep = [l for l in open(f).read().split('\n') if l and not l.startswith('fixed:')]
more = dict(l.split(' ', 1) for l in open(os.path.dirname(os.path.abspath(__file__)) + '/fixes.txt').read().split('\n') if l)
for i, (h, m) in enumerate(log):
    pr = PROPS[i] if i < len(PROPS) else more.get(h)
    if not pr: print('no property for', h, m); continue
    keep.append('fixed: property=%s %s %s' % (pr, h, m[5:]))
open(f, 'w').write('\n'.join(keep) + '\n')
print(len(log), 'fixes')
