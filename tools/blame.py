#!/usr/bin/env python3
"""lists planted bugs that change lines which commits of this work added to /repo (they do not count)"""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a9041e6'
for s in sorted(os.listdir(V + '/seeded')):
    f = None
    bad = n = 0
    for l in open(V + '/seeded/%s/patch.diff' % s, newline='').read().split('\n'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=7', BASE + '..HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('@@'):
            i = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and f:
            n += 1
            bad += not b[i - 1].startswith('^')
            i += 1
        elif l.startswith(' '):
            i += 1
    if bad or not n:
        print(s, 'changed lines', n, 'of which not original', bad)
