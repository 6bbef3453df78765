#!/usr/bin/env python3
"""addfixed.py PROP FROM..: append a `fixed:` line to known_findings.txt for every fix: commit of /repo after FROM"""
import subprocess, sys
prop, frm = sys.argv[1:3]
p = __file__.rsplit('/', 2)[0] + '/known_findings.txt'
have = open(p).read()
with open(p, 'a') as f:
    for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', frm + '..'], text=True).splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix: ') and h not in have:
            f.write('fixed: property=%s %s %s\n' % (prop, h, s[5:]))
