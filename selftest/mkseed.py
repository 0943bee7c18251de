#!/usr/bin/env python3
"""mkseed.py ID FILE < spec   (spec: old text, a line '====', new text) -> seeded/ID/patch.diff

Development helper: turns one text replacement in /repo into a planted-bug patch."""
import subprocess, sys, os
sid, f = sys.argv[1:3]
spec = sys.stdin.read()
p = '/repo/' + f
src = open(p).read()
new = src
for part in spec.split('\n@@@@\n'):
    old, rep = part.split('\n====\n') if '\n====\n' in part else (part.split('\n====')[0], '')
    rep = rep.rstrip('\n')
    old = old.rstrip('\n') if not rep else old
    if new.count(old) != 1:
        sys.exit('%d matches of %r' % (new.count(old), old))
    new = new.replace(old, rep)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
prev = ''
open(p, 'w').write(new)
try:
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
finally:
    open(p, 'w').write(src)
open(d + '/patch.diff', 'w').write(diff)
print(diff)
