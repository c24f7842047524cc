#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS  (old/new: python-escaped); writes seeded/ID/{patch.diff,meta.json}.
Development helper; no check reads it."""
import json, os, subprocess, sys
sid, prop, f, old, new, needs, breaks = sys.argv[1:8]
R = '/repo'
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True).stdout, 'dirty'
p = os.path.join(R, f)
s = open(p).read()
assert s.count(old) == 1, 'old text occurs %d times' % s.count(old)
try:
    open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', R, 'checkout', '--', '.'], check=True)
o = '/verif/seeded/' + sid
os.makedirs(o, exist_ok=True)
open(o + '/patch.diff', 'w').write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
