#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' FLAGS SRCS < demo.cc ; the working diff of /tmp/seedrepo becomes patch.diff"""
import sys, os, subprocess, json
i, prop, needs, what, flags, srcs = sys.argv[1:7]
V = '/verif/seeded/' + i
os.makedirs(V, exist_ok=True)
d = subprocess.check_output(['git', '-C', '/tmp/seedrepo', 'diff'], text=True)
assert d.strip(), 'no change'
open(V + '/patch.diff', 'w').write(d)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(V + '/meta.json', 'w'), indent=1)
t = open('/verif/tools/demo_template.sh').read().replace('FLAGS', flags).replace('SRCS', srcs)
open(V + '/demo.sh', 'w').write(t)
os.chmod(V + '/demo.sh', 0o755)
src = sys.stdin.read()
if src.strip():
    open(V + '/demo.cc', 'w').write(src)
