#!/usr/bin/env python3
"""mut.py FILE OLD NEW CMD...: run CMD with VERIF_REPO set to a scratch copy of /repo in which OLD is replaced"""
import os, sys, subprocess, shutil
M = '/tmp/mutrepo'
subprocess.call(['rsync', '-a', '--delete', '/repo/', M + '/']) if shutil.which('rsync') else (shutil.rmtree(M, True), subprocess.call(['cp', '-a', '/repo', M]))
p = os.path.join(M, sys.argv[1])
s = open(p).read()
old, new = (x.encode().decode('unicode_escape') for x in sys.argv[2:4])
if s.count(old) < 1:
    sys.exit('text not found')
open(p, 'w').write(s.replace(old, new, 1))
r = subprocess.run(sys.argv[4:], env=dict(os.environ, VERIF_REPO=M))
sys.exit(r.returncode)
