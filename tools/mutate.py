#!/usr/bin/env python3
"""mutate.py FILE OLD NEW PID...: runs checks against a scratch copy of /repo with one replacement."""
import os, shutil, subprocess, sys, tempfile
f, old, new, pids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    shutil.copytree('/repo/hwy', d + '/repo/hwy')
    p = os.path.join(d, 'repo', f); s = open(p).read()
    n = s.count(old)
    if n < 1: sys.exit('OLD not found')
    if n > 1: print('note: %d occurrences, first one replaced' % n)
    open(p, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/b', VERIF_EVID=d + '/e')
    for pid in pids:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), '..', 'run.py'), 'check', pid], env=env, capture_output=True, text=True)
        print(pid, 'rc=%d' % r.returncode, (r.stdout + r.stderr)[-900:])
finally: shutil.rmtree(d)
