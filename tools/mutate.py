#!/usr/bin/env python3
"""mutate.py PROP[,PROP] file.py 'old' 'new' [count]: run checks on a scratch copy with one replacement"""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/ahkab', d + '/ahkab')
    p = d + '/ahkab/' + f
    s = open(p).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    n = s.count(old)
    which = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    assert n > which, 'not found'
    parts = s.split(old)
    s = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
    open(p, 'w').write(s)
    for pr in props.split(','):
        r = subprocess.run(['python3', '/verif/check.py', pr], env=dict(os.environ, AHKAB_SRC=d), capture_output=True, text=True, cwd='/verif')
        print('[%d match] rc=%d' % (n, r.returncode))
        print('\n'.join(l[:400] for l in (r.stdout + r.stderr).splitlines()[-12:]))
finally:
    shutil.rmtree(d)
