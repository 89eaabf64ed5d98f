#!/usr/bin/env python3
"""catch.py [ID...]: applies each planted change in a scratch copy of /repo and
runs the check of its property against that copy"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    with tempfile.TemporaryDirectory(prefix='catch_') as tmp:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + tmp, shell=True)
        subprocess.check_call(['git', 'init', '-q', tmp])
        r = subprocess.run(['git', '-C', tmp, 'apply', d + '/patch.diff'])
        if r.returncode:
            print(i, 'DOES NOT APPLY', flush=True)
            continue
        env = dict(os.environ, AHKAB_SRC=tmp, VERIF_SEED='1')
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, prop, 'exit', r.returncode, 'violations', len(v), 'no-input' if v and all(
            l.endswith('no-failing-input-found') for l in v) else '', [l for l in r.stdout.splitlines() if 'undecided' in l][:2], flush=True)
