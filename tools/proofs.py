"""Run the deductive proofs (all, or those of the modules named) and summarise:
python3 tools/proofs.py [c01 c22 ...] [-t]"""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def listing(mod):
    out = subprocess.run(['python3-vt', '-m', 'pyvc.run', mod], cwd=HERE, capture_output=True, text=True).stdout
    return json.loads(out.split('@@', 1)[1])


def one(job):
    mod, p = job
    t = time.time()
    try:
        r = subprocess.run(['python3-vt', '-m', 'pyvc.run', mod, p['name']], cwd=HERE, capture_output=True, text=True,
                           timeout=p['timeout'] * 2 + 60)
        d = json.loads(r.stdout.split('@@', 1)[1])
    except Exception as e:
        return mod, p['name'], time.time() - t, {'error': repr(e)}
    return mod, p['name'], time.time() - t, d


mods = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(
    f[:-3] for f in os.listdir(HERE + '/contracts') if f[0] == 'c' and f[1:3].isdigit())
jobs = [(m, p) for m in mods for p in listing(m) if '-t' in sys.argv or not p['thorough']]
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for mod, name, t, d in ex.map(one, jobs):
        obls = d.get('obligations', [])
        n = len(obls)
        nb = [o for o in obls if o.get('status') != 'proved']
        vac = [k for k, v in (d.get('covers') or {}).items() if not v]
        ok = n and not nb and not (d.get('error') or d.get('msg')) and not vac
        if not ok:
            bad += 1
        if not ok or '-v' in sys.argv:
            print('%s %s.%s %d obligations, %.1f s %s %s %s' % ('ok ' if ok else 'BAD', mod, name, n, t, [
                (o.get('name'), o.get('status')) for o in nb][:4], str((d.get('error') or d.get('msg')) or '')[-300:], vac))
print(len(jobs), 'proofs,', bad, 'bad')
