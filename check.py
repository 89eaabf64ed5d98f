#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: discharges every proof obligation of its contracts from
/repo's current source, and evaluates the same contracts on the running code
(bounded search: replay of failed obligations, and stand-in for what the
verifier cannot reach)."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = 'python3-vt'
RT = '/opt/venv/bin/python'
if not os.path.exists(RT):
    RT = sys.executable
REPO = os.environ.get('AHKAB_SRC', '/repo')


def last_json(txt):
    for line in reversed(txt.splitlines()):
        if line.startswith('@@'):
            return json.loads(line[2:])
    return None


def sh(cmd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b'').decode('utf-8', 'replace'), 'timeout after %ds' % timeout


def proof(mod, p):
    rc, out, err = sh([VT, '-m', 'pyvc.run', mod, p['name']], p['timeout'] + 30, {'PYTHONHASHSEED': '0'})
    r = last_json(out)
    if r is None:
        r = {'name': p['name'], 'status': 'error', 'msg': (err or out)[-800:], 'obligations': [], 'covers': {},
             'solver_s': 0, 'wall_s': 0, 'assumptions': [], 'functions': p['functions'], 'paths': 0, 'queries': 0,
             'executed': []}
    return r


def real(pid, tier, seed, limit):
    f = os.path.join(HERE, 'real', pid.lower() + '.py')
    if not os.path.exists(f):
        return None
    env = {'PYTHONPATH': REPO + os.pathsep + os.path.join(HERE, 'real'), 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
           'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8'}
    rc, out, err = sh([RT, f, '--seed', str(seed), '--tier', tier], limit, env)
    r = last_json(out)
    if r is None:
        r = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failures': [], 'sections': {},
             'skipped': ['the bounded evaluation did not finish: rc=%s %s' % (rc, (err or out)[-1500:])], 'rule': ''}
    return r


def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'known': [], 'fixed': []}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = pid.lower()
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    mc = [c for c in manifest['checks'] if c['property'] == pid]
    level = mc[0]['level'] if mc else 'other'
    proofs = []
    if os.path.exists(os.path.join(HERE, 'contracts', mod + '.py')):
        rc, out, err = sh([VT, '-m', 'pyvc.run', mod], 120, {'PYTHONHASHSEED': '0'})
        proofs = last_json(out)
        if proofs is None:
            print('note: contract list not available: %s' % err[-500:])
            proofs = []
        proofs = [p for p in proofs if tier == 'thorough' or not p['thorough']]
    ex = cf.ThreadPoolExecutor(max_workers=8)
    fr = ex.submit(real, pid, tier, seed, 780 if tier == 'quick' else 3000)
    res = list(ex.map(lambda p: proof(mod, p), sorted(proofs, key=lambda p: -p['timeout'])))
    rr = fr.result()
    failed, undecided = [], []
    nob = ndis = 0
    for r in res:
        n = len(r['obligations'])
        if r['status'] == 'ok' and n == 0:
            r['status'], r['msg'] = 'error', 'no obligations generated'
        for c, v in r['covers'].items():
            if not v:
                undecided.append('%s: %s is not reachable (vacuous)' % (r['name'], c))
        for o in r['obligations']:
            nob += 1
            if o['status'] == 'proved' and r['status'] == 'ok':
                ndis += 1
            elif o['status'] == 'failed' and r['status'] == 'ok':
                failed.append((r['name'], o))
            elif o['status'] != 'proved':
                undecided.append('%s: %s %s' % (r['name'], o['name'], o['status']))
        if r['status'] != 'ok':
            undecided.append('%s: %s: %s' % (r['name'], r['status'], r['msg'].strip().splitlines()[-1][:300] if
                                             r['msg'].strip() else ''))
    kf = known()
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    viol = 0
    keys = set()
    kk = dict((k['key'], k) for k in kf['known'] if k['property'] == pid)
    news = []
    for f in (rr['failures'] if rr else []):
        if f['key'] in kk:
            if f['key'] not in keys:
                keys.add(f['key'])
                print('KNOWN-FINDING: property=%s %s' % (pid, kk[f['key']]['text']))
        else:
            news.append(f)
    failed_known = [(n, o) for n, o in failed if ('obligation:' + o['name']) in kk]
    for n, o in failed_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, kk['obligation:' + o['name']]['text']))
    failed = [(n, o) for n, o in failed if ('obligation:' + o['name']) not in kk]
    obtxt = '\n'.join('failed obligation %s (proof %s): %s' % (o['name'], n, json.dumps(o['fail'])[:3000]) for n, o in
                      failed)
    if news:
        path = os.path.join(rd, '%s.json' % pid)
        json.dump({'property': pid, 'cases': news[:20], 'replay': '%s real/%s.py --seed %d --tier %s --only <section>' % (
            RT, mod, seed, tier), 'failed_obligations': obtxt}, open(path, 'w'), indent=1)
        for n, o in failed[:10]:
            print('failed obligation: %s (%s)' % (o['name'], n))
        shown = set()
        for f in news:
            if f['key'] in shown or len(shown) > 6:
                continue
            shown.add(f['key'])
            print('failing input [%s]: %s' % (f['key'], f['what'][:600].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        viol = len(news)
    elif failed:
        path = os.path.join(rd, '%s.json' % pid)
        json.dump({'property': pid, 'failed_obligations': obtxt,
                   'note': 'obligation refuted by the solver; no failing input found by the bounded search'},
                  open(path, 'w'), indent=1)
        for n, o in failed[:10]:
            print('failed obligation: %s (%s)' % (o['name'], n))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        viol = len(failed)
    for u in undecided:
        print('undecided: ' + u)
    for s in (rr['skipped'] if rr else []):
        print('skipped: ' + s[:400])
    funcs = sorted(set(f for r in res for f in r['functions']))
    back = {}
    for r in res:
        for o in r['obligations']:
            for b in o['backend']:
                back[b] = back.get(b, 0) + 1
    ass = sorted(set(a for r in res for a in r['assumptions']))
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt -m pyvc.run %s <proof>  (z3, cvc5)' % mod,
        'trusted_base': ['pyvc (VC generator in /verif/pyvc)', 'z3', 'cvc5', 'CPython', 'numpy model in pyvc/npmodel.py'],
        'functions_under_contract': funcs,
        'functions_executed_symbolically': sorted(set(f for r in res for f in r['executed']))[:400],
        'proofs': [dict((k, r[k]) for k in ('name', 'status', 'solver_s', 'wall_s', 'paths', 'queries')) for r in res],
        'obligation_names': [o['name'] for r in res for o in r['obligations']],
        'backends': back, 'solver_s': round(sum(r['solver_s'] for r in res), 2),
        'undecided': undecided,
    }
    if rr:
        cov.update({'evaluations': rr['evaluations'], 'distinct_nontrivial': rr['distinct_nontrivial'],
                    'rule': rr['rule'], 'samples': rr['samples'][:5] or ['-'], 'bounded_sections': rr['sections'],
                    'bounded_skipped': rr['skipped']})
    cov['explanation'] = ('obligations/discharged: verification conditions generated from the current source and '
                          'accepted by the solvers. evaluations: the contracts evaluated on the running code for '
                          'generated inputs (bounded; never counted as proved).')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %d bounded evaluations, %.1fs' % (
        pid, ndis, nob, len(funcs), rr['evaluations'] if rr else 0, time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


main()
