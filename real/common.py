"""Contracts evaluated on the running code (bounded).  Every check module
registers sections; a section draws inputs from a seeded generator and compares
what the real code does with the contract."""
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import contextlib
import warnings
warnings.simplefilter('ignore')
REPO = os.environ.get('AHKAB_SRC', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_o = io.StringIO()
with contextlib.redirect_stdout(_o), contextlib.redirect_stderr(_o):
    import numpy as np
    import ahkab
np.seterr(all='ignore')


class Missing(Exception):
    """an internal name the harness uses is not there (renamed by an edit): undecided"""


class CaseTimeout(BaseException):
    pass


class Fail(Exception):
    def __init__(self, key, what):
        self.key, self.what = key, what


class R(object):
    def __init__(self, rule=''):
        self.seed, self.tier, self.only = 1, 'quick', None
        a = sys.argv
        if '--seed' in a:
            self.seed = int(a[a.index('--seed') + 1])
        if '--tier' in a:
            self.tier = a[a.index('--tier') + 1]
        if '--only' in a:
            self.only = a[a.index('--only') + 1]
        self.thorough = self.tier == 'thorough'
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.skipped = []
        self.sections = {}
        self.rule = rule
        self.t0 = time.time()
        signal.signal(signal.SIGALRM, self._alarm)
        signal.signal(signal.SIGPROF, self._alarm)

    def _alarm(self, *a):
        raise CaseTimeout('no result within the time limit')

    def count(self, q, t):
        return t if self.thorough else q

    def rng(self, name):
        return random.Random('%s-%d' % (name, self.seed))

    def get(self, path):
        """internal function of the package; Missing if an edit moved it"""
        parts = path.split('.')
        o = ahkab
        import importlib
        for i, p in enumerate(parts):
            if not hasattr(o, p):
                try:
                    o = importlib.import_module('ahkab.' + '.'.join(parts[:i + 1]))
                    continue
                except Exception:
                    raise Missing(path)
            o = getattr(o, p)
        return o

    def fail(self, key, what):
        raise Fail(key, what)

    def need(self, cond, key, what):
        self.n += 1
        if not cond:
            raise Fail(key, what() if callable(what) else what)

    def note(self, case):
        s = repr(case)
        if len(self.distinct) < 2000000:
            self.distinct.add(hash(s))
        if len(self.samples) < 5 and (self.n % 7 == 1 or not self.samples):
            self.samples.append(s[:300])

    def section(self, name, cases, fn, priv=False, limit=30, maxfail=8, budget=None):
        """fn(case) for every case; cases is an iterable of inputs"""
        if self.only and self.only != name:
            return
        n0, t0, nf, k = self.n, time.time(), 0, 0
        try:
            for case in cases:
                if budget and time.time() - t0 > budget:
                    break
                k += 1
                self.note((name, case))
                out = io.StringIO()
                try:
                    # processor time decides; the clock only ends what sleeps
                    signal.setitimer(signal.ITIMER_PROF, limit)
                    signal.alarm(8 * limit)
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                        fn(case)
                    self.n += 1
                except Missing as e:
                    self.skipped.append('%s: %s is not there' % (name, e))
                    return
                except Fail as e:
                    self.failures.append({'section': name, 'key': e.key, 'what': '%s | case: %r' % (
                        str(e.what)[:1500], case), 'case': repr(case)[:1500]})
                    nf += 1
                except (Exception, SystemExit, CaseTimeout) as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])
                    inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
                    if not inrepo and priv:
                        self.skipped.append('%s: %s: %s' % (name, type(e).__name__, e))
                        return
                    if priv and isinstance(e, TypeError) and 'argument' in str(e) and not inrepo:
                        self.skipped.append('%s: %s' % (name, e))
                        return
                    where = '%s:%d' % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno) if inrepo else 'caller'
                    self.failures.append({'section': name, 'key': '%s:exception' % name, 'what':
                                          '%s: %s at %s | case: %r' % (type(e).__name__, str(e)[:500], where, case),
                                          'case': repr(case)[:1500],
                                          'traceback': ''.join(traceback.format_tb(sys.exc_info()[2]))[-2500:]})
                    nf += 4 if isinstance(e, CaseTimeout) else 1
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    signal.alarm(0)
                if nf >= maxfail:
                    break
        except Missing as e:
            self.skipped.append('%s: %s is not there' % (name, e))
        finally:
            self.sections[name] = {'cases': k, 'checks': self.n - n0, 'wall_s': round(time.time() - t0, 2)}

    def done(self):
        # a failing section stopped early: keep one failure per key first
        seen, first, rest = set(), [], []
        for f in self.failures:
            (rest if f['key'] in seen else first).append(f)
            seen.add(f['key'])
        sys.stdout.write('\n@@' + json.dumps({
            'evaluations': self.n, 'distinct_nontrivial': len(self.distinct), 'samples': self.samples,
            'failures': first + rest, 'skipped': self.skipped, 'sections': self.sections, 'rule': self.rule}) + '\n')
        sys.stdout.flush()


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
