"""C13: waveform functions against their documented piecewise formulas.

Machine arithmetic is treated as real arithmetic; sin and exp are
uninterpreted (the proof shows they are applied to the documented argument)."""
import z3
from fractions import Fraction
from .model import *

P = 'ahkab.time_functions.'

def reals(*n):
    return [z3.Real(x) for x in n]

def run_tf(eng, cls, params, pre, spec, kwdefaults=()):
    """for every parameter set meeting pre and every time: value == spec"""
    def driver():
        it = new_interp(eng)
        ps = dict((p, z3.Real(p)) for p in params)
        for c in pre(ps):
            eng.assume(c)
        t = z3.Real('t')
        try:
            o = it.call(it.qual(P + cls), [], dict(ps))
            t0 = z3.Real('t0')
            before = it.call(o, [t0], {})       # an earlier call must not matter
            v = it.call(o, [Maybe(z3.Bool('time_is_None'), t)], {})
        except PyExc as e:
            eng.prove(False, cls + '.no_exception', str(e))
            return
        eng.cover(cls + '.returns')
        tt = z3.If(z3.Bool('time_is_None'), z3.RealVal(0), t)
        eng.assume(z3.Bool('time_is_None') if not eng.feasible(z3.Not(z3.Bool('time_is_None'))) else z3.BoolVal(True))
        spec(it, eng, ps, tt, to_real(it.force(v)), cls)
    eng.explore(driver)

def pulse(eng):
    def pre(p):
        return [p['tr'] >= 0, p['tf'] >= 0, p['pw'] >= 0, p['per'] > 0, p['tr'] + p['tf'] + p['pw'] <= p['per']]

    def spec(it, eng, p, t, v, n):
        td = z3.If(p['td'] > 0, p['td'], z3.RealVal(0))
        per, v1, v2, tr, pw, tf = (p[x] for x in ('per', 'v1', 'v2', 'tr', 'pw', 'tf'))
        k = z3.ToInt((t - td) / per)
        kr = z3.ToReal(k)
        q = z3.Real('q')         # phase inside the period
        eng.assume(q == t - td - kr * per)
        eng.assume(z3.And(q >= 0, q < per))      # lemma phase (proved separately)
        eng.prove(z3.Implies(t < td, v == v1), n + '.before_delay')
        a = t >= td
        eng.prove(z3.Implies(z3.And(a, q < tr), (v - v1) * tr == (v2 - v1) * q), n + '.rise')
        eng.prove(z3.Implies(z3.And(a, q >= tr, q < tr + pw), v == v2), n + '.top')
        eng.prove(z3.Implies(z3.And(a, q >= tr + pw, q < tr + pw + tf), (v - v2) * tf == (v1 - v2) * (q - tr - pw)),
                  n + '.fall')
        eng.prove(z3.Implies(z3.And(a, q >= tr + pw + tf), v == v1), n + '.rest')
    run_tf(eng, 'pulse', ['v1', 'v2', 'td', 'tr', 'pw', 'tf', 'per'], pre, spec)

def phase_lemma(eng):
    def driver():
        it = new_interp(eng)
        x, per = reals('x', 'per')
        eng.assume(per > 0)
        r = z3.Real('r')
        eng.assume(r * per == x)          # r == x / per
        k = z3.ToReal(z3.ToInt(r))
        f = z3.Real('f')
        eng.assume(f == r - k)
        eng.prove(z3.And(f >= 0, f < 1), 'pulse.phase_lemma_1')
        q = z3.Real('q')
        eng.assume(q == f * per)
        eng.prove(z3.And(q >= 0, q < per), 'pulse.phase_lemma_2')
        eng.prove(q == x - k * per, 'pulse.phase_lemma_3')
    eng.explore(driver)

def trig(it, f, x):
    return to_real(it.mathfn(f, x))

def PI(it):
    return it.qual('ahkab.time_functions.math')

def sin(eng):

    def spec(it, eng, p, t, v, n):
        pi = z3.Real('pi')
        ph = pi * p['phi'] / 180
        early = p['vo'] + p['va'] * trig(it, 'sin', ph)
        late = p['vo'] + p['va'] * trig(it, 'exp', -(t - p['td']) * p['theta']) * trig(
            it, 'sin', 2 * pi * p['freq'] * (t - p['td']) + ph)
        eng.prove(z3.Implies(t < p['td'], v == early), n + '.before_delay')
        eng.prove(z3.Implies(t >= p['td'], v == late), n + '.after_delay')
    run_tf(eng, 'sin', ['vo', 'va', 'freq', 'td', 'theta', 'phi'], lambda p: [], spec)

def exp(eng):
    def spec(it, eng, p, t, v, n):
        v1, v2, td1, tau1, td2, tau2 = (p[x] for x in ('v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'))
        e1 = trig(it, 'exp', -(t - td1) / tau1)
        e2 = trig(it, 'exp', -(t - td2) / tau2)
        eng.prove(z3.Implies(t < td1, v == v1), n + '.before')
        eng.prove(z3.Implies(z3.And(t >= td1, t < td2), v == v1 + (v2 - v1) * (1 - e1)), n + '.rise')
        eng.prove(z3.Implies(z3.And(t >= td1, t >= td2), v == v1 + (v2 - v1) * (1 - e1) + (v1 - v2) * (1 - e2)),
                  n + '.fall')
    run_tf(eng, 'exp', ['v1', 'v2', 'td1', 'tau1', 'td2', 'tau2'],
           lambda p: [p['tau1'] > 0, p['tau2'] > 0, p['td2'] >= p['td1']], spec)

def sffm(eng):

    def spec(it, eng, p, t, v, n):
        pi = z3.Real('pi')
        d = t - p['td']
        late = p['vo'] + p['va'] * trig(it, 'sin', 2 * pi * p['fc'] * d + p['mdi'] * trig(it, 'sin', 2 * pi * p['fs'] * d))
        eng.prove(z3.Implies(t <= p['td'], v == p['vo']), n + '.before_delay')
        eng.prove(z3.Implies(t > p['td'], v == late), n + '.after_delay')
    run_tf(eng, 'sffm', ['vo', 'va', 'fc', 'mdi', 'fs', 'td'], lambda p: [], spec)

def am(eng):

    def spec(it, eng, p, t, v, n):
        pi = z3.Real('pi')
        d = t - p['td']
        late = p['sa'] * (p['oc'] + trig(it, 'sin', 2 * pi * p['fm'] * d)) * trig(it, 'sin', 2 * pi * p['fc'] * d)
        eng.prove(z3.Implies(t <= p['td'], v == 0), n + '.before_delay')
        eng.prove(z3.Implies(t > p['td'], v == late), n + '.after_delay')
    run_tf(eng, 'am', ['sa', 'fc', 'fm', 'oc', 'td'], lambda p: [], spec)

PROOFS = dict((n, {'fn': f, 'timeout': 120, 'functions': [P + n + '.__init__', P + n + '.__call__']}) for n, f in
              [('pulse', pulse), ('sin', sin), ('exp', exp), ('sffm', sffm), ('am', am)])
PROOFS['phase_lemma'] = {'fn': phase_lemma, 'timeout': 60, 'functions': []}
