"""C12: integration formulas are exact on polynomials up to their order.

For every history of distinct past times and every step, with every past
value (and derivative) taken from a polynomial q(t) = sum a_m (t - t_new)^m of
degree <= the exactness order, the discretised derivative C1*q(t_new) + C0
equals q'(t_new), the predictor equals q(t_new), and the local error
coefficients equal the documented expressions.  Identities of rational
functions, decided exactly."""
import z3
from fractions import Fraction
from .model import *
from pyvc.ratfun import prove_identity
from pyvc.values import Builtin
import math


def poly(c, u):
    e = z3.RealVal(0)
    for m in reversed(range(len(c))):
        e = e * u + c[m]
    return e


def dpoly(c, u):
    return poly([z3.RealVal(m) * c[m] for m in range(1, len(c))], u) if len(c) > 1 else z3.RealVal(0)


def setup(eng, npast, deg, deriv):
    """history of npast points: times T - s_k (s increasing), values of q"""
    it = new_interp(eng)
    it.div_guard = False
    eng.assumptions.add('divisors are not zero (they are differences of distinct times, the step, and the leading '
                        'coefficient of the formula)')
    it.user_hooks['ext:numpy.linalg.inv'] = Builtin('inv', linalg_inv)
    it.user_hooks['ext:scipy.linalg.inv'] = it.user_hooks['ext:numpy.linalg.inv']
    it.user_hooks['ext:scipy.special.factorial'] = Builtin('factorial', lambda i, a, k: Fraction(
        math.factorial(int(i.force(a[0])))))
    T, h = z3.Real('T'), z3.Real('h')
    eng.assume(h > 0)
    s = [h] + [z3.Real('s%d' % k) for k in range(2, npast + 1)]
    for a, b in zip(s, s[1:]):
        eng.assume(a < b)
    c = [z3.Real('a%d' % m) for m in range(deg + 1)]
    n = z3.Int('n_unknowns')
    eng.assume(n >= 1)
    pv = []
    for k in range(npast):
        def x(i, j, k=k):
            return poly(c, -s[k])

        def dx(i, j, k=k):
            return dpoly(c, -s[k])
        pv.append(VList(eng, [T - s[k], SArr(eng, (n, 1), x), SArr(eng, (n, 1), dx) if deriv else None]))
    return it, VList(eng, pv), h, s, c, n


def method(mod, npast, order, porder, set_order=None, deriv=False, error='both'):
    def proof(eng):
        deg = max(order, porder) + 1

        def driver():
            nm = mod + ('%d' % set_order if set_order else '')
            it, pv, h, s, c, n = setup(eng, npast, deg, deriv)
            if set_order:
                it.mod_overrides['ahkab.%s.order' % mod] = set_order
            try:
                r = it.call(it.qual('ahkab.%s.get_df' % mod), [pv, h], {'predict': True})
            except PyExc as e:
                eng.prove(False, nm + '.no_exception', str(e))
                return
            eng.cover(nm + '.returns')
            C1, C0, xl, px, pl = [it.force(v) for v in it.unpack(r, 5)]
            i = z3.Int('i')
            eng.assume(z3.And(i >= 0, i < n))
            eng.prove(zand(eqz(C0.shape[0], n), eqz(px.shape[0], n)), nm + '.shape')
            zero = [(v, z3.RealVal(0)) for v in c]

            def coef(e, m):
                """part of a linear form in the polynomial's coefficients"""
                return z3.substitute(e, *[(v, z3.RealVal(1 if q == m else 0)) for q, v in enumerate(c)])
            C0e = to_real(C0.fn(i, 0))
            pxe = to_real(px.fn(i, 0))
            if hasattr(C1, 'fn'):
                C1 = it._one(C1)
            C1 = to_real(C1)
            for m in range(order + 1 if error != 'only' else 0):
                # q(t_new) = a0, q'(t_new) = a1
                lhs = (C1 if m == 0 else 0) + coef(C0e, m)
                prove_identity(eng, lhs, z3.RealVal(1 if m == 1 else 0), nm + '.derivative_exact_degree_%d' % m)
            for m in range(porder + 1 if error != 'only' else 0):
                prove_identity(eng, coef(pxe, m), z3.RealVal(1 if m == 0 else 0), nm + '.predictor_exact_degree_%d' % m)
            if error == 'no':
                return
            # local error: the formula's value for the first polynomial it is not exact on
            prove_identity(eng, to_real(it._sc(xl)) * math.factorial(order + 1) * C1, -coef(C0e, order + 1),
                           nm + '.local_error')
            prove_identity(eng, to_real(it._sc(pl)) * math.factorial(porder + 1), coef(pxe, porder + 1),
                           nm + '.predictor_local_error')
        eng.explore(driver)
    return proof


def required(eng):
    """the formulas announce exactly the history they use"""
    it = new_interp(eng)

    def driver():
        for mod, exp in (('implicit_euler', ((0, None), (1, None))), ('trap', ((0, 0), (2, None)))):
            r = it.call(it.qual('ahkab.%s.get_required_values' % mod), [], {})
            for i in range(2):
                for j in range(2):
                    eng.prove(it.unpack(it.unpack(r, 2)[i], 2)[j] == exp[i][j], mod + '.required_values')
        for k in range(1, 7):
            it.mod_overrides['ahkab.gear.order'] = k
            r = it.call(it.qual('ahkab.gear.get_required_values'), [], {})
            eng.prove(it.unpack(it.unpack(r, 2)[1], 2)[0] == k, 'gear.required_values')
    eng.explore(driver)


PROOFS = {
    'implicit_euler': {'fn': method('implicit_euler', 2, 1, 1),
                       'timeout': 60, 'functions': ['ahkab.implicit_euler.get_df']},
    'trap': {'fn': method('trap', 3, 2, 2, deriv=True),
             'timeout': 120, 'functions': ['ahkab.trap.get_df']},
    'required': {'fn': required, 'timeout': 60, 'functions': ['ahkab.implicit_euler.get_required_values',
                                                              'ahkab.trap.get_required_values',
                                                              'ahkab.gear.get_required_values']},
}
for _o in range(1, 7):
    PROOFS['gear%d' % _o] = {'fn': method('gear', _o + 1, _o, _o, set_order=_o, error='no' if _o == 6 else 'both'),
                             'timeout': 200, 'functions': ['ahkab.gear.get_df']}
PROOFS['gear6_error'] = {'fn': method('gear', 7, 6, 6, set_order=6, error='only'), 'timeout': 900, 'thorough': True,
                         'functions': ['ahkab.gear.get_df']}
globals().update((n, p['fn']) for n, p in PROOFS.items())
