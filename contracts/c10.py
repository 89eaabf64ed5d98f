"""C10: sweep grids.

The iterators are driven by harness loops of arbitrary length; what the code
accumulates is compared with the closed form of the grid, for every start, stop
and number of points.  Powers and logarithms are exact, positive powers of a
positive base (axioms of exponentiation, listed in ``power_axioms``)."""
import z3
from fractions import Fraction
from .model import *

DRIVE = '''
def advance(it, k):
    v = None
    for j in range(k):
        v = next(it)
    return v

def exhaust(it, k):
    v = None
    for j in range(k):
        v = next(it)
    try:
        w = next(it)
    except StopIteration:
        return 'end'
    return 'more'

def at(it, j):
    return it[j]

def old_name(it, k):
    v = None
    for j in range(k):
        v = it.next()
    return v
'''
U = 'ahkab.utilities.'


def power_axioms(eng, a, b, n):
    """log10 and powers of ten: 10**log10(x) = x for x > 0,
    10**(u + v) = 10**u * 10**v, (10**u)**m = 10**(u*m)"""
    pw, lg = uf('pow', R, R, R), uf('log10', R, R)
    la, lb = lg(a), lg(b)
    ten = z3.RealVal(10)
    n = z3.ToReal(n)
    eng.assume(z3.And(pw(ten, la) == a, pw(ten, lb) == b))
    eng.assume(pw(ten, lb) == pw(ten, la) * pw(ten, lb - la))
    return pw, ten, la, lb


def ratio_axiom(eng, pw, ten, e, m):
    """(10**e)**m = 10**(e*m)"""
    eng.assume(pw(pw(ten, e), m) == pw(ten, e * m))


def grid(eng, kind, what):
    def driver():
        it = new_interp(eng)
        h = it.harness(DRIVE)
        a, b = z3.Real('start'), z3.Real('stop')
        n, k = z3.Int('points'), z3.Int('k')
        eng.assume(n >= 2)
        eng.assume(z3.And(k >= 1, k <= n))
        if kind == 'log':
            eng.assume(z3.And(a > 0, b > 0))
        nm = '%s.%s' % (kind, what)
        try:
            g = it.call(it.qual(U + kind + '_axis_iterator'), [a, b, n], {})
            if what == 'index':
                j = z3.Int('j')
                eng.assume(z3.And(j >= 0, j < k))
                # reading by index does not depend on what was taken before
                it.call(h['advance'], [g, k], {})
                v = it.call(h['at'], [g, j], {})
                k0 = j
            elif what == 'end':
                v = it.call(h['exhaust'], [g, n], {})
                eng.prove(v == 'end', nm + '.stops_after_the_last_point')
                eng.cover(nm)
                return
            else:
                v = it.call(h['old_name' if what == 'next' else 'advance'], [g, k], {})
                k0 = k - 1
        except PyExc as e:
            eng.prove(False, nm + '.no_exception', str(e))
            return
        eng.cover(nm)
        v = it.force(v)
        if not is_num(v):
            eng.prove(False, nm + '.is_a_number', str(v))
            return
        v = to_real(v)
        m = z3.ToReal(n) - 1
        if kind == 'lin':
            eng.prove(v == a + z3.ToReal(k0) * (b - a) / m, nm + '.equally_spaced')
            eng.prove(z3.Implies(k0 == 0, v == a), nm + '.starts_at_start')
            eng.prove(z3.Implies(k0 == n - 1, v == b), nm + '.ends_at_stop')
        else:
            pw, ten, la, lb = power_axioms(eng, a, b, n)
            e = z3.Real('e')
            eng.assume(e * m == lb - la)
            # the exponent the code uses, whichever way it is written
            q = pw(ten, e)
            ratio_axiom(eng, pw, ten, e, m)
            for t in apps_of(v, 'pow'):
                ba, ex = t.children()
                if ba.eq(ten):
                    eng.prove(z3.Or(ex == e, ex * m == lb - la), nm + '.ratio_exponent')
                    eng.assume(z3.Implies(ex == e, t == q))
                else:
                    eng.assume(z3.Implies(ba == q, t == pw(q, ex)))
            eng.prove(v == a * it.powfn(q, z3.ToReal(k0)), nm + '.constant_ratio')
            eng.prove(z3.Implies(k0 == 0, v == a), nm + '.starts_at_start')
            eng.prove(z3.Implies(k0 == n - 1, v == b), nm + '.ends_at_stop')
    eng.explore(driver)


def apps_of(e, name):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name and x.num_args():
                out.append(x)
            st.extend(x.children())
    return out


def bounds(eng):
    """a single point needs equal ends; no points, or one point with distinct
    ends, are refused"""
    for kind in ('lin', 'log'):
        def driver(kind=kind):
            it = new_interp(eng)
            h = it.harness(DRIVE)
            a, b, n = z3.Real('start'), z3.Real('stop'), z3.Int('points')
            if kind == 'log':
                eng.assume(z3.And(a > 0, b > 0))
            try:
                g = it.call(it.qual(U + kind + '_axis_iterator'), [a, b, n], {})
            except PyExc as e:
                eng.cover(kind + '.refused')
                eng.prove(exc_name(e) == 'ValueError', kind + '.refused_with_ValueError', str(e))
                eng.prove(z3.Or(n < 1, z3.And(n < 2, a != b)), kind + '.refuses_only_impossible_grids')
                return
            eng.prove(z3.And(n >= 1, z3.Or(n >= 2, a == b)), kind + '.refuses_impossible_grids')
            if not eng.branch(n == 1):
                return
            eng.cover(kind + '.single')
            try:
                v = it.call(h['advance'], [g, 1], {})
                eng.prove(to_real(it.force(v)) == a, kind + '.single_point')
                v = it.call(h['at'], [g, 0], {})
                eng.prove(to_real(it.force(v)) == a, kind + '.single_point_by_index')
                g = it.call(it.qual(U + kind + '_axis_iterator'), [a, b, n], {})
                eng.prove(it.call(h['exhaust'], [g, 1], {}) == 'end', kind + '.single_point_only')
            except PyExc as e:
                eng.prove(False, kind + '.single_no_exception', str(e))
        eng.explore(driver)


def steps(eng):
    """check_step_and_points: the step and the number of points it returns
    always fit the period, and each is derived consistently from the other"""
    fn = U + 'check_step_and_points'

    def call(it, **kw):
        r = it.unpack(it.call(it.qual(fn), [], kw), 2)
        return to_int(it.force(r[0])), to_real(it.force(r[1]))

    def fits(n, s, per, nm):
        eng.prove((z3.ToReal(n) - 1) * s == per, nm + '.step_times_intervals_is_the_period')

    def driver():
        it = new_interp(eng)
        per, st, n = z3.Real('period'), z3.Real('step'), z3.Int('n')
        eng.assume(per > 0)
        try:
            ch = eng.decide(4, label='arguments')
            if ch == 0:
                eng.assume(n >= 2)
                q, s = call(it, points=n, period=per)
                eng.prove(q == n, 'steps.points_kept')
                fits(q, s, per, 'steps.points')
                q2, s2 = call(it, step=s, period=per)
                eng.prove(q2 == n, 'steps.points_to_step_to_points')
                eng.prove(s2 == s, 'steps.points_to_step_and_back')
                eng.cover('steps.points')
                return
            if ch == 3:
                q, s = call(it, period=per)
                eng.prove(q == 100, 'steps.default_points')
                fits(q, s, per, 'steps.default')
                eng.cover('steps.default')
                return
            eng.assume(z3.And(st > 0, st <= per))
            kw = {'points': n} if ch == 2 else {}
            q, s = call(it, step=st, period=per, **kw)
            fits(q, s, per, 'steps.step')
            m = per / st
            k = z3.Int('k')
            dv = z3.And(m == z3.ToReal(k), k >= 1)
            if eng.prove(z3.Implies(dv, q == k + 1), 'steps.points_of_a_dividing_step'):
                c = z3.Int('c')
                # (q - 1)*s == period was shown above; so is q = k + 1
                v = z3.Real('v')
                eng.prove(z3.Implies(z3.And(k >= 1, z3.ToReal(k) * v == per, per == z3.ToReal(k) * st), v == st),
                          'steps.a_dividing_step_is_kept')
            eng.prove(z3.And(z3.ToReal(q) - 1 <= m + Q(2, 10**6), z3.ToReal(q) > m - Q(2, 10**6)), 'steps.points_from_step')
            q2, s2 = call(it, points=q, period=per)
            eng.prove(z3.And(q2 == q, s2 == s), 'steps.step_to_points_and_back')
            eng.cover('steps.step')
        except PyExc as e:
            eng.prove(False, 'steps.no_exception', str(e))
    eng.explore(driver)


def exc_name(e):
    return getattr(getattr(e.obj, 'cls', None), 'name', str(e.obj))


def Q(a, b=1):
    return z3.RealVal(Fraction(a, b))


PROOFS = {
    'single_point': {'fn': bounds, 'timeout': 60, 'functions': [
        'utilities.%s_axis_iterator.%s' % (k, f) for k in ('lin', 'log') for f in ('__init__', '__next__', '__getitem__')]},
    'steps': {'fn': steps, 'timeout': 60, 'functions': ['utilities.check_step_and_points']},
}
for _k in ('lin', 'log'):
    for _w in ('values', 'index', 'end'):
        PROOFS[_k + '_' + _w] = {'fn': (lambda eng, k=_k, w=_w: grid(eng, k, w)), 'timeout': 100,
                                 'functions': ['utilities.%s_axis_iterator.%s' % (_k, f) for f in (
                                     '__init__', '__next__', '__getitem__')]}
