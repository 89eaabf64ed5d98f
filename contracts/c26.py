"""C26: the periodic steady state systems, for circuits and numbers of points of any size.

The block systems themselves are those of C22; here are the step, the linearised
equation of a point and the verdict."""
import z3
from .model import *
from .c01 import cases
from . import c10, c22
from .c06 import key_of

S_, B_ = 'ahkab.shooting.', 'ahkab.bfpss.'


def compute_dx(eng):
    """the step at a point follows from the step at the point before by the equations of the point"""
    it = new_interp(eng)

    def driver():
        n, i, j = z3.Ints('n i j')
        eng.assume(z3.And(n >= 1, i >= 0, i < n, j >= 0, j < n))
        A, B = uf('MAass', Z, Z, R), uf('MBass', Z, Z, R)
        T, X = uf('Tass', Z, R), uf('dx_before', Z, R)
        ma, mb = it.arr((n, n), lambda p, q: A(to_int(p), to_int(q))), it.arr((n, n), lambda p, q: B(to_int(p), to_int(q)))
        t, x = it.arr((n,), lambda p: T(to_int(p))), it.arr((n,), lambda p: X(to_int(p)))
        fns = [a.fn for a in (ma, mb, t, x)]
        solves = []

        def lin(i_, a, k):
            eng.assumptions.add('numpy.linalg.solve solves the system it is given or raises')
            Y = uf(eng.fresh('y'), Z, R)
            y = i_.arr((n,), lambda p: Y(to_int(p)))
            solves.append((i_.force(a[0]), i_.force(a[1]), y))
            return y
        it.user_hooks['ext:numpy.linalg.solve'] = Builtin('solve', lin)
        r = it.force(it.call(it.qual(S_ + '_compute_dx'), [ma, mb, t, x], {}))
        if len(solves) != 1:
            raise Unsupported('more than one linear solve')
        M, b, y = solves[0]
        eng.prove(to_int(r.shape[0]) == n, '_compute_dx.size')
        law = to_real(it.np_dot(mb, x).fn(i)) + T(i)
        # M y = b with M = +-MAass, b = +-(MB dx' + T) and the step +-y: together MAass dx = -(MB dx' + T)
        ok = [z3.And(to_real(M.fn(i, j)) == p * A(i, j), to_real(b.fn(i)) == q * law, to_real(r.fn(i)) == s * to_real(y.fn(i)))
              for p in (1, -1) for q in (1, -1) for s in (1, -1) if p * q * s == -1]
        eng.prove(z3.Or(*ok), '_compute_dx.step_removes_the_residual')
        eng.prove(all(a.fn is f for a, f in zip((ma, mb, t, x), fns)), '_compute_dx.arguments_unchanged')
        eng.cover('_compute_dx')
    eng.explore(driver)


def point(eng):
    """the linearised equation of a point: static part, devices at this point, and the difference over one step"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['Resistor'])
        n, i, j = z3.Ints('n i j')
        h = z3.Real('step')
        eng.assume(z3.And(n >= 1, h > 0, i >= 0, i < n, j >= 0, j < n))
        A, D = uf('mna', Z, Z, R), uf('D', Z, Z, R)
        X, Y = uf('x', Z, R), uf('x_before', Z, R)
        dJ, dT = uf('dev_J', Z, Z, Z, R), uf('dev_T', Z, Z, R)
        ma, d = it.arr((n, n), lambda p, q: A(to_int(p), to_int(q))), it.arr((n, n), lambda p, q: D(to_int(p), to_int(q)))
        x, y = it.arr((n,), lambda p: X(to_int(p))), it.arr((n,), lambda p: Y(to_int(p)))

        def update(i_, a, k):
            J, Tx, xx, e = [i_.force(q) for q in a[:4]]
            eng.prove(zand(eqz(xx.shape[0], n), to_real(xx.fn(i, 0)) == X(i)), '_get_variable_MAass_and_Tass.devices_at_this_point')
            ke = e.tag[1]
            i_.log_mod(('arr', J.id), J)
            i_.log_mod(('arr', Tx.id), Tx)
            fj, ft = J.fn, Tx.fn
            J.setfn(lambda p, q: i_.add(fj(p, q), dJ(ke, to_int(p), to_int(q))))
            Tx.setfn(lambda p, q: i_.add(ft(p, q), dT(ke, to_int(p))))
        it.overrides['ahkab.dc_analysis._update_J_and_Tx'] = update
        nm = '_get_variable_MAass_and_Tass'
        J, T = it.unpack(it.call(it.qual(S_ + nm), [m.circ, x, y, ma, d, h, n], {}), 2)
        J, T = it.force(J), it.force(T)
        ke = z3.Int('ke')
        non = m.is_(ke, 'NonLinear')
        FT = it.fold_register('Tx', ke, [i, j], z3.If(non, dT(ke, i), z3.RealVal(0)), m.N)
        FJ = it.fold_register('J', ke, [i, j], z3.If(non, dJ(ke, i, j), z3.RealVal(0)), m.N)
        eng.prove(zand(eqz(T.shape[0], n), eqz(J.shape[0], n), eqz(J.shape[1], n)), nm + '.sizes')
        eng.prove(to_real(J.fn(i, j)) == it.fold_at(FJ, m.N, [i, j]), nm + '.derivatives_of_the_devices')
        c1 = it.arr((n, n), lambda p, q: it.arith('*', D(to_int(p), to_int(q)), 1 / h))
        c0 = it.arr((n, n), lambda p, q: it.arith('*', D(to_int(p), to_int(q)), -1 / h))
        law = it.fold_at(FT, m.N, [i, z3.IntVal(0)]) + to_real(it.np_dot(c1, x).fn(i)) + to_real(it.np_dot(ma, x).fn(i)) + \
            to_real(it.np_dot(c0, y).fn(i))
        eng.prove(to_real(T.fn(i)) == law, nm + '.residual_of_the_point')
        eng.cover(nm)
    eng.explore(driver)


PROOFS = {'_compute_dx': {'fn': compute_dx, 'timeout': 60, 'functions': ['shooting._compute_dx']},
          '_get_variable_MAass_and_Tass': {'fn': point, 'timeout': 60, 'functions': ['shooting._get_variable_MAass_and_Tass']}}
for _n in ('lemma', '_build_Tf', '_build_CMAT', '_build_CMAT.sparse', '_build_x.zero', '_build_x.guess', '_build_static_MAass_and_MBass',
           '_build_Tass_static_vector'):
    PROOFS[_n] = c22.PROOFS[_n]
PROOFS['steps'] = c10.PROOFS['steps']
