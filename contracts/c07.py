"""C07: the convergence test, for vectors of any length, any split into voltages
and currents and any tolerances.

At the edge the documentation leaves open whether the magnitude is that of the
unknown before or after the step and whether the bound itself passes; the
contract asks for success strictly inside and for failure strictly outside."""
import z3
from .model import *

U = 'ahkab.utilities.'


def vec(it, name, n):
    f = uf(name, Z, R)
    return f, it.arr((n, 1), lambda i, j: f(to_int(i)))


def az(x):
    return z3.If(x >= 0, x, -x)


def fmin(a, b):
    return z3.If(a <= b, a, b)


def fmax(a, b):
    return z3.If(a >= b, a, b)


def verdict(eng, how):
    def driver(accepts):
        it = new_interp(eng)
        n, nv = z3.Int('n'), z3.Int('n_voltages')
        eng.assume(z3.And(n >= 0, nv >= 0, nv <= n))
        o = dict((k, z3.Real(k)) for k in ('ver', 'vea', 'ier', 'iea'))
        for k, v in o.items():
            eng.assume(v > 0)
            it.mod_overrides['ahkab.options.' + k] = v
        X, x = vec(it, 'x', n)
        D, dx = vec(it, 'dx', n)
        F, res = vec(it, 'res', n)
        nm = how
        try:
            if how == 'convergence_check':
                ret = it.call(it.qual(U + how), [x, dx, res, nv], {})
                isv = lambda i: i < nv
            elif how == 'custom_debug':
                eng.assume(nv == n)
                ret = it.call(it.qual(U + 'custom_convergence_check'), [x, dx, res, o['ver'], o['vea'], o['iea']], {'debug': True})
                isv = lambda i: z3.BoolVal(True)
            elif how == 'voltage_convergence_check':
                ret = it.call(it.qual(U + how), [x, dx, res], {})
                isv = lambda i: z3.BoolVal(True)
            else:
                ret = it.call(it.qual(U + how), [x, dx, res], {})
                isv = lambda i: z3.BoolVal(False)
        except PyExc as e:
            eng.prove(False, nm + '.no_exception', str(e))
            return
        ok = it.truth(it.force(it.unpack(ret, 2)[0]))
        ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok

        def passes(i, mag, lt):
            er, ea = z3.If(isv(i), o['ver'], o['ier']), z3.If(isv(i), o['vea'], o['iea'])
            rt = z3.If(isv(i), o['iea'], o['vea'])
            m = mag(az(X(i)), az(X(i) + D(i)))
            return z3.And(lt(az(D(i)), er * m + ea), lt(az(F(i)), rt))
        # accepted: every unknown is within the tolerances of its kind
        if not accepts:
            # refused: a witness, which all being strictly inside contradicts
            for w in list(it.wits):
                for i in (w[0], w[0] + nv):
                    eng.assume(z3.Implies(z3.And(i >= 0, i < n), passes(i, fmin, lambda a, b: a < b)))
            eng.prove(ok, nm + '.accepts_every_vector_within_tolerance')
            eng.cover(nm + '.inside')
            return
        i = z3.Int('i')
        eng.assume(z3.And(i >= 0, i < n))
        inst(it, i, nv)
        eng.prove(z3.Implies(ok, passes(i, fmax, lambda a, b: a <= b)), nm + '.accepts_only_vectors_within_tolerance')
        eng.cover(nm + '.some_unknown')
    eng.explore(lambda: driver(True))

    eng.explore(lambda: driver(False))


def inst(it, i, nv):
    it.inst_all(i)
    it.inst_all(i - nv)
    it.inst_all(i, z3.IntVal(0))
    it.inst_all(i - nv, z3.IntVal(0))


PROOFS = {}
for _h in ('convergence_check', 'voltage_convergence_check', 'current_convergence_check', 'custom_debug'):
    PROOFS[_h] = {'fn': (lambda eng, h=_h: verdict(eng, h)), 'timeout': 100,
                  'functions': ['utilities.convergence_check', 'utilities.voltage_convergence_check',
                                'utilities.current_convergence_check', 'utilities.custom_convergence_check']}
