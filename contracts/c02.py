import z3
from fractions import Fraction
from .model import *
from .c01 import cases


def cap_law(m, k, i, j):
    """capacitor k: C between its terminals; inductor k: -L on its own branch"""
    f = m.f
    a = dl(i, f['n1'](k)) - dl(i, f['n2'](k))
    b = dl(j, f['n1'](k)) - dl(j, f['n2'](k))
    r = m.row(k)
    v = f['value'](k)
    e = z3.If(m.is_(k, 'Capacitor'), v * a * b, z3.RealVal(0))
    e = e + z3.If(m.is_(k, 'Inductor'), -v * dl(i, r) * dl(j, r), 0)
    return e


def coupling_law(m, k, c, i, j):
    """c-th coupling of inductor k: -M in the branch row of k, column of the other inductor"""
    ci = m.cd_index(k, c)
    o = m.other(k, ci)
    m.elem_facts(o)
    return -m.f['value'](ci) * dl(i, m.row(k)) * dl(j, m.row(o))


def dynamic(eng, qual, label):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        cmin = z3.Real('cmin')
        eng.assume(cmin >= 0)
        it.mod_overrides['ahkab.options.cmin'] = cmin
        f = it.qual(qual)
        tot = m.nn + m.vcnt(m.N)
        try:
            D = it.call(f, [m.circ, (z3.simplify(tot - 1), z3.simplify(tot - 1))], {})
        except PyExc as e:
            eng.prove(False, label + '.no_exception', str(e))
            return
        eng.cover(label + '.returns')
        i, j = z3.Int('i'), z3.Int('j')
        for s in D.shape:
            eng.prove(to_int(s) == tot, label + '.shape')
        for x in (i, j):
            eng.assume(z3.And(x >= 1, x < tot))
        k, c = z3.Int('ks'), z3.Int('cs')
        inner = it.fold_register('mutual_spec', c, [i, j, k], coupling_law(m, k, c, i, j), m.f['ncd'](k))
        law = cap_law(m, k, i, j) + z3.If(m.is_(k, 'Inductor'), it.fold_at(inner, m.f['ncd'](k), [i, j, k]), 0)
        S = it.fold_register('D_spec', k, [i, j], law, m.N, match=False)
        hyp = [lambda kk: (m.elem_facts(kk), z3.BoolVal(True))[1]]
        ctot = z3.If(z3.And(i == j, i < m.nn), cmin, z3.RealVal(0))
        it.prove_fold_zero(to_real(D.fn(i, j)) - it.fold_at(S, m.N, [i, j]) - ctot, m.N, label, cases(m), hyps=hyp)
    eng.explore(driver)


def generate_D(eng):
    dynamic(eng, 'ahkab.transient.generate_D', 'generate_D')


def generate_AC(eng):
    dynamic(eng, 'ahkab.ac._generate_AC', 'generate_AC')


PROOFS = {
    'generate_D': {'fn': generate_D, 'timeout': 240, 'functions': ['ahkab.transient.generate_D']},
    'generate_AC': {'fn': generate_AC, 'timeout': 240, 'functions': ['ahkab.ac._generate_AC']},
}
