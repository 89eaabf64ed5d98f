import z3
from fractions import Fraction
from .model import *


def mna_law(m, k, i, j, hsign=1):
    """contribution of element k to entry (i, j) of the static matrix"""
    f = m.f
    n1, n2, s1, s2, v = (f[x](k) for x in ('n1', 'n2', 'sn1', 'sn2', 'value'))
    r = m.row(k)
    rs = m.row(f['src'](k))
    a = dl(i, n1) - dl(i, n2)
    b = dl(j, n1) - dl(j, n2)
    s = dl(j, s1) - dl(j, s2)
    is_ = lambda *n: m.is_(k, *n)
    e = z3.RealVal(0)
    e = e + z3.If(is_('Resistor'), 1 / v * a * b, 0)
    e = e + z3.If(is_('GISource'), v * a * s, 0)
    e = e + z3.If(m.isv(k), a * dl(j, r) + dl(i, r) * b, 0)
    e = e + z3.If(is_('EVSource'), -v * dl(i, r) * s, 0)
    e = e + z3.If(is_('HVSource'), hsign * v * dl(i, r) * dl(j, rs), 0)
    e = e + z3.If(is_('FISource'), v * a * dl(j, rs), 0)
    return e


def n_law(m, k, i):
    f = m.f
    n1, n2 = f['n1'](k), f['n2'](k)
    a = dl(i, n1) - dl(i, n2)
    t = f['tdep'](k)
    e = z3.If(z3.And(m.is_(k, 'ISource'), z3.Not(t)), f['dc'](k) * a, z3.RealVal(0))
    e = e + z3.If(z3.And(m.is_(k, 'VSource'), z3.Not(t)), -f['dc'](k) * dl(i, m.row(k)), 0)
    return e


def cases(m):
    return [(n, (lambda c: (lambda k: m.cls(k) == c))(m.code[n])) for n in m.names]


def generate_mna_and_N(eng):
    it = new_interp(eng)

    def driver():
        it.loops_reset() if hasattr(it, 'loops_reset') else None
        m = CircuitModel(it)
        f = it.qual('ahkab.dc_analysis.generate_mna_and_N')
        try:
            r = it.call(f, [m.circ], {'verbose': 0})
        except PyExc as e:
            eng.prove(False, 'generate_mna_and_N.no_exception', str(e))
            return
        mna, N = it.unpack(r, 2)
        eng.cover('generate_mna_and_N.returns')
        tot = m.nn + m.vcnt(m.N)
        i, j = z3.Int('i'), z3.Int('j')
        for q, s in enumerate(mna.shape):
            eng.prove(to_int(s) == tot, 'generate_mna_and_N.shape')
        eng.prove(zand(eqz(N.shape[0], tot), eqz(N.shape[1], 1)), 'generate_mna_and_N.N_shape')
        k = z3.Int('ks')
        for x in (i, j):
            eng.assume(z3.And(x >= 1, x < tot))
        S = it.fold_register('mna_spec', k, [i, j], mna_law(m, k, i, j), m.N, match=False)
        hyp = [lambda kk: (m.elem_facts(kk), z3.BoolVal(True))[1]]
        it.prove_fold_zero(to_real(mna.fn(i, j)) - it.fold_at(S, m.N, [i, j]), m.N, 'generate_mna_and_N.mna', cases(m), hyps=hyp)
        SN = it.fold_register('N_spec', k, [i], n_law(m, k, i), m.N, match=False)
        it.prove_fold_zero(to_real(N.fn(i, 0)) - it.fold_at(SN, m.N, [i]), m.N, 'generate_mna_and_N.N', cases(m), hyps=hyp)
    eng.explore(driver)


def find_vde_index(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        del it.overrides['ahkab.circuit.Circuit.find_vde_index']
        C = m.circ.cls
        f = C.lookup('find_vde_index')
        w = z3.Const('wanted', Name)
        s = z3.Int('s')
        # the name of the s-th element (in any letter case), a voltage-defined one
        eng.assume(z3.And(s >= 0, s < m.N))
        m.elem_facts(s)
        eng.assume(m.isv(s))
        eng.assume(upper(w) == upper(m.f['pid'](s)))
        try:
            r = it.call(f, [m.circ, w], {'verbose': 0})
        except PyExc as e:
            eng.prove(False, 'find_vde_index.no_exception', str(e))
            return
        eng.cover('find_vde_index.returns')
        it.prove_int_fold(r, m.vfold, s, 'find_vde_index.result', cases(m))
    eng.explore(driver)


def find_vde_unknown(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        del it.overrides['ahkab.circuit.Circuit.find_vde_index']
        f = m.circ.cls.lookup('find_vde_index')
        w = z3.Const('wanted', Name)
        q = z3.Int('q')
        eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.N, m.isv(q)), upper(m.f['pid'](q)) != upper(w))))
        try:
            r = it.call(f, [m.circ, w], {'verbose': 0})
        except PyExc as e:
            eng.cover('find_vde_index.raises')
            eng.prove(it.exc_is(e, ValueError), 'find_vde_index.unknown_raises_ValueError', str(e))
            return
        eng.prove(False, 'find_vde_index.unknown_is_rejected')
    eng.explore(driver)


PROOFS = {
    'find_vde_index': {'fn': find_vde_index, 'timeout': 120, 'functions': ['ahkab.circuit.Circuit.find_vde_index']},
    'find_vde_unknown': {'fn': find_vde_unknown, 'timeout': 120, 'functions': ['ahkab.circuit.Circuit.find_vde_index']},
    'generate_mna_and_N': {'fn': generate_mna_and_N, 'timeout': 240, 'functions': [
        'ahkab.dc_analysis.generate_mna_and_N', 'ahkab.utilities.expand_matrix', 'ahkab.circuit.is_elem_voltage_defined',
        'ahkab.components.Resistor.g']},
}
