"""C03: AC analysis."""
import z3
from pyvc.loops import LoopSpec
from .model import *
from .c01 import cases

A_ = 'ahkab.ac.'


def trig(it, f, k):
    """value of exp(j*arg) of element k"""
    return it.mathfn('cos', f['acim'](k)), it.mathfn('sin', f['acim'](k))


def generate_Nac(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        try:
            r = it.call(it.qual(A_ + '_generate_Nac'), [m.circ], {})
        except PyExc as e:
            eng.prove(False, '_generate_Nac.no_exception', str(e))
            return
        eng.cover('_generate_Nac.returns')
        tot = m.nn + m.vcnt(m.N)
        eng.prove(zand(eqz(r.shape[0], tot), eqz(r.shape[1], 1)), '_generate_Nac.shape')
        i, k = z3.Int('i'), z3.Int('ks')
        eng.assume(z3.And(i >= 1, i < tot))
        v = as_cx(r.fn(i, 0))
        f = m.f
        for nm, part, tr in (('real', v.re, 'cos'), ('imaginary', v.im, 'sin')):
            w = f['acre'](k) * to_real(it.mathfn(tr, f['acim'](k)))
            a = dl(i, f['n1'](k)) - dl(i, f['n2'](k))
            law = z3.If(m.is_(k, 'ISource'), w * a, z3.RealVal(0))
            law = z3.If(m.is_(k, 'VSource'), -w * dl(i, m.row(k)), law)
            law = z3.If(f['hasac'](k), law, z3.RealVal(0))
            S = it.fold_register('Nac_spec', k, [i], law, m.N, match=False)
            it.prove_fold_zero(to_real(part) - it.fold_at(S, m.N, [i]), m.N, '_generate_Nac.%s_part' % nm, cases(m),
                               hyps=[lambda kk: (m.elem_facts(kk), z3.BoolVal(True))[1]])
    eng.explore(driver)


def generate_J(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['Resistor', 'VSource'])
        n = z3.Int('n')
        eng.assume(n >= 0)
        dJ = uf('dev_J', Z, Z, Z, R)
        X = uf('xop', Z, R)
        xop = it.arr((n, 1), lambda i, j: X(to_int(i)))

        def update(i, a, k):
            J, Tx, x, e = [i.force(q) for q in a[:4]]
            eng.prove(x is xop, '_generate_J.linearised_at_the_operating_point')
            ke = e.tag[1]
            i.log_mod(('arr', J.id), J)
            fj = J.fn
            J.setfn(lambda p, q: i.add(fj(p, q), dJ(ke, to_int(p), to_int(q))))
        it.overrides['ahkab.dc_analysis._update_J_and_Tx'] = update
        r = it.call(it.qual(A_ + '_generate_J'), [], {'xop': xop, 'circ': m.circ, 'reduced_mna_size': n})
        i, j, k = z3.Int('i'), z3.Int('j'), z3.Int('ks')
        eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        eng.prove(zand(eqz(r.shape[0], n), eqz(r.shape[1], n)), '_generate_J.shape')
        S = it.fold_register('J', k, [i, j], z3.If(m.is_(k, 'NonLinear'), dJ(k, i, j), z3.RealVal(0)), m.N)
        eng.prove(to_real(r.fn(i, j)) == it.fold_at(S, m.N, [i, j]), '_generate_J.sum_of_the_device_conductances')
        eng.cover('_generate_J.returns')
    eng.explore(driver)


def ac_analysis(eng, nonlinear):
    """every reported line is the solution, at the requested frequency it is filed
    under, of A + G + J + jwD with the AC excitation; all requested frequencies are
    reported in order or the analysis reports failure"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, [])
        n, gm = z3.Int('n'), z3.Real('gmin')
        eng.assume(n >= m.nn - 1)
        ov, mo = it.overrides, it.mod_overrides
        mo['ahkab.options.gmin'] = gm
        A, AC, JJ, NR, NI = uf('A', Z, Z, R), uf('D', Z, Z, R), uf('J', Z, Z, R), uf('Nre', Z, R), uf('Nim', Z, R)
        W = uf('grid', Z, R)
        start, stop, points = z3.Real('start'), z3.Real('stop'), z3.Int('points')
        eng.assume(z3.And(PI > 3, PI < 4, start > 0, stop >= start, points >= 1, z3.Implies(points < 2, start == stop)))
        ours = []

        def mk(i, a, k):
            ours.append(it.force(a[0]) is m.circ)
            return (i.arr((n + 1, n + 1), lambda p, q: A(to_int(p), to_int(q))), i.arr((n + 1, 1), lambda p, q: z3.RealVal(0)))
        ov['ahkab.dc_analysis.generate_mna_and_N'] = mk

        def mkac(i, a, k):
            sh = [to_int(x) for x in i.as_seq(a[1])]
            eng.prove(z3.And(*[x == n for x in sh]), 'ac_analysis.size_of_the_dynamic_matrix')
            ours.append(it.force(a[0]) is m.circ)
            return i.arr((n + 1, n + 1), lambda p, q: AC(to_int(p), to_int(q)))
        ov[A_ + '_generate_AC'] = mkac

        def mkn(i, a, k):
            ours.append(it.force(a[0]) is m.circ)
            return i.arr((n + 1, 1), lambda p, q: Cx(NR(to_int(p)), NI(to_int(p))), 'complex')
        ov[A_ + '_generate_Nac'] = mkn
        xop = it.arr((n, 1), lambda p, q: z3.RealVal(0))

        def mkj(i, a, k):
            got = dict(zip(('xop', 'circ', 'reduced_mna_size'), a))
            got.update(k)
            eng.prove(zand(eqz(got['reduced_mna_size'], n), it.force(got['xop']) is xop), 'ac_analysis.linearised_at_the_operating_point')
            ours.append(it.force(got['circ']) is m.circ)
            return i.arr((n, n), lambda p, q: JJ(to_int(p), to_int(q)))
        ov[A_ + '_generate_J'] = mkj
        ov['ahkab.circuit.Circuit.is_nonlinear'] = lambda i, a, k: nonlinear

        def op(i, a, k):
            ours.append(it.force(a[0]) is m.circ)
            if eng.decide(2, None, 'op fails'):
                return None
            return Obj(eng, ExtClass(object), {'asarray': Builtin('asarray', lambda i2, a2, k2: xop)})
        ov['ahkab.dc_analysis.op_analysis'] = op
        kinds = []

        def grid(kind):
            def f(i, a, k):
                kinds.append(kind)
                eng.prove(z3.And(to_real(a[0]) == 2 * start * to_real(PI), to_real(a[1]) == 2 * stop * to_real(PI),
                                 to_int(a[2]) == points), 'ac_analysis.sweeps_the_requested_range')
                return VList(eng, None, SymSeq(points, lambda q: W(to_int(q)), 'grid'))
            return Builtin(kind, f)
        mo['ahkab.utilities.log_axis_iterator'], mo['ahkab.utilities.lin_axis_iterator'] = grid('log'), grid('lin')
        st = {'lines': None, 'last': None}
        i_, j_ = z3.Int('i'), z3.Int('j')

        def solve(i, a, k):
            names = ('mna', 'Ndc', 'circ', 'Ntran', 'Gmin', 'x0', 'time', 'MAXIT', 'locked_nodes', 'skip_Tt', 'verbose')
            got = dict(zip(names, a))
            got.update(k)
            if eng.decide(2, None, 'fails'):
                st['last'] = None
                return (None, None, False, z3.Int(eng.fresh('it')))
            F = uf(eng.fresh('sol'), Z, R)
            x = i.arr((n, 1), lambda p, q: Cx(F(to_int(p)), z3.RealVal(0)), 'complex')
            st['last'] = (got, x)
            return (x, x, True, z3.Int(eng.fresh('it')))
        ov['ahkab.dc_analysis.dc_solve'] = solve
        made = []

        def init(i, a, k):
            made.append((a[0], dict(zip(('circ', 'start', 'stop', 'points', 'stype', 'op', 'outfile'), a[1:]), **k)))
        ov['ahkab.results.ac_solution.__init__'] = init

        def line(i, a, k):
            sol, fr, x = a[0], a[1], i.force(a[2])
            if st['last'] is None or st['last'][1] is not x:
                eng.prove(False, 'ac_analysis.reports_only_solutions')
                return
            got = st['last'][0]
            w = W(st['lines'])
            eng.prove(to_real(fr) * 2 * to_real(PI) == w, 'ac_analysis.line_filed_under_its_frequency')
            M, N, G = i.force(got['mna']), i.force(got['Ndc']), i.force(got['Gmin'])
            inr = z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < n)
            eng.prove(zand(eqz(M.shape[0], n), eqz(N.shape[0], n), eqz(G.shape[0], n)), 'ac_analysis.shapes')
            c = as_cx(M.fn(i_, j_))
            eng.prove(z3.Implies(inr, to_real(c.re) == A(i_ + 1, j_ + 1) + (JJ(i_, j_) if nonlinear else 0)),
                      'ac_analysis.real_part_of_the_system')
            eng.prove(z3.Implies(inr, to_real(c.im) == w * AC(i_ + 1, j_ + 1)), 'ac_analysis.imaginary_part_of_the_system')
            v = as_cx(N.fn(i_, 0))
            eng.prove(z3.Implies(inr, z3.And(to_real(v.re) == NR(i_ + 1), to_real(v.im) == NI(i_ + 1))), 'ac_analysis.excitation')
            eng.prove(z3.Implies(inr, to_real(G.fn(i_, j_)) == z3.If(z3.And(i_ == j_, i_ < m.nn - 1), gm, 0)),
                      'ac_analysis.only_the_documented_conductance')
            nt = got.get('Ntran')
            eng.prove(zand(nt is None or eqz(nt, 0), got.get('skip_Tt') is True), 'ac_analysis.nothing_else_in_the_system')
            st['lines'] = z3.simplify(st['lines'] + 1)
            eng.cover('ac_analysis.line')
        ov['ahkab.results.ac_solution.add_line'] = line

        def havoc(i, fr):
            X = uf(eng.fresh('guess'), Z, R)
            fr.locals['x'] = i.arr((n, 1), lambda p, q: X(to_int(p)))
            fr.locals['iter_n'] = z3.Int(eng.fresh('iter_n'))
            st['lines'] = z3.Int(eng.fresh('lines'))
            st['last'] = None

        def inv(i, fr, k):
            return [('lines_reported_so_far', st['lines'] == k)]
        it.loop_specs[A_ + 'ac_analysis'] = LoopSpec('ac_analysis.loop', ['x', 'iter_n'], havoc, inv)
        st['lines'] = z3.IntVal(0)
        ty = (None, 'LOG', 'LIN', 'log', 'lin', 'foo')[eng.decide(6, None, 'sweep')]
        try:
            r = it.call(it.qual(A_ + 'ac_analysis'), [m.circ, start, points, stop], {'sweep_type': ty, 'outfile': 'f', 'verbose': 0})
        except PyExc as e:
            if ty == 'foo':
                eng.prove(it.exc_is(e, ValueError), 'ac_analysis.unknown_sweep_is_rejected')
                eng.cover('ac_analysis.bad_sweep')
            else:
                eng.prove(nonlinear and it.exc_is(e, RuntimeError), 'ac_analysis.no_exception_unless_there_is_no_operating_point', str(e))
            return
        eng.prove(ty != 'foo', 'ac_analysis.unknown_sweep_is_rejected')
        eng.prove(bool(ours) and all(ours), 'ac_analysis.assembles_this_circuit')
        eng.prove(kinds == ['lin' if ty in ('LIN', 'lin') else 'log'], 'ac_analysis.requested_kind_of_grid')
        if r is None:
            eng.cover('ac_analysis.failure')
            eng.prove(st['last'] is None, 'ac_analysis.failure_only_when_a_solve_failed')
            return
        eng.cover('ac_analysis.success')
        eng.prove(len(made) == 1 and r is made[0][0] and it.force(made[0][1]['circ']) is m.circ, 'ac_analysis.returns_the_result_set')
        eng.prove(st['lines'] == points, 'ac_analysis.every_requested_frequency_is_reported')
    eng.explore(driver)


PROOFS = {
    'ac_analysis': {'fn': lambda eng: ac_analysis(eng, False), 'timeout': 120, 'functions': ['ac.ac_analysis']},
    'ac_analysis_nonlinear': {'fn': lambda eng: ac_analysis(eng, True), 'timeout': 120, 'functions': ['ac.ac_analysis']},
    '_generate_Nac': {'fn': generate_Nac, 'timeout': 150, 'functions': ['ac._generate_Nac']},
    '_generate_J': {'fn': generate_J, 'timeout': 60, 'functions': ['ac._generate_J']},
}
