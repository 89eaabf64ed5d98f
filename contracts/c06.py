"""C06: the damped Newton iteration (mdn_solver) for systems of any size, any
number of elements and any iteration limit, against the contracts of
_update_J_and_Tx (C04), convergence_check (C07), get_td and the linear solvers."""
import z3
from pyvc.loops import LoopSpec
from pyvc.extern import LinAlgError
from .model import *

D = 'ahkab.dc_analysis.'


class State(object):
    """what the current iteration has asked for"""

    def reset(self):
        self.solves, self.tds, self.checks, self.xlin = [], [], [], None


def key_of(a):
    i = z3.Int('tok_i')
    return z3.simplify(to_real(a.fn(i, 0))).sexpr()


def mdn_solver(eng, sparse):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['Resistor'])
        ov, st = it.overrides, State()
        st.reset()
        n, maxit = z3.Int('n'), z3.Int('MAXIT')
        eng.assume(z3.And(n >= 0, maxit >= 1))
        lim = z3.Int('dense_matrix_limit')
        eng.assume(n > lim if sparse else n <= lim)
        it.mod_overrides['ahkab.options.dense_matrix_limit'] = lim
        nl = eng.decide(2, None, 'nonlinear') == 1
        ov['ahkab.circuit.Circuit.is_nonlinear'] = lambda i, a, k: nl
        dJ, dT = uf('dev_J', Z, Z, Z, Z, R), uf('dev_T', Z, Z, Z, R)
        t = z3.Real('t')
        tok = {}

        def token(x):
            kx = key_of(x)
            if kx not in tok:
                tok[kx] = z3.Int('x_token%d' % len(tok))
            return tok[kx]

        def update(i, a, k):
            """contract of _update_J_and_Tx: the contribution of this element, linearised at x, is added"""
            J, Tx, x, e, tm = [i.force(q) for q in a[:4]] + [a[4] if len(a) > 4 else k.get('time')]
            eng.prove(tm is t, 'mdn_solver.devices_are_evaluated_at_the_given_time')
            ke, tk = e.tag[1], token(x)
            st.xlin = x
            i.log_mod(('arr', J.id), J)
            i.log_mod(('arr', Tx.id), Tx)
            fj, ft = J.fn, Tx.fn
            J.setfn(lambda p, q: i.add(fj(p, q), dJ(ke, to_int(p), to_int(q), tk)))
            Tx.setfn(lambda p, q: i.add(ft(p, q), dT(ke, to_int(p), tk)))
            return None
        ov[D + '_update_J_and_Tx'] = update

        def lin(i, a, k):
            M, b = i.force(a[0]), i.force(a[1])
            eng.assumptions.add('numpy.linalg.solve and scipy.sparse.linalg.splu solve the system they are given or raise')
            if eng.decide(2, None, 'singular'):
                i.raise_py(LinAlgError if not sparse else RuntimeError)
            X = uf(eng.fresh('dx'), Z, R)
            dx = i.arr((n, 1), lambda p, q: X(to_int(p)))
            st.solves.append((M, b, dx))
            return dx
        it.user_hooks['ext:numpy.linalg.solve'] = Builtin('solve', lin)
        ident = Builtin('to_sparse', lambda i, a, k: i.arr(i.force(a[0]).shape, i.force(a[0]).fn))
        for nm in ('coo_matrix', 'csc_matrix', 'csr_matrix'):
            it.user_hooks['ext:scipy.sparse.' + nm] = ident
        it.user_hooks['ext:scipy.sparse.lil_matrix'] = Builtin('lil', lambda i, a, k: i.arr(a[0], lambda p, q: z3.RealVal(0)))
        eng.assumptions.add('scipy.sparse matrices hold the same entries as the dense ones')
        it.user_hooks['ext:scipy.sparse.linalg.splu'] = Builtin('splu', lambda i, a, k: Obj(eng, ExtClass(object), {
            'solve': Builtin('lu.solve', lambda i2, a2, k2: lin(i2, [a[0], a2[0]], {}))}))

        def td(i, a, k):
            """contract of get_td (proved below): a factor in (0, 1]"""
            names = ('dx', 'locked_nodes', 'n')
            got = dict(zip(names, a))
            got.update(k)
            f = z3.Real(eng.fresh('td'))
            eng.assume(z3.And(f > 0, f <= 1))
            st.tds.append((got, f))
            return f
        ov[D + 'get_td'] = td

        def check(i, a, k):
            got = dict(zip(('x', 'dx', 'residuum', 'nv_minus_one', 'debug'), a))
            got.update(k)
            c = z3.Bool(eng.fresh('accepted'))
            st.checks.append((got, c))
            return (c, VList(eng, []))
        for p in ('ahkab.utilities.convergence_check', D + 'convergence_check'):
            ov[p] = check

        def havoc(i, fr):
            X = uf(eng.fresh('x'), Z, R)
            st.reset()
            st.x = i.arr((n, 1), lambda p, q: X(to_int(p)))
            fr.locals['x'] = st.x
            fr.locals['iteration'] = st.it0 = z3.Int(eng.fresh('iteration'))
            fr.locals['converged'] = False
            for nm, dims in (('J', 2), ('Tx', 1)):
                a = fr.locals[nm]
                F = uf(eng.fresh(nm), Z, Z, R)
                a.setfn(lambda p, q, F=F: F(to_int(p), to_int(q)))

        def inv(i, fr, k):
            x = i.force(fr.locals['x'])
            return [('iteration_within_limit', z3.And(to_int(fr.locals['iteration']) >= 0, to_int(fr.locals['iteration']) <= maxit)),
                    ('not_yet_converged', znot(i.truth(fr.locals['converged']))),
                    ('x_shape', zand(eqz(x.shape[0], n), eqz(x.shape[1], 1)))]
        spec = LoopSpec('mdn_solver.loop', ['x', 'iteration', 'converged'], havoc, inv,
                        lambda i, fr: maxit - to_int(fr.locals['iteration']),
                        lambda i, fr: [('arr', fr.locals['J'].id), ('arr', fr.locals['Tx'].id)])
        it.loop_specs[D + 'mdn_solver'] = lambda s, fr: spec if type(s).__name__ == 'While' else None
        A, T, X0 = uf('mna', Z, Z, R), uf('T', Z, R), uf('x0', Z, R)
        mna = it.arr((n, n), lambda i, j: A(to_int(i), to_int(j)))
        TT = it.arr((n, 1), lambda i, j: T(to_int(i)))
        x0 = it.arr((n, 1), lambda i, j: X0(to_int(i)))
        ins = (mna, TT, x0)
        fns = [a.fn for a in ins]
        given = eng.decide(2, None, 'x0')
        lock = VList(eng, [])
        dbg = eng.decide(2, None, 'debug') == 1
        try:
            r = it.call(it.qual(D + 'mdn_solver'), [x0 if given else None, mna, m.circ], {
                'T': TT, 'MAXIT': maxit, 'nv': m.nn, 'locked_nodes': lock, 'time': t, 'print_steps': False, 'debug': dbg})
        except PyExc as e:
            eng.cover('mdn_solver.raises')
            eng.prove(it.exc_is(e, LinAlgError) or it.exc_is(e, RuntimeError), 'mdn_solver.raises_only_when_the_system_cannot_be_solved', str(e))
            return
        eng.prove(all(a.fn is f for a, f in zip(ins, fns)), 'mdn_solver.inputs_are_not_modified')
        x, res, conv, iters, byn = it.unpack(r, 5)
        c = it.truth(conv)
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        i, j = z3.Int('i'), z3.Int('j')
        eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        eng.prove(zand(eqz(x.shape[0], n), eqz(x.shape[1], 1), eqz(res.shape[0], n)), 'mdn_solver.shapes')
        eng.prove(z3.And(to_int(iters) >= 1, to_int(iters) <= maxit), 'mdn_solver.iterations_never_exceed_the_limit')
        eng.prove(to_int(iters) == st.it0 + 1, 'mdn_solver.counts_the_steps')
        if len(st.solves) != 1:
            eng.prove(False, 'mdn_solver.one_linear_solve_per_step')
            return
        M, b, dx = st.solves[0]
        ke = z3.Int('ke')
        law = to_real(it.np_dot(mna, st.x).fn(i, 0)) + T(i)
        jac = A(i, j)
        tk = None
        if nl:
            tk = token(st.x)
            non = m.is_(ke, 'NonLinear')
            FT = it.fold_register('Tx', ke, [i, j], z3.If(non, dT(ke, i, tk), z3.RealVal(0)), m.N)
            FJ = it.fold_register('J', ke, [i, j], z3.If(non, dJ(ke, i, j, tk), z3.RealVal(0)), m.N)
            law = law + it.fold_at(FT, m.N, [i, z3.IntVal(0)])
            jac = jac + it.fold_at(FJ, m.N, [i, j])
        eng.prove(to_real(res.fn(i, 0)) == law, 'mdn_solver.error_is_the_residual_where_the_devices_were_linearised')
        eng.prove(to_real(it.force(b).fn(i, 0)) == -law, 'mdn_solver.step_removes_the_residual')
        eng.prove(to_real(M.fn(i, j)) == jac, 'mdn_solver.step_uses_the_linearised_system')
        step = to_real(x.fn(i, 0)) - to_real(st.x.fn(i, 0))
        if not nl:
            eng.cover('mdn_solver.linear')
            eng.prove(step == to_real(dx.fn(i, 0)), 'mdn_solver.linear_circuit_takes_the_full_step')
            eng.prove(c, 'mdn_solver.linear_circuit_is_solved')
            return
        eng.prove(len(st.tds) == 1, 'mdn_solver.damped_once')
        got, f = st.tds[0]
        eng.prove(it.force(got['dx']) is dx and it.force(got['locked_nodes']) is lock, 'mdn_solver.damping_of_this_step')
        eng.prove(to_int(got['n']) == to_int(iters), 'mdn_solver.damping_of_this_iteration')
        eng.prove(step == f * to_real(dx.fn(i, 0)), 'mdn_solver.damped_step')
        # the flag is the verdict of the convergence test on exactly these vectors
        ok = []
        for got, acc in st.checks:
            gx, gd, gr = (it.force(got[k]) for k in ('x', 'dx', 'residuum'))
            ok.append(z3.And(acc, to_real(gx.fn(i, 0)) == to_real(x.fn(i, 0)), to_real(gd.fn(i, 0)) == to_real(dx.fn(i, 0)),
                             to_real(gr.fn(i, 0)) == to_real(res.fn(i, 0)), to_int(got['nv_minus_one']) == m.nn - 1,
                             zbool(zand(eqz(gx.shape[0], n), eqz(gd.shape[0], n), eqz(gr.shape[0], n)))))
        eng.prove(z3.Implies(c, z3.Or(*ok)), 'mdn_solver.converged_only_when_the_test_accepts_this_point')
        eng.prove(z3.Implies(z3.Not(c), z3.And(*[z3.Not(acc) for got, acc in st.checks] + [z3.BoolVal(len(st.checks) > 0)])),
                  'mdn_solver.failure_only_when_the_test_refuses')
        eng.prove(z3.Or(c, to_int(iters) == maxit), 'mdn_solver.gives_up_only_at_the_limit')
        if eng.branch(c):
            eng.cover('mdn_solver.converged')
        else:
            eng.cover('mdn_solver.not_converged')
    eng.explore(driver)


def is_nonlinear(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['Resistor'])
        r = it.truth(it.call(it.qual('ahkab.circuit.Circuit.is_nonlinear'), [m.circ], {}))
        k = z3.Int('some')
        eng.assume(z3.And(k >= 0, k < m.N))
        it.inst_all(k) if hasattr(it, 'inst_all') else None
        if eng.branch(zbool(r)):
            eng.cover('is_nonlinear.yes')
            q = z3.Int('q')
            eng.prove(z3.Exists([q], z3.And(q >= 0, q < m.N, m.is_(q, 'NonLinear'))), 'is_nonlinear.only_with_a_nonlinear_element')
        else:
            eng.cover('is_nonlinear.no')
            eng.prove(z3.Not(m.is_(k, 'NonLinear')), 'is_nonlinear.every_nonlinear_element_counts')
    eng.explore(driver)


def get_td(eng):
    """the damping factor is in (0, 1] and keeps the change of voltage across
    every locked pair of nodes within the limit"""
    it = new_interp(eng)

    def driver():
        n, npairs = z3.Int('n'), z3.Int('n_pairs')
        eng.assume(z3.And(n >= 1, npairs >= 0))
        lock, first, fac, vth = z3.Bool('lock'), z3.Bool('damp_first'), z3.Real('factor'), z3.Real('Vth')
        eng.assume(z3.And(fac > 0, vth > 0))
        for nm, v in (('nl_voltages_lock', lock), ('nr_damp_first_iters', first), ('nl_voltages_lock_factor', fac)):
            it.mod_overrides['ahkab.options.' + nm] = v
        it.overrides['ahkab.constants.Constants.Vth'] = it.overrides['ahkab.constants.Vth'] = lambda i, a, k: vth
        P1, P2, DX = uf('pair_n1', Z, Z), uf('pair_n2', Z, Z), uf('dx', Z, R)

        def pair(k):
            k = to_int(k)
            eng.fact_once(('pair', k.sexpr()), z3.Implies(z3.And(k >= 0, k < npairs), z3.And(
                P1(k) >= 0, P1(k) <= n, P2(k) >= 0, P2(k) <= n)))
            return (P1(k), P2(k))
        V = lambda i: z3.If(i == 0, z3.RealVal(0), DX(i - 1))
        p = z3.Int('some_pair')
        eng.assume(z3.And(p >= 0, p < npairs))
        pair(p)
        az = lambda x: z3.If(x >= 0, x, -x)

        def bounded(td):
            return td * az(V(P1(p)) - V(P2(p))) <= fac * vth
        grounded = z3.And(P1(p) == 0, P2(p) == 0)

        def havoc(i, fr):
            fr.locals['td'] = z3.Real(eng.fresh('td'))
            fr.locals['td_new'] = z3.Real(eng.fresh('td_new'))

        def inv(i, fr, k):
            td, tn = to_real(fr.locals['td']), to_real(fr.locals['td_new'])
            return [('factor_in_range', z3.And(td > 0, td <= 1)), ('candidate_in_range', tn > 0),
                    ('pairs_seen_are_limited', z3.Implies(p < to_int(k), bounded(td)))]
        it.loop_specs[D + 'get_td'] = LoopSpec('get_td.loop', ['td', 'td_new'], havoc, inv)
        dx = it.arr((n, 1), lambda i, j: DX(to_int(i)))
        k = z3.Int('iteration')
        try:
            r = it.call(it.qual(D + 'get_td'), [dx, VList(eng, None, SymSeq(npairs, pair, 'pairs'))], {'n': k})
        except PyExc as e:
            eng.prove(False, 'get_td.no_exception', str(e))
            return
        td = to_real(it.force(r))
        eng.prove(z3.And(td > 0, td <= 1), 'get_td.factor_between_zero_and_one')
        eng.prove(z3.Implies(z3.And(lock, z3.Not(grounded)), bounded(td)), 'get_td.locked_voltages_change_within_the_limit')
        eng.cover('get_td.returns')
    eng.explore(driver)


FN = ['dc_analysis.mdn_solver']
PROOFS = {
    'mdn_solver': {'fn': lambda eng: mdn_solver(eng, False), 'timeout': 200, 'functions': FN},
    'mdn_solver_sparse': {'fn': lambda eng: mdn_solver(eng, True), 'timeout': 200, 'functions': FN},
    'get_td': {'fn': get_td, 'timeout': 100, 'functions': ['dc_analysis.get_td']},
    'is_nonlinear': {'fn': is_nonlinear, 'timeout': 60, 'functions': ['circuit.Circuit.is_nonlinear']},
}
