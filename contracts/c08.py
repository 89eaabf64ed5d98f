"""C08: the operating point search.

dc_solve is verified against the contract of the single solve (mdn_solver, C06):
it may converge or not, or raise, in any order; nothing else is known about it.
Its loop has a written contract (invariant and variant)."""
import z3
from pyvc.loops import LoopSpec
from .model import *

D = 'ahkab.dc_analysis.'
METHODS = (('standard_solving', 'use_standard_solve_method'), ('gmin_stepping', 'use_gmin_stepping'),
           ('source_stepping', 'use_source_stepping'))
B = z3.BoolSort()


def bz(it, v):
    v = it.truth(it.force(v))
    return z3.BoolVal(v) if isinstance(v, bool) else v


def options(it):
    use = {}
    for a, b in METHODS:
        use[a] = z3.Bool(b)
        it.mod_overrides['ahkab.options.' + b] = use[a]
    return use


def method_dicts(it, tag=''):
    """the three method records in an arbitrary state"""
    eng = it.eng
    out = []
    for a, b in METHODS:
        d = {'enabled': z3.Bool(eng.fresh(a + '_enabled')), 'failed': z3.Bool(eng.fresh(a + '_failed'))}
        if a != 'standard_solving':
            n, F = z3.Int('n_' + a), uf('factors_' + a, Z, R)
            d['factors'] = VList(eng, None, SymSeq(n, lambda k, F=F: F(to_int(k)), 'factors'))
            d['index'] = z3.Int(eng.fresh('index'))
        out.append(VDict(eng, d))
    return out


def states(it, dicts):
    return [(bz(it, d.d['enabled']), bz(it, d.d['failed'])) for d in dicts]


def set_next(eng):
    """set_next_solve_method: the enabled method is marked failed, and the first one
    that is allowed and not failed is enabled (contract used by dc_solve)"""
    it = new_interp(eng)

    def driver():
        use = options(it)
        ds = method_dicts(it)
        u = [use[a] for a, _ in METHODS]
        old = states(it, ds)
        eng.assume(z3.And(*[z3.Not(z3.And(old[i][0], old[j][0])) for i in range(3) for j in range(i)]))
        eng.assume(z3.And(*[z3.Implies(e, z3.Not(f)) for e, f in old]))
        more = bz(it, it.call(it.qual(D + 'more_solve_methods_available'), ds, {}))
        anyleft = z3.Or(*[z3.And(u[i], z3.Not(old[i][0]), z3.Not(old[i][1])) for i in range(3)])
        eng.prove(more == anyleft, 'more_solve_methods_available.result')
        try:
            r = it.unpack(it.call(it.qual(D + 'set_next_solve_method'), ds, {'verbose': 0}), 3)
        except PyExc as e:
            eng.prove(False, 'set_next_solve_method.no_exception', str(e))
            return
        new = states(it, [it.force(x) for x in r])
        for i in range(3):
            eng.prove(new[i][1] == z3.Or(old[i][0], old[i][1]), 'set_next_solve_method.marks_the_method_that_failed')
            first = z3.And(u[i], z3.Not(new[i][1]), *[z3.Not(z3.And(u[j], z3.Not(new[j][1]))) for j in range(i)])
            eng.prove(new[i][0] == first, 'set_next_solve_method.enables_the_first_method_left')
        eng.cover('set_next_solve_method.returns')
    eng.explore(driver)


def start_methods(eng):
    """get_solve_methods: nothing tried yet, and each homotopy ends at the unmodified problem"""
    it = new_interp(eng)

    def driver():
        use = options(it)
        gm = z3.Real('gmin')
        p = z3.Int('log10_gmin')
        eng.assume(z3.And(gm > 0, gm < 1, p <= 0))
        it.mod_overrides['ahkab.options.gmin'] = gm
        it.user_hooks['ext:numpy.log10'] = Builtin('log10', lambda i, a, k: z3.ToReal(p))
        eng.assumptions.add('int(log10(options.gmin)) is an integer not above zero, for 0 < gmin < 1')
        r = it.unpack(it.call(it.qual(D + 'get_solve_methods'), [], {}), 3)
        for (a, b), d in zip(METHODS, r):
            d = it.force(d)
            eng.prove(zand(znot(bz(it, d.d['enabled'])), znot(bz(it, d.d['failed']))), 'get_solve_methods.nothing_tried_yet')
            if a == 'standard_solving':
                continue
            eng.prove(eqz(d.d['index'], 0), 'get_solve_methods.starts_at_the_first_step')
            n = to_int(it.bi_len([d.d['factors']], {}))
            eng.prove(n >= 1, 'get_solve_methods.has_steps')
            last = to_real(it.getitem(d.d['factors'], n - 1))
            eng.prove(last == (0 if a == 'gmin_stepping' else 1), 'get_solve_methods.%s_ends_at_the_full_problem' % a)
        eng.cover('get_solve_methods.returns')
    eng.explore(driver)


def gmin_matrix(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, [])
        n, g = z3.Int('n'), z3.Real('g')
        eng.assume(n >= m.nn - 1)
        r = it.call(it.qual(D + 'build_gmin_matrix'), [m.circ, g, n, 0], {})
        i, j = z3.Int('i'), z3.Int('j')
        eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        eng.prove(zand(eqz(r.shape[0], n), eqz(r.shape[1], n)), 'build_gmin_matrix.shape')
        eng.prove(to_real(r.fn(i, j)) == z3.If(z3.And(i == j, i < m.nn - 1), g, 0),
                  'build_gmin_matrix.conductance_from_every_node_to_ground')
        eng.cover('build_gmin_matrix.returns')
    eng.explore(driver)


class Solver(object):
    """contract of the single solve: any outcome"""

    def __init__(self, it, n, raises=True):
        self.it, self.n, self.last, self.calls, self.raises = it, n, None, 0, raises

    def __call__(self, it, a, kw):
        eng = it.eng
        names = ('x', 'mna', 'circ', 'T', 'MAXIT', 'nv', 'locked_nodes', 'time')
        got = dict(zip(names, a))
        got.update(kw)
        self.calls += 1
        self.last = got
        way = eng.decide(4, None, 'solve') if self.raises else 0
        if way:
            got['converged'] = False
            from pyvc.extern import LinAlgError
            it.raise_py((None, LinAlgError, RuntimeError, OverflowError)[way])
        c = z3.Bool(eng.fresh('converged'))
        k = z3.Int(eng.fresh('n_iter'))
        eng.assume(k >= 0)
        X, E = uf(eng.fresh('xs'), Z, R), uf(eng.fresh('err'), Z, R)
        got['converged'] = c
        got['n_iter'] = k
        got['xnew'] = it.arr((self.n, 1), lambda i, j: X(to_int(i)))
        got['err'] = it.arr((self.n, 1), lambda i, j: E(to_int(i)))
        return (got['xnew'], got['err'], c, k, VList(eng, []))


def loop_contract(it, use, s):
    eng = it.eng
    u = [use[a] for a, _ in METHODS]

    def dicts(fr):
        return [it.force(fr.locals[a]) for a, _ in METHODS]

    def havoc(it, fr):
        for d in dicts(fr):
            for k in list(d.d):
                if k in ('enabled', 'failed'):
                    d.d[k] = z3.Bool(eng.fresh(k))
                elif k == 'index':
                    d.d[k] = z3.Int(eng.fresh('index'))
                elif k != 'factors':
                    raise Unsupported('method record has a field %s' % k)
        X = uf(eng.fresh('guess'), Z, R)
        s.last = None
        fr.locals['x'] = it.arr((s.n, 1), lambda i, j: X(to_int(i)))
        fr.locals['converged'] = z3.Bool(eng.fresh('conv'))
        fr.locals['tot_iterations'] = z3.Int(eng.fresh('tot'))
        fr.locals['convergence_by_node'] = Opaque('convergence_by_node')
        for a, _ in METHODS:
            pass
        s.iters0 = fr.locals['tot_iterations']
        s.fr = fr

    def inv(it, fr, k):
        ds = dicts(fr)
        st = states(it, ds)
        out = [('records_consistent', z3.And(*([z3.Implies(e, z3.And(z3.Not(f), u[i])) for i, (e, f) in enumerate(st)] +
                                               [z3.Not(z3.And(st[i][0], st[j][0])) for i in range(3) for j in range(i)] +
                                               [z3.Implies(f, u[i]) for i, (e, f) in enumerate(st)]))),
               ('a_method_is_enabled', z3.Or(*[e for e, f in st]))]
        for d, nm in zip(ds[1:], ('gmin', 'source')):
            n = to_int(it.bi_len([d.d['factors']], {}))
            ix = to_int(d.d['index'])
            out.append((nm + '_step_in_range', z3.And(ix >= 0, ix < n)))
        out.append(('iterations_counted', to_int(fr.locals['tot_iterations']) >= 0))
        # nothing is kept as solved unless the last solve was of the unmodified problem
        return out

    def variant(it, fr):
        ds = dicts(fr)
        v = z3.IntVal(0)
        for d in ds:
            v = v + z3.If(bz(it, d.d['failed']), 0, 1)
            if 'factors' in d.d:
                v = v + to_int(it.bi_len([d.d['factors']], {})) - 1 - to_int(d.d['index'])
        return z3.simplify(v)
    return LoopSpec('dc_solve.loop', ['x', 'converged', 'tot_iterations', 'convergence_by_node'] + [a for a, _ in METHODS],
                    havoc, inv, variant, lambda it, fr: [('dict', d.id) for d in dicts(fr)])


def dc_solve(eng, sources, gmin, ntran):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['VSource', 'ISource', 'Resistor', 'EVSource'] if sources else [])
        use = options(it)
        n = z3.Int('n')
        eng.assume(n == m.nn - 1 + m.vcnt(m.N))
        s = Solver(it, n, not sources)
        it.overrides[D + 'mdn_solver'] = s
        ov = it.overrides
        lock = VList(eng, [])
        ov['ahkab.circuit.Circuit.get_locked_nodes'] = lambda i, a, k: lock

        def methods(i, a, k):
            # contract of get_solve_methods (proved)
            ds = method_dicts(it)
            for (a_, b_), d in zip(METHODS, ds):
                d.d['enabled'] = d.d['failed'] = False
                if 'factors' in d.d:
                    d.d['index'] = 0
                    nf = to_int(it.bi_len([d.d['factors']], {}))
                    eng.assume(nf >= 1)
                    eng.assume(to_real(it.getitem(d.d['factors'], nf - 1)) == (0 if a_ == 'gmin_stepping' else 1))
            return tuple(ds)
        ov[D + 'get_solve_methods'] = methods

        def gm(i, a, k):
            # contract of build_gmin_matrix (proved)
            g, size = to_real(i.force(a[1])), a[2]
            return i.arr((size, size), lambda p, q: z3.If(zbool(zand(eqz(p, q), to_int(p) < m.nn - 1)), g, z3.RealVal(0)))
        ov[D + 'build_gmin_matrix'] = gm
        excv = uf('waveform', Z, R, R)
        wave = lambda i, a, k: excv(a[0].tag[1], to_real(i.force(a[1])))
        ov['ahkab.components.sources.VSource.VSource.V'] = wave
        ov['ahkab.components.sources.ISource.ISource.I'] = wave
        it.loop_specs[D + 'dc_solve'] = lambda st, fr: loop_contract(it, use, s) if 'converged' in ast_names(st) else None
        A, NN, G, NT, X0 = uf('mna', Z, Z, R), uf('Ndc', Z, R), uf('Gmin', Z, Z, R), uf('Ntran', Z, R), uf('x0', Z, R)
        mna = it.arr((n, n), lambda i, j: A(to_int(i), to_int(j)))
        N = it.arr((n, 1), lambda i, j: NN(to_int(i)))
        t = z3.Real('t')
        kw = {'verbose': 0, 'time': t, 'skip_Tt': not sources, 'MAXIT': z3.Int('maxit')}
        if gmin:
            kw['Gmin'] = it.arr((n, n), lambda i, j: G(to_int(i), to_int(j)))
        if ntran:
            kw['Ntran'] = it.arr((n, 1), lambda i, j: NT(to_int(i)))
        kw['x0'] = it.arr((n, 1), lambda i, j: X0(to_int(i)))
        try:
            r = it.call(it.qual(D + 'dc_solve'), [mna, N, m.circ], kw)
        except PyExc as e:
            eng.prove(False, 'dc_solve.no_exception', str(e))
            return
        x, err, conv, iters = it.unpack(r, 4)
        c = bz(it, conv)
        i, j = z3.Int('i'), z3.Int('j')
        if s.last is None:
            eng.prove(z3.Not(c), 'dc_solve.nothing_solved_means_failure')
            eng.prove(x is None and err is None, 'dc_solve.failure_has_no_solution')
            eng.prove(z3.Not(z3.Or(*use.values())), 'dc_solve.gives_up_only_when_every_method_was_tried')
            eng.cover('dc_solve.no_method')
            return
        if eng.branch(c):
            eng.cover('dc_solve.success')
            L = s.last
            eng.prove(zbool(L['converged']), 'dc_solve.success_only_when_the_last_solve_converged')
            eng.prove(x is L['xnew'] and err is L['err'], 'dc_solve.returns_what_was_solved')
            eng.prove(to_int(iters) == s.iters0 + L['n_iter'], 'dc_solve.counts_the_iterations')
            eng.prove(it.force(L['circ']) is m.circ and L['time'] is t and L['locked_nodes'] is lock,
                      'dc_solve.solves_this_circuit_at_this_time')
            eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            M, T = it.force(L['mna']), it.force(L['T'])
            eng.prove(zand(eqz(M.shape[0], n), eqz(M.shape[1], n), eqz(T.shape[0], n)), 'dc_solve.shapes')
            eng.prove(to_real(M.fn(i, j)) == A(i, j) + (G(i, j) if gmin else 0), 'dc_solve.success_has_no_artificial_conductance')
            exp = NN(i) + (NT(i) if ntran else 0)
            if not sources:
                eng.prove(to_real(T.fn(i, 0)) == exp, 'dc_solve.success_has_sources_at_full_value')
            else:
                k = z3.Int('ks')
                f = m.f
                law = z3.If(m.is_(k, 'ISource'), excv(k, t) * (dl(i + 1, f['n1'](k)) - dl(i + 1, f['n2'](k))), 0)
                law = z3.If(m.is_(k, 'VSource'), -excv(k, t) * dl(i + 1, m.row(k)), law)
                law = z3.If(f['tdep'](k), law, z3.RealVal(0))
                S = it.fold_register('Tt_spec', k, [i], law, m.N, match=False)
                it.prove_fold_zero(to_real(T.fn(i, 0)) - exp - it.fold_at(S, m.N, [i]), m.N,
                                   'dc_solve.success_has_time_dependent_sources_at_their_value',
                                   [(nm, (lambda q: (lambda kk: m.cls(kk) == q))(m.code[nm])) for nm in m.names],
                                   hyps=[lambda kk: (m.elem_facts(kk), z3.BoolVal(True))[1]])
        else:
            eng.cover('dc_solve.failure')
            eng.prove(x is None and err is None, 'dc_solve.failure_has_no_solution')
            st = states(it, [it.force(s.fr.locals[a]) for a, _ in METHODS])
            eng.prove(z3.And(*[z3.Implies(use[a], z3.Or(*st[q])) for q, (a, _) in enumerate(METHODS)]),
                      'dc_solve.gives_up_only_when_every_method_was_tried')
    eng.explore(driver)


def op_analysis(eng, guess):
    """the reported operating point solves the assembled equations of this circuit,
    without any artificial conductance or with exactly the documented one"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, [])
        n, gm = z3.Int('n'), z3.Real('gmin')
        eng.assume(n >= m.nn - 1)
        ov = it.overrides
        it.mod_overrides['ahkab.options.gmin'] = gm
        it.mod_overrides['ahkab.options.dc_use_guess'] = z3.Bool('dc_use_guess')
        it.mod_overrides['ahkab.options.cli'] = z3.Bool('cli')
        A, NN, G = uf('A', Z, Z, R), uf('N', Z, R), uf('guess', Z, R)
        made = []

        def mk(i, a, k):
            made.append(it.force(a[0]) is m.circ)
            return (i.arr((n + 1, n + 1), lambda p, q: A(to_int(p), to_int(q))), i.arr((n + 1, 1), lambda p, q: NN(to_int(p))))
        ov[D + 'generate_mna_and_N'] = mk
        ov['ahkab.dc_guess.get_dc_guess'] = lambda i, a, k: i.arr((n, 1), lambda p, q: G(to_int(p)))
        calls = []

        def solve(i, a, k):
            got = dict(zip(('mna', 'Ndc', 'circ', 'Ntran', 'Gmin', 'x0', 'time', 'MAXIT'), a))
            got.update(k)
            c = eng.decide(2, None, 'solved') == 0
            k_ = z3.Int(eng.fresh('n_iter'))
            X, E = uf(eng.fresh('xs'), Z, R), uf(eng.fresh('err'), Z, R)
            got['solved'] = c
            got['n_iter'] = k_
            calls.append(got)
            if not c:
                return (None, None, False, k_)
            got['x'], got['err'] = (i.arr((n, 1), lambda p, q, f=f: f(to_int(p))) for f in (X, E))
            return (got['x'], got['err'], True, k_)
        ov[D + 'dc_solve'] = solve

        def init(i, a, k):
            o = a[0]
            got = dict(zip(('x', 'error', 'circ', 'outfile', 'iterations'), a[1:]))
            got.update(k)
            o.fields.update(got)
            o.fields['gmin'] = gm
        ov['ahkab.results.op_solution.__init__'] = init
        ov['ahkab.results.solution.__len__'] = lambda i, a, k: z3.Int('n_variables')
        eng.assume(z3.Int('n_variables') >= 0)
        ov['ahkab.results.op_solution.write_to_file'] = lambda i, a, k: None
        nb = z3.Int('n_bad')
        eng.assume(nb >= 0)
        ov['ahkab.results.op_solution.gmin_check'] = lambda i, a, k: VList(eng, None, SymSeq(nb, lambda q: Opaque('name'), 'bad'))
        outf = (None, 'stdout', 'some_file')[eng.decide(3, None, 'outfile')]
        kw = {'verbose': 0, 'outfile': outf}
        X0 = None
        if not guess:
            X0 = it.arr((n, 1), lambda p, q: G(to_int(p)))
            kw['x0'] = X0
        try:
            r = it.call(it.qual(D + 'op_analysis'), [m.circ], kw)
        except PyExc as e:
            eng.prove(False, 'op_analysis.no_exception', str(e))
            return
        eng.prove(bool(made) and all(made), 'op_analysis.assembles_this_circuit')
        good = [c for c in calls if c['solved']]
        if r is None:
            eng.cover('op_analysis.failure')
            eng.prove(not calls or not calls[0]['solved'], 'op_analysis.fails_only_when_the_search_failed')
            return
        eng.cover('op_analysis.success')
        f = r.fields
        src = [c for c in good if c['x'] is f.get('x')]
        eng.prove(len(src) == 1, 'op_analysis.reports_a_solution_found')
        if not src:
            return
        c = src[0]
        eng.prove(f['error'] is c['err'] and f['circ'] is m.circ and it.force(c['circ']) is m.circ,
                  'op_analysis.reports_its_own_error_and_circuit')
        i, j = z3.Int('i'), z3.Int('j')
        eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        M, N = it.force(c['mna']), it.force(c['Ndc'])
        eng.prove(zand(eqz(M.shape[0], n), eqz(M.shape[1], n), eqz(N.shape[0], n)), 'op_analysis.shapes')
        eng.prove(to_real(M.fn(i, j)) == A(i + 1, j + 1), 'op_analysis.solves_the_assembled_matrix')
        eng.prove(to_real(N.fn(i, 0)) == NN(i + 1), 'op_analysis.solves_the_assembled_sources')
        eng.prove(c.get('Ntran') is None and c.get('time') is None and not c.get('skip_Tt'), 'op_analysis.sources_at_their_operating_value')
        g = f['gmin']
        if c.get('Gmin') is None:
            eng.prove(eqz(g, 0), 'op_analysis.reported_conductance_is_the_one_used')
            eng.cover('op_analysis.without_conductance')
        else:
            H = it.force(c['Gmin'])
            eng.prove(to_real(H.fn(i, j)) == z3.If(z3.And(i == j, i < m.nn - 1), gm, 0),
                      'op_analysis.only_the_documented_conductance')
            eng.prove(to_real(g) == gm, 'op_analysis.reported_conductance_is_the_one_used')
            eng.prove(not calls[-1]['solved'] and calls[-1].get('Gmin') is None, 'op_analysis.conductance_kept_only_when_needed')
            eng.cover('op_analysis.with_conductance')
        eng.prove(to_int(f['iterations']) == sum(q['n_iter'] for q in good), 'op_analysis.counts_the_iterations')
    eng.explore(driver)


def ast_names(st):
    import ast
    return set(x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)) if isinstance(st, ast.While) else set()


FN = [D[6:] + x for x in ('dc_solve', 'set_next_solve_method', 'more_solve_methods_available', 'get_solve_methods',
                          'build_gmin_matrix')]
PROOFS = {
    'set_next_solve_method': {'fn': set_next, 'timeout': 60, 'functions': FN[1:3]},
    'get_solve_methods': {'fn': start_methods, 'timeout': 60, 'functions': FN[3:4]},
    'build_gmin_matrix': {'fn': gmin_matrix, 'timeout': 60, 'functions': FN[4:]},
    'op_analysis': {'fn': lambda eng: op_analysis(eng, True), 'timeout': 120,
                    'functions': ['dc_analysis.op_analysis', 'utilities.remove_row_and_col', 'utilities.remove_row']},
    'op_analysis_x0': {'fn': lambda eng: op_analysis(eng, False), 'timeout': 120, 'functions': ['dc_analysis.op_analysis']},
    'dc_solve': {'fn': lambda eng: dc_solve(eng, False, True, False), 'timeout': 120, 'functions': FN},
    'dc_solve_tran': {'fn': lambda eng: dc_solve(eng, False, False, True), 'timeout': 120, 'functions': FN},
    'dc_solve_sources': {'fn': lambda eng: dc_solve(eng, True, False, False), 'timeout': 200, 'functions': FN},
}
