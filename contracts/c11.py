"""C11: transient stepping.

transient_analysis is verified against the contracts of dc_solve (C08), of the
integration formulas (C12), of the matrices (C01, C02) and of the history
buffer (proved here): any of them may answer anything its contract allows, in
any order of accepted and rejected steps."""
import ast
import z3
from pyvc.loops import LoopSpec
from .model import *

T_ = 'ahkab.transient.'


def check_step(eng):
    it = new_interp(eng)

    def driver():
        s, t, stop, hmax, hmin = [z3.Real(x) for x in ('tstep', 'time', 'tstop', 'HMAX', 'hmin')]
        it.mod_overrides['ahkab.options.hmin'] = hmin
        eng.assume(z3.And(hmin > 0, hmax > 0, t < stop))
        want = z3.If(s > hmax, hmax, s)
        want = z3.If(stop - t < want, stop - t, want)
        try:
            r = to_real(it.call(it.qual(T_ + 'check_step'), [s, t, stop, hmax], {}))
        except PyExc as e:
            eng.prove(zand(it.exc_is(e, ValueError), want < hmin), 'check_step.fails_only_when_the_step_is_too_small', str(e))
            eng.cover('check_step.fails')
            return
        eng.prove(r == want, 'check_step.clips_to_the_limits')
        eng.prove(r > 0, 'check_step.positive')
        eng.cover('check_step.returns')
    eng.explore(driver)


def dfbuffer(eng):
    """the buffer holds the newest entries, newest first, up to its length"""
    it = new_interp(eng)

    def driver():
        L, n = z3.Int('length'), z3.Int('stored')
        eng.assume(z3.And(L >= 1, n >= 0, n <= L))
        H = [uf('entry%d' % q, Z, R) for q in range(3)]
        b = it.call(it.qual(T_ + 'dfbuffer'), [], {'length': L, 'width': 3})
        v0 = it.call(it.getattr(b, 'get_df_vector'), [], {})
        eng.prove(eqz(it.bi_len([v0], {}), 0), 'dfbuffer.starts_empty')
        old = VList(eng, None, SymSeq(n, lambda i: tuple(h(to_int(i)) for h in H), 'stored'))
        fl = [k for k, v in b.fields.items() if it.force(v) is it.force(v0)]
        if len(fl) != 1:
            raise Unsupported('the buffer keeps its entries elsewhere')
        b.fields[fl[0]] = old
        x = [z3.Real('new%d' % q) for q in range(3)]
        if eng.decide(2, None, 'width'):
            try:
                it.call(it.getattr(b, 'add'), [tuple(x[:2])], {})
                eng.prove(False, 'dfbuffer.wrong_width_is_rejected')
            except PyExc as e:
                eng.prove(it.exc_is(e, ValueError), 'dfbuffer.wrong_width_is_rejected')
            eng.cover('dfbuffer.rejects')
            return
        it.call(it.getattr(b, 'add'), [tuple(x)], {})
        v = it.call(it.getattr(b, 'get_df_vector'), [], {})
        n1 = to_int(it.bi_len([v], {}))
        eng.prove(n1 == z3.If(n + 1 <= L, n + 1, L), 'dfbuffer.keeps_the_newest_entries')
        i = z3.Int('i')
        eng.assume(z3.And(i >= 0, i < n1))
        e = it.unpack(it.getitem(v, i), 3)
        for q in range(3):
            eng.prove(to_real(e[q]) == z3.If(i == 0, x[q], H[q](i - 1)), 'dfbuffer.newest_first')
        r = it.truth(it.call(it.getattr(b, 'isready'), [], {}))
        eng.prove((z3.BoolVal(r) if isinstance(r, bool) else r) == (n1 == L), 'dfbuffer.isready')
        eng.cover('dfbuffer.add')
    eng.explore(driver)


class History(object):
    """ghost: the points accepted so far, number 0 is the initial condition"""

    def __init__(self, it, n):
        self.it, self.eng, self.n = it, it.eng, n
        self.T, self.X, self.DX = uf('t_hist', Z, R), uf('x_hist', Z, Z, R), uf('dx_hist', Z, Z, R)
        self.lines = z3.IntVal(0)
        self.pend = None
        self.bufs = []
        self.eng.facts_once.add('none')

    def col(self, F, j):
        return self.it.arr((self.n, 1), lambda p, q: F(j, to_int(p)))

    def entry(self, j):
        if self.eng.branch(j == 0):
            return (self.T(j), self.col(self.X, j), None)
        return (self.T(j), self.col(self.X, j), self.col(self.DX, j))


def same(eng, a, b, n, name, i):
    """two columns agree in every entry"""
    if a is b:
        eng.prove(True, name)
        return
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        eng.prove(False, name)
        return
    eng.prove(zand(*[eqz(p, q) for p, q in zip(a.shape, b.shape)] + [len(a.shape) == len(b.shape)]), name + '_shape')
    z = (i, 0) if len(a.shape) == 2 else (i,)
    eng.prove(z3.Implies(z3.And(i >= 0, i < n), to_real(a.fn(*z)) == to_real(b.fn(*z))), name)


def transient(eng, method, control, given, x0kind, points=False):
    it = new_interp(eng)
    nm = 'transient_analysis'

    def driver():
        m = CircuitModel(it, [])
        n = z3.Int('n')
        ov, mo, hooks = it.overrides, it.mod_overrides, it.user_hooks
        tstart, tstep, tstop = z3.Real('tstart'), z3.Real('tstep'), z3.Real('tstop')
        hmin = z3.Real('hmin')
        eng.assume(z3.And(n >= m.nn - 1, n >= 0, tstart < tstop, tstep > 0, hmin > 0))
        mo['ahkab.options.hmin'] = hmin
        for o in ('vea', 'ver', 'iea', 'ier', 'transient_aposteriori_step_threshold', 'gmin'):
            v = mo['ahkab.options.' + o] = z3.Real(o)
            eng.assume(v > 0)
        for o in ('transient_prediction_as_x0', 'transient_use_aposteriori_step_control'):
            mo['ahkab.options.' + o] = z3.Bool(o)
        mo['ahkab.options.transient_no_step_control'] = False
        mo['ahkab.options.transient_max_time_iter'] = mti = z3.Int('max_time_iter')
        mo['ahkab.options.transient_max_nr_iter'] = z3.Int('max_nr_iter')
        eng.assume(mti >= 0)
        A, DD, NN, X0 = uf('A', Z, Z, R), uf('D', Z, Z, R), uf('N', Z, R), uf('x0', Z, R)
        full = lambda F: (lambda i, a, k: i.arr((n + 1, n + 1), lambda p, q: F(to_int(p), to_int(q))))
        calls = []

        def mk(i, a, k):
            calls.append(i.force(a[0]) is m.circ)
            return (i.arr((n + 1, n + 1), lambda p, q: A(to_int(p), to_int(q))), i.arr((n + 1, 1), lambda p, q: NN(to_int(p))))
        ov['ahkab.dc_analysis.generate_mna_and_N'] = mk

        def mkd(i, a, k):
            calls.append(i.force(a[0]) is m.circ)
            sh = [to_int(x) for x in i.as_seq(a[1])]
            eng.prove(z3.And(*[x == n for x in sh]), nm + '.size_of_the_dynamic_matrix')
            return i.arr((n + 1, n + 1), lambda p, q: DD(to_int(p), to_int(q)))
        ov[T_ + 'generate_D'] = mkd
        gmat = it.arr((n, n), lambda p, q: z3.RealVal(0))
        ov['ahkab.dc_analysis.build_gmin_matrix'] = lambda i, a, k: gmat
        lock = VList(eng, [])
        ov['ahkab.circuit.Circuit.get_locked_nodes'] = lambda i, a, k: lock
        h = History(it, n)
        i_, j_ = z3.Int('i'), z3.Int('j')
        mod = {'IMPLICIT_EULER': 'implicit_euler', 'TRAP': 'trap', None: 'trap'}.get(method and method.upper(), 'gear')
        st = {'df': None, 'dots': [], 'ops': [], 'sol': []}

        # contract of dfbuffer (proved)
        def newbuf(i, a, k):
            got = dict(zip(('length', 'width'), a))
            got.update(k)
            b = {'L': to_int(got['length']), 'w': got['width'], 'cnt': z3.IntVal(0), 'x': None}

            def add(i2, a2, k2):
                t = i.unpack(a2[0], b['w'])
                if len(h.bufs) and b is h.bufs[0]:
                    if b['x'] is None and z3.eq(b['cnt'], z3.IntVal(0)):
                        eng.prove(zand(to_real(t[0]) == tstart, t[2] is None), nm + '.history_begins_at_the_start')
                        same(eng, i.force(t[1]), st['x0'], n, nm + '.history_begins_with_the_initial_condition', i_)
                    else:
                        p = accept('history')
                        if p is not None:
                            eng.prove(to_real(t[0]) == p['t'], nm + '.history_keeps_the_accepted_time')
                            same(eng, i.force(t[1]), p['x'], n, nm + '.history_keeps_the_accepted_solution', i_)
                            same(eng, i.force(t[2]), p['dx'], n, nm + '.history_keeps_the_derivative_of_the_step', i_)
                else:
                    if z3.eq(b['cnt'], z3.IntVal(0)):
                        same(eng, i.force(t[0]), st['x0'], n, nm + '.output_begins_with_the_initial_condition', i_)
                    else:
                        p = accept('output')
                        if p is not None:
                            same(eng, i.force(t[0]), p['x'], n, nm + '.output_is_the_accepted_solution', i_)
                b['cnt'] = z3.simplify(b['cnt'] + 1)

            def vec(i2, a2, k2):
                ln = z3.If(b['cnt'] <= b['L'], b['cnt'], b['L'])
                last = z3.simplify(b['cnt'] - 1)
                return VList(eng, None, SymSeq(z3.simplify(ln), lambda q: h.entry(z3.simplify(last - to_int(q))), 'history'))

            def mat(i2, a2, k2):
                return st.setdefault('matrix', Obj(eng, ExtClass(object), {}))
            h.bufs.append(b)
            return Obj(eng, ExtClass(object), {'add': Builtin('add', add), 'get_df_vector': Builtin('get_df_vector', vec),
                                               'get_as_matrix': Builtin('get_as_matrix', mat)})
        mo[T_ + 'dfbuffer'] = Builtin('dfbuffer', newbuf)

        def accept(what):
            p = h.pend
            eng.prove(p is not None and what not in p['done'], nm + '.only_converged_steps_reach_the_' + what)
            if p is not None:
                p['done'].add(what)
            return p

        # contract of the integration formulas (C12): any coefficients
        req = {'IE': ((0, None), (1, None)), 'TRAP': ((0, 0), (2, None))}

        def formula(which):
            def f(i, a, k):
                got = dict(zip(('pv_array', 'suggested_step', 'predict'), a))
                got.update(k)
                mm = h.lines
                hist = i.force(got['pv_array'])
                ln = to_int(i.bi_len([hist], {}))
                step = to_real(got['suggested_step'])
                pred = i.truth(i.force(got.get('predict', False)))
                pz = z3.BoolVal(pred) if isinstance(pred, bool) else pred
                (mx, mdx), (px, pdx) = st['req'] if which == 'df' else req['IE']
                (rx, rdx) = st['req'][0]
                need = max(0 if rx is None else rx, 0 if rdx is None else rdx + 1)
                if which == 'df' and mod == 'gear':
                    eng.prove(eqz(i.qual('ahkab.gear.order'), int(method[4:])), nm + '.order_of_the_chosen_formula')
                if which == 'df':
                    cs = [mm >= need]
                    for v, e in ((mx, 0), (mdx, 0)):
                        if v is not None:
                            cs.append(ln >= v + 1)
                    for v, e in ((px, 0), (pdx, 1)):
                        if v is not None:
                            cs.append(z3.Implies(pz, z3.And(ln >= v + 1, mm >= v + e)))
                    eng.prove(z3.And(*cs), nm + '.formula_has_the_history_it_needs')
                else:
                    eng.prove(z3.And(ln >= 1, z3.Or(z3.BoolVal(mod == 'implicit_euler'), mm < need)), nm + '.startup_formula_only_while_history_is_missing')
                    eng.prove(z3.Implies(pz, z3.And(ln >= 2)), nm + '.startup_prediction_has_its_history')
                q = z3.Int(eng.fresh('q'))
                # entry q of the history handed over is the q-th newest accepted point
                if hist.items is not None if isinstance(hist, VList) else isinstance(hist, tuple):
                    ents = list(enumerate(hist.items if isinstance(hist, VList) else hist))
                else:
                    eng.assume(z3.And(q >= 0, q < ln))
                    ents = [(q, i.getitem(hist, q))]
                for q_, e in ents:
                    t, x, dx = i.unpack(e, 3)
                    w = h.entry(z3.simplify(mm - to_int(q_)))
                    eng.prove(to_real(t) == w[0], nm + '.formula_gets_the_accepted_times')
                    same(eng, i.force(x), w[1], n, nm + '.formula_gets_the_accepted_points', i_)
                    eng.prove((i.force(dx) is None) == (w[2] is None), nm + '.formula_gets_the_accepted_derivatives')
                    if w[2] is not None and i.force(dx) is not None:
                        same(eng, i.force(dx), w[2], n, nm + '.formula_gets_the_accepted_derivatives', i_)
                c, C = z3.Real(eng.fresh('C1')), uf(eng.fresh('C0'), Z, R)
                const = i.arr((n, 1), lambda p, q: C(to_int(p)))
                st['df'] = {'h': step, 'c': c, 'const': const}
                st['dots'] = []
                le = z3.Real(eng.fresh('lte_coeff'))
                if (pz if isinstance(pred, bool) is False else pred) is True or (is_z3(pred) and eng.branch(pred)):
                    P = uf(eng.fresh('prediction'), Z, R)
                    pl = z3.Real(eng.fresh('pred_lte_coeff'))
                    eng.assume(pl != le)
                    return (c, const, le, i.arr((n, 1), lambda p, q: P(to_int(p))), pl)
                return (c, const, le, None, None)
            return f
        if mod == 'implicit_euler':
            ov['ahkab.implicit_euler.get_df'] = formula('df')
        else:
            ov['ahkab.implicit_euler.get_df'] = formula('ie')
            ov['ahkab.%s.get_df' % mod] = formula('df')
        if mod == 'gear':
            o = int(method[4:])
            st['req'] = ((o, None), (o, None))
        else:
            st['req'] = req['IE' if mod == 'implicit_euler' else 'TRAP']

        def dot(i, a, b):
            a, b = i.force(a), i.force(b)
            if isinstance(a, SArr) and isinstance(b, SArr) and len(a.shape) == 2 and len(b.shape) == 2:
                F = uf(eng.fresh('dot'), Z, R)
                r = i.arr((a.shape[0], b.shape[1]), lambda p, q: F(to_int(p)))
                st['dots'].append((a, b, r))
                return r
            return NotImplemented
        hooks['dot'] = dot

        def solve(i, a, k):
            names = ('mna', 'Ndc', 'circ', 'Ntran', 'Gmin', 'x0', 'time', 'MAXIT', 'locked_nodes', 'skip_Tt', 'verbose')
            got = dict(zip(names, a))
            got.update(k)
            d = st['df']
            h.pend = None
            if d is None:
                eng.prove(False, nm + '.solves_with_the_formula_of_this_step')
                return (None, None, False, 0)
            t = to_real(got['time'])
            eng.prove(t == h.T(h.lines) + d['h'], nm + '.formula_and_sources_are_for_the_same_step')
            eng.prove(z3.And(d['h'] > 0, d['h'] <= tstep), nm + '.step_within_the_limits')
            M, N_ = i.force(got['mna']), i.force(got['Ndc'])
            inr = z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < n)
            eng.prove(zand(eqz(M.shape[0], n), eqz(M.shape[1], n), eqz(N_.shape[0], n)), nm + '.shapes')
            eng.prove(z3.Implies(inr, to_real(M.fn(i_, j_)) == A(i_ + 1, j_ + 1) + d['c'] * DD(i_ + 1, j_ + 1)), nm + '.static_plus_discretised_dynamic_matrix')
            eng.prove(z3.Implies(inr, to_real(N_.fn(i_, 0)) == NN(i_ + 1)), nm + '.static_excitation')
            nt = i.force(got.get('Ntran'))
            hit = [q for q in st['dots'] if q[2] is nt]
            if not hit:
                raise Unsupported('the history term is not a product computed by numpy')
            pa, pb, _ = hit[0]
            eng.prove(z3.Implies(inr, zbool(zand(eqz(pa.shape[0], n), eqz(pa.shape[1], n), to_real(pa.fn(i_, j_)) == DD(i_ + 1, j_ + 1)))),
                      nm + '.history_term_uses_the_dynamic_matrix')
            same(eng, pb, d['const'], n, nm + '.history_term_uses_the_formula_constant', i_)
            eng.prove(i.force(got['circ']) is m.circ and i.force(got['Gmin']) is gmat, nm + '.solves_this_circuit')
            sk = i.truth(i.force(got.get('skip_Tt', False)))
            eng.prove(zbool(znot(sk)), nm + '.sources_evaluated_at_the_new_time')
            if eng.decide(2, None, 'solve fails'):
                return (None, None, False, z3.Int(eng.fresh('nit')))
            F = uf(eng.fresh('x1'), Z, R)
            x1 = i.arr((n, 1), lambda p, q: F(to_int(p)))
            dx = i.arr((n, 1), lambda p, q: d['c'] * F(to_int(p)) + to_real(d['const'].fn(p, 0)))
            h.pend = {'t': t, 'x': x1, 'dx': dx, 'done': set()}
            eng.assume(h.T(h.lines + 1) == t)
            return (x1, x1, True, z3.Int(eng.fresh('nit')))
        ov['ahkab.dc_analysis.dc_solve'] = solve

        def init(i, a, k):
            st['sol'].append((a[0], dict(zip(('circ', 'tstart', 'tstop', 'op', 'method', 'outfile'), a[1:]), **k)))
        ov['ahkab.results.tran_solution.__init__'] = init

        def opinit(i, a, k):
            got = dict(zip(('x', 'error', 'circ', 'outfile'), a[1:]))
            got.update(k)
            a[0].fields['x'] = got['x']
        ov['ahkab.results.op_solution.__init__'] = opinit
        ov['ahkab.results.op_solution.asarray'] = lambda i, a, k: a[0].fields['x']

        def line(i, a, k):
            p = accept('results')
            if p is None:
                return
            eng.prove(len(st['sol']) == 1 and a[0] is st['sol'][0][0], nm + '.one_result_set')
            eng.prove(to_real(a[1]) == p['t'], nm + '.reported_time_is_the_time_of_the_step')
            same(eng, i.force(a[2]), p['x'], n, nm + '.reported_point_is_the_solution', i_)
            h.lines = z3.simplify(h.lines + 1)
            eng.cover(nm + '.accepted')
        ov['ahkab.results.tran_solution.add_line'] = line

        def havoc(i, fr):
            h.lines = z3.Int(eng.fresh('accepted'))
            for b in h.bufs:
                b['cnt'] = z3.Int(eng.fresh('cnt'))
                b['x'] = True
            h.pend, st['df'], st['dots'] = None, None, []
            X, Y = uf(eng.fresh('xv'), Z, R), uf(eng.fresh('guess'), Z, R)
            fr.locals['x0'] = i.arr((n, 1), lambda p, q: Y(to_int(p)))
            fr.locals['time'], fr.locals['tstep'] = z3.Real(eng.fresh('time')), z3.Real(eng.fresh('step'))
            fr.locals['iter_n'] = z3.Int(eng.fresh('iter_n'))
            eng.assume(h.lines >= 0)
            fr.locals['x'] = None if eng.branch(h.lines == 0) else i.arr((n, 1), lambda p, q: X(to_int(p)))

        def inv(i, fr, k):
            L = fr.locals
            tm, hh = to_real(i.force(L['time'])), to_real(i.force(L['tstep']))
            x = i.force(L['x'])
            half = h.pend is not None and 0 < len(h.pend['done']) < len(h.bufs) + 1
            out = [('time_is_the_last_reported_time', tm == h.T(h.lines)),
                   ('step_within_the_limits', z3.And(hh > 0, hh <= tstep)),
                   ('accepted_points_counted', z3.And(h.lines >= 0, to_int(L['iter_n']) == h.lines)),
                   ('previous_point_known', (h.lines == 0) == z3.BoolVal(x is None)),
                   ('accepted_everywhere_or_nowhere', z3.BoolVal(not half))]
            for b in h.bufs:
                out.append(('history_in_step_with_the_results', b['cnt'] == h.lines + 1))
            return out

        def spec(stm, fr):
            if isinstance(stm, ast.While):
                return LoopSpec(nm + '.loop', ['x', 'x0', 'time', 'tstep', 'iter_n'], havoc, inv)
            return None
        it.loop_specs[nm_q] = spec
        st['x0'] = x0 = it.arr((n, 1), lambda p, q: X0(to_int(p)))
        kw = {'method': method, 'use_step_control': control, 'outfile': 'f', 'verbose': 0}
        if x0kind == 'array':
            kw['x0'] = x0
        elif x0kind == 'op':
            kw['x0'] = Obj(eng, it.qual('ahkab.results.op_solution'), {'x': x0})
        else:
            st['x0'] = it.arr((n, 1), lambda p, q: z3.RealVal(0))
        if given:
            kw['mna'] = it.arr((n, n), lambda p, q: A(to_int(p) + 1, to_int(q) + 1))
            kw['N'] = it.arr((n, 1), lambda p, q: NN(to_int(p) + 1))
            kw['D'] = it.arr((n, n), lambda p, q: DD(to_int(p) + 1, to_int(q) + 1))
        if points:
            kw['return_req_dict'] = VDict(eng, {'points': z3.Int('points')})
        eng.assume(h.T(0) == tstart)
        try:
            r = it.call(it.qual(nm_q), [m.circ, tstart, tstep, tstop], kw)
        except PyExc as e:
            eng.prove(it.exc_is(e, ValueError) and control, nm + '.no_exception_but_step_too_small', str(e))
            eng.cover(nm + '.step_too_small')
            return
        eng.prove(all(calls), nm + '.assembles_this_circuit')
        if r is None:
            eng.cover(nm + '.failure')
            return
        eng.cover(nm + '.success')
        if points:
            eng.prove(r is st.get('matrix'), nm + '.returns_the_last_points')
            eng.prove(len(h.bufs) == 2 and h.bufs[1]['w'] == 1, nm + '.output_buffer')
            eng.prove(h.bufs[1]['L'] == z3.Int('points'), nm + '.output_buffer')
        else:
            eng.prove(len(st['sol']) == 1 and r is st['sol'][0][0], nm + '.returns_the_result_set')
        d = st['sol'][0][1]
        same(eng, it.force(d['op']), st['x0'], n, nm + '.initial_condition_stored', i_)
        eng.prove(zand(to_real(d['tstart']) == tstart, to_real(d['tstop']) == tstop, it.force(d['circ']) is m.circ), nm + '.interval_stored')
        eng.prove(h.T(h.lines) >= tstop, nm + '.covers_the_interval')
    nm_q = T_ + 'transient_analysis'
    eng.explore(driver)


PROOFS = {
    'check_step': {'fn': check_step, 'timeout': 30, 'functions': ['transient.check_step']},
    'dfbuffer': {'fn': dfbuffer, 'timeout': 30, 'functions': ['transient.dfbuffer']},
}
# method, step control, matrices given, initial condition, only the last points asked for
CASES = [('IMPLICIT_EULER', True, False, None, False), ('IMPLICIT_EULER', False, True, 'op', False),
         ('implicit_euler', False, True, 'op', True), (None, True, False, 'array', False), ('trap', False, False, 'op', False),
         ('TRAP', True, True, None, False), ('GEAR1', True, False, 'array', False), ('gear2', True, False, 'op', True),
         ('GEAR2', False, False, None, False), ('GEAR3', True, False, 'array', False), ('GEAR4', True, False, 'op', False),
         ('GEAR5', False, False, None, False), ('GEAR6', True, False, None, False)]
for _c in CASES:
    PROOFS['transient.%s.%s%s' % (_c[0] or 'default', 'control' if _c[1] else 'fixed', '.points' if _c[4] else '')] = {
        'fn': (lambda eng, a=_c: transient(eng, *a)), 'timeout': 240, 'functions': ['transient.transient_analysis']}
