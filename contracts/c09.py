"""C09: DC sweeps: the grid, the sweep loop and the restoration of the source."""
import z3
from pyvc.loops import LoopSpec
from .model import *

U = 'ahkab.utilities.'
D_ = 'ahkab.dc_analysis.'


def grid(eng, kind):
    """the k-th value an axis iterator delivers is the k-th point of the requested
    grid, for every number of points; it delivers exactly `points` values"""
    it = new_interp(eng)
    log = kind == 'log'
    q = '%s_axis_iterator' % kind
    lg, pw = uf('log10', R, R), uf('pow', R, R, R)

    def driver():
        lo, hi, points, k = z3.Real('lo'), z3.Real('hi'), z3.Int('points'), z3.Int('k')
        if log:
            eng.assume(z3.And(lo > 0, hi > 0))
        ok = z3.And(points >= 1, z3.Implies(points < 2, lo == hi))
        it.eng.assume(k >= 0)
        C = it.qual(U + q)
        try:
            g = it.call(C, [lo, hi], {'points': points})
        except PyExc as e:
            eng.prove(zand(z3.Not(ok), it.exc_is(e, ValueError)), q + '.rejects_only_impossible_grids', str(e))
            eng.cover(q + '.rejects')
            return
        eng.prove(ok, q + '.rejects_impossible_grids')
        eng.assume(ok)
        if eng.decide(2, None, 'first value'):
            v = it.call(it.getattr(g, '__next__'), [], {})
            eng.prove(to_real(v) == lo, q + '.first_value_is_start')
            eng.cover(q + '.first')
            return
        # the state after k+1 deliveries, for any k: value number k has been delivered
        den = z3.ToReal(points - 1)
        st = z3.Real('current')
        if log:
            step = z3.If(points > 1, (lg(hi) - lg(lo)) / den, z3.RealVal(0))
            spec = lambda j: lg(lo) + z3.ToReal(j) * step
            eng.assume(z3.And(st > 0, lg(st) == spec(k)))
        else:
            step = z3.If(points > 1, (hi - lo) / den, z3.RealVal(0))
            spec = lambda j: lo + z3.ToReal(j) * step
            eng.assume(st == spec(k))
        eng.assume(k < points)
        # a fresh iterator that has delivered k+1 values: the fields it is known to keep
        fl = g.fields
        if not all(x in fl for x in ('index', 'current')):
            raise Unsupported('the iterator keeps its position elsewhere')
        fl['index'], fl['current'] = k + 1, st
        try:
            v = it.call(it.getattr(g, '__next__'), [], {})
        except PyExc as e:
            eng.prove(zand(k + 1 == points, it.exc_is(e, StopIteration)), q + '.stops_after_the_last_point', str(e))
            eng.cover(q + '.stops')
            return
        eng.prove(k + 1 < points, q + '.stops_after_the_last_point')
        eng.assume(k + 1 < points)
        v = to_real(v)
        if log:
            # laws of the logarithm, at the values at hand
            y = (lg(hi) - lg(lo)) / den
            inc = pw(z3.RealVal(10), z3.simplify(y))
            inc0 = to_real(fl['inc'])
            eng.assumptions.add('log10(10**y) = y and log10(a*b) = log10(a) + log10(b) for positive a, b')
            eng.assume(z3.And(inc0 > 0, lg(pw(z3.RealVal(10), z3.simplify(to_real(y)))) == y))
            eng.assume(lg(st * inc0) == lg(st) + lg(inc0))
            eng.prove(z3.And(v > 0, lg(v) == spec(k + 1)), q + '.next_value')
        else:
            eng.prove(v == spec(k + 1), q + '.next_value')
        eng.prove(zand(eqz(fl['index'], k + 2), to_real(fl['current']) == v), q + '.position_recorded')
        eng.prove(z3.Implies(k + 2 == points, spec(k + 1) == (lg(hi) if log else hi)), q + '.last_point_is_stop')
        eng.cover(q + '.next')
    eng.explore(driver)


def low_eq(a, b):
    return upper(a) == upper(b)


def sweep(eng, etype, ty):
    """dc_analysis for every circuit, source name, range, step and sweep type: each
    reported value is paired with the operating point computed while the source
    had that value; the source has its own value afterwards on every path"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['VSource', 'ISource', 'Resistor'])
        n = z3.Int('n')
        start, stop, step = z3.Real('start'), z3.Real('stop'), z3.Real('step')
        sid = z3.Const('source', Name)
        s = z3.simplify(idxof(upper(sid)))
        eng.assume(step != 0)
        ov, mo = it.overrides, it.mod_overrides
        eng.cache['initials'] = {sid.sexpr(): etype}
        skip = z3.Bool('skip_allowed')
        mo['ahkab.options.dc_sweep_skip_allowed'] = skip
        W = uf('grid', Z, R)
        made, sols = [], []
        st = {'k': None, 'x': None, 'lines': z3.IntVal(0), 'used': z3.IntVal(0), 'last': None, 'failed': False}
        vals = [('start', start), ('stop', stop), ('step', step)]

        def mkgrid(kind):
            def f(i, a, k):
                got = dict(zip(('min', 'max', 'points'), a))
                got.update(k)
                made.append(kind)
                a0, a1, p = to_real(got['min']), to_real(got['max']), got['points']
                eng.prove(a0 == start, 'dc_analysis.grid_begins_at_start')
                if kind == 'lin':
                    pr = to_real(p)
                    want = (stop - start) / step + 1
                    tol = z3.Q(1, 100000)
                    eng.prove(pr == z3.ToReal(z3.ToInt(pr)), 'dc_analysis.whole_number_of_points')
                    eng.prove(z3.If(start == stop, pr == 1, z3.And(pr <= want + tol, pr > want - 1 - tol)),
                              'dc_analysis.every_grid_point_inside_the_range')
                    d = (a1 - a0) - step * (pr - 1)
                    astep = z3.If(step > 0, step, -step)
                    eng.prove(z3.And(d <= tol * astep, -d <= tol * astep), 'dc_analysis.grid_spacing_is_the_step')
                else:
                    pr = to_real(p)
                    eng.prove(a1 == stop, 'dc_analysis.log_grid_ends_at_stop')
                np_ = z3.Int(eng.fresh('points'))
                eng.assume(z3.And(np_ >= 1, z3.ToReal(np_) >= pr, z3.ToReal(np_) < pr + 1))
                if eng.decide(2, None, 'grid impossible'):
                    eng.assume(z3.Or(pr < 1, z3.And(pr < 2, a0 != a1)))
                    i.raise_py(ValueError, 'grid')
                eng.assume(z3.And(pr >= 1, z3.Implies(pr < 2, a0 == a1)))
                st['points'] = np_
                eng.forget({'start', 'stop', 'step', pr.decl().name() if z3.is_const(pr) else 'start'})
                eng.assume(np_ >= 1)
                return VList(eng, None, SymSeq(np_, lambda q: W(to_int(q)), 'grid'))
            return Builtin(kind, f)
        mo[U + 'lin_axis_iterator'], mo[U + 'log_axis_iterator'] = mkgrid('lin'), mkgrid('log')
        cname = 'VSource' if etype == 'v' else 'ISource'
        m.elem_facts(s)
        named = z3.And(s >= 0, s < m.N, upper(m.f['pid'](s)) == upper(sid), m.is_(s, cname))

        def src():
            # the objects standing for the source: those whose index is known to be s
            out = [o for o in eng.objs.values() if isinstance(o, Obj) and isinstance(o.tag, tuple) and o.tag[0] == 'elem'
                   and 'dc_value' in o.fields and eng.valid(o.tag[1] == s)[0] == 'proved']
            if not out:
                raise Unsupported('the source is not reached through the circuit')
            return out

        def value():
            vs = [to_real(it.force(o.fields['dc_value'])) for o in src()]
            ch = [v for v in vs if not z3.eq(v, m.f['dc'](s)) and eng.valid(v == m.f['dc'](s))[0] != 'proved']
            return ch[0] if ch else m.f['dc'](s)

        def op(i, a, k):
            got = dict(zip(('circ', 'x0', 'guess'), a))
            got.update(k)
            eng.prove(i.force(got['circ']) is m.circ, 'dc_analysis.solves_this_circuit')
            eng.prove(value() == W(st['used']), 'dc_analysis.source_has_the_swept_value_while_solving')
            st['now'] = st['used']
            st['used'] = z3.simplify(st['used'] + 1)
            c = eng.decide(3, None, 'op')
            if c == 2:
                i.raise_py(RuntimeError, 'solver failed')
            if c == 1:
                st['last'] = None
                eng.assume(z3.BoolVal(True))
                st['skips'] = z3.BoolVal(True)
                return None
            st['last'] = Obj(eng, ExtClass(object), {})
            return st['last']
        ov[D_ + 'op_analysis'] = op

        def init(i, a, k):
            sols.append((a[0], dict(zip(('circ', 'start', 'stop', 'sweepvar', 'stype', 'outfile'), a[1:]), **k)))
        ov['ahkab.results.dc_solution.__init__'] = init

        def add(i, a, k):
            eng.prove(len(sols) == 1 and a[0] is sols[0][0], 'dc_analysis.one_result_set')
            x = i.force(a[2])
            eng.prove(st['last'] is not None and x is st['last'], 'dc_analysis.reports_the_solution_just_computed')
            eng.prove(to_real(a[1]) == W(st['now']), 'dc_analysis.filed_under_the_swept_value')
            st['last'] = None
            st['lines'] = z3.simplify(st['lines'] + 1)
            eng.cover('dc_analysis.line')
        ov['ahkab.results.dc_solution.add_op'] = add

        def havoc(i, fr):
            fr.locals['x'] = Obj(eng, ExtClass(object), {}) if eng.decide(2, None, 'previous') else None
            fr.locals['index'] = z3.Int(eng.fresh('index'))
            fr.locals['solved'] = z3.Bool(eng.fresh('solved'))
            st['lines'], st['used'] = z3.Int(eng.fresh('lines')), z3.Int(eng.fresh('used'))
            st['last'] = None
            for o in src():
                o.fields['dc_value'] = z3.Real(eng.fresh('dc_value'))

        def inv(i, fr, k):
            so = fr.locals.get('solved')
            return [('one_operating_point_per_value', st['used'] == k),
                    ('no_solution_lost', z3.BoolVal(st['last'] is None)),
                    ('lines_so_far', z3.And(st['lines'] >= 0, st['lines'] <= k, z3.Implies(z3.Not(skip), st['lines'] == k))),
                    ('solved_iff_something_reported', as_bool(i, so) == (st['lines'] > 0))]

        def spec(stm, fr):
            import ast
            if any(isinstance(x, ast.Name) and x.id == 'op_analysis' for x in ast.walk(stm)) or \
               any(isinstance(x, ast.Attribute) and x.attr == 'add_op' for x in ast.walk(stm)):
                return LoopSpec('dc_analysis.loop', ['x', 'index', 'solved'], havoc, inv,
                                frame=lambda i, fr: [('attr', o.id, 'dc_value') for o in src()])
            return None
        it.loop_specs[D_ + 'dc_analysis'] = spec
        kw = {'sweep_type': ty, 'outfile': 'f', 'verbose': 0, 'x0': None}
        dc0 = m.f['dc'](s)
        r, exc = None, None
        try:
            r = it.call(it.qual(D_ + 'dc_analysis'), [m.circ, start, stop, step, sid], kw)
        except PyExc as e:
            exc = e
        kind = {'LIN': 'lin', 'lin': 'lin', 'LOG': 'log', 'logarithmic': 'log'}.get(ty)
        eng.prove(all(x == kind for x in made), 'dc_analysis.requested_kind_of_grid')
        if eng.branch(named):
            if st['used'] is not None and not z3.eq(st['used'], z3.IntVal(0)):
                eng.prove(value() == dc0, 'dc_analysis.source_restored')
        else:
            eng.prove(exc is not None, 'dc_analysis.unknown_source_is_rejected')
            eng.cover('dc_analysis.unknown_source')
            return
        if exc is not None:
            eng.cover('dc_analysis.exception')
            return
        eng.prove(kind is not None, 'dc_analysis.unknown_sweep_is_rejected')
        if r is None:
            eng.prove(z3.Or(st['lines'] == 0, z3.Not(skip)), 'dc_analysis.no_result_only_when_unsolved')
            eng.cover('dc_analysis.failure')
            return
        eng.cover('dc_analysis.success')
        eng.prove(len(sols) == 1 and r is sols[0][0] and it.force(sols[0][1]['circ']) is m.circ, 'dc_analysis.returns_the_result_set')
        eng.prove(z3.And(st['lines'] > 0, z3.Implies(z3.Not(skip), st['lines'] == st['points'])), 'dc_analysis.every_value_reported')
    eng.explore(driver)


def as_bool(it, v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


PROOFS = {
    'lin_axis_iterator': {'fn': lambda eng: grid(eng, 'lin'), 'timeout': 60, 'functions': ['utilities.lin_axis_iterator']},
    'log_axis_iterator': {'fn': lambda eng: grid(eng, 'log'), 'timeout': 60, 'functions': ['utilities.log_axis_iterator']},
}
for _e in 'vi':
    for _t in ('LIN', 'LOG', 'lin', 'logarithmic', 'foo'):
        PROOFS['dc_analysis.%s.%s' % (_e, _t)] = {'fn': (lambda eng, e=_e, t=_t: sweep(eng, e, t)), 'timeout': 120,
                                                  'functions': ['dc_analysis.dc_analysis']}


def add_op(eng):
    it = new_interp(eng)

    def driver():
        n = z3.Int('n')
        eng.assume(n >= 0)
        F = uf('x', Z, R)
        x = it.arr((n, 1), lambda p, q: F(to_int(p)))
        v = z3.Real('value')
        o = Obj(eng, it.qual('ahkab.results.dc_solution'), {})
        got = []
        for q in ('ahkab.results._mutable_data._add_data', 'ahkab.results.solution._add_data'):
            it.overrides[q] = lambda i, a, k: got.append(i.force(a[1]))
        op = Obj(eng, ExtClass(object), {'asarray': Builtin('asarray', lambda i, a, k: x)})
        it.call(it.getattr(o, 'add_op'), [v, op], {})
        eng.prove(len(got) == 1 and isinstance(got[0], SArr), 'add_op.adds_one_line')
        d = got[0]
        eng.prove(zand(eqz(d.shape[0], n + 1), eqz(d.shape[1], 1)), 'add_op.size')
        i = z3.Int('i')
        eng.assume(z3.And(i >= 0, i < n))
        eng.prove(to_real(it._sc(it.arr_get(d, (0, 0)))) == v, 'add_op.sweep_value_first')
        eng.prove(to_real(it._sc(it.arr_get(d, (i + 1, 0)))) == F(i), 'add_op.then_the_operating_point')
        eng.cover('add_op')
    eng.explore(driver)


PROOFS['add_op'] = {'fn': add_op, 'timeout': 30, 'functions': ['results.dc_solution.add_op']}
