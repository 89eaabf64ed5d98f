"""C24: the matrices whose eigenvalues are the poles and zeros, for circuits of any size.

With G the static matrix, D the dynamic one and K = G + shift*D (C01, C02), every
capacitor and inductor p has a column vector b_p, what one unit of its capacitance or
inductance times the derivative of its variable puts into the equations, and a row
vector w_p that reads its variable, so that D = sum_p value_p b_p w_p.  The matrix
computed is -w_q K^-1 b_p value_p: by Sylvester's determinant identity (not checked here)
K + s D is singular exactly where 1/s is one of its non-zero eigenvalues.
"""
import ast
import z3
from .model import *
from .c01 import cases
from pyvc.engine import PyExc
from pyvc.loops import LoopSpec, apps_of
from pyvc.values import Cx
from pyvc.extern import LinAlgError

P_ = 'ahkab.pz.'
DYN = ('Capacitor', 'Inductor')


def as_cx(v):
    return v if isinstance(v, Cx) else Cx(v, z3.RealVal(0))


def next_shift(eng):
    """the next frequency is further out, until there are none left to try"""
    it = new_interp(eng)

    def driver():
        s, mx = z3.Reals('shift pz_max')
        eng.assume(mx > 0)
        it.mod_overrides['ahkab.options.pz_max'] = mx
        a = z3.If(s >= 0, s, -s)
        try:
            r = it.call(it.qual(P_ + '_next_shift'), [s], {})
        except PyExc as e:
            eng.prove(zand(it.exc_is(e, ValueError), a > mx), '_next_shift.gives_up_only_beyond_the_maximum')
            eng.cover('_next_shift.raises')
            return
        r = to_real(it.force(r))
        eng.prove(z3.Or(r > a, r < -a), '_next_shift.moves_outwards')
        eng.cover('_next_shift.returns')
    eng.explore(driver)


def enlarge(eng):
    """one row and one column of zeros are added, every entry stays"""
    it = new_interp(eng)

    def driver():
        i, j, r, c = z3.Ints('i j r c')
        A = uf('M', Z, Z, R)
        eng.assume(z3.And(r >= 1, c >= 1))
        none = bool(eng.decide(2, None, 'empty'))
        M = None if none else it.arr((r, c), lambda p, q: A(to_int(p), to_int(q)))
        if none:
            eng.assume(z3.And(r == 0, c == 0))
        x = it.force(it.call(it.qual(P_ + '_enlarge_matrix'), [M], {}))
        eng.prove(zand(eqz(x.shape[0], 1 if none else r + 1), eqz(x.shape[1], 1 if none else c + 1)), '_enlarge_matrix.shape')
        rr, cc = (0, 0) if none else (r, c)
        eng.assume(z3.And(i >= 0, i <= rr, j >= 0, j <= cc))
        v = to_real(x.fn(0, 0)) if none else to_real(x.fn(i, j))
        eng.prove(v == (0 if none else z3.If(z3.And(i < r, j < c), A(i, j), 0)), '_enlarge_matrix.entries')
        eng.cover('_enlarge_matrix')
    eng.explore(driver)


def mutual(m, k, c, i):
    ci = m.cd_index(k, c)
    o = m.other(k, ci)
    m.elem_facts(o)
    return -m.f['value'](ci) / m.f['value'](k) * dl(i + 1, m.row(o))


def couplings(eng):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, nonlinear=False)
        k, i, c = z3.Int('k_elem'), z3.Int('i'), z3.Int('cs')
        eng.assume(z3.And(k >= 0, k < m.N))
        e = m.elem(k)
        eng.assume(m.is_(k, 'Inductor'))
        tot = m.nn + m.vcnt(m.N)
        eng.assume(z3.And(i >= 0, i < tot - 1))
        B = uf('MC', Z, R)
        MC = it.arr((z3.simplify(tot - 1), 1), lambda p, q: B(to_int(p)))
        try:
            it.call(it.qual(P_ + '_add_couplings'), [m.circ, e, MC, z3.simplify(m.nn - 1)], {})
        except PyExc as x:
            eng.prove(False, '_add_couplings.no_exception', str(x))
            return
        S = it.fold_register('mutual_spec', c, [i], mutual(m, k, c, i), m.f['ncd'](k), match=False)
        it.prove_fold_zero(to_real(MC.fn(i, 0)) - B(i) - it.fold_at(S, m.f['ncd'](k), [i]), m.f['ncd'](k), '_add_couplings.what_the_current_induces',
                           hyps=[lambda c: (m.elem_facts(m.other(k, m.cd_index(k, c))), z3.BoolVal(True))[1]])
        eng.cover('_add_couplings')
    eng.explore(driver)


class Loop(LoopSpec):
    counting = ('position', 'excitation_cleared', 'no_column_yet', 'square', 'not_passed_yet')


def stores(st, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(st))


def singularities(eng, kind):
    """kind: None (poles only) or the class of the input source"""
    it = new_interp(eng)

    def driver():
        # (a current source stands for every element with neither a derivative nor a current of its own,
        # a voltage source for those with a current)
        m = CircuitModel(it, ['Capacitor', 'Inductor', 'InductorCoupling', 'VSource', 'ISource'], nonlinear=False)
        it.model = m
        ov, mo = it.overrides, it.mod_overrides
        nm = 'calculate_singularities' + ('.' + kind if kind else '')
        pzmax, shift = z3.Reals('pz_max shift')
        eng.assume(z3.And(pzmax > 0, PI > 3, PI < 4))
        mo['ahkab.options.pz_max'] = pzmax
        kd = z3.Int('kd')
        dynamic = lambda k: m.is_(k, *DYN)
        rank = it.fold_register('rank', kd, [], z3.If(dynamic(kd), z3.RealVal(1), z3.RealVal(0)), m.N, match=False)

        def DR(k):
            it.fold_step(rank, k, [])
            it.fold_at(rank, m.N, [])
            return z3.ToInt(it.fold_at(rank, k, []))
        tot = z3.simplify(m.nn + m.vcnt(m.N))
        n = z3.simplify(tot - 1)
        i_, j_, p, q, s = z3.Ints('i j p q s')
        eng.assume(z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < n))
        for x in (p, q, s):
            m.elem_facts(x)
            it.fold_step(rank, x, [])
            eng.assume(z3.And(x >= 0, x < m.N))
        eng.assume(z3.And(dynamic(p), dynamic(q)))
        sid = m.f['pid'](s)
        eng.assume(m.nn >= 2)
        o1, o2 = z3.Ints('o1 o2')
        if kind:
            eng.assume(z3.And(m.is_(s, kind), o1 >= 0, o1 < m.nn, o2 >= 0, o2 < m.nn))
        A, DD = uf('G', Z, Z, R), uf('Dm', Z, Z, R)
        T, ADD = uf('Kinv_b', Z, Z, R), uf('induced', Z, Z, R)
        st = {'k': None, 'inv': None, 'eig': [], 'sol': [], 'rec': [], 'sorted': [], 'now': 1}

        def read(x, g):
            """the variable of element x when the unknowns are g"""
            node = lambda a: z3.If(a > 0, g(a - 1), z3.RealVal(0))
            return z3.If(m.is_(x, 'Capacitor'), node(m.f['n1'](x)) - node(m.f['n2'](x)), g(m.row(x) - 1))

        def out(g):
            node = lambda a: z3.If(a > 0, g(a - 1), z3.RealVal(0))
            return node(o1) - node(o2)

        def column(x, i):
            a = dl(i + 1, m.f['n1'](x)) - dl(i + 1, m.f['n2'](x))
            e = z3.If(m.is_(x, 'Capacitor', 'ISource'), a, z3.RealVal(0))
            e = e + z3.If(m.is_(x, 'Inductor', 'VSource'), -dl(i + 1, m.row(x)), 0)
            return e + z3.If(m.is_(x, 'Inductor'), ADD(x, i), 0)
        tv = lambda x: (lambda i: -T(x, i))
        X = lambda a, b: read(a, tv(b)) * m.f['value'](b)

        mna = it.arr((tot, tot), lambda a, b: A(to_int(a), to_int(b)))
        given = kind == 'VSource'

        def assemble(i, a, k):
            eng.prove(i.force(a[0]) is m.circ, nm + '.assembles_this_circuit')
            return (mna, it.arr((tot, 1), lambda a, b: z3.RealVal(0)))
        ov['ahkab.dc_analysis.generate_mna_and_N'] = assemble
        ov['ahkab.circuit.Circuit.is_nonlinear'] = lambda i, a, k: False

        def gen_D(i, a, k):
            eng.prove(i.force(a[0]) is m.circ, nm + '.assembles_this_circuit')
            it.inlined = None
            return it.arr((tot, tot), lambda a, b: DD(to_int(a), to_int(b)))
        ov['ahkab.transient.generate_D'] = gen_D

        def invert(i, a, k):
            K = i.force(a[0])
            eng.prove(zand(eqz(K.shape[0], n), eqz(K.shape[1], n)), nm + '.inverts_the_whole_system')
            eng.prove(to_real(K.fn(i_, j_)) == A(i_ + 1, j_ + 1) + shift * DD(i_ + 1, j_ + 1), nm + '.inverts_the_system_at_the_shift')
            if len(a) > 1:
                eng.prove(to_real(i.force(a[1])) == shift, nm + '.inverts_the_system_at_the_shift')
            if eng.decide(2, None, 'singular'):
                i.raise_py(LinAlgError, 'Singular matrix')
            V = uf('Kinv', Z, Z, R)
            st['inv'] = i.arr((n, n), lambda a, b: V(to_int(a), to_int(b)))
            return st['inv']
        ov[P_ + '_invert'] = invert

        def dot(i, a, b):
            if a is st['inv']:
                eng.prove(zand(eqz(b.shape[0], n), eqz(b.shape[1], 1)), nm + '.excitation_shape')
                k = st['k']
                eng.prove(to_real(b.fn(i_, 0)) == column(k, i_), nm + '.excitation_of_the_element')
                return i.arr((n, 1), lambda x, y: T(k, to_int(x)))
            # the only other product: by a diagonal matrix
            l = z3.Int(eng.fresh('l'))
            size = DR(m.N)
            c = DR(p)
            eng.prove(zand(*[eqz(x, size) for x in a.shape + b.shape]), nm + '.zero_correction_shape')
            eng.prove(z3.Implies(z3.And(l >= 0, l < size, l != c), to_real(b.fn(l, c)) == 0), nm + '.zero_correction_by_a_diagonal_matrix')
            W = uf(eng.fresh('prod'), Z, Z, R)
            r = DR(q)
            eng.prove(to_real(a.fn(r, c)) == read(q, tv(s)), nm + '.zero_correction_from_the_source')
            eng.prove(to_real(b.fn(c, c)) == out(tv(p)) * m.f['value'](p), nm + '.zero_correction_at_the_output')
            st['corr'] = W(r, c)    # their product, every other term of the sum being zero
            return i.arr((size, size), lambda x, y: W(to_int(x), to_int(y)))
        it.user_hooks['dot'] = dot

        def add_couplings(i, a, k):
            e, MC = i.force(a[1]), i.force(a[2])
            eng.prove(zand(i.force(a[0]) is m.circ, eqz(a[3], m.nn - 1)), nm + '.couplings_of_this_circuit')
            x = e.tag[1]
            old = MC.fn
            i.log_mod(('arr', MC.id), MC)
            MC.setfn(lambda a, b: z3.simplify(to_real(old(a, b)) + ADD(x, to_int(a))))
        ov[P_ + '_add_couplings'] = add_couplings

        def enl(i, a, k):
            M = i.force(a[0])
            if M is None:
                return i.arr((1, 1), lambda x, y: z3.RealVal(0))
            r, c, f = M.shape[0], M.shape[1], M.fn
            return i.arr((z3.simplify(to_int(r) + 1), z3.simplify(to_int(c) + 1)),
                         lambda x, y: z3.If(z3.And(to_int(x) < r, to_int(y) < c), to_real(f(x, y)), 0))
        ov[P_ + '_enlarge_matrix'] = enl

        def nxt(i, a, k):
            v = to_real(i.force(a[0]))
            eng.prove(v == shift, nm + '.retries_further_out')
            ab = z3.If(v >= 0, v, -v)
            if eng.branch(ab > pzmax):
                i.raise_py(ValueError, 'singular at all frequencies')
            r = z3.Real(eng.fresh('next_shift'))
            eng.assume(r > ab)
            st['next'] = r
            return r
        ov[P_ + '_next_shift'] = nxt

        def eig(i, a, k):
            M = i.force(a[0])
            f = z3.Int(eng.fresh('n_finite'))
            eng.assume(f >= 0)
            re, im = uf(eng.fresh('reciprocal_re'), Z, R), uf(eng.fresh('reciprocal_im'), Z, R)
            arr = i.arr((f,), lambda x: Cx(uf(re.name() + '_', Z, R)(x), uf(im.name() + '_', Z, R)(x)), 'complex')
            st['eig'].append((M, M.fn, f, re, im, arr))
            return arr
        ov[P_ + '_finite_eigvals'] = eig

        def binop(i, o, a, b):
            if o == '/' and any(b is e[5] for e in st['eig']) and is_num(a) and eng.valid(to_real(a) == 1)[0] == 'proved':
                # the reciprocals of numbers which are not zero
                re, im = [e[3:5] for e in st['eig'] if e[5] is b][0]
                return i.arr(b.shape, lambda x: Cx(re(to_int(x)), im(to_int(x))), 'complex')
            return NotImplemented
        it.user_hooks['binop'] = binop

        def again(i, a, k):
            names = ('mc', 'input_source', 'output_port', 'MNA', 'x0', 'shift', 'outfile', 'verbose')
            g = dict(zip(names, a), **k)
            M = i.force(g.get('MNA'))
            ok = zand(i.force(g['mc']) is m.circ, isinstance(M, SArr))
            eng.prove(ok, nm + '.retry_same_circuit')
            eng.prove(to_real(M.fn(i_ + 1, j_ + 1)) == A(i_ + 1, j_ + 1), nm + '.retry_same_equations')
            eng.prove(to_real(g.get('shift', z3.RealVal(0))) == st['next'], nm + '.retries_further_out')
            if kind:
                src = i.force(g.get('input_source'))
                src = src if not isinstance(src, Obj) else src.fields['part_id']
                a_, b_ = i.unpack(i.force(g.get('output_port')), 2)
                eng.prove(zand(src is not None, eqz(a_, o1), eqz(b_, o2)), nm + '.retry_same_transfer')
                eng.prove(src == sid if src is not None else False, nm + '.retry_same_transfer')
            z = uf(eng.fresh('retried'), Z, R)
            ln = z3.Int(eng.fresh('n_retried'))
            eng.assume(ln >= 0)
            arr = i.arr((ln,), lambda x: Cx(z(to_int(x)), z(-1 - to_int(x))), 'complex')
            r = Obj(eng, ExtClass(object), {'zeros': arr, 'poles': arr})
            st['rec'].append(r)
            return r
        ov[P_ + 'calculate_singularities'] = again
        it.inlined = {P_ + 'calculate_singularities'}

        def sort(i, a, k):
            v = i.force(a[0])
            st['sorted'].append(v)
            return v
        it.user_hooks['np.sort_complex'] = sort

        def reduce(i, op, v):
            if op == 'any':
                r = bool(eng.decide(2, None, 'any'))
                if not r:
                    eng.assume(to_real(v.fn(DR(p), DR(p))) == 0)
                return r
            if op == 'all' and v.fn(z3.Int('x_'), z3.Int('y_')) is True:
                return True
            if op in ('max', 'amax'):
                r = z3.Real(eng.fresh('max'))
                eng.assume(r >= to_real(v.fn(*[0] * v.ndim)))
                return r
            return NotImplemented
        it.user_hooks['reduce'] = lambda i, *a: reduce(i, *a)
        ov['ahkab.results.pz_solution.__init__'] = lambda i, a, k: st['sol'].append((a[0], dict(zip(('circ', 'poles', 'zeros', 'outfile'), a[1:]), **k)))

        # ------------------------------------------------------------ loops
        def alist(ln, g):
            return VList(eng, None, SymSeq(ln, g, 'list'))

        def size_inv(TCM, size):
            if TCM is None:
                return [('no_column_yet', size == 0)]
            return [('square', z3.And(to_int(TCM.shape[0]) == size, to_int(TCM.shape[1]) == size, size > 0))]

        def entry(TCM, when):
            if TCM is None:
                return [('response_of_every_element', z3.Not(when))]
            return [('response_of_every_element', z3.Implies(when, to_real(TCM.fn(DR(q), DR(p))) == X(q, p)))]

        def seq_at(v, x):
            v = it.force(v)
            if v.items is not None and not v.items:
                return z3.RealVal(0)
            return to_real(it.force(v.seq.get(x) if v.items is None else it.getitem(v, x)))

        def length(v):
            return to_int(it.bi_len([v], {}))

        def riin(L, when, ln):
            return [('responses_to_the_source', z3.And(length(L['RIIN']) == ln, z3.Implies(when, seq_at(L['RIIN'], DR(q)) == read(q, tv(s)))))]

        def clean(L):
            MC = it.force(L['MC'])
            return [('excitation_cleared', z3.And(to_int(MC.shape[0]) == n, to_int(MC.shape[1]) == 1, to_real(MC.fn(i_, 0)) == 0))]

        def symTCM(fr, size=None):
            if eng.decide(2, None, 'TCM'):
                fr.locals['TCM'] = None
                return
            F = uf(eng.fresh('TCM'), Z, Z, R)
            sz = z3.Int(eng.fresh('size'))
            eng.assume(sz >= 1)
            fr.locals['TCM'] = it.arr((sz, sz), lambda a, b: F(to_int(a), to_int(b)))

        def symlist(name):
            F = uf(eng.fresh(name), Z, R)
            ln = z3.Int(eng.fresh('len'))
            eng.assume(ln >= 0)
            return alist(ln, lambda x: F(to_int(x)))

        def havoc1(i, fr):
            L = fr.locals
            L['vde1'], L['dei_source'] = z3.Int(eng.fresh('vde1')), z3.Int(eng.fresh('dei_source'))
            symTCM(fr)
            MC = it.force(L['MC'])
            MC.setfn(lambda a, b: z3.RealVal(0))
            if kind:
                L['RIIN'] = symlist('RIIN')
                if eng.decide(2, None, 'source seen'):
                    L['ROUTIN'], L['ROUTIN_min'] = z3.Real(eng.fresh('ROUTIN')), z3.Real(eng.fresh('ROUTIN_min'))
                    st['seen'] = True
                else:
                    st['seen'] = False

        def inv1(i, fr, k):
            L = fr.locals
            st['k'] = to_int(k)
            TCM = it.force(L['TCM'])
            r = [('position', z3.And(to_int(L['vde1']) == m.vcnt(k) - 1, to_int(L['dei_source']) == DR(k)))] + clean(L)
            m.step_facts(k)
            r += size_inv(TCM, z3.If(DR(k) == 0, 0, DR(m.N))) + entry(TCM, p < k)
            if kind:
                seen = 'ROUTIN' in L and is_num(L['ROUTIN'])
                r += [('source_response_known', z3.BoolVal(seen) == (s < k))]
                if seen:
                    r += [('source_to_output', z3.Implies(s < k, to_real(L['ROUTIN']) == out(tv(s)))),
                          ('threshold', z3.Implies(s < k, to_real(L['ROUTIN_min']) >= 0))]
                r += riin(L, s < k, z3.If(s < k, DR(m.N), 0))
            return r

        def havoc2(i, fr):
            L = fr.locals
            L['vde2'], L['dei_victim'] = z3.Int(eng.fresh('vde2')), z3.Int(eng.fresh('dei_victim'))
            symTCM(fr)
            if kind:
                L['RIIN'] = symlist('RIIN')

        def inv2(i, fr, k):
            L = fr.locals
            k1 = st['k']
            TCM = it.force(L['TCM'])
            dyn1 = dynamic(k1)
            m.step_facts(k)
            r = [('position', z3.And(to_int(L['vde2']) == m.vcnt(k) - 1, to_int(L['dei_victim']) == z3.If(dyn1, DR(k), 0)))]
            r += size_inv(TCM, z3.If(DR(k1) == 0, z3.If(dyn1, DR(k), 0), DR(m.N)))
            r += entry(TCM, z3.Or(p < k1, z3.And(p == k1, q < k)))
            if kind:
                r += riin(L, z3.Or(s < k1, z3.And(s == k1, q < k)), z3.If(s < k1, DR(m.N), z3.If(s == k1, DR(k), 0)))
            return r

        def havoc3(i, fr):
            L = fr.locals
            L['vde1'] = z3.Int(eng.fresh('vde1'))
            L['ROUT'] = symlist('ROUT')
            it.force(L['MC']).setfn(lambda a, b: z3.RealVal(0))

        def inv3(i, fr, k):
            L = fr.locals
            st['k'] = to_int(k)
            m.step_facts(k)
            return [('position', to_int(L['vde1']) == m.vcnt(k) - 1)] + clean(L) + [
                ('responses_at_the_output', z3.And(length(L['ROUT']) == DR(k), z3.Implies(
                    p < k, seq_at(L['ROUT'], DR(p)) == out(tv(p)) * m.f['value'](p))))]

        def spec(stm, fr):
            if isinstance(stm, ast.For) and stores(stm, 'we_got_source'):
                return Loop(nm + '.search', ['we_got_source'], lambda i, fr: fr.locals.update(we_got_source=False),
                                lambda i, fr, k: [('not_passed_yet', zand(k <= s, zor(k == s, i.force(fr.locals['we_got_source']) is False)))], fresh_exit=True)
            if not isinstance(stm, ast.For) or not stores(stm, 'v'):
                return None
            frame = lambda i, fr: [('arr', it.force(fr.locals['MC']).id)]
            if any(isinstance(x, ast.For) for b in stm.body for x in ast.walk(b)):
                return Loop(nm + '.elements', ['vde1', 'dei_source', 'TCM'] + (['RIIN', 'ROUTIN', 'ROUTIN_min'] if kind else []), havoc1, inv1, frame=frame, fresh_exit=True)
            if stores(stm, 'ROUT'):
                return Loop(nm + '.output', ['vde1', 'ROUT'], havoc3, inv3, frame=frame, fresh_exit=True)
            return Loop(nm + '.responses', ['vde2', 'dei_victim', 'TCM'] + (['RIIN'] if kind else []), havoc2, inv2, fresh_exit=True)
        it.loop_specs[P_ + 'calculate_singularities'] = spec

        kw = {'shift': shift, 'outfile': 'f', 'verbose': 0}
        if given:
            kw['MNA'] = mna
        if kind:
            kw['input_source'], kw['output_port'] = sid, (o1, o2)
        try:
            r = it.call(it.qual(P_ + 'calculate_singularities'), [m.circ], kw)
        except PyExc as e:
            eng.prove(zand(it.exc_is(e, ValueError), z3.Or(shift > pzmax, -shift > pzmax)), nm + '.no_exception_but_singular_everywhere', str(e))
            eng.cover(nm + '.raises')
            return
        r = it.force(r)
        if st['rec'] and r is st['rec'][0]:
            eng.cover(nm + '.retried')
            return
        eng.prove(len(st['sol']) == 1 and r is st['sol'][0][0] and it.force(st['sol'][0][1]['circ']) is m.circ, nm + '.returns_the_result_set')
        d = st['sol'][0][1]

        def reported(v, e, what):
            v = it.force(v)
            if e is None:
                if is_z3(v.shape[0]) or v.shape[0] != 0:
                    eng.prove(to_int(v.shape[0]) == 0, nm + '.no_' + what)
                return
            M, fn, f, re, im, _ = e

            def value(t):
                return (re(t) + shift) / (2 * to_real(PI)), im(t) / (2 * to_real(PI))
            x = z3.Int(eng.fresh('x'))
            eng.assume(z3.And(x >= 0, x < to_int(v.shape[0])))
            c = as_cx(v.fn(x))
            sel = set(a.arg(0).sexpr() for z in (c.re, c.im) for a in apps_of(to_real(z), {re.name(), im.name()}))
            ts = [a.arg(0) for z in (c.re, c.im) for a in apps_of(to_real(z), {re.name(), im.name()})]
            if len(sel) != 1:
                raise Unsupported('reported values')
            t = ts[0]
            a_, b_ = value(t)
            inr = z3.And(x >= 0, x < to_int(v.shape[0]))
            eng.prove(z3.Implies(inr, z3.And(to_real(c.re) == a_, to_real(c.im) == b_)), nm + '.' + what + '_are_the_reciprocals_of_the_eigenvalues')
            eng.prove(z3.Implies(inr, z3.And(t >= 0, t < f)), nm + '.' + what + '_come_from_the_eigenvalues')
        col = (DR(q), DR(p))
        size = DR(m.N)
        if not st['eig']:
            eng.prove(False, nm + '.eigenvalues_of_the_circuit_matrix')   # p exists
            return
        M, fn = st['eig'][0][:2]
        eng.prove(zand(eqz(M.shape[0], size), eqz(M.shape[1], size)), nm + '.one_row_per_dynamic_element')
        eng.prove(to_real(fn(*col)) == X(q, p), nm + '.matrix_of_the_poles')
        reported(d['poles'], st['eig'][0], 'poles')
        eng.cover(nm + '.poles')
        if not kind:
            reported(d['zeros'], None, 'zeros')
        elif len(st['eig']) > 1:
            M, fn = st['eig'][1][:2]
            eng.prove(zand(eqz(M.shape[0], size), eqz(M.shape[1], size)), nm + '.one_row_per_dynamic_element')
            direct = out(tv(s))
            eng.prove(direct != 0, nm + '.zeros_only_of_a_transfer')
            dv = z3.Real('direct')
            eng.assume(dv == direct)
            eng.prove((X(q, p) - to_real(fn(*col))) * dv == st['corr'], nm + '.matrix_of_the_zeros')
            reported(d['zeros'], st['eig'][1], 'zeros')
            eng.cover(nm + '.zeros')
    eng.explore(driver)


PROOFS = {
    '_next_shift': {'fn': next_shift, 'timeout': 30, 'functions': ['pz._next_shift']},
    '_enlarge_matrix': {'fn': enlarge, 'timeout': 30, 'functions': ['pz._enlarge_matrix']},
    '_add_couplings': {'fn': couplings, 'timeout': 60, 'functions': ['pz._add_couplings']},
}
for _k in (None, 'VSource', 'ISource'):
    PROOFS['calculate_singularities' + ('.' + _k if _k else '')] = {'fn': (lambda eng, k=_k: singularities(eng, k)), 'timeout': 450,
                                                                  'functions': ['pz.calculate_singularities']}
