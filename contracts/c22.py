"""C22: matrix reshaping helpers and block assembly, for matrices of any size
and blocks of any position."""
import z3
from .model import *

U = 'ahkab.utilities.'


def mat(it, name, r, c):
    f = uf(name, Z, Z, R)
    return f, it.arr((r, c), lambda i, j: f(to_int(i), to_int(j)))


def shape_is(eng, it, v, shape, nm):
    eng.prove(isinstance(v, SArr) and len(v.shape) == len(shape), nm + '.is_matrix')
    for a, b, w in zip(v.shape, shape, ('rows', 'columns')):
        eng.prove(to_int(a) == b, nm + '.' + w)


def entry(it, v, i, j):
    return to_real(it._sc(it.arr_get(v, (i, j))))


def helper(eng, how):
    def driver():
        it = new_interp(eng)
        n, m = z3.Int('rows'), z3.Int('cols')
        eng.assume(z3.And(n >= 0, m >= 0))
        i, j = z3.Int('i'), z3.Int('j')
        rr, rc = z3.Int('rrow'), z3.Int('rcol')
        A, a = mat(it, 'A', n, m)
        what, opt = how
        nm = '%s.%s' % (what, opt) if opt else what
        try:
            if what == 'expand_matrix':
                ar, ac = 'row' in opt, 'col' in opt
                ret = it.call(it.qual(U + what), [a], {'add_a_row': ar, 'add_a_col': ac})
                sh = (n + (1 if ar else 0), m + (1 if ac else 0))
                goal = z3.If(z3.And(i < n, j < m), A(i, j), 0)
            elif what == 'set_submatrix':
                ls, cs = z3.Int('brows'), z3.Int('bcols')
                eng.assume(z3.And(ls >= 0, cs >= 0, rr >= 0, rc >= 0, rr + ls <= n, rc + cs <= m))
                B, b = mat(it, 'B', ls, cs)
                ret = it.call(it.qual(U + what), [rr, rc, a, b], {})
                eng.prove(ret is a, nm + '.returns_the_destination')
                sh = (n, m)
                goal = z3.If(z3.And(i >= rr, i < rr + ls, j >= rc, j < rc + cs), B(i - rr, j - rc), A(i, j))
            else:
                orow = what == 'remove_row' or opt in ('both', 'row')
                ocol = what != 'remove_row' and opt in ('both', 'col')
                if orow:
                    eng.assume(z3.And(rr >= 0, rr < n))
                if ocol:
                    eng.assume(z3.And(rc >= 0, rc < m))
                if what == 'remove_row':
                    ret = it.call(it.qual(U + what), [a], {'rrow': rr})
                else:
                    ret = it.call(it.qual(U + what), [a], {'rrow': rr if orow else None, 'rcol': rc if ocol else None})
                sh = (n - 1 if orow else n, m - 1 if ocol else m)
                goal = A(z3.If(i < rr, i, i + 1) if orow else i, z3.If(j < rc, j, j + 1) if ocol else j)
        except PyExc as e:
            eng.prove(False, nm + '.no_exception', str(e))
            return
        shape_is(eng, it, ret, sh, nm)
        eng.assume(z3.And(i >= 0, i < sh[0], j >= 0, j < sh[1]))
        eng.prove(entry(it, ret, i, j) == goal, nm + '.every_entry')
        if what != 'set_submatrix':
            eng.assume(z3.And(i < n, j < m))
            eng.prove(entry(it, a, i, j) == A(i, j), nm + '.argument_unchanged')
        eng.cover(nm)
    eng.explore(driver)


HELPERS = [('expand_matrix', o) for o in ('', 'row', 'col', 'row_col')] + [('set_submatrix', '')] + \
    [('remove_row_and_col', o) for o in ('both', 'row', 'col')] + [('remove_row', '')]
PROOFS = {}
for _h in HELPERS:
    PROOFS['.'.join(x for x in _h if x)] = {'fn': (lambda eng, h=_h: helper(eng, h)), 'timeout': 60,
                                           'functions': ['utilities.' + _h[0]]}


def writers(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        st.extend(x.children())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('W!'):
            out.append(x)
    return out


def blocks(eng, e, n, p):
    """blocks do not overlap: instances of  t < p => t*n + n <= p*n  (n >= 1)"""
    ws = writers(z3.And(e == e, *eng.facts))
    for w in ws:
        for t in (w, w + 1):
            eng.assume(z3.Implies(t < p, t * n + n <= p * n))
            eng.assume(z3.Implies(t > p, p * n + n <= t * n))


def block(eng, what):
    def driver():
        it = new_interp(eng)
        n, P = z3.Int('n_of_var'), z3.Int('points')
        eng.assume(z3.And(n >= 1, P >= 2))
        h = z3.Real('step')
        eng.assume(h > 0)
        p, q, r, c = z3.Ints('p q r c')
        M, m = mat(it, 'mna', n, n)
        D, d = mat(it, 'D', n, n)
        S, sTf = mat(it, 'sTf', n, 1)
        X, x0 = mat(it, 'x0', n, 1)
        it.inst_hints = [p, q, p - 1, q - 1]
        name = what.split('.')[0]
        if what.endswith('sparse'):
            # contract of scipy: a list-of-lists matrix holds what is stored in it, other entries
            # are zero, and converting it to coordinate form keeps its entries
            eng.assumptions.add('scipy.sparse.lil_matrix is a zero matrix that holds what is stored in it; coo_matrix keeps the entries')
            it.user_hooks['ext:scipy.sparse.lil_matrix'] = Builtin('lil', lambda i, a, k: it.arr(
                tuple(it.unpack(a[0], 2)), lambda *ix: z3.RealVal(0)))
            it.user_hooks['ext:scipy.sparse.coo_matrix'] = Builtin('coo', lambda i, a, k: a[0])
        nm = what
        tick = Opaque('tick')
        try:
            f = it.qual('ahkab.bfpss.' + name)
            if name == '_build_CMAT':
                kw = {'sparse': True} if what.endswith('sparse') else {}
                ret = it.call(f, [m, d, h, P, tick] + ([] if what.endswith('size') else [n]), dict(kw, verbose=0))
            elif name == '_build_Tf':
                ret = it.call(f, [sTf, P, tick, n], {'verbose': 0})
            elif name == '_build_x':
                ret = it.call(f, [m, h, P, tick], {'x0': x0 if what.endswith('guess') else None, 'verbose': 0})
        except PyExc as e:
            eng.prove(False, nm + '.no_exception', str(e))
            return
        shape_is(eng, it, ret, (P * n, P * n if name == '_build_CMAT' else 1), nm)
        eng.assume(z3.And(p >= 0, p < P, q >= 0, q < P, r >= 0, r < n, c >= 0, c < n))
        if name == '_build_CMAT':
            one = z3.If(r == c, z3.RealVal(1), z3.RealVal(0))
            want = z3.If(p == 0, z3.If(q == 0, one, z3.If(q == P - 1, -one, 0)),
                         z3.If(q == p, M(r, c) + (1 / h) * D(r, c), z3.If(q == p - 1, (-1 / h) * D(r, c), 0)))
            e = entry(it, ret, p * n + r, q * n + c)
        else:
            e = entry(it, ret, p * n + r, 0)
            if name == '_build_Tf':
                want = z3.If(p == 0, 0, S(r, 0))
            else:
                want = X(r, 0) if what.endswith('guess') else z3.RealVal(0)
        for a in (p, q):
            blocks(eng, e, n, a)
        eng.prove(e == want, nm + '.every_block_in_its_place')
        eng.cover(nm)
    eng.explore(driver)


def lemma(eng):
    def driver():
        t, p, n = z3.Ints('t p n')
        eng.assume(n >= 1)
        eng.prove(z3.Implies(t < p, t * n + n <= p * n), 'lemma.blocks_do_not_overlap')
    eng.explore(driver)


PROOFS['lemma'] = {'fn': lemma, 'timeout': 60, 'functions': []}
for _b in ('_build_Tf', '_build_CMAT', '_build_CMAT.sparse', '_build_CMAT.own_size', '_build_x.zero', '_build_x.guess'):
    PROOFS[_b] = {'fn': (lambda eng, h=_b: block(eng, h)), 'timeout': 60, 'functions': ['bfpss.' + _b.split('.')[0]]}


def source_law(m, k, i, t):
    """row i (from 1) of the time-dependent source vector at time t"""
    f = m.f
    a = dl(i, f['n1'](k)) - dl(i, f['n2'](k))
    v = m.tfun(k, t)
    e = z3.If(z3.And(m.is_(k, 'ISource'), f['tdep'](k)), v * a, z3.RealVal(0))
    return e + z3.If(z3.And(m.is_(k, 'VSource'), f['tdep'](k)), -v * dl(i, m.row(k)), 0)


def sources(eng, what):
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        P, p, i = z3.Ints('points p i')
        h = z3.Real('step')
        eng.assume(z3.And(P >= 1, h > 0, p >= 0, p < P))
        n = m.nn + m.vcnt(m.N) - 1
        TF, Tf = uf('Tf', Z, R), None
        tick = Opaque('tick')
        hyp = [lambda kk: (m.elem_facts(kk), z3.BoolVal(True))[1]]
        try:
            if what == '_build_Tass_static_vector':
                Tf = it.arr((n,), lambda i: TF(to_int(i)))
                ret = it.call(it.qual('ahkab.shooting.' + what), [m.circ, Tf, P, h, tick, n], {'verbose': 0})
            else:
                ret = it.call(it.qual('ahkab.bfpss.' + what), [m.circ, P, h, tick, n], {'verbose': 0})
        except PyExc as e:
            eng.prove(False, what + '.no_exception', str(e))
            return
        eng.assume(z3.And(i >= 1, i <= n))
        k = z3.Int('ks')
        t = z3.ToReal(p) * h
        S = it.fold_register('Tt_spec', k, [i, p], source_law(m, k, i, t), m.N, match=False)
        if what == '_build_Tass_static_vector':
            ret = it.force(ret)
            eng.prove(to_int(it.bi_len([ret], {})) == P, what + '.one_per_point')
            v = it.force(it.getitem(ret, p))
            eng.prove(to_int(v.shape[0]) == n, what + '.size')
            e = to_real(it._sc(it.arr_get(v, i - 1)))
            it.prove_fold_zero(e - TF(i - 1) - it.fold_at(S, m.N, [i, p]), m.N, what + '.sources_at_their_time', cases(m), hyps=hyp)
        eng.cover(what)
    eng.explore(driver)


def small(eng, what):
    def driver():
        it = new_interp(eng)
        n, i, j = z3.Ints('n i j')
        h = z3.Real('step')
        eng.assume(z3.And(n >= 0, h > 0, i >= 0, j >= 0))
        M, m = mat(it, 'mna', n, n)
        D, d = mat(it, 'D', n, n)
        C, c = mat(it, 'C', 2, 2)
        try:
            if what == '_build_static_MAass_and_MBass':
                a, b = it.unpack(it.call(it.qual('ahkab.shooting.' + what), [m, d, h], {}), 2)
                eng.assume(z3.And(i < n, j < n))
                want = ((a, M(i, j) + (1 / h) * D(i, j), (n, n)), (b, (-1 / h) * D(i, j), (n, n)))
            elif what == '_enlarge_matrix':
                a = it.call(it.qual('ahkab.pz.' + what), [None], {})
                shape_is(eng, it, a, (1, 1), what + '.empty')
                a = it.call(it.qual('ahkab.pz.' + what), [m], {})
                eng.assume(z3.And(i <= n, j <= n))
                want = ((a, z3.If(z3.And(i < n, j < n), M(i, j), 0), (n + 1, n + 1)),)
        except PyExc as e:
            eng.prove(False, what + '.no_exception', str(e))
            return
        for q, (a, w, sh) in enumerate(want):
            shape_is(eng, it, a, sh, what + ('.%d' % q if q else ''))
            eng.prove(entry(it, a, i, j) == w, what + '.entries' + ('.%d' % q if q else ''))
        eng.assume(z3.And(i < n, j < n))
        eng.prove(z3.And(entry(it, m, i, j) == M(i, j), entry(it, d, i, j) == D(i, j)), what + '.arguments_unchanged')
        eng.cover(what)
    eng.explore(driver)


from .c01 import cases
for _b in ('_build_static_MAass_and_MBass', '_enlarge_matrix'):
    PROOFS[_b] = {'fn': (lambda eng, h=_b: small(eng, h)), 'timeout': 60, 'functions': [
        ('pz.' if 'enlarge' in _b else 'shooting.') + _b]}
for _b in ('_build_Tass_static_vector',):
    PROOFS[_b] = {'fn': (lambda eng, h=_b: sources(eng, h)), 'timeout': 200, 'functions': [
        ('shooting.' if 'Tass' in _b else 'bfpss.') + _b]}
