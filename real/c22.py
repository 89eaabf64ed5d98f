from circ import *
from dev import *


class NoTick(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def main():
    r = R('random matrices (empty sides, one to seven rows and columns, real and complex, C and Fortran order, views) with every legal position; block '
          'systems of the periodic analyses for random circuit matrices, steps and numbers of points, dense and sparse; distinct by entries and position')
    U = 'utilities.'
    tick = NoTick()

    def mat(g, n, m, cplx=None):
        cplx = g.random() < .25 if cplx is None else cplx
        M = np.array([[g.choice([0., 1., g.uniform(-5, 5)]) + (1j * g.uniform(-2, 2) if cplx else 0) for _ in range(m)] for _ in range(n)]).reshape(n, m)
        q = g.random()
        if q < .2:
            M = np.asfortranarray(M)
        elif q < .4:
            B = np.zeros((n + 2, m + 1), dtype=M.dtype)
            B[1:n + 1, 1:] = M
            M = B[1:n + 1, 1:]
        return M

    def mats(name, q, t):
        g = r.rng(name)
        for _ in range(r.count(q, t)):
            n, m = g.randint(1, 7), g.randint(1, 7)
            yield g.randrange(10 ** 9), n, m

    def expand(case):
        s, n, m = case
        g = random.Random(s)
        f = r.get(U + 'expand_matrix')
        for row in (False, True):
            for col in (False, True):
                n0 = g.choice([n, n, 0])
                m0 = g.choice([m, m, 0])
                M = mat(g, n0, m0)
                M0 = M.copy()
                X = f(M, add_a_row=row, add_a_col=col)
                r.need(X.shape == (n0 + row, m0 + col), 'expand:shape', lambda: '%r from %r, row %s col %s' % (X.shape, M.shape, row, col))
                E = np.zeros((n0 + row, m0 + col), dtype=M0.dtype)
                E[:n0, :m0] = M0
                r.need(np.array_equal(X, E), 'expand:entries', lambda: '%r from %r' % (X, M0))
                r.need(np.array_equal(M, M0), 'expand:input', 'input changed')
                if (row or col) and X.size:
                    X[...] = 77.
                    r.need(np.array_equal(M, M0), 'expand:alias', 'the result shares its entries with the input')

    def sub(case):
        s, n, m = case
        g = random.Random(s)
        f = r.get(U + 'set_submatrix')
        import scipy.sparse
        for sp in (False, True):
            D = mat(g, n, m, False)
            a, b = g.randint(1, n), g.randint(1, m)
            S = mat(g, a, b, False)
            i, j = g.randint(0, n - a), g.randint(0, m - b)
            E, S0 = D.copy(), S.copy()
            for x in range(a):
                for y in range(b):
                    E[i + x, j + y] = S[x, y]
            T = scipy.sparse.lil_matrix(D) if sp else D
            X = f(i, j, T, S)
            r.need(X is T, 'submatrix:inplace', 'the destination is not what is returned')
            X = X.toarray() if sp else X
            r.need(np.array_equal(X, E), 'submatrix:entries', lambda: '%r at %d, %d in %r gives %r' % (S0, i, j, D, X))
            r.need(np.array_equal(S, S0), 'submatrix:input', 'the block changed')

    def rem(case):
        s, n, m = case
        g = random.Random(s)
        f, f1 = r.get(U + 'remove_row_and_col'), r.get(U + 'remove_row')
        M = mat(g, n, m)
        M0 = M.copy()
        for i in list(range(n)) + [None]:
            for j in list(range(m)) + [None]:
                if i is None and j is None:
                    continue
                X = f(M, rrow=i, rcol=j)
                E = M0[[k for k in range(n) if k != i]][:, [k for k in range(m) if k != j]]
                r.need(X.shape == E.shape and np.array_equal(X, E), 'remove:entries', lambda: 'row %r col %r of %r gives %r' % (i, j, M0, X))
                r.need(np.array_equal(M, M0), 'remove:input', 'input changed')
                if X.size:
                    X[...] = 77.
                    r.need(np.array_equal(M, M0), 'remove:alias', 'the result shares its entries with the input')
            if i is not None:
                X = f1(M, rrow=i)
                E = M0[[k for k in range(n) if k != i]]
                r.need(X.shape == E.shape and np.array_equal(X, E), 'remove:row', lambda: 'row %r of %r gives %r' % (i, M0, X))
                X[...] = 77.
                r.need(np.array_equal(M, M0), 'remove:alias', 'the result shares its entries with the input')
        r.need(np.array_equal(f(M), M0[1:, 1:]) and np.array_equal(f1(M), M0[1:]), 'remove:default', 'not the first row and column by default')

    def enlarge(case):
        s, n, m = case
        g = random.Random(s)
        f = r.get('pz._enlarge_matrix')
        M = mat(g, n, m, False)
        M0 = M.copy()
        X = f(M)
        E = np.zeros((n + 1, m + 1))
        E[:n, :m] = M0
        r.need(np.array_equal(X, E) and np.array_equal(M, M0), 'enlarge:entries', lambda: '%r from %r' % (X, M0))
        X = f(None)
        r.need(X.shape == (1, 1) and not X.any(), 'enlarge:none', lambda: repr(X))

    def symexp(case):
        import sympy
        s, n, m = case
        g = random.Random(s)
        f = r.get('symbolic._expand_matrix')
        M = sympy.zeros(n, m)
        for i in range(n):
            for j in range(m):
                M[i, j] = g.choice([0, 1, sympy.Symbol('q%d' % g.randrange(5)), -2])
        M0 = M.copy()
        for row in (False, True):
            for col in (False, True):
                X = f(M, add_a_row=row, add_a_col=col)
                E = sympy.zeros(n + row, m + col)
                E[:n, :m] = M0
                r.need(X.shape == E.shape and X == E and M == M0, 'symexpand', lambda: '%r from %r' % (X, M0))

    # ---- the periodic block system
    def blocks():
        g = r.rng('blocks')
        for _ in range(r.count(150, 1500)):
            els = gen(g, 'RCLVIEGHF', nmax=4, emax=6, tdep=True)
            yield els, g.choice([1e-3, .5, 2e-6]), g.randint(2, 9), g.random() < .5, g.randrange(10 ** 9)

    def same(a, b, key, what):
        a = a.toarray() if hasattr(a, 'toarray') else np.asarray(a)
        r.need(a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (np.abs(b) + 1e-300))), key, lambda: '%s: %r\nshould be %r' % (what, a, b))

    def block(case):
        els, h, P, sparse, s = case
        g = random.Random(s)
        c = build(els)
        n = len(numbering(els)) - 1 + len(vdelems(els))
        if not n:
            return
        A, D = np.array([[g.uniform(-2, 2) for _ in range(n)] for _ in range(n)]), np.array([[g.uniform(-2, 2) for _ in range(n)] for _ in range(n)])
        A0, D0 = A.copy(), D.copy()
        X = r.get('bfpss._build_CMAT')(A, D, h, P, tick, n_of_var=n, sparse=sparse, verbose=0)
        E = np.zeros((n * P, n * P))
        for k in range(n):
            E[k, k] = 1.
            E[k, n * (P - 1) + k] = -1.
        for p in range(1, P):
            E[n * p:n * (p + 1), n * p:n * (p + 1)] = A + D / h
            E[n * p:n * (p + 1), n * (p - 1):n * p] = -D / h
        same(X, E, 'block:cmat', 'block matrix')
        N = np.array([[g.uniform(-3, 3)] for _ in range(n)])
        X = r.get('bfpss._build_Tf')(N, P, tick, n_of_var=n, verbose=0)
        E = np.vstack([np.zeros((n, 1))] + [N] * (P - 1))
        same(X, E, 'block:tf', 'constant sources')
        x0 = np.array([[g.uniform(-3, 3)] for _ in range(n)])
        X = r.get('bfpss._build_x')(A, h, P, tick, x0=x0, n_of_var=n, verbose=0)
        same(X, np.vstack([x0] * P), 'block:x', 'starting values')
        X = r.get('bfpss._build_x')(A, h, P, tick, x0=None, n_of_var=n, verbose=0)
        same(X, np.zeros((n * P, 1)), 'block:x', 'starting values')
        X = r.get('bfpss._build_Tt')(c, P, h, tick, n_of_var=n, verbose=0)
        tv = [tsrc(els, p * h) for p in range(P)]
        E = np.vstack([np.zeros((n, 1))] + tv[1:])
        same(X, E, 'block:tt', 'time-dependent sources')
        M, B = r.get('shooting._build_static_MAass_and_MBass')(A, D, h)
        same(M, A + D / h, 'block:ma', 'shooting matrix')
        same(B, -D / h, 'block:mb', 'shooting matrix')
        X = r.get('shooting._build_Tass_static_vector')(c, N[:, 0], P, h, tick, n, 0)
        r.need(len(X) == P, 'block:tass', 'points')
        for p in range(P):
            same(X[p], N[:, 0] + tv[p][:, 0], 'block:tass', 'sources at point %d' % p)
        x, y = np.array([g.uniform(-1, 1) for _ in range(n)]), np.array([g.uniform(-1, 1) for _ in range(n)])
        J, T = r.get('shooting._get_variable_MAass_and_Tass')(c, x, y, A, D, h, n)
        E = A.dot(x) + D.dot(x - y) / h
        r.need(not np.any(J) and np.all(np.abs(T - E) <= 1e-9 * (np.abs(A).dot(np.abs(x)) + np.abs(D).dot(np.abs(x) + np.abs(y)) / h)), 'block:residual',
               lambda: '%r, should be %r' % (T, E))
        # the elimination against the whole block system
        Q = g.randint(1, 5)
        MA = [np.array([[g.uniform(-1, 1) + (4 * n if i == j else 0) for j in range(n)] for i in range(n)]) for _ in range(Q)]
        MB = np.array([[g.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        TT = [np.array([g.uniform(-1, 1) for _ in range(n)]) for _ in range(Q)]
        W = np.zeros((n * Q, n * Q))
        for q in range(Q):
            W[n * q:n * (q + 1), n * q:n * (q + 1)] += MA[q]
            p = (q - 1) % Q
            W[n * q:n * (q + 1), n * p:n * (p + 1)] += MB
        Z = np.linalg.solve(W, -np.concatenate(TT))
        X = r.get('shooting._compute_dxN')(MA, MB, TT, n, Q)
        r.need(np.allclose(X, Z[n * (Q - 1):], rtol=1e-8, atol=1e-10), 'block:dxN', lambda: '%r, should be %r' % (X, Z[n * (Q - 1):]))
        f = r.get('shooting._compute_dx')
        p = X
        for q in range(Q):
            p = f(MA[q], MB, TT[q], p)
            r.need(np.allclose(p, Z[n * q:n * (q + 1)], rtol=1e-8, atol=1e-10), 'block:dx', lambda: '%r, should be %r' % (p, Z[n * q:n * (q + 1)]))
        r.need(np.array_equal(A, A0) and np.array_equal(D, D0), 'block:input', 'the matrices of the circuit changed')

    def tsrc(els, t):
        d, vd = numbering(els), vdelems(els)
        n = len(d) - 1 + len(vd)
        v = np.zeros((n, 1))
        for e in els:
            if e['t'] == 'I' and e.get('td'):
                for k, s in ((d[e['n1']], 1), (d[e['n2']], -1)):
                    if k:
                        v[k - 1, 0] += s * tval(e, t)
            if e['t'] == 'V' and e.get('td'):
                v[len(d) - 1 + [q['id'] for q in vd].index(e['id']), 0] = -tval(e, t)
        return v

    r.section('expand', mats('expand', 300, 4000), expand, priv=True)
    r.section('submatrix', mats('sub', 400, 6000), sub, priv=True)
    r.section('remove', mats('rem', 200, 2000), rem, priv=True)
    r.section('enlarge', mats('enl', 100, 1000), enlarge, priv=True)
    r.section('symbolic', mats('sym', 60, 400), symexp, priv=True)
    r.section('blocks', blocks(), block, priv=True)
    r.done()


if __name__ == '__main__':
    main()
