from circ import *
from dev import *
import shutil
import tempfile


def main():
    r = R('random damped circuits (every element, sine, pulse and user time functions of a common period, optionally nonlinear devices) with random numbers '
          'of points and steps, both methods, dense and sparse; distinct by description')
    opt = r.get('options')

    class Per(object):
        def __init__(self, e, T):
            self.e, self.T = e, T

        def __call__(self, t):
            e, w = self.e, 2 * np.pi / self.T
            if e['w'] == 'sin':
                return e['v'] * np.sin(w * t + e['ph'])
            if e['w'] == 'cos2':
                return e['v'] * (.3 + np.cos(2 * w * t + e['ph']))
            u = (t / self.T + e['ph'] / 7.) % 1.
            return e['v'] * (u if e['w'] == 'saw' else abs(u - .5))

    def cases(name, q, t, nl):
        g = r.rng(name)
        for _ in range(r.count(q, t)):
            els = gen(g, 'RRCLVIEGFH' if not nl else 'RRCLVI', nmax=3, emax=7, distinct=True, coupling=g.random() < .5)
            T = g.choice([1e-3, 1., 20e-6])
            out = []
            for e in els:
                e = dict(e)
                if e['t'] == 'R':
                    e['v'] = g.choice([100., 1e3, 4.7e3])
                elif e['t'] == 'C':
                    e['v'] = T / 1e3 * g.choice([.01, .1, 1.])
                elif e['t'] == 'L':
                    e['v'] = T * 1e3 * g.choice([.01, .1, 1.])
                elif e['t'] == 'G':
                    e['v'] = g.choice([1e-4, -1e-4, 5e-4])
                elif e['t'] == 'H':
                    e['v'] = g.choice([100., -100.])
                elif e['t'] in 'EF':
                    e['v'] = g.choice([.5, -.5, 2.])
                elif e['t'] == 'V':
                    e['v'] = g.choice([1., -2., .5])
                elif e['t'] == 'I':
                    e['v'] = g.choice([1e-3, -2e-3])
                if e['t'] in 'VI' and g.random() < .7:
                    e['td'] = True
                    e['w'], e['ph'] = g.choice(['sin', 'cos2', 'saw', 'tri']), g.choice([0., .5, 3.])
                out.append(e)
            for i, n in enumerate(list(numbering(out))):
                if n != '0' and g.random() < .8:
                    out.append({'t': 'R', 'id': 'RZ%d' % i, 'n1': n, 'n2': '0', 'v': 1e3})
            devs = gen_devs(g, list(numbering(out)), 2, 'ddmq') if nl else []
            how = g.choice(['points', 'points', 'step', 'both'])
            n = g.choice([3, 4, 5, 8, 13, 20, 21] + ([40, 64] if r.thorough else []))
            yield out, T, devs, how, n, g.choice(['brute-force', 'shooting'] if True else 0), g.choice(['dense', 'sparse']), g.choice([None, None, 'op'])

    def law(c, els, T, n, step):
        """the system: F(i, x, xprev), its Jacobian blocks, all reduced"""
        M, N = [q[1:] for q in law_static(els)]
        M, D = M[:, 1:], law_dynamic(els)[1:, 1:]
        nd = numbering(els)
        vd = vdelems(els)
        row = dict((e['id'], len(nd) - 1 + i) for i, e in enumerate(vd))

        def src(t):
            s = np.array(N[:, 0])
            for e in els:
                if e['t'] in 'VI' and e.get('td'):
                    q = Per(e, T)(t)
                    if e['t'] == 'V':
                        s[row[e['id']]] -= q
                    else:
                        for m, k in ((nd[e['n1']], 1), (nd[e['n2']], -1)):
                            if m:
                                s[m - 1] += k * q
            return s
        return M, D, src

    def fresh(els, T, devs):
        c = ahkab.Circuit('t')
        c.add_node('0')
        for e in els:
            if e.get('td'):
                (c.add_vsource if e['t'] == 'V' else c.add_isource)(e['id'], e['n1'], e['n2'], 0., function=Per(e, T))
            else:
                add(c, e)
        add_devs(c, devs)
        return c

    def case(cs, maynot=False):
        els, T, devs, how, n, method, mode, x0 = cs
        if not els or any(e['t'] == 'R' for e in els) is False:
            return
        c = fresh(els, T, devs)
        size = len(numbering(els)) - 1 + len(vdelems(els))
        # the law of sources: time functions replace the value
        lels = [dict(e, v=0.) if e.get('td') and False else e for e in els]
        M, D, src = law(c, lels, T, n, None)
        step = T / (n - 1)
        kw = {'points': {'points': n}, 'step': {'step': step}, 'both': {'step': step, 'points': n + 3}}[how]
        h = step
        A = M + D / h
        if size == 0 or not np.all(np.isfinite(A)):
            return
        # a unique periodic solution of the equations (linear part)
        G = np.zeros((size * (n - 1), size * (n - 1)))
        for i in range(n - 1):
            p = (i - 1) % (n - 1)
            G[i * size:(i + 1) * size, i * size:(i + 1) * size] += A
            G[i * size:(i + 1) * size, p * size:(p + 1) * size] -= D / h
        f = np.max(np.abs(G), axis=1).reshape(-1, 1)
        if not f.all() or np.linalg.cond(G / f) > 1e8:
            return
        if np.linalg.cond(A / np.max(np.abs(A), axis=1).reshape(-1, 1)) > 1e8 or np.max(np.abs(np.linalg.eigvals(np.linalg.solve(A, D / h)))) > 1 - 1e-9:
            # (not damped: the transient that prepares the shooting method grows)
            return
        xi = None
        if x0 == 'op':
            res = ahkab.run(c, ahkab.new_op())
            xi = res.get('op')
            if xi is None:
                return
        lim = opt.dense_matrix_limit
        opt.dense_matrix_limit = 10 ** 9 if mode == 'dense' else 0
        try:
            if how == 'points':
                sol = ahkab.run(c, ahkab.new_pss(T, method=method, x0=xi, outfile=None, **kw)).get('pss')
            else:
                d = tempfile.mkdtemp()
                try:
                    sol = r.get('pss.pss_analysis')(c, method=method, period=T, x0=xi, outfile=os.path.join(d, 'o'), verbose=0, **kw)
                    sol = sol and dict((k, np.array(sol[k])) for k in ['T'] + ['V' + n for n in numbering(els) if n != '0'] + ['I(%s)' % e['id'] for e in vdelems(els)])
                finally:
                    shutil.rmtree(d)
        except (OverflowError, ValueError, np.linalg.LinAlgError, RuntimeError) as e:
            if not devs:
                raise
            return
        finally:
            opt.dense_matrix_limit = lim
            for f in ('stdout.tran', 'tmp.tran'):
                if os.path.exists(f):
                    os.unlink(f)
        key = 'bf' if method == 'brute-force' else 'shooting'
        if sol is None:
            r.need(devs or maynot, key + ':none', 'no solution of a linear circuit')
            return
        t = np.asarray(sol['T']).reshape(-1)
        r.need(len(t) == n and abs(t[0]) < 1e-12 * T and abs(t[-1] - T) < 1e-9 * T and np.allclose(np.diff(t), h, rtol=1e-9), key + ':grid', lambda: 'times %r, should be %d points over %g' % (t, n, T))
        nd = numbering(els)
        X = np.array([np.asarray(sol['V' + k]).reshape(-1) for k in sorted(nd, key=nd.get) if k != '0'] + [np.asarray(sol['I(%s)' % e['id']]).reshape(-1) for e in vdelems(els)])
        r.need(X.shape == (size, n), key + ':shape', lambda: '%r' % (X.shape,))
        r.need(np.all(np.isfinite(X)), key + ':finite', lambda: '%r' % X)
        big = np.max(np.abs(X))
        nv = len(nd) - 1
        vmax = np.max(np.abs(X[:nv])) if nv else 0
        imax = np.max(np.abs(X[nv:])) if size > nv else 0
        tol = np.array([max(1e-7, opt.ver if devs else 0) * vmax + (opt.vea if devs else 1e-12)] * nv + [max(1e-7, opt.ier if devs else 0) * imax + (opt.iea if devs else 1e-15) + 1e-10 * vmax] * (size - nv)) * 3
        same = np.all(np.abs(X[:, 0] - X[:, -1]) <= tol + 1e-9 * big)
        if method == 'brute-force':
            r.need(same, 'bf:period', lambda: 'first point %r, last point %r' % (X[:, 0], X[:, -1]))
        # Newton correction of the periodic system at the reported points: must be within the tolerances
        first = 1 if method == 'brute-force' else 0
        m = n - first
        J, F = np.zeros((size * m, size * m)), np.zeros(size * m)
        for i in range(m):
            x, p = X[:, i + first], X[:, (i - 1) % m + first]
            Tn, Jn = law_devices(c, x, size) if devs else (0., 0.)
            q = slice(i * size, (i + 1) * size)
            w = slice(((i - 1) % m) * size, ((i - 1) % m + 1) * size)
            F[q] = M.dot(x) + D.dot(x - p) / h + src(t[i + first]) + Tn
            J[q, q] += A + Jn
            J[q, w] -= D / h
        f = np.max(np.abs(J), axis=1)
        dx = np.linalg.solve(J / f.reshape(-1, 1), -F / f).reshape(m, size)
        r.need(np.all(np.abs(dx) <= tol), key + ':law', lambda: 'the points are off the periodic solution of the equations by %r (values up to %r); %s, step %g' % (np.max(np.abs(dx), axis=0), np.max(np.abs(X), axis=1), mode, h))

    def perfind(cs):
        method, n = cs
        els = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1., 'td': True, 'w': 'sin', 'ph': .5}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': 'b', 'v': 1e3},
               {'t': 'C', 'id': 'C1', 'n1': 'b', 'n2': '0', 'v': 1e-6}]
        c = fresh(els, 1e-3, [])
        sol = ahkab.run(c, ahkab.new_pss(1e-3, method=method, points=n))['pss']
        if os.path.exists('stdout.tran'):
            os.unlink('stdout.tran')
        v = np.asarray(sol['Vb']).reshape(-1)
        r.need(abs(v[0] - v[-1]) < 1e-6, 'shooting:period' if method == 'shooting' else 'bf:period', 'Vb is %g at the first point and %g at the last' % (v[0], v[-1]))

    def fcases(q, t):
        for cs in cases('fail', q, t, True):
            yield cs, r.rng(repr(cs)).choice([1, 2, 3])

    def failure(cs):
        """stopped early: what is reported must still be a solution"""
        cs, n = cs
        o = opt.bfpss_max_nr_iter, opt.shooting_max_nr_iter
        opt.bfpss_max_nr_iter = opt.shooting_max_nr_iter = n
        try:
            case(cs, True)
        finally:
            opt.bfpss_max_nr_iter, opt.shooting_max_nr_iter = o

    def pcases(q, t):
        g = r.rng('cpp')
        for _ in range(r.count(q, t)):
            T = g.choice([1., 1e-3, 2e-5, .3])
            k = g.choice(['n', 's', 'odd', 'both', 'none'])
            n = g.randint(2, 500)
            yield {'n': (None, n), 's': (T / n, None), 'odd': (T / (n + g.uniform(.01, .99)), None), 'both': (T / n, n + 7), 'none': (None, None)}[k] + (T, n, k)

    def pcase(cs):
        step, points, T, n, k = cs
        a, b = r.get('utilities.check_step_and_points')(step, points, T, 77)
        w = {'n': n, 's': n + 1, 'odd': n + 1, 'both': n + 1, 'none': 77}[k]
        r.need(a == w and isinstance(a, int) and abs(b * (a - 1) - T) < 1e-9 * T, 'step', lambda: '%r points, step %r for period %r' % (a, b, T))

    r.section('linear', cases('lin', 150, 2500, False), case, budget=None if r.thorough else 60)
    r.section('nonlinear', cases('nl', 60, 800, True), case, budget=400 if r.thorough else 60)
    r.section('stopped', fcases(30, 300), failure, budget=200 if r.thorough else 40)
    r.section('period', [(m, n) for m in ('brute-force', 'shooting') for n in (11, 20)], perfind, maxfail=99)
    r.section('points and step', pcases(500, 10000), pcase, priv=True)
    r.done()


if __name__ == '__main__':
    main()
