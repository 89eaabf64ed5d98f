from circ import *
from dev import *
from c04 import Poly, law_poly


class Count(Poly):
    calls = 0

    def i(self, op, v, time=0):
        self.calls += 1
        return super(Count, self).i(op, v, time)


class Bad(Poly):
    """no solution: the current never balances"""

    def i(self, op, v, time=0):
        return 1 + v[0] ** 2

    def g(self, op, v, k, time=0):
        return 2 * v[0] + (1e-3 if v[0] == 0 else 0)


class Hop(Poly):
    """x**(1/3): Newton diverges away from the solution"""

    def i(self, op, v, time=0):
        return np.sign(v[0]) * abs(v[0]) ** (1 / 3.)

    def g(self, op, v, k, time=0):
        return (1 / 3.) * max(abs(v[0]), 1e-12) ** (-2 / 3.)


def main():
    r = R('linear systems and systems with nonlinear devices (diode, MOS, switch, user elements), starting vectors, '
          'iteration limits; distinct by description')
    dc, opt = r.get('dc_analysis'), r.get('options')

    def mk(case):
        nn, seed, devs, specs, kind = case[:5]
        c = ahkab.Circuit('t')
        c.add_node('0')
        nodes = ['0'] + ['n%d' % i for i in range(nn)]
        for n in nodes:
            c.add_node(n)
        for i in range(nn):
            c.add_resistor('R%d' % i, nodes[i + 1], '0', 1.)
        add_devs(c, [dict(d, nodes=[nodes[k] for k in d['nodes']]) for d in devs])
        for i, s in enumerate(specs):
            c.append({'poly': Count, 'bad': Bad, 'hop': Hop}[kind]('Y%d' % i, s))
        g = np.random.RandomState(seed)
        A = g.randn(nn, nn) * .3
        A = A + np.diag(3 + np.abs(A).sum(axis=1))
        T = g.randn(nn, 1) * g.choice([.1, 1., 5.])
        x0 = g.randn(nn, 1) * .3
        return c, A, T, x0

    def residual(c, A, T, x):
        n = len(x)
        t = np.zeros(n)
        j = np.zeros((n, n))

        class V(list):
            pass
        tt, jj = law_devices(V(e for e in c if not isinstance(e, Poly)), x[:, 0], n)
        t += tt
        j += jj
        for e in c:
            if isinstance(e, Poly):
                law_poly(e, x[:, 0], t, j)
        return A.dot(x) + T + t.reshape(-1, 1), j

    def cases(kinds, n, name):
        g = r.rng(name)
        for i in range(n):
            nn = g.randint(1, 4)
            devs, specs = [], []
            kind = g.choice(kinds)
            if kind == 'dev':
                devs = gen_devs(g, list(range(nn + 1)), n=2)
            elif kind != 'lin':
                for _ in range(g.randint(1, 2)):
                    a = g.randint(1, nn)
                    P = (a, 0)
                    specs.append([(P, [P])])
            yield nn, g.randint(0, 10 ** 6), devs, specs, kind, g.choice([1, 2, 3, 5, 100, 100])

    def solve(case, **kw):
        c, A, T, x0 = mk(case)
        a0, t0, xx = A.copy(), T.copy(), x0.copy()
        out = dc.mdn_solver(x0, A, c, T=T, MAXIT=case[5], nv=case[0] + 1, locked_nodes=c.get_locked_nodes(), time=0., debug=False, **kw)
        r.need((A == a0).all() and (T == t0).all() and (x0 == xx).all(), 'newton:inputs', 'inputs were modified')
        return c, A, T, out

    def ok(case):
        c, A, T, out = solve(case)
        x, err, conv, nit = out[:4]
        r.need(conv in (True, False), 'newton:flag', 'converged = %r' % (conv,))
        r.need(1 <= nit <= case[5], 'newton:iterations', 'iterations %s, limit %s' % (nit, case[5]))
        for e in c:
            if isinstance(e, Count):
                r.need(e.calls == nit, 'newton:count', 'reported %s iterations, the device was evaluated %s times' % (nit, e.calls))
        F, J = residual(c, A, T, x)
        if conv:
            lim = (opt.iea + opt.ver * np.abs(x).max() * np.abs(A + J).max() * .5 + opt.vea * np.abs(A + J).max())
            r.need(np.all(np.isfinite(x)) and np.abs(F).max() <= lim, 'newton:solution', lambda:
                   'reported as converged, residual %s (limit %g) x=%s' % (F.T, lim, x.T))
            r.need(np.abs(err).max() <= opt.iea * (1 + 1e-9) or not c.is_nonlinear(), 'newton:error', lambda: 'accepted with residual %s' % err.T)
        elif nit < case[5]:
            r.fail('newton:gave-up', 'stopped after %s of %s iterations without convergence' % (nit, case[5]))
        if not c.is_nonlinear():
            r.need(conv and close(x, np.linalg.solve(A, -T), rtol=1e-9, atol=1e-12), 'newton:linear', lambda: '%s' % x.T)

    def bad(case):
        c, A, T, out = solve(case)
        x, err, conv = out[:3]
        if conv:
            F, J = residual(c, A, T, x)
            r.need(np.abs(F).max() < 1e-3 * (1 + np.abs(T).max()), 'newton:false-convergence', lambda: 'x=%s residual %s' % (x.T, F.T))

    def singular(case):
        nn, seed, sparse = case
        g = np.random.RandomState(seed)
        c = ahkab.Circuit('t')
        c.add_node('0')
        for i in range(nn):
            c.add_resistor('R%d' % i, 'n%d' % i, '0', 1.)
        A = np.diag(g.randint(1, 5, nn).astype(float))
        A[:, seed % nn] = 0.
        old = opt.dense_matrix_limit
        try:
            if sparse:
                opt.dense_matrix_limit = 0
            x = dc.dc_solve(A, np.ones((nn, 1)), c, verbose=0, locked_nodes=[], MAXIT=4)
        finally:
            opt.dense_matrix_limit = old
        r.need(not x[2] and x[0] is None, 'newton:singular', lambda: 'a singular system gave %s' % (x,))

    def sizes(case):
        c, A, T, x0 = mk(case)
        try:
            dc.mdn_solver(np.zeros((case[0] + 2, 1)), A, c, T=T, MAXIT=5, nv=case[0] + 1, locked_nodes=[])
        except ValueError:
            return
        r.fail('newton:size', 'a starting vector of the wrong size is accepted')

    def sparse(case):
        old = opt.dense_matrix_limit
        try:
            opt.dense_matrix_limit = 10 ** 6
            a = solve(case)[3]
            opt.dense_matrix_limit = 0
            b = solve(case)[3]
        finally:
            opt.dense_matrix_limit = old
        r.need(a[2] == b[2] and a[3] == b[3], 'newton:sparse', lambda: 'dense %s, sparse %s' % (a[:4], b[:4]))
        r.need(close(a[0], b[0], rtol=1e-5, atol=1e-7), 'newton:sparse', lambda: 'dense %s, sparse %s' % (a[0].T, b[0].T))

    def damping(case):
        """no step of a locked pair is larger than the lock factor times the thermal voltage"""
        nn, seed, locked, n, first = case
        g = np.random.RandomState(seed)
        dx = g.randn(nn, 1) * 10.0 ** g.randint(-4, 3)
        od = opt.nr_damp_first_iters
        try:
            opt.nr_damp_first_iters = first
            td = dc.get_td(dx, locked, n=n)
        finally:
            opt.nr_damp_first_iters = od
        lim = opt.nl_voltages_lock_factor * r.get('constants').Vth()
        r.need(0 < td <= 1, 'newton:damping', 'factor %s' % td)
        worst = max([abs((dx[a - 1, 0] if a else 0.) - (dx[b - 1, 0] if b else 0.)) for a, b in locked if a or b] or [0])
        r.need(td * worst <= lim * (1 + 1e-9), 'newton:lock', lambda: 'factor %s moves a locked pair by %s (limit %s)' % (td, td * worst, lim))
        base = 1 if not first or n < 0 else .01 if n < 10 else .1 if n < 20 else 1
        e = min([base] + ([lim / worst] if worst > lim else []))
        r.need(close(td, e), 'newton:damping', lambda: 'factor %s expected %s (dx %s, locked %s)' % (td, e, dx.T, locked))

    def damped(case):
        old = opt.nr_damp_first_iters, opt.nl_voltages_lock
        try:
            opt.nr_damp_first_iters, opt.nl_voltages_lock = case[6:]
            ok(case)
        finally:
            opt.nr_damp_first_iters, opt.nl_voltages_lock = old

    def damped_cases():
        g = r.rng('damped')
        for c in cases(['lin', 'lin', 'dev', 'poly'], r.count(200, 2000), 'damped'):
            yield tuple(c) + (g.random() < .7, g.random() < .5)

    def damps():
        g = r.rng('damp')
        for i in range(r.count(400, 5000)):
            nn = g.randint(1, 4)
            L = []
            for _ in range(g.randint(0, 4)):
                a, b = g.randint(0, nn), g.randint(0, nn)
                if a or b:
                    L.append((a, b))
            yield nn, g.randint(0, 10 ** 6), L, g.choice([-1, 1, 5, 9, 10, 19, 20, 50]), g.random() < .5

    r.section('linear', cases(['lin'], r.count(150, 2000), 'lin'), ok, priv=True)
    r.section('devices', cases(['dev', 'dev', 'poly'], r.count(400, 5000), 'dev'), ok, priv=True, budget=r.count(90, 400))
    r.section('unsolvable', cases(['bad', 'hop'], r.count(150, 1500), 'bad'), bad, priv=True, budget=r.count(40, 200))
    r.section('sparse', cases(['lin', 'poly'], r.count(80, 800), 'sp'), sparse, priv=True, budget=r.count(40, 200))
    r.section('singular', [(n, s, sp) for n in (1, 2, 4) for s in range(5) for sp in (0, 1)], singular, priv=True)
    r.section('size', cases(['lin', 'poly'], 20, 'size'), sizes, priv=True)
    r.section('damping options', damped_cases(), damped, priv=True, budget=r.count(60, 300))
    r.section('damping', damps(), damping, priv=True)
    r.done()


if __name__ == '__main__':
    main()
