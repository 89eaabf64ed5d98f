import tempfile
from circ import *
from dev import *


class Poly(ahkab.components.Component):
    """a user element: any number of output ports, each with its own drive ports"""

    def __init__(self, part_id, spec):
        super(Poly, self).__init__(part_id, n1=spec[0][0][0], n2=spec[0][0][1])
        self.spec = spec
        self.is_nonlinear = True

    def get_output_ports(self):
        return [s[0] for s in self.spec]

    def get_drive_ports(self, op):
        return self.spec[op][1]

    def i(self, op, v, time=0):
        return sum((k + 2 + op) * x + .5 * (op + 1) * x ** 3 for k, x in enumerate(v)) + .25 * v[0] * v[-1]

    def g(self, op, v, k, time=0):
        g = (k + 2 + op) + 1.5 * (op + 1) * v[k] ** 2
        if k == 0:
            g += .25 * v[-1]
        if k == len(v) - 1:
            g += .25 * v[0]
        return g

    def __str__(self):
        return 'poly'


def law_poly(e, x, T, J):
    for o, (out, drv) in enumerate(e.spec):
        v = [(x[p - 1] if p else 0.) - (x[q - 1] if q else 0.) for p, q in drv]
        for n, s in ((out[0], 1), (out[1], -1)):
            if not n:
                continue
            T[n - 1] += s * e.i(o, v)
            for k, (p, q) in enumerate(drv):
                if p:
                    J[n - 1, p - 1] += s * e.g(o, v, k)
                if q:
                    J[n - 1, q - 1] -= s * e.g(o, v, k)


def main():
    r = R('sets of nonlinear devices (diode, MOS square law, EKV, switch, user elements with several output and drive '
          'ports) with coinciding and grounded terminals, random candidate solutions; distinct by description')
    dc, ac, sh = r.get('dc_analysis'), r.get('ac'), r.get('shooting')

    def cases(name, n, fakes=True, vmax=1.0):
        g = r.rng(name)
        for i in range(n):
            nn = g.randint(1, 5)
            nodes = names(g, nn)
            devs = gen_devs(g, nodes, distinct=False) if g.random() < .8 else []
            specs = []
            if fakes:
                for k in range(g.randint(0, 2)):
                    P = lambda: (g.randint(0, nn), g.randint(0, nn))
                    specs.append([(P(), [P() for _ in range(g.randint(1, 3))]) for _ in range(g.randint(1, 3))])
            if not devs and not specs:
                continue
            nvd = g.randint(0, 2)
            x = [g.uniform(-vmax, vmax) for _ in range(nn + nvd)]
            yield nodes, devs, specs, nvd, x

    def mk(case):
        nodes, devs, specs, nvd, x = case
        c = ahkab.Circuit('t')
        c.add_node('0')
        for n in nodes:
            c.add_node(n)
        c.add_resistor('R1', nodes[1], '0', 1.)
        for i in range(nvd):
            c.add_vsource('V%d' % i, nodes[-1], '0', 1.)
        add_devs(c, devs)
        for i, s in enumerate(specs):
            c.append(Poly('Y%d' % i, s))
        return c

    def expect(c, x):
        n = len(x)
        T, J = np.zeros(n), np.zeros((n, n))
        lin = [e for e in c if not (e.is_nonlinear and isinstance(e, Poly))]

        class V(list):
            pass
        t, j = law_devices(V(lin), x, n)
        T += t
        J += j
        for e in c:
            if isinstance(e, Poly):
                law_poly(e, x, T, J)
        return T, J

    def cmp(what, A, B, case):
        r.need(close(A, B, rtol=1e-9, atol=1e-13), 'stamp:' + what, lambda: '%s:\n%s\nexpected\n%s' % (what, A, B))

    def upd(case):
        c = mk(case)
        x = np.array(case[4]).reshape(-1, 1)
        x0 = x.copy()
        T, J = expect(c, x[:, 0])
        n = len(x)
        for sparse in (0, 1):
            import scipy.sparse
            Jr = scipy.sparse.lil_matrix((n, n)) if sparse else np.zeros((n, n))
            Tr = np.zeros((n, 1))
            for e in c:
                if e.is_nonlinear:
                    dc._update_J_and_Tx(Jr, Tr, x, e, 0.)
            cmp('residual', Tr[:, 0], T, case)
            cmp('jacobian', Jr.toarray() if sparse else Jr, J, case)
            r.need((x == x0).all(), 'stamp:x-modified', 'the candidate solution was modified')

    def acj(case):
        c = mk(case)
        x = np.array(case[4]).reshape(-1, 1)
        T, J = expect(c, x[:, 0])
        cmp('ac-jacobian', ac._generate_J(x, c, len(x)), J, case)

    def shoot(case):
        c = mk(case)
        x = np.array(case[4])
        n = len(x)
        T, J = expect(c, x)
        g = np.random.RandomState(3)
        M, D, xp = g.randn(n, n), g.randn(n, n), g.randn(n)
        h = 1e-3
        Jr, Tr = sh._get_variable_MAass_and_Tass(c, x, xp, M, D, h, n)
        cmp('shooting-jacobian', Jr, J, case)
        cmp('shooting-residual', np.asarray(Tr).reshape(-1), T + M.dot(x) + D.dot((x - xp) / h), case)

    def newton(case):
        """the residual and Jacobian used by the solver: the first Newton step from x"""
        c = mk(case)
        opt = r.get('options')
        x = np.array(case[4]).reshape(-1, 1)
        n = len(x)
        T, J = expect(c, x[:, 0])
        g = np.random.RandomState(5)
        A, N = g.randn(n, n) + 10 * np.eye(n), g.randn(n, 1)
        try:
            opt.nl_voltages_lock, old = False, opt.nl_voltages_lock
            od, opt.nr_damp_first_iters = opt.nr_damp_first_iters, False
            out = dc.mdn_solver(x.copy(), A, c, T=N, MAXIT=1, nv=c.get_nodes_number(), locked_nodes=[], time=0., debug=False)
        finally:
            opt.nl_voltages_lock = old
            opt.nr_damp_first_iters = od
        res = A.dot(x) + N + T.reshape(-1, 1)
        dx = np.linalg.solve(A + J, -res)
        if np.linalg.cond(A + J) > 1e8:
            return
        r.need(close(out[0], x + dx, rtol=1e-6, atol=1e-9 * (1 + np.abs(dx).max())), 'stamp:newton-step', lambda:
               'first iterate %s expected %s' % (out[0].T, (x + dx).T))
        r.need(close(out[1], res, rtol=1e-9, atol=1e-12), 'stamp:newton-residual', lambda: '%s expected %s' % (out[1].T, res.T))

    def pss(case):
        """the brute-force periodic method linearises the same devices: constant sources give the operating point at every point"""
        c = ahkab.Circuit('t')
        els, devs = case
        for e in els:
            add(c, e)
        add_devs(c, devs)
        op = dc.op_analysis(c, guess=False, verbose=0)
        if op is None:
            return
        for f in (r.get('bfpss.bfpss'), sh.shooting_analysis):
            if f is sh.shooting_analysis and not any(e['t'] in 'CL' for e in els):
                continue
            with tempfile.TemporaryDirectory() as td:
                sol = f(c, 1e-3, points=4, x0=op, outfile=os.path.join(td, 'o'), verbose=0)
                if sol is None:
                    continue
                X = sol.asarray()[1:]
            r.need(np.max(np.abs(X - op.asarray())) < 5e-3 * max(1, np.abs(op.asarray()).max()), 'stamp:pss', lambda: '%s gives %s, OP %s' % (
                f.__name__, X, op.asarray().T))

    def psscases():
        g = r.rng('pss')
        for i in range(r.count(40, 300)):
            nodes = names(g, 3)
            els = [{'t': 'V', 'id': 'V1', 'n1': nodes[1], 'n2': '0', 'v': g.choice([.5, 1., 1.8])}]
            for a in nodes[1:]:
                els += [{'t': 'R', 'id': 'R' + a, 'n1': a, 'n2': '0', 'v': 1e4}, {'t': 'R', 'id': 'Rv' + a, 'n1': a, 'n2': nodes[1], 'v': 5e3}]
            els = [e for e in els if e['n1'] != e['n2']]
            els.append({'t': 'C', 'id': 'C1', 'n1': nodes[2], 'n2': '0', 'v': 1e-9})
            devs = gen_devs(g, nodes, n=2)
            if devs:
                yield els, devs

    r.section('update', cases('upd', r.count(500, 6000)), upd, priv=True, budget=r.count(60, 400))
    r.section('ac', cases('ac', r.count(150, 2000)), acj, priv=True, budget=r.count(30, 300))
    r.section('shooting', cases('sh', r.count(150, 2000)), shoot, priv=True, budget=r.count(30, 300))
    r.section('newton', cases('nw', r.count(200, 2000)), newton, priv=True, budget=r.count(40, 300))
    r.section('pss', psscases(), pss, budget=r.count(60, 400))
    r.done()


if __name__ == "__main__":
    main()
