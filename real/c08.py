import itertools
from circ import *
from dev import *
from c03 import wellposed


def main():
    r = R('every pattern of success and failure of the single solves (all orders, all sets of enabled methods), and operating '
          'points of random linear and nonlinear circuits; distinct by pattern or description')
    dc, opt = r.get('dc_analysis'), r.get('options')
    NAMES = ('use_standard_solve_method', 'use_gmin_stepping', 'use_source_stepping')

    def with_opts(vals, f):
        old = [getattr(opt, n) for n in NAMES]
        try:
            for n, v in zip(NAMES, vals):
                setattr(opt, n, v)
            return f()
        finally:
            for n, v in zip(NAMES, old):
                setattr(opt, n, v)

    class Script(object):
        """stands in for the single solve: success or failure as scripted, what it was asked is recorded"""

        def __init__(self, pattern, default, exc):
            self.p, self.d, self.exc, self.calls = list(pattern), default, exc, []

        def __call__(self, x, mna, circ, T, *a, **k):
            MAXIT = k.get('MAXIT', 10)
            n = len(self.calls)
            ok = self.p[n] if n < len(self.p) else self.d
            self.calls.append((np.array(mna), np.array(T), None if x is None else np.array(x), ok))
            if len(self.calls) > 300:
                raise CaseTimeout('more than 300 solves')
            if not ok and self.exc == 1:
                raise np.linalg.LinAlgError('scripted')
            if not ok and self.exc == 2:
                raise RuntimeError('scripted')
            if not ok and self.exc == 3:
                raise OverflowError('scripted')
            return np.full((len(T), 1), float(n + 1)), np.zeros((len(T), 1)), ok, 1, []

    def circuit():
        c = ahkab.Circuit('t')
        c.add_vsource('V1', 'a', '0', 2.)
        c.add_resistor('R1', 'a', 'b', 10.)
        c.add_resistor('R2', 'b', '0', 10.)
        c.add_isource('I1', 'b', '0', .5)
        return c

    def pattern(case):
        vals, pat, default, exc, gm = case
        c = circuit()
        M = np.arange(9.).reshape(3, 3) + 1
        N = np.array([[1.], [2.], [3.]])
        Nt = np.array([[.5], [.25], [.125]])
        G = np.diag([1e-3, 1e-3, 0.]) if gm else None
        s = Script(pat, default, exc)
        if not hasattr(dc, 'mdn_solver'):
            raise Missing('dc_analysis.mdn_solver')
        old = dc.mdn_solver
        try:
            dc.mdn_solver = s
            x, err, conv, nit = with_opts(vals, lambda: dc.dc_solve(M, N, c, Ntran=Nt, Gmin=G, x0=None, verbose=0))
        finally:
            dc.mdn_solver = old
        full = M + (G if gm else 0)
        if not s.calls:
            r.need(not any(vals) and not conv and x is None, 'op:no-method', lambda: 'nothing solved but converged=%s x=%s' % (conv, x))
            return
        r.need(any(vals), 'op:disabled', 'a disabled method was used')
        if conv:
            m, t, _, ok = s.calls[-1]
            r.need(ok, 'op:last-failed', 'success reported although the last solve failed')
            r.need(np.array_equal(m, full) and close(t, N + Nt), 'op:modified-problem', lambda:
                   'success reported for the modified problem\n%s\n%s (solve %d of %s)' % (m - full, (t - N - Nt).T, len(s.calls), [q[3] for q in s.calls]))
            r.need(x is not None and close(x, np.full((3, 1), float(len(s.calls)))), 'op:vector', lambda: '%s is not the last solution' % x)
        else:
            r.need(x is None, 'op:failed-vector', lambda: 'failure reported with a solution %s' % x)
            r.need(not s.calls[-1][3], 'op:gave-up', lambda: 'failure reported although the last solve succeeded: %s' % [q[3] for q in s.calls])
        # which problems a method may solve
        for m, t, x0, ok in s.calls:
            g = m - full
            d = np.diag(g)
            r.need(np.array_equal(g, np.diag(d)) and abs(d[0] - d[1]) < 1e-14 and d[2] == 0 and d[0] >= 0, 'op:gmin-matrix', lambda:
                   'a solve adds %s to the matrix' % g)
            f = (t - Nt)[0, 0] / N[0, 0]
            r.need(close(t - Nt, f * N) and 0 <= f <= 1, 'op:source-factor', lambda: 'a solve uses the sources %s' % t.T)
            r.need(vals[1] or d[0] == 0, 'op:disabled', 'conductance stepping used while disabled')
            r.need(vals[2] or f == 1, 'op:disabled', 'source stepping used while disabled')
        # failure only after every enabled method was tried
        if not conv:
            need = sum(1 for v in vals if v)
            r.need(sum(1 for q in s.calls if not q[3]) >= need, 'op:methods', lambda: '%d enabled methods, solves %s' % (need, [q[3] for q in s.calls]))

    def patterns():
        for vals in itertools.product((True, False), repeat=3):
            for default in (True, False):
                for n in range(0, r.count(6, 8)):
                    for pat in itertools.product((True, False), repeat=n):
                        if n and pat[-1] == default:
                            continue
                        yield vals, pat, default, 0, False
                for k in range(0, 26):
                    for exc in (0, 1, 2, 3):
                        yield vals, (False,) + (True,) * k + (False,), default, exc, k % 2 == 0
                        yield vals, (False,) * 2 + (True,) * k + (False,), default, exc, k % 2 == 1

    def opcase(case):
        els, devs, vals = case
        c = build(els)
        add_devs(c, devs)
        op = with_opts(vals, lambda: dc.op_analysis(c, guess=False, verbose=0))
        if not any(vals):
            r.need(op is None, 'op:no-method', 'a solution without any method')
            return
        if op is None:
            r.need(bool(devs), 'op:linear', 'a well posed linear circuit is not solved')
            return
        x = op.asarray()
        M, N = law_static(els)
        T, J = law_devices(c, x[:, 0], len(x))
        F = M[1:, 1:].dot(x) + N[1:] + T.reshape(-1, 1)
        nv = len(numbering(els)) - 1
        lim = 1e-3 * (np.abs(M[1:, 1:]) * np.abs(x).T).sum(axis=1) * .01 + 1e-8 + 2e-6 * np.abs(M[1:, 1:] + J).sum(axis=1)
        r.need(np.all(np.isfinite(x)) and np.all(np.abs(F[:, 0]) <= lim), 'op:residual', lambda: 'residual %s at %s (limits %s)\n%s %s' % (
            F.T, x.T, lim, show(els), devs))

    def ops():
        g = r.rng('op')
        for i in range(r.count(200, 3000)):
            els = wellposed(g, extra=g.choice(['RVI', 'RLCGEVI', 'RLCGEVIFH']))
            devs = []
            if i % 3:
                els = [dict(e, v=min(abs(e['v']), 1.5)) if e['t'] == 'V' else dict(e, v=1e-3 * e['v']) if e['t'] == 'I' else e
                       for e in els if e['t'] not in 'GEFH']
                M, N = law_static(els)
                if np.linalg.matrix_rank(M[1:, 1:]) < len(M) - 1:
                    continue
                devs = gen_devs(g, list(numbering(els)))
            yield els, devs, g.choice([(True, True, True)] * 4 + [(False, True, True), (False, False, True), (False, True, False), (False,) * 3])

    def floating(case):
        """no solution without the minimum conductance: the documented minimum conductance result, or failure"""
        els = case
        c = build(els)
        op = dc.op_analysis(c, guess=False, verbose=0)
        if op is None:
            return
        x = op.asarray()
        M, N = law_static(els)
        nv = len(numbering(els)) - 1
        G = np.diag([opt.gmin] * nv + [0.] * (len(x) - nv))
        for A in (M[1:, 1:], M[1:, 1:] + G):
            if np.all(np.abs(A.dot(x) + N[1:]) <= 1e-9 * (np.abs(A).dot(np.abs(x)) + 1)):
                return
        r.fail('op:floating', 'x = %s solves neither the circuit nor the circuit with the minimum conductance (%s)' % (x.T, show(els)))

    E = lambda t, i, a, b, v: {'t': t, 'id': i, 'n1': a, 'n2': b, 'v': v}
    fl = [[E('V', 'V1', 'a', '0', 1.), E('C', 'C1', 'a', 'b', 1.), E('R', 'R1', 'a', 'c', 1.), E('C', 'C2', 'c', '0', 1.)],
          [E('I', 'I1', 'a', '0', 1e-3), E('C', 'C1', 'a', '0', 1.), E('R', 'R1', 'b', '0', 1.)],
          [E('V', 'V1', 'a', '0', 1.), E('R', 'R1', 'a', '0', 1.), E('R', 'R2', 'b', 'c', 1.)],
          [E('V', 'V1', 'a', '0', 1.), E('V', 'V2', 'a', '0', 2.), E('R', 'R2', 'a', '0', 1.)]]
    r.section('patterns', patterns(), pattern, priv=True, budget=r.count(120, 800))
    r.section('circuits', ops(), opcase, budget=r.count(120, 600))
    r.section('floating', fl, floating)
    r.done()


if __name__ == '__main__':
    main()
