from circ import *
from dev import *


def wellposed(g, ac=True, nonlin=False, extra='RCLGEVI'):
    """a connected random circuit with a resistor from every node to ground"""
    while True:
        els = gen(g, kinds=extra + 'RC', emax=10, ac=ac, distinct=True)
        nodes = [n for n in numbering(els) if n != '0']
        els += [{'t': 'R', 'id': 'Rg%d' % i, 'n1': n, 'n2': '0', 'v': g.choice([10., 50., 123.])} for i, n in enumerate(nodes)]
        if not any(e['t'] in 'VI' and e.get('ac') for e in els):
            els.append({'t': 'I', 'id': 'Iac', 'n1': nodes[0] if nodes else 'a', 'n2': '0', 'v': 0.5, 'ac': 1.0})
            if not nodes:
                els.append({'t': 'R', 'id': 'Rz', 'n1': 'a', 'n2': '0', 'v': 1.0})
        M, N = law_static(els)
        A = M[1:, 1:]
        if np.linalg.matrix_rank(A) == A.shape[0] and np.linalg.cond(A) < 1e7:
            return els


def law_ac(els):
    d = numbering(els)
    vd = vdelems(els)
    row = dict((e['id'].upper(), len(d) + i) for i, e in enumerate(vd))
    N = np.zeros((len(d) + len(vd), 1), dtype=complex)
    for e in els:
        a = e.get('ac')
        if not a:
            continue
        if e['t'] == 'I':
            N[d[e['n1']], 0] += a
            N[d[e['n2']], 0] -= a
        if e['t'] == 'V':
            N[row[e['id'].upper()], 0] -= a
    return N


def grid(kind, a, b, n):
    if kind == 'LIN':
        return np.array([a + (b - a) * i / (n - 1.) for i in range(n)])
    return np.array([a * (b / a) ** (i / (n - 1.)) for i in range(n)])


def main():
    r = R('random AC circuits (R, C, L, K, E, G, F, H, V, I with AC values of any phase, some without), both sweep '
          'types; nonlinear ones linearised at their operating point; distinct by description')
    ac, dc = r.get('ac'), r.get('dc_analysis')
    opt = r.get('options')

    def nac(els):
        c = build(els)
        N = ac._generate_Nac(c)
        E = law_ac(els)
        r.need(N.shape == E.shape and close(N[1:], E[1:]), 'ac:sources', lambda: '%s expected %s for %s' % (N.T, E.T, show(els)))

    def randn():
        g = r.rng('nac')
        for i in range(r.count(600, 10000)):
            yield gen(g, ac=True)

    def sweeps(n, extra='RCLGEVIFH'):
        g = r.rng('ac' + extra)
        for i in range(n):
            els = wellposed(g, extra=extra)
            kind = g.choice(['LIN', 'LOG', 'lin', 'log'])
            a = g.choice([1., 50., 1e3])
            yield els, kind, a, a * g.choice([2., 1e3, 1e5]), g.choice([2, 3, 7])

    def solve(els, w, J=0):
        M, _ = law_static(els)
        D = law_dynamic(els)
        nn = len(numbering(els))
        D = D + np.diag([0] + [opt.cmin] * (nn - 1) + [0] * (len(M) - nn))
        G = np.diag([0] + [opt.gmin] * (nn - 1) + [0] * (len(M) - nn))
        A = (M + G + 1j * w * D)[1:, 1:] + J
        return A, -law_ac(els)[1:]

    def compare(res, els, kind, a, b, n, J=0, rtol=1e-5):
        f = grid(kind.upper(), a, b, n)
        r.need(len(res['f']) == n, 'ac:npoints', lambda: '%d points, asked for %d' % (len(res['f']), n))
        r.need(close(np.real(res['f']), f, rtol=1e-6), 'ac:grid', lambda: 'frequencies %s, expected %s' % (res['f'], f))
        d = numbering(els)
        labels = ['V' + x for x in sorted(d, key=d.get) if x != '0'] + ['I(%s)' % e['id'].upper() for e in vdelems(els)]
        for q, fr in enumerate(f):
            A, bvec = solve(els, 2 * np.pi * fr, J)
            x = np.linalg.solve(A, bvec)
            cond = np.linalg.cond(A)
            if cond > 1e11:
                continue
            y = np.array([res[l][q] for l in labels]).reshape(-1, 1)
            sc = np.max(np.abs(x)) + 1e-30
            r.need(np.max(np.abs(x - y)) <= max(rtol, cond * 1e-14) * sc, 'ac:solution', lambda: 'f=%g: %s\nexpected %s\nfor %s' % (
                fr, y.T, x.T, show(els)))

    def lin(case):
        els, kind, a, b, n = case
        c = build(els)
        res = ahkab.run(c, ahkab.new_ac(a, b, n, x0=None, sweep_type=kind))['ac']
        compare(res, els, kind, a, b, n)

    def direct(case):
        els, kind, a, b, n = case
        import tempfile
        with tempfile.TemporaryDirectory() as td:
            res = ac.ac_analysis(build(els), a, n, b, sweep_type=kind, outfile=os.path.join(td, 'o'), verbose=0)
            compare(res, els, kind, a, b, n)

    def default_sweep(case):
        els = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1.0, 'ac': 1.0},
               {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': 'b', 'v': 1e3}, {'t': 'C', 'id': 'C1', 'n1': 'b', 'n2': '0', 'v': 1e-6}]
        import tempfile
        with tempfile.TemporaryDirectory() as td:
            res = ac.ac_analysis(build(els), 10., 5, 1e5, outfile=os.path.join(td, 'o'), verbose=0)
            compare(res, els, 'LOG', 10., 1e5, 5)

    def bad(case):
        kw, els = case
        c = build(els)
        try:
            ac.ac_analysis(c, outfile='/dev/null', verbose=0, **kw)
        except ValueError:
            return
        r.fail('ac:badargs', 'accepted %r' % (kw,))

    def nl(case):
        els, kind, a, b, n, devs = case
        c = build(els)
        add_devs(c, devs)
        op = dc.op_analysis(c, guess=False, verbose=0)
        if op is None:
            return
        x = op.asarray()
        _, J = law_devices(c, x[:, 0], x.shape[0])
        res = ahkab.run(c, ahkab.new_ac(a, b, n, x0=op, sweep_type=kind))['ac']
        compare(res, els, kind, a, b, n, J, rtol=1e-4)

    def nlcases():
        g = r.rng('acnl')
        for i in range(r.count(60, 600)):
            els = wellposed(g, extra='RCLVI')
            nd = list(numbering(els))
            els = [dict(e, v=min(abs(e['v']), 1.5)) if e['t'] == 'V' else dict(e, v=1e-3 * e['v']) if e['t'] == 'I' else e for e in els]
            devs = gen_devs(g, nd)
            a = g.choice([1., 1e3])
            if not devs:
                continue
            yield els, g.choice(['LIN', 'LOG']), a, a * 100, 3, devs

    v1 = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1.0, 'ac': 1.0}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': '0', 'v': 1e3}]
    r.section('sources', randn(), nac, priv=True)
    r.section('default', [0], default_sweep)
    r.section('linear', sweeps(r.count(150, 1500)), lin, budget=r.count(60, 500))
    r.section('nofh', sweeps(r.count(60, 600), 'RCLV'), direct, budget=r.count(30, 200))
    r.section('badargs', [({'start': 0, 'stop': 1e3, 'points': 5, 'sweep_type': 'LIN'}, v1),
                          ({'start': 1e4, 'stop': 1e3, 'points': 5, 'sweep_type': 'LIN'}, v1),
                          ({'start': 1., 'stop': 1e3, 'points': 1, 'sweep_type': 'LOG'}, v1),
                          ({'start': 1., 'stop': 1e3, 'points': 5, 'sweep_type': 'OCT'}, v1)], bad)
    r.section('nonlinear', nlcases(), nl, budget=r.count(60, 400))
    r.done()


if __name__ == "__main__":
    main()
