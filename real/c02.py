from circ import *


def main():
    r = R('random circuits with capacitors, inductors and couplings among other elements, terminals possibly '
          'coinciding; directed one- and two-element circuits; distinct by description')
    tr = r.get('transient')
    ac = r.get('ac')
    opt = r.get('options')

    def expected(els, cmin):
        D = law_dynamic(els)
        nn = len(numbering(els))
        for i in range(1, nn):
            D[i, i] += cmin
        return D

    def one(els, cmin=None):
        c = build(els)
        n = len(numbering(els)) + len(vdelems(els)) - 1
        c0 = opt.cmin
        try:
            if cmin is not None:
                opt.cmin = cmin
            D = expected(els, opt.cmin)
            for name, f in (('generate_D', tr.generate_D), ('_generate_AC', ac._generate_AC)):
                X = f(c, (n, n))
                r.need(X.shape == D.shape, 'dynamic:shape', lambda: '%s %s, expected %s for %s' % (name, X.shape, D.shape, show(els)))
                r.need(close(X[1:, 1:], D[1:, 1:], atol=0), 'dynamic:matrix', lambda: '%s\n%s\nexpected\n%s\nfor %s' % (name, X, D, show(els)))
        finally:
            opt.cmin = c0

    def directed():
        nds = ['0', 'a', 'b']
        for k in 'CLRV':
            for n1 in nds:
                for n2 in nds:
                    e = {'t': k, 'id': k + '1', 'n1': n1, 'n2': n2, 'v': 2.5}
                    b = {'t': 'C', 'id': 'C9', 'n1': 'a', 'n2': 'b', 'v': 3.0}
                    yield [e, b]
                    yield [b, e]
                    yield [b, {'t': 'V', 'id': 'V0', 'n1': 'a', 'n2': '0', 'v': 1.0}, e]

    def rand():
        g = r.rng('c02')
        for i in range(r.count(1500, 30000)):
            els = gen(g, kinds=g.choice(['RCLVIEGHF', 'CLV', 'LLLC', 'LLVE']), emax=12)
            yield els

    def withcmin(els):
        for cm in (0, 1.0, 1e-15):
            one(els, cm)

    def coupled(case):
        k, L1, L2, pre = case
        els = []
        if pre:
            els.append({'t': 'V', 'id': 'V0', 'n1': 'z', 'n2': '0', 'v': 1.0})
        els += [{'t': 'L', 'id': 'La', 'n1': 'a', 'n2': '0', 'v': L1}]
        if pre > 1:
            els.append({'t': 'E', 'id': 'E0', 'n1': 'q', 'n2': '0', 's1': 'a', 's2': '0', 'v': 1.0})
        els += [{'t': 'L', 'id': 'Lb', 'n1': 'b', 'n2': 'a', 'v': L2},
                {'t': 'L', 'id': 'Lc', 'n1': 'b', 'n2': '0', 'v': 5.0},
                {'t': 'K', 'id': 'K1', 'l1': 'La', 'l2': 'Lb', 'v': k}, {'t': 'K', 'id': 'K2', 'l1': 'Lc', 'l2': 'Lb', 'v': k / 2}]
        one(els)

    def badcoupling(case):
        c = build([{'t': 'L', 'id': 'La', 'n1': 'a', 'n2': '0', 'v': 1.0}])
        n0 = len(c)
        try:
            c.add_inductor_coupling('K1', case[0], case[1], .5)
        except ValueError:
            r.need(len(c) == n0, 'coupling:unknown', 'element added although its windings are unknown')
            return
        r.fail('coupling:unknown', 'coupling with an unknown inductor accepted')

    def tran_shape(els):
        # same unknown ordering and size as the static system
        c = build(els)
        dc = r.get('dc_analysis')
        M, N = dc.generate_mna_and_N(c, verbose=0)
        M = r.get('utilities').remove_row_and_col(M)
        D = tr.generate_D(c, M.shape)
        r.need(D.shape == (M.shape[0] + 1, M.shape[1] + 1), 'dynamic:size', lambda: show(els))

    r.section('directed', directed(), one)
    r.section('random', rand(), one, budget=r.count(60, 600))
    r.section('cmin', (gen(r.rng('cm'), kinds='RCLVE', emax=8) for _ in range(150)), withcmin)
    r.section('coupled', [(k, a, b, p) for k in (.1, 1.0, .99) for a in (1.0, 4e-3) for b in (9.0, 1e-6) for p in (0, 1, 2)], coupled)
    r.section('badcoupling', [('La', 'Lx'), ('Lx', 'La'), ('Lx', 'Ly')], badcoupling)
    r.section('size', (gen(r.rng('sz'), emax=10) for _ in range(150)), tran_shape)
    r.done()


if __name__ == "__main__":
    main()
