from circ import *


def main():
    r = R('random element lists (all linear kinds, coinciding terminals, any order) plus directed small ones; '
          'non-trivial: at least one element; distinct by description')
    dc = r.get('dc_analysis')

    def directed():
        # every kind, with every coincidence pattern of its terminals over {0, a, b}
        nds = ['0', 'a', 'b']
        for k in 'RVILCEGHF':
            for n1 in nds:
                for n2 in nds:
                    for s in ([(x, y) for x in nds for y in nds] if k in 'EG' else [None]):
                        e = {'t': k, 'id': k + '1', 'n1': n1, 'n2': n2, 'v': 2.5}
                        if s:
                            e['s1'], e['s2'] = s
                        base = [{'t': 'R', 'id': 'R9', 'n1': 'a', 'n2': 'b', 'v': 4.0}]
                        if k in 'HF':
                            e['src'] = 'V9'
                            src = {'t': 'V', 'id': 'V9', 'n1': 'b', 'n2': '0', 'v': 3.0}
                            yield base + [src, e]
                            yield base + [e, src]
                        else:
                            yield base + [e]
                            yield [e] + base

    def rand():
        g = r.rng('c01')
        for i in range(r.count(2500, 40000)):
            yield gen(g, tdep=True, emax=12)

    def static(els):
        c = build(els)
        M, N = dc.generate_mna_and_N(c)
        m, n = law_static(els)
        r.need(M.shape == m.shape, 'static:shape', lambda: 'matrix shape %s, expected %s for %s' % (M.shape, m.shape, show(els)))
        r.need(N.shape == n.shape, 'static:Nshape', lambda: 'vector shape %s, expected %s' % (N.shape, n.shape))
        r.need(close(M[1:, 1:], m[1:, 1:]), 'static:matrix', lambda: 'matrix\n%s\nexpected\n%s\nfor %s' % (M, m, show(els)))
        r.need(close(N[1:], n[1:]), 'static:vector', lambda: 'vector\n%s\nexpected\n%s\nfor %s' % (N.T, n.T, show(els)))

    def vindex(els):
        c = build(els)
        vd = vdelems(els)
        for i, e in enumerate(vd):
            for nm in (e['id'], e['id'].lower(), e['id'].upper()):
                r.need(c.find_vde_index(nm, verbose=0) == i, 'vde:index', lambda: '%s -> %s, expected %d in %s' % (
                    nm, c.find_vde_index(nm, verbose=0), i, show(els)))
        try:
            c.find_vde_index('Vnone', verbose=0)
            ok = False
        except ValueError:
            ok = True
        r.need(ok, 'vde:unknown', 'unknown element accepted')

    def expand(case):
        u = r.get('utilities')
        g = np.random.RandomState(case)
        a = g.rand(g.randint(1, 5), g.randint(1, 5))
        for row, col in ((True, True), (True, False), (False, True), (False, False)):
            b = u.expand_matrix(a.copy(), add_a_row=row, add_a_col=col)
            e = np.zeros((a.shape[0] + row, a.shape[1] + col))
            e[:a.shape[0], :a.shape[1]] = a
            r.need(b.shape == e.shape and np.array_equal(b, e), 'expand', lambda: '%s -> %s' % (a, b))

    def ccvs_doc(case):
        # documented law: V(n1)-V(n2) = alpha * I(source)
        els = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1.0}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': '0', 'v': 1.0},
               {'t': 'H', 'id': 'H1', 'n1': 'b', 'n2': '0', 'src': 'V1', 'v': 3.0},
               {'t': 'R', 'id': 'R2', 'n1': 'b', 'n2': '0', 'v': 1.0}]
        c = build(els)
        M, N = dc.generate_mna_and_N(c)
        x = np.linalg.solve(M[1:, 1:], -N[1:])
        # unknowns: V(a) V(b) I(V1) I(H1)
        r.need(abs(x[1, 0] - 3.0 * x[2, 0]) < 1e-9, 'static:ccvs-sign', 'V(b)=%g with alpha*I(V1)=%g' % (x[1, 0], 3 * x[2, 0]))

    r.section('expand', range(40), expand)
    r.section('directed', directed(), static)
    r.section('static', rand(), static, budget=r.count(60, 600))
    r.section('vde', (gen(r.rng('vde'), kinds='RVLEHICG', emax=14) for _ in range(300)), vindex)
    r.section('ccvs-doc', [0], ccvs_doc)
    r.done()


if __name__ == "__main__":
    main()
