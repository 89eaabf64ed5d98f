from circ import *
from dev import *
import sympy


def main():
    r = R('random circuits of all the linear elements, couplings, diodes and MOS transistors, some elements numeric, terminals possibly coinciding, node and '
          'source names that collide; small well-posed circuits solved symbolically with and without substitutions and conductances; distinct by description')
    opt = r.get('options')
    sS = None

    def values(els, c):
        d = {}
        by = dict((e['id'], e) for e in els)
        for e in els:
            if e['t'] == 'K':
                d[e['id'].upper()] = e['v'] * np.sqrt(by[e['l1']]['v'] * by[e['l2']]['v'])
            else:
                d[e['id'].upper()] = e['v']
        return d

    def circuits(name, q, t):
        g = r.rng(name)
        for _ in range(r.count(q, t)):
            els = gen(g, g.choice(['RCLVIEGHF', 'RCLVIEGHF', 'LLRC', 'VRGI']), nmax=4, emax=8)
            devs = gen_devs(g, names(g, 4), n=2, kinds='dqe', distinct=False) if g.random() < .4 else []
            num = [e['id'] for e in els if g.random() < .25]
            yield els, devs, num, g.random() < .6, g.random() < .5, g.randrange(10 ** 9)

    def subst(M, val, sv, key):
        out = np.zeros(M.shape, dtype=complex)
        for i in range(M.shape[0]):
            for j in range(M.shape[1]):
                x = sympy.sympify(M[i, j])
                fs = x.free_symbols
                for q in fs:
                    r.need(q.name in val or q.name == 's', key + ':names', lambda: 'symbol %s in entry %d, %d: %s' % (q.name, i, j, x))
                out[i, j] = complex(x.subs(dict((q, sv if q.name == 's' and q.name not in val else val[q.name]) for q in fs)).evalf())
        return out

    def assembly(case):
        els, devs, num, ac, r0s, s = case
        g = random.Random(s)
        c = build(els)
        add_devs(c, devs)
        for e in c:
            if e.part_id in num:
                e.is_symbolic = False
        gm = r.get('symbolic.generate_mna_and_N')
        mna, N, sg = gm(c, opts={'r0s': r0s}, ac=ac, subs={}, verbose=0)
        val = values(els, c)
        A, Nn = r.get('dc_analysis.generate_mna_and_N')(c, verbose=0)
        A = np.array(A, dtype=complex)
        if not ac:
            r.need(not any(q.name == 's' for q in mna.free_symbols), 'sym:dynamic', 's in the matrix without the AC flag')
        sv = complex(g.uniform(-2, 2), g.uniform(-2, 2))
        if ac:
            D = r.get('transient.generate_D')(c, (A.shape[0] - 1, A.shape[0] - 1))
            D = np.array(D, dtype=complex)
            # the numeric one has a minimum capacitance on each node
            for i in range(1, c.get_nodes_number()):
                D[i, i] -= opt.cmin
            A = A + sv * D
        for dv in devs:
            e = c.get_elem_by_name(dv['id'])
            p = dv['id'].upper()
            if dv['model'][0] == 'd':
                v = val['G' + p] = g.uniform(.1, 3)
                for i, j, q in ((e.n1, e.n1, 1), (e.n1, e.n2, -1), (e.n2, e.n1, -1), (e.n2, e.n2, 1)):
                    A[i, j] += q * v
            else:
                v = val['GM_' + p] = g.uniform(.1, 3)
                for i, j, q in ((e.n1, e.ng, 1), (e.n1, e.n2, -1), (e.n2, e.ng, -1), (e.n2, e.n2, 1)):
                    A[i, j] += q * v
                if r0s:
                    v = 1. / g.uniform(.1, 3)
                    val['R0_' + p] = 1. / v
                    for i, j, q in ((e.n1, e.n1, 1), (e.n1, e.n2, -1), (e.n2, e.n1, -1), (e.n2, e.n2, 1)):
                        A[i, j] += q * v
        r.need(mna.shape == A.shape and N.shape == (A.shape[0], 1), 'sym:shape', lambda: '%r and %r for %r' % (mna.shape, N.shape, A.shape))
        X, Y = subst(mna, val, sv, 'sym'), subst(N, val, sv, 'sym')
        sc = 1e-12 * (np.abs(A) + 1e-9)
        nd = c.get_nodes_number()
        for i in range(1, A.shape[0]):
            for j in range(1, A.shape[0]):
                sc = 1e-10 * max(abs(A[i, j]), np.max(np.abs(A)) * 1e-3, 1e-15)
                r.need(abs(X[i, j] - A[i, j]) <= sc, 'sym:matrix', lambda: 'entry %d, %d: %s is %r, numerically %r' % (i, j, mna[i, j], X[i, j], A[i, j]))
            r.need(abs(Y[i, 0] - Nn[i, 0]) <= 1e-10 * (1 + abs(Nn[i, 0])), 'sym:source', lambda: 'row %d: %s is %r, numerically %r' % (i, N[i, 0], Y[i, 0], Nn[i, 0]))
        # the names: every element which is symbolic and connected appears by name
        have = set(q.name for q in mna.free_symbols | N.free_symbols)
        for e in els:
            if e['id'] in num:
                r.need(e['id'].upper() not in have, 'sym:numeric', lambda: '%s is numeric, in the system as a symbol' % e['id'])
            elif e['t'] in 'RVI' + 'C' * ac:
                if e['n1'] != e['n2'] or e['t'] == 'V':
                    r.need(e['id'].upper() in have, 'sym:names', lambda: '%s does not appear' % e['id'])
        # the unknowns
        x = r.get('symbolic.get_variables')(c)
        d, vd = numbering(els), vdelems(els)
        if not devs:
            want = ['V' + n.upper() for n in d if n != '0'] + ['I[%s]' % e['id'].upper() for e in vd]
            r.need([q.name for q in x] == want, 'sym:unknowns', lambda: '%r, should be %r' % (list(x), want))

    # ---- solutions
    def solvable():
        g = r.rng('solve')
        k = 0
        while k < r.count(40, 400):
            els = gen(g, g.choice(['RRCLVIEGHF', 'RRCVI', 'RRLVG']), nmax=3, emax=5, distinct=True)
            if g.random() < .5:
                # nodes called as the sources
                m = dict(zip([n for n in numbering(els) if n != '0'], ['1', '2', '3', '4', '5']))
                m['0'] = '0'
                for e in els:
                    for q in ('n1', 'n2', 's1', 's2'):
                        if q in e:
                            e[q] = m[e[q]]
            A, N = law_static(els, dc=True)
            A = A[1:, 1:] + 1.3 * law_dynamic(els)[1:, 1:]
            if not A.size or A.shape[0] > 5 or np.linalg.cond(A) > 1e8 or not any(e['t'] in 'VI' for e in els):
                continue
            k += 1
            rs = [e['id'] for e in els if e['t'] == 'R']
            src = g.choice([e['id'] for e in els if e['t'] in 'VI'])
            sub = None
            if len(rs) > 1 and g.random() < .5:
                sub = {rs[0]: rs[1]}
            elif g.random() < .3:
                vs = [e['id'] for e in els if e['t'] == g.choice('VIC')]
                if len(vs) > 1:
                    sub = {vs[0]: vs[1]}
            yield els, src, sub, g.random() < .3, g.randrange(10 ** 9)

    def solve(case):
        els, src, sub, gs, s = case
        g = random.Random(s)
        c = build(els)
        old = opt.symb_formulate_with_gs
        try:
            opt.symb_formulate_with_gs = gs
            an = ahkab.new_symbolic(source=src, ac_enable=True, subs=sub)
            sol, tfs = ahkab.run(c, an)['symbolic']
        finally:
            opt.symb_formulate_with_gs = old
        e2 = [dict(e) for e in els]
        if sub:
            (p, q), = sub.items()
            v = [e['v'] for e in els if e['id'] == q][0]
            for e in e2:
                if e['id'] == p:
                    e['v'] = v
        c2 = build(e2)
        A, Nn = r.get('dc_analysis.generate_mna_and_N')(c2, verbose=0)
        D = law_dynamic(e2)
        sv = complex(g.uniform(.5, 2), g.uniform(-2, 2))
        A = (A + sv * D)[1:, 1:]
        if np.linalg.cond(A) > 1e9:
            return
        x = np.linalg.solve(A, -Nn[1:, 0])
        val = values(e2, c2)
        d, vd = numbering(els), vdelems(els)
        nm = ['V' + n for n in d if n != '0'] + ['I[%s]' % e['id'].upper() for e in vd]

        def num(ex, what):
            fs = sympy.sympify(ex).free_symbols
            for q in fs:
                r.need(q.name in val or q.name == 's', 'sol:names', lambda: 'symbol %s in %s: %s' % (q.name, what, ex))
            if sub:
                r.need(list(sub)[0].upper() not in [q.name for q in fs], 'sol:subs', lambda: '%s still in %s: %s' % (list(sub)[0], what, ex))
            return complex(sympy.sympify(ex).subs(dict((q, sympy.sympify(sv) if q.name == 's' else val[q.name]) for q in fs)).evalf())
        sc = np.max(np.abs(x))
        r.need(set(k.upper() for k in sol.results.keys()) == set(n.upper() for n in nm), 'sol:unknowns', lambda: '%r, should be %r' % (sorted(sol.results.keys()), nm))
        for k, n in enumerate(nm):
            got = num(sol.results[n], n)
            r.need(abs(got - x[k]) <= 1e-7 * (abs(x[k]) + sc * 1e-3), 'sol:value', lambda: '%s = %s is %r, numerically %r' % (n, sol.results[n], got, x[k]))
        # transfer functions: the response to the chosen source alone
        if sub and src in (list(sub)[0], list(sub.values())[0]):
            return
        e3 = [dict(e, v=(1. if e['id'] == src else 0.) if e['t'] in 'VI' else e['v']) for e in e2]
        N3 = r.get('dc_analysis.generate_mna_and_N')(build(e3), verbose=0)[1]
        y = np.linalg.solve(A, -N3[1:, 0])
        for k, n in enumerate(nm):
            key = '%s/%s' % (n.upper(), src.upper())
            r.need(key in tfs.results, 'tf:names', lambda: 'no transfer function %s in %r' % (key, list(tfs.results.keys())))
            t = tfs.results[key]
            got = num(t['gain'], key)
            r.need(abs(got - y[k]) <= 1e-7 * (abs(y[k]) + np.max(np.abs(y)) * 1e-3), 'tf:value', lambda: '%s = %s is %r, numerically %r' % (key, t['gain'], got, y[k]))
            A0 = np.array(r.get('dc_analysis.generate_mna_and_N')(c2, verbose=0)[0], dtype=complex)
            for what in ('poles', 'zeros'):
                for p in t[what]:
                    pv = num(p, what)
                    B = (A0 + pv * D)[1:, 1:]
                    if what == 'zeros':
                        # the transfer vanishes: Cramer
                        B = B.copy()
                        B[:, k] = -N3[1:, 0]
                    f = np.max(np.abs(A0[1:, 1:]) + abs(pv) * np.abs(D[1:, 1:]) + (np.abs(N3[1:]) if what == 'zeros' else 0), axis=1, keepdims=True)
                    if not f.all():
                        continue
                    sg = np.linalg.svd(B / f, compute_uv=False)
                    r.need(sg[-1] <= 1e-5 * sg[0], 'tf:' + what, lambda: '%s: %r of %s is not one (%r)' % (key, pv, t['gain'], sg[-1] / sg[0]))
            r.need(abs(num(t['gain0'], key) - num(sympy.sympify(t['gain']).subs(sympy.Symbol('s', complex=True) if not any(q.name == 's' for q in sympy.sympify(
                t['gain']).free_symbols) else [q for q in sympy.sympify(t['gain']).free_symbols if q.name == 's'][0], 0), key)) <= 1e-9 * abs(num(t['gain0'], key)) + 1e-30
                or not np.isfinite(num(t['gain0'], key)), 'tf:gain0', 'gain0 is not the gain at s = 0')

    r.section('assembly', circuits('asm', 120, 1500), assembly, priv=True, budget=r.count(40, 300))
    r.section('solution', solvable(), solve, budget=r.count(60, 420), limit=120)
    r.done()


if __name__ == '__main__':
    main()
