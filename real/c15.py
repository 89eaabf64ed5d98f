from circ import *
from dev import *
from c03 import wellposed, law_ac
import tempfile


def main():
    r = R('random circuits with many voltage-defined elements in every order, names in every case; every analysis; distinct by description')
    dc, res, ac = r.get('dc_analysis'), r.get('results'), r.get('ac')

    def cases(n, name):
        g = r.rng(name)
        for i in range(n):
            yield wellposed(g, extra='VELHVEF'), g.randint(0, 10 ** 6)

    def labels(els):
        d = numbering(els)
        return ['V' + x for x in sorted(d, key=d.get) if x != '0'] + ['I(%s)' % e['id'] for e in vdelems(els)]

    def uniq(els):
        l = [x.upper() for x in labels(els)]
        return len(set(l)) == len(l)

    def lookup(case):
        els, sd = case
        c = build(els)
        d = numbering(els)
        vd = [e['id'] for e in vdelems(els)]
        g = random.Random(sd)
        for i, q in enumerate(vd):
            for nm in (q, q.lower(), q.upper(), q.swapcase()):
                r.need(c.find_vde_index(nm, verbose=0) == i, 'label:vde', lambda: 'find_vde_index(%r) = %r expected %d' % (nm, c.find_vde_index(nm), i))
            e = c.find_vde(len(d) - 1 + i)
            r.need(e.part_id == q, 'label:vde', lambda: 'find_vde(%d) is %s, expected %s' % (len(d) - 1 + i, e.part_id, q))
            r.need(c.find_vde_index(e, verbose=0) == i, 'label:vde', 'index of the element')
        for bad in [e['id'] for e in els if e['t'] not in 'VELH'] + ['V_none']:
            try:
                c.find_vde_index(bad, verbose=0)
                r.fail('label:unknown', 'found %r' % bad)
            except ValueError:
                r.n += 1
        try:
            c.find_vde(len(d) - 1 + len(vd))
            r.fail('label:unknown', 'found an element past the end')
        except IndexError:
            r.n += 1

    def synthetic(case):
        """result objects given known solution vectors"""
        els, sd = case
        if not uniq(els):
            return
        c = build(els)
        lab = labels(els)
        n = len(lab)
        g = np.random.RandomState(sd)
        k = g.randint(1, 5)
        X = g.uniform(-10, 10, (n, k))
        Z = X + 1j * g.uniform(-10, 10, (n, k))
        T = np.cumsum(g.uniform(.1, 1, k))
        with tempfile.TemporaryDirectory() as td:
            op = res.op_solution(X[:, :1], 0 * X[:, :1], c, outfile=None)
            tr = res.tran_solution(c, 0., 1., op=X[:, :1], method='TRAP', outfile=os.path.join(td, 't'))
            ds = res.dc_solution(c, 0., 1., 'VXX_sweep', 'LIN', outfile=os.path.join(td, 'd'))
            acs = res.ac_solution(c, 1., 2., k, 'LIN', op, outfile=os.path.join(td, 'a'))
            ps = res.pss_solution(c, 'bf', 1., outfile=os.path.join(td, 'p'))
            for j in range(k):
                tr.add_line(T[j], X[:, j:j + 1])
                ds.add_op(T[j], res.op_solution(X[:, j:j + 1], 0 * X[:, :1], c, outfile=None))
                acs.add_line(T[j], Z[:, j:j + 1])
            ps.set_results(T.reshape(1, -1), X)
            for nm, s, want, ax in (('tran', tr, X, T), ('dc', ds, X, T), ('ac', acs, Z, T), ('pss', ps, X, T)):
                r.need([v.upper() for v in s.keys()][1:] == [l.upper() for l in lab], 'label:names', lambda: '%s: %s expected %s' % (nm, s.keys(), lab))
                r.need(close(np.asarray(s.get_x()).reshape(-1), ax), 'label:axis', nm)
                for i, l in enumerate(lab):
                    for q in (l, l.lower(), l.upper()):
                        r.need(close(np.asarray(s[q]).reshape(-1), want[i], rtol=1e-12), 'label:value', lambda: '%s[%s] = %s expected %s' % (nm, q, s[q], want[i]))
                r.need(close(np.asarray(s.asarray())[1:], want, rtol=1e-12), 'label:array', nm)
            for i, l in enumerate(lab):
                r.need(np.asarray(op[l]).reshape(-1)[0] == X[i, 0] and op.results[l] == X[i, 0], 'label:value', lambda: 'op[%s] = %s expected %s' % (l, op[l], X[i, 0]))
                r.need(op.units[l] == ('V' if l[0] == 'V' else 'A') == tr.units[l] == ds.units[l] == acs.units[l] == ps.units[l], 'label:units', l)

    def solve(els):
        M, N = law_static(els)
        return np.linalg.solve(M[1:, 1:], -N[1:])

    def analyses(case):
        """real analyses against the element laws, by label"""
        els, sd = case
        if not uniq(els):
            return
        c = build(els)
        lab = labels(els)
        x = solve(els)
        out = {}
        ops = ahkab.run(c, ahkab.new_op(guess=False))['op']
        M, N = law_static(els)
        k = np.linalg.cond(M[1:, 1:])
        tol = 1e-13 * k * np.max(np.abs(x)) + 1e-9
        for i, l in enumerate(lab):
            r.need(abs(np.asarray(ops[l]).reshape(-1)[0] - x[i, 0]) <= tol, 'label:op', lambda: '%s = %s expected %s' % (l, ops[l], x[i, 0]))
        a = ahkab.run(c, ahkab.new_ac(1., 1e3, 3, x0=None))['ac']
        D = law_dynamic(els)
        S = law_ac(els)
        for q, f in enumerate(np.asarray(a.get_x()).real.reshape(-1)):
            A = M[1:, 1:] + 1j * 2 * np.pi * f * D[1:, 1:]
            want = np.linalg.solve(A, -S[1:])
            tol = (1e-12 * np.linalg.cond(A) + 1e-7) * np.max(np.abs(want))
            A2 = M[1:, 1:] + 1j * f * D[1:, 1:]
            for i, l in enumerate(lab):
                got = np.asarray(a[l]).reshape(-1)[q]
                r.need(abs(got - want[i, 0]) <= tol + 1e-9, 'label:ac', lambda: '%s at %g Hz: %s expected %s' % (l, f, got, want[i, 0]))

    def collision(case):
        c = ahkab.Circuit('t')
        c.add_vsource(case[0], case[1], c.gnd, 5.)
        c.add_resistor('R1', case[1], c.gnd, 10.)
        c.add_resistor('R2', case[1], 'q', 10.)
        c.add_resistor('R3', 'q', c.gnd, 10.)
        s = ahkab.run(c, ahkab.new_dc(1., 2., 2, case[0], guess=False))['dc']
        r.need(close(np.asarray(s['Vq']).reshape(-1), [.5, 1.], atol=1e-6), 'label:dc', 'Vq')
        r.need(len(set(v.upper() for v in s.keys())) == len(s.keys()),
               'label:dc-collision' if [v.upper() for v in s.keys()][:2] == [case[0]] * 2 else 'label:dc', lambda: 'sweeping %s: names %s' % (case[0], s.keys()))
    r.section('dc_collision', [('V1', '1'), ('V1', 'a'), ('V7', '7')], collision)
    r.section('lookup', cases(r.count(300, 6000), 'lookup'), lookup)
    r.section('synthetic', cases(r.count(150, 2500), 'syn'), synthetic)
    r.section('analyses', cases(r.count(120, 2000), 'an'), analyses, budget=r.count(60, 400))
    r.done()


if __name__ == '__main__':
    main()
