from circ import *
from dev import *
from c03 import wellposed


def main():
    r = R('sweeps of a voltage or current source, both directions, linear and logarithmic, in random linear and nonlinear circuits, '
          'some with points that cannot be solved; distinct by description')
    dc, opt = r.get('dc_analysis'), r.get('options')

    def cases(n, name='dc'):
        g = r.rng(name)
        for i in range(n):
            nonlin = g.random() < .4
            els = wellposed(g, extra='RVI' if nonlin else 'RLCGEVI')
            if nonlin:
                els = [dict(e, v=min(abs(e['v']), 1.5)) if e['t'] == 'V' else dict(e, v=1e-3 * e['v']) if e['t'] == 'I' else e for e in els]
            src = [e for e in els if e['t'] in 'VI']
            if not src:
                continue
            s = g.choice(src)
            if any(s['id'].upper() == 'V' + q.upper() for q in numbering(els)):
                continue        # the collision of labels belongs to C15 (known finding)
            if g.random() < .5:
                a = g.choice([-1., 0., .5, 1.])
                b = a + g.choice([.3, 1., -.7, 2.5])
                n_ = g.randint(2, 7)
                st = (b - a) / (n_ - 1)
                kind = g.choice(['LINEAR', 'LIN', 'lin', 'linear'])
            else:
                a = g.choice([.01, .5])
                b = a * g.choice([10., 37.])
                n_ = g.randint(2, 6)
                st = (b - a) / (n_ - 1)
                kind = g.choice(['LOG', 'log', 'logarithmic'])
            if s['t'] == 'I' and nonlin:
                a, b, st = a * 1e-3, b * 1e-3, st * 1e-3
            yield els, gen_devs(g, list(numbering(els)), n=2) if nonlin else [], g.choice([s['id'], s['id'].lower(), s['id'].upper()]), kind, a, b, n_, st

    def srcs(c):
        return [(e.part_id, e.dc_value) for e in c if hasattr(e, 'dc_value')]

    def grid(kind, a, b, n):
        if kind.upper().startswith('LIN'):
            return np.array([a + (b - a) * i / (n - 1.) for i in range(n)])
        return np.array([a * (b / a) ** (i / (n - 1.)) for i in range(n)])

    def check(case, direct):
        els, devs, src, kind, a, b, n, st = case
        c = build(els)
        add_devs(c, devs)
        before = srcs(c)
        import tempfile
        with tempfile.TemporaryDirectory() as td:
            if direct:
                sol = dc.dc_analysis(c, a, b, st, src, sweep_type=kind, guess=False, outfile=os.path.join(td, 'o'), verbose=0)
            else:
                sol = ahkab.run(c, ahkab.new_dc(a, b, n, src, sweep_type=kind, guess=False))['dc']
            r.need(srcs(c) == before, 'dc:source', lambda: 'sources before %s after %s' % (before, srcs(c)))
            if sol is None:
                r.need(bool(devs), 'dc:linear', 'a linear sweep failed')
                return
            ax = np.asarray(sol.get_x()).reshape(-1)
            g = grid(kind, a, b, n)
            if not devs:
                r.need(len(ax) == n, 'dc:points', lambda: '%d points %s, asked for %d' % (len(ax), ax, n))
            if len(ax) == n:
                r.need(close(ax, g, rtol=1e-6, atol=1e-9 * max(abs(a), abs(b))), 'dc:grid', lambda: 'axis %s expected %s' % (ax, g))
            r.need(all(np.min(np.abs(g - q)) <= 1e-6 * (abs(q) + max(abs(a), abs(b))) for q in ax), 'dc:grid', lambda: 'axis %s not in %s' % (ax, g))
            lab = ['V' + x for x in sorted(numbering(els), key=numbering(els).get) if x != '0'] + ['I(%s)' % e['id'].upper() for e in vdelems(els)]
            for q, val in enumerate(ax):
                els2 = [dict(e, v=val) if e['id'].upper() == src.upper() else e for e in els]
                M, N = law_static(els2)
                x = np.array([sol[l][q] for l in lab]).reshape(-1, 1)
                T, J = law_devices(c, x[:, 0], len(x))
                F = M[1:, 1:].dot(x) + N[1:] + T.reshape(-1, 1)
                lim = 1e-5 * (np.abs(M[1:, 1:]) * np.abs(x).T).sum(axis=1) + 1e-7 + 2e-6 * np.abs(M[1:, 1:] + J).sum(axis=1)
                r.need(np.all(np.abs(F[:, 0]) <= lim), 'dc:point', lambda: 'at %g: residual %s x=%s (%s)' % (val, F.T, x.T, show(els)))

    def fails(case):
        """a sweep interrupted at some point still restores the source"""
        els, at, exc, skip = case
        c = build(els)
        before = srcs(c)
        if not hasattr(dc, 'op_analysis'):
            raise Missing('op_analysis')
        real = dc.op_analysis
        seen = []

        def stub(circ, *a, **k):
            seen.append([e.dc_value for e in circ if e.part_id == 'V1'][0])
            if len(seen) - 1 in at:
                if exc:
                    raise ValueError('scripted')
                return None
            return real(circ, *a, **k)
        import tempfile
        old = opt.dc_sweep_skip_allowed
        with tempfile.TemporaryDirectory() as td:
            try:
                dc.op_analysis = stub
                opt.dc_sweep_skip_allowed = skip
                sol = None
                try:
                    sol = dc.dc_analysis(c, 0., 1., .25, 'V1', guess=False, outfile=os.path.join(td, 'o'), verbose=0)
                except ValueError:
                    pass
            finally:
                dc.op_analysis = real
                opt.dc_sweep_skip_allowed = old
            r.need(srcs(c) == before, 'dc:source', lambda: 'sources before %s after %s' % (before, srcs(c)))
            if sol is not None:
                ax = np.asarray(sol.get_x()).reshape(-1)
                want = [v for i, v in enumerate([0., .25, .5, .75, 1.]) if i not in at]
                r.need(close(ax, want), 'dc:skipped', lambda: 'axis %s expected %s' % (ax, want))
                r.need(close(np.asarray(sol['VB']).reshape(-1), np.array(want) / 2, atol=1e-9), 'dc:skipped', lambda: 'values %s at %s' % (sol['VB'], ax))
            elif not exc and skip and len(at) < 5 and 4 not in at:
                r.fail('dc:skipped', 'no result although points were solved')
            if not skip and at and not exc:
                r.need(sol is None, 'dc:failure', 'a failed sweep gives a result')

    def after(case):
        """other analyses before and after a sweep give the same"""
        els = case[0]
        c = build(els)
        o1 = dc.op_analysis(c, guess=False, verbose=0)
        ahkab.run(c, ahkab.new_dc(0.1, 1., 3, case[2], guess=False))
        o2 = dc.op_analysis(c, guess=False, verbose=0)
        r.need((o1 is None) == (o2 is None) and (o1 is None or np.array_equal(o1.asarray(), o2.asarray())), 'dc:after', 'the operating point changed')

    def badargs(case):
        kw = case
        c = build(base)
        before = srcs(c)
        try:
            sol = dc.dc_analysis(c, outfile='/dev/null', guess=False, verbose=0, **kw)
        except (ValueError, SystemExit):
            sol = None
        r.need(sol is None, 'dc:badargs', lambda: 'accepted %r' % (kw,))
        r.need(srcs(c) == before, 'dc:source', 'the source changed')

    base = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 3.3}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': 'b', 'v': 100.},
            {'t': 'R', 'id': 'R2', 'n1': 'b', 'n2': '0', 'v': 100.}]
    cs = list(cases(r.count(120, 1500)))
    r.section('sweep', cs, lambda c: check(c, False), budget=r.count(120, 600))
    r.section('direct', cases(r.count(40, 400), 'direct'), lambda c: check(c, True), budget=r.count(60, 300))
    r.section('interrupted', [(base, at, exc, skip) for at in [(0,), (2,), (4,), (1, 2), (0, 1, 2, 3), ()] for exc in (0, 1) for skip in (True, False)],
              fails, priv=True)
    r.section('after', [c for c in cs if not c[1]][:r.count(20, 100)], after)
    r.section('badargs', [{'start': 0., 'stop': 1., 'step': -.1, 'source': 'V1'}, {'start': 0., 'stop': 1., 'step': .1, 'source': 'V9'},
                          {'start': 0., 'stop': 1., 'step': .1, 'source': 'R1'}, {'start': 0., 'stop': 1., 'step': .1, 'source': 'I1'}], badargs)
    r.done()


if __name__ == '__main__':
    main()
