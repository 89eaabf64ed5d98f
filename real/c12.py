from common import *


def main():
    r = R('random step histories (equal, growing, shrinking, mixed over many decades), polynomials of every degree up to the order and random '
          'vectors; every integration and prediction formula; distinct by history')
    mods = {'implicit_euler': 1, 'trap': 2}
    GE = [1, 2, 3, 4, 5, 6]

    def mod(name):
        if name.startswith('gear'):
            m = r.get('gear.get_df') and sys.modules['ahkab.gear']
            m.order = int(name[4:])
            return m, m.order
        r.get(name + '.get_df')
        return sys.modules['ahkab.' + name], mods[name]

    def hist(g, n):
        kind = g.choice(['eq', 'grow', 'shrink', 'rand'])
        h = 10 ** g.uniform(-9, 0)
        st = []
        for i in range(n):
            st.append(h if kind == 'eq' else h * 2 ** i if kind == 'grow' else h * .7 ** i if kind == 'shrink' else h * g.uniform(.3, 2))
        t = g.choice([0., 0., h * g.uniform(0, 50)])
        ts = [t]
        for s in st[:-1]:
            ts.append(ts[-1] + s)
        return ts[::-1], st[-1]     # newest first, next step

    def cases():
        g = r.rng('df')
        for name in ['implicit_euler', 'trap'] + ['gear%d' % k for k in GE]:
            for i in range(r.count(150, 3000)):
                ts, h = hist(g, 9)
                yield name, ts, h, g.randint(0, 10 ** 6)

    def pol(c, t0, sc, t):
        return sum(a * ((t - t0) / sc) ** k for k, a in enumerate(c))

    def dpol(c, t0, sc, t):
        return sum(k * a * ((t - t0) / sc) ** (k - 1) for k, a in enumerate(c) if k) / sc

    def need_len(m, predict):
        (a, b), (c, d) = m.get_required_values()
        # a formula needs x(n-i) for i <= k: k + 1 entries
        xs = [q for q in ((c, d) if predict else (a, b)) if q is not None]
        return max(xs) + 1

    def exact(case):
        name, ts, h, sd = case
        m, order = mod(name)
        g = np.random.RandomState(sd)
        n = 3
        t1 = ts[0] + h
        sc = max(abs(t1 - t) for t in ts[:order + 1]) or 1.
        pdeg = order
        cf = [g.uniform(-1, 1, (n, 1)) for _ in range(order + 1)]

        def entries(cf, k, dx=True):
            return [(t, pol(cf, ts[0], sc, t), dpol(cf, ts[0], sc, t) if dx and name == 'trap' else None) for t in ts[:k]]
        for predict in (False, True):
            k = max(need_len(m, predict), need_len(m, False))
            pv = entries(cf, k)
            keep = [(a, np.array(b), None if c is None else np.array(c)) for a, b, c in pv]
            C1, C0, lte, px, plte = m.get_df(pv, h, predict=predict)
            r.need(all(a == p and np.array_equal(b, q) for (a, b, c), (p, q, s) in zip(pv, keep)), 'df:inputs', 'the history is modified')
            x1, d1 = pol(cf, ts[0], sc, t1), dpol(cf, ts[0], sc, t1)
            got = C1 * x1 + C0
            amp = abs(C1) * np.max(np.abs(x1)) + np.max(np.abs(C0))
            hmin = min(abs(a - b) for a, b in zip([t1] + ts[:order + 1], ts[:order + 2]))
            tol = 1e-9 * amp + 1e-12 * (sc / hmin) ** order * amp
            r.need(np.all(np.abs(got - d1) <= tol), 'df:derivative', lambda: 'derivative %s expected %s' % (got.T, np.array(d1).T))
            if not predict:
                r.need(px is None and plte is None, 'df:nopredict', 'an unrequested prediction')
            else:
                ps = sum(np.max(np.abs(x)) for _, x, _ in pv) * (sc / hmin) ** order
                r.need(px is not None and np.all(np.abs(px - x1) <= 1e-9 * ps), 'df:predict', lambda: 'prediction %s expected %s' % (px.T, x1.T))
            # local error: the solution of x' = given derivative when x is one degree higher
            c2 = [0 * g.uniform(-1, 1, (n, 1)) for _ in range(order + 1)] + [g.uniform(.5, 1, (n, 1))]
            pv2 = entries(c2, k)
            C1, C0, lte, px, plte = m.get_df(pv2, h, predict=predict)
            d1 = dpol(c2, ts[0], sc, t1)
            x1 = pol(c2, ts[0], sc, t1)
            # coefficients do not depend on the values
            xn = (d1 - C0) / C1          # value the formula assigns given the exact derivative
            der = np.prod(range(1, order + 2)) * c2[-1] / sc ** (order + 1)      # (order + 1)-th derivative
            err = xn - x1
            amp = np.max(np.abs(x1)) + np.max(np.abs(C0)) / abs(C1) + np.max(np.abs(pv2[-1][1]))
            if lte is not None:
                good = np.all(np.abs(lte * der - err) <= 1e-8 * amp * (sc / hmin) ** order)
                if good or not (name == 'implicit_euler' and lte == 0.5 * h):    # 0.5*h: known finding df:lte-be, section lte_be
                    r.need(good, 'df:lte', lambda: 'local error %s, coefficient gives %s' % (err.T, (lte * der).T))
            if predict and plte is not None:
                err = px - x1
                r.need(np.all(np.abs(plte * der - err) <= 1e-8 * amp * (sc / hmin) ** order), 'df:plte', lambda: 'prediction error %s, coefficient gives %s' % (err.T, (plte * der).T))

    def needs(case):
        """values further back than announced are not used"""
        name, ts, h, sd = case
        m, order = mod(name)
        g = np.random.RandomState(sd)
        for predict in (False, True):
            k = max(need_len(m, predict), need_len(m, False))
            # gear announces one point more than the polynomial it differentiates
            pv = [(t, g.uniform(-1, 1, (2, 1)), g.uniform(-1, 1, (2, 1))) for t in ts]
            (xr, dr) = m.get_required_values()[1 if predict else 0]
            base = m.get_required_values()[0]
            xr = max(q for q in (xr, base[0]) if q is not None)
            dr = [q for q in (dr, base[1]) if q is not None]
            dr = max(dr) if dr else -1
            a = m.get_df(pv, h, predict=predict)
            cut = [(t, x if i <= xr else None, d if i <= dr else None) for i, (t, x, d) in enumerate(pv)][:k]
            b = m.get_df(cut, h, predict=predict)
            r.need(len(a) == 5 and len(b) == 5, 'df:needed', 'result')
            for p, q in zip(a, b):
                r.need((p is None) == (q is None) and (p is None or np.array_equal(np.asarray(p), np.asarray(q))), 'df:needed',
                       lambda: 'more values than announced are used: %s %s' % (a, b))
            r.need(m.is_implicit() and m.has_ff(), 'df:flags', 'flags')
            r.need(m.order == order, 'df:order', 'order %s' % m.order)

    def bad(case):
        name, pv = case
        m, order = mod(name)
        try:
            m.get_df(pv, 1e-3, predict=False)
            ok = True
        except (ValueError, IndexError, TypeError):
            ok = False
        r.need(not ok, 'df:malformed', 'accepted %r' % (pv,))

    def nohist(case):
        """a prediction without enough points is refused or absent, never wrong"""
        name, k, ts, h = case
        m, order = mod(name)
        pv = [(t, np.full((2, 1), 1. + i), np.full((2, 1), 3.)) for i, t in enumerate(ts[:k])]
        try:
            x = m.get_df(pv, h, predict=True)
        except (ValueError, IndexError):
            return
        r.need(x[3] is None and x[4] is None, 'df:predict', 'a prediction from %d points' % k)

    def nohist_cases():
        g = r.rng('nh')
        for _ in range(20):
            ts, h = hist(g, 5)
            yield 'implicit_euler', 1, ts, h
            yield 'trap', 1, ts, h
            yield 'trap', 2, ts, h

    def lte_be(case):
        m, order = mod('implicit_euler')
        lte = m.get_df([(0., np.ones((1, 1)), None)], case, predict=False)[2]
        r.need(abs(lte - .5 * case ** 2) <= 1e-12 * case ** 2, 'df:lte-be' if lte == .5 * case else 'df:lte',
               lambda: 'step %g: local error coefficient %r, the formula has %r' % (case, lte, .5 * case ** 2))
    z = np.zeros((2, 1))
    cs = list(cases())
    r.section('exact', cs, exact, priv=True, maxfail=3)
    r.section('lte_be', [1e-3, .5], lte_be, priv=True)
    r.section('needs', cs[::10], needs, priv=True)
    r.section('malformed', [('implicit_euler', [(0., None, None)]), ('implicit_euler', [(0., z)]), ('trap', [(0., z, None)]), ('trap', [(0., None, z)]),
                            ('trap', [(0., z)])], bad, priv=True)
    r.section('short', nohist_cases(), nohist, priv=True)
    r.done()


if __name__ == '__main__':
    main()
