from circ import *
from dev import *
from c03 import wellposed
import tempfile

ORD = {'IMPLICIT_EULER': 1, 'TRAP': 2, 'GEAR1': 1, 'GEAR2': 2, 'GEAR3': 3, 'GEAR4': 4, 'GEAR5': 5, 'GEAR6': 6}
METHODS = list(ORD)


def deriv(ts):
    """weights w with sum w_i p(ts_i) = p'(ts_0) for polynomials of degree < len(ts)"""
    n = len(ts)
    s = [t - ts[0] for t in ts]
    A = np.array([[q ** k for q in s] for k in range(n)])
    b = np.zeros(n)
    b[1] = 1
    sc = max(abs(q) for q in s) or 1.
    A = np.array([[(q / sc) ** k for q in s] for k in range(n)])
    return np.linalg.solve(A, b) / sc


def main():
    r = R('random linear RLC circuits (with couplings, controlled and time-dependent sources) and nonlinear ones; every method, with and '
          'without step control; every reported point recomputed from the points before it; scripted solver outcomes; distinct by description')
    tr, dc, opt = r.get('transient'), r.get('dc_analysis'), r.get('options')

    def cases(n, name):
        g = r.rng(name)
        for i in range(n):
            nonlin = g.random() < .25
            els = wellposed(g, extra='RCVI' if nonlin else 'RLCGEVIFH')
            for e in els:
                if e['t'] in 'VI':
                    e['td'] = g.random() < .6
                    e['v'] = g.uniform(-2, 2) * (1e-2 if e['t'] == 'I' and nonlin else 1)
                if e['t'] in 'EGFH':
                    # moderate gains: circuits with poles far in the right half plane only measure rounding
                    e['v'] = g.choice([.5, -.3, .1, g.uniform(-.5, .5)]) * {'E': 1, 'F': 1, 'G': 1e-2, 'H': 20.}[e['t']]
                if e['t'] == 'C':
                    e['v'] = g.choice([1e-6, 1e-5, 3e-6])
                if e['t'] == 'L':
                    e['v'] = g.choice([1e-3, 2e-2])
            if nonlin and not any(e.get('td') for e in els):
                continue
            meth = g.choice(METHODS)
            step = g.choice([1e-5, 3e-5, 1e-4])
            t0 = g.choice([0., 0., 1e-4, 3e-3])
            n_ = g.randint(2, 25)
            span = step * (n_ + g.choice([0., .4, .9, .0]))
            yield els, gen_devs(g, list(numbering(els)), n=1) if nonlin else [], g.choice([meth, meth.lower()]), g.random() < .5, t0, step, t0 + span, g.choice([None, 'rand', 'op']), g.randint(0, 999)

    def law_t(c, els, t):
        """N(t): all sources at time t"""
        e2 = [dict(e, v=tval(e, t), td=False) if e.get('td') else e for e in els]
        return law_static(e2)[1]

    def labels(els):
        return ['V' + x for x in sorted(numbering(els), key=numbering(els).get) if x != '0'] + ['I(%s)' % e['id'].upper() for e in vdelems(els)]

    def points(r, els, devs, c, meth, x0, t0, ts, X, prefix, lin):
        """every reported point solves the discretised equations built on the ones before"""
        M, D = law_static(els)[0][1:, 1:], law_dynamic(els)[1:, 1:]
        o = ORD[meth.upper()]
        hist_t, hist_x, dprev = [t0], [x0], None
        gear = meth.upper().startswith('GEAR')
        nstart = {'IMPLICIT_EULER': 0, 'TRAP': 1}.get(meth.upper(), o)
        for k, t in enumerate(ts):
            x = X[:, k:k + 1]
            h = t - hist_t[-1]
            if k < nstart or o == 1:
                w = np.array([1. / h, -1. / h])
                dx = (x - hist_x[-1]) / h
                sc = (np.abs(x) + np.abs(hist_x[-1])) / h
            elif gear:
                tt = [t] + hist_t[::-1][:o]
                w = deriv(tt)
                pts = [x] + hist_x[::-1][:o]
                dx = sum(a * p for a, p in zip(w, pts))
                sc = sum(abs(a) * np.abs(p) for a, p in zip(w, pts))
            else:
                w = np.array([2. / h])
                dx = 2. / h * (x - hist_x[-1]) - dprev
                sc = 2. / h * (np.abs(x) + np.abs(hist_x[-1])) + np.abs(dprev)
            N = law_t(c, els, t)[1:]
            T, J = law_devices(c, x[:, 0], len(x))
            F = M.dot(x) + N + D.dot(dx) + T.reshape(-1, 1)
            rn = np.abs(M).dot(np.abs(x)) + np.abs(N) + np.abs(D).dot(sc) + np.abs(T).reshape(-1, 1)
            xs = 2e-6 + 2e-3 * np.abs(x) if not lin else 1e-9 + 1e-9 * np.abs(x)
            A = np.abs(M) + abs(w[0]) * np.abs(D) + np.abs(J)
            lim = 1e-9 * rn + 1e-11 * np.max(A) * max(1e-9, np.max(np.abs(x))) + (3e-6 if not lin else 1e-6) + A.dot(xs) * (1e-3 if lin else 2e-3)
            r.need(np.all(np.abs(F) <= lim), prefix, lambda: 'point %d t=%r (h=%g) residual %s limit %s' % (k, t, h, F.T, lim.T))
            hist_t.append(t)
            hist_x.append(x)
            dprev = dx

    nfail = [0, 0]

    def check(case):
        els, devs, meth, ctl, t0, step, stop, x0k, sd = case
        nfail[1] += 1
        c = build(els)
        add_devs(c, devs)
        lab = labels(els)
        n = len(lab)
        with tempfile.TemporaryDirectory() as td:
            x0 = None
            if x0k == 'rand':
                g = np.random.RandomState(sd)
                x0 = g.uniform(-1, 1, (n, 1)) * (1 if not devs else .1)
            elif x0k == 'op':
                x0 = dc.op_analysis(c, verbose=0)
                if x0 is None:
                    return
            try:
                sol = tr.transient_analysis(c, t0, step, stop, method=meth, use_step_control=ctl, x0=x0, outfile=os.path.join(td, 'o'), verbose=1)
            except (ValueError, CaseTimeout) as e:
                if (isinstance(e, CaseTimeout) or 'too small' in str(e)) and ctl:
                    nfail[0] += 1
                    r.need(nfail[0] < 25 + .5 * nfail[1], 'tran:linear', 'most runs give up')
                    return
                raise
            if sol is None:
                # a step may be singular (negative resistances in series with a capacitor)
                nfail[0] += not devs
                r.need(nfail[0] < 25 + .5 * nfail[1], 'tran:linear', 'most linear transients fail')
                return
            xs = np.zeros((n, 1)) if x0 is None else x0 if x0k == 'rand' else x0.asarray()
            ts = np.asarray(sol.get_x()).reshape(-1)
            X = np.array([np.asarray(sol[l]).reshape(-1) for l in lab])
            allt = np.concatenate([[t0], ts])
            st = np.diff(allt)
            eps = 1e-9 * step + 4e-16 * (abs(t0) + abs(stop)) * 10
            r.need(np.all(st > 0), 'tran:monotone', lambda: 'steps %s' % st)
            r.need(np.all(st <= step + eps), 'tran:step', lambda: 'steps %s above %g' % (st, step))
            r.need(allt[-1] >= stop - eps, 'tran:cover', lambda: 'ends at %r, wanted %r' % (ts[-1], stop))
            if not ctl:
                r.need(np.all(np.abs(st - step) <= eps), 'tran:step', lambda: 'fixed step: steps %s' % st)
            r.need(allt[-2] < stop + eps, 'tran:cover', lambda: 'goes on after the end: %s, %r' % (ts, stop))
            cut = 400
            points(r, els, devs, c, meth, xs, t0, ts[:cut], X[:, :cut], 'tran:point', not devs)

    # scripted outcomes: the solver is replaced by one that fails on demand
    def scripted(case):
        meth, fails, t0, step, stop, ctl = case
        els = [{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1., 'td': True}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': 'b', 'v': 100.},
               {'t': 'C', 'id': 'C1', 'n1': 'b', 'n2': '0', 'v': 1e-6}]
        c = build(els)
        if not hasattr(dc, 'dc_solve'):
            raise Missing('dc_solve')
        real = dc.dc_solve
        log = []

        def stub(*a, **k):
            log.append(k.get('time'))
            if len(log) - 1 in fails:
                x = np.full(k['x0'].shape, 1e6) if k.get('x0') is not None else None
                return x, x, False, 20
            return real(*a, **k)
        sol = 0
        with tempfile.TemporaryDirectory() as td:
            try:
                dc.dc_solve = stub
                sol = tr.transient_analysis(c, t0, step, stop, method=meth, use_step_control=ctl, x0=None, outfile=os.path.join(td, 'o'), verbose=1)
            finally:
                dc.dc_solve = real
            if len(log) == 0:
                raise Missing('dc_solve is not called through the module')
            if not ctl and any(f < len(log) for f in fails):
                r.need(sol is None, 'tran:failure', 'a failed fixed step gives a result')
                return
            r.need(sol is not None, 'tran:failure', 'no result although every step could be retried')
            ts = np.asarray(sol.get_x()).reshape(-1)
            X = np.array([np.asarray(sol[l]).reshape(-1) for l in labels(els)])
            st = np.diff(np.concatenate([[t0], ts]))
            r.need(np.all(st > 0) and np.all(st <= step * (1 + 1e-9)), 'tran:monotone', lambda: 'steps %s' % st)
            r.need(stop - 1e-9 * stop <= ts[-1] <= stop + step, 'tran:cover', lambda: 'ends at %r, wanted %r' % (ts[-1], stop))
            r.need(np.all(np.abs(X) < 1e3), 'tran:trace', 'a failed step left a trace')
            points(r, els, [], c, meth, np.zeros((3, 1)), t0, ts, X, 'tran:point', True)

    def script_cases():
        g = r.rng('script')
        for meth in METHODS:
            yield meth, (), 0., 1e-4, 1e-3, True
            yield meth, (0,), 0., 1e-4, 1e-3, True
            for _ in range(r.count(4, 40)):
                yield meth, tuple(sorted(g.sample(range(30), g.randint(1, 8)))), g.choice([0., 1e-3]), 1e-4, 2e-3, True
            yield meth, (g.randint(0, 5),), 0., 1e-4, 1e-3, False

    def lim(case):
        a = case
        c = build([{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1., 'td': True}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': '0', 'v': 100.}])
        with tempfile.TemporaryDirectory() as td:
            try:
                s = tr.transient_analysis(c, a[0], a[1], a[2], x0=None, outfile=os.path.join(td, 'o'), verbose=1)
            except (SystemExit, ValueError):
                s = None
        r.need(s is None, 'tran:badargs', lambda: 'accepted %r' % (a,))

    def maxiter(case):
        n = case
        c = build([{'t': 'V', 'id': 'V1', 'n1': 'a', 'n2': '0', 'v': 1., 'td': True}, {'t': 'R', 'id': 'R1', 'n1': 'a', 'n2': '0', 'v': 100.}])
        old = opt.transient_max_time_iter
        opt.transient_max_time_iter = n
        with tempfile.TemporaryDirectory() as td:
            try:
                s = tr.transient_analysis(c, 0., 1e-4, 1e-2, x0=None, use_step_control=False, outfile=os.path.join(td, 'o'), verbose=1)
            finally:
                opt.transient_max_time_iter = old
        r.need(s is None, 'tran:maxiter', 'an interrupted run gives a result')

    def chk(case):
        t, now, stop, hm = case
        try:
            q = tr.check_step(t, now, stop, hm)
        except ValueError:
            r.need(min(t, hm) < opt.hmin or now + min(t, hm) == now, 'step:reject', lambda: 'rejected %r' % (case,))
            return
        want = min(t, hm, stop - now)
        r.need(q == want, 'step:value', lambda: '%r expected %r' % (q, want))
        r.need(q == stop - now or q >= opt.hmin and now + q > now, 'step:small', lambda: 'accepted %r at %r' % (q, now))

    def chk_cases():
        g = r.rng('step')
        for i in range(r.count(1500, 20000)):
            now = g.choice([0., 1., g.uniform(0, 10)])
            stop = now + 10 ** g.uniform(-12, 1)
            yield 10 ** g.uniform(-24, 1), now, stop, 10 ** g.uniform(-9, 1)

    def buf(case):
        ln, w, n = case
        b = tr.dfbuffer(ln, w)
        want = []
        for i in range(n):
            x = tuple(np.full((2, 1), 10. * i + j) for j in range(w))
            b.add(x)
            want.insert(0, x)
            want = want[:ln]
            v = b.get_df_vector()
            r.need(len(v) == len(want) and all(p is q for p, q in zip(v, want)), 'buffer:content', lambda: 'after %d' % i)
            r.need(b.isready() == (len(want) == ln), 'buffer:ready', 'isready')
        try:
            b.add((1,) * (w + 1))
            r.fail('buffer:width', 'accepted a wrong width')
        except ValueError:
            r.need(len(b.get_df_vector()) == len(want), 'buffer:width', 'changed by a rejected entry')
        if want:
            m = b.get_as_matrix()
            ref = np.concatenate([np.concatenate([x[j] for x in want[::-1]], axis=0) for j in range(w)], axis=1)
            r.need(np.array_equal(m, ref), 'buffer:matrix', 'as matrix')
    r.section('run', cases(r.count(160, 3000), 'run'), check, budget=r.count(150, 600), limit=20)
    r.section('scripted', script_cases(), scripted, priv=True, budget=r.count(90, 300))
    r.section('badargs', [(1., .1, .5), (0., -1e-3, 1.)], lim)
    r.section('maxiter', [1, 3], maxiter)
    r.section('check_step', chk_cases(), chk, priv=True)
    r.section('buffer', [(ln, w, n) for ln in (1, 2, 3, 7) for w in (1, 2, 3) for n in (0, 1, 2, 3, 9)], buf, priv=True)
    r.done()


if __name__ == '__main__':
    main()
