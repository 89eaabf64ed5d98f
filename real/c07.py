from circ import *


def main():
    r = R('vectors of unknowns, steps and residuals around every tolerance (one element at a time and together), any split '
          'in voltages and currents, list and array inputs; distinct by values')
    ut, opt = r.get('utilities'), r.get('options')
    tol = {'v': (opt.ver, opt.vea, opt.iea), 'i': (opt.ier, opt.iea, opt.vea)}

    def cases():
        g = r.rng('conv')
        for i in range(r.count(4000, 60000)):
            nv, ni = g.randint(0, 4), g.randint(0, 4)
            if nv + ni == 0:
                continue
            rows, good = [], True
            for k in range(nv + ni):
                er, ea, eres = tol['v' if k < nv else 'i']
                x = g.choice([0., 1., -2.5, 1e-3, -1e-9, g.uniform(-100, 100)])
                lim = er * abs(x) + ea
                # clear of the edge: between |x| and |x+dx| as magnitude the limit moves by less than er
                s = g.choice([0., .5, .9, .99, 1. - 3 * er, .01])
                q = g.choice([0., .5, .9, .999])
                bad = g.random() < .25
                if bad:
                    w = g.choice('xrb')
                    if w in 'xb':
                        s = g.choice([1. + 3 * er, 1.5, 10., 1e6])
                    if w in 'rb':
                        q = g.choice([1.001, 1.5, 10., 1e6])
                    good = False
                sg = g.choice([-1, 1])
                rows.append((x, sg * s * lim, g.choice([-1, 1]) * q * eres))
            yield nv, rows, good, g.random() < .2

    def check(case):
        nv, rows, good, aslist = case
        x, dx, res = [np.array([[q[k]] for q in rows]) for k in range(3)]
        if aslist:
            x, dx, res = x.tolist(), dx.tolist(), res.tolist()
        ret = ut.convergence_check(x, dx, res, nv)
        r.need(bool(ret[0]) == good, 'conv:verdict', lambda: 'verdict %s expected %s' % (ret[0], good))

    def nan(case):
        which, k, nv, n = case
        v = [np.zeros((n, 1)) for _ in range(3)]
        v[which][k, 0] = float('nan')
        r.need(not ut.convergence_check(v[0], v[1], v[2], nv)[0], 'conv:nan', 'nan accepted')

    def options_used(case):
        """the tolerances in the options are the ones used"""
        nm, val = case
        old = getattr(opt, nm)
        kind = {'ver': ('v', 'step'), 'vea': ('v', 'step'), 'ier': ('i', 'step'), 'iea': ('i', 'step')}[nm]
        try:
            setattr(opt, nm, val)
            er, ea, eres = (opt.ver, opt.vea, opt.iea) if kind[0] == 'v' else (opt.ier, opt.iea, opt.vea)
            nv = 1 if kind[0] == 'v' else 0
            for x in (0., 5.):
                for f, e in ((.98 - er, True), (1.02 + er, False)):
                    d = f * (er * x + ea)
                    got = ut.convergence_check(np.array([[x]]), np.array([[d]]), np.array([[0.]]), nv)[0]
                    r.need(bool(got) == e, 'conv:options', lambda: '%s=%g: step %g at %g gives %s' % (nm, val, d, x, got))
            for f, e in ((.98, True), (1.02, False)):
                got = ut.convergence_check(np.array([[1.]]), np.array([[0.]]), np.array([[f * eres]]), nv)[0]
                r.need(bool(got) == e, 'conv:options', lambda: '%s=%g: residual %g gives %s' % (nm, val, f * eres, got))
        finally:
            setattr(opt, nm, old)

    def parts(case):
        nv, rows, good, aslist = case
        for f, sl, k in ((ut.voltage_convergence_check, slice(0, nv), 'v'), (ut.current_convergence_check, slice(nv, None), 'i')):
            rr = rows[sl]
            if not rr:
                continue
            er, ea, eres = tol[k]
            e = all(abs(d) <= er * abs(x) + ea and abs(q) <= eres for x, d, q in rr)
            got = f(*[np.array([q[j] for q in rr]) for j in range(3)])[0]
            r.need(bool(got) == e, 'conv:kind', lambda: '%s: %s expected %s' % (f.__name__, got, e))

    cs = list(cases())
    r.section('check', cs, check)
    r.section('parts', cs[:r.count(1000, 10000)], parts, priv=True)
    r.section('nan', [(w, k, nv, n) for w in range(3) for n in (1, 3) for k in range(n) for nv in range(n + 1)], nan)
    r.section('options', [(n, v) for n in ('ver', 'vea', 'ier', 'iea') for v in (1e-2, 1e-4, 3e-5)], options_used)
    r.done()


if __name__ == '__main__':
    main()
