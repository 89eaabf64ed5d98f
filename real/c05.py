from circ import *
from dev import *


def deriv(f, x, k, h):
    """central difference with an error estimate; None next to a kink"""
    def at(d):
        y = list(x)
        y[k] += d
        return f(tuple(y))
    d1 = (at(h) - at(-h)) / (2 * h)
    d2 = (at(h / 2) - at(-h / 2)) / h
    fwd, bwd = (at(h) - at(0)) / h, (at(0) - at(-h)) / h
    return (4 * d2 - d1) / 3, abs(d1 - d2), abs(fwd - bwd)


def main():
    r = R('device models with drawn parameters (diode: IS N ISR NR RS IKF BV AREA T; MOS square law and EKV: polarity, VTO, KP, '
          'LAMBDA, GAMMA, W, L, M, N; switch: VT VH RON ROFF) at drawn biases; distinct by parameters and bias')
    opt = r.get('options')

    def gd(g):
        kw = {'IS': 10 ** g.uniform(-16, -10), 'N': g.choice([1., 1.5, 2.])}
        if g.random() < .4:
            kw.update(ISR=10 ** g.uniform(-14, -10), NR=g.choice([1.5, 2., 2.5]))
        if g.random() < .3:
            kw['IKF'] = 10 ** g.uniform(-5, -1)
        if g.random() < .3:
            kw['RS'] = g.choice([.1, 2., 50.])
        if g.random() < .3:
            kw.update(BV=g.choice([3., 6.]), NBV=g.choice([1., 1.5]))
        dk = {}
        if g.random() < .4:
            dk['AREA'] = g.choice([.5, 3., 8.])
        if g.random() < .4:
            dk['T'] = g.choice([250., 300., 350.])
        return kw, dk

    def diodes():
        g = r.rng('diode')
        for i in range(r.count(400, 6000)):
            kw, dk = gd(g)
            yield kw, dk, [g.choice([0., g.uniform(-.2, .5), g.uniform(.4, .75), g.uniform(-2, 0), g.uniform(-6.5, -2.5)])
                           for _ in range(4)]

    dio = r.get('diode')

    def mkd(kw, dk):
        return dio.diode('D1', 1, 2, dio.diode_model('m', **kw), **dk)

    def noguess(d):
        d.device.last_vd = None

    def diode_case(case):
        kw, dk, vs = case
        d = mkd(kw, dk)
        for v in vs:
            f = lambda x: float(d.i(0, x))
            i = f((v,))
            r.need(np.isfinite(i), 'diode:finite', 'i(%g) = %s' % (v, i))
            h = 1e-4 if not kw.get('RS') else 1e-3
            num, e1, e2 = deriv(f, (v,), 0, h)
            gm = float(d.g(0, (v,), 0))
            st = np.asarray(d.gstamp((v,), reduced=False)[1])
            tol = 1e-3 * abs(num) + 4 * e1 + 1e-7 * abs(i) + 1e-14 + (2 * opt.vea / kw['RS'] / h if kw.get('RS') else 0.)
            if abs(v) / .02 > 60:
                continue
            r.need(np.isfinite(gm) and abs(gm - num) <= tol, 'diode:g', lambda: 'v=%r: g = %g, di/dv = %g (%s %s)' % (v, gm, num, kw, dk))
            gg = gm if gm else 2 * opt.gmin
            r.need(close(st, gg * np.array([[1, -1], [-1, 1]])), 'diode:stamp', lambda: 'v=%r: %s for g=%g' % (v, st, gg))
            ist = np.asarray(d.istamp((v,), reduced=False)[1]).reshape(-1)
            r.need(close(ist, [i, -i], rtol=1e-5, atol=1e-12), 'diode:istamp', lambda: 'v=%r: %s for i=%g' % (v, ist, i))
        z = float(mkd(kw, dk).i(0, (0.,)))
        r.need(abs(z) <= 1e-12 * dk.get('AREA', 1), 'diode:zero', 'i(0) = %g (%s %s)' % (z, kw, dk))

    def diode_law(case):
        """the current is the documented sum of its components"""
        kw, dk, vs = case
        if kw.get('RS') or dk.get('T'):
            return
        d = mkd(kw, dk)
        vt = r.get('constants').Vth(d.device.T)
        dT = r.get('diode')
        for v in vs:
            N, NR = kw['N'], kw.get('NR', dT.NR_DEFAULT)
            if abs(v) / vt > 60:
                continue
            fw = kw['IS'] * (np.exp(v / N / vt) - 1)
            if kw.get('IKF') and fw > 0:
                fw *= np.sqrt(kw['IKF'] / (kw['IKF'] + fw))
            rec = kw.get('ISR', dT.ISR_DEFAULT) * (np.exp(v / NR / vt) - 1)
            rev = 0. if not kw.get('BV') else kw['IS'] * np.exp(-(v + kw['BV']) / kw['NBV'] / vt)
            e = (fw + rec - rev) * dk.get('AREA', 1.)
            i = float(d.i(0, (v,)))
            r.need(close(i, e, rtol=1e-7, atol=1e-20 + 1e-12 * kw['IS']), 'diode:law', lambda: 'v=%r: %g expected %g (%s %s)' % (v, i, e, kw, dk))

    def diode_rs(case):
        """series resistance: the junction sees the voltage left by RS i"""
        kw, dk, vs = case
        if not kw.get('RS'):
            return
        k2 = dict(kw, RS=0.)
        d, d0 = mkd(kw, dk), mkd(k2, dk)
        for v in vs:
            i = float(d.i(0, (v,)))
            j = float(d0.i(0, (v - kw['RS'] * i,)))
            g = float(d0.g(0, (v - kw['RS'] * i,), 0))
            tol = 1e-6 * abs(i) + 1e-15 + 2 * opt.vea * (1 / kw['RS'] + g)
            r.need(abs(i - j) <= tol, 'diode:rs', lambda: 'v=%r: %g but the junction carries %g (%s %s)' % (v, i, j, kw, dk))

    def finite(case):
        kw, dk, _ = case
        d = mkd(kw, dk)
        for v in (-100., 100., -1e3, 30., -30.):
            i, g = float(d.i(0, (v,))), float(d.g(0, (v,), 0))
            r.need(np.isfinite(i) and np.isfinite(g), 'diode:finite', 'v=%g: i=%g g=%g (%s %s)' % (v, i, g, kw, dk))

    def mosqs():
        g = r.rng('mosq')
        for i in range(r.count(400, 6000)):
            t = g.choice('np')
            s = 1 if t == 'n' else -1
            kw = {'TYPE': t, 'VTO': s * g.choice([.3, .5, .8, 0.]), 'KP': g.choice([1e-5, 5e-4]), 'LAMBDA': g.choice([0., .02, .1]),
                  'GAMMA': g.choice([1e-3, .4, .8]), 'PHI': g.choice([.3, .35])}
            dk = {'W': g.choice([1e-5, 2e-6]), 'L': g.choice([1e-6, 5e-6]), 'M': g.choice([1, 3]), 'N': g.choice([1, 2])}
            yield kw, dk, [tuple(g.choice([0., g.uniform(-2.5, 2.5), g.uniform(-1, 1)]) for _ in range(3)) for _ in range(4)]

    mq = r.get('mosq')

    def mkm(kw, dk):
        return mq.mosq_device('M1', 1, 2, 3, 4, dk['W'], dk['L'], mq.mosq_mos_model('m', **kw), M=dk['M'], N=dk['N'])

    def mosq_case(case):
        kw, dk, vs = case
        d = mkm(kw, dk)
        for v in vs:
            f = lambda x: float(np.asarray(d.istamp(x, reduced=False)[1]).reshape(-1)[0])
            i = f(v)
            r.need(np.isfinite(i), 'mosq:finite', 'ids%s = %s' % (v, i))
            st = np.asarray(d.gstamp(v, reduced=False)[1])
            ref = 1e-9 * kw['KP'] * dk['W'] / dk['L'] * dk['M'] / dk['N'] + 1e-13
            # columns: drain, gate, source, bulk; drive ports vds, vgs, vbs
            for k, col in ((0, 0), (1, 1), (2, 3)):
                num, e1, e2 = deriv(f, v, k, 1e-5)
                if e2 > 1e-3 * (abs(num) + ref / 1e-9 * 1e-3):
                    continue        # next to a region boundary
                g = st[0, col]
                r.need(abs(g - num) <= 1e-4 * abs(num) + 4 * e1 + 1e-6 * abs(i) + 1e-4 * ref / 1e-9 * 1e-2 + dk['M'] * opt.iea * (1 + abs(v[1])),
                       'mosq:g', lambda: 'v(ds,gs,bs)=%s: column %d is %g, the derivative is %g (%s %s)' % (v, col, g, num, kw, dk))
                r.need(abs(st[2, col] + g) <= 1e-12 * abs(g), 'mosq:kcl', lambda: 'rows not opposite %s' % st)
            r.need(np.all(np.abs(st.sum(axis=1)) <= 1e-9 * np.abs(st).max()), 'mosq:columns', lambda: 'row sums %s' % st)
            r.need(not st[1].any() and not st[3].any(), 'mosq:gate', lambda: 'gate or bulk current %s' % st)
            ist = np.asarray(d.istamp(v, reduced=False)[1]).reshape(-1)
            r.need(ist[0] == -ist[1], 'mosq:kcl', lambda: '%s' % ist)
        for vg in (0., .3, 1.5):
            z = float(np.asarray(d.istamp((0., vg, 0.), reduced=False)[1]).reshape(-1)[0])
            r.need(abs(z) <= 3 * opt.iea * max(1., vg), 'mosq:zero', 'ids(vds=0, vgs=%g) = %g' % (vg, z))

    def mosq_law(case):
        kw, dk, vs = case
        m = mq.mosq_mos_model('m', **kw)
        d = mq.mosq_device('M1', 1, 2, 3, 4, dk['W'], dk['L'], m, M=dk['M'], N=dk['N'])
        s = 1 if kw['TYPE'] == 'n' else -1
        for v in vs:
            vds, vgs, vbs = [s * x for x in v]
            cs = 1
            if vds < 0:
                vds, vgs, vbs, cs = -vds, vgs - vds, vbs - vds, -1
            VT = m.VTO + m.GAMMA * (np.sqrt(max(2 * m.PHI - vbs, 0)) - np.sqrt(max(2 * m.PHI, 0)))
            ov, lam = vgs - VT, kw['LAMBDA']
            if ov < 0:
                continue
            if vds < ov - .5 * lam * ov ** 2:
                e = ov * vds - .5 * vds ** 2
            else:
                e = .5 * ov ** 2 * (1 + lam * (vds - ov + .25 * lam * ov ** 2))
            e *= s * cs * m.KP * dk['W'] / dk['L'] * dk['M'] / dk['N']
            i = float(np.asarray(d.istamp(v, reduced=False)[1]).reshape(-1)[0])
            r.need(close(i, e, rtol=1e-9, atol=1e-15), 'mosq:law', lambda: 'v=%s: %g expected %g (%s %s)' % (v, i, e, kw, dk))

    def swap(case):
        """exchanging drain and source reverses the current"""
        kw, dk, vs = case
        d = mkm(kw, dk)
        for vds, vgs, vbs in vs:
            a = float(np.asarray(d.istamp((vds, vgs, vbs), reduced=False)[1]).reshape(-1)[0])
            b = float(np.asarray(d.istamp((-vds, vgs - vds, vbs - vds), reduced=False)[1]).reshape(-1)[0])
            if vds:
                r.need(close(a, -b, rtol=1e-6, atol=1e-12), 'mosq:swap', lambda: '%s: %g, exchanged %g' % ((vds, vgs, vbs), a, b))

    def ekvs():
        g = r.rng('ekv')
        for i in range(r.count(150, 1500)):
            t = g.choice('np')
            s = 1 if t == 'n' else -1
            kw = {'TYPE': t, 'VTO': s * g.choice([.3, .5]), 'KP': g.choice([2e-5, 1e-4])}
            dk = {'W': g.choice([1e-5, 2e-5]), 'L': g.choice([5e-6, 1e-5]), 'M': g.choice([1, 3]), 'N': g.choice([1, 2])}
            yield kw, dk, [tuple(s * x for x in (g.uniform(0, 2), g.uniform(0, 2), g.choice([0., g.uniform(0, .5)]))) for _ in range(3)]

    ek = r.get('ekv')

    def mke(kw, dk):
        return ek.ekv_device('M1', 1, 2, 3, 4, dk['W'], dk['L'], ek.ekv_mos_model('m', **kw), M=dk['M'], N=dk['N'])

    def ekv_case(case):
        """the charge based conductances are the long channel ones: sign and size only"""
        kw, dk, vs = case
        d = mke(kw, dk)
        for v in vs:
            f = lambda x: float(d.i(0, x))
            i = f(v)
            r.need(np.isfinite(i), 'ekv:finite', 'ids%s = %s' % (v, i))
            for k in range(3):
                num, e1, e2 = deriv(f, v, k, 1e-4)
                g = float(d.g(0, v, k))
                r.need(np.isfinite(g), 'ekv:finite', 'g%s = %s' % (v, g))
                if k == 0 and abs(v[0]) > abs(v[2]) or k == 2 and abs(v[2]) > abs(v[0]):
                    continue        # output conductance in saturation: short channel effects are not modelled
                sc = abs(num)
                if sc < 1e-9:
                    continue
                r.need(.3 * sc <= g * np.sign(num) <= 3 * sc, 'ekv:g', lambda: 'v=%s port %d: %g, the derivative is %g (%s %s)' % (
                    v, k, g, num, kw, dk))
        z = f((0., 1.2 * (1 if kw['TYPE'] == 'n' else -1), 0.))
        r.need(abs(z) < 1e-12, 'ekv:zero', 'ids at vds = 0 is %g' % z)

    def ekv_scale(case):
        """M devices in parallel, N in series"""
        kw, dk, vs = case
        d, d1, d0 = mke(kw, dk), mke(kw, dict(dk, M=1)), mke(kw, dict(dk, M=1, N=1))
        for v in vs:
            for a, b in [(d.i(0, v), d1.i(0, v))] + [(d.g(0, v, k), d1.g(0, v, k)) for k in range(3)]:
                r.need(close(a, b * dk['M'], rtol=1e-6, atol=1e-14), 'ekv:parallel', lambda: '%s: %g for M=%d, %g for one' % (v, a, dk['M'], b))
            a, b = d1.i(0, v), d0.i(0, v)
            r.need(.4 * abs(b) <= abs(a) * dk['N'] <= 2.5 * abs(b) + 1e-13, 'ekv:series', lambda: '%s: %g for N=%d, %g for one' % (v, a, dk['N'], b))

    def ekv_pol(case):
        """a P device is the mirror image of the N device"""
        kw, dk, vs = case
        o = dict(kw, TYPE='p' if kw['TYPE'] == 'n' else 'n', VTO=-kw['VTO'])
        a, b = ek.ekv_mos_model('m', **kw), ek.ekv_mos_model('m', **o)
        for q in ('VTO', 'KP', 'GAMMA', 'PHI', 'COX'):
            if abs(getattr(a, q)) != abs(getattr(b, q)):
                setattr(b, q, getattr(a, q) if q != 'VTO' else getattr(a, q))
        da = ek.ekv_device('M1', 1, 2, 3, 4, dk['W'], dk['L'], a, M=dk['M'], N=dk['N'])
        db = ek.ekv_device('M1', 1, 2, 3, 4, dk['W'], dk['L'], b, M=dk['M'], N=dk['N'])
        for v in vs:
            w = tuple(-x for x in v)
            r.need(close(da.i(0, v), -db.i(0, w), rtol=1e-4, atol=1e-13), 'ekv:mirror', lambda: '%s: %g, mirrored %g (%s)' % (
                v, da.i(0, v), db.i(0, w), kw))
            for k in range(3):
                r.need(close(da.g(0, v, k), db.g(0, w, k), rtol=1e-3, atol=1e-12), 'ekv:mirror', lambda: '%s g%d: %g, mirrored %g (%s)' % (
                    v, k, da.g(0, v, k), db.g(0, w, k), kw))

    sw = r.get('switch')

    def switches():
        g = r.rng('sw')
        for i in range(r.count(300, 4000)):
            kw = {'VT': g.choice([0., .5, -1.]), 'VH': g.choice([0., .2]), 'RON': g.choice([1., 20.]), 'ROFF': g.choice([1e4, 1e6])}
            yield kw, [(g.uniform(-3, 3), kw['VT'] + g.choice([g.uniform(-.05, .05), g.uniform(-1, 1), g.uniform(-.5, .5), -5, 5])) for _ in range(4)]

    def switch_case(case):
        kw, vs = case
        for v in vs:
            for on in (False, True):
                def f(x):
                    return float(mk(on).i(0, x))

                def mk(on):
                    return sw.switch_device(1, 2, 3, 4, sw.vswitch_model('m', **kw), ic=on, part_id='S1')
                i = f(v)
                R = v[0] / i if i else None
                r.need(R is None or kw['RON'] * (1 - 1e-9) <= R <= kw['ROFF'] * (1 + 1e-9), 'switch:range', lambda: 'R = %s at %s (%s)' % (R, v, kw))
                for k in range(2):
                    num, e1, e2 = deriv(f, v, k, 1e-4)
                    g = float(mk(on).g(0, v, k))
                    if e2 > 3e-2 * abs(num) + 1e-7:
                        continue
                    r.need(abs(g - num) <= 1e-3 * abs(num) + 4 * e1 + 1e-9 + 4e-12 * kw['ROFF'] * i * i / max(abs(v[0]), 1e-3), 'switch:g', lambda: 'v=%s port %d on=%s: %g, the derivative is %g (%s)' % (
                        v, k, on, g, num, kw))
                d = mk(on)
                far = kw['VH'] + .6
                if abs(v[1] - kw['VT']) > far:
                    want = kw['RON'] if v[1] > kw['VT'] else kw['ROFF']
                    r.need(close(float(d.g(0, v, 0)), 1. / want, rtol=1e-6), 'switch:state', lambda: 'v=%s from on=%s: R=%g, expected %g (%s)' % (
                        v, on, 1 / float(d.g(0, v, 0)), want, kw))
                r.need(f((0., v[1])) == 0., 'switch:zero', 'current without voltage')

    tj = r.get('components.TunnelJunction')

    def tunnels():
        g = r.rng('tunnel')
        for i in range(r.count(100, 1000)):
            yield g.choice([1., 4., 10.]), g.choice([5., 10., 20.]), [g.choice([0., g.uniform(-.9, .9), g.uniform(-.1, .1)]) for _ in range(4)]

    def tunnel_case(case):
        phi, dd, vs = case
        t = tj.TunnelJunction('T1', 1, 2, tj.TunnelJunctionModel('m', PHI_B=phi), d=dd)
        f = lambda x: float(t.i(0, x))
        for v in vs:
            v *= phi
            num, e1, e2 = deriv(f, (v,), 0, 1e-4 * phi)
            gm = float(t.g(0, (v,), 0))
            r.need(abs(gm - num) <= 1e-3 * abs(num) + 4 * e1 + 1e-9 * abs(f((v,))), 'tunnel:g', lambda: 'v=%r: g = %g, di/dv = %g %s' % (v, gm, num, case))
            st = np.asarray(t.gstamp((v,), reduced=False)[1])
            r.need(close(st, gm * np.array([[1, -1], [-1, 1]])), 'tunnel:stamp', lambda: 'v=%r: %s for g=%g' % (v, st, gm))
        r.need(f((0.,)) == 0., 'tunnel:zero', 'current without voltage')

    def tunnel_range(case):
        phi, dd, vs = case
        t = tj.TunnelJunction('T1', 1, 2, tj.TunnelJunctionModel('m', PHI_B=phi), d=dd)
        try:
            ok = np.isfinite(t.i(0, (1.5 * phi,)))
        except ValueError:
            ok = False
        r.need(ok, 'tunnel:range', 'no current for v = 1.5 PHI_B')

    tl = list(tunnels())
    r.section('tunnel', tl, tunnel_case, budget=r.count(30, 200))
    r.section('tunnel-range', tl[:3], tunnel_range, budget=20)
    dl = list(diodes())
    r.section('diode', dl, diode_case, budget=r.count(60, 400))
    r.section('diode-law', dl, diode_law, budget=r.count(30, 200))
    r.section('diode-rs', dl, diode_rs, budget=r.count(30, 200))
    r.section('diode-finite', dl[:r.count(80, 600)], finite, budget=r.count(30, 200))
    ml = list(mosqs())
    r.section('mosq', ml, mosq_case, budget=r.count(60, 400))
    r.section('mosq-law', ml, mosq_law, priv=True, budget=r.count(30, 200))
    r.section('mosq-swap', ml, swap, budget=r.count(30, 200))
    el = list(ekvs())
    r.section('ekv', el, ekv_case, budget=r.count(90, 500))
    r.section('ekv-scale', el, ekv_scale, budget=r.count(60, 300))
    r.section('ekv-mirror', el, ekv_pol, budget=r.count(60, 300))
    r.section('switch', switches(), switch_case, budget=r.count(30, 300))
    r.done()


if __name__ == "__main__":
    main()
