from common import *
import math


def main():
    r = R('random parameter sets of every waveform, times before, on and after every edge and over many periods, in random order; distinct by '
          'parameters and time')
    tf = r.get('time_functions')

    def cases(kind, n):
        g = r.rng(kind)
        for i in range(n):
            u = lambda a=-5, b=5: g.choice([0., 1., -1., g.uniform(a, b)])
            T = 10 ** g.uniform(-9, 1)
            td = g.choice([0., 0., T * g.uniform(0, 3)])
            if kind == 'pulse':
                tr, pw, tff = [g.choice([0, 1, 1, 1]) * T * g.uniform(.01, 1) for _ in range(3)]
                per = (tr + pw + tff) * g.choice([1., 1.5, 3., 100.]) or T
                p = dict(v1=u(), v2=u(), td=g.choice([td, td, -T]), tr=tr, pw=pw, tf=tff, per=per)
                d = max(p['td'], 0)
                ed = [d, d + tr, d + tr + pw, d + tr + pw + tff]
                ks = [0, 1, 2, g.randint(3, 1000)]
                ts = [e + k * per for e in ed for k in ks]
                ts = [0.] + ts + [t + s * per * 1e-3 for t in ts for s in (-1, 1)] + [g.uniform(0, 5 * per + d) for _ in range(20)]
                ts = [t for t in ts if t >= 0]
            elif kind == 'sin':
                f = 1 / T
                p = dict(vo=u(), va=u(), freq=f, td=td, theta=g.choice([0., 0.3 / T, -.1 / T]), phi=g.choice([0., 90., -30., g.uniform(-360, 360)]))
                ts = [0., td, td + T / 4] + [td + T * g.uniform(-2, 8) for _ in range(20)]
            elif kind == 'exp':
                td2 = td + T * g.uniform(0, 4)
                p = dict(v1=u(), v2=u(), td1=td, tau1=T * g.uniform(.1, 2), td2=td2, tau2=T * g.uniform(.1, 2))
                ts = [0., td, td2] + [g.uniform(0, 10 * T) for _ in range(20)] + [(td + td2) / 2]
            elif kind == 'sffm':
                p = dict(vo=u(), va=u(), fc=10 / T, mdi=g.uniform(0, 5), fs=1 / T, td=td)
                ts = [0., td] + [g.uniform(0, 10 * T) for _ in range(25)]
            elif kind == 'am':
                p = dict(sa=u(), fc=10 / T, fm=1 / T, oc=g.choice([0., 1., g.uniform(-2, 2)]), td=td)
                ts = [0., td] + [g.uniform(0, 10 * T) for _ in range(25)]
            else:
                n_ = g.randint(2, 7)
                x = [g.choice([0., 0., T])]
                for _ in range(n_ - 1):
                    x.append(x[-1] + T * g.uniform(.05, 2))
                p = dict(x=x, y=[u() for _ in x], td=td)
                if g.random() < .6:
                    p['repeat'] = True
                    p['repeat_time'] = g.choice([0., x[0], g.choice(x[:-1]), x[-1], g.uniform(0, x[-1] * .9)])
                ts = [0., td] + [td + q for q in x] + [td + g.uniform(0, 6) * x[-1] for _ in range(25)] + [g.uniform(0, 1.2) * (td + x[-1])]
            g.shuffle(ts)
            yield kind, p, ts

    def law(kind, p, t):
        """the documented formulae; None where a discontinuity makes both one-sided values acceptable"""
        if kind == 'pulse':
            d = max(p['td'], 0.)
            if t < d:
                return [p['v1']]
            per = p['per']
            tl = math.fmod(t - d, per)
            out = []
            eps = 4e-16 * max(abs(t), per) * 8

            def val(s):
                if s < 0:
                    s += per
                a, b, c = p['tr'], p['tr'] + p['pw'], p['tr'] + p['pw'] + p['tf']
                if s < a:
                    return p['v1'] + (p['v2'] - p['v1']) / p['tr'] * s
                if s < b:
                    return p['v2']
                if s < c:
                    return p['v2'] + (p['v1'] - p['v2']) / p['tf'] * (s - b)
                return p['v1']
            out = [val(tl), val(tl - eps) if t - eps >= d else p['v1'], val(tl + eps if tl + eps < per else 0.)]
            if tl < eps or per - tl < eps:
                out.append(p['v1'])
            return out
        if kind == 'sin':
            ph = math.pi * p['phi'] / 180
            if t < p['td']:
                return [p['vo'] + p['va'] * math.sin(ph)]
            return [p['vo'] + p['va'] * math.exp(-(t - p['td']) * p['theta']) * math.sin(2 * math.pi * p['freq'] * (t - p['td']) + ph)]
        if kind == 'exp':
            v = p['v1']
            if t >= p['td1']:
                v += (p['v2'] - p['v1']) * (1 - math.exp(-(t - p['td1']) / p['tau1']))
            if t >= p['td2']:
                v += (p['v1'] - p['v2']) * (1 - math.exp(-(t - p['td2']) / p['tau2']))
            return [v]
        if kind == 'sffm':
            s = t - p['td']
            if s <= 0:
                return [p['vo']]
            return [p['vo'] + p['va'] * math.sin(2 * math.pi * p['fc'] * s + p['mdi'] * math.sin(2 * math.pi * p['fs'] * s))]
        if kind == 'am':
            s = t - p['td']
            if s <= 0:
                return [0.]
            return [p['sa'] * (p['oc'] + math.sin(2 * math.pi * p['fm'] * s)) * math.sin(2 * math.pi * p['fc'] * s)]
        x, y = p['x'], p['y']
        s = max(t - p['td'], 0.)
        eps = 1e-14 * (abs(t) + x[-1])

        def lin(s):
            return float(np.interp(s, x, y))
        if p.get('repeat') and s > x[-1]:
            rt = p['repeat_time']
            if rt == x[-1]:
                rt = 0.
            L = x[-1] - rt
            q = math.fmod(s - x[-1], L)
            return [lin(rt + q), lin(rt + (q + L * (1 - 1e-13) if q < eps else q)), lin(rt if L - q < eps else rt + q)]
        return [lin(s)]

    def check(case):
        kind, p, ts = case
        f = getattr(tf, kind)(**p)
        first = [float(f(t)) for t in ts]
        amp = max([1.] + [abs(float(q)) for k in ('v1', 'v2', 'vo', 'va', 'sa', 'oc') if k in p for q in [p[k]]] + [abs(q) for q in p.get('y', [])]) ** 2
        for t, v in zip(ts, first):
            w = law(kind, p, t)
            slope = 0.
            if kind == 'pulse':
                slope = max([abs(p['v2'] - p['v1']) / q for q in (p['tr'], p['tf']) if q] or [0.])
            elif kind == 'pwl':
                slope = max(abs((b - a) / (d - c)) for a, b, c, d in zip(p['y'], p['y'][1:], p['x'], p['x'][1:]))
            elif kind in ('sin',):
                slope = abs(p['va']) * 7 * p['freq'] * max(1., math.exp(-min(0, (t - p['td'])) * 0 - p['theta'] * max(0, t - p['td'])))
            elif kind in ('sffm', 'am'):
                slope = amp * 100 * p['fc']
            tol = 1e-9 * amp * max([1.] + [abs(q) for q in w]) + slope * 1e-14 * (abs(t) + abs(p.get('td', 0)))
            r.need(any(abs(v - q) <= tol for q in w), 'tf:' + kind, lambda: 'at %r: %r expected %s' % (t, v, w))
        # the value only depends on the time
        for i in list(range(len(ts)))[::-1]:
            r.need(float(f(ts[i])) == first[i], 'tf:history', lambda: 'at %r: %r then %r' % (ts[i], first[i], float(f(ts[i]))))
        r.need(float(f(None)) == float(f(0)), 'tf:none', 'no time is time zero')

    def source(case):
        """sources pass the time on"""
        kind, p, ts = case
        f = getattr(tf, kind)(**p)
        c = ahkab.Circuit('t')
        c.add_vsource('V1', 'a', c.gnd, 1.25, function=f)
        c.add_isource('I1', 'a', c.gnd, 2.5, function=f)
        c.add_vsource('V2', 'b', c.gnd, 3.)
        c.add_isource('I2', 'b', c.gnd, 4.)
        e = dict((x.part_id, x) for x in c)
        r.need(e['V1'].is_timedependent and e['I1'].is_timedependent and not e['V2'].is_timedependent and not e['I2'].is_timedependent, 'tf:source', 'flags')
        for t in ts:
            r.need(float(e['V1'].V(t)) == float(f(t)) and float(e['I1'].I(t)) == float(f(t)), 'tf:source', lambda: 'value at %r' % t)
            r.need(e['V2'].V(t) == 3. and e['I2'].I(t) == 4., 'tf:source', 'constant source')
        r.need(e['V1'].V() == 1.25 and e['I1'].I() == 2.5, 'tf:source', 'DC value')
    n = r.count(150, 3000)
    for kind in ('pulse', 'sin', 'exp', 'sffm', 'am', 'pwl'):
        r.section(kind, cases(kind, n), check)
    r.section('source', [c for k in ('pulse', 'sin', 'exp', 'sffm', 'am', 'pwl') for c in cases(k, 4)], source)
    r.done()


if __name__ == '__main__':
    main()
