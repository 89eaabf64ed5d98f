from circ import *
from dev import *
import mpmath
from fractions import Fraction


def det(M):
    """exact determinant of a matrix of fractions"""
    M, n, d = [list(r) for r in M], len(M), Fraction(1)
    for i in range(n):
        k = next((k for k in range(i, n) if M[k][i]), None)
        if k is None:
            return Fraction(0)
        if k != i:
            M[i], M[k], d = M[k], M[i], -d
        d *= M[i][i]
        for k in range(i + 1, n):
            if M[k][i]:
                f = M[k][i] / M[i][i]
                for j in range(i, n):
                    if M[i][j]:
                        M[k][j] -= f * M[i][j]
    return d


def roots(A, B, deg):
    """roots of det(A + s B), of degree deg at most, computed exactly: None if there is no such polynomial"""
    unit = Fraction(10) ** 6
    x = [unit * Fraction(i - deg // 2) for i in range(deg + 1)]
    y = [det(A + q * B) for q in x]
    # Newton's divided differences, then the coefficients
    c = y[:]
    for i in range(1, deg + 1):
        for j in range(deg, i - 1, -1):
            c[j] = (c[j] - c[j - 1]) / (x[j] - x[j - i])
    poly = [c[deg]]
    for i in range(deg - 1, -1, -1):
        poly = [(poly[k - 1] if k else 0) - x[i] * poly[k] if k < len(poly) else poly[-1] for k in range(len(poly) + 1)]
        poly[0] += c[i]
    while poly and poly[-1] == 0:
        poly.pop()
    if not poly:
        return None
    out = []
    while poly[0] == 0:
        poly.pop(0)
        out.append(0.)
    if len(poly) > 1:
        mpmath.mp.dps = 60
        # scale s so that the product of the roots is one
        sc = mpmath.mpf(abs(poly[0].numerator)) / poly[0].denominator / (mpmath.mpf(abs(poly[-1].numerator)) / poly[-1].denominator)
        sc = sc ** (mpmath.mpf(1) / (len(poly) - 1))
        co = [mpmath.mpf(q.numerator) / q.denominator * sc ** k for k, q in enumerate(poly)]
        out += [complex(q * sc) for q in mpmath.polyroots(co[::-1], maxsteps=500, extraprec=500)]
    return np.array(out, dtype=complex)


def main():
    r = R('well-posed random linear circuits with one to five storage elements (resistors, capacitors, inductors, couplings, every controlled source) in '
          'realistic and unit scales, every source as input and every node or pair as output; permuted elements and renamed nodes; linearised '
          'circuits with devices; distinct by description')
    E12 = [1., 2.2, 4.7, 10., 15., 33.]

    def build_case(g):
        while True:
            els = gen(g, g.choice(['RRCCVI', 'RRCLVI', 'RRCLVGE', 'RRCCVGF', 'RLLCVI', 'RRCLVEGHFI']), nmax=5, emax=9, distinct=True, coupling=g.random() < .6)
            sc = g.choice(['unit', 'real'])
            for e in els:
                if e['t'] in 'RCL':
                    e['v'] = g.choice(E12) * ({'R': 1e3, 'C': 1e-9, 'L': 1e-3}[e['t']] if sc == 'real' else 1.)
                elif e['t'] == 'K':
                    e['v'] = g.choice([.1, .5, .9])
                elif e['t'] in 'GEFH':
                    e['v'] = g.choice([.5, 2., -1., -3., 10.]) * ({'G': 1e-3, 'H': 1e3}.get(e['t'], 1.) if sc == 'real' else 1.)
            els = [e for e in els if e['t'] != 'H'] if any(e['t'] == 'F' and [q for q in els if q['id'] == e['src']][0]['t'] == 'H' for e in els) is False and g.random() < .7 else els
            ids = set(e['id'] for e in els)
            if any(e.get('src') and e['src'] not in ids for e in els):
                continue
            if sum(e['v'] ** 2 for e in els if e['t'] == 'K') > 1:
                continue
            ns = sum(1 for e in els if e['t'] in 'CL')
            if not 1 <= ns <= 5 or not any(e['t'] in 'VI' for e in els):
                continue
            return els, sc

    def ref(els, src, out):
        els = [dict(e, v=Fraction(e['v'])) for e in els]
        ns = sum(1 for e in els if e['t'] in 'CL')
        A, D = law_static(els, dt=object)[0][1:, 1:], law_dynamic(els, dt=object)[1:, 1:]
        N = law_static([dict(e, v=Fraction(1 if e['id'] == src else 0)) if e['t'] in 'VI' else e for e in els], dt=object)[1][1:]
        p = roots(A, D, ns)
        if p is None:
            return None
        n = A.shape[0]
        A2, D2 = np.zeros((n + 1, n + 1), dtype=object), np.zeros((n + 1, n + 1), dtype=object)
        A2[:n, :n], D2[:n, :n] = A, D
        A2[:n, n:] = N
        for o, q in zip(out, (1, -1)):
            if o:
                A2[n, o - 1] += q
        return p, roots(A2, D2, ns)

    def cases(name, q, t):
        g = r.rng(name)
        for _ in range(r.count(q, t)):
            els, sc = build_case(g)
            yield els, sc, g.randrange(10 ** 9)

    def match(got, want, scale, key, what, tol=1e-5):
        got, want = list(got), list(want)
        r.need(len(got) == len(want), key + ':number', lambda: '%s: %d reported %r, should be %d: %r' % (what, len(got), got, len(want), want))
        for w in sorted(want, key=abs):
            k = min(range(len(got)), key=lambda i: abs(got[i] - w))
            r.need(abs(got[k] - w) <= tol * (abs(w) + scale * 1e-3), key + ':value', lambda: '%s: %r, should be %r' % (what, sorted(got, key=abs), sorted(want, key=abs)))
            got.pop(k)

    def separated(p, m=1e-3):
        return all(abs(a - b) > m * max(abs(a), abs(b)) for i, a in enumerate(p) for b in p[:i])

    def case(cs):
        els, sc, s = cs
        g = random.Random(s)
        c = build(els)
        nd = numbering(els)
        src = g.choice([e['id'] for e in els if e['t'] in 'VI'])
        a = g.choice([n for n in nd if n != '0'])
        b = g.choice(['0', '0'] + [n for n in nd if n != a])
        out = (nd[a], nd[b])
        q = ref(els, src, out)
        if q is None:
            return
        p, z = q
        p = p / (2 * np.pi)
        # (a multiple pole at zero or at infinity cannot be told in floating point)
        big = max([1. if sc == 'real' else 1e-3] + [abs(x) for x in p])
        if not separated(p) or sum(1 for x in p if abs(x) < 1e-4 * big) > 1:
            return
        before = [(e.part_id, e.n1, e.n2) for e in c if hasattr(e, "n1")], dict(c.nodes_dict)
        pz = ahkab.run(c, ahkab.new_pz(input_source=None, output_port=None))['pz']
        match([x for x in pz.poles if abs(x) < 300 * big], p, big, 'poles', 'poles')
        r.need(([(e.part_id, e.n1, e.n2) for e in c if hasattr(e, "n1")], dict(c.nodes_dict)) == before, 'pz:circuit', 'the circuit changed')
        if z is None:
            return
        z = z / (2 * np.pi)
        if not separated(z) or len(z) and max(abs(z)) > 1e6 * big or sum(1 for x in z if abs(x) < 1e-4 * big) > 1:
            return
        how = g.choice(['ext', 'int', 'label'])
        o = (a, b) if how == 'ext' else out if how == 'int' else ('V(%s,%s)' % (a, b) if b != '0' else 'V(%s)' % a)
        if how == 'label' and not (a + b).islower():
            o = (a, b)
        pz = ahkab.run(c, ahkab.new_pz(input_source=src, output_port=o))['pz']
        match([x for x in pz.poles if abs(x) < 300 * big], p, big, 'poles', 'poles')
        # (multiple zeros at infinity come out as very high frequencies)
        # modes the source does not drive or the output does not see may be listed as poles and zeros
        zb = max([big] + [abs(x) for x in z])

        def rest(zs):
            zs, left = list(zs), []
            for x in zs:
                if not any(abs(x - y) <= 1e-4 * (abs(y) + zb * 1e-3) for y in p):
                    left.append(x)
            return left
        match([x for x in rest(pz.zeros) if abs(x) < 300 * zb], rest(z), zb, 'zeros', 'zeros from %s to %r (poles %r)' % (src, o, p), 1e-4)

    def mcases(q, t):
        g = r.rng('meta')
        for _ in range(r.count(q, t)):
            els, sc = build_case(g)
            yield els, sc, g.randrange(10 ** 9)

    def meta(cs):
        """the order and the names of the elements and of the nodes make no difference"""
        els, sc, s = cs
        g = random.Random(s)
        src = g.choice([e['id'] for e in els if e['t'] in 'VI'])
        nd = [n for n in numbering(els) if n != '0']
        out = g.choice(nd), '0'
        q = ref(els, src, tuple(numbering(els)[n] for n in out))
        if q is None or q[1] is None:
            return
        p, z = q[0] / (2 * np.pi), q[1] / (2 * np.pi)
        big = max([1. if sc == 'real' else 1e-3] + [abs(x) for x in p])
        zb = max([big] + [abs(x) for x in z])
        if not separated(p) or sum(1 for x in p if abs(x) < 1e-4 * big) > 1 or not separated(z) or zb > 1e6 * big or sum(1 for x in z if abs(x) < 1e-4 * big) > 1:
            return
        new = ['m%d' % i for i in range(len(nd))]
        g.shuffle(new)
        ren = dict(zip(nd, new), **{'0': '0'})
        ids = dict((e['id'], e['id'][0] + 'q%d' % i) for i, e in enumerate(els))
        e2 = []
        for e in els:
            e = dict(e, id=ids[e['id']])
            for k in ('n1', 'n2', 's1', 's2'):
                if k in e:
                    e[k] = ren[e[k]]
            for k in ('src', 'l1', 'l2'):
                if e.get(k):
                    e[k] = ids[e[k]]
            e2.append(e)
        ks = [e for e in e2 if e['t'] == 'K']
        e2 = [e for e in e2 if e['t'] != 'K']
        g.shuffle(e2)
        a = ahkab.run(build(els), ahkab.new_pz(input_source=src, output_port=out))['pz']
        b = ahkab.run(build(e2 + ks), ahkab.new_pz(input_source=ids[src], output_port=(ren[out[0]], '0')))['pz']
        match([x for x in b.poles if abs(x) < 300 * big], [x for x in a.poles if abs(x) < 300 * big], big, 'meta:poles', 'poles with other names and order')
        zs = [[x for x in pz.zeros if abs(x) < 300 * zb and not any(abs(x - y) <= 1e-4 * (abs(y) + zb * 1e-3) for y in p)] for pz in (b, a)]
        match(zs[0], zs[1], zb, 'meta:zeros', 'zeros with other names and order', 1e-4)

    def ncases(q, t):
        g = r.rng('nonlinear')
        for _ in range(r.count(q, t)):
            els, sc = build_case(g)
            nodes = list(numbering(els))
            if sc != 'real':
                continue
            els = els + [{'t': 'R', 'id': 'Rg%d' % i, 'n1': n, 'n2': '0', 'v': 1e4} for i, n in enumerate(nodes) if n != '0']
            devs = gen_devs(g, nodes, 2, 'dmq')
            yield els, 'real', devs, g.randrange(10 ** 9)

    def ncase(cs):
        """with nonlinear devices, the poles of the circuit linearised at the given point"""
        els, sc, devs, s = cs
        g = np.random.RandomState(s)
        c = build(els)
        if not devs:
            return
        add_devs(c, devs)
        A, D = law_static(els, dt=object)[0][1:, 1:], law_dynamic(els, dt=object)[1:, 1:]
        n = A.shape[0]
        x0 = np.zeros((n, 1))
        nn = len(numbering(els)) - 1
        x0[:nn, 0] = g.choice([0., .3, .6, 1., -.4], size=nn)
        J = law_devices(c, x0[:, 0], n)[1]
        if not np.all(np.isfinite(J)) or np.max(np.abs(J)) > 1.:
            return
        J = np.array([[Fraction(float(q)) for q in row] for row in J], dtype=object)
        fr = [dict(e, v=Fraction(e['v'])) for e in els]
        A, D = law_static(fr, dt=object)[0][1:, 1:], law_dynamic(fr, dt=object)[1:, 1:]
        p = roots(A + J, D, sum(1 for e in els if e['t'] in 'CL'))
        if p is None:
            return
        p = p / (2 * np.pi)
        big = max([1.] + [abs(x) for x in p])
        if not separated(p) or sum(1 for x in p if abs(x) < 1e-4 * big) > 1 or big > 1e11:
            return
        pz = ahkab.run(c, ahkab.new_pz(x0=x0.copy()))['pz']
        match([x for x in pz.poles if abs(x) < 300 * big], [x for x in p], big, 'nonlinear:poles', 'poles at %r' % (x0[:, 0],), 1e-4)
        m = r.get('pz.calculate_poles')(c, x0=x0.copy(), outfile=os.devnull)
        match([x for x in m.poles if abs(x) < 300 * big], [x for x in p], big, 'nonlinear:poles', 'calculate_poles at %r' % (x0[:, 0],), 1e-4)

    r.section('linear', cases('lin', 1500, 20000), case)
    r.section('order and names', mcases(300, 5000), meta)
    r.section('linearised', ncases(800, 10000), ncase)
    r.done()


if __name__ == '__main__':
    main()
