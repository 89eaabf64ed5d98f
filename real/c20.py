from circ import *
from dev import *


def main():
    r = R('user supplied sets of initial conditions on random circuits (node and element names of any characters, random case of element names, '
          'unknown names, malformed labels); element initial conditions on forests of capacitors and on inductors, on random starting vectors; '
          'guesses of random sets of devices whose requests are compatible; distinct by circuit and values')
    NAMES = ['a', 'b', 'out', 'n_1', 'x1-s-a', 'in+', '7', 'Mid', 'p.q', 'V', 'i', '33', '#k']

    def rcase(g, s):
        return ''.join(g.choice([c.upper(), c.lower()]) for c in s)

    def renamed(g, els):
        d = [n for n in numbering(els) if n != '0']
        m = dict(zip(d, g.sample(NAMES, len(d))))
        m['0'] = '0'
        out = []
        for e in els:
            e = dict(e)
            for k in ('n1', 'n2', 's1', 's2'):
                if k in e:
                    e[k] = m[e[k]]
            out.append(e)
        return out

    # ---- user supplied
    def users():
        g = r.rng('user')
        for k in range(r.count(600, 6000)):
            els = renamed(g, gen(g, 'RCLVIEGH', nmax=5, emax=9))
            d, vd = numbering(els), vdelems(els)
            ic, exp = {}, np.zeros(len(d) - 1 + len(vd))
            for n in d:
                if g.random() < .5:
                    v = g.choice([0., 1., -2.5, g.uniform(-5, 5), 3])
                    ic[g.choice(['V(%s)', 'v(%s)', 'V( %s )', 'V (%s)', ' v(%s) ']) % n] = v
                    if n != '0':
                        exp[d[n] - 1] = v
            for q, e in enumerate(vd):
                if g.random() < .5:
                    v = g.choice([1e-3, -2., g.uniform(-1, 1)])
                    ic[g.choice(['I(%s)', 'i(%s)', 'I( %s )']) % rcase(g, e['id'])] = v
                    exp[len(d) - 1 + q] = v
            it = list(ic.items())
            g.shuffle(it)
            bad = None
            if g.random() < .3:
                bad = g.choice(['V(nosuch)', 'I(Rnosuch)', 'I(V999)', 'foo', 'V', 'V()', 'I()', 'Q(a)', 'V(nosuch,a)', 'T', '', 'V(nosuch'] +
                               ['I(%s)' % e['id'] for e in els if e['t'] in 'RCI'] + ['xV(%s)' % n for n in d] + ['V(%s)x' % n for n in d])
                it.insert(g.randrange(len(it) + 1), (bad, 1.))
            yield els, it, exp, bad

    def user(case):
        els, it, exp, bad = case
        c = build(els)
        try:
            x = ahkab.new_x0(c, dict(it))
        except (ValueError, KeyError):
            r.need(bad is not None, 'ic:rejected', lambda: 'initial conditions %r rejected' % it)
            return
        r.need(bad is None, 'ic:accepted', lambda: '%r accepted' % bad)
        x = np.asarray(x)
        r.need(x.shape == (len(exp), 1), 'ic:shape', lambda: 'vector of shape %r for %d unknowns' % (x.shape, len(exp)))
        for k in range(len(exp)):
            r.need(x[k, 0] == exp[k], 'ic:value', lambda: 'unknown %d is %r, given %r by %r' % (k, x[k, 0], exp[k], it))

    # ---- element initial conditions
    def elems():
        g = r.rng('elem')
        for k in range(r.count(600, 6000)):
            els = gen(g, 'RCLVIEG', nmax=6, emax=10, coupling=g.random() < .5)
            els = [dict(e) for e in els if e['t'] != 'C']
            nodes = list(numbering(els)) + ['e1', 'e2']
            # a forest of capacitors (and one diode now and then) with initial conditions
            comp = dict((n, n) for n in nodes)

            def root(n):
                while comp[n] != n:
                    n = comp[n]
                return n
            fo = []
            for q in range(g.randint(0, 5)):
                a, b = g.choice(nodes), g.choice(nodes)
                ic = g.choice([None, None, 1., 0., -2.5, g.uniform(-3, 3)])
                if a == b:
                    ic = None
                if ic is not None:
                    if root(a) == root(b):
                        ic = None
                    else:
                        comp[root(a)] = root(b)
                fo.append({'t': 'C', 'id': 'Cf%d' % q, 'n1': a, 'n2': b, 'v': 1e-6, 'ic': ic})
            for e in els:
                if e['t'] == 'L':
                    e['ic'] = g.choice([None, 0., 1e-3, g.uniform(-1, 1)])
            for f in fo:
                els.insert(g.randrange(len(els) + 1), f)
            yield els, g.randrange(10 ** 9)

    def make(els):
        c = ahkab.Circuit('c')
        late = []
        for e in els:
            if e['t'] == 'K':
                late.append(e)
            elif e['t'] == 'C':
                c.add_capacitor(e['id'], e['n1'], e['n2'], e['v'], ic=e.get('ic'))
            elif e['t'] == 'L':
                c.add_inductor(e['id'], e['n1'], e['n2'], e['v'], ic=e.get('ic'))
            else:
                add(c, e)
        return c

    def elem(case):
        els, s = case
        g = random.Random(s)
        els = [e for e in els if e['t'] != 'K']
        if els and not any('0' in (e.get('n1'), e.get('n2'), e.get('s1'), e.get('s2')) for e in els):
            els.append({'t': 'R', 'id': 'Rgnd', 'n1': els[0]['n1'], 'n2': '0', 'v': 1.})
        c = make(els)
        d, vd = numbering(els), vdelems(els)
        n = len(d) - 1 + len(vd)
        if n <= 0 or len(d) < 2:
            return
        x0 = np.array([[g.uniform(-5, 5)] for _ in range(n)])
        asop = g.random() < .5
        if asop:
            op = r.get('results.op_solution')(x0.copy(), np.zeros((n, 1)), c, None)
            res = ahkab.icmodified_x0(c, op)
            r.need(np.array_equal(np.asarray(op.asarray()), x0), 'ic:input', 'the operating point passed in was changed')
        else:
            res = ahkab.icmodified_x0(c, x0.copy())
        x = np.asarray(res.asarray() if hasattr(res, 'asarray') else res)
        r.need(x.shape == x0.shape, 'ic:shape', lambda: 'vector of shape %r for %d unknowns' % (x.shape, n))
        v = lambda y, m: y[d[m] - 1, 0] if d[m] else 0.
        touched = set()
        for e in els:
            if e['t'] == 'C' and e.get('ic') is not None:
                got = v(x, e['n1']) - v(x, e['n2'])
                r.need(abs(got - e['ic']) <= 1e-12 * (1 + abs(e['ic']) + 50), 'ic:cap', lambda: '%s starts at %r, declared %r' % (e['id'], got, e['ic']))
                touched |= set([e['n1'], e['n2']])
        for m in d:
            if m not in touched and m != '0':
                r.need(v(x, m) == v(x0, m), 'ic:other', lambda: 'node %s: %r became %r' % (m, v(x0, m), v(x, m)))
        for q, e in enumerate(vd):
            exp = x0[len(d) - 1 + q, 0] if e.get('ic') is None or e['t'] != 'L' else e['ic']
            r.need(x[len(d) - 1 + q, 0] == exp, 'ic:ind' if e.get('ic') is not None else 'ic:other', lambda: 'current of %s is %r, should be %r' % (e['id'], x[len(d) - 1 + q, 0], exp))

    # ---- guesses of the devices
    def guesses():
        g = r.rng('guess')
        for k in range(r.count(500, 5000)):
            nodes = names(g, g.randint(2, 6))
            devs = gen_devs(g, nodes, n=5, kinds='dmqes', distinct=False)
            els = gen(g, 'RVIL', nmax=3, emax=4)
            yield els, devs

    def guess(case):
        els, devs = case
        c = build([e for e in els if e['t'] != 'K'])
        add_devs(c, devs)
        gs = r.get('dc_guess.get_dc_guess')
        x = gs(c, verbose=0)
        if not devs:
            r.need(x is None, 'guess:linear', 'a guess for a linear circuit')
            return
        if x is None:
            return
        n = sum(1 for e in c if hasattr(e, 'part_id') and ahkab.circuit.is_elem_voltage_defined(e))
        nn = sum(1 for k in c.nodes_dict if isinstance(k, int)) - (1 if 0 in c.nodes_dict else 0)
        x = np.asarray(x)
        r.need(x.shape == (nn + n, 1) and bool(np.all(np.isfinite(x))), 'guess:shape', lambda: 'guess %r for %d unknowns' % (x, nn + n))
        # what the devices ask for
        A, b = [], []
        for e in c:
            q = getattr(e, 'dc_guess', None)
            if q is None:
                continue
            for (p1, p2), v in zip(e.ports if e.is_nonlinear else ((e.n1, e.n2),), q):
                row = np.zeros(nn + 1)
                row[p1] += 1
                row[p2] -= 1
                if row[1:].any():
                    A.append(row[1:])
                    b.append(v)
                elif abs(v) > 0:
                    pass
        if not A:
            return
        A, b = np.array(A), np.array(b)
        z = np.linalg.lstsq(A, b, rcond=None)[0]
        if np.max(np.abs(A.dot(z) - b)) > 1e-9:
            return              # incompatible requests
        r.need(np.max(np.abs(A.dot(x[:nn, 0]) - b)) <= 1e-9 * (1 + np.max(np.abs(b))), 'guess:value', lambda: 'guess %r gives port voltages %r, asked %r' % (
            x[:nn, 0], A.dot(x[:nn, 0]), b))
        r.need(not x[nn:].any(), 'guess:current', lambda: 'currents %r' % x[nn:])

    r.section('user', users(), user)
    r.section('elements', elems(), elem)
    r.section('guess', guesses(), guess, priv=True)
    r.done()


if __name__ == '__main__':
    main()
