"""random circuits: a description independent of the package, the circuit
built from it through the public API, and the element laws of the contracts"""
from common import *


def names(rng, n):
    pool = ['a', 'b', 'out', 'in1', 'n3', '7', 'x10', '5', 'VDD', 'q', 'Mid', '33', 'z', 'w2', 'k', 'o1', 'p', '12']
    p = pool[:]
    rng.shuffle(p)
    return ['0'] + p[:n]


def gen(rng, kinds='RCLVIEGHF', nmax=5, emax=9, coupling=True, loopfree=False, ac=False, tdep=False, distinct=False):
    """description: list of dicts.  Terminals are drawn with coincidences."""
    nd = names(rng, rng.randint(1, nmax))
    els = []
    ne = rng.randint(1, emax)
    vd = 0
    cnt = {}

    # names which begin with one another
    nested = rng.random() < .3
    numb = lambda q: ['12', '1', '121', '2', '21'][q - 1] if nested and q <= 5 else str(q + 100 * nested)

    def node(avoid=None):
        x = rng.choice(nd)
        if distinct and x == avoid:
            x = rng.choice([q for q in nd if q != avoid])
        return x

    def val():
        return rng.choice([1.0, 2.0, -3.0, 0.5, 1e3, 4.7, 1e-3, rng.uniform(-10, 10) or 1.0])
    for _ in range(ne):
        k = rng.choice(kinds)
        cnt[k] = cnt.get(k, 0) + 1
        pid = k + (rng.choice(['%s', '_x%s', 'Ab%s']) if not nested else '%s') % numb(cnt[k])
        n1 = node()
        n2 = node(n1)
        e = {'t': k, 'id': pid, 'n1': n1, 'n2': n2, 'v': val()}
        if k in 'RCL':
            e['v'] = abs(e['v']) or 1.0
        if k in 'EG':
            e['s1'], e['s2'] = node(), node()
        if k in 'VI':
            e['ac'] = rng.choice([None, 0, 1.0, 2.0, 1 + 2j, rng.uniform(-5, 5)]) if ac else None
            e['td'] = tdep and rng.random() < .4
        els.append(e)
    vds = [e for e in els if e['t'] in 'VELH']
    for e in els[:]:
        if e['t'] in 'FH':
            cand = [x['id'] for x in vds]
            if not cand:
                els.remove(e)
                continue
            e['src'] = rng.choice(cand)
    # a removed CCVS may have been the source of another
    ids = set(x['id'] for x in els)
    els = [e for e in els if e.get('src') is None or e['src'] in ids]
    ls = [e for e in els if e['t'] == 'L']
    if coupling and len(ls) >= 2:
        nc = rng.randint(0, 2)
        pairs = [(a['id'], b['id']) for i, a in enumerate(ls) for b in ls[i + 1:]]
        rng.shuffle(pairs)
        for q, (a, b) in enumerate(pairs[:nc]):
            if rng.random() < .5:
                a, b = b, a
            pos = rng.randint(max(els.index(x) for x in ls) + 1, len(els))
            els.insert(pos, {'t': 'K', 'id': 'K%d' % q, 'l1': a, 'l2': b, 'v': rng.choice([.1, .5, .9, 1.0])})
    return els


def case_id(rng, s):
    return rng.choice([s, s, s.lower(), s.upper()])


def build(els, sub=False):
    c = ahkab.Circuit('t')
    c.add_node('0')
    for e in els:
        add(c, e)
    return c


class TF(object):
    """a time function with a value the contracts know"""

    def __init__(self, e):
        self.e = e

    def __call__(self, t):
        return tval(self.e, t)


def tval(e, t):
    return e['v'] * (1 + 0.3 * np.sin(2 * np.pi * t * 1e3 * (1 + len(e['id']))))


def add(c, e):
    t = e['t']
    if t == 'R':
        c.add_resistor(e['id'], e['n1'], e['n2'], e['v'])
    elif t == 'C':
        c.add_capacitor(e['id'], e['n1'], e['n2'], e['v'], ic=e.get('ic'))
    elif t == 'L':
        c.add_inductor(e['id'], e['n1'], e['n2'], e['v'], ic=e.get('ic'))
    elif t == 'K':
        c.add_inductor_coupling(e['id'], e['l1'], e['l2'], e['v'])
    elif t in 'VI':
        kw = {}
        if e.get('ac') is not None:
            kw['ac_value'] = e['ac']
        if e.get('td'):
            kw['function'] = TF(e)
        (c.add_vsource if t == 'V' else c.add_isource)(e['id'], e['n1'], e['n2'], e['v'], **kw)
    elif t == 'E':
        c.add_vcvs(e['id'], e['n1'], e['n2'], e['s1'], e['s2'], e['v'])
    elif t == 'G':
        c.add_vccs(e['id'], e['n1'], e['n2'], e['s1'], e['s2'], e['v'])
    elif t == 'F':
        c.add_cccs(e['id'], e['n1'], e['n2'], e['src'], e['v'])
    elif t == 'H':
        c.add_ccvs(e['id'], e['n1'], e['n2'], e['src'], e['v'])
    else:
        raise ValueError(t)


def numbering(els):
    """node name -> number: order of first appearance"""
    d = {'0': 0}
    for e in els:
        for k in ('n1', 'n2', 's1', 's2'):
            if k in e and e[k] not in d:
                d[e[k]] = len(d)
    return d


def vdelems(els):
    return [e for e in els if e['t'] in 'VELH']


def law_static(els, dc=True, t=None, ac=False, dt=float):
    """M, N with M x + N = 0 (dc) by superposition of element laws"""
    d = numbering(els)
    vd = vdelems(els)
    row = dict((e['id'].upper(), len(d) + i) for i, e in enumerate(vd))
    n = len(d) + len(vd)
    M, N = np.zeros((n, n), dtype=dt), np.zeros((n, 1), dtype=dt)
    for e in els:
        T, v = e['t'], e['v']
        if T == 'K':
            continue
        a, b = d[e['n1']], d[e['n2']]
        if T == 'R':
            for r, s in ((a, 1), (b, -1)):
                M[r, a] += s / v
                M[r, b] -= s / v
        elif T == 'I' and not e.get('td'):
            N[a, 0] += v
            N[b, 0] -= v
        elif T == 'G':
            for r, s in ((a, 1), (b, -1)):
                M[r, d[e['s1']]] += s * v
                M[r, d[e['s2']]] -= s * v
        elif T == 'F':
            for r, s in ((a, 1), (b, -1)):
                M[r, row[e['src'].upper()]] += s * v
        if T in 'VELH':
            q = row[e['id'].upper()]
            M[a, q] += 1
            M[b, q] -= 1
            M[q, a] += 1
            M[q, b] -= 1
            if T == 'V' and not e.get('td'):
                N[q, 0] -= v
            elif T == 'E':
                M[q, d[e['s1']]] -= v
                M[q, d[e['s2']]] += v
            elif T == 'H':
                M[q, row[e['src'].upper()]] += v
    return M, N


def law_dynamic(els, dt=float):
    d = numbering(els)
    vd = vdelems(els)
    row = dict((e['id'].upper(), len(d) + i) for i, e in enumerate(vd))
    byid = dict((e['id'], e) for e in els)
    n = len(d) + len(vd)
    D = np.zeros((n, n), dtype=dt)
    for e in els:
        T, v = e['t'], e['v']
        if T == 'C':
            a, b = d[e['n1']], d[e['n2']]
            for r, s in ((a, 1), (b, -1)):
                D[r, a] += s * v
                D[r, b] -= s * v
        elif T == 'L':
            q = row[e['id'].upper()]
            D[q, q] -= v
        elif T == 'K':
            p, q = row[e['l1'].upper()], row[e['l2'].upper()]
            m = v * type(v)(np.sqrt(float(byid[e['l1']]['v'] * byid[e['l2']]['v'])))
            D[p, q] -= m
            D[q, p] -= m
    return D


def show(els):
    return '; '.join(' '.join('%s=%s' % (k, v) for k, v in e.items()) for e in els)


def parse(lines, err=None, title='title', full=False):
    """the circuit parsed from a netlist with these lines; None if rejected with a parse error"""
    import tempfile
    from ahkab import netlist_parser
    fd, name = tempfile.mkstemp(suffix='.ckt')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(title + '\n' + '\n'.join(lines) + '\n')
        try:
            res = netlist_parser.parse_circuit(name)
        except (err or netlist_parser.NetlistParseError):
            return None
        return res if full else res[0]
    finally:
        os.unlink(name)
