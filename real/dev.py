"""nonlinear devices for the random circuits"""
from circ import *

MODELS = {
    'dm': ('diode', {'IS': 1e-14, 'N': 1.0}),
    'dr': ('diode', {'IS': 2e-14, 'N': 1.2, 'RS': 3.0, 'ISR': 1e-12, 'NR': 2.0}),
    'dk': ('diode', {'IS': 1e-13, 'N': 1.1, 'IKF': 1e-3}),
    'mn': ('mosq', {'TYPE': 'n', 'VTO': .5, 'KP': 8e-4, 'LAMBDA': .02}),
    'mp': ('mosq', {'TYPE': 'p', 'VTO': -.6, 'KP': 4e-4, 'LAMBDA': .05, 'GAMMA': .4}),
    'en': ('ekv', {'TYPE': 'n', 'VTO': .4, 'KP': 1e-4}),
    'ep': ('ekv', {'TYPE': 'p', 'VTO': -.5, 'KP': 5e-5}),
    'sw': ('sw', {'VT': .5, 'VH': 0.0, 'RON': 10., 'ROFF': 1e5}),
}


def gen_devs(g, nodes, n=3, kinds='dmqes', distinct=True):
    out = []
    for i in range(g.randint(1, n)):
        k = g.choice(kinds)
        m = {'d': 'dm', 'm': g.choice(['dm', 'dr', 'dk']), 'q': g.choice(['mn', 'mp']), 'e': g.choice(['en', 'ep']),
             's': 'sw'}[k]
        cnt = 2 if k in 'dm' else 4
        nd = [g.choice(nodes) for _ in range(cnt)]
        if distinct and len(set(nd[:3:2] if k in 'qe' else nd[:2])) < 2:
            continue
        out.append({'id': {'d': 'D', 'm': 'D', 'q': 'M', 'e': 'M', 's': 'S'}[k] + str(i), 'model': m, 'nodes': nd})
    return out


def add_devs(c, devs):
    for m in sorted(set(d['model'] for d in devs)):
        t, kw = MODELS[m]
        c.add_model(t, m, dict(kw, name=m))
    for d in devs:
        n, t = d['nodes'], MODELS[d['model']][0]
        if t == 'diode':
            c.add_diode(d['id'], n[0], n[1], d['model'])
        elif t == 'sw':
            c.add_switch(d['id'], n[0], n[1], n[2], n[3], ic=False, model_label=d['model'])
        else:
            c.add_mos(d['id'], n[0], n[1], n[2], n[3], d.get('w', 1e-5), d.get('l', 1e-6), d['model'])


def terminal_stamp(e):
    """terminals of the device and functions giving, for the vector of their
    voltages, the current into every terminal and its Jacobian as the device
    reports them (no reduction)"""
    if hasattr(e, 'gstamp'):
        terms = (e.n1, e.ng, e.n2, e.nb) if hasattr(e, 'ng') else (e.n1, e.n2)
        out = (0, 2) if hasattr(e, 'ng') else (0, 1)
        idx = dict((t, i) for i, t in reversed(list(enumerate(terms))))

        def ports(v):
            return [v[idx[p]] - v[idx[q]] for p, q in e.get_drive_ports(0)]

        def cur(v):
            i = np.zeros(len(terms))
            s = np.asarray(e.istamp(ports(v), reduced=False)[1]).reshape(-1)
            i[out[0]] += s[0]
            i[out[1]] += s[1]
            return i

        def jac(v):
            return np.asarray(e.gstamp(ports(v), reduced=False)[1])
        return terms, cur, jac
    op = e.get_output_ports()[0]
    dp = e.get_drive_ports(0)
    terms = []
    for p in (op,) + tuple(dp):
        for t in p:
            if t not in terms:
                terms.append(t)
    idx = dict((t, i) for i, t in enumerate(terms))

    def ports(v):
        return tuple(v[idx[p]] - v[idx[q]] for p, q in dp)

    def cur(v):
        i = np.zeros(len(terms))
        c = float(e.i(0, ports(v)))
        i[idx[op[0]]] += c
        i[idx[op[1]]] -= c
        return i

    def jac(v):
        J = np.zeros((len(terms), len(terms)))
        for k, (p, q) in enumerate(dp):
            g = float(e.g(0, ports(v), k))
            for r, s in ((op[0], 1), (op[1], -1)):
                J[idx[r], idx[p]] += s * g
                J[idx[r], idx[q]] -= s * g
        return J
    return terms, cur, jac


def law_devices(c, x, n):
    """residual and Jacobian of all the nonlinear devices at the reduced unknowns x"""
    T, J = np.zeros(n), np.zeros((n, n))
    for e in c:
        if not e.is_nonlinear:
            continue
        terms, cur, jac = terminal_stamp(e)
        v = [float(x[t - 1]) if t else 0. for t in terms]
        i, g = cur(v), jac(v)
        for a, ta in enumerate(terms):
            if not ta:
                continue
            T[ta - 1] += i[a]
            for b, tb in enumerate(terms):
                if tb:
                    J[ta - 1, tb - 1] += g[a, b]
    return T, J
