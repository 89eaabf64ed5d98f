import os
import pickle
import struct
from circ import *
from dev import *


class Fresh(object):
    """evaluates requests in a process which never evaluated anything before"""

    def __init__(self, fn):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            signal.alarm(0)
            sys.stdout.flush()
            while True:
                h = self._read(a, 8)
                if h is None:
                    os._exit(0)
                req = self._read(a, struct.unpack('Q', h)[0])
                e, f = os.pipe()
                p = os.fork()
                if p == 0:
                    try:
                        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                            res = pickle.dumps(('ok', fn(*pickle.loads(req))))
                    except BaseException as ex:
                        res = pickle.dumps(('raise', type(ex).__name__ + ': ' + str(ex)))
                    os.write(f, struct.pack('Q', len(res)) + res)
                    os._exit(0)
                os.close(f)
                h = self._read(e, 8)
                res = self._read(e, struct.unpack('Q', h)[0]) if h else pickle.dumps(('raise', 'died'))
                os.close(e)
                os.waitpid(p, 0)
                os.write(d, struct.pack('Q', len(res)) + res)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def _read(fd, n):
        s = b''
        while len(s) < n:
            q = os.read(fd, n - len(s))
            if not q:
                return None
            s += q
        return s

    def __call__(self, *args):
        q = pickle.dumps(args)
        os.write(self.w, struct.pack('Q', len(q)) + q)
        h = self._read(self.r, 8)
        return pickle.loads(self._read(self.r, struct.unpack('Q', h)[0]))

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


PARS = {'diode': [('IS', 1e-15, 1e-12), ('N', 1., 2.), ('ISR', 0., 1e-12), ('NR', 1.5, 2.5), ('RS', 0., 20.), ('BV', 4., 40.), ('TRS', 0., 1e-3), ('XTI', 2., 4.)],
        'mosq': [('VTO', .2, .9), ('KP', 1e-5, 1e-3), ('LAMBDA', 0., .1), ('GAMMA', .1, .9), ('PHI', .5, .9), ('TCV', 0., 2e-3), ('BEX', -2., -1.)],
        'ekv': [('VTO', .2, .9), ('KP', 1e-5, 1e-3), ('GAMMA', .3, .9), ('PHI', .5, .9), ('TCV', 0., 2e-3), ('BEX', -2., -1.)],
        'sw': [('VT', .2, 2.), ('VH', 0., .3), ('RON', 1., 50.), ('ROFF', 1e3, 1e6)]}


def mk(spec):
    """circuit with the models and devices described"""
    models, devs = spec
    c = ahkab.Circuit('c')
    for m, t, kw in models:
        c.add_model(t, m, dict(kw, name=m))
    for p, m, dk in devs:
        t = [q[1] for q in models if q[0] == m][0]
        if t == 'diode':
            c.add_diode(p, 'a', 'b', m, **dict((dict(AREA='Area').get(k, k), v) for k, v in dk.items()))
        elif t == 'sw':
            c.add_switch(p, 'a', 'b', 'x', 'y', ic=False, model_label=m)
        else:
            c.add_mos(p, 'a', 'b', 'x', 'y', dk.get('w', 1e-5), dk.get('l', 1e-6), m)
    return c


def ev(e, v, what=''):
    """everything a device computes at a bias, or one thing of it; in the order of what"""
    v = tuple(v)
    out = {}
    for w in what or 'IGig':
        if w == 'I' and hasattr(e, 'istamp'):
            out[w] = np.asarray(e.istamp(v, reduced=False)[1]).reshape(-1)
        elif w == 'G' and hasattr(e, 'gstamp'):
            out[w] = np.asarray(e.gstamp(v, reduced=False)[1]).reshape(-1)
        elif w == 'i' and hasattr(e, 'i'):
            out[w] = [float(e.i(0, v))]
        elif w == 'g' and hasattr(e, 'g'):
            out[w] = [float(e.g(0, v, k)) for k in range(len(e.ports))]
    out = dict((w, [float(x) for x in y]) for w, y in out.items())
    if what:
        return out, []
    info = e.get_op_info([v]) if not type(e).__name__ == 'diode' else e.get_op_info([[v[0]]])
    nums = []

    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, (int, float, np.floating)) and not isinstance(x, bool):
            nums.append(float(x))
        elif isinstance(x, str):
            try:
                nums.append(float(x))
            except ValueError:
                pass
        elif isinstance(x, np.ndarray):
            walk(x.reshape(-1).tolist())
    walk(info[1])
    return out, nums


def scratch(spec, state, p, v):
    """the same in a new process: a new circuit brought to the state of its parameters directly"""
    c = mk(spec)
    apply(c, spec, state)
    return ev(c.get_elem_by_name(p), v)


def model_of(e):
    for a in ('model', 'mosq_model', 'ekv_model'):
        if hasattr(e, a):
            return getattr(e, a)


def apply(c, spec, state):
    """state: list of (what, name, key, value)"""
    for what, name, key, val in state:
        if what == 'par':
            setattr(c.models[name], key, val)
        elif what == 'temp':
            c.models[name].set_device_temperature(val)
        elif what == 'devT':
            e = c.get_elem_by_name(name)
            if key == 'call':
                e.set_temperature(val)
            else:
                e.device.T = val
        elif what == 'dev':
            setattr(c.get_elem_by_name(name).device, key, val)


def main():
    r = R('random sequences of evaluations of devices sharing models, interleaved with parameter and temperature changes and cache sizes, each '
          'compared with a new circuit in a new process; random functions of numbers and objects called through the cache in random sequences; '
          'sequences of model temperatures compared with going there at once; distinct by circuit and sequence')
    fresh = Fresh(scratch)
    opt = r.get('options')

    def bias(g, t):
        q = lambda: g.choice([0., 1., g.uniform(-1, 1), g.uniform(0, .7), g.uniform(-3, 3)])
        if t == 'diode':
            return (g.choice([0., .5, g.uniform(-3, .75)]),)
        if t == 'sw':
            return (q(), g.choice([-3., 4., g.uniform(2.9, 5.)]))
        return (abs(q()) + .01, q(), -abs(q()))

    def seqs():
        g = r.rng('seq')
        for _ in range(r.count(120, 1200)):
            models, devs = [], []
            for k in range(g.randint(1, 2)):
                t = g.choice(['diode', 'diode', 'mosq', 'ekv', 'sw']) if k == 0 or g.random() < .5 else models[0][1]
                kw = dict((p, g.uniform(a, b)) for p, a, b in PARS[t] if g.random() < .4 or p in ('VTO', 'KP'))
                if t in ('mosq', 'ekv'):
                    kw['TYPE'] = g.choice('np')
                    if kw['TYPE'] == 'p':
                        kw['VTO'] = -kw['VTO']
                if t == 'diode' and kw.get('RS') is not None and g.random() < .5:
                    kw.pop('RS')
                models.append(('m%d' % k, t, kw))
            if len(models) == 2 and models[0][1] == models[1][1] and g.random() < .5:
                models[1] = ('m1', models[0][1], dict(models[0][2]))
            for k in range(g.randint(2, 4)):
                m, t, kw = g.choice(models)
                dk = {}
                if t == 'diode':
                    if g.random() < .4:
                        dk['AREA'] = g.choice([.5, 3.])
                    if g.random() < .4:
                        dk['T'] = g.choice([250., 300., 350.])
                if t in ('mosq', 'ekv') and g.random() < .5:
                    dk = {'w': g.choice([1e-5, 3e-5]), 'l': g.choice([1e-6, 2e-6])}
                devs.append(({'diode': 'D', 'sw': 'S'}.get(t, 'M') + str(k), m, dk))
            hot = g.random() < .5
            if not hot:
                for p, m, dk in devs:
                    dk.pop('T', None)
            ops = []
            pts = dict((t, [bias(g, t) for _ in range(3)]) for t in PARS)
            for _ in range(g.randint(4, 25)):
                p, m, dk = g.choice(devs)
                t = [q[1] for q in models if q[0] == m][0]
                x = g.random()
                if x < .55:
                    ops.append(('ev', p, g.choice(pts[t]), g.choice(['', '', 'G', 'g', 'i', 'I', 'Gi', 'gI'])))
                elif x < .75:
                    q, a, b = g.choice(PARS[t])
                    if t == 'diode' and hot and q not in ('ISR', 'NR', 'BV'):
                        continue            # IS depends on N and XTI, and on when its temperature changed
                    if t == 'sw' or q in ('TRS', 'XTI', 'TCV', 'BEX', 'RS', 'BV'):
                        continue
                    val = g.uniform(a, b)
                    ops.append(('par', m, q, val))
                elif x < .85 and t == 'diode' and hot:
                    ops.append(('devT', p, g.choice(['call', 'set']), g.choice([250., 300., 320., 350.])))
                elif x < .9 and t in ('mosq', 'ekv'):
                    ops.append(('temp', m, None, g.choice([250., 300., 320., 350.])))
                elif x < .93 and t in ('mosq', 'diode'):
                    ops.append(('dev', p, 'W' if t == 'mosq' else 'AREA', g.choice([5e-6, 1e-5]) if t == 'mosq' else g.choice([1., 2.5])))
                else:
                    ops.append(('cache', g.choice([0, 1, 2, 5, 1000, None])))
            ops.append(('ev', p, g.choice(pts[t]), ''))
            yield (models, devs), ops

    old = opt.cache_len
    olds = dict((n, getattr(opt, n)) for n in ('gmin', 'iea', 'vea'))

    def seq(case):
        spec, ops = case
        c = mk(spec)
        try:
            state, evs = [], [k for k, o in enumerate(ops) if o[0] == 'ev']
            check = set(evs[-3:]) | set(evs[::4])
            mixed = {}
            for k, o in enumerate(ops):
                if o[0] == 'cache':
                    opt.cache_len = o[1]
                elif o[0] == 'ev':
                    got = ev(c.get_elem_by_name(o[1]), o[2], o[3])
                    if k not in check:
                        continue
                    how, want = fresh(spec, state, o[1], o[2])
                    r.need(how == 'ok', 'cache:exception', lambda: str(want))
                    for a, b, w in [(y, want[0][q], 'value') for q, y in got[0].items()] + ([(got[1], want[1], 'info')] if not o[3] else []):
                        r.need(len(a) == len(b), 'cache:' + w, lambda: 'length of the report')
                        s = max([1e-15] + [abs(x) for x in b if abs(x) < 1e3]) if w == 'value' else 0
                        for x, y in zip(a, b):
                            r.need(abs(x - y) <= 1e-6 * abs(y) + 1e-9 * s + 1e-14 * (w == 'value') + 1e-9 * (w == 'info') * 0 or x == y or (x != x and y != y),
                                   'cache:' + w, lambda: '%s at %r: %r, computed anew: %r' % (o[1], o[2], x, y))
                else:
                    apply(c, spec, [o])
                    state.append(o)
        finally:
            opt.cache_len = old

    # ---- the cache itself
    class Obj(object):
        pass

    def fun(*args):
        out = []
        for a in args:
            if isinstance(a, Obj):
                out.append(tuple(sorted((k, v) for k, v in a.__dict__.items())))
            else:
                out.append(a)
        return tuple(out), opt.gmin, opt.iea, opt.vea

    def memos():
        g = r.rng('memo')
        for _ in range(r.count(300, 4000)):
            n = g.randint(1, 3)
            ops = []
            for _ in range(g.randint(5, 60)):
                x = g.random()
                if x < .7:
                    ops.append(('call', [g.choice([('o', g.randrange(3)), ('v', g.choice([0., 1., 2.5, -1., (1., 2.), (2., 1.), 'x']))]) for _ in range(n)]))
                elif x < .93:
                    ops.append(('set', g.randrange(3), g.choice(['T', 'IS', 'name', 'k']), g.choice([1., 2., 3, 'a', 'b', (1, 2), np.float64(7.), np.int64(5), np.int64(6), np.float32(2.5)])))
                elif x < .95:
                    ops.append(('flush',))
                elif x < .97:
                    ops.append(('opt', g.choice(['gmin', 'iea', 'vea']), g.choice([1e-12, 1e-9, 1e-6])))
                else:
                    ops.append(('len', g.choice([None, 0, 1, 2, 3, 10])))
            yield ops, g.choice([None, 0, 1, 2, 3, 10])

    def memo(case):
        ops, ln = case
        objs = [Obj(), Obj(), Obj()]
        f = r.get('utilities.memoize')(fun)
        try:
            opt.cache_len = ln
            for o in ops:
                if o[0] == 'call':
                    a = [objs[v] if k == 'o' else v for k, v in o[1]]
                    got, want = f(*a), fun(*a)
                    r.need(got == want, 'memo:value', lambda: '%r, the function gives %r' % (got, want))
                elif o[0] == 'set':
                    setattr(objs[o[1]], o[2], o[3])
                elif o[0] == 'opt':
                    setattr(opt, o[1], o[2])
                elif o[0] == 'flush':
                    if hasattr(f, 'clear'):
                        f.clear()
                else:
                    opt.cache_len = o[1]
                if hasattr(f, '__len__') and opt.cache_len is not None and o[0] == 'call' and not any(q[0] == 'len' for q in ops):
                    r.need(len(f) <= max(opt.cache_len, 0), 'memo:bound', lambda: '%d entries, at most %d asked' % (len(f), opt.cache_len))
        finally:
            opt.cache_len = old
            for n in olds:
                setattr(opt, n, olds[n])

    # ---- temperature
    def temps():
        g = r.rng('temp')
        for _ in range(r.count(300, 3000)):
            t = g.choice(['diode', 'mosq', 'ekv'])
            kw = dict((p, g.uniform(a, b)) for p, a, b in PARS[t] if g.random() < .5 or p in ('VTO', 'KP'))
            if t in ('mosq', 'ekv'):
                kw['TYPE'] = g.choice('np')
                kw['TNOM'] = g.choice([290., 300.])
                if kw['TYPE'] == 'p':
                    kw['VTO'] = -kw['VTO']
            Ts = [g.uniform(240, 370) for _ in range(g.randint(1, 5))]
            yield t, kw, Ts, [bias(g, t) for _ in range(3)]

    def temp(case):
        t, kw, Ts, bs = case
        c = mk(([('m', t, kw), ('m2', t, kw)], [('D1' if t == 'diode' else 'M1', 'm', {}), ('D2' if t == 'diode' else 'M2', 'm2', {})]))
        e, f = [x for x in c]
        for T in Ts:
            if t == 'diode':
                e.set_temperature(T)
                e.i(0, bs[0])
            else:
                model_of(e).set_device_temperature(T)
        if t == 'diode':
            f.set_temperature(Ts[-1])
        else:
            model_of(f).set_device_temperature(Ts[-1])
        for b in bs:
            x, y = [[q for w in 'IGig' for q in ev(o, b)[0].get(w, [])] for o in (e, f)]
            s = max([1e-15] + [abs(q) for q in y])
            for p, q in zip(x, y):
                r.need(abs(p - q) <= 1e-6 * abs(q) + 1e-9 * s, 'temp:path', lambda: 'at %r after %r: %r, going there at once %r' % (b, Ts, p, q))

    r.section('sequence', seqs(), seq)
    r.section('memoize', memos(), memo, priv=True)
    r.section('temperature', temps(), temp)
    fresh.close()
    r.done()


if __name__ == '__main__':
    main()
