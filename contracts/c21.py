"""C21: the cache of the device functions, for any history of evaluations, changes and evictions.

For every cached function: the state it depends on is what its symbolic execution
reads; then memoize itself is executed for an earlier and a later evaluation with
arbitrary states in between, and has to return what the function gives at the
later state, whatever else was stored or dropped."""
from fractions import Fraction
import numpy as np
import z3
from .model import *
from pyvc.values import VDict
from pyvc.ratfun import prove_identity, Ring
from .c05 import swap, reals, MOS, DIO

U_ = 'ahkab.utilities.'
OPTS = ('gmin', 'iea', 'iec', 'ier', 'ven', 'vea', 'ver', 'vec')


class Reads(object):
    """the attributes of the given objects and the options a piece of code depends on"""

    def __init__(self, it, objs):
        self.it, self.objs = it, objs
        self.names, self.written, self.odd, self.options = set(), set(), set(), set()
        self.get, self.set, self.mod = it.getattr, it.setattr, it.module_attr
        it.getattr, it.setattr, it.module_attr = self.getattr, self.setattr, self.module_attr

    def done(self):
        for n in ('getattr', 'setattr', 'module_attr'):
            del self.it.__dict__[n]

    def of(self, o):
        for tag, x in self.objs.items():
            if o is x:
                return tag

    def getattr(self, o, name, *a, **k):
        o = self.it.force(o)
        t = self.of(o)
        if t and name in ('__dict__', '__class__'):
            raise Unsupported('reads %s' % name)
        if t and name in o.fields and (t, name) not in self.written:
            v = self.it.force(o.fields[name])
            if isinstance(v, (VList, VDict)):
                raise Unsupported('%s.%s is a container' % (t, name))
            if not isinstance(v, (SArr, Obj, Builtin, Func)):
                self.names.add((t, name))
        return self.get(o, name, *a, **k)

    def setattr(self, o, name, v):
        t = self.of(self.it.force(o))
        if t:
            self.written.add((t, name))
        return self.set(o, name, v)

    def module_attr(self, m, name):
        if m.name == 'ahkab.options':
            self.options.add(name)
        return self.mod(m, name)


def symbols(e, names):
    """the given symbols occurring in a term"""
    out, todo, seen = set(), [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            out.add(t.decl().name())
        todo += t.children()
    return out


def inputs(f):
    """what a function of the_root is made of: names, and values at a temperature"""
    free, todo, seen = [], [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        nm = t.decl().name() if z3.is_app(t) else ''
        if nm.startswith('at_') or (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == R):
            if nm != 'the_root':
                free.append(t)
        else:
            todo += t.children()
    return free


def options(it, eng):
    out = {}
    for o in OPTS:
        out[o] = it.mod_overrides['ahkab.options.' + o] = z3.Real(o)
        eng.assume(out[o] > 0)
    return out


def mosfet(it, eng, mc):
    p = reals(eng, 'VTO KP LAMBDA GAMMA PHI AVT AKP W L M N m0 m1 vds vgs vbs', 'KP GAMMA PHI W L M N')
    eng.assume(z3.And(p['LAMBDA'] >= 0, p['AVT'] >= 0, p['AKP'] >= 0, p['vds'] >= 0))
    mod = Obj(eng, it.qual(MOS + 'mosq_mos_model'), {}, tag='model')
    for x in ('VTO', 'KP', 'LAMBDA', 'GAMMA', 'PHI', 'AVT', 'AKP'):
        mod.fields[x] = p[x]
    for x in 'TCV BEX TNOM COX TEMP NSUB TOX VFB U0 TCK'.split():
        mod.fields[x] = z3.Real(x)
    mod.fields.update(NPMOS=z3.Real('NPMOS'), name='m', T1=swap(it), T2=swap(it))
    dev = Obj(eng, ExtClass(object), {'W': p['W'], 'L': p['L'], 'M': p['M'], 'N': p['N'], 'part_id': 'M1',
                                      'mckey': (p['m0'], p['m1']) if mc else None}, tag='device')
    return mod, dev, lambda nm: [mod, dev, (p['vds'], p['vgs'], p['vbs'])]


def junction(it, eng, rs):
    p = reals(eng, 'IS N NBV ISR NR RS BV IKF VT AREA T Tdev v', 'IS N NBV NR VT AREA T Tdev')
    eng.assume(p['ISR'] >= 0)
    mod = Obj(eng, it.qual(DIO + 'diode_model'), {}, tag='model')
    for x in ('IS', 'N', 'NBV', 'ISR', 'NR', 'VT', 'T', 'BV', 'IKF'):
        mod.fields[x] = p[x]
    for x in 'CJ0 M VJ FC CP TT IBV KF AF FFE TEMP XTI EG TBV TRS TTT1 TTT2 TM1 TM2'.split():
        mod.fields[x] = z3.Real(x)
    if rs:
        eng.assume(p['RS'] > 0)
    mod.fields.update(RS=p['RS'] if rs else 0, name='m', material=Obj(eng, ExtClass(object), {}, tag='material'), last_vd=None)
    dev = Obj(eng, ExtClass(object), {'AREA': p['AREA'], 'T': p['Tdev'], 'last_vd': z3.Real('last_vd') if rs > 1 else None}, tag='device')
    return mod, dev, lambda nm: [mod, p['v'], dev] if nm == 'get_i' else [mod, 0, (p['v'],), 0, dev]


def temperature(it, eng, fired):
    """contract of set_temperature: the parameters that depend on temperature become those at T"""
    key = DIO + 'diode_model.set_temperature'

    def contract(i, a, k):
        mod, T = a[0], to_real(i.force(a[1] if len(a) > 1 else k['T']))
        fired.append(T)
        for x in ('IS', 'BV', 'VT', 'EG') + (('RS',) if is_z3(mod.fields['RS']) else ()):
            i.setattr(mod, x, uf('at_' + x, R, R)(T))
        for x in ('IS', 'VT', 'RS'):
            if is_z3(mod.fields[x]):
                eng.assume(mod.fields[x] > 0)
        i.setattr(mod, 'T', T)
    it.overrides[key] = contract


def roots(it, eng):
    def solver(fails):
        def newton(i, a, k):
            eng.assumptions.add('scipy newton / brentq return the root of the function they are given (monotonic; tolerance ideal), '
                                'wherever they start, or newton raises RuntimeError')
            args = k.get('args', a[3] if len(a) > 3 else ())
            if fails and eng.decide(2, None, 'newton') == 1:
                i.raise_py(RuntimeError, 'no convergence')
            x = z3.Real('the_root')
            f = z3.simplify(to_real(i.force(i.call(a[0], [x] + list(i.as_seq(args)), {}))))
            # the root is determined by the function: it depends on what occurs in it
            free = sorted(inputs(f), key=str)
            return uf('root_of_' + '_'.join(str(t) for t in free), *([R] * len(free) + [R]))(*free)
        return newton
    it.user_hooks['ext:scipy.optimize.newton'] = Builtin('newton', solver(True))
    it.user_hooks['ext:scipy.optimize.brentq'] = Builtin('brentq', solver(False))


INNER = {}


def inner(it, nm, names):
    """the junction current or conductance: a function of the voltage and of what it reads"""
    def contract(i, a, k):
        mod = a[0]
        args = [to_real(i.force(a[1]))] + [to_real(i.force(i.getattr(mod, n))) for n in names]
        return uf(nm, *([R] * (len(args) + 1)))(*args)
    it.overrides[DIO + 'diode_model.' + nm] = contract


def depends(eng, it, build, cls, nm):
    """one evaluation; what it reads and, where the device has a temperature of its own, what it must not depend on"""
    opts = options(it, eng)
    fired = []
    roots(it, eng)
    temperature(it, eng, fired)
    mod, dev, args = build(it, eng)
    T0 = mod.fields.get('T')
    rd = Reads(it, {'model': mod, 'device': dev})
    try:
        r = to_real(it.force(it.call(it.qual(cls + '.' + nm), args(nm), {})))
    except PyExc as e:
        rd.done()
        return None
    rd.done()
    r = z3.simplify(r)
    # what is remembered from the last evaluation is only where a search starts
    if 'last_vd' in dev.fields:
        eng.prove(r == z3.substitute(r, (z3.Real('last_vd'), z3.Real('another_last_vd'))), nm + '.does_not_depend_on_the_last_evaluation')
    if T0 is not None and 'T' in dev.fields:
        Td = dev.fields['T']
        same = eng.branch(Td == z3.Real('T'))
        if not same:
            old = ('IS', 'VT', 'BV') + (('RS',) if is_z3(mod.fields['RS']) else ())
            left = symbols(r, old)
            put = [(z3.Real(x), uf('at_' + x, R, R)(Td)) for x in left]
            eng.prove(r == (z3.substitute(r, *put) if put else r), nm + '.at_the_temperature_of_the_device')
    eng.cover(nm + '.evaluates')
    rd.names.discard(('device', 'last_vd'))
    return rd.names, rd.options


KINDS = [('float', 'float'), ('integer', 'integer'), ('numpy', 'numpy'), ('none', 'float'), ('float', 'none'), ('text', 'text')]


def cached(eng, it, nm, nargs, names, opts, cls):
    """memoize, for an earlier and a later evaluation"""
    kind1, kind2 = KINDS[eng.decide(len(KINDS), None, 'kinds')]
    limit = eng.decide(3, None, 'limit')
    z = {'L': z3.Int('cache_len'), 'n': z3.Int('entries_before')}
    eng.assume(z3.And(z['n'] >= 0, z['L'] >= 0))
    it.mod_overrides['ahkab.options.cache_len'] = None if limit == 0 else z['L']
    cnt = [0]

    def opt(stage):
        for o in OPTS:
            v = z3.Real('%s_%d' % (o, stage))
            it.mod_overrides['ahkab.options.' + o] = v
    attrs = dict((t, sorted(n for q, n in names if q == t)) for t in ('model', 'device'))

    def value(kind, label):
        if kind == 'none':
            return None
        if kind == 'float':
            return z3.Real(label)
        if kind == 'integer':
            return z3.Int(label)
        if kind == 'numpy':
            return Obj(eng, ExtClass(np.int64), {'value': z3.Real(label)}, tag='numpy scalar')
        return (z3.Real(label), z3.Real(label + "'"))

    def fill(o, stage, kind):
        for a in attrs[o.tag]:
            v = value(kind, '%s_%s_%d_%d' % (o.tag, a, o.id, stage))
            o.fields[a] = v

    def flat(v):
        """a value as terms of one kind"""
        v = it.force(v)
        if v is None:
            return [z3.IntVal(0), z3.RealVal(0), z3.RealVal(0)]
        if isinstance(v, tuple):
            return [z3.IntVal(2)] + [to_real(x) for x in v]
        if isinstance(v, Obj):
            return [z3.IntVal(1), v.fields['value'], z3.RealVal(0)]
        return [z3.IntVal(1), to_real(v), z3.RealVal(0)]

    def state(args):
        out = []
        for a in args:
            a = it.force(a)
            if isinstance(a, Obj) and a.tag in attrs:
                for n in attrs[a.tag]:
                    out += flat(a.fields.get(n))
            elif isinstance(a, tuple):
                out += [to_real(x) for x in a]
            else:
                out += [to_real(a)]
        for o in sorted(opts):
            if o in OPTS:
                out.append(it.mod_overrides['ahkab.options.' + o])
        return out

    def F(args):
        s = state(args)
        return uf('value_of_' + nm, *([t.sort() for t in s] + [R]))(*s)

    def eq(a, b):
        a, b = it.force(a), it.force(b)
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
            x, y = [q if isinstance(q, tuple) else tuple(q.items) for q in (a, b)]
            return z3.BoolVal(False) if len(x) != len(y) else zand(z3.BoolVal(True), *[eq(p, q) for p, q in zip(x, y)])
        if isinstance(a, str) or isinstance(b, str):
            return z3.BoolVal(a == b if isinstance(a, str) and isinstance(b, str) else False)
        if a is None or b is None:
            return z3.BoolVal(a is b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and 'value' in a.fields and isinstance(b, Obj) and 'value' in b.fields:
                return a.fields['value'] == b.fields['value']
            return z3.BoolVal(a is b)
        if isinstance(a, (tuple, VList)) or isinstance(b, (tuple, VList)):
            return z3.BoolVal(False)
        if isinstance(a, ExtClass) and isinstance(b, ExtClass):
            return z3.BoolVal(a.py is b.py)
        if not all(is_z3(x) or isinstance(x, (int, float, Fraction)) for x in (a, b)):
            raise Unsupported('key made of %r and %r' % (a, b))
        return to_real(a) == to_real(b)

    store = []          # (key, value) of the earlier evaluation, while it is there
    dropped = []

    def has(i, a, k):
        for key, v in store:
            if eng.branch(eq(key, a[1])):
                return True
        return False

    def get(i, a, k):
        for key, v in store:
            if eng.branch(eq(key, a[1])):
                return v
        i.raise_py(KeyError, 'key')

    def get2(i, a, k):
        for key, v in store:
            if eng.branch(eq(key, a[1])):
                return v
        return a[2] if len(a) > 2 else None

    def put(i, a, k):
        store[:] = [s for s in store if not eng.branch(eq(s[0], a[1]))]
        store.append((a[1], a[2]))

    def popitem(i, a, k):
        # whichever entry goes (first or last, ours or another one)
        if store and eng.decide(2, None, 'dropped') == 1:
            store.pop(0)
        return (None, None)

    def clear(i, a, k):
        store[:] = []

    def length(i, a, k):
        return z['n'] + len(store)
    OD = Class('OrderedDict', None, [ExtClass(object)], dict((n, Builtin(n, f)) for n, f in (
        ('__contains__', has), ('__getitem__', get), ('get', get2), ('__setitem__', put), ('popitem', popitem), ('__len__', length), ('clear', clear))))
    it.user_hooks['ext:collections.OrderedDict'] = OD
    it.user_hooks['ext:numpy.generic'] = ExtClass(np.generic)
    it.user_hooks['ext:numpy.number'] = ExtClass(np.number)
    it.instance_dicts = True
    calls = []

    def fun(i, a, k):
        r = F(a)
        calls.append(r)
        # the function may leave the objects changed
        for o in a:
            if isinstance(o, Obj) and o.tag in attrs:
                fill(o, 10 + len(calls), kind1)
        return r
    f = Builtin(nm, fun)
    f.attrs.update(__doc__='', __name__=nm)
    it.transparent_decorators = ()
    cache = it.call(it.qual(U_ + 'memoize'), [f], {})
    objs = dict((t, [Obj(eng, ExtClass(object), {}, tag=t) for _ in range(2)]) for t in ('model', 'device'))

    def arguments(stage, which):
        out = []
        for k, w in enumerate(nargs):
            if w in objs:
                out.append(objs[w][which[w]])
            elif w == 'tuple':
                out.append(tuple(z3.Real('v%d_%d_%d' % (k, j, stage)) for j in range(3)))
            else:
                out.append(z3.Real('v%d_%d' % (k, stage)))
        return out

    def change(stage, kind):
        opt(stage)
        for t in objs:
            for o in objs[t]:
                fill(o, stage, kind)
                o.fields['last_vd'] = z3.Real('last_%s_%d_%d' % (t, o.id, stage))
                o.fields['unrelated'] = z3.Real('unrelated_%s_%d_%d' % (t, o.id, stage))
    change(1, kind1)
    a1 = arguments(1, {'model': 0, 'device': 0})
    want = F(a1)
    try:
        r1 = to_real(it.force(it.call(cache, a1, {})))
        eng.prove(r1 == want, nm + '.first_evaluation')
        change(2, kind2)
        a2 = arguments(2, {'model': eng.decide(2, None, 'model'), 'device': eng.decide(2, None, 'device')})
        want = F(a2)
        r2 = to_real(it.force(it.call(cache, a2, {})))
    except PyExc as e:
        eng.prove(False, nm + '.no_exception', str(e))
        return
    eng.cover(nm + '.cached' if len(calls) == 1 else nm + '.evaluated_again')
    eng.prove(r2 == want, nm + '.the_value_of_the_function_itself')



def junction_reads(eng, nm):
    """the parameters the junction current or conductance depends on, over all its branches"""
    names = set()
    it = new_interp(eng)

    def reading():
        options(it, eng)
        mod, dev, args = junction(it, eng, 1)
        for x in ('IS', 'ISR'):
            eng.assume(mod.fields[x] > 0)
        rd = Reads(it, {'model': mod, 'device': dev})
        try:
            r = it.call(it.qual(DIO + 'diode_model.' + nm), [mod, z3.Real('v')], {})
        except PyExc:
            r = None
        rd.done()
        if r is not None:
            names.update(n for t, n in rd.names if t == 'model')
            if any(t != 'model' for t, n in rd.names) or rd.options or rd.written:
                raise Unsupported('%s uses more than the model' % nm)
    eng.explore(reading)
    return sorted(names)


def function(cls, nm, builds, nargs):
    def proof(eng):
        names, opts = set(), set()
        junctions = dict((x, junction_reads(eng, x)) for x in ('_get_i', '_get_gj')) if cls.startswith(DIO) else {}
        for b in builds:
            it = new_interp(eng)
            for x, ns in junctions.items():
                inner(it, x, ns)

            def reading():
                r = depends(eng, it, b, cls, nm)
                if r:
                    names.update(r[0])
                    opts.update(r[1])
            eng.explore(reading)
        if not names:
            raise Unsupported('no evaluation')

        it2 = new_interp(eng)
        eng.explore(lambda: cached(eng, it2, nm, nargs, names, opts, cls))
    return proof


MOSB = [lambda it, eng: mosfet(it, eng, False), lambda it, eng: mosfet(it, eng, True)]
DIOB = [lambda it, eng: junction(it, eng, 0), lambda it, eng: junction(it, eng, 1), lambda it, eng: junction(it, eng, 2)]
PROOFS = {}
for _n in ('get_ids', 'get_gmd', 'get_gm', 'get_gmb'):
    PROOFS['mosq.' + _n] = {'fn': function(MOS + 'mosq_mos_model', _n, MOSB, ('model', 'device', 'tuple')), 'timeout': 120,
                            'functions': ['utilities.memoize', 'mosq.mosq_mos_model.' + _n]}
PROOFS['diode.get_i'] = {'fn': function(DIO + 'diode_model', 'get_i', DIOB, ('model', 'number', 'device')), 'timeout': 120,
                         'functions': ['utilities.memoize', 'diode.diode_model.get_i']}
PROOFS['diode.get_gm'] = {'fn': function(DIO + 'diode_model', 'get_gm', DIOB, ('model', 'number', 'tuple', 'number', 'device')), 'timeout': 120,
                          'functions': ['utilities.memoize', 'diode.diode_model.get_gm']}


# ---- temperature
def lemmas(terms):
    """exp(a) exp(b) = exp(a + b) and, for positive bases, x^p y^p = (x y)^p, as replacements"""
    apps, todo, seen = {'exp': [], 'pow': []}, list(terms), set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in apps and t.num_args():
            apps[t.decl().name()].append(t)
        todo += t.children()
    out = []
    for nm, ts in apps.items():
        ts = sorted(ts, key=lambda t: len(str(t)))
        for c in ts:
            for a in ts:
                for b in ts:
                    if a.eq(c) or b.eq(c) or any(x.eq(y) for x, _ in out for y in (a, b, c)):
                        continue
                    ring = Ring()
                    if nm == 'exp':
                        ok = ring.identical(a.arg(0) + b.arg(0), c.arg(0))
                    else:
                        ok = ring.identical(a.arg(0) * b.arg(0), c.arg(0)) and ring.identical(a.arg(1), c.arg(1)) and ring.identical(b.arg(1), c.arg(1))
                    if ok:
                        out.append((c, a * b))
    return out


def path(kind, mat=True):
    """going from one temperature to another by way of a third changes nothing"""
    def proof(eng):
        it = new_interp(eng)
        cls = {'diode': DIO + 'diode_model', 'mosq': MOS + 'mosq_mos_model', 'ekv': 'ahkab.ekv.ekv_mos_model'}[kind]
        fn = 'set_temperature' if kind == 'diode' else 'set_device_temperature'
        Vth, Eg, Sh = uf('thermal_voltage', R, R), uf('gap', R, R), uf('phi_shift', R, R)
        it.overrides['ahkab.constants.Vth'] = lambda i, a, k: Vth(to_real(i.force(a[0])))
        it.overrides[cls + '._get_phi_shift'] = lambda i, a, k: Sh(to_real(i.force(a[1])))

        def driver():
            p = reals(eng, 'IS N RS BV TRS TBV XTI EG VT T0 T1 T2 VTO KP TCV BEX PHI TNOM', 'IS N T0 T1 T2 KP TNOM')
            eng.assume(z3.And(*[1 + p['TRS'] * (p[t] - to_real(it.force(it.qual(DIO + 'T_DEFAULT')))) != 0 for t in ('T0', 'T1', 'T2')]))
            mods = []
            for q in range(2):
                o = Obj(eng, it.qual(cls), {}, tag='model%d' % q)
                f = 'IS N RS BV TRS TBV XTI EG VT' if kind == 'diode' else 'VTO KP TCV BEX PHI TNOM'
                for x in f.split():
                    o.fields[x] = p[x]
                o.fields['T' if kind == 'diode' else 'TEMP'] = p['T0']
                o.fields['name'] = 'm'
                o.fields['material'] = Obj(eng, Class('material', None, [ExtClass(object)], {
                    'Eg': Builtin('Eg', lambda i, a, k: Eg(to_real(i.force(a[1]))))}), {}, tag='material') if mat else None
                mods.append(o)
            try:
                it.call(it.getattr(mods[0], fn), [p['T1']], {})
                it.call(it.getattr(mods[0], fn), [p['T2']], {})
                it.call(it.getattr(mods[1], fn), [p['T2']], {})
            except PyExc as e:
                eng.prove(False, '%s.no_exception' % fn, str(e))
                return
            eng.cover('%s.returns' % fn)
            names = ('IS', 'RS', 'BV', 'VT', 'T', 'EG') if kind == 'diode' else ('VTO', 'KP', 'PHI', 'TEMP')
            vals = dict((x, [z3.simplify(to_real(it.force(m.fields[x]))) for m in mods]) for x in names)
            put = lemmas([t for v in vals.values() for t in v])
            for x in names:
                a, b = [z3.substitute(t, *put) if put else t for t in vals[x]]
                prove_identity(eng, a, b, '%s.%s.%s_whatever_came_before' % (kind, fn, x))
            t = 'T' if kind == 'diode' else 'TEMP'
            eng.prove(to_real(it.force(mods[0].fields[t])) == p['T2'], '%s.%s.at_that_temperature' % (kind, fn))
            if kind == 'diode':
                eng.prove(to_real(it.force(mods[0].fields['VT'])) == Vth(p['T2']), '%s.%s.thermal_voltage' % (kind, fn))
        eng.explore(driver)
    return proof


PROOFS['diode.set_temperature'] = {'fn': path('diode'), 'timeout': 60, 'functions': ['diode.diode_model.set_temperature']}
PROOFS['diode.set_temperature.gap_given'] = {'fn': path('diode', False), 'timeout': 60, 'functions': ['diode.diode_model.set_temperature']}
for _k in ('mosq', 'ekv'):
    PROOFS[_k + '.set_device_temperature'] = {'fn': path(_k), 'timeout': 60, 'functions': [_k + '.%s_mos_model.set_device_temperature' % _k]}
