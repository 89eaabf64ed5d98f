"""Symbolic circuit: a Circuit object holding an arbitrary number of elements
of arbitrary classes.  Element objects are built by running the real
constructors of /repo on symbolic arguments."""
import os
import z3
from fractions import Fraction
from pyvc.engine import Engine, Unsupported, PyExc, is_z3
from pyvc.values import *
from pyvc.arith import uf, Arith, PI
from pyvc.interp import Interp

Z, R = z3.IntSort(), z3.RealSort()
Name = NameSort
upper = name_upper
idxof = z3.Function('idxof', Name, Z)

LINEAR = ['Resistor', 'Capacitor', 'Inductor', 'InductorCoupling', 'VSource', 'ISource', 'EVSource', 'GISource',
          'HVSource', 'FISource']
VDEF = ['VSource', 'EVSource', 'HVSource', 'Inductor']


def quiet(it):
    """printing and progress reporting have no effect on results (assumed frame)"""
    def pr(interp, f, args, kw):
        interp.eng.assumptions.add('functions of ahkab.printing and ahkab.ticker have no effect on simulation data')
        return Opaque('printing')
    it.prefix_overrides = {'ahkab.printing.': pr, 'ahkab.ticker.': pr}


ROOT = os.environ.get('AHKAB_SRC', '/repo')


def new_interp(eng, root=ROOT):
    it = Interp(eng, root)
    quiet(it)
    return it


class CircuitModel(object):
    def __init__(self, it, classes=LINEAR, nonlinear=True, extra=None):
        self.it = it
        eng = self.eng = it.eng
        self.names = list(classes) + (['NonLinear'] if nonlinear else [])
        self.code = dict((n, i) for i, n in enumerate(self.names))
        self.N = z3.Int('n_elem')
        self.nn = z3.Int('n_nodes')
        eng.assume(self.N >= 0)
        eng.assume(self.nn >= 1)
        self.cls = uf('cls', Z, Z)
        f = self.f = {}
        for nm in ('n1', 'n2', 'sn1', 'sn2', 'src', 'l1', 'l2'):
            f[nm] = uf(nm, Z, Z)
        for nm in ('value', 'dc', 'acre', 'acim', 'ic', 'K'):
            f[nm] = uf('arg_' + nm, Z, R)
        for nm in ('tdep', 'hasac', 'hasdc', 'hasic'):
            f[nm] = uf('arg_' + nm, Z, z3.BoolSort())
        f['ncd'] = uf('ncd', Z, Z)
        f['cdi'] = uf('cdi', Z, Z, Z)
        f['l1n'] = uf('l1n', Z, Name)
        f['l2n'] = uf('l2n', Z, Name)
        f['pid'] = uf('pid', Z, Name)
        f['sid'] = uf('sid', Z, Name)
        it.index_facts.append(self.elem_facts)
        self.seq = SymSeq(self.N, self.elem, 'circ')
        C = it.qual('ahkab.circuit.Circuit')
        self.circ = Obj(eng, C, {'__seq__': VList(eng, None, self.seq), 'title': 'circ', 'filename': None,
                                 'gnd': '0', 'models': VDict(eng), 'internal_nodes': 0}, tag='circ')
        nd = Obj(eng, ExtClass(dict), {'__lenval__': 2 * self.nn}, tag='nodes_dict')
        self.circ.fields['nodes_dict'] = nd
        ov = it.overrides
        ov['ahkab.circuit.Circuit.get_nodes_number'] = lambda i, a, k: self.nn
        ov['ahkab.utilities.check_ground_paths'] = lambda i, a, k: z3.Bool(eng.fresh('ground_ok'))
        ov['ahkab.circuit.Circuit.find_vde_index'] = self.find_vde_index
        self.isv_codes = [self.code[n] for n in VDEF if n in self.code]
        k = z3.Int('kv')
        self.vfold = it.fold_register('vcnt', k, [], z3.If(self.isv(k), z3.RealVal(1), z3.RealVal(0)), self.N,
                                      match=False)
        self.tfun = uf('tfun', Z, R, R)

    def isv(self, k):
        return z3.Or(*[self.cls(k) == c for c in self.isv_codes])

    def is_(self, k, *names):
        return z3.Or(*[self.cls(k) == self.code[n] for n in names if n in self.code])

    def vcnt(self, k):
        return z3.ToInt(self.it.fold_at(self.vfold, k, []))

    def step_facts(self, k):
        self.it.fold_step(self.vfold, k, [])
        self.it.fold_at(self.vfold, self.N, [])

    def row(self, k):
        self.step_facts(k)
        return self.nn + self.vcnt(k)

    def elem_facts(self, k):
        f, eng = self.f, self.eng
        k = z3.simplify(to_int(k))
        rng = z3.And(k >= 0, k < self.N)
        cs = [z3.And(self.cls(k) >= 0, self.cls(k) < len(self.names))]
        for nm in ('n1', 'n2', 'sn1', 'sn2'):
            cs.append(z3.And(f[nm](k) >= 0, f[nm](k) < self.nn))
        cs.append(idxof(upper(f['pid'](k))) == k)
        if not self.allow_zero:
            cs.append(z3.Implies(self.is_(k, 'Resistor', 'Capacitor', 'Inductor'), f['value'](k) != 0))
        s = f['src'](k)
        cs.append(z3.Implies(self.is_(k, 'HVSource', 'FISource'), z3.And(
            s >= 0, s < self.N, self.isv(s), idxof(upper(f['sid'](k))) == s,
            upper(f['pid'](s)) == upper(f['sid'](k)))))
        cs.append(f['ncd'](k) >= 0)
        L1, L2 = f['l1'](k), f['l2'](k)
        if 'InductorCoupling' in self.code:
            cs.append(z3.Implies(self.is_(k, 'InductorCoupling'), z3.And(
                *[z3.And(x >= 0, x < self.N, self.is_(x, 'Inductor'), idxof(upper(f[n](k))) == x,
                         upper(f['pid'](x)) == upper(f[n](k))) for x, n in ((L1, 'l1n'), (L2, 'l2n'))] + [L1 != L2])))
        if eng.fact_once.__self__ and ('elem', k.sexpr()) not in eng.facts_once:
            eng.fact_once(('elem', k.sexpr()), z3.Implies(rng, z3.And(*cs)))
            self.step_facts(k)
            if 'HVSource' in self.code or 'FISource' in self.code:
                self.step_facts(z3.simplify(s))

    def elem(self, k):
        k = z3.simplify(to_int(k))
        key = ('elem', k.sexpr())
        o = self.eng.cache.get(key)
        if o is not None and o.id in self.eng.objs:
            return o
        self.elem_facts(k)
        o = Obj(self.eng, None, {}, tag=('elem', k, self.seq))
        o.decide_cls = self.decide_cls
        self.eng.cache[key] = o
        return o

    def decide_cls(self, o):
        k = o.tag[1]
        eng = self.eng
        c = eng.decide(len(self.names), lambda i: eng.feasible(self.cls(k) == i), 'class')
        eng.assume(self.cls(k) == c)
        name = self.names[c]
        eng.path_desc.append('elem %s is %s' % (k, name))
        o.cls = self.build(o, k, name)
        return o.cls

    def mk(self, o, qual, args):
        C = self.it.qual(qual)
        o.cls = C
        init = C.lookup('__init__')
        self.it.building += 1
        try:
            self.it.call(init, [o] + args[0], args[1])
        finally:
            self.it.building -= 1
        return C

    def build(self, o, k, name):
        it, f = self.it, self.f
        n1, n2 = f['n1'](k), f['n2'](k)
        pid = f['pid'](k)
        val = f['value'](k)
        q = 'ahkab.components.'
        if name == 'Resistor':
            return self.mk(o, q + 'Resistor', ([pid, n1, n2], {'value': val}))
        if name in ('Capacitor', 'Inductor'):
            ic = Maybe(z3.Not(f['hasic'](k)), f['ic'](k))
            r = self.mk(o, q + name, ([pid, n1, n2], {'value': val, 'ic': ic}))
            if name == 'Inductor':
                o.fields['coupling_devices'] = self.couplings(k)
            return r
        if name == 'InductorCoupling':
            return self.mk(o, q + 'InductorCoupling', ([pid], {'L1': f['l1n'](k), 'L2': f['l2n'](k),
                                                               'K': f['K'](k), 'M': val}))
        if name in ('VSource', 'ISource'):
            dc = Maybe(z3.Not(f['hasdc'](k)), f['dc'](k)) if self.optional_dc else f['dc'](k)
            C = self.mk(o, q + 'sources.' + name, ([pid, n1, n2], {'dc_value': dc}))
            o.fields['is_timedependent'] = f['tdep'](k)
            o.fields['_time_function'] = Builtin('tf', lambda i, a, kw: self.tfun(k, to_real(i.force(a[0]))))
            o.fields['abs_ac'] = Maybe(z3.Not(f['hasac'](k)), f['acre'](k))
            o.fields['arg_ac'] = f['acim'](k)
            return C
        if name in ('EVSource', 'GISource'):
            return self.mk(o, q + 'sources.' + name, ([pid, n1, n2], {'value': val, 'sn1': f['sn1'](k),
                                                                      'sn2': f['sn2'](k)}))
        if name in ('HVSource', 'FISource'):
            return self.mk(o, q + 'sources.' + name, ([pid, n1, n2], {'value': val, 'source_id': f['sid'](k)}))
        if name == 'NonLinear':
            o.fields.update(part_id=pid, n1=n1, n2=n2, is_nonlinear=True, is_symbolic=True)
            return self.nonlinear_class(o, k)
        raise Unsupported(name)

    optional_dc = False
    allow_zero = False

    def nonlinear_class(self, o, k):
        return Class('NonLinear', None, [ExtClass(object)], {})

    def couplings(self, k):
        """coupling_devices of inductor k: the couplings one of whose windings it is
        (representation invariant established by Circuit.add_inductor_coupling)"""
        if 'InductorCoupling' not in self.code:
            return VList(self.eng, [])
        n = self.f['ncd'](k)
        return VList(self.eng, None, SymSeq(n, lambda c: self.elem(self.cd_index(k, c)), 'couplings'))

    def cd_index(self, k, c):
        f = self.f
        c = z3.simplify(to_int(c))
        i = z3.simplify(f['cdi'](k, c))
        self.eng.fact_once(('cdi', k.sexpr(), c.sexpr()), z3.Implies(z3.And(c >= 0, c < f['ncd'](k)), z3.And(
            i >= 0, i < self.N, self.is_(i, 'InductorCoupling'), z3.Or(f['l1'](i) == k, f['l2'](i) == k))))
        self.elem_facts(i)
        return i

    def other(self, k, i):
        """the inductor coupled to inductor k by coupling i"""
        f = self.f
        return z3.If(f['l1'](i) == k, f['l2'](i), f['l1'](i))

    def find_vde_index(self, it, a, kw):
        """contract of Circuit.find_vde_index (proved separately): the element
        named must be a voltage-defined element of the circuit; its position
        among the voltage-defined elements is returned"""
        x = it.force(a[1])
        if isinstance(x, Obj):
            x = it.getattr(x, 'part_id')
        if not (is_z3(x) and x.sort() == Name):
            raise Unsupported('find_vde_index(%r)' % (x,))
        s = z3.simplify(idxof(upper(x)))
        self.eng.prove(z3.And(s >= 0, s < self.N, self.isv(s)), 'find_vde_index.requires')
        self.step_facts(s)
        return z3.simplify(self.vcnt(s))


def dl(a, b):
    return z3.If(a == b, z3.RealVal(1), z3.RealVal(0))


def linalg_inv(it, a, kw):
    """numpy.linalg.inv of a matrix of known size, by cofactors (contract of
    the library: inverse of a non-singular matrix)"""
    A = it.force(a[0])
    n = A.shape[0]
    if not isinstance(n, int) or n > 4:
        raise Unsupported('inverse of a matrix of size %r' % (n,))
    el = [[to_real(A.fn(i, j)) for j in range(n)] for i in range(n)]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        s = None
        for c in range(len(m)):
            t = m[0][c] * det([r[:c] + r[c + 1:] for r in m[1:]])
            s = t if s is None else (s + t if c % 2 == 0 else s - t)
        return s
    d = det(el)
    it.eng.assumptions.add('numpy.linalg.inv returns the inverse of a non-singular matrix')
    if n == 1:
        co = [[z3.RealVal(1)]]
    else:
        co = [[det([r[:j] + r[j + 1:] for q, r in enumerate(el) if q != i]) * (1 if (i + j) % 2 == 0 else -1)
               for j in range(n)] for i in range(n)]
    res = [[co[j][i] / d for j in range(n)] for i in range(n)]

    def fn(i, j):
        if isinstance(i, int) and isinstance(j, int):
            return res[i][j]
        e = z3.RealVal(0)
        for p in range(n):
            for q in range(n):
                e = z3.If(z3.And(to_int(i) == p, to_int(j) == q), res[p][q], e)
        return e
    return SArr(it.eng, (n, n), fn)
