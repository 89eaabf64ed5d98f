"""C20: initial conditions, for circuits and sets of values of any size."""
import ast
import re
import z3
from pyvc.loops import LoopSpec
from .model import *

D_ = 'ahkab.dc_analysis.'
Bz = z3.BoolSort()
# what stands before and after the name, and what the label names
TEMPLATES = [('V(', ')', 'V'), (' v ( ', ' ) ', 'V'), ('I(', ')', 'I'), ('i (', ') ', 'I'), ('', '', None), ('VI(', ')', None), ('I(', '', None)]
SAMPLES = ['q7x', 'n-1', 'a.b', '0', 'V1', 'i_2']


class Labels(object):
    """a dictionary of any size from labels to values; the names inside the labels are words"""

    def __init__(self, it, m):
        eng = self.eng = it.eng
        self.it = it
        it.texts = True
        self.n = z3.Int('n_labels')
        eng.assume(self.n >= 0)
        self.ARG, self.VAL, self.KIND = uf('label_name', Z, Name), uf('given_value', Z, R), uf('label_kind', Z, Z)
        self.NODE, self.KNOWN = uf('node_of', Name, Z), uf('node_known', Name, Bz)
        self.m = m
        it.regex_hook = self.compile
        own = Builtin('keys', lambda i, a, k: VList(eng, None, SymSeq(self.n, self.label, 'labels')))
        items = Builtin('items', lambda i, a, k: VList(eng, None, SymSeq(self.n, lambda q: (self.label(q), self.VAL(to_int(q))), 'labels')))

        def getitem(i, a, k):
            x = i.force(a[-1])
            hit = [q for q, t in eng.cache.get('labels_at', {}).values() if t is x or is_z3(t) and is_z3(x) and t.eq(x)]
            if not hit:
                raise Unsupported('dictionary of initial conditions: %r' % (x,))
            return self.VAL(hit[-1])
        C = Class('Values', None, [ExtClass(object)], {'__getitem__': Builtin('__getitem__', getitem)})
        self.dict = Obj(eng, C, {'keys': own, 'items': items, '__lenval__': self.n, '__seq__': VList(eng, None, SymSeq(self.n, self.label, 'labels'))})

        def ext_to_int(i, a, k):
            x = i.force(a[-1])
            if not eng.branch(self.KNOWN(x)):
                i.raise_py(ValueError, 'no such node')
            eng.assume(z3.And(self.NODE(x) >= 0, self.NODE(x) < m.nn))
            return self.NODE(x)
        it.overrides['ahkab.circuit.Circuit.ext_node_to_int'] = ext_to_int

    def label(self, q):
        eng = self.eng
        q = z3.simplify(to_int(q))
        tab = eng.cache.setdefault('labels_at', {})
        if q.sexpr() not in tab:
            c = eng.decide(len(TEMPLATES), lambda j: eng.feasible(self.KIND(q) == j), 'label')
            eng.assume(self.KIND(q) == c)
            pre, suf, kind = TEMPLATES[c]
            t = self.it.text([pre, self.ARG(q), suf])
            tab[q.sexpr()] = (q, t)
            eng.cache.setdefault('label_parts', {})[t.sexpr()] = (pre, self.ARG(q), suf)
        return tab[q.sexpr()][1]

    def kind(self, q, what):
        return z3.Or(*[self.KIND(q) == c for c, t in enumerate(TEMPLATES) if t[2] == what])

    def elem_of(self, q):
        return idxof(upper(self.ARG(q)))

    def known(self, q):
        """label q names a node or a voltage-defined element of the circuit"""
        m = self.m
        e = self.elem_of(q)
        m.elem_facts(e)
        return z3.Or(z3.And(self.kind(q, 'V'), self.KNOWN(self.ARG(q))),
                     z3.And(self.kind(q, 'I'), e >= 0, e < m.N, m.isv(e), upper(m.f['pid'](e)) == upper(self.ARG(q))))

    def row(self, q):
        m = self.m
        return z3.If(self.kind(q, 'V'), self.NODE(self.ARG(q)), m.nn + m.vcnt(z3.simplify(self.elem_of(q))))

    def compile(self, pattern, flags):
        rx = re.compile(pattern, flags)
        eng = self.eng

        def run(i, a, k, how):
            x = i.force(a[0])
            pre, nm, suf = eng.cache['label_parts'][x.sexpr()]
            got = set()
            for s in SAMPLES:
                mm = getattr(rx, how)(pre + s + suf)
                got.add(None if mm is None else tuple('%name%' if g == s else g for g in mm.groups()))
            if len(got) != 1:
                raise Unsupported('pattern %r' % pattern)
            g = got.pop()
            if g is not None and any(x != '%name%' and x is not None for x in g):
                raise Unsupported('pattern %r' % pattern)
            return None if g is None else [nm if x == '%name%' else None for x in g]

        def search(how):
            def f(i, a, k):
                g = run(i, a, k, how)
                if g is None:
                    return None
                grp = lambda i2, a2, k2: g[i2.force(a2[0]) - 1]
                return Obj(eng, ExtClass(object), {'group': Builtin('group', grp), 'groups': Builtin('groups', lambda i2, a2, k2: tuple(g))})
            return Builtin('re.' + how, f)

        def findall(i, a, k):
            g = run(i, a, k, 'search')
            return VList(eng, [] if g is None else [g[0] if len(g) == 1 else tuple(g)])
        return Obj(eng, ExtClass(object), {'search': search('search'), 'match': search('match'), 'fullmatch': search('fullmatch'),
                                           'findall': Builtin('re.findall', findall)})


def user_vector(eng):
    it = new_interp(eng)
    fn = 'build_x0_from_user_supplied_ic'

    def driver():
        m = CircuitModel(it)
        L = Labels(it, m)
        r0, u = z3.Int('some_row'), z3.Int('some_label')
        LAST = uf('last_label', Z, Z)
        eng.assume(LAST(0) == -1)
        eng.assume(z3.And(r0 >= 1, r0 < m.nn + m.vcnt(m.N)))
        st = {}

        def step(k):
            eng.fact_once(('last', k.sexpr()), z3.And(LAST(k + 1) == z3.If(L.row(k) == r0, k, LAST(k)), LAST(k) < k, LAST(k) >= -1))

        def spec(stm, fr):
            if not isinstance(stm, ast.For):
                return None
            arrs = [v for v in fr.locals.values() if isinstance(it.force(v), SArr)]
            if len(arrs) != 1:
                return None
            x = it.force(arrs[0])
            st['x'] = x

            def havoc(i, fr):
                i.log_mod(('arr', x.id), x)
                X = uf(eng.fresh('x0'), Z, R)
                x.setfn(lambda p, q: X(to_int(p)))

            def inv(i, fr, k):
                k = z3.simplify(to_int(k))
                st['k'] = k
                step(k)
                want = z3.If(LAST(k) == -1, z3.RealVal(0), L.VAL(LAST(k)))
                return [('value_of_the_last_label_that_names_it', to_real(x.fn(r0, z3.IntVal(0))) == want),
                        ('earlier_labels_are_known', z3.Implies(z3.And(u >= 0, u < k), L.known(u)))]
            return LoopSpec(fn + '.loop', [], havoc, inv, frame=lambda i, fr: [('arr', x.id)])
        it.loop_specs[D_ + fn] = spec
        try:
            r = it.force(it.call(it.qual(D_ + fn), [m.circ, L.dict], {}))
        except PyExc as e:
            k = st['k']
            if it.alls:
                e_ = z3.simplify(L.elem_of(k))
                m.row(e_)
                it.inst_all(m.vcnt(e_))
                for o in [o for q, o in list(eng.cache.items()) if isinstance(q, tuple) and q[0] == 'elem']:
                    m.row(o.tag[1])
            eng.prove(z3.And(k >= 0, k < L.n, z3.Not(L.known(k))), fn + '.rejects_only_unknown_names', str(e))
            eng.prove(it.exc_is(e, ValueError), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        k = L.n
        eng.prove(z3.And(to_int(r.shape[0]) == m.nn - 1 + m.vcnt(m.N), to_int(r.shape[1]) == 1), fn + '.one_value_per_unknown')
        eng.prove(z3.Implies(z3.And(u >= 0, u < k), L.known(u)), fn + '.unknown_names_are_rejected')
        eng.prove(to_real(r.fn(z3.simplify(r0 - 1), z3.IntVal(0))) == z3.If(LAST(k) == -1, z3.RealVal(0), L.VAL(LAST(k))),
                  fn + '.given_values_and_zero_elsewhere')
        eng.cover(fn)
    eng.explore(driver)


PROOFS = {'user_vector': {'fn': user_vector, 'timeout': 120, 'functions': ['dc_analysis.build_x0_from_user_supplied_ic']}}
