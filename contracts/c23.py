"""C23: the symbolic system, for circuits of any size.

A symbol stands for the value substituted for it: SYMBOL(name).  The matrix then is
that of the numeric analysis (the laws of C01 and C02) with the values of the symbols
the elements are named after, or what is substituted for them."""
import z3
from .model import *
from .c01 import mna_law, cases
from fractions import Fraction
from pyvc.values import VDict
from .c02 import cap_law, coupling_law

Y_ = 'ahkab.symbolic.'
SYM = uf('value_of_symbol', Name, R)
SUBS = uf('value_substituted', Name, R)
ISS = uf('is_symbolic', Z, z3.BoolSort())


# (what the other elements contribute does not depend on the AC flag: they are in the proofs without it)
REACTIVE = ['Resistor', 'Capacitor', 'Inductor', 'InductorCoupling', 'VSource']


class Circuit(CircuitModel):
    def __init__(self, it, classes):
        it.model = self
        CircuitModel.__init__(self, it, classes, nonlinear=False)
        self.f['ng'], self.f['nb'] = uf('ng', Z, Z), uf('nb', Z, Z)

    def elem_facts(self, k):
        CircuitModel.elem_facts(self, k)
        k = z3.simplify(to_int(k))
        if 'ng' in self.f:
            g = self.f['ng'](k)
            self.eng.fact_once(('gate', k.sexpr()), z3.And(g >= 0, g < self.nn))

    def build(self, o, k, name):
        f = self.f
        if name in ('MOS', 'Diode'):
            c = self.it.qual({'MOS': 'ahkab.mosq.mosq_device', 'Diode': 'ahkab.diode.diode'}[name])
            o.fields.update(part_id=f['pid'](k), n1=f['n1'](k), n2=f['n2'](k), is_nonlinear=True, is_symbolic=True)
            if name == 'MOS':
                o.fields.update(ng=f['ng'](k), nb=f['nb'](k))
            return c
        c = CircuitModel.build(self, o, k, name)
        o.fields['is_symbolic'] = ISS(k)
        return c


def canonical(it, x):
    x = it.force(x)
    if isinstance(x, str):
        return it.name_lit(x.upper())
    if not (is_z3(x) and x.sort() == Name):
        raise Unsupported('symbol named %r' % (x,))
    return it.text_upper(z3.simplify(x))


def setup(eng, subst):
    VAL = SUBS if subst else SYM
    it = new_interp(eng)
    it.texts = True
    it.mod_overrides[Y_ + 's'] = z3.Real('s')
    it.mod_overrides['ahkab.options.symb_formulate_with_gs'] = False

    def zeros(i, a, k):
        a = [i.force(x) for x in a]
        sh = (a[0], a[1] if len(a) > 1 else a[0])
        return i.arr(sh, lambda p, q: Fraction(0))
    it.user_hooks['ext:sympy.matrices.zeros'] = Builtin('zeros', zeros)
    it.user_hooks['ext:sympy.zeros'] = Builtin('zeros', zeros)

    def symbol(i, a, k):
        n = canonical(i, a[0])
        # symbols of resistances are not zero
        parts = i.text_parts(n)
        res = i.model.code['Resistor']
        if k.get('positive') and (len(parts) > 1 and parts[0] == 'R0_' or is_z3(parts[0]) and parts[0].num_args() == 1 and
                                  eng.feasible(i.model.cls(parts[0].arg(0).arg(0)) == res)):
            eng.assume(VAL(n) > 0)
        return SYM(n)
    it.overrides[Y_ + '_symbol_factory'] = symbol

    def name_of(x):
        x = z3.simplify(to_real(it.force(x)))
        if x.decl().name() != SYM.name():
            raise Unsupported('substitution of %s' % x.decl().name())
        return x.arg(0)
    def table():
        return Obj(eng, Class('substitutions', None, [ExtClass(dict)], {
            '__contains__': Builtin('in', lambda i, a, k: subst if name_of(a[1]) is not None else None),
            '__getitem__': Builtin('item', lambda i, a, k: SUBS(name_of(a[1]))),
            'get': Builtin('get', lambda i, a, k: z3.If(INS(name_of(a[1])), SYM(SUB(name_of(a[1]))),
                                                        to_real(i.force(a[2]))))}), {}, tag='substitutions')
    return it, table


def assembly(ac, subst):
    def proof(eng):
        it, table = setup(eng, subst)
        effective = SUBS if subst else SYM

        def driver():
            m, subs = Circuit(it, REACTIVE if ac else LINEAR + ['MOS', 'Diode']), table()
            for x in ('g', 'gm_', 'r0_', 'gd', 'gds_', 'r', 'ro_', 'rd'):
                it.name_lit(x), it.name_lit(x.upper())
                it.text_upper(it.name_lit(x))
            r0s = not ac and bool(eng.decide(2, None, 'r0s'))
            fn = 'generate_mna_and_N' + ('.ac' if ac else '.dc') + ('.subs' if subst else '')
            try:
                r = it.call(it.qual(Y_ + 'generate_mna_and_N'), [m.circ, VDict(eng, {'r0s': r0s})], {'ac': ac, 'subs': subs, 'verbose': 0})
            except PyExc as e:
                eng.prove(False, fn + '.no_exception', str(e))
                return
            mna, N, _ = it.unpack(r, 3)
            eng.cover(fn + '.returns')
            tot = m.nn + m.vcnt(m.N)
            for d in mna.shape:
                eng.prove(to_int(d) == tot, fn + '.shape')
            eng.prove(zand(eqz(N.shape[0], tot), eqz(N.shape[1], 1)), fn + '.N_shape')
            i, j, k, c = z3.Int('i'), z3.Int('j'), z3.Int('ks'), z3.Int('cs')
            for x in (i, j):
                eng.assume(z3.And(x >= 1, x < tot))
            val = m.f['value']
            pid = lambda q: it.text_upper(m.f['pid'](q))
            of = lambda q, v: z3.If(ISS(q), effective(pid(q)), v)
            named = lambda pre, q: effective(canonical(it, it.text([pre, m.f["pid"](q)])))
            # the laws of the numeric analysis, with the values of the symbols
            m.f['value'] = lambda q: of(q, val(q))
            law = mna_law(m, k, i, j)
            a = dl(i, m.f['n1'](k)) - dl(i, m.f['n2'](k))
            b = dl(j, m.f['n1'](k)) - dl(j, m.f['n2'](k))
            law = law + z3.If(m.is_(k, 'Diode'), named('g', k) * a * b, 0)
            law = law + z3.If(m.is_(k, 'MOS'), named('gm_', k) * a * (dl(j, m.f['ng'](k)) - dl(j, m.f['n2'](k))) +
                              (1 / named('r0_', k) * a * b if r0s else 0), 0)
            if ac:
                s = z3.Real('s')
                inner = it.fold_register('mutual_spec', c, [i, j, k], s * coupling_law(m, k, c, i, j), m.f['ncd'](k))
                law = law + s * cap_law(m, k, i, j) + z3.If(m.is_(k, 'Inductor'), it.fold_at(inner, m.f['ncd'](k), [i, j, k]), 0)
            nl = z3.If(m.is_(k, 'ISource'), of(k, m.f['dc'](k)) * a, z3.RealVal(0)) + \
                z3.If(m.is_(k, 'VSource'), -of(k, m.f['dc'](k)) * dl(i, m.row(k)), z3.RealVal(0))
            m.f['value'] = val

            def facts(kk):
                m.elem_facts(kk)
                eng.assume(z3.Implies(m.is_(kk, 'Resistor'), effective(pid(kk)) > 0))
                if r0s:
                    eng.assume(effective(canonical(it, it.text(['r0_', m.f['pid'](kk)]))) > 0)
                return z3.BoolVal(True)
            S = it.fold_register('mna_spec', k, [i, j], law, m.N, match=False)
            it.prove_fold_zero(to_real(mna.fn(i, j)) - it.fold_at(S, m.N, [i, j]), m.N, fn + '.mna', cases(m), hyps=[facts])
            SN = it.fold_register('N_spec', k, [i], nl, m.N, match=False)
            it.prove_fold_zero(to_real(N.fn(i, 0)) - it.fold_at(SN, m.N, [i]), m.N, fn + '.N', cases(m), hyps=[facts])
        eng.explore(driver)
    return proof


PROOFS = {}
for _a in (False, True):
    for _s in (False, True):
        PROOFS['generate_mna_and_N.' + ('ac' if _a else 'dc') + ('.subs' if _s else '')] = {'fn': assembly(_a, _s), 'timeout': 300, 'functions': [
            'symbolic.generate_mna_and_N', 'symbolic._expand_matrix', 'circuit.is_elem_voltage_defined']}
