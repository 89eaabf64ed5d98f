"""C25: editing and lookup, for circuits with any number of elements.

Every add_* method is verified against the contract of add_node (C14)."""
import z3
from .model import *
from .c14 import NodeMap

C_ = 'ahkab.circuit.Circuit.'
VALS = {'value': ('value',), 'alpha': ('value',)}
# method, class, node arguments in order (attribute names), other arguments and the attributes that hold them
ADD = {
    'add_resistor': ('components.Resistor', ['n1', 'n2'], {'value': 'value'}),
    'add_capacitor': ('components.Capacitor', ['n1', 'n2'], {'value': 'value', 'ic': 'ic'}),
    'add_inductor': ('components.Inductor', ['n1', 'n2'], {'value': 'value', 'ic': 'ic'}),
    'add_vsource': ('components.sources.VSource', ['n1', 'n2'], {'dc_value': 'dc_value'}),
    'add_isource': ('components.sources.ISource', ['n1', 'n2'], {'dc_value': 'dc_value'}),
    'add_vcvs': ('components.sources.EVSource', ['n1', 'n2', 'sn1', 'sn2'], {'value': 'alpha'}),
    'add_vccs': ('components.sources.GISource', ['n1', 'n2', 'sn1', 'sn2'], {'value': 'alpha'}),
    'add_cccs': ('components.sources.FISource', ['n1', 'n2'], {'source_id': 'source_id', 'value': 'alpha'}),
    'add_ccvs': ('components.sources.HVSource', ['n1', 'n2'], {'source_id': 'source_id', 'value': 'alpha'}),
    'add_diode': ('diode.diode', ['n1', 'n2'], {}),
    'add_switch': ('switch.switch_device', ['n1', 'n2', 'sn1', 'sn2'], {}),
    'add_mos': (None, ['nd', 'ng', 'ns', 'nb'], {}),
}


class Added(object):
    """a circuit with any number of elements; add_node by its contract"""

    def __init__(self, it):
        eng = self.eng = it.eng
        self.N = z3.Int('n_elem')
        eng.assume(self.N >= 0)
        self.num = uf('number_after', Name, Z)
        self.old = {}
        self.seq = VList(eng, None, SymSeq(self.N, self.get, 'elements'))
        self.models = VDict(eng, {})
        self.circ = Obj(eng, it.qual('ahkab.circuit.Circuit'),
                        {'title': 't', 'filename': None, 'nodes_dict': Opaque('nodes'), 'internal_nodes': 0,
                         'models': self.models, 'gnd': '0', '__seq__': self.seq})
        self.added = []

        def add_node(i, a, k):
            x = a[1] if len(a) > 1 else k['ext_name']
            if not is_name(x):
                eng.prove(False, 'add_node.requires')
                raise Unsupported('node name')
            self.added.append(x)
            return self.num(x)
        it.overrides[C_ + 'add_node'] = add_node

    def get(self, i):
        k = z3.simplify(to_int(i)).sexpr()
        if k not in self.old or self.old[k].id not in self.eng.objs:
            self.old[k] = Obj(self.eng, ExtClass(object), {})
        return self.old[k]

    def new_element(self, it, nm):
        """exactly one element was appended; the earlier ones are untouched"""
        n = to_int(it.bi_len([self.circ.fields['__seq__']], {}))
        self.eng.prove(n == self.N + 1, nm + '.one_element_added')
        i = z3.Int('i_old')
        self.eng.assume(z3.And(i >= 0, i < self.N))
        self.eng.prove(it.getitem(self.circ, i) is self.get(i), nm + '.earlier_elements_untouched')
        return it.force(it.getitem(self.circ, self.N))

    def nothing_added(self, it, nm):
        n = to_int(it.bi_len([self.circ.fields['__seq__']], {}))
        self.eng.prove(n == self.N, nm + '.rejected_adds_nothing')


def add(eng, fn):
    it = new_interp(eng)
    cls, nodes, others = ADD[fn]

    def driver():
        m = Added(it)
        names = dict((q, z3.Const('node_' + q, Name)) for q in nodes)
        pid = z3.Const('part_id', Name)
        kw = dict(names)
        kw['part_id'] = pid
        want = {}
        for a, f in others.items():
            v = z3.Const('source_id', Name) if a == 'source_id' else z3.Real('arg_' + a)
            if a == 'ic':
                v = (None, v)[eng.decide(2, None, 'ic')]
            if a == 'value' and fn == 'add_inductor':
                pass
            kw[a] = v
            want[f] = v
        ac, tf, model = None, None, None
        if fn in ('add_vsource', 'add_isource'):
            ac = (None, z3.Real('ac'))[eng.decide(2, None, 'ac')]
            if ac is not None:
                eng.assume(ac > 0)
                kw['ac_value'] = ac
            if eng.decide(2, None, 'time function'):
                tf = kw['function'] = Obj(eng, ExtClass(object), {})
        known = True
        if fn in ('add_diode', 'add_switch', 'add_mos'):
            known = bool(eng.decide(2, None, 'model known'))
            mc = {'add_diode': 'diode.diode_model', 'add_switch': 'switch.vswitch_model',
                  'add_mos': ('ekv.ekv_mos_model', 'mosq.mosq_mos_model')[eng.decide(2, None, 'mos')] if fn == 'add_mos' else ''}[fn]
            model = Obj(eng, it.qual('ahkab.' + mc), {})
            d = VDict(eng, {'other': Obj(eng, ExtClass(object), {})})
            if known:
                d.d['mname'] = model
            if eng.decide(2, None, 'models given'):
                kw['models'] = d
            else:
                m.circ.fields['models'] = d
            kw['model_label'] = 'mname'
            made = []
            devs = {'diode.diode_model': ['diode.diode'], 'switch.vswitch_model': ['switch.switch_device'],
                    'ekv.ekv_mos_model': ['ekv.ekv_device'], 'mosq.mosq_mos_model': ['mosq.mosq_device']}[mc]
            names_of = {'diode.diode': ('part_id', 'n1', 'n2', 'model', 'AREA', 'T', 'ic', 'off'),
                        'switch.switch_device': ('part_id', 'n1', 'n2', 'sn1', 'sn2', 'model'),
                        'ekv.ekv_device': ('part_id', 'nd', 'ng', 'ns', 'nb', 'W', 'L', 'model', 'M', 'N'),
                        'mosq.mosq_device': ('part_id', 'nd', 'ng', 'ns', 'nb', 'W', 'L', 'model', 'M', 'N')}[devs[0]]
            if fn == 'add_diode':
                kw.update(Area=z3.Real('area'), T=z3.Real('T'), ic=z3.Real('ic'), off=z3.Bool('off'))
                want = {'AREA': kw['Area'], 'T': kw['T'], 'ic': kw['ic'], 'off': kw['off']}
            elif fn == 'add_switch':
                kw['ic'] = None
            else:
                kw.update(w=z3.Real('w'), l=z3.Real('l'), m=z3.Int('m'), n=z3.Int('n'))
                want = {'W': kw['w'], 'L': kw['l'], 'M': kw['m'], 'N': kw['n']}

            def init(i, a, k):
                got = dict(zip(names_of, a[1:]))
                got.update(k)
                made.append((a[0], got))
            it.overrides['ahkab.%s.__init__' % devs[0]] = init
        try:
            it.call(it.qual(C_ + fn), [m.circ], kw)
        except PyExc as e:
            m.nothing_added(it, fn)
            if fn in ('add_resistor', 'add_capacitor'):
                eng.prove(kw['value'] == 0, fn + '.rejects_only_zero_values', str(e))
            else:
                eng.prove(model is not None and not known, fn + '.rejects_only_unknown_models', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(known, fn + '.unknown_model_is_rejected')
        e = m.new_element(it, fn)
        if model is not None:
            eng.prove(len(made) == 1 and made[0][0] is e, fn + '.kind_of_element')
            got = made[0][1]
            eng.prove(it.force(got['model']) is model, fn + '.model')
            geta = lambda f: it.force(got[f])
        else:
            eng.prove(isinstance(e, Obj) and it.cls_of(e) is it.qual('ahkab.' + cls), fn + '.kind_of_element')
            geta = lambda f: it.force(it.getattr(e, f))
        eng.prove(eqz(geta('part_id'), pid), fn + '.name')
        for q in nodes:
            eng.prove(eqz(geta(q), m.num(names[q])), fn + '.terminal_' + q)
        eng.prove(z3.And(*[z3.Or(*[x == names[q] for q in nodes]) for x in m.added]), fn + '.only_its_own_nodes')
        for f, v in want.items():
            w = geta(f)
            if v is None or w is None:
                eng.prove(v is None and w is None, fn + '.' + f)
            else:
                eng.prove(it.truth(it.cmpop('==', w, v)), fn + '.' + f)
        if fn in ('add_vsource', 'add_isource'):
            aa, td = it.force(it.getattr(e, 'abs_ac')), it.getattr(e, 'is_timedependent')
            eng.prove((aa is None) == (ac is None), fn + '.ac_value')
            if ac is not None and aa is not None:
                eng.prove(to_real(aa) == ac, fn + '.ac_value')
                eng.prove(to_real(it.force(it.getattr(e, 'arg_ac'))) == 0, fn + '.ac_phase')
            eng.prove(it.truth(td) == (tf is not None), fn + '.time_dependent')
            eng.prove(it.force(it.getattr(e, '_time_function')) is tf, fn + '.time_function')
        eng.cover(fn)
    eng.explore(driver)


def coupling(eng):
    """a coupling is attached to the two inductors it names, with M = k*sqrt(L1*L2)"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it, ['Resistor', 'Inductor', 'InductorCoupling'])
        f = m.f
        l1, l2, pid = [z3.Const(x, Name) for x in ('L1', 'L2', 'part_id')]
        kk = z3.Real('coupling')
        a, b = z3.simplify(idxof(upper(l1))), z3.simplify(idxof(upper(l2)))
        eng.assume(z3.And(l1 != l2, upper(l1) != upper(l2)))
        for q in (a, b):
            m.elem_facts(q)

        def present(q, l):
            return z3.And(q >= 0, q < m.N, m.is_(q, 'Inductor'), f['pid'](q) == l)
        eng.assume(f['value'](a) * f['value'](b) >= 0)    # inductances: the geometric mean is a real number
        old = to_int(it.bi_len([m.circ], {}))
        try:
            it.call(it.qual(C_ + 'add_inductor_coupling'), [m.circ, pid, l1, l2, kk], {})
        except PyExc as e:
            eng.prove(z3.Not(z3.And(present(a, l1), present(b, l2))), 'add_inductor_coupling.rejects_only_unknown_inductors', str(e))
            eng.prove(eqz(it.bi_len([m.circ], {}), old), 'add_inductor_coupling.rejected_adds_nothing')
            eng.cover('add_inductor_coupling.rejects')
            return
        eng.prove(z3.And(present(a, l1), present(b, l2)), 'add_inductor_coupling.unknown_inductors_are_rejected')
        nm = 'add_inductor_coupling'
        eng.prove(eqz(it.bi_len([m.circ], {}), old + 1), nm + '.one_element_added')
        e = it.force(it.getitem(m.circ.fields['__seq__'], old))
        geta = lambda o, x: it.force(it.getattr(o, x))
        eng.prove(isinstance(e, Obj) and it.cls_of(e) is it.qual('ahkab.components.InductorCoupling'), nm + '.kind_of_element')
        eng.prove(z3.And(geta(e, 'part_id') == pid, geta(e, 'L1') == l1, geta(e, 'L2') == l2), nm + '.names')
        eng.prove(to_real(geta(e, 'K')) == kk, nm + '.coupling_factor')
        M = to_real(geta(e, 'M'))
        eng.prove(M * M == kk * kk * f['value'](a) * f['value'](b), nm + '.mutual_inductance')
        eng.prove(z3.And(z3.Implies(kk >= 0, M >= 0), z3.Implies(kk <= 0, M <= 0)), nm + '.mutual_inductance_sign')
        touched = [o for k, o in list(eng.cache.items()) if isinstance(k, tuple) and k[0] == 'elem'
                   and o.id in eng.objs and o is not e and o.cls is not None]
        grown = []
        for o in touched:
            q = o.tag[1]
            if not isinstance(o.cls, Class) or o.cls is not it.qual('ahkab.components.Inductor'):
                continue
            cd = it.force(it.getattr(o, 'coupling_devices'))
            n = to_int(it.bi_len([cd], {}))
            if not eng.valid(n == f['ncd'](q))[0] == 'proved':
                eng.prove(n == f['ncd'](q) + 1, nm + '.attached_once_to_each_inductor')
                eng.prove(it.force(it.getitem(cd, n - 1)) is e, nm + '.attached_to_the_named_inductors')
                grown.append(q)
        eng.prove(len(grown) == 2, nm + '.attached_to_two_inductors')
        if len(grown) == 2:
            eng.prove(z3.Or(z3.And(grown[0] == a, grown[1] == b), z3.And(grown[0] == b, grown[1] == a)),
                      nm + '.attached_to_the_named_inductors')
        eng.cover('add_inductor_coupling')
    eng.explore(driver)


def by_name(eng):
    """get_elem_by_name: the element of that name in any case, or ValueError"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        x = z3.Const('name', Name)
        s = z3.simplify(idxof(upper(x)))
        m.elem_facts(s)
        known = z3.And(s >= 0, s < m.N, upper(m.f['pid'](s)) == upper(x))
        try:
            e = it.call(it.qual(C_ + 'get_elem_by_name'), [m.circ, x], {})
        except PyExc as ex:
            eng.prove(z3.Not(known), 'get_elem_by_name.error_only_for_unknown', str(ex))
            eng.prove(it.exc_is(ex, ValueError), 'get_elem_by_name.kind_of_error')
            eng.cover('get_elem_by_name.unknown')
            return
        eng.prove(known, 'get_elem_by_name.unknown_is_an_error')
        eng.prove(isinstance(e, Obj) and isinstance(e.tag, tuple) and e.tag[0] == 'elem', 'get_elem_by_name.returns_an_element')
        eng.prove(e.tag[1] == s, 'get_elem_by_name.the_element_of_that_name')
        eng.cover('get_elem_by_name')
    eng.explore(driver)


PROOFS = {'get_elem_by_name': {'fn': by_name, 'timeout': 60, 'functions': ['circuit.Circuit.get_elem_by_name']}}
for _f in ADD:
    PROOFS[_f] = {'fn': (lambda eng, f=_f: add(eng, f)), 'timeout': 60, 'functions': ['circuit.Circuit.' + _f]}
PROOFS['add_inductor_coupling'] = {'fn': coupling, 'timeout': 60, 'functions': ['circuit.Circuit.add_inductor_coupling']}
