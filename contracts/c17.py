"""C17: element lines, for lines with any number of tokens.

Every parse_elem_* is verified against the contracts of add_node (C14), of
convert_units (C16: a token either denotes a number or is rejected) and of
parse_param_value_from_string (a token with one '=' is a label and a value)."""
import ast
import z3
from pyvc.arith import PI
from pyvc.loops import LoopSpec
from .model import *

P_ = 'ahkab.netlist_parser.'
Bz = z3.BoolSort()
TOK, NUM = uf('tok', Z, Name), uf('number_value', Name, R)
ISNUM, EQ1 = uf('is_number', Name, Bz), uf('has_one_equal_sign', Name, Bz)
LAB, VAL = uf('label_of', Name, Name), uf('value_of', Name, Name)
BOOL, ISBOOL = uf('bool_value', Name, Bz), uf('is_bool', Name, Bz)


class Line(object):
    """a line of any number of tokens; the line parser sees tokens only"""

    def __init__(self, it):
        eng = self.eng = it.eng
        self.it = it
        it.texts = True
        self.NT = z3.Int('n_tokens')
        eng.assume(self.NT >= 1)
        self.num = uf('number_after', Name, Z)
        toks = lambda i, a, k: VList(eng, None, SymSeq(self.NT, lambda q: TOK(to_int(q)), 'tokens'))
        self.line = Obj(eng, ExtClass(object), {'split': Builtin('split', toks)})
        self.circ = Obj(eng, it.qual('ahkab.circuit.Circuit'), {'gnd': '0'})
        self.nodes = []
        self.NPE = it.qual(P_ + 'NetlistParseError')

        def add_node(i, a, k):
            x = a[1] if len(a) > 1 else k['ext_name']
            self.nodes.append(x)
            return self.num(i.name_lit(x) if isinstance(x, str) else x)
        it.overrides['ahkab.circuit.Circuit.add_node'] = add_node

        def convert(i, a, k):
            v = i.force(a[0])
            if isinstance(v, str):
                if v:
                    raise Unsupported('number %r' % v)
                self.reject(i)
            if is_name(v):
                if not eng.branch(ISNUM(v)):
                    i.raise_py(ValueError, 'not a number')
                return NUM(v)
            return v
        it.overrides[P_ + 'convert_units'] = convert

        def param(i, a, k):
            t = i.force(a[0])
            rt = a[1] if len(a) > 1 else k.get('rtype')
            if not eng.branch(EQ1(t)):
                return (t, '')
            v = VAL(t)
            if isinstance(rt, ExtClass) and rt.py is str:
                return (LAB(t), v)
            return (LAB(t), NUM(v) if eng.branch(ISNUM(v)) else v)
        it.overrides[P_ + 'parse_param_value_from_string'] = param

        def boolean(i, a, k):
            v = i.force(a[0])
            if is_name(v):
                if not eng.branch(ISBOOL(v)):
                    self.reject(i)
                return BOOL(v)
            if is_z3(v) and z3.is_real(v):
                if not eng.branch(z3.Or(v == 0, v == 1)):
                    self.reject(i)
                return v == 1
            raise Unsupported('boolean %r' % (v,))
        it.overrides[P_ + 'convert_boolean'] = boolean

    def reject(self, i):
        o = i.instantiate(self.NPE, ['rejected'], {})
        raise PyExc(o, 'NetlistParseError')

    def comment(self, i):
        """token i exists and begins a comment"""
        return z3.And(self.NT > i, self.it.name_lit('*') == name_first(TOK(i)))

    def ends_at(self, i):
        return z3.Or(self.NT == i, self.comment(i))

    def lit(self, s):
        return self.it.name_lit(s)

    def known_error(self, e):
        return self.it.exc_is(e, ValueError) or e.obj.cls is self.NPE


# parser, class, nodes (token numbers), names (attribute: token number), value token, its attribute
SIMPLE = {
    'parse_elem_resistor': ('components.Resistor', {'n1': 1, 'n2': 2}, {}, 3, 'value'),
    'parse_elem_capacitor': ('components.Capacitor', {'n1': 1, 'n2': 2}, {}, 3, 'value'),
    'parse_elem_inductor': ('components.Inductor', {'n1': 1, 'n2': 2}, {}, 3, 'value'),
    'parse_elem_vcvs': ('components.sources.EVSource', {'n1': 1, 'n2': 2, 'sn1': 3, 'sn2': 4}, {}, 5, 'alpha'),
    'parse_elem_vccs': ('components.sources.GISource', {'n1': 1, 'n2': 2, 'sn1': 3, 'sn2': 4}, {}, 5, 'alpha'),
    'parse_elem_cccs': ('components.sources.FISource', {'n1': 1, 'n2': 2}, {'source_id': 3}, 4, 'alpha'),
    'parse_elem_ccvs': ('components.sources.HVSource', {'n1': 1, 'n2': 2}, {'source_id': 3}, 4, 'alpha'),
}


def element(L, r, nm):
    it, eng = L.it, L.eng
    r = it.force(r)
    eng.prove(isinstance(r, VList) and r.items is not None and len(r.items) == 1, nm + '.one_element')
    return it.force(r.items[0])


def only_nodes(L, want, nm):
    eng = L.eng
    eng.prove(z3.And(*[z3.Or(*[(L.lit(x) if isinstance(x, str) else x) == TOK(q) for q in want.values()]) for x in L.nodes]), nm + '.only_its_own_nodes')


def simple(eng, fn):
    it = new_interp(eng)
    cls, nodes, names, vt, attr = SIMPLE[fn]
    hasic = fn in ('parse_elem_capacitor', 'parse_elem_inductor')

    def driver():
        L = Line(it)
        ended = L.ends_at(vt + 1)
        t4 = TOK(4)
        icgiven = z3.BoolVal(False)
        if hasic:
            icgiven = z3.And(L.NT > 4, z3.Not(L.comment(4)))
            ended = z3.Or(ended, z3.And(icgiven, EQ1(t4), LAB(t4) == L.lit('ic'), ISNUM(VAL(t4)), L.ends_at(5)))
        good = z3.And(L.NT > vt, ISNUM(TOK(vt)), ended)
        if fn == 'parse_elem_resistor':
            good = z3.And(good, NUM(TOK(vt)) != 0)
        try:
            r = it.call(it.qual(P_ + fn), [L.line, L.circ], {})
        except PyExc as e:
            eng.prove(z3.Not(good), fn + '.rejects_only_malformed_lines', str(e))
            eng.prove(L.known_error(e), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(good, fn + '.malformed_lines_are_rejected')
        e = element(L, r, fn)
        geta = lambda f: it.force(it.getattr(e, f))
        eng.prove(isinstance(e, Obj) and it.cls_of(e) is it.qual('ahkab.' + cls), fn + '.kind_of_element')
        eng.prove(eqz(geta('part_id'), TOK(0)), fn + '.name')
        for q, t in nodes.items():
            eng.prove(eqz(geta(q), L.num(TOK(t))), fn + '.terminal_' + q)
        for q, t in names.items():
            eng.prove(eqz(geta(q), TOK(t)), fn + '.' + q)
        only_nodes(L, nodes, fn)
        eng.prove(to_real(geta(attr)) == NUM(TOK(vt)), fn + '.value')
        if hasic:
            ic = geta('ic')
            eng.prove(z3.BoolVal(ic is None) == z3.Not(icgiven), fn + '.initial_condition_given')
            if ic is not None:
                eng.prove(to_real(ic) == NUM(VAL(t4)), fn + '.initial_condition')
                eng.cover(fn + '.initial_condition')
        eng.cover(fn)
    eng.explore(driver)


PARAMS = {'parse_elem_diode': {'area': ('Area', None), 't': ('T', None), 'ic': ('ic', None), 'off': ('off', False)},
          'parse_elem_mos': {'w': ('w', None), 'l': ('l', None), 'm': ('m', 1), 'n': ('n', 1)}}
DEVICE = {
    'parse_elem_diode': (4, 3, ['n1', 'n2'], {'diode.diode_model': 'diode.diode'}),
    'parse_elem_mos': (6, 5, ['nd', 'ng', 'ns', 'nb'], {'ekv.ekv_mos_model': 'ekv.ekv_device', 'mosq.mosq_mos_model': 'mosq.mosq_device'}),
}
SIG = {'diode.diode': ('part_id', 'n1', 'n2', 'model', 'AREA', 'T', 'ic', 'off'),
       'switch.switch_device': ('n1', 'n2', 'sn1', 'sn2', 'model', 'ic', 'part_id'),
       'ekv.ekv_device': ('part_id', 'nd', 'ng', 'ns', 'nb', 'W', 'L', 'model', 'M', 'N'),
       'mosq.mosq_device': ('part_id', 'nd', 'ng', 'ns', 'nb', 'W', 'L', 'model', 'M', 'N')}
ARG = {'area': 'AREA', 't': 'T', 'ic': 'ic', 'off': 'off', 'w': 'W', 'l': 'L', 'm': 'M', 'n': 'N'}


def record(it, made):
    for cl, names in SIG.items():
        def init(i, a, k, names=names, cl=cl):
            got = dict(zip(names, a[1:]))
            got.update(k)
            made.append((a[0], cl, got))
        it.overrides['ahkab.%s.__init__' % cl] = init


def models(L):
    """a dictionary of models, in which the label of this line may or may not be found, and be of any kind"""
    it, eng = L.it, L.eng
    kinds = ['diode.diode_model', 'switch.vswitch_model', 'ekv.ekv_mos_model', 'mosq.mosq_mos_model']
    kd = eng.decide(len(kinds) + 1, None, 'model')
    ob = Obj(eng, it.qual('ahkab.' + kinds[kd]), {}) if kd < len(kinds) else None
    return ob, kinds[kd] if ob is not None else None


def lookup(L, label, ob):
    """the models: only the entry of this line's model label matters"""
    it, eng = L.it, L.eng

    def same(q):
        q = it.force(q)
        eng.prove(is_name(q) and eqz(q, label), 'looks_up_the_model_of_the_line')

    def contains(i, a, k):
        same(a[1] if len(a) > 1 else a[0])
        return ob is not None

    def getitem(i, a, k):
        same(a[1] if len(a) > 1 else a[0])
        if ob is None:
            i.raise_py(KeyError, 'model')
        return ob
    C = Class('Models', None, [ExtClass(object)],
              {'__contains__': Builtin('__contains__', contains), '__getitem__': Builtin('__getitem__', getitem)})
    return Obj(eng, C, {})


def device(eng, fn):
    it = new_interp(eng)
    first, mt, nodes, kinds = DEVICE[fn]
    pars = PARAMS[fn]

    def driver():
        L = Line(it)
        made = []
        record(it, made)
        ob, kind = models(L)
        st = {'stop': None}
        eng.assume(z3.Not(ISNUM(L.lit(''))))
        last = dict((p, uf('last_' + p, Z, Z)) for p in pars)
        u = z3.Int('some_token')
        # the label of a token is what stands before '=', or the whole token
        label = lambda t: z3.If(EQ1(t), LAB(t), t)

        def step(i):
            i = z3.simplify(i)
            for p, F in last.items():
                eng.fact_once((p, i.sexpr()), z3.And(F(i + 1) == z3.If(label(TOK(i)) == L.lit(p), i, F(i)),
                                                     F(i) < i, F(i) >= -1, z3.Implies(F(i) != -1, F(i) >= first),
                                                     z3.Implies(F(i) != -1, label(TOK(F(i))) == L.lit(p))))
        for F in last.values():
            eng.assume(F(first) == -1)

        def value(p, i):
            """what the parameter is after the tokens before i"""
            d = pars[p][1]
            t = TOK(last[p](i))
            if p == 'off':
                v = VAL(t)
                return z3.If(last[p](i) == -1, z3.BoolVal(False), z3.If(z3.Or(z3.Not(EQ1(t)), v == L.lit('')), z3.BoolVal(True), z3.If(
                    ISNUM(v), NUM(v) == 1, BOOL(v))))
            if d is None:
                return Maybe(last[p](i) == -1, NUM(VAL(t)))
            return z3.If(last[p](i) == -1, z3.RealVal(d), NUM(VAL(t)))

        def fine(i):
            """token i is a known parameter with a value"""
            t = TOK(i)
            v = VAL(t)
            lb = label(t)
            cs = []
            for p in pars:
                c = z3.And(EQ1(t), ISNUM(v))
                if p == 'off':
                    c = z3.Or(z3.Not(EQ1(t)), v == L.lit(''), z3.And(ISNUM(v), z3.Or(NUM(v) == 0, NUM(v) == 1)), z3.And(z3.Not(ISNUM(v)), ISBOOL(v)))
                cs.append(z3.And(lb == L.lit(p), c))
            return z3.Or(*cs)

        def same(a, b):
            a, b = it.force(a), it.force(b)
            if a is None or b is None:
                return z3.BoolVal(a is None and b is None)
            if isinstance(a, bool) or is_z3(a) and z3.is_bool(a):
                return zbool(a) == zbool(b)
            return to_real(a) == to_real(b)

        def spec(stm, fr):
            if not isinstance(stm, ast.For):
                return None
            loc = [v[0] for v in pars.values()]

            def havoc(i, fr):
                for p, (v, d) in pars.items():
                    fr.locals[v] = None
                st['h'] = True

            def inv(i, fr, k):
                at = z3.simplify(first + to_int(k))
                st['stop'] = at
                step(at)
                if st.pop('h', None):
                    for p, (v, d) in pars.items():
                        fr.locals[v] = value(p, at)
                out = [('parameter_' + p, same(fr.locals[v], value(p, at))) for p, (v, d) in pars.items()]
                out.append(('earlier_tokens_are_parameters', z3.Implies(z3.And(u >= first, u < at), z3.And(fine(u), z3.Not(L.comment(u))))))
                return out
            return LoopSpec(fn + '.loop', loc, havoc, inv)
        it.loop_specs[P_ + fn] = spec
        ok_line = eng.decide(2, None, 'well-formed line')
        if ok_line:
            # a well-formed line: the tokens up to the end or a comment are parameters
            end = z3.Int('end')
            eng.assume(z3.And(L.NT >= first, end >= first, end <= L.NT, z3.Implies(end < L.NT, L.comment(end))))
            i = z3.Int('i')
            eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= first, i < end), z3.And(fine(i), z3.Not(L.comment(i)))), patterns=[TOK(i)]))
            eng.assume(z3.BoolVal(kind in kinds))
            if fn == 'parse_elem_mos':
                for p in 'wl':
                    eng.assume(last[p](end) != -1)
            step(end)
            eng.assume(u == end)
        try:
            r = it.call(it.qual(P_ + fn), [L.line, L.circ, lookup(L, TOK(mt), ob)], {})
        except PyExc as e:
            eng.prove(z3.BoolVal(not ok_line), fn + '.rejects_only_malformed_lines', str(e))
            eng.prove(L.known_error(e), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(L.NT >= first, fn + '.malformed_lines_are_rejected')
        stop = st['stop']
        eng.prove(z3.And(stop >= first, L.ends_at(stop)), fn + '.every_token_is_read')
        eng.prove(z3.Implies(z3.And(u >= first, u < stop), fine(u)), fn + '.unknown_parameters_are_rejected')
        eng.prove(kind in kinds, fn + '.other_models_are_rejected')
        e = element(L, r, fn)
        eng.prove(len(made) == 1 and made[0][0] is e and made[0][1] == kinds.get(kind), fn + '.kind_of_element')
        got = made[0][2]
        eng.prove(eqz(it.force(got['part_id']), TOK(0)), fn + '.name')
        want = dict((q, i + 1) for i, q in enumerate(nodes))
        for q, t in want.items():
            eng.prove(eqz(it.force(got[q]), L.num(TOK(t))), fn + '.terminal_' + q)
        only_nodes(L, want, fn)
        eng.prove(it.force(got['model']) is ob, fn + '.model')
        for p, (v, d) in pars.items():
            g, wv = it.force(got.get(ARG[p])), it.force(value(p, stop))
            eng.prove(same(g, wv), fn + '.parameter_' + p)
        if fn == 'parse_elem_mos':
            eng.prove(z3.And(last['w'](stop) != -1, last['l'](stop) != -1), fn + '.width_and_length_are_required')
        eng.cover(fn)
    eng.explore(driver)


def switch(eng):
    it = new_interp(eng)
    fn = 'parse_elem_switch'

    def driver():
        L = Line(it)
        made = []
        record(it, made)
        ob, kind = models(L)
        good = z3.And(L.NT > 5, L.ends_at(6), z3.BoolVal(kind == 'switch.vswitch_model'))
        try:
            r = it.call(it.qual(P_ + fn), [L.line, L.circ, lookup(L, TOK(5), ob)], {})
        except PyExc as e:
            eng.prove(z3.Not(good), fn + '.rejects_only_malformed_lines', str(e))
            eng.prove(L.known_error(e), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(good, fn + '.malformed_lines_are_rejected')
        e = element(L, r, fn)
        eng.prove(len(made) == 1 and made[0][0] is e and made[0][1] == 'switch.switch_device', fn + '.kind_of_element')
        got = made[0][2]
        want = {'n1': 1, 'n2': 2, 'sn1': 3, 'sn2': 4}
        eng.prove(eqz(it.force(got['part_id']), TOK(0)), fn + '.name')
        for q, t in want.items():
            eng.prove(eqz(it.force(got[q]), L.num(TOK(t))), fn + '.terminal_' + q)
        only_nodes(L, want, fn)
        eng.prove(it.force(got['model']) is ob, fn + '.model')
        eng.cover(fn)
    eng.explore(driver)


TF = {'pulse': 7, 'exp': 6, 'sin': 6, 'sffm': 6, 'am': 5}


def source(eng, v):
    """V and I lines: any number of parameters and at most one time function, in any order"""
    it = new_interp(eng)
    fn = 'parse_elem_%ssource' % v
    cls = 'ahkab.components.sources.%sSource' % v.upper()

    def driver():
        L = Line(it)
        POS, PLEN = uf('position', Z, Z), uf('n_function_tokens', Z, Z)
        LDC, LAC, LTF = uf('last_dc', Z, Z), uf('last_ac', Z, Z), uf('last_function', Z, Z)
        TFOK = uf('function_text_is_fine', Z, Bz)
        label = lambda t: z3.If(EQ1(t), LAB(t), t)
        st = {'g': None, 'funs': {}, 'phase': 0, 'params': None}
        hasval = lambda t: z3.And(EQ1(t), z3.Not(ISNUM(VAL(t))))

        def typ(t, s):
            return z3.And(label(t) == L.lit('type'), hasval(t), VAL(t) == L.lit(s))
        isfun = lambda t: z3.Or(*[typ(t, s) for s in TF])

        def fine(g):
            t = TOK(POS(g))
            return z3.Or(typ(t, v + 'dc'), typ(t, v + 'ac'), z3.And(isfun(t), LTF(g) == -1, TFOK(POS(g))),
                         z3.And(z3.Or(label(t) == L.lit(v + 'dc'), label(t) == L.lit(v + 'ac')), EQ1(t), ISNUM(VAL(t))))

        def step(g):
            g = z3.simplify(g)
            t = TOK(POS(g))
            cs = [POS(g + 1) == z3.If(isfun(t), POS(g) + 1 + PLEN(POS(g)), POS(g) + 1), PLEN(POS(g)) >= 0, POS(g) >= 3]
            for F, c in ((LDC, label(t) == L.lit(v + 'dc')), (LAC, label(t) == L.lit(v + 'ac')), (LTF, isfun(t))):
                cs += [F(g + 1) == z3.If(c, g, F(g)), F(g) < g, F(g) >= -1]
            eng.fact_once(('src', g.sexpr()), z3.And(*cs))
        eng.assume(z3.And(POS(0) == 3, LDC(0) == -1, LAC(0) == -1, LTF(0) == -1))
        step(z3.IntVal(0))
        u = z3.Int('some_parameter')

        def params(i, a, k):
            at, number = to_int(a[1]), to_int(a[2])
            g = st['g']
            eng.prove(at == POS(g) + 1, fn + '.function_parameters_follow_the_type')
            t = TOK(POS(g))
            eng.prove(z3.And(*[z3.Implies(typ(t, s), number == q) for s, q in TF.items()]), fn + '.number_of_function_parameters')
            # only tokens of the line are function parameters
            eng.assume(z3.And(PLEN(POS(g)) <= number, POS(g) + 1 + PLEN(POS(g)) <= L.NT))
            r = VList(eng, None, SymSeq(PLEN(POS(g)), lambda q: TOK(z3.simplify(at + to_int(q))), 'params'))
            st['params'] = (r, g)
            return r
        it.overrides[P_ + 'time_function_params'] = params

        def fun(i, a, k):
            g = st['g']
            ft = i.force(a[0])
            eng.prove(st['params'] is not None and i.force(a[1]) is st['params'][0], fn + '.function_gets_its_parameters')
            eng.prove(eqn(it, ft, VAL(TOK(POS(g)))), fn + '.function_of_the_type_named')
            eng.prove(i.force(a[2]) == {'v': 'voltage', 'i': 'current'}[v], fn + '.function_for_this_kind_of_source')
            if not eng.branch(TFOK(POS(g))):
                L.reject(i)
            o = Obj(eng, ExtClass(object), {})
            st['funs'][o.id] = g
            return o
        it.overrides[P_ + 'parse_time_function'] = fun

        def val(F, g):
            return Maybe(F(g) == -1, NUM(VAL(TOK(POS(F(g))))))

        def same(a, b):
            a, b = it.force(a), it.force(b)
            if a is None or b is None:
                return z3.BoolVal(a is None and b is None)
            return to_real(a) == to_real(b)

        def funrel(f, g):
            f = it.force(f)
            if f is None:
                return LTF(g) == -1
            return z3.And(LTF(g) != -1, LTF(g) == st['funs'].get(f.id, z3.IntVal(-2)))

        def spec(stm, fr):
            if not isinstance(stm, ast.While):
                return None

            def havoc(i, fr):
                st['g'] = z3.Int(eng.fresh('g'))
                eng.assume(st['g'] >= 0)
                st['phase'] = 1

            def inv(i, fr, k):
                g = st['g']
                if g is None:
                    g = z3.IntVal(0)
                elif st['phase'] == 1:
                    st['phase'] = 2
                    fr.locals['index'] = POS(g)
                    fr.locals['dc_value'], fr.locals['vac' if v == 'v' else 'iac'] = val(LDC, g), val(LAC, g)
                    fr.locals['function'] = None
                    if not eng.branch(LTF(g) == -1):
                        o = fr.locals['function'] = Obj(eng, ExtClass(object), {})
                        st['funs'][o.id] = LTF(g)
                else:
                    g = z3.simplify(g + 1)
                st['end'] = g
                step(g)
                F = fr.locals
                return [('position', eqz(i.force(F['index']), POS(g))), ('position_in_the_line', POS(g) <= L.NT), ('dc_value', same(F['dc_value'], val(LDC, g))),
                        ('ac_value', same(F['vac' if v == 'v' else 'iac'], val(LAC, g))), ('function', funrel(F['function'], g)),
                        ('earlier_parameters_are_fine', z3.Implies(z3.And(u >= 0, u < g), z3.And(fine(u), POS(u) < L.NT, z3.Not(L.comment(POS(u))))))]
            return LoopSpec(fn + '.loop', ['index', 'dc_value', 'vac' if v == 'v' else 'iac', 'function'], havoc, inv)
        it.loop_specs[P_ + fn] = spec
        ok_line = eng.decide(2, None, 'well-formed line')
        if ok_line:
            end, i = z3.Int('end'), z3.Int('i')
            eng.assume(z3.And(L.NT >= 3, end >= 0))
            step(end)
            eng.assume(z3.Or(POS(end) >= L.NT, L.comment(POS(end))))
            eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < end), z3.And(fine(i), POS(i) < L.NT, z3.Not(L.comment(POS(i))))), patterns=[POS(i)]))
            eng.assume(z3.Or(LDC(end) != -1, LTF(end) != -1))
            eng.assume(u == end)
        try:
            r = it.call(it.qual(P_ + fn), [L.line, L.circ], {})
        except PyExc as e:
            eng.prove(z3.BoolVal(not ok_line), fn + '.rejects_only_malformed_lines', str(e))
            eng.prove(L.known_error(e), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        g = st['end']
        eng.prove(z3.And(L.NT >= 3, z3.Or(POS(g) >= L.NT, L.comment(POS(g)))), fn + '.every_token_is_read')
        eng.prove(z3.Implies(z3.And(u >= 0, u < g), fine(u)), fn + '.malformed_parameters_are_rejected')
        eng.prove(z3.Or(LDC(g) != -1, LTF(g) != -1), fn + '.a_value_or_a_function_is_required')
        e = element(L, r, fn)
        geta = lambda f: it.force(it.getattr(e, f))
        eng.prove(it.cls_of(e) is it.qual(cls), fn + '.kind_of_element')
        eng.prove(eqz(geta('part_id'), TOK(0)), fn + '.name')
        want = {'n1': 1, 'n2': 2}
        for q, t in want.items():
            eng.prove(eqz(geta(q), L.num(TOK(t))), fn + '.terminal_' + q)
        only_nodes(L, want, fn)
        eng.prove(same(geta('dc_value'), val(LDC, g)), fn + '.dc_value')
        ac, aa = it.force(val(LAC, g)), geta('abs_ac')
        # a source without an AC value is a source with an AC value of zero
        eng.assume(PI > 3)
        ac = z3.RealVal(0) if ac is None else ac
        aa = z3.RealVal(0) if aa is None else to_real(aa) * it_cos(it, geta('arg_ac'))
        eng.prove(aa == ac, fn + '.ac_value')
        f = geta('_time_function')
        eng.prove(funrel(f, g), fn + '.time_function')
        eng.prove(it.truth(geta('is_timedependent')) == (f is not None), fn + '.time_dependent')
        eng.cover(fn)
    eng.explore(driver)


def it_cos(it, a):
    """the sign a phase of 0 or pi gives"""
    return z3.If(to_real(a) == 0, z3.RealVal(1), z3.RealVal(-1))


def eqn(it, a, b):
    lit = lambda x: it.name_lit(x) if isinstance(x, str) else x
    return lit(a) == lit(b)


def coupling(eng):
    """K lines: the coupling is attached to the two inductors it names, which come before it"""
    it = new_interp(eng)
    fn = 'parse_elem_inductor_coupling'

    def driver():
        L = Line(it)
        m = CircuitModel(it, ['Resistor', 'Inductor', 'InductorCoupling'])
        f = m.f
        t3 = TOK(3)
        a, b = z3.simplify(idxof(upper(TOK(1)))), z3.simplify(idxof(upper(TOK(2))))
        st = {}
        for q in (a, b):
            m.elem_facts(q)
        eng.assume(f['value'](a) * f['value'](b) >= 0)    # inductances: the geometric mean is a real number
        eng.assume(z3.Not(ISNUM(L.lit(''))))

        def present(q, l):
            return z3.And(q >= 0, q < m.N, m.is_(q, 'Inductor'), f['pid'](q) == l)

        def spec(stm, fr):
            if not isinstance(stm, ast.For):
                return None

            def get(q):
                o = m.elem(q)
                it.cls_of(o)
                return o

            def havoc(i, fr):
                st['h'] = True

            def inv(i, fr, k):
                k = to_int(k)
                F = fr.locals
                if st.pop('h', None):
                    F['L1elem'] = get(a) if eng.branch(z3.And(a < k, present(a, TOK(1)))) else None
                    F['L2elem'] = get(b) if eng.branch(z3.And(b < k, present(b, TOK(2)), TOK(1) != TOK(2))) else None
                out = []
                for v, q, l, ok in (('L1elem', a, TOK(1), z3.BoolVal(True)), ('L2elem', b, TOK(2), TOK(1) != TOK(2))):
                    x = it.force(F[v])
                    c = z3.And(q < k, present(q, l), ok)
                    out.append((v, z3.And(c, x.tag[1] == q) if isinstance(x, Obj) else z3.Not(c)))
                return out
            return LoopSpec(fn + '.loop', ['L1elem', 'L2elem'], havoc, inv)
        it.loop_specs[P_ + fn] = spec
        num = z3.Or(ISNUM(t3), z3.And(EQ1(t3), LAB(t3) == L.lit('k'), ISNUM(VAL(t3))))
        good = z3.And(L.NT > 3, L.ends_at(4), num, TOK(1) != TOK(2), present(a, TOK(1)), present(b, TOK(2)))
        old = to_int(it.bi_len([m.circ], {}))
        try:
            r = it.call(it.qual(P_ + fn), [L.line, L.circ, m.circ], {})
        except PyExc as e:
            eng.prove(z3.Not(good), fn + '.rejects_only_malformed_lines', str(e))
            eng.prove(L.known_error(e), fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(good, fn + '.malformed_lines_are_rejected')
        e = element(L, r, fn)
        geta = lambda o, x: it.force(it.getattr(o, x))
        eng.prove(it.cls_of(e) is it.qual('ahkab.components.InductorCoupling'), fn + '.kind_of_element')
        eng.prove(z3.And(geta(e, 'part_id') == TOK(0), geta(e, 'L1') == TOK(1), geta(e, 'L2') == TOK(2)), fn + '.names')
        kk = z3.If(ISNUM(t3), NUM(t3), NUM(VAL(t3)))
        eng.prove(to_real(geta(e, 'K')) == kk, fn + '.coupling_factor')
        M = to_real(geta(e, 'M'))
        eng.prove(M * M == kk * kk * f['value'](a) * f['value'](b), fn + '.mutual_inductance')
        eng.prove(z3.And(z3.Implies(kk >= 0, M >= 0), z3.Implies(kk <= 0, M <= 0)), fn + '.mutual_inductance_sign')
        eng.prove(to_int(it.bi_len([m.circ], {})) == old, fn + '.adds_nothing_itself')
        touched = [o for k, o in list(eng.cache.items()) if isinstance(k, tuple) and k[0] == 'elem'
                   and o.id in eng.objs and o is not e and o.cls is it.qual('ahkab.components.Inductor')]
        grown = []
        for o in touched:
            q = o.tag[1]
            cd = it.force(it.getattr(o, 'coupling_devices'))
            n = to_int(it.bi_len([cd], {}))
            if not eng.valid(n == f['ncd'](q))[0] == 'proved':
                eng.prove(n == f['ncd'](q) + 1, fn + '.attached_once_to_each_inductor')
                eng.prove(it.force(it.getitem(cd, n - 1)) is e, fn + '.attached_to_the_named_inductors')
                grown.append(q)
        eng.prove(len(grown) == 2, fn + '.attached_to_two_inductors')
        if len(grown) == 2:
            eng.prove(z3.Or(z3.And(grown[0] == a, grown[1] == b), z3.And(grown[0] == b, grown[1] == a)),
                      fn + '.attached_to_the_named_inductors')
        eng.cover(fn)
    eng.explore(driver)


def function_params(eng):
    """time_function_params: the tokens that follow, up to the number of parameters, a comment or the next parameter of the source"""
    it = new_interp(eng)
    fn = 'time_function_params'

    def driver():
        L = Line(it)
        BEFORE = uf('before_equal_sign', Name, Name)
        it.texts = True
        it.name_split = lambda t, sep: [BEFORE(t)] if sep == '=' else None
        start, number = z3.Int('start'), z3.Int('number')
        eng.assume(z3.And(start >= 0, number >= 0))
        toks = VList(eng, None, SymSeq(L.NT, lambda q: TOK(to_int(q)), 'tokens'))

        def stop(i):
            t = TOK(i)
            return z3.Or(i >= L.NT, i >= start + number, L.comment(i),
                         *[BEFORE(t) == L.lit(x) for x in ('type', 'vdc', 'vac', 'idc', 'iac')])
        u = z3.Int('some_token')
        st = {}

        def spec(stm, fr):
            if not isinstance(stm, ast.For):
                return None
            lst = it.force(fr.locals['params'])

            def havoc(i, fr):
                st['h'] = True

            def inv(i, fr, k):
                k = to_int(k)
                if st.pop('h', None):
                    lst.items, lst.seq = None, SymSeq(k, lambda q: TOK(z3.simplify(start + to_int(q))), 'params')
                n = to_int(it.bi_len([fr.locals['params']], {}))
                out = [('as_many_as_read', n == k),
                       ('no_token_read_ends_them', z3.Implies(z3.And(u >= start, u < start + k), z3.Not(stop(u))))]
                if not eng.branch(z3.Or(u < 0, u >= n)):
                    out.append(('tokens', eqz(it.force(it.getitem(fr.locals['params'], u)), TOK(start + u))))
                return out
            return LoopSpec(fn + '.loop', [], havoc, inv, frame=lambda i, fr: [('list', lst.id)])
        it.loop_specs[P_ + fn] = spec
        r = it.force(it.call(it.qual(P_ + fn), [toks, start, number], {}))
        n = to_int(it.bi_len([r], {}))
        eng.prove(z3.And(n >= 0, n <= number), fn + '.no_more_than_the_function_has')
        eng.prove(z3.Or(n == 0, start + n <= L.NT), fn + '.tokens_of_the_line')
        eng.prove(stop(start + n), fn + '.ends_at_the_first_other_token')
        eng.prove(z3.Implies(z3.And(u >= start, u < start + n), z3.Not(stop(u))), fn + '.ends_at_the_first_other_token')
        if not eng.branch(z3.Or(u < 0, u >= n)):
            eng.prove(eqz(it.force(it.getitem(r, u)), TOK(start + u)), fn + '.in_order')
        eng.cover(fn)
    eng.explore(driver)


LETTERS = {'c': 'parse_elem_capacitor', 'd': 'parse_elem_diode', 'e': 'parse_elem_vcvs', 'f': 'parse_elem_cccs',
           'g': 'parse_elem_vccs', 'h': 'parse_elem_ccvs', 'i': 'parse_elem_isource', 'k': 'parse_elem_inductor_coupling',
           'l': 'parse_elem_inductor', 'm': 'parse_elem_mos', 'r': 'parse_elem_resistor', 's': 'parse_elem_switch',
           'v': 'parse_elem_vsource', 'x': 'parse_sub_instance', 'y': 'parse_elem_user_defined'}
EXTRA = {'d': ['models'], 'm': ['models'], 's': ['models'], 'x': ['subckts', 'models'], 'k': ['elements']}


def dispatch(eng):
    """main_netlist_parser: every line by the parser of its letter; the elements of all lines, in order"""
    it = new_interp(eng)
    fn = 'main_netlist_parser'

    def driver():
        L = Line(it)
        N = z3.Int('n_lines')
        eng.assume(N >= 0)
        LINE, CNT, OFF, EL = uf('line', Z, Name), uf('n_elements_of_line', Z, Z), uf('elements_before_line', Z, Z), uf('element_of_line', Z, Z, Z)
        WRONG = uf('line_is_wrong', Z, Z)
        st = {'k': None, 'lst': None}
        eng.assume(OFF(0) == 0)
        circ, models_, subckts = [Obj(eng, ExtClass(object), {}) for _ in range(3)]
        lines = VList(eng, None, SymSeq(N, lambda q: (LINE(to_int(q)), to_int(q) + 1), 'lines'))
        known = lambda k: z3.Or(*[name_first(LINE(k)) == L.lit(c) for c in LETTERS])

        def parser(c, name):
            def run(i, a, k):
                pos = dict(enumerate(a))
                pos.update(k)
                names = ['line', 'circ'] + EXTRA.get(c, [])
                kw = {'subckts': 'subckts_dict'}
                val = [i.force(pos.get(q, pos.get(x, pos.get(kw.get(x))))) for q, x in enumerate(names)]
                q = st['k']
                eng.prove(eqz(val[0], LINE(q)), fn + '.each_line_once_in_order')
                eng.prove(name_first(LINE(q)) == L.lit(c), fn + '.parser_of_the_letter')
                eng.prove(val[1] is circ, fn + '.circuit_of_the_netlist')
                for x, y in zip(names[2:], val[2:]):
                    if x == 'elements':
                        eng.prove(isinstance(y, VList) and st['lst'] is not None and y.id == st['lst'].id, fn + '.elements_before_the_line')
                    else:
                        eng.prove(y is {'models': models_, 'subckts': subckts}[x], fn + '.' + x)
                w = eng.decide(3, lambda j: eng.feasible(WRONG(q) == j), 'line is wrong')
                eng.assume(WRONG(q) == w)
                if w == 1:
                    i.raise_py(ValueError, 'bad number')
                if w == 2:
                    L.reject(i)
                return VList(eng, None, SymSeq(CNT(q), lambda j: EL(q, to_int(j)), 'elements of line'))
            it.overrides[P_ + name] = run
        for c, name in LETTERS.items():
            parser(c, name)
        for x in ('print_general_error', 'print_parse_error'):
            it.overrides['ahkab.printing.' + x] = lambda i, a, k: None
        q0, p0 = z3.Int('some_line'), z3.Int('some_element')
        eng.assume(z3.And(q0 >= 0, p0 >= 0, p0 < CNT(q0)))

        def spec(stm, fr):
            if not isinstance(stm, ast.For):
                return None
            st['lst'] = lst = it.force(fr.locals['elements'])
            SEEN = uf(eng.fresh('collected'), Z, Z)

            def havoc(i, fr):
                st['h'] = True

            def inv(i, fr, k):
                k = z3.simplify(to_int(k))
                st['k'] = k
                eng.fact_once(('line', k.sexpr()), z3.And(OFF(k + 1) == OFF(k) + CNT(k), CNT(k) >= 0, OFF(k) >= 0))
                eng.fact_once(('mono', k.sexpr()), z3.Implies(z3.And(q0 < k), OFF(q0) + CNT(q0) <= OFF(k)))
                if st.pop('h', None):
                    lst.items, lst.seq = None, SymSeq(OFF(k), lambda j: SEEN(to_int(j)), 'collected')
                    fr.locals['elements'] = lst
                cur = it.force(fr.locals['elements'])
                out = [('same_list', z3.BoolVal(cur is lst)), ('number_of_elements', eqz(it.bi_len([cur], {}), OFF(k))),
                       ('earlier_lines_are_right', z3.Implies(q0 < k, z3.And(known(q0), WRONG(q0) == 0)))]
                if eng.branch(q0 < k):
                    out.append(('elements_of_every_line_in_order', eqz(it.force(it.getitem(cur, z3.simplify(OFF(q0) + p0))), EL(q0, p0))))
                return out
            return LoopSpec(fn + '.loop', ['elements'], havoc, inv, frame=lambda i, fr: [('list', lst.id)])
        it.loop_specs[P_ + fn] = spec
        eng.fact_once(('line', q0.sexpr()), z3.And(OFF(q0 + 1) == OFF(q0) + CNT(q0), CNT(q0) >= 0, OFF(q0) >= 0))
        try:
            r = it.force(it.call(it.qual(P_ + fn), [circ, lines, subckts, models_], {}))
        except PyExc as e:
            k = st['k']
            eng.prove(z3.And(k >= 0, k < N, z3.Or(z3.Not(known(k)), z3.Not(WRONG(k) == 0))), fn + '.rejects_only_malformed_netlists', str(e))
            eng.prove(e.obj.cls is L.NPE, fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        eng.prove(eqz(it.bi_len([r], {}), OFF(N)), fn + '.no_other_elements')
        eng.prove(z3.Implies(q0 < N, z3.And(known(q0), WRONG(q0) == 0)), fn + '.unknown_elements_are_rejected')
        if eng.branch(q0 < N):
            eng.prove(eqz(it.force(it.getitem(r, z3.simplify(OFF(q0) + p0))), EL(q0, p0)), fn + '.elements_of_every_line_in_order')
        eng.cover(fn)
    eng.explore(driver)


def boolean(eng):
    """convert_boolean: the six texts, 0 and 1; anything else is an error"""
    it = new_interp(eng)

    def driver():
        it.texts = True
        NPE = it.qual(P_ + 'NetlistParseError')
        t = z3.Const('text', Name) if eng.decide(2, None, 'kind of value') == 0 else z3.Real('number')
        if is_name(t):
            yes = z3.Or(*[t == it.name_lit(x) for x in ('yes', 'true', '1')])
            no = z3.Or(*[t == it.name_lit(x) for x in ('no', 'false', '0')])
        else:
            yes, no = t == 1, t == 0
        try:
            r = it.call(it.qual(P_ + 'convert_boolean'), [t], {})
        except PyExc as e:
            eng.prove(z3.Not(z3.Or(yes, no)), 'convert_boolean.rejects_only_other_values')
            eng.prove(e.obj.cls is NPE, 'convert_boolean.kind_of_error')
            eng.cover('convert_boolean.rejects')
            return
        eng.prove(z3.Or(yes, no), 'convert_boolean.other_values_are_rejected')
        eng.prove(zbool(it.truth(r)) == yes, 'convert_boolean.value')
        eng.cover('convert_boolean')
    eng.explore(driver)


PROOFS = {'parse_elem_switch': {'fn': switch, 'timeout': 60, 'functions': ['netlist_parser.parse_elem_switch']}}
for _f in SIMPLE:
    PROOFS[_f] = {'fn': (lambda eng, f=_f: simple(eng, f)), 'timeout': 60, 'functions': ['netlist_parser.' + _f]}
for _f in DEVICE:
    PROOFS[_f] = {'fn': (lambda eng, f=_f: device(eng, f)), 'timeout': 120, 'functions': ['netlist_parser.' + _f]}
for _v in 'vi':
    PROOFS['parse_elem_%ssource' % _v] = {'fn': (lambda eng, v=_v: source(eng, v)), 'timeout': 120,
                                          'functions': ['netlist_parser.parse_elem_%ssource' % _v]}
for _n, _f, _t in (('parse_elem_inductor_coupling', coupling, 120), ('time_function_params', function_params, 60),
                   ('main_netlist_parser', dispatch, 180), ('convert_boolean', boolean, 60)):
    PROOFS[_n] = {'fn': _f, 'timeout': _t, 'functions': ['netlist_parser.' + _n]}
