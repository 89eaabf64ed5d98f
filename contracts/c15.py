"""C15: position of a branch current, for circuits with any number of elements.

The row of a voltage-defined element is (nodes - 1) + the number of such elements
before it: the order in which the equations are assembled (C01)."""
import ast
import z3
from pyvc.loops import LoopSpec
from .model import *
from . import c01

C_ = 'ahkab.circuit.Circuit.'


def counters(stm):
    """the locals the loop body assigns"""
    out = []
    for x in stm.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in out:
                out.append(y.id)
    return out


def vde(eng):
    """the element whose current is unknown number index"""
    it = new_interp(eng)

    def driver():
        m = CircuitModel(it)
        it.overrides.pop(C_ + 'find_vde_index')
        idx, u = z3.Int('index'), z3.Int('some_element')
        m.elem_facts(u)
        m.row(u)

        def spec(stm, fr):
            vs = counters(stm)
            if not isinstance(stm, ast.For) or len(vs) != 1:
                return None

            def havoc(i, fr):
                fr.locals[vs[0]] = z3.Int(eng.fresh('counter'))

            def inv(i, fr, k):
                c = to_int(i.force(fr.locals[vs[0]]))
                m.row(k)
                return [('counts_the_voltage_defined_elements', c == m.vcnt(k)),
                        ('not_among_the_earlier_ones', z3.Implies(z3.And(u >= 0, u < to_int(k), m.isv(u)), idx != m.nn - 1 + m.vcnt(u)))]
            return LoopSpec('find_vde.loop', vs, havoc, inv)
        it.loop_specs[C_ + 'find_vde'] = spec
        try:
            e = it.call(it.qual(C_ + 'find_vde'), [m.circ, idx], {})
        except PyExc as ex:
            eng.prove(z3.Not(z3.And(u >= 0, u < m.N, m.isv(u), idx == m.nn - 1 + m.vcnt(u))), 'find_vde.error_only_for_unknown', str(ex))
            eng.prove(it.exc_is(ex, IndexError), 'find_vde.kind_of_error')
            eng.cover('find_vde.unknown')
            return
        e = it.force(e)
        eng.prove(isinstance(e, Obj) and isinstance(e.tag, tuple) and e.tag[0] == 'elem', 'find_vde.returns_an_element')
        k = e.tag[1]
        eng.prove(m.isv(k), 'find_vde.voltage_defined')
        eng.prove(idx == m.nn - 1 + m.vcnt(k), 'find_vde.the_element_of_that_row')
        eng.cover('find_vde')
    eng.explore(driver)


def eqn(it, a, b):
    lit = lambda x: it.name_lit(x) if isinstance(x, str) else x
    return lit(a) == lit(b)


SOL = {
    'op_solution': lambda x, e, c: ([x, e, c, 'f'], {}),
    'dc_solution': lambda x, e, c: ([c, z3.Real('start'), z3.Real('stop'), z3.Const('sweepvar', Name), 'LIN', 'f'], {}),
    'ac_solution': lambda x, e, c: ([c, z3.Real('start'), z3.Real('stop'), z3.Int('points'), 'LOG', Opaque('op'), 'f'], {}),
    'tran_solution': lambda x, e, c: ([c, z3.Real('start'), z3.Real('stop'), Opaque('op'), 'TRAP', 'f'], {}),
    'pss_solution': lambda x, e, c: ([c, 'shooting', z3.Real('period'), 'f'], {}),
}


def labels(eng, cls, claim):
    """names are listed in the order of the unknowns: node k+1 under V<name>, then the
    currents of the voltage-defined elements under I(<identifier>), each in row order"""
    it = new_interp(eng)
    it.texts = True
    nm = cls
    q_ = 'ahkab.results.' + cls

    def driver():
        m = CircuitModel(it)
        NAM = uf('name_of', Z, Name)
        m.circ.fields['nodes_dict'] = VMap(eng, {'n': lambda q: z3.Bool('hn'), 'i': lambda q: z3.And(q >= 0, q < m.nn)},
                                           {'n': lambda q: z3.Int('in'), 'i': lambda q: NAM(q)}, 2 * m.nn)
        it.overrides['ahkab.circuit.Circuit.is_int_node_internal_only'] = lambda i, a, k: z3.Bool(eng.fresh('internal'))
        n = m.nn - 1
        X, E = uf('x', Z, R), uf('err', Z, R)
        tot = z3.simplify(n + m.vcnt(m.N))
        x = it.arr((tot, 1), lambda p, q: X(to_int(p)))
        err = it.arr((tot, 1), lambda p, q: E(to_int(p)))
        w, u = z3.Int('some_node'), z3.Int('some_element')
        if claim == 'nodes':
            eng.assume(z3.And(w >= 0, w < n))
        elif claim == 'branches':
            m.elem_facts(u)
            m.row(u)
            eng.assume(z3.And(u >= 0, u < m.N, m.isv(u)))
        nodetext = lambda p: it.text_upper(it.text(['V', NAM(p)]))
        elemtext = lambda e: it.text_upper(it.text(['I(', m.f['pid'](e), ')']))
        st = {'loops': [], 'obj': None}
        pin = dict(eng.cache.get('initials', {}))
        pin[z3.Const('sweepvar', Name).sexpr()] = ('V', 'I', 'T')[eng.decide(3, None, 'sweep')] if cls == 'dc_solution' and claim == 'first' else 'V'
        eng.cache['initials'] = pin

        def upd(i, a, k):
            d, arg = a[0], i.force(a[1])
            o = st['obj']
            prs = list(arg.d.items()) if isinstance(arg, VDict) else arg.pairs
            for key, v in prs:
                v = i.force(v)
                for which, vec in (('results', X), ('errors', E)):
                    if claim == 'values' and o is not None and o.fields.get(which) is d and st.get('now') is not None:
                        row, text = st['now']
                        eng.prove(eqn(it, i.text_upper(key), text), nm + '.value_under_its_own_name')
                        eng.prove(to_real(v) == vec(row), nm + '.value_of_that_unknown')
        it.overrides['ahkab.results.case_insensitive_dict.update'] = upd
        it.overrides['ahkab.results.op_solution._get_elements_op'] = lambda i, a, k: (Opaque('k'), Opaque('i'), Opaque('p'))

        def get(lst, i):
            if not eng.branch(z3.And(to_int(i) >= 0, to_int(i) < to_int(it.bi_len([lst], {})))):
                return z3.Const(eng.fresh('missing'), Name)
            v = it.force(it.getitem(lst, i))
            return it.text_upper(v)
        C = it.qual(q_)

        def spec(stm, fr):
            o = it.force(fr.locals[fr.func.node.args.args[0].arg])
            st['obj'] = o
            if id(stm) not in st['loops']:
                st['loops'].append(id(stm))
            which = st['loops'].index(id(stm))
            if which > 1:
                return headers_spec(stm, fr, o)
            var, skip = o.fields['variables'], o.fields['skip_nodes_list']
            first = st.setdefault('first', list(var.items) if var.items is not None else None)
            if first is None:
                raise Unsupported('names before the loop')
            base = len(first)
            cs = [v for v in counters(stm) if v == 'index'] if which else []
            L = uf(eng.fresh('label'), Z, Name)

            def havoc(i, fr):
                ln = z3.Int(eng.fresh('listed'))
                eng.assume(ln >= 0)
                var.items, var.seq = None, SymSeq(ln, lambda q: L(to_int(q)), 'variables')
                sl = z3.Int(eng.fresh('skipped'))
                eng.assume(sl >= 0)
                skip.items, skip.seq = None, SymSeq(sl, lambda q: z3.Int(eng.fresh('skip')), 'skip')
                for c in cs:
                    fr.locals[c] = z3.Int(eng.fresh('counter'))

            def inv(i, fr, k):
                k = to_int(k)
                ln = to_int(i.bi_len([var], {}))
                done = n if which else k
                out = [('names_listed', ln == base + done + (m.vcnt(k) if which else 0))]
                if which:
                    m.row(k)
                    m.elem_facts(k)
                st['now'] = (k, nodetext(k + 1)) if not which else (n + m.vcnt(k), elemtext(k))
                for j, v in enumerate(first if claim == 'first' else []):
                    out.append(('first_names_kept', eqz_(get, var, j, v, ln)))
                if claim == 'nodes':
                    out.append(('node_names_in_row_order', cond(w < done, lambda: eqn(it, get(var, base + w), nodetext(w + 1)))))
                if which:
                    if claim == 'branches':
                        out.append(('branch_names_in_row_order', cond(u < k, lambda: eqn(it, get(var, base + n + m.vcnt(u)), elemtext(u)))))
                    for c in cs:
                        out.append(('row_counter', to_int(fr.locals[c]) == n - 1 + m.vcnt(k)))
                return out

            def cond(c, f):
                if eng.branch(c):
                    return zbool(f())
                return z3.BoolVal(True)
            return LoopSpec('%s.%s' % (nm, 'branches' if which else 'nodes'), cs, havoc, inv,
                            frame=lambda i, fr: [('list', var.id), ('attr', o.id, 'variables'), ('list', skip.id),
                                                 ('attr', o.id, 'skip_nodes_list')])

        def eqz_(get, var, j, v, ln):
            if eng.branch(ln > j):
                return (eqn(it, get(var, j), it.text_upper(v)))
            return z3.BoolVal(False)

        def column(i, hd, r, var):
            name = it.text_upper(it.getitem(var, r))
            return z3.And(eqn(it, get(hd, 2 * r - 1), it.text(['|', name, '|'])), eqn(it, get(hd, 2 * r), it.text(['ARG(', name, ')'])))

        def headers_spec(stm, fr, o):
            if 'csv_headers' not in o.fields or which_row() is None:
                return None
            hd, var, r = o.fields['csv_headers'], o.fields['variables'], which_row()
            H = uf(eng.fresh('header'), Z, Name)

            def havoc(i, fr):
                ln = z3.Int(eng.fresh('columns'))
                eng.assume(ln >= 0)
                hd.items, hd.seq = None, SymSeq(ln, lambda q: H(to_int(q)), 'headers')

            def inv(i, fr, k):
                k = to_int(k)
                return [('two_columns_each', eqz(i.bi_len([hd], {}), 2 * k + 1)),
                        ('columns_carry_their_name', column(i, hd, r, var) if eng.branch(r <= k) else z3.BoolVal(True))]
            return LoopSpec(nm + '.headers', [], havoc, inv, frame=lambda i, fr: [('list', hd.id), ('attr', o.id, 'csv_headers')])

        def which_row():
            return w + 1 if claim == 'nodes' else n + m.vcnt(u) + 1 if claim == 'branches' else None
        it.loop_specs[q_ + '.__init__'] = spec
        args, kw = SOL[cls](x, err, m.circ)
        o = it.call(C, args, kw)
        var = it.force(it.getattr(o, 'variables'))
        base = {'op_solution': 0}.get(cls, 1)
        ln = to_int(it.bi_len([var], {}))
        eng.prove(ln == base + n + m.vcnt(m.N), nm + '.one_name_per_unknown')
        if claim == 'first' and cls == 'dc_solution':
            eng.prove(eqn(it, get(var, 0), it.text_upper(z3.Const('sweepvar', Name))), nm + '.sweep_variable_first')
        elif claim == 'first' and base:
            eng.prove(eqn(it, get(var, 0), {'ac_solution': 'F'}.get(cls, 'T')), nm + '.independent_variable_first')
        if claim == 'nodes':
            eng.prove(eqn(it, get(var, base + w), nodetext(w + 1)), nm + '.node_voltages_in_row_order')
        if claim == 'branches':
            eng.prove(eqn(it, get(var, base + n + m.vcnt(u)), elemtext(u)), nm + '.branch_currents_in_row_order')
        if cls == 'ac_solution' and claim in ('nodes', 'branches'):
            # the file holds modulus and phase of each unknown next to each other
            hd = it.force(it.getattr(o, 'csv_headers'))
            r = which_row()
            eng.prove(eqz(it.bi_len([hd], {}), 2 * ln - 1), nm + '.two_columns_per_unknown')
            eng.prove(column(it, hd, r, var), nm + '.columns_carry_their_name')
        eng.cover(nm)
    eng.explore(driver)


def headers_index(eng):
    """the column of a name, whatever its case, in a header of any length"""
    it = new_interp(eng)
    it.texts = True
    nm = 'get_headers_index'

    def driver():
        H, n = uf('header', Z, Name), z3.Int('columns')
        eng.assume(n >= 0)
        hd = VList(eng, None, SymSeq(n, lambda q: H(to_int(q)), 'headers'))
        x, u = z3.Const('wanted', Name), z3.Int('some_column')
        r = it.call(it.qual('ahkab.csvlib.get_headers_index'), [hd, VList(eng, [x])], {'verbose': 0})
        k = it.bi_len([r], {})
        up = lambda y: it.text_upper(y)
        inr = z3.And(u >= 0, u < n)
        it.inst_all(u)
        if eng.branch(eqz(k, 1)):
            i = to_int(it.force(it.getitem(r, 0)))
            eng.prove(z3.And(i >= 0, i < n), nm + '.column_of_the_file')
            eng.prove(up(H(i)) == up(x), nm + '.column_of_that_name')
            eng.prove(z3.Implies(z3.And(inr, u < i), up(H(u)) != up(x)), nm + '.first_column_of_that_name')
            eng.cover(nm + '.found')
        else:
            eng.prove(eqz(k, 0), nm + '.one_column_at_most')
            eng.prove(z3.Implies(inr, up(H(u)) != up(x)), nm + '.missing_only_if_unknown')
            eng.cover(nm + '.missing')
        all_ = it.call(it.qual('ahkab.csvlib.get_headers_index'), [hd, VList(eng, [])], {'verbose': 0})
        eng.prove(eqz(it.bi_len([all_], {}), n), nm + '.all_columns')
        eng.assume(inr)
        eng.prove(eqz(it.getitem(all_, u), u), nm + '.all_columns')
    eng.explore(driver)


def op_lookup(eng):
    """op_solution: the value under a name, in any case, is the entry of that unknown"""
    it = new_interp(eng)
    it.texts = True
    nm = 'op_solution.__getitem__'

    def driver():
        V, n, X = uf('label', Z, Name), z3.Int('unknowns'), uf('x', Z, R)
        eng.assume(n >= 0)
        x, u = z3.Const('wanted', Name), z3.Int('some_unknown')
        o = Obj(eng, it.qual('ahkab.results.op_solution'), {
            'variables': VList(eng, None, SymSeq(n, lambda q: V(to_int(q)), 'variables')),
            'x': it.arr((n, 1), lambda p, q: X(to_int(p)))})
        up = it.text_upper
        inr = z3.And(u >= 0, u < n)
        try:
            r = it.force(it.getitem(o, x))
        except PyExc as e:
            it.inst_all(u)
            eng.prove(it.exc_is(e, KeyError), nm + '.kind_of_error', str(e))
            eng.prove(z3.Implies(inr, up(V(u)) != up(x)), nm + '.error_only_for_unknown_names')
            eng.cover(nm + '.unknown')
            return
        eng.assume(inr)
        eng.assume(up(V(u)) == up(x))
        it.inst_all(u)
        for w in list(it.wits):
            it.inst_all(*w)
        eng.prove(isinstance(r, SArr) and eqz(r.shape[0], 1), nm + '.one_value')
        q = z3.Int('q')
        # names are distinct ignoring case
        val = r.fn(*[z3.IntVal(0)] * len(r.shape)) if isinstance(r, SArr) else r
        eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, up(V(q)) == up(x)), q == u)))
        eng.prove(to_real(val) == X(u), nm + '.value_of_that_unknown')
        eng.cover(nm)
    eng.explore(driver)


PROOFS = {
    'op_lookup': {'fn': op_lookup, 'timeout': 60, 'functions': ['results.op_solution.__getitem__', 'csvlib.get_headers_index']},
    'headers_index': {'fn': headers_index, 'timeout': 60, 'functions': ['csvlib.get_headers_index']},
    'find_vde_index': {'fn': c01.find_vde_index, 'timeout': 120, 'functions': ['circuit.Circuit.find_vde_index']},
    'find_vde_unknown': {'fn': c01.find_vde_unknown, 'timeout': 120, 'functions': ['circuit.Circuit.find_vde_index']},
    'find_vde': {'fn': vde, 'timeout': 90, 'functions': ['circuit.Circuit.find_vde']},
}
for _c in SOL:
    for _k in ('values', 'first', 'nodes', 'branches'):
        if _k == 'values' and _c != 'op_solution':
            continue
        PROOFS['labels.%s.%s' % (_c, _k)] = {'fn': (lambda eng, c=_c, k=_k: labels(eng, c, k)), 'timeout': 150,
                                             'functions': ['results.%s.__init__' % _c, 'results.solution.__init__']}
