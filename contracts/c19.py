"""C19: results as dictionaries, for any number of variables and samples."""
import ast
import z3
from pyvc.loops import LoopSpec
from .model import *
from . import c15

R_ = 'ahkab.results.'
C_ = R_ + 'case_insensitive_dict.'


class Names(object):
    """an ordered dictionary of any size whose names are distinct ignoring case"""

    def __init__(self, it):
        eng = self.eng = it.eng
        self.it = it
        it.texts = True
        self.n = z3.Int('n_entries')
        eng.assume(self.n >= 0)
        self.K, self.V, self.POS, self.DP = uf('key', Z, Name), uf('entry', Z, R), uf('position_ignoring_case', Name, Z), uf('position', Name, Z)
        self.alive = lambda q: z3.BoolVal(True)
        self.set = []

        def seq(get):
            return Builtin('seq', lambda i, a, k: VList(eng, None, SymSeq(self.n, lambda q: get(to_int(q)), 'dict')))

        def getitem(i, a, k):
            x = i.force(a[-1])
            p = self.lookup(x)
            if not eng.branch(z3.And(p >= 0, p < self.n, self.K(p) == x)):
                i.raise_py(KeyError, 'name')
            return self.V(p)

        def get(i, a, k):
            x = i.force(a[0])
            p = self.lookup(x)
            if not eng.branch(z3.And(p >= 0, p < self.n, self.K(p) == x)):
                return a[1] if len(a) > 1 else k.get('default')
            return self.V(p)

        def delitem(i, a, k):
            x = i.force(a[-1])
            p = self.lookup(x)
            old = self.alive
            if not eng.branch(z3.And(p >= 0, p < self.n, self.K(p) == x, old(p))):
                i.raise_py(KeyError, 'name')
            self.alive = lambda q: z3.And(old(q), q != p)

        def setitem(i, a, k):
            self.set.append((i.force(a[-2]), i.force(a[-1])))

        def contains(i, a, k):
            x = i.force(a[-1])
            p = self.lookup(x)
            return z3.And(p >= 0, p < self.n, self.K(p) == x)
        M = {'__getitem__': getitem, '__delitem__': delitem, '__setitem__': setitem, '__contains__': contains,
             '__len__': lambda i, a, k: self.n, '__iter__': lambda i, a, k: SymSeq(self.n, lambda q: self.key(to_int(q)), 'dict')}
        C = Class('Dict', None, [ExtClass(dict)], dict((k, Builtin(k, f)) for k, f in M.items()))
        self.dict = Obj(eng, C, {'keys': seq(self.key), 'values': seq(self.V), 'items': seq(lambda q: (self.key(q), self.V(q))),
                                 'get': Builtin('get', get)})
        self.obj = Obj(eng, it.qual(C_[:-1]), {'_dict': self.dict})

    def key(self, q):
        q = z3.simplify(q)
        t = self.K(q)
        self.eng.fact_once(('key', q.sexpr()), z3.Implies(z3.And(q >= 0, q < self.n), z3.And(
            self.DP(t) == q, self.POS(upper(t)) == q)))
        return t

    def lookup(self, x):
        p = z3.simplify(self.DP(x))
        self.key(p)
        return p


def lookup(eng, how):
    it = new_interp(eng)

    def driver():
        d = Names(it)
        x = z3.Const('name', Name)
        q = z3.simplify(d.POS(upper(x)))
        d.key(q)
        known = z3.And(q >= 0, q < d.n, upper(d.K(q)) == upper(x))
        nm = 'case_insensitive_dict.' + how
        dflt = z3.Real('default')
        try:
            args = [d.obj, x] + ([dflt] if how == 'get' else [])
            r = it.force(it.call(it.qual(C_ + how), args, {}))
        except PyExc as e:
            it.inst_all(q)
            eng.prove(z3.And(z3.BoolVal(how == '__getitem__' and it.exc_is(e, KeyError)), z3.Not(known)), nm + '.error_only_for_unknown_names', str(e))
            eng.cover(nm + '.unknown')
            return
        it.inst_all(q)
        for w in list(it.wits):
            it.inst_all(*w)
            for y in w:
                d.key(z3.simplify(y))
        if how in ('has_key', '__contains__'):
            eng.prove(zbool(it.truth(r)) == known, nm + '.in_any_case')
        elif how == 'get':
            eng.prove(to_real(r) == z3.If(known, d.V(q), dflt), nm + '.value_of_that_name_in_any_case')
        else:
            eng.prove(z3.And(known, to_real(r) == d.V(q)), nm + '.value_of_that_name_in_any_case')
        eng.cover(nm)
    eng.explore(driver)


def listing(eng):
    """keys, values, items, iteration and length agree"""
    it = new_interp(eng)

    def driver():
        d = Names(it)
        u = z3.Int('some_entry')
        eng.assume(z3.And(u >= 0, u < d.n))
        nm = 'case_insensitive_dict'
        eng.prove(eqz(it.bi_len([d.obj], {}), d.n), nm + '.length')
        for how in ('keys', 'values', 'items', '__iter__'):
            r = it.force(it.call(it.qual(C_ + how), [d.obj], {}))
            eng.prove(eqz(it.bi_len([r], {}), d.n), '%s.%s.every_entry_once' % (nm, how))
            g = it.force(r.get(u) if isinstance(r, SymSeq) else it.getitem(r, u))
            if how == 'items':
                k, v = it.unpack(g, 2)
                eng.prove(z3.And(eqz(k, d.K(u)), to_real(v) == d.V(u)), nm + '.items.name_and_value')
            elif how == 'values':
                eng.prove(to_real(g) == d.V(u), nm + '.values.in_order')
            else:
                eng.prove(eqz(g, d.K(u)), '%s.%s.in_order' % (nm, how))
        eng.cover(nm)
    eng.explore(driver)


def update(eng):
    """update: the name is stored with its value; no other spelling of it is left, all else stays"""
    it = new_interp(eng)
    nm = 'case_insensitive_dict.update'

    def driver():
        d = Names(it)
        x, v, u = z3.Const('name', Name), z3.Real('value'), z3.Int('some_entry')
        eng.assume(z3.And(u >= 0, u < d.n))
        d.key(u)
        gone = lambda q: z3.And(upper(d.K(q)) == upper(x), d.K(q) != x)
        C = Class('Given', None, [ExtClass(dict)], {'__getitem__': Builtin('__getitem__', lambda i, a, k: v)})
        given = Obj(eng, C, {'__seq__': VList(eng, [x]), 'items': Builtin('items', lambda i, a, k: VList(eng, [(x, v)])),
                             'keys': Builtin('keys', lambda i, a, k: VList(eng, [x]))})
        st = {}

        def spec(stm, fr):
            if not isinstance(stm, ast.For) or not isinstance(it.as_seq(it.ev(stm.iter, fr)), SymSeq):
                return None

            def havoc(i, fr):
                A = uf(eng.fresh('left'), Z, z3.BoolSort())
                st['A'] = A
                d.alive = lambda q: A(q)

            def inv(i, fr, k):
                k = z3.simplify(to_int(k))
                kk = z3.simplify(k)
                d.key(kk)
                out = [('others_stay', d.alive(u) == z3.Not(z3.And(u < k, gone(u))))]
                if st.get('A') is not None and 'done' not in st:
                    # the entry looked at next has not been removed
                    st['done'] = True
                    eng.assume(z3.Implies(z3.And(kk >= 0, kk < d.n), d.alive(kk)))
                    st['cur'] = kk
                return out
            return LoopSpec(nm + '.loop', [], havoc, inv)
        it.loop_specs[C_ + 'update'] = spec
        try:
            it.call(it.qual(C_ + 'update'), [d.obj, given], {})
        except PyExc as e:
            eng.prove(False, nm + '.no_exception', str(e))
            return
        eng.prove(d.alive(u) == z3.Not(gone(u)), nm + '.no_other_spelling_is_left_and_others_stay')
        eng.prove(len(d.set) == 1 and z3.And(d.set[0][0] == x, to_real(d.set[0][1]) == v), nm + '.stores_the_value')
        eng.cover(nm)
    eng.explore(driver)


def load(eng):
    """load_csv: the columns asked for, under their names, with the samples asked for, in the order of the file"""
    it = new_interp(eng)
    nm = 'load_csv'

    def driver():
        it.texts = True
        H, nh = uf('header', Z, Name), z3.Int('columns')
        COL, nr = uf('column_wanted', Z, Z), z3.Int('columns_wanted')
        found = z3.Int('columns_found')
        rows, skip, ns = z3.Ints('samples_in_file skip nsamples')
        DATA = uf('file', Z, Z, R)
        eng.assume(z3.And(nh >= 1, nr >= 0, found >= 0, found <= nr, rows >= 0, skip >= 0, skip <= rows, ns >= 0))
        wanted = VList(eng, None, SymSeq(nr, lambda q: uf('wanted', Z, Name)(to_int(q)), 'wanted'))
        all_ = eng.decide(2, None, 'all columns') == 1
        if all_:
            eng.assume(nr == 0)
        hdr = VList(eng, None, SymSeq(nh, lambda q: H(to_int(q)), 'headers'))
        it.overrides['ahkab.csvlib.get_headers'] = lambda i, a, k: hdr

        def index(i, a, k):
            """contract of get_headers_index (C15)"""
            eng.prove(i.force(a[0]) is hdr and i.force(a[1]) is wanted, nm + '.looks_up_the_names_asked_for')
            ln = nh if all_ else found
            return VList(eng, None, SymSeq(ln, lambda q: to_int(q) if all_ else COL(to_int(q)), 'indices'))
        it.overrides['ahkab.csvlib.get_headers_index'] = index
        it.overrides['ahkab.csvlib._get_fp'] = lambda i, a, k: Opaque('fp')
        it.overrides['ahkab.csvlib._close_fp'] = lambda i, a, k: None
        col = lambda q: to_int(q) if all_ else COL(to_int(q))
        nc = nh if all_ else nr

        def loadtxt(i, a, k):
            eng.assumptions.add('numpy.loadtxt reads the columns and rows it is asked for')
            his = i.force(k['usecols'])
            sk = to_int(k.get('skiprows', 0))
            if not (i.force(k.get('unpack', False)) is True and k.get('ndmin') == 2):
                raise Unsupported('loadtxt in another form')
            L = to_int(i.bi_len([his], {}))
            tot = z3.simplify(rows + 1 - sk)
            tot = z3.If(tot < 0, 0, tot)
            return i.arr((L, tot), lambda p, q: DATA(to_int(i.force(i.getitem(his, p))), z3.simplify(to_int(q) + sk - 1)))
        it.user_hooks['ext:numpy.loadtxt'] = Builtin('loadtxt', loadtxt)
        limited = eng.decide(2, None, 'nsamples') == 1
        try:
            r = it.call(it.qual('ahkab.csvlib.load_csv'), ['name', wanted], {
                'nsamples': ns if limited else None, 'skip': skip, 'verbose': 0})
        except PyExc as e:
            eng.prove(z3.BoolVal(it.exc_is(e, ValueError)), nm + '.kind_of_error', str(e))
            eng.prove(z3.And(nr > 0, found != nr), nm + '.error_only_for_missing_names', str(e))
            eng.cover(nm + '.missing')
            return
        eng.prove(z3.Or(nr == 0, found == nr), nm + '.missing_names_are_an_error')
        data, heads, pos, eof = [it.force(x) for x in it.unpack(r, 4)]
        left = z3.simplify(rows - skip)
        want = z3.If(ns < left, ns, left) if limited else left
        p, q = z3.Ints('p q')
        eng.prove(z3.And(to_int(data.shape[0]) == nc, to_int(data.shape[1]) == want), nm + '.all_samples_asked_for')
        eng.assume(z3.And(p >= 0, p < nc, q >= 0, q < want))
        eng.prove(to_real(data.fn(p, q)) == DATA(col(p), skip + q), nm + '.samples_in_the_order_of_the_file')
        hl = heads if isinstance(heads, (VList, SymSeq)) else None
        eng.prove(hl is not None and eqz(it.bi_len([heads], {}), nc), nm + '.one_name_per_row')
        eng.assume(z3.And(col(p) >= 0, col(p) < nh))
        eng.prove(eqz(it.force(it.getitem(heads, p)), H(col(p))), nm + '.names_of_the_rows')
        eng.prove(to_int(pos) == skip + want, nm + '.position_after_the_samples')
        eng.prove(zbool(it.truth(eof)) == (z3.BoolVal(True) if not limited else ns >= left), nm + '.end_of_file')
        eng.cover(nm)
    eng.explore(driver)


def access(eng, cls, how):
    """a result read back from its file: each variable under its name in any case, in order, with all its samples"""
    it = new_interp(eng)
    nm = '%s.%s' % (cls, how)

    def driver():
        it.texts = True
        n, rows = z3.Ints('n_variables samples')
        eng.assume(z3.And(n >= 1, rows >= 0))
        W, POS, F = uf('variable', Z, Name), uf('position_ignoring_case', Name, Z), uf('file', Z, Z, R)

        def name(q):
            q = z3.simplify(to_int(q))
            eng.fact_once(('var', q.sexpr()), z3.Implies(z3.And(q >= 0, q < n), POS(upper(W(q))) == q))
            return W(q)
        var = VList(eng, None, SymSeq(n, name, 'variables'))
        o = Obj(eng, it.qual(R_ + cls), {'variables': var, 'filename': 'f', 'sol_type': 'T'})

        def load(i, a, k):
            """contract of load_csv (proved here) on the file that write_csv makes"""
            got = dict(zip(('filename', 'load_headers', 'nsamples', 'skip'), a))
            got.update(k)
            if got['filename'] != 'f' or i.force(got.get('nsamples')) is not None or i.force(got.get('skip', 0)) != 0:
                raise Unsupported('part of a file')
            h = i.force(got.get('load_headers'))
            if h is var or h is None or isinstance(h, VList) and h.items == []:
                return (i.arr((n, rows), lambda p, q: F(to_int(p), to_int(q))), var, rows, True)
            if not (isinstance(h, VList) and h.items is not None and len(h.items) == 1):
                raise Unsupported('columns of a file')
            x = i.force(h.items[0])
            p = z3.simplify(POS(upper(x)))
            name(p)
            if not eng.branch(z3.And(p >= 0, p < n, upper(W(p)) == upper(x))):
                i.raise_py(ValueError, 'Specified header not found')
            return (i.arr((1, rows), lambda r, q: F(p, to_int(q))), VList(eng, [W(p)]), rows, True)
        it.overrides['ahkab.csvlib.load_csv'] = load
        x, u, q = z3.Const('name', Name), z3.Int('some_variable'), z3.Int('some_sample')
        p = z3.simplify(POS(upper(x)))
        name(p)
        known = z3.And(p >= 0, p < n, upper(W(p)) == upper(x))
        row = lambda a, r: z3.And(to_int(a.shape[0]) == rows, z3.BoolVal(len(a.shape) == 1),
                                  z3.Implies(z3.And(q >= 0, q < rows), to_real(a.fn(q)) == F(r, q)))
        dflt = z3.Real('default')
        call = lambda m, *a: it.force(it.call(it.getattr(o, m), list(a), {}))
        if how == 'iteration':
            call('__iter__')
            if o.fields.get('iter_index') != 0:
                raise Unsupported('iteration by other means than a position')
            o.fields['iter_index'] = u
            eng.assume(z3.And(u >= 0, u <= n))
            try:
                r = call('__next__')
            except PyExc as e:
                eng.prove(z3.And(z3.BoolVal(it.exc_is(e, StopIteration)), u == n), nm + '.ends_after_the_last_variable', str(e))
                eng.cover(nm + '.ends')
                return
            h, d = it.unpack(r, 2)
            eng.prove(z3.And(u < n, eqz(h, W(u)), row(it.force(d), u)), nm + '.name_and_samples_in_order')
            eng.prove(eqz(o.fields['iter_index'], u + 1), nm + '.one_at_a_time')
            o2 = call('__iter__')
            eng.prove(z3.And(z3.BoolVal(o2 is o), eqz(o.fields['iter_index'], 0)), nm + '.starts_at_the_first')
            eng.cover(nm)
            return
        try:
            r = call(how, *([x, dflt] if how == 'get' else [x] if how in ('__getitem__', 'has_key', '__contains__') else []))
        except PyExc as e:
            eng.prove(z3.And(z3.BoolVal(how == '__getitem__' and it.exc_is(e, KeyError)), z3.Not(known)), nm + '.error_only_for_unknown_names', str(e))
            eng.cover(nm + '.unknown')
            return
        it.inst_all(p)
        for w in list(it.wits):
            it.inst_all(*w)
            for y in w:
                name(y)
        if how == '__getitem__':
            eng.prove(z3.And(known, row(r, p)), nm + '.samples_of_that_variable')
        elif how == 'get':
            eng.prove(z3.And(known, row(r, p)) if isinstance(r, SArr) else z3.And(z3.Not(known), to_real(r) == dflt), nm + '.samples_of_that_variable')
        elif how in ('has_key', '__contains__'):
            eng.prove(zbool(it.truth(r)) == known, nm + '.in_any_case')
        elif how == '__len__':
            eng.prove(eqz(r, n), nm + '.number_of_variables')
        elif how == 'asarray':
            eng.prove(z3.And(to_int(r.shape[0]) == n, to_int(r.shape[1]) == rows), nm + '.all_variables_and_samples')
            eng.assume(z3.And(u >= 0, u < n, q >= 0, q < rows))
            eng.prove(to_real(r.fn(u, q)) == F(u, q), nm + '.in_order')
        else:
            eng.prove(eqz(it.bi_len([r], {}), n), nm + '.every_variable_once')
            eng.assume(z3.And(u >= 0, u < n))
            g = it.force(r.get(u) if isinstance(r, SymSeq) else it.getitem(r, u))
            if how == 'keys':
                eng.prove(eqz(g, W(u)), nm + '.in_order')
            elif how == 'values':
                eng.prove(row(g, u), nm + '.in_order')
            else:
                h, d = it.unpack(g, 2)
                eng.prove(z3.And(eqz(h, W(u)), row(it.force(d), u)), nm + '.name_and_samples_in_order')
        eng.cover(nm)
    eng.explore(driver)


PROOFS = {'listing': {'fn': listing, 'timeout': 60, 'functions': ['results.case_insensitive_dict.' + x for x in (
              'keys', 'values', 'items', '__iter__', '__len__')]},
          'update': {'fn': update, 'timeout': 60, 'functions': ['results.case_insensitive_dict.update']},
          'load_csv': {'fn': load, 'timeout': 60, 'functions': ['csvlib.load_csv']}}
for _h in ('__getitem__', 'get', 'has_key', '__contains__'):
    PROOFS['dict.' + _h] = {'fn': (lambda eng, h=_h: lookup(eng, h)), 'timeout': 60, 'functions': ['results.case_insensitive_dict.' + _h]}
for _n in ('headers_index', 'op_lookup'):
    PROOFS[_n] = c15.PROOFS[_n]
for _c in ('dc_solution', 'tran_solution', 'pss_solution'):
    for _h in ('__getitem__', 'get', 'has_key', '__contains__', '__len__', 'keys', 'values', 'items', 'iteration') + (
            ('asarray',) if _c != 'pss_solution' else ()):
        PROOFS['%s.%s' % (_c, _h)] = {'fn': (lambda eng, c=_c, h=_h: access(eng, c, h)), 'timeout': 60, 'functions': [
            'results.solution.' + x for x in ((_h,) if _h != 'iteration' else ('__iter__', '__next__'))]}
