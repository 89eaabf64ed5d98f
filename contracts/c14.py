"""C14: the node map, for any map reachable by additions and removals and any name.

The map is an arbitrary pair of functions between names and numbers that are
each other's inverse; every operation is shown to keep that."""
import ast
import z3
from pyvc.loops import LoopSpec
from .model import *

C_ = 'ahkab.circuit.Circuit.'
Bz = z3.BoolSort()


class NodeMap(object):
    """holes: numbers need not be consecutive (nodes were purged)"""

    def __init__(self, it, holes=False, fields=None):
        eng = self.eng = it.eng
        self.it, self.holes = it, holes
        self.HN, self.NUM = uf('known_name', Name, Bz), uf('number_of', Name, Z)
        self.HI, self.NAM = uf('known_number', Z, Bz), uf('name_of', Z, Name)
        self.n = z3.Int('nodes')
        self.gnd = it.name_lit('0')
        eng.assume(self.n >= 0)
        eng.assume(z3.And(self.HN(self.gnd) == self.HI(0), self.NAM(0) == self.gnd, self.NUM(self.gnd) == 0))
        self.map = VMap(eng, {'n': lambda q: self.known_name(q), 'i': lambda q: self.known_number(q)},
                        {'n': lambda q: self.NUM(q), 'i': lambda q: self.NAM(q)}, 2 * self.n)
        fl = {'title': 'title', 'filename': None, 'nodes_dict': self.map, 'internal_nodes': z3.Int('internal_nodes'),
              'models': VDict(eng, {}), 'gnd': '0', '__seq__': VList(eng, [])}
        fl.update(fields or {})
        self.circ = Obj(eng, it.qual('ahkab.circuit.Circuit'), fl)

    # instances of the representation invariant, at the keys in use
    def name_fact(self, x, again=True):
        i = self.NUM(x)
        self.eng.fact_once(('nm', x.sexpr()), z3.Implies(self.HN(x), z3.And(self.HI(i), self.NAM(i) == x, i >= 0)))
        if again:
            self.number_fact(i, False)

    def number_fact(self, i, again=True):
        c = z3.And(self.HN(self.NAM(i)), self.NUM(self.NAM(i)) == i, i >= 0)
        self.eng.fact_once(('nr', i.sexpr()), z3.Implies(self.HI(i), c))
        if not self.holes:
            lo = z3.If(self.HI(0), 0, 1)
            self.eng.fact_once(('nrc', i.sexpr()), self.HI(i) == z3.And(i >= lo, i < lo + self.n))
        if again:
            self.name_fact(self.NAM(i), False)

    def known_name(self, q):
        self.name_fact(z3.simplify(q))
        return self.HN(q)

    def known_number(self, q):
        self.number_fact(z3.simplify(to_int(q)))
        return self.HI(to_int(q))

    def after(self):
        m = self.map
        return ((lambda q: zb(m.has('n', q))), (lambda q: to_int(m.d[1]['n'](q))), (lambda q: zb(m.has('i', q))),
                (lambda q: m.d[1]['i'](q)), to_int(m.d[2]))

    def well_formed(self, nm):
        """the map is again a pair of inverse functions with ground at zero"""
        eng, it = self.eng, self.it
        HN, NUM, HI, NAM, size = self.after()
        x, i = z3.Const('some_name', Name), z3.Int('some_number')
        self.name_fact(x)
        self.number_fact(i)
        eng.prove(z3.Implies(HN(x), z3.And(HI(NUM(x)), name_eq(it, NAM(NUM(x)), x))), nm + '.number_leads_back_to_the_name')
        eng.prove(z3.Implies(HI(i), z3.And(HN(NAM(i)), NUM(NAM(i)) == i)), nm + '.name_leads_back_to_the_number')
        eng.prove(z3.Implies(HI(i), i >= 0), nm + '.numbers_not_negative')
        eng.prove(z3.And(z3.Implies(HN(self.gnd), NUM(self.gnd) == 0), z3.Implies(HI(0), name_eq(it, NAM(0), self.gnd))),
                  nm + '.ground_is_zero')
        if not self.holes:
            lo = z3.If(HI(0), 0, 1)
            eng.prove(size % 2 == 0, nm + '.two_entries_per_node')
            eng.prove(HI(i) == z3.And(i >= lo, i < lo + size / 2), nm + '.numbers_consecutive')

    def only_adds(self, nm, name):
        eng = self.eng
        HN, NUM, HI, NAM, size = self.after()
        x = z3.Const('other_name', Name)
        self.name_fact(x)
        eng.prove(z3.Implies(self.HN(x), z3.And(HN(x), NUM(x) == self.NUM(x))), nm + '.known_nodes_keep_their_number')
        eng.prove(z3.Implies(x != name, HN(x) == self.HN(x)), nm + '.no_other_node_appears')
        eng.prove(HN(name), nm + '.node_is_known_afterwards')
        eng.prove(size == z3.If(self.HN(name), 2 * self.n, 2 * self.n + 2), nm + '.count')


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def name_eq(it, a, b):
    a = it.name_lit(a) if isinstance(a, str) else a
    return a == b


def find_free(it, m):
    """the search for a free number: every number above the candidate was used, and
    a set of n numbers does not contain 0..n (or 1..n+1 when ground is missing)"""
    eng = it.eng
    cnt = uf('used_upto', Z, Z)        # how many numbers in 0..j are in use
    eng.assumptions.add('at most n numbers are in use in any range when n nodes are known (definition of counting)')

    def fact(j):
        j = z3.simplify(j)
        eng.fact_once(('cnt', j.sexpr()), z3.And(z3.Implies(j >= 0, cnt(j) == cnt(j - 1) + z3.If(m.known_number(j), 1, 0)),
                                                 cnt(j) <= m.n))
    eng.assume(cnt(-1) == 0)
    eng.assume(cnt(0) == z3.If(m.HI(0), 1, 0))
    def cand(fr):
        vs = [v for v in ('int_node',) if v in fr.locals]
        if not vs:
            raise Unsupported('no candidate number')
        return vs[0]

    def havoc(i, fr):
        fr.locals[cand(fr)] = z3.Int(eng.fresh('candidate'))

    def inv(i, fr, k):
        c = to_int(fr.locals[cand(fr)])
        top = m.n + z3.If(m.HI(0), 0, 1)
        for j in (c, c + 1, top):
            fact(j)
        if not m.holes:
            return [('first_candidate_is_free', c == top)]
        return [('candidate_in_range', z3.And(c >= 1, c <= top)),
                ('everything_above_is_used', cnt(top) - cnt(c) == top - c)]

    def spec(stm, fr):
        return LoopSpec('free_number', ['int_node'], havoc, inv, lambda i, fr: to_int(fr.locals[cand(fr)]))
    return spec


def one(eng, fn, holes):
    it = new_interp(eng)
    nm = fn + ('.after_removals' if holes else '')

    def driver():
        m = NodeMap(it, holes)
        name = z3.Const('name', Name) if eng.decide(2, None, 'any name') else it.name_lit('0')
        if True:
            sp = find_free(it, m)
            it.loop_specs[C_ + 'add_node'] = it.loop_specs[C_ + 'create_node'] = sp
        try:
            r = it.call(it.qual(C_ + fn), [m.circ, name], {})
        except PyExc as e:
            eng.prove(zand(fn == 'create_node', m.HN(name), it.exc_is(e, ValueError)), nm + '.rejects_only_existing_nodes', str(e))
            eng.prove(zb(m.map.d[2] is not None) == z3.BoolVal(True), nm + '.rejected_leaves_the_map')
            m.well_formed(nm + '.rejected')
            eng.cover(nm + '.rejects')
            return
        m.only_adds(nm, name)
        m.well_formed(nm)
        HN, NUM = m.after()[:2]
        if fn == 'add_node':
            eng.prove(eqz(r, NUM(name)), nm + '.returns_the_number')
        else:
            eng.prove(z3.Not(m.HN(name)), nm + '.rejects_existing_nodes')
            eng.prove(it.truth(it.cmpop('==', r, name)), nm + '.returns_the_name')
        eng.cover(nm)
    eng.explore(driver)


def not_text(eng):
    it = new_interp(eng)

    def driver():
        m = NodeMap(it)
        fn = ('add_node', 'create_node')[eng.decide(2, None, 'fn')]
        bad = (z3.Int('number'), None, VList(eng, []))[eng.decide(3, None, 'bad')]
        try:
            it.call(it.qual(C_ + fn), [m.circ, bad], {})
            eng.prove(False, fn + '.rejects_names_that_are_not_text')
        except PyExc as e:
            eng.prove(it.exc_is(e, TypeError), fn + '.rejects_names_that_are_not_text')
            m.well_formed(fn + '.rejected')
            eng.cover('not_text')
    eng.explore(driver)


def lookup(eng):
    it = new_interp(eng)

    def driver():
        m = NodeMap(it, True)
        x, i = z3.Const('name', Name), z3.Int('number')
        if eng.decide(2, None, 'direction'):
            nm, key, known, want = 'ext_node_to_int', x, m.HN(x), m.NUM(x)
        else:
            nm, key, known, want = 'int_node_to_ext', i, m.HI(i), m.NAM(i)
        try:
            r = it.call(it.qual(C_ + nm), [m.circ, key], {})
        except PyExc as e:
            eng.prove(z3.Not(known), nm + '.error_only_for_unknown', str(e))
            eng.cover(nm + '.unknown')
            return
        eng.prove(known, nm + '.unknown_is_an_error')
        eng.prove(r == want, nm + '.result')
        eng.cover(nm)
        n = it.call(it.qual(C_ + 'get_nodes_number'), [m.circ], {})
        eng.prove(eqz(n, m.n), 'get_nodes_number.counts_the_nodes')
    eng.explore(driver)




PROOFS = {
    'add_node': {'fn': lambda eng: one(eng, 'add_node', False), 'timeout': 60, 'functions': ['circuit.Circuit.add_node']},
    'create_node': {'fn': lambda eng: one(eng, 'create_node', False), 'timeout': 60, 'functions': ['circuit.Circuit.create_node']},
    'add_node.after_removals': {'fn': lambda eng: one(eng, 'add_node', True), 'timeout': 60, 'functions': ['circuit.Circuit.add_node']},
    'create_node.after_removals': {'fn': lambda eng: one(eng, 'create_node', True), 'timeout': 60, 'functions': ['circuit.Circuit.create_node']},
    'not_text': {'fn': not_text, 'timeout': 30, 'functions': ['circuit.Circuit.add_node', 'circuit.Circuit.create_node']},
    'lookup': {'fn': lookup, 'timeout': 30, 'functions': ['circuit.Circuit.ext_node_to_int', 'circuit.Circuit.int_node_to_ext',
                                                         'circuit.Circuit.get_nodes_number']},
}
