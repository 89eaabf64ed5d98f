"""C16: numbers, for texts of any length.

A text is its characters: character i is CH(i), DIGIT says which are digits; what
stands before position p reads as a decimal number iff DECIMAL(p), of value DECVAL(p)
(the contract of float() on texts of digits, signs, points and E)."""
import ast
import z3
from pyvc.loops import LoopSpec
from pyvc.arith import norm_float
from .model import *
from .c15 import counters
from . import c17

P_ = 'ahkab.netlist_parser.'
Bz = z3.BoolSort()
CH, SUF = uf('character', Z, Name), uf('text_from', Z, Name)
DIGIT, OKF, FV = uf('is_digit', Name, Bz), uf('reads_as_decimal', Z, Bz), uf('decimal_value', Z, R)
SCALE = {'T': 1e12, 'G': 1e9, 'K': 1e3, 'MEG': 1e6, 'M': 1e-3, 'MIL': 25.4e-6, 'U': 1e-6, 'N': 1e-9, 'P': 1e-12, 'F': 1e-15}


class Text(object):
    def __init__(self, it):
        eng = self.eng = it.eng
        self.it = it
        it.texts = True
        self.n = z3.Int('length')
        self.raw = z3.Int('length_with_blanks')
        eng.assume(z3.And(self.n >= 0, self.raw >= self.n))
        self.lits = dict((x, it.name_lit(x)) for x in list(SCALE) + ['.', '+', '-', 'E'])
        for c in set(x[0] for x in SCALE):
            eng.assume(z3.Not(DIGIT(it.name_lit(c))))
        it.name_methods['isdigit'] = lambda t, a: DIGIT(t)
        self.cls = it.qual('ahkab.circuit.Circuit')
        self.whole = self.make('raw', 0, self.raw)

    def make(self, stage, lo, hi):
        """the characters lo..hi of the text, stripped and in upper case or not yet"""
        eng, it = self.eng, self.it

        def up(what):
            def f(i, a, k):
                o = a[0] if a else None
                st = set(stage.split('+')) - {'raw'} | {what}
                return self.make('+'.join(sorted(st)), lo, self.n if 'strip' in st else hi)
            return f

        def ready(what):
            if stage != 'strip+upper':
                raise Unsupported('%s of a text in any case or with blanks' % what)

        def length(i, a, k):
            if 'strip' in stage or stage == 'raw' or stage == 'upper':
                return z3.simplify(to_int(hi) - to_int(lo))

        def getitem(i, a, k):
            ready('part')
            q = i.force(a[-1])
            if isinstance(q, slice):
                s, e, step = [i.force(x) for x in (q.start, q.stop, q.step)]
                if step is not None:
                    raise Unsupported('stride')
                if lo != 0 or not hi.eq(self.n):
                    raise Unsupported('part of a part')
                s = 0 if s is None else s
                e = self.n if e is None else to_int(e)
                if not eng.valid(z3.And(to_int(s) >= 0, to_int(s) <= self.n, e >= 0, e <= self.n))[0] == 'proved':
                    raise Unsupported('slice outside of the text')
                return self.make(stage, s, e)
            q = to_int(q)
            if not eng.branch(z3.And(q >= 0, q < to_int(hi) - to_int(lo))):
                i.raise_py(IndexError, 'string index out of range')
            return CH(z3.simplify(to_int(lo) + q))

        def eq(i, a, k):
            ready('comparison')
            x = i.force(a[-1])
            if not (isinstance(x, str) and is_z3(hi) and hi.eq(self.n)):
                raise Unsupported('comparison of a part of a text')
            p = z3.simplify(to_int(lo))
            self.suffix(p)
            if x == '':
                return p == self.n
            return z3.And(p < self.n, SUF(p) == it.name_lit(x))

        def flt(i, a, k):
            ready('number')
            if lo != 0:
                raise Unsupported('number in the middle of a text')
            p = z3.simplify(to_int(hi))
            if not eng.branch(OKF(p)):
                i.raise_py(ValueError, 'could not convert string to float')
            return FV(p)
        M = {'strip': up('strip'), 'upper': up('upper'), '__len__': length, '__getitem__': getitem, '__eq__': eq, '__float__': flt,
             '__str__': lambda i, a, k: Opaque('str')}
        C = Class('Text', None, [ExtClass(str)], dict((k, Builtin(k, f)) for k, f in M.items()))
        return Obj(eng, C, {})

    def suffix(self, p):
        """a text that is one of the scales begins with its first letter"""
        for s in SCALE:
            self.eng.fact_once(('suffix', s, p.sexpr()), z3.Implies(SUF(p) == self.lits[s], CH(p) == self.it.name_lit(s[0])))
        self.eng.fact_once(('some', p.sexpr()), z3.Implies(OKF(p), p >= 1))

    def numeric(self, i):
        c = CH(i)
        return z3.Or(DIGIT(c), *[c == self.lits[x] for x in '.+-E'])

    def decimal(self, p):
        i = z3.Int('i')
        return z3.And(p >= 1, p <= self.n, OKF(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), self.numeric(i)), patterns=[CH(i)]))

    def scale(self, p):
        r = z3.RealVal(1)
        for s, v in SCALE.items():
            r = z3.If(z3.And(p < self.n, SUF(p) == self.lits[s]), to_real(norm_float(v)), r)
        return r

    def scaled(self, p):
        return z3.Or(p == self.n, *[z3.And(p < self.n, SUF(p) == self.lits[s]) for s in SCALE])


def numbers(eng):
    it = new_interp(eng)
    fn = 'convert_units'

    def driver():
        if eng.decide(2, None, 'already a number'):
            x = z3.Real('number')
            r = it.call(it.qual(P_ + fn), [x], {})
            eng.prove(to_real(r) == x, fn + '.a_number_is_itself')
            return
        T = Text(it)
        p, u = z3.Int('digits'), z3.Int('some_character')
        NPE = it.qual(P_ + 'NetlistParseError')
        st = {'end': z3.IntVal(0)}

        def spec(stm, fr):
            vs = counters(stm)
            if not isinstance(stm, (ast.While, ast.For)) or len(vs) != 1:
                return None

            def havoc(i, fr):
                fr.locals[vs[0]] = z3.Int(eng.fresh('index'))

            def inv(i, fr, k):
                c = to_int(i.force(fr.locals[vs[0]]))
                st['end'] = c
                T.suffix(z3.simplify(c))
                return [('within_the_text', z3.And(c >= 0, c <= T.n)),
                        ('characters_of_numbers_so_far', z3.Implies(z3.And(u >= 0, u < c), T.numeric(u)))]
            return LoopSpec(fn + '.loop', vs, havoc, inv)
        it.loop_specs[P_ + fn] = spec
        good = eng.decide(2, None, 'a number with a scale')
        if good:
            eng.assume(z3.And(T.decimal(p), T.scaled(p), u == p))
            T.suffix(p)
        try:
            r = it.force(it.call(it.qual(P_ + fn), [T.whole], {}))
        except PyExc as e:
            eng.prove(z3.BoolVal(not good), fn + '.every_number_is_accepted', str(e))
            eng.prove(it.exc_is(e, ValueError) or e.obj.cls is NPE, fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        if good:
            eng.prove(to_real(r) == FV(p) * T.scale(p), fn + '.value')
            eng.cover(fn)
            return
        c = st['end']
        eng.prove(z3.And(c >= 1, c <= T.n, OKF(c), z3.Implies(z3.And(u >= 0, u < c), T.numeric(u))), fn + '.only_numbers_are_accepted')
        eng.prove(T.scaled(c), fn + '.only_known_scales_are_accepted')
        eng.prove(to_real(r) == FV(c) * T.scale(c), fn + '.value_of_whatever_is_accepted')
        eng.cover(fn + '.any_text')
    eng.explore(driver)


def conversion(eng):
    """convert: the kind asked for, or (as told) an error or the text itself"""
    it = new_interp(eng)
    fn = 'convert'

    def driver():
        it.texts = True
        t = z3.Const('text', Name)
        ISN, NUM, ISB, BOOL = [uf(x, Name, s_) for x, s_ in (('is_number', Bz), ('number', R), ('is_boolean', Bz), ('boolean', Bz))]
        NPE = it.qual(P_ + 'NetlistParseError')

        def units(i, a, k):
            eng.prove(i.force(a[0]).eq(t), fn + '.of_the_text_given')
            if not eng.branch(ISN(t)):
                i.raise_py(ValueError, 'not a number')
            return NUM(t)

        def boolean(i, a, k):
            eng.prove(i.force(a[0]).eq(t), fn + '.of_the_text_given')
            if not eng.branch(ISB(t)):
                raise PyExc(i.instantiate(NPE, ['boolean'], {}), 'NetlistParseError')
            return BOOL(t)
        it.overrides[P_ + 'convert_units'] = units
        it.overrides[P_ + 'convert_boolean'] = boolean
        kind = [float, str, bool, int][eng.decide(4, None, 'type')]
        strict = eng.decide(3, None, 'raise_exception')
        kw = {} if strict == 2 else {'raise_exception': bool(strict)}
        strict = strict == 1
        try:
            r = it.force(it.call(it.qual(P_ + fn), [t, ExtClass(kind)], kw))
        except PyExc as e:
            why = {float: z3.And(z3.Not(ISN(t)), strict), bool: z3.Not(ISB(t)), str: z3.BoolVal(False), int: z3.BoolVal(strict)}[kind]
            eng.prove(why, fn + '.rejects_only_other_texts', str(e))
            eng.prove(it.exc_is(e, ValueError) or e.obj.cls is NPE, fn + '.kind_of_error', str(e))
            eng.cover(fn + '.rejects')
            return
        same = lambda: is_name(r) and t == r
        if kind is float:
            eng.prove(z3.And(ISN(t), r == NUM(t)) if is_z3(r) and z3.is_real(r) else z3.And(z3.Not(ISN(t)), same(), not strict), fn + '.number')
        elif kind is bool:
            eng.prove(z3.And(ISB(t), zbool(it.truth(r)) == BOOL(t)), fn + '.boolean')
        else:
            eng.prove(same() if kind is str or not strict else False, fn + '.text')
        eng.cover(fn)
    eng.explore(driver)


PROOFS = {'convert_units': {'fn': numbers, 'timeout': 60, 'functions': ['netlist_parser.convert_units']},
          'convert': {'fn': conversion, 'timeout': 60, 'functions': ['netlist_parser.convert']},
          'convert_boolean': dict(c17.PROOFS['convert_boolean'])}
