"""Decision procedure for rational-function identities over the reals.

normalise(e) turns a z3 real term built from +, -, *, /, integer powers,
numerals and atoms into numerator polynomial over a product of polynomial
factors.  Applications of uninterpreted functions are atoms; two applications
of one function are the same atom when their arguments are the same rational
function.  An identity that holds formally holds wherever the denominators do
not vanish (a division by zero is an exception in the code, or an assumption
of the caller)."""
from fractions import Fraction
import random
import z3


class NotRational(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def pmul(a, b, limit=400000):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 6000000:
        raise NotRational('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def const(c):
    return {(): Fraction(c)} if c else {}


def isconst(p):
    return not p or (len(p) == 1 and () in p)


class RF(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = dict(d)      # factor key -> (poly, exponent)


def key(p):
    return tuple(sorted(p.items()))


def monic(p):
    """(leading coefficient, p / leading coefficient)"""
    m = max(p)
    c = p[m]
    return c, dict((k, v / c) for k, v in p.items())


class Ring(object):
    def __init__(self):
        self.atoms = []        # z3 terms / tags
        self.ids = {}
        self.apps = {}         # function name -> [(args RFs, atom id)]
        self.inverse = {}      # atom id -> RF of its square (sqrt)
        self.cache = {}
        self.keep = []

    # ---- field operations
    def add(self, a, b, s=1):
        if not a.n:
            return RF(b.n if s == 1 else dict((m, -c) for m, c in b.n.items()), b.d)
        if not b.n:
            return a
        d = dict(a.d)
        for k, (p, e) in b.d.items():
            if k not in d or d[k][1] < e:
                d[k] = (p, e)
        na, nb = a.n, b.n
        for k, (p, e) in d.items():
            for _ in range(e - a.d.get(k, (p, 0))[1]):
                na = pmul(na, p)
            for _ in range(e - b.d.get(k, (p, 0))[1]):
                nb = pmul(nb, p)
        n = self.reduce(padd(na, nb, s))
        if isinstance(n, RF):
            return self.div_by(n, d)
        return RF(n, d if n else {})

    def div_by(self, n, d):
        dd = dict(n.d)
        for k, (p, e) in d.items():
            dd[k] = (p, e + dd.get(k, (p, 0))[1])
        return RF(n.n, dd if n.n else {})

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        d = dict(a.d)
        for k, (p, e) in b.d.items():
            d[k] = (p, e + d.get(k, (p, 0))[1])
        an, bn = a.n, b.n
        # cheap cancellation: a whole numerator that is a denominator factor
        an, c1 = self.cancel(an, d)
        bn, c2 = self.cancel(bn, d)
        n = self.reduce(pmul(pmul(an, bn), const(c1 * c2)))
        if isinstance(n, RF):
            return self.div_by(n, d)
        return RF(n, d)

    def cancel(self, n, d):
        if isconst(n):
            return n, Fraction(1)
        c, m = monic(n)
        k = key(m)
        if k in d:
            p, e = d[k]
            if e == 1:
                del d[k]
            else:
                d[k] = (p, e - 1)
            return ONE, c
        return n, Fraction(1)

    def inv(self, a):
        if not a.n:
            raise NotRational('division by zero')
        num = ONE
        for k, (p, e) in a.d.items():
            for _ in range(e):
                num = pmul(num, p)
        if isconst(a.n):
            return RF(pmul(num, const(1 / a.n[()])))
        # split off monomial factors
        n = a.n
        d = {}
        common = None
        for m in n:
            dm = dict(m)
            common = dm if common is None else dict((v, min(e, dm[v])) for v, e in common.items() if v in dm)
        if common:
            inv = tuple((v, -e) for v, e in common.items())
            n = dict((mmul(m, inv), c) for m, c in n.items())
            for v, e in common.items():
                p = {((v, 1),): Fraction(1)}
                d[key(p)] = (p, e)
        if isconst(n):
            return RF(pmul(num, const(1 / n[()])), d)
        c, m = monic(n)
        k = key(m)
        d[k] = (m, 1 + d.get(k, (m, 0))[1])
        return RF(pmul(num, const(1 / c)), d)

    def reduce(self, n):
        """replace squares of square roots"""
        if not self.inverse:
            return n
        out = None
        rest = {}
        for m, c in n.items():
            hit = [(v, e) for v, e in m if v in self.inverse and e >= 2]
            if not hit:
                rest[m] = c
                continue
            v, e = hit[0]
            q = mmul(m, ((v, -2 * (e // 2)),))
            t = RF({q: c})
            for _ in range(e // 2):
                t = self.mul(t, self.inverse[v])
            out = t if out is None else self.add(out, t)
        if out is None:
            return n
        return self.add(out, RF(rest)) if rest else out

    # ---- atoms
    def atom(self, tag, term=None):
        if tag not in self.ids:
            self.ids[tag] = len(self.atoms)
            self.atoms.append(term if term is not None else tag)
        return self.ids[tag]

    def var(self, i):
        return RF({((i, 1),): Fraction(1)})

    def zero(self, a):
        return not a.n

    def same(self, a, b):
        return self.zero(self.add(a, b, -1))

    def norm(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        self.keep.append(e)
        r = self._norm(e)
        self.cache[k] = r
        return r

    def _norm(self, e):
        if z3.is_int_value(e):
            return RF(const(e.as_long()))
        if z3.is_rational_value(e):
            return RF(const(Fraction(e.numerator_as_long(), e.denominator_as_long())))
        if z3.is_add(e):
            r = self.norm(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.norm(c))
            return r
        if z3.is_sub(e):
            r = self.norm(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.norm(c), -1)
            return r
        if z3.is_mul(e):
            r = self.norm(e.arg(0))
            for c in e.children()[1:]:
                r = self.mul(r, self.norm(c))
            return r
        if z3.is_div(e):
            return self.mul(self.norm(e.arg(0)), self.inv(self.norm(e.arg(1))))
        kind = e.decl().kind()
        if kind == z3.Z3_OP_UMINUS:
            return self.add(RF({}), self.norm(e.arg(0)), -1)
        if kind == z3.Z3_OP_TO_REAL:
            if e.arg(0).decl().kind() in (z3.Z3_OP_UNINTERPRETED,) or z3.is_int_value(e.arg(0)):
                return self.norm(e.arg(0))
            c = e.arg(0)
            if z3.is_add(c) or z3.is_mul(c) or z3.is_sub(c):
                return self.norm(c)
            return self.var(self.atom(e.sexpr(), e))
        if kind == z3.Z3_OP_POWER and (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1))):
            ex = e.arg(1)
            q = Fraction(ex.as_long()) if z3.is_int_value(ex) else Fraction(ex.numerator_as_long(),
                                                                            ex.denominator_as_long())
            if q.denominator == 1 and abs(q) <= 16:
                b = self.norm(e.arg(0))
                if q < 0:
                    b = self.inv(b)
                r = RF(ONE)
                for _ in range(abs(int(q))):
                    r = self.mul(r, b)
                return r
        if kind == z3.Z3_OP_UNINTERPRETED and e.num_args():
            return self.app(e)
        return self.var(self.atom(e.sexpr(), e))

    def app(self, e):
        f = e.decl().name()
        if any(c.sort().kind() not in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT) for c in e.children()):
            return self.var(self.atom(e.sexpr(), e))
        args = [self.norm(c) for c in e.children()]
        for a, r in self.apps.get(f, []):
            if all(self.same(x, y) for x, y in zip(a, args)):
                return r
        if f == 'exp' and len(args) == 1:
            for a, r in self.apps.get(f, []):
                if self.zero(self.add(a[0], args[0])):
                    return self.inv(r)
            if self.zero(args[0]):
                return RF(ONE)
        if f in ('tanh', 'sinh', 'sin', 'atan', 'abs') and len(args) == 1 and self.zero(args[0]):
            return RF({})
        if f in ('tanh', 'sinh', 'sin', 'atan', 'cos', 'cosh') and len(args) == 1:
            for a, r in self.apps.get(f, []):
                if self.zero(self.add(a[0], args[0])):
                    return r if f in ('cos', 'cosh') else self.mul(RF(const(Fraction(-1))), r)
        i = self.atom('%s#%d' % (f, len(self.atoms)), e)
        if f == 'sqrt':
            self.inverse[i] = args[0]
        r = self.var(i)
        self.apps.setdefault(f, []).append((args, r))
        return r

    def identical(self, a, b):
        return self.same(self.norm(a), self.norm(b))

    def value(self, a, point):
        """numeric value of an RF at a point {atom id: number}"""
        def pv(p):
            s = Fraction(0)
            for m, c in p.items():
                t = c
                for v, e in m:
                    t *= point[v] ** e
                s += t
            return s
        d = Fraction(1)
        for p, e in a.d.values():
            d *= pv(p) ** e
        if d == 0:
            return None
        return pv(a.n) / d


def prove_identity(eng, lhs, rhs, name, info=None, samples=None):
    """obligation: lhs == rhs as rational functions of their atoms.

    Proved formally; refuted by a point of the assumed domain (path condition
    checked by the solver) where the two sides differ, when they are rational
    in variables alone; otherwise left to the SMT solver."""
    import time
    from .engine import Obligation
    t = time.time()
    ob = eng.obls.get(name)
    if ob is None:
        ob = eng.obls[name] = Obligation(name)
    lhs = z3.simplify(lhs) if z3.is_expr(lhs) else z3.RealVal(lhs)
    rhs = z3.simplify(rhs) if z3.is_expr(rhs) else z3.RealVal(rhs)
    lhs, rhs = no_ite(eng, lhs), no_ite(eng, rhs)
    try:
        R = Ring()
        ok = R.identical(lhs, rhs)
    except NotRational:
        ok = None
    eng.solver_time += time.time() - t
    if ok:
        ob.add('proved', None, 'ratfun')
        return True
    if ok is False and eng.check(ms=2000) == z3.sat:
        m = eng.solver.model()
        v = m.eval(lhs - rhs, model_completion=True)
        if z3.is_rational_value(v) and v.numerator_as_long() != 0:
            ob.add('failed', {'path': list(eng.path_desc), 'goal': str(lhs == rhs)[:1500], 'info': info,
                              'model': str(m)[:3000]}, 'ratfun')
            if eng.verbose:
                print('  OBLIGATION %s: not an identity' % name)
            return False
    return eng.prove(lhs == rhs, name, info)


def no_ite(eng, e):
    """resolve the conditionals that the path condition decides"""
    seen = {}

    def rec(x):
        k = x.get_id()
        if k in seen:
            return seen[k][1]
        ch = x.children()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(x):
            c = ch[0]
            if eng.check(z3.Not(c)) == z3.unsat:
                r = rec(ch[1])
            elif eng.check(c) == z3.unsat:
                r = rec(ch[2])
            else:
                r = z3.If(c, rec(ch[1]), rec(ch[2]))
        elif ch and z3.is_arith(x):
            n = [rec(c) if z3.is_arith(c) else c for c in ch]
            r = x.decl()(*n) if not all(a.eq(b) for a, b in zip(n, ch)) else x
            if z3.is_add(x) and len(n) > 2 or z3.is_mul(x) and len(n) > 2:
                r = z3.Sum(n) if z3.is_add(x) else z3.Product(n)
        else:
            r = x
        seen[k] = (x, r)
        return r
    return rec(e)


# ---- derivatives ----------------------------------------------------------

def diff(e, x, table=None, memo=None):
    """symbolic partial derivative of a z3 real term with respect to x"""
    if memo is None:
        memo = {}
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = _diff(e, x, table, memo)
    memo[k] = (e, r)
    return r


def is_zero(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def _diff(e, x, table, memo):
    zero, one = z3.RealVal(0), z3.RealVal(1)
    if e.eq(x):
        return one
    if z3.is_int_value(e) or z3.is_rational_value(e) or e.num_args() == 0:
        return zero
    d = lambda u: diff(u, x, table, memo)
    ch = e.children()
    if z3.is_add(e):
        ts = [t for t in (d(c) for c in ch) if not is_zero(t)]
        return z3.Sum(ts) if ts else zero
    if z3.is_sub(e):
        r = d(ch[0])
        for c in ch[1:]:
            r = r - d(c)
        return r
    if z3.is_mul(e):
        terms = []
        for i in range(len(ch)):
            t = d(ch[i])
            if is_zero(t):
                continue
            for j in range(len(ch)):
                if j != i:
                    t = t * ch[j]
            terms.append(t)
        return z3.Sum(terms) if terms else zero
    if z3.is_div(e):
        u, v = ch
        du, dv = d(u), d(v)
        if is_zero(dv):
            return zero if is_zero(du) else du / v
        return du / v - u * dv / (v * v)
    kind = e.decl().kind()
    if kind == z3.Z3_OP_UMINUS:
        return -d(ch[0])
    if kind == z3.Z3_OP_TO_REAL:
        return zero
    if kind == z3.Z3_OP_POWER and (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
        n = ch[1]
        n = Fraction(n.as_long()) if z3.is_int_value(n) else Fraction(n.numerator_as_long(), n.denominator_as_long())
        if n == 2:
            return 2 * ch[0] * d(ch[0])
        return z3.Q(n.numerator, n.denominator) * ch[0] ** z3.Q((n - 1).numerator, (n - 1).denominator) * d(ch[0])
    if kind == z3.Z3_OP_ITE:
        a, b = d(ch[1]), d(ch[2])
        return zero if is_zero(a) and is_zero(b) else z3.If(ch[0], a, b)
    if kind == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
        u, f = ch[0], e.decl().name()
        du = d(u)
        if z3.is_rational_value(du) and du.numerator_as_long() == 0:
            return zero
        if f == 'exp':
            return e * du
        if f == 'tanh':
            return (1 - e * e) * du
        if f == 'sqrt':
            return du / (2 * e)
        if f == 'log':
            return du / u
        if f == 'sin':
            return e.decl().__class__ and z3.Function('cos', z3.RealSort(), z3.RealSort())(u) * du
        if f == 'cos':
            return -z3.Function('sin', z3.RealSort(), z3.RealSort())(u) * du
        if table and f in table:
            return table[f](u, e) * du
    if kind == z3.Z3_OP_UNINTERPRETED and table and e.decl().name() in table:
        # a function of several arguments with known partial derivatives
        parts = table[e.decl().name()](ch, e)
        return z3.Sum([p * d(c) for p, c in zip(parts, ch)])
    raise NotRational('derivative of %s' % e.decl().name())


# ---- signs -----------------------------------------------------------------

def sign(eng, e, memo=None):
    """2 if e > 0, 1 if e >= 0, 0 if not known: structural, small terms by the solver"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    ch = e.children()
    r = 0
    if z3.is_rational_value(e):
        n = e.numerator_as_long()
        r = 2 if n > 0 else 1 if n == 0 else 0
    elif z3.is_add(e):
        ss = [sign(eng, c, memo) for c in ch]
        r = 0 if min(ss) == 0 else 2 if max(ss) == 2 else 1
    elif z3.is_mul(e):
        r = min(sign(eng, c, memo) for c in ch)
    elif z3.is_div(e) and sign(eng, ch[1], memo) == 2:
        r = sign(eng, ch[0], memo)
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'exp':
        r = 2
    if r == 0 and not z3.is_rational_value(e):
        if eng.valid(e > 0, ms=700)[0] == 'proved':
            r = 2
        elif eng.valid(e >= 0, ms=700)[0] == 'proved':
            r = 1
    memo[k] = (e, r)
    return r
