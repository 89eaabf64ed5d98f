"""Arithmetic on mixed concrete / symbolic numbers (floats = mathematical reals)."""
from fractions import Fraction
import math
import z3
from .engine import Unsupported, PyExc, is_z3, rv
from .values import *

R = z3.RealSort()
UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


PI = z3.Real('pi')


def norm_float(x):
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return x
        return Fraction(repr(x))
    return x


class Arith(object):
    """mix-in of the interpreter: self.eng, self.raise_py"""

    # -- transcendental functions as uninterpreted + instantiated axioms --
    def mathfn(self, name, x):
        eng = self.eng
        if isinstance(x, SArr):
            return self.map1(lambda v: self.mathfn(name, v), x)
        if isinstance(x, float):      # inf / nan
            f = getattr(math, name)
            return norm_float(f(x))
        if isinstance(x, Cx):
            if name == 'exp':
                e = self.mathfn('exp', x.re)
                return Cx(self.mul(e, self.mathfn('cos', x.im)), self.mul(e, self.mathfn('sin', x.im)))
            raise Unsupported('complex %s' % name)
        if not is_z3(x):
            if name == 'exp' and x == 0:
                return Fraction(1)
            if name in ('sin', 'tanh', 'sinh', 'atan', 'tan') and x == 0:
                return Fraction(0)
            if name in ('cos', 'cosh') and x == 0:
                return Fraction(1)
            if name == 'log' and x == 1:
                return Fraction(0)
            if name in ('sqrt', 'log', 'log10') and x < 0:
                self.raise_py(ValueError, 'math domain error')
            if name in ('log', 'log10') and x == 0:
                self.raise_py(ValueError, 'math domain error')
            if name == 'sqrt':
                n, d = Fraction(x).numerator, Fraction(x).denominator
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return Fraction(rn, rd)
            if name == 'log10':
                e = 0
                y = Fraction(x)
                while y >= 10:
                    y /= 10
                    e += 1
                while y < 1:
                    y *= 10
                    e -= 1
                if y == 1:
                    return Fraction(e)
        xr = z3.simplify(to_real(x))
        if name in ('sqrt', 'log', 'log10') and is_z3(x) and not self.numpy_math:
            if eng.branch(xr < 0 if name == 'sqrt' else xr <= 0):
                self.raise_py(ValueError, 'math domain error')
        f = uf(name, R, R)
        t = f(xr)
        key = (name, xr.sexpr())
        if name == 'exp':
            eng.fact_once(key, z3.And(t > 0, z3.Implies(xr == 0, t == 1), z3.Implies(xr > 0, t > 1),
                                      z3.Implies(xr < 0, t < 1), t >= 1 + xr))
            self.pairwise(name, xr, t, lambda a, fa, b, fb: z3.And(
                z3.Implies(a < b, fa < fb), z3.Implies(a == -b, fa * fb == 1)))
        elif name == 'sqrt':
            eng.fact_once(key, z3.Implies(xr >= 0, z3.And(t >= 0, t * t == xr)))
        elif name == 'log':
            eng.fact_once(key, z3.Implies(xr > 0, z3.And(z3.Implies(xr == 1, t == 0),
                          z3.Implies(xr > 1, t > 0), z3.Implies(xr < 1, t < 0), t <= xr - 1)))
            self.pairwise(name, xr, t, lambda a, fa, b, fb: z3.Implies(
                z3.And(a > 0, a < b), fa < fb))
        elif name == 'log10':
            eng.fact_once(key, z3.Implies(xr > 0, z3.And(z3.Implies(xr == 1, t == 0),
                          z3.Implies(xr > 1, t > 0), z3.Implies(xr < 1, t < 0))))
            self.pairwise(name, xr, t, lambda a, fa, b, fb: z3.Implies(
                z3.And(a > 0, a < b), fa < fb))
        elif name in ('sin', 'cos'):
            eng.fact_once(key, z3.And(t >= -1, t <= 1))
            if name == 'sin':
                eng.fact_once(key + (0,), z3.Implies(xr == 0, t == 0))
            else:
                eng.fact_once(key + (0,), z3.Implies(xr == 0, t == 1))
        elif name == 'tanh':
            # (machine tanh saturates at 1)
            eng.fact_once(key, z3.And(t >= -1, t <= 1, z3.Implies(xr > 0, t > 0),
                                      z3.Implies(xr == 0, t == 0), z3.Implies(xr < 0, t < 0)))
        return t

    numpy_math = False

    def pairwise(self, name, x, t, ax):
        seen = self.eng.cache.setdefault(('app', name), [])
        for (y, ty) in seen:
            if y.eq(x):
                return
        for (y, ty) in seen[:6]:
            self.eng.fact_once((name, 'pair', x.sexpr(), y.sexpr()), z3.And(ax(x, t, y, ty), ax(y, ty, x, t)))
        seen.append((x, t))

    # -- basic operations ------------------------------------------------
    def add(self, a, b):
        return self.arith('+', a, b)

    def sub(self, a, b):
        return self.arith('-', a, b)

    def mul(self, a, b):
        return self.arith('*', a, b)

    def div(self, a, b):
        return self.arith('/', a, b)

    def neg(self, a):
        if isinstance(a, Cx):
            return Cx(self.neg(a.re), self.neg(a.im))
        if isinstance(a, SArr):
            return self.map1(self.neg, a)
        if is_z3(a):
            if z3.is_bool(a):
                return -to_int(a)
            return -a
        if isinstance(a, complex):
            return -a
        return norm_float(-a)

    def arith(self, op, a, b):
        if isinstance(a, SArr) or isinstance(b, SArr):
            return self.map2(lambda x, y: self.arith(op, x, y), a, b)
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            return self.cxarith(op, as_cx(a), as_cx(b))
        if not is_num(a) or not is_num(b):
            raise Unsupported('arith %s on %r, %r' % (op, a, b))
        if not is_z3(a) and not is_z3(b):
            return self.carith(op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            return self.infarith(op, a, b)
        if op == '*':
            # exact zero / one shortcuts (0*x == 0: finite reals)
            for p, q in ((a, b), (b, a)):
                if not is_z3(p):
                    if p == 0 and not isinstance(p, bool):
                        return Fraction(0) if (isinstance(p, Fraction) or not is_intlike(q)) else 0
                    if p == 1 and isinstance(p, int):
                        return to_int(q) if is_z3(q) and z3.is_bool(q) else q
        if op in '+-':
            if not is_z3(b) and b == 0 and isinstance(b, int):
                return to_int(a) if z3.is_bool(a) else a
            if not is_z3(a) and a == 0 and op == '+' and isinstance(a, int):
                return to_int(b) if z3.is_bool(b) else b
        if op in '+-*':
            x, y = num2(a, b)
            return x + y if op == '+' else x - y if op == '-' else x * y
        if op == '/':
            x, y = to_real(a), to_real(b)
            if self.div_guard and is_z3(b) and self.eng.branch(y == 0):
                self.raise_py(ZeroDivisionError, 'division by zero')
            elif not is_z3(b) and b == 0:
                self.raise_py(ZeroDivisionError, 'division by zero')
            return x / y
        if op in ('//', '%'):
            if is_intlike(a) and is_intlike(b):
                x, y = to_int(a), to_int(b)
                if self.eng.branch(y == 0):
                    self.raise_py(ZeroDivisionError, 'modulo by zero')
                if self.eng.branch(y > 0):
                    return x / y if op == '//' else x % y
                q = z3.If((-x) % (-y) == 0, (-x) / (-y), (-x) / (-y))
                # floor(x/y) for y<0: floor((-x)/(-y))
                return q if op == '//' else x - y * q
            x, y = to_real(a), to_real(b)
            if self.eng.branch(y == 0):
                self.raise_py(ZeroDivisionError, 'modulo by zero')
            fl = z3.ToReal(z3.ToInt(x / y))
            return fl if op == '//' else x - y * fl
        if op == '**':
            if isinstance(b, int) and not isinstance(b, bool) or (isinstance(b, Fraction) and b.denominator == 1):
                n = int(b)
                if abs(n) <= 8:
                    r = Fraction(1) if (isinstance(b, Fraction) or not is_intlike(a)) else 1
                    for _ in range(abs(n)):
                        r = self.mul(r, a)
                    if n < 0:
                        r = self.div(1, r)
                    return r
            if isinstance(b, Fraction) and b == Fraction(1, 2):
                return self.mathfn('sqrt', a)
            return self.powfn(a, b)
        raise Unsupported('operator %s' % op)

    div_guard = True

    def powfn(self, a, b):
        x, y = z3.simplify(to_real(a)), z3.simplify(to_real(b))
        t = uf('pow', R, R, R)(x, y)
        self.eng.fact_once(('pow', x.sexpr(), y.sexpr()), z3.And(
            z3.Implies(x > 0, t > 0), z3.Implies(y == 0, t == 1), z3.Implies(y == 1, t == x)))
        return t

    def carith(self, op, a, b):
        try:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == '/':
                if b == 0:
                    self.raise_py(ZeroDivisionError, 'division by zero')
                if isinstance(a, float) or isinstance(b, float):
                    r = float(a) / float(b)
                else:
                    r = Fraction(a) / Fraction(b)
            elif op in ('//', '%'):
                if b == 0:
                    self.raise_py(ZeroDivisionError, 'modulo by zero')
                r = a // b if op == '//' else a % b
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    r = Fraction(r)
            elif op == '**':
                if isinstance(b, int):
                    if isinstance(a, int) and b < 0:
                        r = Fraction(a) ** b
                    else:
                        r = a ** b
                elif isinstance(b, Fraction) and b.denominator == 1 and abs(b) < 400:
                    if a == 0 and b < 0:
                        self.raise_py(ZeroDivisionError, '0.0 ** negative')
                    r = Fraction(a) ** int(b)
                elif isinstance(b, Fraction) and b == Fraction(1, 2):
                    return self.mathfn('sqrt', a)
                elif a == 1:
                    r = Fraction(1)
                else:
                    return self.powfn(a, b)
            else:
                raise Unsupported('operator %s' % op)
        except (OverflowError, TypeError) as e:
            raise Unsupported('concrete arithmetic: %s' % e)
        return norm_float(r)

    def infarith(self, op, a, b):
        inf = float('inf')
        if isinstance(b, float) and abs(b) == inf:
            if op == '/':
                return Fraction(0)
            if op in '+-':
                return b if op == '+' else -b
        if isinstance(a, float) and abs(a) == inf:
            if op in '+-':
                return a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and abs(x) == inf and is_z3(y) and (op == '*' or op == '/' and x is a):
                y = to_real(y)
                if self.eng.branch(y > 0):
                    return x
                if self.eng.branch(y < 0):
                    return -x
                if op == '/':
                    self.raise_py(ZeroDivisionError, 'float division by zero')
                return float('nan')
        raise Unsupported('inf/nan arithmetic')

    def cxarith(self, op, a, b):
        if op == '+':
            return Cx(self.add(a.re, b.re), self.add(a.im, b.im))
        if op == '-':
            return Cx(self.sub(a.re, b.re), self.sub(a.im, b.im))
        if op == '*':
            return Cx(self.sub(self.mul(a.re, b.re), self.mul(a.im, b.im)),
                      self.add(self.mul(a.re, b.im), self.mul(a.im, b.re)))
        if op == '/':
            if not is_z3(b.im) and b.im == 0:
                return Cx(self.div(a.re, b.re), self.div(a.im, b.re))
            d = self.add(self.mul(b.re, b.re), self.mul(b.im, b.im))
            n = self.cxarith('*', a, Cx(b.re, self.neg(b.im)))
            return Cx(self.div(n.re, d), self.div(n.im, d))
        raise Unsupported('complex %s' % op)

    def cmp(self, op, a, b):
        """scalar comparison -> bool or z3 Bool"""
        if op == '==':
            return eqz(a, b)
        if op == '!=':
            return znot(eqz(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if not is_num(a) or not is_num(b):
            raise Unsupported('compare %r %s %r' % (a, op, b))
        if not is_z3(a) and not is_z3(b):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        for v, o, flip in ((a, b, False), (b, a, True)):
            if isinstance(v, float):
                if v != v:
                    return False
                # v = +-inf against a finite value
                r = (v > 0) if op in ('>', '>=') else (v < 0)
                return (not r) if flip else r
        x, y = num2(a, b)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def absv(self, a):
        if isinstance(a, SArr):
            return self.map1(self.absv, a)
        if isinstance(a, Cx):
            if not is_z3(a.im) and a.im == 0:
                return self.absv(a.re)
            return self.mathfn('sqrt', self.add(self.mul(a.re, a.re), self.mul(a.im, a.im)))
        if is_z3(a):
            if z3.is_bool(a):
                return to_int(a)
            return z3.If(a >= 0, a, -a)
        return abs(a)

    def floorv(self, a):
        if is_z3(a):
            return a if z3.is_int(a) else z3.ToInt(to_real(a))
        return math.floor(a)

    def truncv(self, a):
        if is_z3(a):
            if z3.is_bool(a):
                return to_int(a)
            if z3.is_int(a):
                return a
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        if isinstance(a, float):
            self.raise_py(OverflowError, 'cannot convert float')
        return int(a)
