"""Run-time values of the symbolic interpreter."""
from fractions import Fraction
import z3

# opaque text (identifiers): only case mapping and equality are known
NameSort = z3.DeclareSort('Name')
name_upper = z3.Function('upper', NameSort, NameSort)
name_cat = z3.Function('cat', NameSort, NameSort, NameSort)
name_first = z3.Function('first', NameSort, NameSort)
name_low = z3.Function('lowf', NameSort, NameSort)


def is_name(v):
    return isinstance(v, z3.ExprRef) and v.sort() == NameSort

from .engine import Unsupported, rv, is_z3

_real = z3.RealSort()
_int = z3.IntSort()


class Poison(object):
    def __init__(self, why):
        self.why = why


class Opaque(object):
    """A value nothing is known about (formatted text, printed things...)."""

    def __init__(self, what=''):
        self.what = what


class Maybe(object):
    """None or a value; decided (by forking) when first looked at."""

    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val


class Cx(object):
    """Complex number with real/symbolic parts."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im


class Obj(object):
    def __init__(self, eng, cls, fields=None, tag=None):
        self.id = eng.newid(self)
        self.cls = cls
        self.fields = dict(fields or {})
        self.tag = tag
        self.cands = None      # candidate classes if cls is not decided yet
        self.lazy = None       # callable(name) -> value for missing fields
        self.decide_cls = None

    def __repr__(self):
        return '<Obj %s#%d %s>' % (getattr(self.cls, 'name', self.cls), self.id, self.tag or '')


class VList(object):
    """A Python list: concrete items, or a symbolic sequence."""

    def __init__(self, eng, items=None, seq=None):
        self.id = eng.newid(self)
        self.items = items
        self.seq = seq


class VDict(object):
    """A Python dict with concrete keys (insertion ordered)."""

    def __init__(self, eng, d=None):
        self.id = eng.newid(self)
        self.d = dict(d or {})


class VMap(object):
    """A Python dict with arbitrary (symbolic) keys of two kinds: 'n'
    (identifiers) and 'i' (integers).  d = (membership, value, size), the first
    two being functions per kind of key; values of one kind of key all have one
    type."""

    def __init__(self, eng, has, val, size):
        self.id = eng.newid(self)
        self.d = (dict(has), dict(val), size)

    def has(self, kind, k):
        f = self.d[0].get(kind)
        return False if f is None else f(k)

    def set(self, kind, k, v):
        has, val, size = self.d
        h0, v0 = has.get(kind), val.get(kind)
        was = False if h0 is None else h0(k)
        has, val = dict(has), dict(val)
        has[kind] = lambda q: zor(q == k, False if h0 is None else h0(q))
        val[kind] = (lambda q: v) if v0 is None else (lambda q: ite(q == k, v, v0(q)))
        self.d = (has, val, z3.simplify(z3.If(was, size, size + 1)) if is_z3(was) else size + (0 if was else 1))

    def merge(self, it, x):
        has, val, size = self.d
        has, val = dict(has), dict(val)
        for kind, h1 in x.d[0].items():
            h0, v0, v1 = has.get(kind), val.get(kind), x.d[1][kind]
            has[kind] = h1 if h0 is None else (lambda q, h0=h0, h1=h1: zor(h0(q), h1(q)))
            val[kind] = v1 if v0 is None else (lambda q, h1=h1, v0=v0, v1=v1: ite(h1(q), v1(q), v0(q)))
        n = z3.Int(it.eng.fresh('size'))
        a, b = to_int(size), to_int(x.d[2])
        it.eng.assume(z3.And(n >= a, n >= b, n <= a + b))
        self.d = (has, val, n)

    def drop(self, kind, k):
        has, val, size = self.d
        h0 = has[kind]
        has = dict(has)
        has[kind] = lambda q: zand(q != k, h0(q))
        self.d = (has, val, z3.simplify(to_int(size) - 1))


class SymSeq(object):
    """Sequence of symbolic length; get(i) gives the i-th value."""

    def __init__(self, length, get, name='seq'):
        self.length = length
        self.get = get
        self.name = name


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.lazy = {}
        self.loaded = False


class ExtModule(object):
    def __init__(self, name):
        self.name = name


class ExtClass(object):
    """A class of the host Python (exceptions, list, dict, object...)."""

    def __init__(self, py):
        self.py = py
        self.name = py.__name__

    def __eq__(self, o):
        return isinstance(o, ExtClass) and o.py is self.py

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.py)

    def __repr__(self):
        return 'ExtClass(%s)' % self.name


class Class(object):
    def __init__(self, name, module, bases, ns):
        self.name = name
        self.module = module
        self.bases = bases
        self.ns = ns
        self.mro = None
        self.qual = (module.name + '.' if module else '') + name

    def get_mro(self):
        if self.mro is None:
            out = [self]
            for b in self.bases:
                if isinstance(b, Class):
                    for c in b.get_mro():
                        if c not in out:
                            out.append(c)
                elif b not in out:
                    out.append(b)
            self.mro = out
        return self.mro

    def lookup(self, name):
        for c in self.get_mro():
            if isinstance(c, Class) and name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        if other in self.get_mro():
            return True
        if isinstance(other, ExtClass):
            if other.py is object:
                return True
            for c in self.get_mro():
                if isinstance(c, ExtClass) and issubclass(c.py, other.py):
                    return True
        return False

    def __repr__(self):
        return 'Class(%s)' % self.name


class Func(object):
    def __init__(self, node, module, closure, defaults, kwdefaults, qual, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.attrs = {}

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Prop(object):
    def __init__(self, fget=None, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Bound(object):
    def __init__(self, obj, func):
        self.obj = obj
        self.func = func


class Builtin(object):
    """Host-implemented function: fn(interp, args, kwargs)."""

    def __init__(self, name, fn, attrs=None):
        self.name = name
        self.fn = fn
        self.attrs = attrs or {}

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class SArr(object):
    """numpy array: shape (ints / z3 Int) and contents as a closure."""

    def __init__(self, eng, shape, fn, dtype='float'):
        self.id = eng.newid(self)
        self.shape = tuple(shape)
        self._fn = fn
        self.dtype = dtype
        self.base = None

    @property
    def fn(self):
        return self._fn

    @property
    def ndim(self):
        return len(self.shape)

    def setfn(self, fn):
        self._fn = fn


class SView(SArr):
    """A basic-slicing view: writes go to the base array."""

    def __init__(self, eng, base, shape, idxmap, inv):
        self.id = base.id
        self.shape = tuple(shape)
        self.base = base
        self.idxmap = idxmap      # view idx -> base idx
        self.inv = inv            # base idx -> (z3 cond, view idx)
        self.dtype = base.dtype

    @property
    def fn(self):
        bf, m = self.base.fn, self.idxmap
        return lambda *ix: bf(*m(*ix))

    def setfn(self, fn):
        bf, inv = self.base.fn, self.inv

        def newfn(*bix):
            cond, vix = inv(*bix)
            return ite(cond, fn(*vix), bf(*bix))
        self.base.setfn(newfn)


# ---- scalar helpers ------------------------------------------------------

def is_num(v):
    return isinstance(v, (int, Fraction, float)) or \
        (is_z3(v) and (z3.is_arith(v) or z3.is_bool(v)))


def is_sym(v):
    return is_z3(v) or (isinstance(v, Cx) and (is_z3(v.re) or is_z3(v.im)))


def is_intlike(v):
    return (isinstance(v, int)) or (is_z3(v) and (z3.is_int(v) or z3.is_bool(v)))


def to_real(v):
    if is_z3(v):
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(v):
            return z3.ToReal(v)
        return v
    return rv(v)


def to_int(v):
    if is_z3(v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v):
            return v
        return z3.ToInt(v)
    return z3.IntVal(int(v))


def num2(a, b):
    """bring two numbers (at least one z3) to one z3 sort"""
    if is_intlike(a) and is_intlike(b):
        return to_int(a), to_int(b)
    return to_real(a), to_real(b)


def as_cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, complex):
        return Cx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
    return Cx(v, 0)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = as_cx(a), as_cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b) and type(a) == type(b) and a == b:
            return a
        if (isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))) and \
           (isinstance(b, bool) or (is_z3(b) and z3.is_bool(b))):
            return z3.If(c, a if is_z3(a) else z3.BoolVal(a), b if is_z3(b) else z3.BoolVal(b))
        x, y = num2(a, b)
        return z3.If(c, x, y)
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if (isinstance(a, str) or z3.is_string(a)) and (isinstance(b, str) or z3.is_string(b)):
        return z3.If(c, z3.StringVal(a) if isinstance(a, str) else a,
                     z3.StringVal(b) if isinstance(b, str) else b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    raise Unsupported('cannot merge %r / %r' % (a, b))


def eqz(a, b):
    """a == b as bool or z3 Bool, for scalars."""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = as_cx(a), as_cx(b)
        return zand(eqz(a.re, b.re), eqz(a.im, b.im))
    if not is_z3(a) and not is_z3(b):
        return a == b
    if is_num(a) and is_num(b):
        if (is_z3(a) and z3.is_bool(a)) and (is_z3(b) and z3.is_bool(b)):
            return a == b
        if isinstance(a, float) or isinstance(b, float):
            f = a if isinstance(a, float) else b
            if f != f or f in (float('inf'), float('-inf')):
                return False
        x, y = num2(a, b)
        return x == y
    if z3.is_string(a) or z3.is_string(b):
        if isinstance(a, str):
            a = z3.StringVal(a)
        if isinstance(b, str):
            b = z3.StringVal(b)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        return False
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a == b
    return False


def zand(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def zor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def znot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def zbool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
