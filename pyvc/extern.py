"""Models of the host: builtins, list/dict/str methods and the parts of the
standard library and numpy the verified functions use.

Every entry is an *assumed* contract on code outside /repo; the list of the
entries actually used by a run is reported in the evidence file."""
import math
import re
import operator
from fractions import Fraction
import z3
from .engine import Unsupported, PyExc, is_z3
from .values import *
from .arith import norm_float, PI, uf

_EXC = ['BaseException', 'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
        'NameError', 'UnboundLocalError', 'ZeroDivisionError', 'OverflowError', 'StopIteration',
        'RuntimeError', 'NotImplementedError', 'AssertionError', 'ImportError', 'IOError', 'OSError',
        'SystemExit', 'KeyboardInterrupt', 'ArithmeticError', 'LookupError', 'FloatingPointError',
        'RuntimeWarning', 'Warning', 'UserWarning', 'FutureWarning', 'DeprecationWarning', 'EOFError',
        'UnicodeDecodeError', 'UnicodeEncodeError', 'MemoryError', 'ModuleNotFoundError', 'FileNotFoundError']


class LinAlgError(Exception):
    pass


class ndarray(object):
    pass


class function(object):
    pass


class module(object):
    pass


def B(name):
    def deco(fn):
        fn._bname = name
        return fn
    return deco


class Extern(object):

    def init_extern(self):
        b = self.builtins = {}
        for n in _EXC:
            b[n] = ExtClass(getattr(__builtins__, n, None) if not isinstance(__builtins__, dict)
                            else __builtins__[n])
        for t in (int, float, complex, str, list, tuple, dict, set, bool, object, type, slice, frozenset):
            b[t.__name__] = ExtClass(t)
        b['True'], b['False'], b['None'] = True, False, None
        b['NotImplemented'] = Opaque('NotImplemented')
        b['__file__'] = 'file'
        for nm in dir(self):
            if nm.startswith('bi_'):
                f = getattr(type(self), nm)
                b[nm[3:]] = Builtin(nm[3:], f)
        self.np = self._np()
        self.mathm = self._math()

    # ------------------------------------------------------------ builtins
    def bi_len(self, a, k):
        v = self.force(a[0])
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, VList):
            return len(v.items) if v.items is not None else v.seq.length
        if isinstance(v, SymSeq):
            return v.length
        if isinstance(v, Opaque) and v.what in ('format', 'fstring', 'join', 'str', 'repr', 'op'):
            n = z3.Int(self.eng.fresh('length_of_text'))
            self.eng.assume(n >= 0)
            return n
        if is_name(v):
            n = uf('length_of_text', v.sort(), z3.IntSort())(v)
            self.eng.fact_once(('len', v.sexpr()), n >= 0)
            return n
        if isinstance(v, VDict):
            return len(v.d)
        if isinstance(v, VMap):
            return v.d[2]
        if isinstance(v, SArr):
            if v.ndim == 0:
                self.raise_py(TypeError, 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, Obj):
            f = self.lookup_cls(v, '__len__')
            if f is not None:
                return self.call(f, [v], {})
            if '__seq__' in v.fields:
                return self.bi_len([v.fields['__seq__']], {})
            if '__lenval__' in v.fields:
                return v.fields['__lenval__']
        if is_z3(v) and z3.is_string(v):
            return z3.Length(v)
        if v is None or is_num(v):
            self.raise_py(TypeError, 'object has no len()')
        raise Unsupported('len(%r)' % (v,))

    def bi_range(self, a, k):
        a = [self.force(x) for x in a]
        for x in a:
            if isinstance(x, Fraction) or (is_z3(x) and z3.is_real(x)) or x is None:
                self.raise_py(TypeError, 'float in range')
        lo, hi, st = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, st = a
        if not any(is_z3(x) for x in (lo, hi, st)):
            return tuple(range(lo, hi, st)) if (hi - lo) // st < 5000 else self._rng(lo, hi, st)
        if is_z3(st):
            raise Unsupported('symbolic range step')
        if st == 1:
            ln = z3.simplify(to_int(hi) - to_int(lo))
            if self.eng.branch(ln < 0):
                ln = 0
            return SymSeq(ln, lambda i: z3.simplify(to_int(lo) + to_int(i)), 'range')
        if st == -1:
            ln = z3.simplify(to_int(lo) - to_int(hi))
            if self.eng.branch(ln < 0):
                ln = 0
            return SymSeq(ln, lambda i: z3.simplify(to_int(lo) - to_int(i)), 'range')
        raise Unsupported('range step')

    def _rng(self, lo, hi, st):
        raise Unsupported('huge range')

    bi_xrange = bi_range

    def bi_enumerate(self, a, k):
        s = self.as_seq(a[0])
        st = a[1] if len(a) > 1 else k.get('start', 0)
        if isinstance(s, SymSeq):
            return SymSeq(s.length, lambda i: (z3.simplify(to_int(i) + to_int(st)), s.get(i)), 'enumerate')
        if not isinstance(s, list):
            s = self.concrete_iter(a[0])
        return tuple((self.add(i, st), x) for i, x in enumerate(s))

    def bi_zip(self, a, k):
        ss = [self.as_seq(x) for x in a]
        if all(isinstance(s, list) for s in ss):
            return tuple(zip(*ss))
        sy = [s for s in ss if isinstance(s, SymSeq)]
        ln = sy[0].length
        for s in ss:
            l2 = s.length if isinstance(s, SymSeq) else len(s)
            if not self.eng.branch(eqz(l2, ln)):
                raise Unsupported('zip of different symbolic lengths')

        def get(i):
            return tuple(s.get(i) if isinstance(s, SymSeq) else self.getitem(tuple(s), i) for s in ss)
        return SymSeq(ln, get, 'zip')

    def bi_abs(self, a, k):
        v = self.force(a[0])
        if isinstance(v, Opaque):
            return v
        return self.absv(v)

    def _minmax(self, a, k, op):
        if len(a) == 1:
            it = self.as_seq(a[0])
            if isinstance(it, SymSeq):
                raise Unsupported('min/max of symbolic sequence')
            if not it:
                if 'default' in k:
                    return k['default']
                self.raise_py(ValueError, 'empty sequence')
        else:
            it = a
        key = k.get('key')
        r = self.force(it[0])
        for x in it[1:]:
            x = self.force(x)
            kx, kr = (self.call(key, [x]), self.call(key, [r])) if key is not None else (x, r)
            c = self.cmp(op, kx, kr)
            if is_num(x) and is_num(r) and not isinstance(c, bool):
                r = ite(c, x, r)
            else:
                r = x if self.eng.branch(c) else r
        return r

    def bi_max(self, a, k):
        return self._minmax(a, k, '>')

    def bi_min(self, a, k):
        return self._minmax(a, k, '<')

    def bi_sum(self, a, k):
        s = self.as_seq(a[0])
        r = a[1] if len(a) > 1 else 0
        if isinstance(s, SymSeq):
            raise Unsupported('sum of symbolic sequence')
        for x in s:
            r = self.add(r, self.force(x))
        return r

    def bi_isinstance(self, a, k):
        c = a[1]
        return self.isinstance(a[0], tuple(c) if isinstance(c, tuple) else c)

    def bi_issubclass(self, a, k):
        x, y = a
        if isinstance(x, Class):
            return x.issub(y)
        return issubclass(x.py, y.py)

    def bi_hasattr(self, a, k):
        return self.hasattr(a[0], a[1])

    def bi_getattr(self, a, k):
        if not isinstance(a[1], str):
            raise Unsupported('getattr name')
        if len(a) > 2:
            return self.getattr(a[0], a[1], a[2], True)
        return self.getattr(a[0], a[1])

    def bi_setattr(self, a, k):
        self.setattr(a[0], a[1], a[2])

    def bi_callable(self, a, k):
        v = self.force(a[0])
        if isinstance(v, (Func, Builtin, Bound, Class, ExtClass)):
            return True
        if isinstance(v, Obj):
            return self.lookup_cls(v, '__call__') is not None
        return False

    def bi_print(self, a, k):
        return None

    def bi_repr(self, a, k):
        return Opaque('repr')

    def bi_id(self, a, k):
        v = self.force(a[0])
        if hasattr(v, 'id'):
            return v.id
        raise Unsupported('id()')

    def bi_iter(self, a, k):
        s = self.as_seq(a[0])
        if isinstance(s, SymSeq):
            return s
        o = Obj(self.eng, ExtClass(object), {}, tag='iter')
        o.fields['__items__'] = list(s)
        o.fields['__pos__'] = 0
        return o

    def bi_next(self, a, k):
        o = self.force(a[0])
        if isinstance(o, Obj) and '__items__' in o.fields:
            p = o.fields['__pos__']
            if p >= len(o.fields['__items__']):
                if len(a) > 1:
                    return a[1]
                self.raise_py(StopIteration)
            self.log_mod(('attr', o.id, '__pos__'), o)
            o.fields['__pos__'] = p + 1
            return o.fields['__items__'][p]
        if isinstance(o, Obj):
            f = self.lookup_cls(o, '__next__')
            if f is not None:
                return self.call(f, [o], {})
        raise Unsupported('next()')

    def bi_map(self, a, k):
        s = self.as_seq(a[1])
        if isinstance(s, SymSeq):
            return SymSeq(s.length, lambda i: self.call(a[0], [s.get(i)]), 'map')
        if len(a) > 2:
            ss = [self.concrete_iter(x) for x in a[1:]]
            return VList(self.eng, [self.call(a[0], list(x)) for x in zip(*ss)])
        return VList(self.eng, [self.call(a[0], [x]) for x in s])

    def bi_filter(self, a, k):
        s = self.concrete_iter(a[1])
        return VList(self.eng, [x for x in s if self.test(x if a[0] is None else self.call(a[0], [x]))])

    def bi_sorted(self, a, k):
        s = self.concrete_iter(a[0])
        if all(not is_z3(x) and isinstance(x, (int, Fraction, str)) for x in s) and 'key' not in k:
            return VList(self.eng, sorted(s, reverse=bool(k.get('reverse', False))))
        if all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in s) and len(set(x[0] for x in s)) == len(s) and 'key' not in k:
            return VList(self.eng, sorted(s, key=lambda x: x[0], reverse=bool(k.get('reverse', False))))
        raise Unsupported('sorted of symbolic values')

    def bi_reversed(self, a, k):
        return tuple(reversed(self.concrete_iter(a[0])))

    def bi_any(self, a, k):
        return zor(*[self.truth(x) for x in self.concrete_iter(a[0])])

    def bi_all(self, a, k):
        return zand(*[self.truth(x) for x in self.concrete_iter(a[0])])

    def bi_round(self, a, k):
        v = self.force(a[0])
        if not is_z3(v) and len(a) == 1:
            return round(v)
        x = to_real(v)
        if len(a) == 1:
            x = z3.simplify(x)
            t = z3.ToInt(x + z3.Q(1, 2))
            # halves go to the even neighbour
            return z3.If(z3.And(z3.ToReal(t) - x == z3.Q(1, 2), t % 2 == 1), t - 1, t)
        raise Unsupported('round')

    def bi_chr(self, a, k):
        return chr(a[0])

    def bi_ord(self, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        raise Unsupported('ord')

    def bi_pow(self, a, k):
        return self.arith('**', a[0], a[1])

    def bi_open(self, a, k):
        raise Unsupported('open()')

    def bi_vars(self, a, k):
        raise Unsupported('vars()')

    def bi_globals(self, a, k):
        raise Unsupported('globals()')

    def bi_locals(self, a, k):
        raise Unsupported('locals()')

    # ------------------------------------------------------------ types
    def type_of(self, v):
        v = self.force(v)
        if v is None:
            return ExtClass(type(None))
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return ExtClass(bool)
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
            return ExtClass(int)
        if isinstance(v, (Fraction, float)) or (is_z3(v) and z3.is_real(v)):
            return ExtClass(float)
        if isinstance(v, (Cx, complex)):
            return ExtClass(complex)
        if isinstance(v, str) or (is_z3(v) and (z3.is_string(v) or is_name(v))) or isinstance(v, Opaque):
            return ExtClass(str)
        if isinstance(v, tuple):
            return ExtClass(tuple)
        if isinstance(v, (VList, SymSeq)):
            return ExtClass(list)
        if isinstance(v, (VDict, VMap)):
            return ExtClass(dict)
        if isinstance(v, SArr):
            return ExtClass(ndarray)
        if isinstance(v, Obj):
            return self.cls_of(v)
        if isinstance(v, (Func, Bound, Builtin)):
            return ExtClass(function)
        if isinstance(v, (Module, ExtModule)):
            return ExtClass(module)
        if isinstance(v, (Class, ExtClass)):
            return ExtClass(type)
        raise Unsupported('type(%r)' % (v,))

    def call_extclass(self, c, a, k):
        py = c.py
        a = [self.force(x) for x in a]
        if py is type:
            if len(a) == 1:
                return self.type_of(a[0])
            raise Unsupported('type()')
        if py is int:
            if not a:
                return 0
            v = a[0]
            if isinstance(v, SArr) and v.ndim == 0:
                v = v.fn()
            if isinstance(v, SArr):
                v = self._one(v)
            if is_num(v):
                return self.truncv(v)
            if isinstance(v, str):
                try:
                    return int(v, *a[1:])
                except ValueError as e:
                    self.raise_py(ValueError, str(e))
            if v is None or isinstance(v, (VList, tuple, VDict, Cx)):
                self.raise_py(TypeError, 'int()')
            if isinstance(v, Obj):
                f = self.lookup_cls(v, '__int__')
                if f is not None:
                    return self.call(f, [v])
            raise Unsupported('int(%r)' % (v,))
        if py is float:
            if not a:
                return Fraction(0)
            v = a[0]
            if isinstance(v, SArr):
                v = self._one(v)
            if is_num(v):
                if isinstance(v, float):
                    return v
                return to_real(v) if is_z3(v) else Fraction(v)
            if isinstance(v, str):
                try:
                    return norm_float(float(v))
                except ValueError as e:
                    self.raise_py(ValueError, str(e))
            if isinstance(v, Cx):
                self.raise_py(TypeError, 'float(complex)')
            if v is None or isinstance(v, (VList, tuple, VDict)):
                self.raise_py(TypeError, 'float()')
            if isinstance(v, Obj):
                f = self.lookup_cls(v, '__float__')
                if f is not None:
                    return self.call(f, [v])
            raise Unsupported('float(%r)' % (v,))
        if py is complex and a and isinstance(a[0], str):
            c = complex(a[0])
            return Cx(Fraction(repr(c.real)), Fraction(repr(c.imag)))
        if py is complex:
            if len(a) == 1:
                return as_cx(a[0])
            return Cx(a[0], a[1])
        if py is bool:
            return self.truth(a[0]) if a else False
        if py is str and a and is_name(self.force(a[0])):
            return self.force(a[0])
        if py is str:
            if not a:
                return ''
            if isinstance(a[0], str) or (is_z3(a[0]) and z3.is_string(a[0])):
                return a[0]
            if isinstance(a[0], int):
                return str(a[0])
            if is_z3(a[0]) and z3.is_int(a[0]):
                return z3.If(a[0] >= 0, z3.IntToStr(a[0]), z3.Concat(z3.StringVal('-'), z3.IntToStr(-a[0])))
            return Opaque('str')
        if py in (list,):
            if not a:
                return VList(self.eng, [])
            s = self.as_seq(a[0])
            if isinstance(s, SymSeq):
                return VList(self.eng, None, s)
            if not isinstance(s, list):
                s = self.concrete_iter(a[0])
            return VList(self.eng, list(s))
        if py is tuple:
            if not a:
                return ()
            s = self.as_seq(a[0])
            if isinstance(s, SymSeq):
                return s
            return tuple(self.concrete_iter(a[0]))
        if py in (set, frozenset):
            if not a:
                return VList(self.eng, [])
            out = []
            for x in self.concrete_iter(a[0]):
                if not any(self.eng.branch(self.truth(self.cmpop('==', x, y))) for y in out):
                    out.append(x)
            return VList(self.eng, out)
        if py is dict:
            d = VDict(self.eng)
            if a:
                if isinstance(a[0], VDict):
                    d.d.update(a[0].d)
                else:
                    for kv in self.concrete_iter(a[0]):
                        kk, vv = self.unpack(kv, 2)
                        d.d[self.dkey(kk)] = vv
            d.d.update(k)
            return d
        if py is slice:
            return slice(*(a if len(a) != 1 else [None, a[0]]))
        if py is object:
            return Obj(self.eng, c)
        if isinstance(py, type) and issubclass(py, BaseException):
            return Obj(self.eng, c, {'args': tuple(a)})
        raise Unsupported('call of %s' % c.name)

    def _one(self, v):
        n = 1
        for s in v.shape:
            if is_z3(s):
                if not self.eng.branch(eqz(s, 1)):
                    self.raise_py(TypeError, 'only size-1 arrays can be converted')
                continue
            n *= s
        if n != 1:
            self.raise_py(TypeError, 'only size-1 arrays can be converted')
        return v.fn(*([0] * v.ndim))

    def extclass_attr(self, c, name):
        if name == '__name__':
            return c.name
        py = c.py
        if py is list:
            if name == '__init__':
                def init(it, a, k):
                    o = a[0]
                    o.fields['__seq__'] = it.call_extclass(ExtClass(list), a[1:], {})
                return Builtin('list.__init__', init)
            return Builtin('list.' + name, lambda it, a, k: it.call(it.host_method(a[0], name), a[1:], k))
        if py is dict and name == 'fromkeys':
            return Builtin('dict.fromkeys', lambda it, a, k: VDict(
                it.eng, dict((it.dkey(x), a[1] if len(a) > 1 else None) for x in it.concrete_iter(a[0]))))
        if isinstance(py, type) and issubclass(py, BaseException) and name == '__init__':
            def einit(it, a, k):
                a[0].fields['args'] = tuple(a[1:])
            return Builtin('exc.__init__', einit)
        if name == '__init__':
            return Builtin('object.__init__', lambda it, a, k: None)
        if py is str:
            return Builtin('str.' + name, lambda it, a, k: it.call(it.host_method(a[0], name), a[1:], k))
        return None

    # ------------------------------------------------------------ strings
    def str_format(self, fmt, args):
        if isinstance(fmt, str):
            vals = args if isinstance(args, tuple) else (args,)
            if isinstance(args, VDict):
                if all(not is_z3(x) and isinstance(x, (str, int)) for x in args.d.values()):
                    try:
                        return fmt % args.d
                    except Exception:
                        return Opaque('format')
                return Opaque('format')
            if self.texts and any(is_name(self.force(x)) for x in vals):
                bits = re.split(r'(%[^a-zA-Z%]*[a-zA-Z%])', fmt)
                if all(b in ('%s', '%%') for b in bits[1::2]) and all(isinstance(self.force(x), str) or is_name(self.force(x)) for x in vals) \
                        and len([b for b in bits[1::2] if b == '%s']) == len(vals):
                    vs = iter(vals)
                    return self.text([b if i % 2 == 0 else '%' if b == '%%' else self.force(next(vs)) for i, b in enumerate(bits)])
                return Opaque('format')
            if all(isinstance(self.force(x), (str, int)) and not isinstance(x, bool) for x in vals):
                try:
                    return fmt % tuple(vals)
                except TypeError as e:
                    self.raise_py(TypeError, str(e))
                except ValueError:
                    return Opaque('format')
        return Opaque('format')

    def str_method(self, s, name):
        conc = isinstance(s, str)
        pure = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'startswith', 'endswith', 'find', 'rfind',
                'replace', 'isdigit', 'isalpha', 'join', 'count', 'index', 'format', 'title', 'capitalize',
                'isalnum', 'splitlines', 'isspace', 'partition', 'rpartition', 'zfill', 'ljust', 'rjust', 'center',
                'encode', 'decode', 'islower', 'isupper', 'rsplit', 'isnumeric')
        if name not in pure:
            return None

        def fn(it, a, k):
            a = [it.force(x) for x in a]
            if name == 'join':
                items = it.as_seq(a[0])
                if isinstance(items, SymSeq) or not all(isinstance(x, str) for x in items):
                    return Opaque('join')
                return s.join(items) if conc else Opaque('join')
            if name == 'format' and it.texts and conc and not k and a and '{' in s and \
                    all(b == '{}' for b in re.findall(r'\{[^}]*\}', s)) and s.count('{}') == len(a) and \
                    all(isinstance(x, str) or is_name(x) for x in a):
                bits = s.split('{}')
                return it.text([y for b, x in zip(bits, a + ['']) for y in (b, x)])
            if name in ('format', 'encode', 'decode'):
                return Opaque('format') if name == 'format' else s
            if conc and all(isinstance(x, (str, int, type(None))) or
                            (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
                try:
                    r = getattr(s, name)(*a, **k)
                except ValueError as e:
                    it.raise_py(ValueError, str(e))
                except TypeError as e:
                    it.raise_py(TypeError, str(e))
                if isinstance(r, list):
                    return VList(it.eng, r)
                return r
            if is_name(s):
                if name == 'split' and it.name_split is not None and len(a) == 1:
                    parts = it.name_split(s, a[0])
                    if parts is not None:
                        return VList(it.eng, parts)
                if name in it.name_methods:
                    return it.name_methods[name](s, a)
                if name not in ('upper', 'lower'):
                    raise Unsupported('identifier.%s' % name)
                if it.texts or s.decl().name() == 'cat':
                    u = it.text_upper(s)
                    if name == 'upper':
                        return u
                    u = it.name_lit(u) if isinstance(u, str) else u
                else:
                    u = name_upper(s)
                if name == 'upper':
                    it.eng.fact_once(('nup', s.sexpr()), name_upper(u) == u)
                    return u
                r = name_low(u)
                it.eng.fact_once(('nlow', s.sexpr()), z3.And(name_upper(r) == u, name_upper(u) == u))
                return r
            if is_z3(s):
                S = z3.StringSort()
                if name in ('lower', 'upper', 'strip'):
                    return uf('str_' + name, S, S)(s)
                x = z3.StringVal(a[0]) if a and isinstance(a[0], str) else (a[0] if a else None)
                if name == 'startswith':
                    return z3.PrefixOf(x, s)
                if name == 'endswith':
                    return z3.SuffixOf(x, s)
                if name == 'find':
                    return z3.IndexOf(s, x, 0)
                if name == 'replace':
                    raise Unsupported('symbolic replace')
            raise Unsupported('symbolic str.%s' % name)
        return Builtin('str.' + name, fn)

    # ------------------------------------------------------------ containers
    def list_copy(self, l):
        return VList(self.eng, list(l.items) if l.items is not None else None, l.seq)

    def list_extend(self, l, other):
        s = self.as_seq(other)
        self.log_mod(('list', l.id), l)
        if l.items is not None and isinstance(s, list):
            l.items = l.items + s
            return
        if not isinstance(s, (list, SymSeq)):
            s = self.concrete_iter(other)
            if l.items is not None:
                l.items = l.items + s
                return
        a = l.seq if l.items is None else self._mkseq(l.items)
        bseq = s if isinstance(s, SymSeq) else self._mkseq(s)
        la, lb = to_int(a.length), to_int(bseq.length)

        def get(i):
            if self.eng.branch(to_int(i) < la):
                return a.get(i)
            return bseq.get(z3.simplify(to_int(i) - la))
        l.items, l.seq = None, SymSeq(z3.simplify(la + lb), get, 'concat')

    def _mkseq(self, items):
        items = list(items)

        def get(i):
            i = z3.simplify(to_int(i))
            if z3.is_int_value(i):
                return items[i.as_long()]
            c = self.eng.decide(len(items), lambda j: self.eng.feasible(i == j), 'idx')
            self.eng.assume(i == c)
            return items[c]
        return SymSeq(z3.IntVal(len(items)), get, 'items')

    def host_method(self, o, name):
        if isinstance(o, Obj) and '__seq__' in o.fields:
            return self.host_method(o.fields['__seq__'], name) if name != '__init__' else None
        if isinstance(o, Obj):
            if name == '__init__':
                return None
            if isinstance(o.cls, ExtClass) and name == 'args':
                return o.fields.get('args', ())
            return None
        if isinstance(o, str) or (is_z3(o) and (z3.is_string(o) or is_name(o))):
            return self.str_method(o, name)
        if isinstance(o, VList):
            return self.list_method(o, name)
        if isinstance(o, SymSeq):
            return None
        if isinstance(o, VDict):
            return self.dict_method(o, name)
        if isinstance(o, VMap):
            return self.map_method(o, name)
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                return self.list_method(VList(self.eng, list(o)), name)
            return None
        if isinstance(o, SArr):
            return self.arr_method(o, name)
        if isinstance(o, ExtClass):
            return self.extclass_attr(o, name)
        if isinstance(o, (Cx, complex)):
            o = as_cx(o)
            if name == 'real':
                return o.re
            if name == 'imag':
                return o.im
            if name == 'conjugate':
                return Builtin('conjugate', lambda it, a, k: Cx(o.re, it.neg(o.im)))
            return None
        if is_num(o):
            if name == 'real':
                return o
            if name == 'imag':
                return 0
            if name == 'is_integer':
                return Builtin('is_integer', lambda it, a, k: it.cmp('==', it.floorv(o), o))
            if name in ('item', 'conjugate'):
                return Builtin(name, lambda it, a, k: o)
            if name == 'shape':
                return None
            return None
        if isinstance(o, (Class, Func, Bound, Builtin)):
            if name in ('__name__',):
                return getattr(o, 'name', 'f')
            if name == '__doc__':
                return ''
            if name == '__module__':
                return o.module.name if getattr(o, 'module', None) else ''
        return None

    def list_method(self, l, name):
        def mod(it):
            it.log_mod(('list', l.id), l)

        def append(it, a, k):
            mod(it)
            if l.items is not None:
                l.items = l.items + [a[0]]
            else:
                s, x = l.seq, a[0]
                n = to_int(s.length)

                def get(i):
                    if it.eng.branch(to_int(i) == n):
                        return x
                    return s.get(i)
                par = l.seq
                l.seq = SymSeq(z3.simplify(n + 1), get, 'append')
                l.seq.parent, l.seq.value = par, x

        def extend(it, a, k):
            it.list_extend(l, a[0])

        def need(it):
            if l.items is None:
                raise Unsupported('list.%s on a symbolic list' % name)
            return l.items

        def pop(it, a, k):
            items = list(need(it))
            mod(it)
            if not items:
                it.raise_py(IndexError, 'pop from empty list')
            i = a[0] if a else -1
            r = items.pop(i)
            l.items = items
            return r

        def insert(it, a, k):
            if l.items is None and not is_z3(a[0]) and a[0] == 0:
                mod(it)
                s0, x0 = l.seq, a[1]

                def get0(i):
                    if it.eng.branch(to_int(i) == 0):
                        return x0
                    return s0.get(z3.simplify(to_int(i) - 1))
                l.seq = SymSeq(z3.simplify(to_int(s0.length) + 1), get0, 'insert')
                return
            items = list(need(it))
            mod(it)
            items.insert(a[0], a[1])
            l.items = items

        def remove(it, a, k):
            items = list(need(it))
            for i, x in enumerate(items):
                if it.eng.branch(it.truth(it.cmpop('==', x, a[0]))):
                    mod(it)
                    l.items = items[:i] + items[i + 1:]
                    return None
            it.raise_py(ValueError, 'list.remove(x): x not in list')

        def index(it, a, k):
            if isinstance(it.as_seq(l), SymSeq) and len(a) == 1:
                n, eng = to_int(l.seq.length), it.eng
                eq = lambda q: it.truth(it.cmpop('==', l.seq.get(q), a[0]))
                w = z3.Int(eng.fresh('found'))
                if eng.decide(2, None, 'found in the list'):
                    eng.assume(z3.And(w >= 0, w < n))
                    eng.assume(zbool(eq(w)))
                    it.alls.append(([w], lambda q: znot(eq(q))))
                    return w
                it.alls.append(([n], lambda q: znot(eq(q))))
                it.raise_py(ValueError, 'x not in list')
            for i, x in enumerate(need(it)):
                if it.eng.branch(it.truth(it.cmpop('==', x, a[0]))):
                    return i
            it.raise_py(ValueError, 'x not in list')

        def count(it, a, k):
            return sum(1 for x in need(it) if it.eng.branch(it.truth(it.cmpop('==', x, a[0]))))

        def reverse(it, a, k):
            mod(it)
            if l.items is None:
                par, n = l.seq, to_int(l.seq.length)
                l.seq = SymSeq(n, lambda i: par.get(z3.simplify(n - 1 - to_int(i))), 'reversed')
                return
            l.items = list(reversed(need(it)))

        def sort(it, a, k):
            items = need(it)
            mod(it)
            if all(not is_z3(x) and isinstance(x, (int, Fraction, str)) for x in items) and not k:
                l.items = sorted(items)
            else:
                raise Unsupported('sort')

        def copy(it, a, k):
            return it.list_copy(l)

        def clear(it, a, k):
            mod(it)
            l.items = []
        # sets are modelled as lists
        def add(it, a, k):
            for x in need(it):
                if it.eng.branch(it.truth(it.cmpop('==', x, a[0]))):
                    return
            append(it, a, k)
        d = dict(append=append, extend=extend, pop=pop, insert=insert, remove=remove, index=index, count=count,
                 reverse=reverse, sort=sort, copy=copy, add=add, clear=clear, __getitem__=lambda it, a, k: it.getitem(l, a[0]), __len__=lambda it, a, k: it.bi_len([l], {}))
        if name == '__len__':
            return Builtin('len', lambda it, a, k: it.bi_len([l], {}))
        if name in d:
            return Builtin('list.' + name, d[name])
        return None

    def dict_method(self, v, name):
        def mod(it):
            it.log_mod(('dict', v.id), v)

        def update(it, a, k):
            mod(it)
            v.d = dict(v.d)
            for x in a:
                x = it.force(x)
                if isinstance(x, VMap) and v.__class__ is VDict and not k:
                    # from here on a dictionary with arbitrary keys
                    old, v.__class__ = v.d, VMap
                    v.d = ({}, {}, 0)
                    for q, w in old.items():
                        it.setitem(v, q, w)
                    return it.call(it.getattr(v, 'update'), [x], {})
                if isinstance(x, VDict):
                    v.d.update(x.d)
                else:
                    for kv in it.concrete_iter(x):
                        kk, vv = it.unpack(kv, 2)
                        v.d[it.dkey(kk)] = vv
            v.d.update(k)

        def get(it, a, k):
            kk = it.dkey_in(a[0], v.d)
            return v.d.get(kk, a[1] if len(a) > 1 else k.get('default'))

        def pop(it, a, k):
            kk = it.dkey_in(a[0], v.d)
            if kk in v.d:
                mod(it)
                v.d = dict(v.d)
                return v.d.pop(kk)
            if len(a) > 1:
                return a[1]
            it.raise_py(KeyError, kk)

        def setdefault(it, a, k):
            kk = it.dkey(a[0])
            if kk not in v.d:
                mod(it)
                v.d = dict(v.d)
                v.d[kk] = a[1] if len(a) > 1 else None
            return v.d[kk]
        d = dict(update=update, get=get, pop=pop, setdefault=setdefault,
                 keys=lambda it, a, k: VList(it.eng, list(v.d.keys())),
                 values=lambda it, a, k: VList(it.eng, list(v.d.values())),
                 items=lambda it, a, k: VList(it.eng, [(x, y) for x, y in v.d.items()]),
                 has_key=lambda it, a, k: it.dkey(a[0]) in v.d,
                 copy=lambda it, a, k: VDict(it.eng, v.d))
        d['iteritems'] = d['items']
        if name in d:
            return Builtin('dict.' + name, d[name])
        return None

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, Opaque):
            return Opaque(o.what + '[]')
        if is_name(o):
            if k == 0 and not is_z3(k):
                # initial letter of an identifier the contract fixes
                ini = self.eng.cache.get('initials', {})
                if o.sexpr() in ini:
                    return ini[o.sexpr()]
                if self.texts:
                    if o.decl().name() == 'cat' and o.arg(0).decl().name().startswith('lit:'):
                        return o.arg(0).decl().name()[4:][0]
                    return name_first(o)
            elif isinstance(k, slice):
                return Opaque('part of an identifier')
            raise Unsupported('character of an identifier')
        if isinstance(o, SArr):
            return self.arr_get(o, k)
        if isinstance(o, Obj):
            f = self.lookup_cls(o, '__getitem__')
            if f is not None:
                return self.call(f, [o, k], {})
            if '__seq__' in o.fields:
                return self.getitem(o.fields['__seq__'], k)
            self.raise_py(TypeError, 'object is not subscriptable')
        if isinstance(o, VMap):
            kind, k = self.map_key(k)
            if not self.test(o.has(kind, k)):
                self.raise_py(KeyError, 'key')
            return o.d[1][kind](k)
        if isinstance(o, VDict):
            if is_z3(k) and z3.is_arith(k):
                ks = [q for q in o.d if is_num(q) and not isinstance(q, bool)]
                c = self.eng.decide(len(ks) + 1, lambda i: self.eng.feasible(
                    eqz(k, ks[i])) if i < len(ks) else self.eng.feasible(zand(*[znot(eqz(k, q)) for q in ks])))
                if c < len(ks):
                    self.eng.assume(eqz(k, ks[c]))
                    return o.d[ks[c]]
                self.eng.assume(zand(*[znot(eqz(k, q)) for q in ks]))
                self.raise_py(KeyError, 'key')
            k = self.dkey_in(k, o.d)
            if k in o.d:
                return o.d[k]
            self.raise_py(KeyError, str(k))
        if isinstance(o, (tuple, str, VList, SymSeq)):
            return self.seq_get(o, k)
        if is_z3(o) and z3.is_string(o):
            if isinstance(k, slice):
                a = k.start or 0
                n = z3.Length(o)
                e = n if k.stop is None else k.stop
                if isinstance(e, int) and e < 0:
                    e = n + e
                return z3.SubString(o, a, to_int(e) - to_int(a))
            if isinstance(k, int) and k >= 0:
                if self.eng.branch(z3.Length(o) <= k):
                    self.raise_py(IndexError, 'string index out of range')
                return z3.SubString(o, k, 1)
            raise Unsupported('symbolic string index')
        if o is None or is_num(o):
            self.raise_py(TypeError, 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def seq_get(self, o, k):
        if isinstance(o, VList):
            items, seq = (o.items, o.seq)
        elif isinstance(o, SymSeq):
            items, seq = None, o
        else:
            items, seq = o, None
        if isinstance(k, slice):
            if items is not None and not any(is_z3(x) for x in (k.start, k.stop, k.step)):
                for x in (k.start, k.stop, k.step):
                    if isinstance(x, Fraction):
                        self.raise_py(TypeError, 'slice indices must be integers')
                r = items[k]
                return VList(self.eng, r) if isinstance(o, VList) else r
            if items is not None:
                if k.step is not None:
                    raise Unsupported('symbolic slice')
                n = len(items)
                lo, ln = self.norm_slice(k, z3.IntVal(n))
                lo, ln = to_int(lo), to_int(ln)
                c = self.eng.decide((n + 1) * (n + 1), lambda q: self.eng.feasible(
                    z3.And(lo == q // (n + 1), ln == q % (n + 1))))
                self.eng.assume(z3.And(lo == c // (n + 1), ln == c % (n + 1)))
                r = items[c // (n + 1):c // (n + 1) + c % (n + 1)]
                return VList(self.eng, r) if isinstance(o, VList) else r
            a, ln = self.norm_slice(k, seq.length)
            r = SymSeq(ln, lambda i: seq.get(z3.simplify(to_int(i) + to_int(a))), 'slice')
            return VList(self.eng, None, r) if isinstance(o, VList) else r
        if isinstance(k, SArr) and k.ndim == 0:
            k = k.fn()
        if k is None or isinstance(k, (str, Fraction, VList, tuple)) or (is_z3(k) and not z3.is_int(k)):
            self.raise_py(TypeError, 'indices must be integers')
        if isinstance(k, bool):
            k = int(k)
        if items is not None:
            n = len(items)
            if not is_z3(k):
                if -n <= k < n:
                    return items[k]
                self.raise_py(IndexError, 'index out of range')
            i = self.norm_idx(k, z3.IntVal(n))
            if isinstance(i, int):
                return items[i]
            if items and all(is_num(x) for x in items):
                r = items[-1]
                for j in range(n - 2, -1, -1):
                    r = ite(i == j, items[j], r)
                return r
            c = self.eng.decide(n, lambda j: self.eng.feasible(i == j))
            self.eng.assume(i == c)
            return items[c]
        i = self.norm_idx(k, seq.length)
        return seq.get(z3.IntVal(i) if not is_z3(i) else i)

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, SArr):
            return self.arr_set(o, k, v)
        if isinstance(o, Obj):
            f = self.lookup_cls(o, '__setitem__')
            if f is not None:
                return self.call(f, [o, k, v], {})
            if '__seq__' in o.fields:
                return self.setitem(o.fields['__seq__'], k, v)
        if isinstance(o, VDict):
            self.log_mod(('dict', o.id), o)
            o.d = dict(o.d)
            o.d[self.dkey(k)] = v
            return
        if isinstance(o, VMap):
            self.log_mod(('dict', o.id), o)
            kind, k = self.map_key(k)
            if isinstance(v, str):
                v = self.name_lit(v)
            o.set(kind, k, v)
            return
        if isinstance(o, VList):
            if isinstance(k, slice):
                if o.items is not None and k.start is None and k.stop is None and k.step is None:
                    self.log_mod(('list', o.id), o)
                    o.items = list(self.concrete_iter(v))
                    return
                raise Unsupported('list slice assignment')
            if o.items is not None:
                n = len(o.items)
                if is_z3(k):
                    i = self.norm_idx(k, z3.IntVal(n))
                    self.log_mod(('list', o.id), o)
                    o.items = [ite(eqz(i, j), v, x) for j, x in enumerate(o.items)]
                    return
                if not -n <= k < n:
                    self.raise_py(IndexError, 'assignment index out of range')
                self.log_mod(('list', o.id), o)
                items = list(o.items)
                items[k] = v
                o.items = items
                return
            i = self.norm_idx(k, o.seq.length)
            self.log_mod(('list', o.id), o)
            old = o.seq

            def get(j):
                if self.eng.branch(eqz(j, i)):
                    return v
                return old.get(j)
            o.seq = SymSeq(old.length, get, 'set')
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, (tuple, str)) or o is None:
            self.raise_py(TypeError, 'object does not support item assignment')
        raise Unsupported('item assignment on %r' % (o,))

    def map_method(self, o, name):
        def update(it, a, k):
            for x in a:
                x = it.force(x)
                if isinstance(x, VDict):
                    ps = list(x.d.items())
                elif isinstance(x, VMap) and hasattr(x, 'pairs'):
                    ps = x.pairs
                elif isinstance(x, VMap):
                    it.log_mod(('dict', o.id), o)
                    o.merge(it, x)
                    continue
                else:
                    raise Unsupported('update with a symbolic dictionary')
                for q, w in ps:
                    it.setitem(o, q, w)

        def pop(it, a, k):
            kind, q = it.map_key(a[0])
            if not it.test(o.has(kind, q)):
                if len(a) > 1:
                    return a[1]
                it.raise_py(KeyError, 'key')
            r = o.d[1][kind](q)
            it.log_mod(('dict', o.id), o)
            o.drop(kind, q)
            return r

        def get(it, a, k):
            kind, q = it.map_key(a[0])
            if not it.test(o.has(kind, q)):
                return a[1] if len(a) > 1 else None
            return o.d[1][kind](q)

        def copy(it, a, k):
            r = VMap(it.eng, *o.d)
            return r
        m = {'update': update, 'copy': copy, 'pop': pop, 'get': get}
        if name not in m:
            raise Unsupported('dict.%s on a symbolic dictionary' % name)
        return Builtin('dict.' + name, m[name])

    def delitem(self, o, k):
        o = self.force(o)
        if isinstance(o, VMap):
            kind, q = self.map_key(k)
            if not self.test(o.has(kind, q)):
                self.raise_py(KeyError, 'key')
            self.log_mod(('dict', o.id), o)
            o.drop(kind, q)
            return
        if isinstance(o, VDict):
            k = self.dkey(k)
            if k not in o.d:
                self.raise_py(KeyError, str(k))
            self.log_mod(('dict', o.id), o)
            o.d = dict(o.d)
            del o.d[k]
            return
        if isinstance(o, VList) and o.items is not None and not is_z3(k):
            self.log_mod(('list', o.id), o)
            items = list(o.items)
            try:
                del items[k]
            except IndexError:
                self.raise_py(IndexError, 'del')
            o.items = items
            return
        if isinstance(o, Obj):
            f = self.lookup_cls(o, '__delitem__')
            if f is not None:
                return self.call(f, [o, k], {})
            if '__seq__' in o.fields:
                return self.delitem(o.fields['__seq__'], k)
        raise Unsupported('del item')

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if is_z3(x) and z3.is_string(x):
                return z3.Contains(z3.StringVal(c), x)
            if isinstance(x, Opaque):
                return z3.Bool(self.eng.fresh('opaque_in'))
            self.raise_py(TypeError, "'in <string>' requires string")
        if is_z3(c) and z3.is_string(c):
            return z3.Contains(c, z3.StringVal(x) if isinstance(x, str) else x)
        if isinstance(c, VMap):
            kind, q = self.map_key(x)
            return c.has(kind, q)
        if isinstance(c, VDict):
            if is_z3(x):
                return zor(*[eqz(x, q) for q in c.d])
            return self.dkey_in(x, c.d) in c.d
        if isinstance(c, Obj):
            f = self.lookup_cls(c, '__contains__')
            if f is not None:
                return self.truth(self.call(f, [c, x], {}))
        if isinstance(c, Opaque):
            return z3.Bool(self.eng.fresh('opaque_in'))
        s = self.as_seq(c)
        if isinstance(s, SymSeq):
            r = self.user_hooks.get('contains')
            if r is not None:
                return r(self, s, x)

            def same(i):
                y = self.force(s.get(i))
                if x is None or isinstance(x, bool) or is_num(x) and not isinstance(x, Cx):
                    if (y is None) != (x is None):
                        return False
                    if is_num(y) and not isinstance(y, Cx):
                        return eqz(y, x)
                if (is_name(x) or isinstance(x, str)) and (is_name(y) or isinstance(y, str)):
                    return self.truth(self.cmpop('==', y, x))
                raise Unsupported('in symbolic sequence')
            if is_name(x):
                return znot(self.forall([s.length], lambda i: znot(same(i))))
            if not self.eng.branch(to_int(s.length) > 0):
                return False
            last = same(z3.simplify(to_int(s.length) - 1))
            if last is True or last is not False and self.eng.branch(last):
                return True
            return znot(self.forall([s.length], lambda i: znot(same(i))))
        if not isinstance(s, list):
            s = self.concrete_iter(c)
        return zor(*[self.truth(self.cmpop('==', y, x)) for y in s])

    # ------------------------------------------------------------ arrays
    def arr_method(self, a, name):
        if name == 'shape':
            return a.shape
        if name == 'size':
            n = 1
            for s in a.shape:
                n = self.mul(n, s)
            return n
        if name == 'ndim':
            return a.ndim
        if name == 'T':
            return self.transpose(a)
        if name == 'dtype':
            return Opaque('dtype')
        if name == 'real':
            return self.map1(lambda v: as_cx(v).re, a, 'float')
        if name == 'imag':
            return self.map1(lambda v: as_cx(v).im, a, 'float')
        if name in ('row_insert', 'col_insert'):
            # sympy: a new matrix with rows or columns inserted (here: before the first or after the last)
            ax = 0 if name == 'row_insert' else 1

            def insert(it, args, k):
                pos, new = it.force(args[0]), it.force(args[1])
                at_end = eqz(pos, a.shape[ax])
                if at_end is True or (is_z3(at_end) and z3.is_true(z3.simplify(at_end))):
                    return it.concat([a, new], ax)
                if not is_z3(pos) and pos == 0:
                    return it.concat([new, a], ax)
                raise Unsupported('insertion into a matrix')
            return Builtin('Matrix.' + name, insert)
        np = self.np

        def via(fn):
            return Builtin('ndarray.' + name, lambda it, args, k: it.call(np[fn], [a] + list(args), k))
        if name in ('max', 'min', 'sum', 'any', 'all', 'prod', 'mean', 'argmax'):
            return via(name)
        if name == 'copy':
            fn = a.fn
            return Builtin('ndarray.copy', lambda it, args, k: it.arr(a.shape, fn, a.dtype))
        if name == 'astype':
            return Builtin('ndarray.astype', lambda it, args, k: it.arr(a.shape, a.fn, a.dtype))
        if name == 'reshape':
            return Builtin('ndarray.reshape', lambda it, args, k: it.reshape(
                a, tuple(args) if len(args) > 1 else args[0]))
        if name == 'transpose':
            return Builtin('ndarray.transpose', lambda it, args, k: it.transpose(a))
        if name in ('flatten', 'ravel'):
            return Builtin('ndarray.flatten', lambda it, args, k: it.reshape(a, (-1,)))
        if name == 'squeeze':
            return via('squeeze')
        if name == 'tolist':
            def tolist(it, args, k):
                if a.ndim == 1:
                    s = it.as_seq(a)
                    return VList(it.eng, s) if isinstance(s, list) else VList(it.eng, None, s)
                raise Unsupported('tolist')
            return Builtin('tolist', tolist)
        if name == 'dot':
            return Builtin('ndarray.dot', lambda it, args, k: it.np_dot(a, args[0]))
        if name == 'item':
            return Builtin('item', lambda it, args, k: it._one(a))
        if name == 'fill':
            return Builtin('fill', lambda it, args, k: it.arr_assign(a, args[0]))
        if name in ('conj', 'conjugate'):
            return Builtin('conj', lambda it, args, k: it.map1(
                lambda v: Cx(as_cx(v).re, it.neg(as_cx(v).im)), a))
        return None

    def _np(self):
        d = {}

        def reg(*names):
            def deco(f):
                for n in names:
                    d[n] = Builtin('np.' + n, f)
                return f
            return deco

        def arr0(it, v):
            return it.from_nested(v)

        @reg('zeros', 'ones', 'empty')
        def zeros(it, a, k):
            raise Unsupported
        def mk(val):
            def f(it, a, k):
                sh = it.shape_of(a[0] if a else k['shape'])
                dt = 'complex' if _iscx(a[1] if len(a) > 1 else k.get('dtype')) else 'float'
                return it.arr(sh, lambda *ix: Fraction(val), dt)
            return f
        d['zeros'] = Builtin('np.zeros', mk(0))
        d['ones'] = Builtin('np.ones', mk(1))
        d['empty'] = Builtin('np.empty', mk(0))

        @reg('zeros_like')
        def zl(it, a, k):
            x = arr0(it, a[0])
            return it.arr(x.shape, lambda *ix: Fraction(0), x.dtype)

        @reg('ones_like')
        def ol(it, a, k):
            x = arr0(it, a[0])
            return it.arr(x.shape, lambda *ix: Fraction(1), x.dtype)

        @reg('eye', 'identity')
        def eye(it, a, k):
            n = it.shape_of(a[0])[0]
            return it.arr((n, n), lambda i, j: ite(eqz(i, j), Fraction(1), Fraction(0)))

        @reg('array', 'asarray', 'mat', 'matrix', 'atleast_1d')
        def array(it, a, k):
            v = it.force(a[0])
            if isinstance(v, SArr):
                return it.arr(v.shape, v.fn, v.dtype)
            return it.from_nested(v)

        @reg('atleast_2d')
        def at2(it, a, k):
            return it.atleast2(arr0(it, a[0]))

        @reg('arange')
        def arange(it, a, k):
            s = it.bi_range(a, {})
            if isinstance(s, SymSeq):
                return it.arr((s.length,), lambda i: s.get(i))
            return it.from_nested(tuple(s))

        @reg('concatenate')
        def conc(it, a, k):
            ax = a[1] if len(a) > 1 else k.get('axis', 0)
            return it.concat(it.concrete_iter(a[0]), ax)

        @reg('vstack')
        def vstack(it, a, k):
            return it.concat([it.atleast2(arr0(it, x)) for x in it.concrete_iter(a[0])], 0)

        @reg('hstack')
        def hstack(it, a, k):
            l = [arr0(it, x) for x in it.concrete_iter(a[0])]
            l = [it.arr((1,), (lambda x: (lambda i: x.fn()))(x)) if x.ndim == 0 else x for x in l]
            return it.concat(l, 0 if l[0].ndim == 1 else 1)

        @reg('dot', 'matmul')
        def dot(it, a, k):
            return it.np_dot(it.force(a[0]), it.force(a[1]))

        @reg('multiply')
        def mult(it, a, k):
            return it.mul(a[0], a[1])

        @reg('abs', 'absolute', 'fabs')
        def ab(it, a, k):
            v = it.force(a[0])
            if isinstance(v, (VList, tuple)):
                v = it.from_nested(v)
            if isinstance(v, Opaque):
                return v
            return it.absv(v)
        for nm in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'log10', 'sinh', 'cosh'):
            def mf(it, a, k, nm=nm):
                s, it.numpy_math = it.numpy_math, True
                try:
                    v = it.force(a[0])
                    if isinstance(v, (VList, tuple)):
                        v = it.from_nested(v)
                    return it.mathfn(nm, v)
                finally:
                    it.numpy_math = s
            d[nm] = Builtin('np.' + nm, mf)

        @reg('real')
        def real(it, a, k):
            v = it.force(a[0])
            if isinstance(v, SArr):
                return it.map1(lambda x: as_cx(x).re, v, 'float')
            return as_cx(v).re

        @reg('imag')
        def imag(it, a, k):
            v = it.force(a[0])
            if isinstance(v, SArr):
                return it.map1(lambda x: as_cx(x).im, v, 'float')
            return as_cx(v).im

        @reg('real_if_close')
        def ric(it, a, k):
            return a[0]

        @reg('isscalar')
        def isscalar(it, a, k):
            v = it.force(a[0])
            return is_num(v) or isinstance(v, (Cx, complex, str))

        @reg('squeeze')
        def squeeze(it, a, k):
            v = a[0]
            keep = [i for i, s in enumerate(v.shape) if is_z3(s) or s != 1]
            fn, nd = v.fn, v.ndim

            def g(*ix):
                full = [0] * nd
                for q, i in zip(keep, ix):
                    full[q] = i
                return fn(*full)
            return it.arr([v.shape[i] for i in keep], g, v.dtype)

        def fold(op):
            def f(it, a, k):
                v = it.force(a[0])
                if not isinstance(v, SArr):
                    if is_num(v):
                        return v
                    v = it.from_nested(v)
                ax = a[1] if len(a) > 1 else k.get('axis')
                if ax is not None and v.ndim > 1:
                    raise Unsupported('axis reduction')
                h = it.user_hooks.get('reduce')
                if h is not None:
                    r = h(it, op, v)
                    if r is not NotImplemented:
                        return r
                if any(is_z3(s) for s in v.shape):
                    return it.sym_reduce(op, v)
                n = 1
                for s in v.shape:
                    n *= s
                if n == 0:
                    if op in ('max', 'min'):
                        it.raise_py(ValueError, 'zero-size array to reduction operation')
                    return {'sum': Fraction(0), 'prod': Fraction(1), 'any': False, 'all': True}[op]
                if op == 'sum':
                    return it.reduce_all(v, it.add, Fraction(0))
                if op == 'prod':
                    return it.reduce_all(v, it.mul, Fraction(1))
                if op == 'any':
                    return it.reduce_all(v, lambda r, x: zor(r, it.truth(x)), False)
                if op == 'all':
                    return it.reduce_all(v, lambda r, x: zand(r, it.truth(x)), True)
                c = '>' if op == 'max' else '<'
                return it.reduce_all(v, lambda r, x: x if r is None else ite(it.cmp(c, x, r), x, r), None)
            return f
        for nm in ('max', 'min', 'sum', 'prod', 'any', 'all', 'amax', 'amin'):
            d[nm] = Builtin('np.' + nm, fold(nm.replace('amax', 'max').replace('amin', 'min')))

        @reg('isnan')
        def isnan(it, a, k):
            v = it.force(a[0])
            f = lambda x: isinstance(x, float) and x != x
            return it.map1(f, v, 'bool') if isinstance(v, SArr) else f(v)

        @reg('isfinite')
        def isfinite(it, a, k):
            v = it.force(a[0])
            f = lambda x: not isinstance(x, float)
            return it.map1(f, v, 'bool') if isinstance(v, SArr) else f(v)

        @reg('allclose')
        def allclose(it, a, k):
            x, y = it.force(a[0]), it.force(a[1])
            rt = k.get('rtol', a[2] if len(a) > 2 else norm_float(1e-5))
            at = k.get('atol', a[3] if len(a) > 3 else norm_float(1e-8))
            x, y = [q if isinstance(q, SArr) else it.from_nested(q) if isinstance(q, (VList, tuple)) else it.arr((), lambda q=q: q) for q in (x, y)]

            def near(p, q):
                d = it.absv(it.sub(p, q))
                return it.cmp('<=', d, it.add(at, it.mul(rt, it.absv(q))))
            m = it.map2(near, x, y, 'bool')
            return it.forall(list(m.shape), m.fn)

        @reg('iscomplex')
        def iscomplex(it, a, k):
            v = it.force(a[0])
            f = lambda x: isinstance(x, Cx) and it.truth(x.im)
            return it.map1(f, v, 'bool') if isinstance(v, SArr) else f(v)

        @reg('diag')
        def diag(it, a, k):
            v = arr0(it, a[0])
            if v.ndim == 1:
                n, fn = v.shape[0], v.fn
                return it.arr((n, n), lambda i, j: ite(eqz(i, j), fn(i), Fraction(0)))
            fn = v.fn
            return it.arr((v.shape[0],), lambda i: fn(i, i))

        @reg('tile')
        def tile(it, a, k):
            v = arr0(it, a[0])
            r = it.shape_of(a[1])
            v = it.atleast2(v)
            r = (1,) * (2 - len(r)) + r
            fn, s = v.fn, v.shape
            if any(is_z3(x) for x in s):
                one = lambda x: not is_z3(x) and x == 1
                if not all(one(x) or one(y) for x, y in zip(s, r)):
                    raise Unsupported('tile')
                return it.arr((it.mul(s[0], r[0]), it.mul(s[1], r[1])),
                              lambda i, j: fn(i if one(r[0]) else 0, j if one(r[1]) else 0))
            return it.arr((it.mul(s[0], r[0]), it.mul(s[1], r[1])),
                          lambda i, j: fn(it.arith('%', i, s[0]), it.arith('%', j, s[1])))

        @reg('delete')
        def delete(it, a, k):
            v, idx = it.force(a[0]), it.force(a[1])
            ax = a[2] if len(a) > 2 else k.get('axis', 0)
            if not isinstance(v, SArr):
                v = it.from_nested(v)
            if isinstance(idx, (VList, tuple)):
                ids = it.concrete_iter(idx)
                if is_z3(v.shape[ax]) or not all(isinstance(q, int) for q in ids):
                    raise Unsupported('np.delete list')
                if any(q < -v.shape[ax] or q >= v.shape[ax] for q in ids):
                    it.raise_py(IndexError, 'delete')
                drop = set(q % v.shape[ax] for q in ids)
                keep = [q for q in range(v.shape[ax]) if q not in drop]
                fn0 = v.fn
                sh = list(v.shape)
                sh[ax] = len(keep)

                def sel(*ix):
                    ix = list(ix)
                    q = ix[ax]
                    if isinstance(q, int):
                        ix[ax] = keep[q]
                        return fn0(*ix)
                    r = None
                    for p, kk in reversed(list(enumerate(keep))):
                        ix[ax] = kk
                        x = fn0(*ix)
                        r = x if r is None else ite(to_int(q) == p, x, r)
                    return r
                return it.arr(sh, sel, v.dtype)
            i0 = it.norm_idx(idx, v.shape[ax])
            fn = v.fn
            sh = list(v.shape)
            sh[ax] = it.sub(sh[ax], 1)
            if is_z3(sh[ax]):
                sh[ax] = z3.simplify(sh[ax])

            def g(*ix):
                ix = list(ix)
                c = it.cmp('<', ix[ax], i0)
                if isinstance(c, bool):
                    if not c:
                        ix[ax] = it.add(ix[ax], 1)
                else:
                    ix[ax] = ite(c, ix[ax], it.add(ix[ax], 1))
                return fn(*ix)
            return it.arr(sh, g, v.dtype)

        def add_at(it, a, k):
            arr, idx, val = it.force(a[0]), it.force(a[1]), it.force(a[2])
            if not isinstance(idx, tuple):
                raise Unsupported('np.add.at')
            ixs = it.fancy_lists(arr, idx)
            vs = it.from_nested(val) if not is_num(val) else None
            if vs is not None and (vs.ndim != 1 or not it.same_dim(vs.shape[0], len(ixs))):
                it.raise_py(ValueError, 'shape mismatch in np.add.at')
            it.log_mod(('arr', arr.id), arr)
            for q, ix in enumerate(ixs):
                it.store(arr, ix, it.add(arr.fn(*ix), vs.fn(q) if vs is not None else val))
            return None

        def np_add(it, a, k):
            return it.arith('+', a[0], a[1])
        d['add'] = Builtin('np.add', np_add, {'at': Builtin('np.add.at', add_at)})

        @reg('linspace')
        def linspace(it, a, k):
            raise Unsupported('linspace')

        @reg('ceil')
        def ceil(it, a, k):
            v = it.force(a[0])
            return to_real(it.neg(it.floorv(it.neg(v)))) if is_z3(v) else Fraction(math.ceil(v))

        @reg('floor')
        def floor(it, a, k):
            v = it.force(a[0])
            return to_real(it.floorv(v)) if is_z3(v) else Fraction(math.floor(v))

        @reg('get_printoptions', 'set_printoptions', 'seterr')
        def gpo(it, a, k):
            return Opaque('printoptions')

        @reg('finfo')
        def finfo(it, a, k):
            o = Obj(it.eng, ExtClass(object))
            o.fields.update(eps=Fraction(1, 2 ** 52), max=Fraction(2) ** 1024)
            return o
        @reg('angle')
        def angle(it, a, k):
            h = it.user_hooks.get('np.angle')
            if h is not None:
                return h(it, a, k)
            v = it.force(a[0])
            if not (isinstance(v, (int, float, Fraction)) or is_z3(v) and z3.is_arith(v)):
                raise Unsupported('np.angle')
            v = to_real(v)                      # of a real number: 0 or pi
            return z3.If(v >= 0, z3.RealVal(0), to_real(PI))
        for nm in ('unwrap', 'argmax', 'argmin', 'sort_complex', 'loadtxt', 'savetxt', 'frompyfunc',
                   'logspace', 'interp'):
            def un(it, a, k, nm=nm):
                h = it.user_hooks.get('np.' + nm)
                if h is not None:
                    return h(it, a, k)
                raise Unsupported('np.' + nm)
            d[nm] = Builtin('np.' + nm, un)
        d['pi'] = PI
        d['inf'] = float('inf')
        d['nan'] = float('nan')
        d['float'] = d['float_'] = d['float64'] = ExtClass(float)
        d['complex'] = d['complex_'] = d['complex128'] = ExtClass(complex)
        d['int'] = ExtClass(int)
        d['bool'] = ExtClass(bool)
        d['ndarray'] = ExtClass(ndarray)
        d['linalg'] = ExtModule('numpy.linalg')
        d['random'] = ExtModule('numpy.random')
        d['fft'] = ExtModule('numpy.fft')
        d['__version__'] = '1.23.5'
        return d

    def sym_reduce(self, op, v):
        """max/min/any/all over an array of symbolic size: defined by its bounds"""
        shape, fn = list(v.shape), v.fn
        if op == 'all':
            return self.forall(shape, lambda *ix: self.truth(fn(*ix)))
        if op == 'any':
            return znot(self.forall(shape, lambda *ix: znot(self.truth(fn(*ix)))))
        if op in ('max', 'min'):
            for s in shape:
                if self.eng.branch(to_int(s) <= 0) if is_z3(s) else s == 0:
                    self.raise_py(ValueError, 'zero-size array to reduction operation')
            e = z3.Real(self.eng.fresh(op))
            w = [z3.Int(self.eng.fresh('wit')) for _ in shape]
            self.eng.assume(z3.And(*[z3.And(i >= 0, i < to_int(s)) for i, s in zip(w, shape)]))
            self.eng.assume(to_real(self.as_real(fn(*w))) == e)
            self.alls.append((shape, lambda *ix: self.cmp(
                '<=' if op == 'max' else '>=', self.as_real(fn(*ix)), e)))
            return e
        raise Unsupported('reduction %s over a symbolic array' % op)

    def as_real(self, x):
        if isinstance(x, (Cx, complex)):
            raise Unsupported('order of complex numbers')
        return x

    def forall(self, shape, pred):
        """a truth value equal to: pred at every index.  If it is false a witness
        violates pred; if it is true, ``inst_all`` gives pred at an index"""
        eng = self.eng
        if not any(is_z3(s) for s in shape):
            import itertools
            r = True
            for ix in itertools.product(*[range(s) for s in shape]):
                r = zand(r, pred(*ix))
            return r
        b = z3.Bool(eng.fresh('forall'))
        w = [z3.Int(eng.fresh('wit')) for _ in shape]
        inr = z3.And(*[z3.And(i >= 0, i < to_int(s)) for i, s in zip(w, shape)])
        if eng.branch(b):
            self.alls.append((list(shape), pred))
            return True
        eng.assume(inr)
        eng.assume(zbool(znot(pred(*w))))
        self.wits.append(w)
        return False

    def inst_all(self, *ix):
        """universally quantified facts at an index"""
        for shape, pred in list(self.alls):
            if len(shape) != len(ix):
                continue
            if self.eng.branch(z3.And(*[z3.And(to_int(i) >= 0, to_int(i) < to_int(s)) for i, s in zip(ix, shape)])):
                self.eng.assume(zbool(pred(*ix)))

    def _math(self):
        d = {}
        for nm in ('exp', 'sqrt', 'sin', 'cos', 'tan', 'tanh', 'log10', 'sinh', 'cosh', 'atan'):
            d[nm] = Builtin('math.' + nm, lambda it, a, k, nm=nm: it.mathfn(nm, it._sc(a[0])))

        def log(it, a, k):
            r = it.mathfn('log', it._sc(a[0]))
            if len(a) > 1:
                if a[1] == 10:
                    return it.mathfn('log10', it._sc(a[0]))
                return it.div(r, it.mathfn('log', it._sc(a[1])))
            return r
        d['log'] = Builtin('math.log', log)
        d['fabs'] = Builtin('math.fabs', lambda it, a, k: it.absv(it._sc(a[0])))
        d['floor'] = Builtin('math.floor', lambda it, a, k: it.floorv(it._sc(a[0])))
        d['ceil'] = Builtin('math.ceil', lambda it, a, k: it.neg(it.floorv(it.neg(it._sc(a[0])))))
        d['pow'] = Builtin('math.pow', lambda it, a, k: it.arith('**', it._sc(a[0]), it._sc(a[1])))
        d['isnan'] = Builtin('math.isnan', lambda it, a, k: isinstance(it._sc(a[0]), float) and a[0] != a[0])
        d['isinf'] = Builtin('math.isinf', lambda it, a, k: isinstance(it._sc(a[0]), float) and
                             abs(it._sc(a[0])) == float('inf'))
        d['copysign'] = Builtin('math.copysign', lambda it, a, k: ite(
            it.cmp('>=', a[1], 0), it.absv(a[0]), it.neg(it.absv(a[0]))))
        d['pi'] = PI
        d['e'] = norm_float(math.e)
        d['inf'] = float('inf')
        return d

    def _sc(self, v):
        v = self.force(v)
        if isinstance(v, SArr):
            v = self._one(v)
        if isinstance(v, (Cx, complex)):
            self.raise_py(TypeError, 'must be real number, not complex')
        if v is None or isinstance(v, (str, VList, tuple)):
            self.raise_py(TypeError, 'must be real number')
        return v

    # ------------------------------------------------------------ modules
    def ext_module(self, name):
        if name not in self.ext:
            self.ext[name] = ExtModule(name)
        return self.ext[name]

    def ext_attr(self, m, name):
        full = m.name + '.' + name
        h = self.user_hooks.get('ext:' + full)
        if h is not None:
            return h
        if m.name == 'numpy' or (m.name == 'scipy' and name in self.np):
            if name in self.np:
                return self.np[name]
        if m.name == 'math' and name in self.mathm:
            return self.mathm[name]
        if m.name in ('numpy.linalg', 'numpy.linalg.linalg', 'scipy.linalg'):
            if name == 'LinAlgError':
                return ExtClass(LinAlgError)
            if name == 'linalg':
                return ExtModule('numpy.linalg')
            return Builtin(full, lambda it, a, k: _unsup(full))
        if m.name == 'sys':
            if name == 'exit':
                def ex(it, a, k):
                    it.raise_py(SystemExit, str(a[:1]))
                return Builtin('sys.exit', ex)
            if name == 'version_info':
                return (3, 12, 3, 'final', 0)
            if name in ('stdout', 'stderr', 'stdin', 'argv', 'version', 'path'):
                return Opaque('sys.' + name)
            if name == 'intern':
                return Builtin('intern', lambda it, a, k: a[0])
            if name == 'pypy_translation_info':
                self.raise_py(AttributeError, name)
            if name == 'maxsize':
                return 2 ** 63 - 1
        if m.name == 'copy':
            if name == 'copy':
                return Builtin('copy.copy', lambda it, a, k: it.copy_val(a[0], False))
            if name == 'deepcopy':
                return Builtin('copy.deepcopy', lambda it, a, k: it.copy_val(a[0], True))
        if m.name == 're':
            if name in ('IGNORECASE', 'DOTALL', 'VERBOSE', 'MULTILINE'):
                import re
                return int(getattr(re, name))
            if name == 'compile' and self.regex_hook is not None:
                return Builtin(full, lambda it, a, k: it.regex_hook(a[0], a[1] if len(a) > 1 else k.get('flags', 0)))
            return Opaque(full)
        if m.name == 'operator':
            ops = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/'}
            if name in ops:
                return Builtin(full, lambda it, a, k: it.arith(ops[name], it.force(a[0]), it.force(a[1])))
        if m.name == 'scipy.constants':
            import scipy.constants as sc
            if name == 'pi':
                return PI
            return norm_float(getattr(sc, name))
        if m.name in ('os', 'time', 'warnings', 'os.path', 'logging', 'matplotlib', 'pylab', 'tabulate', 'pickle',
                      'optparse', 'imp', 'tempfile', 'io', 'atexit', 'threading', 'locale', 'codecs', 'datetime',
                      'collections', 'contextlib', 'matplotlib.pyplot', 'urllib', 'urllib.parse', 'six',
                      'scipy.signal', 'scipy.interpolate', 'scipy.optimize', 'scipy.misc', 'scipy', 'scipy.sparse',
                      'scipy.sparse.linalg', 'sympy', 'sympy.matrices', 'sympy.parsing.sympy_parser', 'functools',
                      'scipy.fftpack', 'numpy.fft', 'numpy.random', 'itertools', 'numpy'):
            if m.name == 'scipy' and name == 'linalg':
                return ExtModule('scipy.linalg')
            if m.name == 'functools' and name == 'wraps':
                return Builtin('wraps', lambda it, a, k: Builtin('wraps2', lambda it2, a2, k2: a2[0]))
            if m.name in ('six',) and name == 'with_metaclass':
                return Builtin(full, lambda it, a, k: a[1] if len(a) > 1 else ExtClass(object))
            if m.name in ('matplotlib', 'pylab', 'matplotlib.pyplot'):
                self.raise_py(ImportError, full)
            if m.name in ('scipy', 'scipy.sparse', 'sympy', 'numpy', 'os') and name in (
                    'sparse', 'linalg', 'matrices', 'parsing', 'interpolate', 'optimize', 'constants', 'path',
                    'signal', 'misc'):
                return ExtModule(full)
            return Opaque(full)
        raise Unsupported('%s' % full)

    def copy_val(self, v, deep, memo=None):
        memo = {} if memo is None else memo
        v = self.force(v)
        if id(v) in memo:
            return memo[id(v)]
        rec = (lambda x: self.copy_val(x, True, memo)) if deep else (lambda x: x)
        if isinstance(v, VList):
            r = memo[id(v)] = VList(self.eng, None, v.seq)
            if v.items is not None:
                r.items = [rec(x) for x in v.items]
            elif deep:
                raise Unsupported('deepcopy of a symbolic list')
            return r
        if isinstance(v, VDict):
            r = memo[id(v)] = VDict(self.eng)
            r.d = dict((k, rec(x)) for k, x in v.d.items())
            return r
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if isinstance(v, SArr):
            return self.arr(v.shape, v.fn, v.dtype)
        if isinstance(v, Obj):
            c = self.cls_of(v)
            f = c.lookup('__deepcopy__' if deep else '__copy__') if isinstance(c, Class) else None
            if f is not None:
                return self.call(f, [v] + ([VDict(self.eng)] if deep else []))
            r = memo[id(v)] = Obj(self.eng, c, {}, v.tag)
            r.lazy = v.lazy
            for k, x in v.fields.items():
                r.fields[k] = rec(x)
            return r
        return v


def _iscx(dt):
    return isinstance(dt, ExtClass) and dt.py is complex


def _unsup(n):
    raise Unsupported(n)
