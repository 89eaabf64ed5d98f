"""AST interpreter over the real sources of /repo (no text of the code is kept
here: every run parses the files again)."""
import ast
import os
import warnings
from fractions import Fraction
import z3
from .engine import (Engine, Unsupported, PathAbort, Restart, PyExc, Budget, is_z3)
from .values import *
from .arith import Arith, norm_float
from . import loops as _loops
from .npmodel import NpModel
from .extern import Extern

warnings.simplefilter('ignore')


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame(object):
    def __init__(self, func, module, closure=None):
        self.func = func
        self.module = module
        self.closure = closure
        self.locals = {}
        self.globals_decl = set()


class Interp(Arith, NpModel, Extern, _loops.LoopRules):
    def __init__(self, eng, root='/repo', pkg='ahkab'):
        self.eng = eng
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.overrides = {}        # qualname -> callable(interp, args, kwargs)
        self.loop_specs = {}       # qualname -> LoopSpec (or callable(st, frame) -> LoopSpec or None)
        self.name_methods = {}     # method of an identifier -> fn(identifier, args)
        self.mod_overrides = {}    # 'pkg.mod.name' -> value factory
        self.inlined = set()
        self.inst_hints, self.writers = [], {}
        self.candidates = []       # loop candidate generators
        self.unroll = {}           # qualname -> max unrolling of while loops
        self.depth = 0
        self.ext = {}
        self.user_hooks = {}
        self.softneg = set()
        self.index_facts = []
        self.init_extern()

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p):
            path = os.path.join(p, '__init__.py')
            ispkg = True
        else:
            path = p + '.py'
            ispkg = False
        if not os.path.exists(path):
            raise Unsupported('no module %s' % name)
        with open(path, 'rb') as fp:
            src = fp.read()
        try:
            tree = ast.parse(src)
        except SyntaxError:
            raise Unsupported('cannot parse %s' % path)
        m = Module(name, path)
        m.ispkg = ispkg
        self.modules[name] = m
        m.env['__name__'] = name
        m.pending = {}
        fr = Frame(None, m)
        fr.locals = m.env
        m.frame = fr
        save = self.eng.solver
        for st in tree.body:
            try:
                self.exec_top(st, fr, m)
            except (Unsupported, PyExc) as e:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.env.setdefault(n.id, Poison('%s: %s' % (name, e)))
        return m

    def harness(self, src, name='harness'):
        """a module of driver code (never code under verification)"""
        m = Module(name, '<harness>')
        m.ispkg = False
        m.env['__name__'] = name
        m.pending = {}
        fr = Frame(None, m)
        fr.locals = m.env
        m.frame = fr
        for st in ast.parse(src).body:
            self.exec_stmt(st, fr)
        return m.env

    def exec_top(self, st, fr, m):
        if isinstance(st, ast.ImportFrom) and st.level and st.module:
            # in-repo "from .x import y": bind lazily (import cycles)
            tgt = self.resolve_rel(m, st.level, st.module)
            for al in st.names:
                if al.name == '*':
                    mm = self.load(tgt)
                    for k, v in mm.env.items():
                        if not k.startswith('_'):
                            m.env[k] = v
                else:
                    m.lazy[al.asname or al.name] = (tgt, al.name)
            return
        if isinstance(st, ast.ImportFrom) and st.level:
            tgt = self.resolve_rel(m, st.level, None)
            for al in st.names:
                m.lazy[al.asname or al.name] = (tgt, al.name)
            return
        self.exec_stmt(st, fr)

    def resolve_rel(self, m, level, mod):
        parts = m.name.split('.')
        if not m.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if mod:
            parts += mod.split('.')
        return '.'.join(parts)

    def module_attr(self, m, name):
        full = m.name + '.' + name
        ov = self.eng.cache.get(('modset', full), None)
        if ov is not None:
            return ov[0]
        if full in self.mod_overrides:
            v = self.mod_overrides[full]
            return v(self) if callable(v) and not isinstance(v, (Builtin, Func)) else v
        if name in m.env:
            return m.env[name]
        if name in m.lazy:
            tgt, nm = m.lazy[name]
            mm = self.load(tgt)
            sub = os.path.join(self.root, *(tgt.split('.') + [nm]))
            if nm in mm.env or nm in mm.lazy and (tgt, nm) != mm.lazy.get(nm):
                return self.module_attr(mm, nm)
            if os.path.exists(sub + '.py') or os.path.isdir(sub):
                return self.load(tgt + '.' + nm)
            return self.module_attr(mm, nm)
        if getattr(m, 'ispkg', False):
            sub = os.path.join(self.root, *(m.name.split('.') + [name]))
            if os.path.exists(sub + '.py') or os.path.isdir(sub):
                return self.load(m.name + '.' + name)
        raise KeyError(name)

    def qual(self, dotted):
        """'ahkab.circuit.Circuit.add_node' -> value"""
        parts = dotted.split('.')
        m = None
        for i in range(len(parts), 0, -1):
            p = os.path.join(self.root, *parts[:i])
            if os.path.exists(p + '.py') or os.path.isdir(p):
                m = self.load('.'.join(parts[:i]))
                rest = parts[i:]
                break
        v = m
        if not rest and len(parts) > 1:
            pm = self.load('.'.join(parts[:-1]))
            alt = pm.env.get(parts[-1])
            if alt is None and parts[-1] in pm.lazy and pm.lazy[parts[-1]][0] != pm.name:
                alt = self.module_attr(pm, parts[-1])
            if isinstance(alt, (Class, Func)):
                v = alt
        for nm in rest:
            if isinstance(v, Module):
                try:
                    v = self.module_attr(v, nm)
                except KeyError:
                    raise Unsupported('no %s in %s' % (nm, v.name))
            elif isinstance(v, Class):
                v = v.lookup(nm)
            if v is None:
                raise Unsupported('cannot find %s' % dotted)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    # ------------------------------------------------------------ exceptions
    def raise_py(self, pytype, msg=''):
        o = Obj(self.eng, ExtClass(pytype), {'args': (msg,)})
        raise PyExc(o, '%s (%s:%d)' % ((msg,) + tuple(self.cur_loc)))

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Maybe):
            f = self.force(f)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtClass):
            return self.call_extclass(f, list(args), kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.what + '()')
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj):
            c = self.lookup_cls(f, '__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kwargs)
        if callable(f) and not is_z3(f):
            return f(self, list(args), kwargs)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get(f.qual)
        if ov is not None and not (self.inlined and f.qual in self.inlined):
            return ov(self, list(args), dict(kwargs))
        for pre in self.prefix_overrides:
            if f.qual.startswith(pre):
                return self.prefix_overrides[pre](self, f, list(args), dict(kwargs))
        if self.depth > 60:
            raise Unsupported('recursion too deep at %s' % f.qual)
        fr = Frame(f, f.module, f.closure)
        self.bind(f, fr, list(args), dict(kwargs))
        self.eng.executed.add(f.qual)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if getattr(f, 'is_gen', None) is None:
                f.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
            if f.is_gen:
                raise Unsupported('generator %s' % f.qual)
            try:
                self.exec_body(f.node.body, fr)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    prefix_overrides = {}

    def bind(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = fr.locals
        n = len(names)
        for i, v in enumerate(args[:n]):
            loc[names[i]] = v
        if len(args) > n:
            if a.vararg is None:
                self.raise_py(TypeError, '%s: too many arguments' % f.name)
            loc[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in loc:
                    self.raise_py(TypeError, 'multiple values for %s' % k)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_py(TypeError, '%s: unexpected keyword %s' % (f.name, k))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = VDict(self.eng, extra)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in loc:
                j = i - (n - nd)
                if j >= 0:
                    loc[nm] = f.defaults[j]
                else:
                    self.raise_py(TypeError, '%s: missing argument %s' % (f.name, nm))
        for i, nm in enumerate(kwonly):
            if nm not in loc:
                d = f.kwdefaults[i]
                if d is _MISSING:
                    self.raise_py(TypeError, 'missing kw argument %s' % nm)
                loc[nm] = d

    def instantiate(self, cls, args, kwargs):
        o = Obj(self.eng, cls)
        ext = [b for b in cls.get_mro() if isinstance(b, ExtClass) and b.py is not object]
        if ext and ext[0].py is list:
            o.fields['__seq__'] = VList(self.eng, [])
        elif ext and issubclass(ext[0].py, BaseException):
            o.fields['args'] = tuple(args)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args and not ext:
            self.raise_py(TypeError, '%s() takes no arguments' % cls.name)
        return o

    # ------------------------------------------------------------ objects
    def force(self, v):
        while isinstance(v, Maybe):
            if self.eng.branch(v.isnone):
                v = None
            else:
                v = v.val
        return v

    def cls_of(self, o):
        """decide the class of a symbolic object (forks)"""
        if o.cls is None:
            c = o.decide_cls(o)
            o.cls = c
        return o.cls

    def lookup_cls(self, o, name):
        c = self.cls_of(o)
        return c.lookup(name) if isinstance(c, Class) else None

    def getattr(self, o, name, default=None, has_default=False):
        o = self.force(o)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Builtin) and name in o.attrs:
            return o.attrs[name]
        if isinstance(o, Obj):
            if name == '__class__':
                return self.cls_of(o)
            if name in o.fields:
                return self.force(o.fields[name])
            if name == '__dict__':
                if not self.instance_dicts:
                    raise Unsupported('__dict__')
                return VDict(self.eng, o.fields)
            c = self.cls_of(o)
            if name in o.fields:
                return self.force(o.fields[name])
            if isinstance(c, Class):
                a = c.lookup(name)
                if isinstance(a, Prop):
                    return self.call(a.fget, [o], {})
                if a is not None or any(isinstance(k, Class) and name in k.ns for k in c.get_mro()):
                    if isinstance(a, (Func, Builtin)):
                        return Bound(o, a)
                    if isinstance(a, StaticM):
                        return a.f
                    if isinstance(a, ClassM):
                        return Bound(c, a.f)
                    return a
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not NotImplemented:
                    o.fields[name] = v
                    return self.force(v)
            m = self.host_method(o, name)
            if m is not None:
                return m
            if has_default:
                return default
            self.raise_py(AttributeError, '%s has no attribute %s' % (getattr(c, 'name', c), name))
        if isinstance(o, Module):
            try:
                v = self.module_attr(o, name)
            except KeyError:
                if has_default:
                    return default
                self.raise_py(AttributeError, 'module %s has no %s' % (o.name, name))
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, ExtModule):
            return self.ext_attr(o, name)
        if isinstance(o, Class):
            if name == '__name__':
                return o.name
            v = o.lookup(name)
            if v is None and not any(isinstance(k, Class) and name in k.ns for k in o.get_mro()):
                if name == '__init__':
                    return Builtin('object.__init__', lambda it, a, k: None)
                for b in o.get_mro():
                    if isinstance(b, ExtClass) and b.py is not object:
                        hm = self.extclass_attr(b, name)
                        if hm is not None:
                            return hm
                if has_default:
                    return default
                self.raise_py(AttributeError, 'class %s has no %s' % (o.name, name))
            if isinstance(v, (StaticM,)):
                return v.f
            if isinstance(v, ClassM):
                return Bound(o, v.f)
            return v
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__doc__'):
                return o.name
        if isinstance(o, Opaque):
            return Opaque(o.what + '.' + name)
        m = self.host_method(o, name)
        if m is not None:
            return m
        if has_default:
            return default
        if o is None or isinstance(o, (int, str, tuple, Fraction, float)) or is_num(o):
            self.raise_py(AttributeError, '%r has no attribute %s' % (o, name))
        raise Unsupported('attribute %s of %r' % (name, o))

    def hasattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Obj):
            if name in o.fields:
                return True
            c = self.cls_of(o)
            if name in o.fields:
                return True
            if isinstance(c, Class) and any(isinstance(k, Class) and name in k.ns for k in c.get_mro()):
                return True
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not NotImplemented:
                    o.fields[name] = v
                    return True
            return self.host_method(o, name) is not None
        s = object()
        try:
            return self.getattr(o, name, s, True) is not s
        except PyExc:
            return False

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            c = self.cls_of(o)
            if isinstance(c, Class):
                a = c.lookup(name)
                if isinstance(a, Prop):
                    if a.fset is None:
                        self.raise_py(AttributeError, "can't set attribute")
                    self.call(a.fset, [o, v], {})
                    return
            self.log_mod(('attr', o.id, name), o)
            o.fields[name] = v
            return
        if isinstance(o, Module):
            self.eng.cache[('modset', o.name + '.' + name)] = (v,)
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            return
        raise Unsupported('setattr on %r' % (o,))

    def isinstance(self, o, c):
        o = self.force(o)
        if isinstance(c, tuple):
            return any(self.isinstance(o, x) for x in c)
        if isinstance(c, Maybe):
            c = self.force(c)
        if isinstance(o, Obj):
            k = self.cls_of(o)
            if isinstance(k, Class):
                return k.issub(c)
            if isinstance(k, ExtClass) and isinstance(c, ExtClass):
                return issubclass(k.py, c.py)
            return False
        if isinstance(c, ExtClass):
            t = self.type_of(o)
            if isinstance(t, ExtClass):
                return issubclass(t.py, c.py)
            return c.py is object
        if isinstance(c, Class):
            return False
        if isinstance(c, Opaque):
            return False
        raise Unsupported('isinstance(%r, %r)' % (o, c))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """-> bool or z3 Bool"""
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, Fraction, float, str, tuple)):
            return bool(v)
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            if z3.is_string(v):
                return z3.Length(v) > 0
        if isinstance(v, Cx):
            return zor(self.truth(v.re), self.truth(v.im))
        if isinstance(v, VList):
            if v.items is not None:
                return len(v.items) > 0
            return self.truth(v.seq.length)
        if isinstance(v, VDict):
            return len(v.d) > 0
        if isinstance(v, VMap):
            return to_int(v.d[2]) > 0
        if isinstance(v, SymSeq):
            return self.truth(v.length)
        if isinstance(v, (Func, Builtin, Bound, Class, ExtClass, Module, ExtModule)):
            return True
        if isinstance(v, Obj):
            c = self.cls_of(v)
            for mm in ('__bool__', '__nonzero__'):
                b = self.lookup_cls(v, mm)
                if b is not None:
                    return self.truth(self.call(b, [v], {}))
            b = self.lookup_cls(v, '__len__')
            if b is not None:
                return self.truth(self.call(b, [v], {}))
            if '__seq__' in v.fields:
                return self.truth(v.fields['__seq__'])
            return True
        if isinstance(v, SArr):
            n = 1
            for s in v.shape:
                n = n * s if not is_z3(s) else None
                if n is None:
                    break
            if n == 1:
                return self.truth(v.fn(*([0] * v.ndim)))
            self.raise_py(ValueError, 'truth value of an array is ambiguous')
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('truth of %r' % (v,))

    def test(self, v, label=''):
        return self.eng.branch(self.truth(v), label)

    # ------------------------------------------------------------ statements
    def exec_body(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (%s:%d)' % (type(st).__name__, fr.module.name, st.lineno))
        self.cur_loc = (fr.module.name, st.lineno)
        m(st, fr)

    cur_loc = ('', 0)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Import(self, st, fr):
        for al in st.names:
            nm = al.asname or al.name.split('.')[0]
            fr.locals[nm] = self.ext_module(al.name if al.asname else al.name.split('.')[0])

    def st_ImportFrom(self, st, fr):
        if st.level:
            tgt = self.resolve_rel(fr.module, st.level, st.module)
            m = self.load(tgt)
            for al in st.names:
                try:
                    fr.locals[al.asname or al.name] = self.module_attr(m, al.name)
                except KeyError:
                    raise Unsupported('import %s from %s' % (al.name, tgt))
            return
        if st.module == '__future__':
            return
        em = self.ext_module(st.module)
        for al in st.names:
            try:
                fr.locals[al.asname or al.name] = self.ext_attr(em, al.name)
            except Unsupported as e:
                fr.locals[al.asname or al.name] = Poison(str(e))

    def st_FunctionDef(self, st, fr):
        fr.locals[st.name] = self.make_func(st, fr)

    def make_func(self, st, fr, cls=None):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else _MISSING for d in a.kw_defaults]
        if fr.func is not None:
            qual = fr.func.qual + '.<locals>.' + getattr(st, 'name', '<lambda>')
        elif cls is not None:
            qual = cls + '.' + st.name
        else:
            qual = fr.module.name + '.' + getattr(st, 'name', '<lambda>')
        f = Func(st, fr.module, fr if fr.func is not None or cls is None and fr.locals is not fr.module.env
                 else None, defaults, kwd, qual)
        res = f
        for d in reversed(getattr(st, 'decorator_list', [])):
            res = self.decorate(d, res, fr)
        return res

    def decorate(self, d, f, fr):
        if isinstance(d, ast.Name) and d.id == 'property':
            return Prop(f)
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            return StaticM(f)
        if isinstance(d, ast.Name) and d.id == 'classmethod':
            return ClassM(f)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            p = fr.locals.get(d.value.id) if isinstance(d.value, ast.Name) else None
            if isinstance(p, Prop):
                return Prop(p.fget, f) if d.attr == 'setter' else p
        nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
        if nm in self.transparent_decorators:
            self.eng.assumptions.add('decorator %s is transparent (contract of the memoisation property)' % nm)
            # the decorator returns a callable that does not bind to the instance
            return StaticM(f) if fr.locals is not fr.module.env else f
        dv = self.ev(d, fr)
        return self.call(dv, [f], {})

    transparent_decorators = ('memoize',)
    instance_dicts = False

    def st_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.ev(b, fr)
            if isinstance(v, Opaque):
                v = ExtClass(object)
            bases.append(v)
        cname = st.name
        qual = (fr.func.qual + '.<locals>.' if fr.func else fr.module.name + '.') + cname
        cfr = Frame(fr.func, fr.module, fr if fr.func is not None else None)
        cls = Class(cname, fr.module, bases, cfr.locals)
        cls.qual = qual
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                try:
                    cf = Frame(None, fr.module, None)
                    cf.locals = cfr.locals
                    fn = self.make_func(s, cf, cls=qual)
                    tgt = fn
                    if isinstance(tgt, Func):
                        tgt.cls = cls
                        if fr.func is not None:
                            tgt.closure = fr
                    cfr.locals[s.name] = fn
                except Unsupported as e:
                    cfr.locals[s.name] = Poison(str(e))
            else:
                try:
                    cf = Frame(None, fr.module, fr if fr.func is not None else None)
                    cf.locals = cfr.locals
                    self.exec_stmt(s, cf)
                except Unsupported:
                    pass
        fr.locals[cname] = cls

    def st_Return(self, st, fr):
        raise ReturnSig(self.ev(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr):
        raise BreakSig()

    def st_Continue(self, st, fr):
        raise ContinueSig()

    def st_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def st_Nonlocal(self, st, fr):
        raise Unsupported('nonlocal')

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported('del')

    def st_Assert(self, st, fr):
        if not self.test(self.ev(st.test, fr)):
            self.raise_py(AssertionError, 'assert')

    def st_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        v = self.ev(st.exc, fr)
        if isinstance(v, (Class, ExtClass)):
            v = self.call(v, [], {})
        if isinstance(v, Obj):
            a = v.fields.get('args', ())
            raise PyExc(v, str(a[:1]))
        raise Unsupported('raise %r' % (v,))

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_body(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.obj, self.ev(h.type, fr)):
                        if h.name:
                            fr.locals[h.name] = e.obj
                        save = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            self.cur_exc = save
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        except (PathAbort, Restart, Unsupported, Budget):
            raise
        except (ReturnSig, BreakSig, ContinueSig, PyExc):
            self.exec_body(st.finalbody, fr)
            raise
        else:
            self.exec_body(st.finalbody, fr)

    def exc_is(self, e, py):
        return self.exc_matches(e.obj, ExtClass(py))

    def exc_matches(self, obj, typ):
        if isinstance(typ, tuple):
            return any(self.exc_matches(obj, t) for t in typ)
        c = obj.cls
        if isinstance(c, Class):
            return c.issub(typ)
        if isinstance(typ, ExtClass):
            return issubclass(c.py, typ.py)
        return False

    def st_With(self, st, fr):
        raise Unsupported('with')

    def st_If(self, st, fr):
        if self.test(self.ev(st.test, fr)):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for tt, vv in zip(t.elts, vals):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, vv, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def set_name(self, n, v, fr):
        if n in fr.globals_decl:
            self.eng.cache[('modset', fr.module.name + '.' + n)] = (v,)
            return
        fr.locals[n] = v

    def unpack(self, v, n, elts=None):
        v = self.force(v)
        if isinstance(v, VList) and v.items is not None:
            v = tuple(v.items)
        if isinstance(v, (tuple, str)):
            if elts and any(isinstance(e, ast.Starred) for e in elts):
                k = [isinstance(e, ast.Starred) for e in elts].index(True)
                rest = len(elts) - k - 1
                return list(v[:k]) + [VList(self.eng, list(v[k:len(v) - rest]))] + list(v[len(v) - rest:])
            if len(v) != n:
                self.raise_py(ValueError, 'unpack: %d values for %d targets' % (len(v), n))
            return list(v)
        if isinstance(v, SArr) and v.ndim >= 1 and v.shape[0] == n:
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, (VList, SymSeq)):
            s = v.seq if isinstance(v, VList) else v
            if self.eng.branch(eqz(s.length, n)):
                return [s.get(z3.IntVal(i)) for i in range(n)]
            self.raise_py(ValueError, 'unpack')
        if v is None:
            self.raise_py(TypeError, 'cannot unpack None')
        if isinstance(v, Opaque):
            return [Opaque(v.what) for _ in range(n)]
        raise Unsupported('unpack %r' % (v,))

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
           ast.Mod: '%', ast.Pow: '**'}

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            rhs = self.ev(st.value, fr)
            old = self.force(old)
            if isinstance(old, SArr):
                new = self.binop(st.op, old, rhs)
                self.arr_assign(old, new)
                return
            if isinstance(old, VList) and isinstance(st.op, ast.Add):
                self.list_extend(old, rhs)
                return
            if isinstance(old, Obj) and '__seq__' in old.fields and isinstance(st.op, ast.Add):
                self.list_extend(old.fields['__seq__'], rhs)
                return
            self.set_name(t.id, self.binop(st.op, old, rhs), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.force(self.getattr(o, t.attr))
            rhs = self.ev(st.value, fr)
            if isinstance(old, VList) and isinstance(st.op, ast.Add):
                self.list_extend(old, rhs)
                return
            self.setattr(o, t.attr, self.binop(st.op, old, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            rhs = self.ev(st.value, fr)
            self.setitem(o, k, self.binop(st.op, old, rhs))
        else:
            raise Unsupported('augassign')

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s (%s:%d)' % (type(n).__name__, fr.module.name, n.lineno))
        return m(n, fr)

    def ex_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            return norm_float(v)
        if isinstance(v, complex):
            return Cx(norm_float(v.real), norm_float(v.imag))
        if isinstance(v, bytes):
            raise Unsupported('bytes')
        return v

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals and f.locals is not f.module.env:
                v = f.locals[name]
                if isinstance(v, _loops.LazyVal):
                    v = v.fn()
                    f.locals[name] = v
                if isinstance(v, _loops.LoopPoison):
                    raise _loops.NeedKind(('var', v.var))
                if isinstance(v, Poison):
                    raise Unsupported('%s: %s' % (name, v.why))
                return v
            f = f.closure
        try:
            v = self.module_attr(fr.module, name)
        except KeyError:
            v = self.builtins.get(name, _MISSING)
            if v is _MISSING:
                if fr.func is not None and name in self.local_names(fr.func):
                    self.raise_py(UnboundLocalError, name)
                self.raise_py(NameError, name)
        if isinstance(v, Poison):
            raise Unsupported('%s: %s' % (name, v.why))
        return v

    def local_names(self, f):
        if not hasattr(f, '_ln'):
            f._ln = set(n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        return f._ln

    def ex_Name(self, n, fr):
        v = self.lookup(n.id, fr)
        if isinstance(v, Maybe):
            v = self.force(v)
        return v

    def ex_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def ex_Tuple(self, n, fr):
        return tuple(self.ev_list(n.elts, fr))

    def ex_List(self, n, fr):
        return VList(self.eng, self.ev_list(n.elts, fr))

    def ex_Set(self, n, fr):
        return tuple(self.ev_list(n.elts, fr))

    def ev_list(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_iter(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ex_Dict(self, n, fr):
        d = VDict(self.eng)
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, fr)
                d.d.update(x.d)
                continue
            kk = self.force(self.ev(k, fr))
            if isinstance(d, VDict) and is_z3(kk) and (is_name(kk) or not z3.is_int_value(z3.simplify(kk)) and z3.is_int(kk)):
                old, d = d, VMap(self.eng, {}, {}, 0)
                d.pairs = []
                for q, w in old.d.items():
                    d.pairs.append((q, w))
                    self.setitem(d, q, w)
            if isinstance(d, VMap):
                w = self.ev(v, fr)
                d.pairs.append((kk, w))
                self.setitem(d, kk, w)
            else:
                d.d[self.dkey(kk)] = self.ev(v, fr)
        return d

    def name_lit(self, s):
        """the identifier spelled s; different spellings are different identifiers"""
        lits = self.eng.cache.setdefault(('lits',), {})
        if s not in lits:
            c = z3.Const('lit:' + s, NameSort)
            for o in lits.values():
                self.eng.assume(o != c)
            lits = dict(lits)
            lits[s] = c
            self.eng.cache[('lits',)] = lits
            u = c if s.upper() == s else self.name_lit(s.upper())
            self.eng.assume(name_upper(c) == u)
        return self.eng.cache[('lits',)][s]

    # universal facts of the current path and the witnesses against the false ones
    @property
    def alls(self):
        return self.eng.cache.setdefault(('alls',), [])

    @property
    def wits(self):
        return self.eng.cache.setdefault(('wits',), [])

    # texts built from identifiers: concatenations in a normal form
    texts = False
    regex_hook = None    # contract: what re.compile gives
    name_split = None    # contract: what splitting an identifier gives

    def text_parts(self, t):
        if isinstance(t, str):
            return [t] if t else []
        if t.decl().name() == 'cat':
            return self.text_parts(t.arg(0)) + self.text_parts(t.arg(1))
        if t.num_args() == 0 and t.decl().name().startswith('lit:'):
            return [t.decl().name()[4:]]
        return [t]

    def text(self, parts):
        flat = []
        for q in parts:
            for x in self.text_parts(q):
                if flat and isinstance(x, str) and isinstance(flat[-1], str):
                    flat[-1] += x
                else:
                    flat.append(x)
        if not flat:
            return ''
        if len(flat) == 1:
            return flat[0]
        ts = [self.name_lit(x) if isinstance(x, str) else x for x in flat]
        r = ts[-1]
        for x in reversed(ts[:-1]):
            r = name_cat(x, r)
        return r

    def text_upper(self, t):
        up = []
        for x in self.text_parts(t):
            if isinstance(x, str):
                up.append(x.upper())
            elif x.decl().name() == 'upper':
                up.append(x)
            elif x.decl().name() == 'lowf':
                up.append(x.arg(0))
            else:
                self.eng.fact_once(('nup', x.sexpr()), name_upper(name_upper(x)) == name_upper(x))
                up.append(name_upper(x))
        r = self.text(up)
        if is_z3(t) and t.decl().name() == 'cat':
            self.eng.fact_once(('tup', t.sexpr()), name_upper(t) == r)
            self.eng.fact_once(('tup', r.sexpr()), name_upper(r) == r)
        return r

    def map_key(self, k):
        k = self.force(k)
        if isinstance(k, str):
            return 'n', self.name_lit(k)
        if is_name(k):
            return 'n', k
        if isinstance(k, bool) or isinstance(k, Fraction) or not (isinstance(k, int) or is_z3(k) and z3.is_int(k)):
            raise Unsupported('key %r of a symbolic dictionary' % (k,))
        return 'i', to_int(k)

    def dkey_in(self, k, d):
        """the key of a dictionary of texts an identifier is equal to, if any"""
        k = self.force(k)
        if is_name(k) and all(isinstance(x, str) for x in d):
            for x in d:
                if self.eng.branch(k == self.name_lit(x)):
                    return x
            return object()
        return self.dkey(k)

    def dkey(self, k):
        k = self.force(k)
        if is_z3(k):
            k = z3.simplify(k)
            if z3.is_int_value(k):
                return k.as_long()
            if z3.is_string_value(k):
                return k.as_string()
            raise Unsupported('symbolic dictionary key')
        if isinstance(k, (VList, VDict, SArr)):
            self.raise_py(TypeError, 'unhashable')
        return k

    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            # no fork if the rest is pure and boolean? keep it simple: fork
            if self.eng.branch(t):
                if not isand:
                    return v if not (is_z3(v) and z3.is_bool(v)) else True
            else:
                if isand:
                    return v if not (is_z3(v) and z3.is_bool(v)) else False
        return v

    def ex_UnaryOp(self, n, fr):
        v = self.force(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            return znot(self.truth(v))
        if isinstance(n.op, ast.USub):
            if isinstance(v, Obj):
                f = self.lookup_cls(v, '__neg__')
                return self.call(f, [v], {})
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        o = self.OPS.get(type(op))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        if o is None:
            if isinstance(op, ast.MatMult):
                return self.np_dot(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}.get(type(op))
            raise Unsupported('operator %s' % type(op).__name__)
        if o == '%' and (isinstance(a, str) or (is_z3(a) and z3.is_string(a))):
            return self.str_format(a, b)
        if o == '+':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if (is_name(a) and (isinstance(b, str) or is_name(b))) or (isinstance(a, str) and is_name(b)):
                return self.text([a, b])
            sa = isinstance(a, str) or (is_z3(a) and z3.is_string(a))
            sb = isinstance(b, str) or (is_z3(b) and z3.is_string(b))
            if sa and sb:
                return z3.Concat(z3.StringVal(a) if isinstance(a, str) else a,
                                 z3.StringVal(b) if isinstance(b, str) else b)
            if sa or sb:
                if isinstance(a, SArr) or isinstance(b, SArr):
                    raise Unsupported('str + array')
                self.raise_py(TypeError, 'str + non-str')
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, VList) and isinstance(b, (VList, Obj)):
                r = self.list_copy(a)
                self.list_extend(r, b)
                return r
            if isinstance(a, (VList, tuple)) or isinstance(b, (VList, tuple)):
                if not (isinstance(a, SArr) or isinstance(b, SArr)):
                    self.raise_py(TypeError, 'bad operand for +')
        if o == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, tuple)) and is_intlike(y):
                    if is_z3(y):
                        if z3.is_bool(y):
                            return x * int(self.eng.branch(y))
                        raise Unsupported('symbolic repetition')
                    return x * int(y)
                if isinstance(x, VList) and is_intlike(y) and not is_z3(y) and x.items is not None:
                    return VList(self.eng, x.items * int(y))
        if a is None or b is None:
            self.raise_py(TypeError, 'None operand')
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '**': 'pow', '%': 'mod', '//': 'floordiv'}[o]
            if isinstance(a, Obj):
                f = self.lookup_cls(a, '__%s__' % nm)
                if f is not None:
                    return self.call(f, [a, b], {})
            if isinstance(b, Obj):
                f = self.lookup_cls(b, '__r%s__' % nm)
                if f is not None:
                    return self.call(f, [b, a], {})
            if o == '+' and isinstance(a, Obj) and '__seq__' in a.fields:
                r = self.list_copy(a.fields['__seq__'])
                self.list_extend(r, b)
                return r
            h = self.user_hooks.get('binop')
            if h is not None:
                r = h(self, o, a, b)
                if r is not NotImplemented:
                    return r
            raise Unsupported('operator %s on objects' % o)
        h = self.user_hooks.get('binop')
        if h is not None:
            r = h(self, o, a, b)
            if r is not NotImplemented:
                return r
        return self.arith(o, a, b)

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if not isinstance(r, (bool,)) and not is_z3(r):
                r = self.truth(r)
            if isinstance(r, bool) and not r:
                return False
            res = zand(res, r)
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            return r if isinstance(op, ast.Is) else znot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else znot(r)
        o = self.CMP[type(op)]
        return self.cmpop(o, a, b)

    def is_same(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if is_z3(a) or is_z3(b):
                return eqz(a, b)
            return a is b
        if isinstance(a, (ExtClass,)) or isinstance(b, ExtClass):
            return a == b
        if isinstance(a, (Obj, VList, VDict, Class, Func, SArr, Module)) or \
           isinstance(b, (Obj, VList, VDict, Class, Func, SArr, Module)):
            if isinstance(a, Obj) and isinstance(b, Obj) and a is not b and \
               a.tag is not None and b.tag is not None and \
               isinstance(a.tag, tuple) and isinstance(b.tag, tuple) and a.tag[0] == b.tag[0] == 'elem':
                return eqz(a.tag[1], b.tag[1])
            return a is b
        if is_z3(a) or is_z3(b):
            return eqz(a, b)
        return a is b or (type(a) == type(b) and a == b)

    def cmpop(self, o, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return z3.Bool(self.eng.fresh('opaque_cmp'))
        if isinstance(a, SArr) or isinstance(b, SArr):
            return self.map2(lambda x, y: self.cmp(o, x, y), a, b, dtype='bool')
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)) and o in ('==', '!='):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return o == '!='
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if x is None or y is None:
                sx = a.seq if x is None else None
                sy = b.seq if y is None else None
                for s, it in ((sx, y), (sy, x)):
                    if s is not None and it is not None and len(it) == 0:
                        r = eqz(s.length, 0)
                        return r if o == '==' else znot(r)
                raise Unsupported('comparison of symbolic lists')
            if len(x) != len(y):
                return o == '!='
            r = zand(*[self.truth(self.cmpop('==', p, q)) for p, q in zip(x, y)])
            return r if o == '==' else znot(r)
        if isinstance(a, VDict) and isinstance(b, VDict) and o in ('==', '!='):
            r = set(a.d) == set(b.d)
            r = zand(r, *[self.truth(self.cmpop('==', a.d[k], b.d[k])) for k in a.d]) if r else False
            return r if o == '==' else znot(r)
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y, nm in ((a, b, {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '>': '__gt__', '<=': '__le__',
                                     '>=': '__ge__'}[o]),):
                if isinstance(x, Obj):
                    f = self.lookup_cls(x, nm)
                    if f is not None:
                        return self.call(f, [x, y], {})
            if o == '==':
                return self.is_same(a, b)
            if o == '!=':
                return znot(self.is_same(a, b))
            raise Unsupported('compare objects')
        if o in ('==', '!='):
            if is_name(a) and isinstance(b, str):
                b = self.name_lit(b)
            elif is_name(b) and isinstance(a, str):
                a = self.name_lit(a)
            if a is None or b is None:
                r = a is b
            elif isinstance(a, (Class, ExtClass, Func, Builtin, Module)) or \
                    isinstance(b, (Class, ExtClass, Func, Builtin, Module)):
                r = a == b if isinstance(a, ExtClass) else a is b
            elif isinstance(a, (VList, VDict, tuple)) or isinstance(b, (VList, VDict, tuple)):
                r = False
            elif isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported('poison')
            else:
                r = eqz(a, b)
            return r if o == '==' else znot(r)
        if a is None or b is None:
            self.raise_py(TypeError, 'ordering None')
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported('tuple ordering')
        return self.cmp(o, a, b)

    def ex_IfExp(self, n, fr):
        if self.test(self.ev(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def ex_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def ex_Call(self, n, fr):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in fr.locals:
            raise Unsupported('super()')
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            f = self.super_attr(n.func, fr)
        if f is None:
            f = self.ev(n.func, fr)
        args = self.ev_list(n.args, fr)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                v = self.force(v)
                if isinstance(v, VDict):
                    kw.update(v.d)
                elif isinstance(v, Opaque):
                    pass
                else:
                    raise Unsupported('**%r' % (v,))
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def super_attr(self, n, fr):
        f = fr.func
        while f is not None and f.cls is None:
            f = f.closure.func if f.closure else None
        if f is None:
            raise Unsupported('super')
        selfname = f.node.args.args[0].arg
        o = fr.locals[selfname]
        mro = o.cls.get_mro()
        i = mro.index(f.cls)
        for c in mro[i + 1:]:
            if isinstance(c, Class) and n.attr in c.ns:
                return Bound(o, c.ns[n.attr])
            if isinstance(c, ExtClass) and c.py is not object:
                m = self.extclass_attr(c, n.attr)
                if m is not None:
                    return Bound(o, m)
        if n.attr == '__init__':
            return Builtin('object.__init__', lambda it, a, k: None)
        raise Unsupported('super().%s' % n.attr)

    def ex_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_index(n.slice, fr)
        return self.getitem(o, k)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, fr) if n.lower else None,
                         self.ev(n.upper, fr) if n.upper else None,
                         self.ev(n.step, fr) if n.step else None)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(e, fr) for e in n.elts)
        return self.force(self.ev(n, fr))

    def ex_Starred(self, n, fr):
        raise Unsupported('starred')

    def ex_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.ev(v.value, fr))
                if (isinstance(x, str) or self.texts and is_name(x)) and v.format_spec is None:
                    parts.append(x)
                else:
                    return Opaque('fstring')
        return self.text(parts)

    def ex_ListComp(self, n, fr):
        out = []
        r = self.comp(n.generators, 0, fr, lambda f: out.append(self.ev(n.elt, f)), n)
        if r is not None:
            return r
        return VList(self.eng, out)

    def ex_GeneratorExp(self, n, fr):
        return self.ex_ListComp(n, fr)

    def ex_SetComp(self, n, fr):
        out = []
        r = self.comp(n.generators, 0, fr, lambda f: out.append(self.ev(n.elt, f)), n)
        return r if r is not None else VList(self.eng, out)

    def ex_DictComp(self, n, fr):
        d = VDict(self.eng)

        def put(f):
            k = self.dkey(self.ev(n.key, f))
            d.d[k] = self.ev(n.value, f)
        r = self.comp(n.generators, 0, fr, put, n)
        if r is not None:
            raise Unsupported('symbolic dict comprehension')
        return d

    def comp(self, gens, i, fr, emit, node):
        """returns None (concrete, emitted) or a symbolic VList"""
        if i == 0:
            nfr = Frame(fr.func, fr.module, fr)
            if fr.func is None and fr.locals is fr.module.env:
                nfr.closure = None
            fr = nfr
        g = gens[i]
        it = self.ev(g.iter, fr)
        seq = self.as_seq(it)
        if isinstance(seq, SymSeq):
            if len(gens) == 1:
                return self.sym_comp(node, g, seq, fr)
            raise Unsupported('nested symbolic comprehension')
        for x in seq:
            self.assign(g.target, x, fr)
            if all(self.test(self.ev(c, fr)) for c in g.ifs):
                if i + 1 < len(gens):
                    r = self.comp_inner(gens, i + 1, fr, emit, node)
                else:
                    emit(fr)
        return None

    def comp_inner(self, gens, i, fr, emit, node):
        g = gens[i]
        seq = self.as_seq(self.ev(g.iter, fr))
        if isinstance(seq, SymSeq):
            raise Unsupported('nested symbolic comprehension')
        for x in seq:
            self.assign(g.target, x, fr)
            if all(self.test(self.ev(c, fr)) for c in g.ifs):
                if i + 1 < len(gens):
                    self.comp_inner(gens, i + 1, fr, emit, node)
                else:
                    emit(fr)

    # ------------------------------------------------------------ iteration
    def as_seq(self, v):
        """-> python list (concrete) or SymSeq"""
        v = self.force(v)
        if isinstance(v, SymSeq):
            ln = v.length
            if not is_z3(ln):
                return [v.get(z3.IntVal(i)) for i in range(ln)]
            s = z3.simplify(ln)
            if z3.is_int_value(s):
                return [v.get(z3.IntVal(i)) for i in range(s.as_long())]
            return v
        if isinstance(v, VList):
            if v.items is not None:
                return list(v.items)
            return self.as_seq(v.seq)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, VDict):
            return list(v.d.keys())
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Obj):
            if '__seq__' in v.fields and self.lookup_cls(v, '__iter__') is None:
                return self.as_seq(v.fields['__seq__'])
            f = self.lookup_cls(v, '__iter__')
            if f is not None:
                r = self.call(f, [v], {})
                if r is v or isinstance(r, Obj) and '__seq__' not in r.fields:
                    return _PyIter(r)
                return self.as_seq(r)
            h = self.user_hooks.get('iter')
            if h:
                return h(self, v)
        if isinstance(v, SArr):
            if not is_z3(v.shape[0]):
                return [self.getitem(v, i) for i in range(v.shape[0])]
            if v.ndim == 1:
                return SymSeq(v.shape[0], lambda i: v.fn(to_int(i)), 'rows')    # (an iteration stays inside)
            return SymSeq(v.shape[0], lambda i: self.getitem(v, i), 'rows')
        if v is None or is_num(v):
            self.raise_py(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def concrete_iter(self, v):
        s = self.as_seq(v)
        if isinstance(s, SymSeq):
            raise Unsupported('symbolic sequence used concretely')
        if isinstance(s, _PyIter):
            out = []
            nx = self.lookup_cls(s.obj, '__next__') or self.lookup_cls(s.obj, 'next')
            for _ in range(2000):
                try:
                    out.append(self.call(nx, [s.obj], {}))
                except PyExc as e:
                    if isinstance(e.obj.cls, ExtClass) and e.obj.cls.py is StopIteration:
                        return out
                    raise
            raise Unsupported('iterator too long')
        return s


class _PyIter(object):
    def __init__(self, obj):
        self.obj = obj


class _Missing(object):
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()
