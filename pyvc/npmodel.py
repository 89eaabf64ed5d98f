"""Model of the part of numpy the code uses (dense arrays as index functions)."""
from fractions import Fraction
import z3
from .engine import Unsupported, is_z3
from .values import *


class NpModel(object):

    # ---- construction ----------------------------------------------------
    def arr(self, shape, fn, dtype='float'):
        shape = tuple(int(s) if isinstance(s, bool) else s for s in shape)
        return SArr(self.eng, shape, fn, dtype)

    def shape_of(self, v):
        v = self.force(v)
        if isinstance(v, VList):
            v = tuple(self.concrete_iter(v))
        if not isinstance(v, tuple):
            v = (v,)
        out = []
        for s in v:
            s = self.force(s)
            if is_z3(s) and z3.is_real(s) or isinstance(s, Fraction):
                self.raise_py(TypeError, 'float array dimension')
            if is_z3(s):
                s = z3.simplify(s)
                if z3.is_int_value(s):
                    s = s.as_long()
                elif self.eng.branch(s < 0):
                    self.raise_py(ValueError, 'negative dimensions')
            elif s < 0:
                self.raise_py(ValueError, 'negative dimensions')
            out.append(s)
        return tuple(out)

    def from_nested(self, v):
        """list/tuple of (lists of) numbers -> SArr"""
        v = self.force(v)
        if isinstance(v, SArr):
            return v
        if isinstance(v, Obj) and '__seq__' in v.fields:
            v = v.fields['__seq__']
        if is_num(v) or isinstance(v, Cx):
            return self.arr((), lambda: v)
        if isinstance(v, (VList, SymSeq, tuple)):
            if isinstance(v, VList) and v.items is None or isinstance(v, SymSeq):
                s = v.seq if isinstance(v, VList) else v
                probe = s.get(z3.IntVal(0))
                if is_num(probe) or isinstance(probe, Cx):
                    return self.arr((s.length,), lambda i: s.get(to_int(i)))
                raise Unsupported('array from symbolic nested list')
            items = [self.from_nested(x) for x in self.concrete_iter(v)]
            if not items:
                return self.arr((0,), lambda i: Fraction(0))
            sh = items[0].shape
            for it in items:
                if len(it.shape) != len(sh):
                    raise Unsupported('ragged array')
            fns = [it.fn for it in items]

            def fn(i, *rest):
                if not is_z3(i):
                    return fns[i](*rest)
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    return fns[i.as_long()](*rest)
                r = fns[-1](*rest)
                for j in range(len(fns) - 2, -1, -1):
                    r = ite(i == j, fns[j](*rest), r)
                return r
            return self.arr((len(items),) + sh, fn)
        raise Unsupported('array from %r' % (v,))

    # ---- elementwise -----------------------------------------------------
    def map1(self, f, a, dtype=None):
        g = a.fn
        return self.arr(a.shape, lambda *ix: f(g(*ix)), dtype or a.dtype)

    def same_dim(self, a, b):
        if not is_z3(a) and not is_z3(b):
            return a == b
        c = eqz(a, b)
        return not self.bad(znot(c))

    def bad(self, cond):
        """a run-time check of the host (True: the exception is raised).  While a
        loop invariant is being inferred the check is taken to succeed; it is
        examined again in the invariant state."""
        eng = self.eng
        if eng.quiet and not isinstance(cond, bool):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if not z3.is_false(cond):
                if eng.check(z3.Not(cond)) == z3.unsat:
                    return True
                eng.soft_fact(('okc', cond.sexpr()), z3.Not(cond))
            return False
        return eng.branch(cond)

    def negidx(self, i):
        """sign of an index.  During inference an index of unknown sign is taken
        to be non-negative; if the invariant state then allows a negative one
        the result is Unsupported, never a wrong invariant."""
        eng = self.eng
        i = z3.simplify(i)
        key = getattr(self, 'cur_loc', None)
        if eng.quiet:
            if z3.is_int_value(i):
                return i.as_long() < 0
            if eng.check(i < 0) == z3.unsat:
                return False
            if eng.check(i >= 0) == z3.unsat:
                return True
            eng.soft_fact(('okn', i.sexpr()), i >= 0)
            self.softneg.add(key)
            return False
        r = eng.branch(i < 0)
        if r and key in self.softneg:
            raise Unsupported('index may be negative at %s' % (key,))
        return r

    def map2(self, f, a, b, dtype=None):
        if not isinstance(a, SArr):
            if isinstance(a, (VList, tuple)):
                a = self.from_nested(a)
            else:
                g = b.fn
                av = a
                return self.arr(b.shape, lambda *ix: f(av, g(*ix)), dtype or self.dt2(a, b))
        if not isinstance(b, SArr):
            if isinstance(b, (VList, tuple)):
                b = self.from_nested(b)
            else:
                g = a.fn
                bv = b
                return self.arr(a.shape, lambda *ix: f(g(*ix), bv), dtype or self.dt2(a, b))
        ga, gb = a.fn, b.fn
        n = max(a.ndim, b.ndim)
        sa = (1,) * (n - a.ndim) + a.shape
        sb = (1,) * (n - b.ndim) + b.shape
        shape, ma, mb = [], [], []
        for x, y in zip(sa, sb):
            if not is_z3(x) and x == 1 and (is_z3(y) or y != 1):
                shape.append(y)
                ma.append(True)
                mb.append(False)
            elif not is_z3(y) and y == 1 and (is_z3(x) or x != 1):
                shape.append(x)
                ma.append(False)
                mb.append(True)
            else:
                if not self.same_dim(x, y):
                    self.raise_py(ValueError, 'operands could not be broadcast together')
                shape.append(x if not is_z3(x) else (y if not is_z3(y) else x))
                ma.append(False)
                mb.append(False)
        da, db = n - a.ndim, n - b.ndim

        def fn(*ix):
            xa = tuple(0 if m else i for i, m in zip(ix, ma))[da:]
            xb = tuple(0 if m else i for i, m in zip(ix, mb))[db:]
            return f(ga(*xa), gb(*xb))
        return self.arr(shape, fn, dtype or self.dt2(a, b))

    def dt2(self, a, b):
        for v in (a, b):
            if isinstance(v, (Cx, complex)) or (isinstance(v, SArr) and v.dtype == 'complex'):
                return 'complex'
        return 'float'

    # ---- indexing --------------------------------------------------------
    def norm_idx(self, i, dim, what='index'):
        i = self.force(i)
        if isinstance(i, Fraction) or (is_z3(i) and z3.is_real(i)):
            self.raise_py(IndexError, 'float index')
        if isinstance(i, SArr) and i.ndim == 0:
            i = i.fn()
        if not is_intlike(i):
            raise Unsupported('%s %r' % (what, i))
        if not is_z3(i) and not is_z3(dim):
            if i < 0:
                i += dim
            if not 0 <= i < dim:
                self.raise_py(IndexError, 'index out of bounds')
            return i
        eng = self.eng
        if is_z3(i):
            i = z3.simplify(to_int(i))
            if z3.is_int_value(i):
                i = i.as_long()
        if not is_z3(i):
            if i < 0:
                r = z3.simplify(dim + i)
                if self.bad(r < 0):
                    self.raise_py(IndexError, 'index out of bounds')
                return r
            if self.bad(to_int(i) >= dim):
                self.raise_py(IndexError, 'index out of bounds')
            return i
        key = ('nidx', i.sexpr(), dim.sexpr() if is_z3(dim) else dim)
        got = eng.cache.get(key)
        if got is not None:
            return got
        if self.negidx(i):
            r = z3.simplify(i + dim)
            if self.bad(r < 0):
                self.raise_py(IndexError, 'index out of bounds')
        else:
            r = i
            if self.bad(r >= dim):
                self.raise_py(IndexError, 'index out of bounds')
        eng.cache[key] = r
        return r

    def norm_slice(self, s, dim):
        """-> (start, length) for step 1;  start/length may be symbolic"""
        if s.step is not None and not (not is_z3(s.step) and s.step == 1):
            raise Unsupported('slice step')

        def norm(v, default):
            if v is None:
                return default
            v = self.force(v)
            if v is None:
                return default
            if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)):
                self.raise_py(TypeError, 'slice indices must be integers')
            if not is_z3(v) and not is_z3(dim):
                if v < 0:
                    v = max(0, v + dim)
                return min(v, dim)
            v = to_int(v)
            v = z3.simplify(v)
            d = to_int(dim)
            if self.eng.branch(v < 0):
                v = z3.simplify(v + d)
                if self.eng.branch(v < 0):
                    return 0
                return v
            if self.eng.branch(v > d):
                return dim
            return v.as_long() if z3.is_int_value(v) else v
        a = norm(s.start, 0)
        b = norm(s.stop, dim)
        if not is_z3(a) and not is_z3(b):
            return a, max(0, b - a)
        if self.eng.branch(to_int(b) < to_int(a)):
            return a, 0
        ln = z3.simplify(to_int(b) - to_int(a))
        if z3.is_int_value(ln):
            ln = ln.as_long()
        return a, ln

    def arr_index(self, a, k):
        """classify an index expression: returns ('elem', idx) or ('view', SView)
        or ('fancy', ...)"""
        if not isinstance(k, tuple):
            k = (k,)
        k = tuple(self.force(x) for x in k)
        if any(x is Ellipsis for x in k):
            e = [i for i, x in enumerate(k) if x is Ellipsis][0]
            k = k[:e] + (slice(None, None, None),) * (a.ndim - len(k) + 1) + k[e + 1:]
        if any(x is None for x in k):
            raise Unsupported('newaxis')
        if len(k) > a.ndim:
            self.raise_py(IndexError, 'too many indices')
        if any(isinstance(x, (VList, tuple)) or (isinstance(x, SArr) and x.ndim > 0) for x in k):
            return 'fancy', k
        k = k + (slice(None, None, None),) * (a.ndim - len(k))
        maps, shape = [], []
        allint = True
        for x, d in zip(k, a.shape):
            if isinstance(x, slice):
                st, ln = self.norm_slice(x, d)
                maps.append(('s', st, ln))
                shape.append(ln)
                allint = False
            else:
                maps.append(('i', self.norm_idx(x, d)))
        if allint:
            return 'elem', tuple(m[1] for m in maps)

        def idxmap(*ix):
            out, p = [], 0
            for m in maps:
                if m[0] == 'i':
                    out.append(m[1])
                else:
                    i = ix[p]
                    p += 1
                    out.append(i if (not is_z3(m[1]) and m[1] == 0) else
                               (i + m[1] if not (is_z3(i) or is_z3(m[1])) else to_int(i) + to_int(m[1])))
            return tuple(out)

        def inv(*bix):
            conds, vix = [], []
            for m, b in zip(maps, bix):
                if m[0] == 'i':
                    conds.append(eqz(b, m[1]))
                else:
                    full = not is_z3(m[1]) and m[1] == 0
                    off = b if full else ((b - m[1]) if not (is_z3(b) or is_z3(m[1])) else to_int(b) - to_int(m[1]))
                    conds.append(self.cmp('>=', off, 0))
                    conds.append(self.cmp('<', off, m[2]))
                    vix.append(off)
            return zand(*conds), tuple(vix)
        return 'view', SView(self.eng, a, shape, idxmap, inv)

    def arr_get(self, a, k):
        kind, x = self.arr_index(a, k)
        if kind == 'elem':
            return a.fn(*x)
        if kind == 'view':
            return x
        return self.fancy_get(a, x)

    def fancy_lists(self, a, k):
        ls = []
        n = None
        for x in k:
            if isinstance(x, (VList, tuple)):
                it = list(self.concrete_iter(x))
            elif isinstance(x, SArr) and x.ndim == 1 and not is_z3(x.shape[0]):
                it = [x.fn(i) for i in range(x.shape[0])]
            else:
                raise Unsupported('fancy index')
            if any(isinstance(q, bool) or is_z3(q) and z3.is_bool(q) for q in it):
                raise Unsupported('boolean mask')
            if n is None:
                n = len(it)
            elif n != len(it):
                self.raise_py(IndexError, 'shape mismatch')
            ls.append(it)
        if len(ls) != a.ndim:
            raise Unsupported('partial fancy index')
        return [tuple(self.norm_idx(l[i], d) for l, d in zip(ls, a.shape)) for i in range(n)]

    def fancy_get(self, a, k):
        if len(k) == 1 and a.ndim == 2 and isinstance(self.force(k[0]), (VList, tuple)):
            rows = [self.force(q) for q in self.concrete_iter(k[0])]
            if all(is_intlike(q) and not isinstance(q, bool) and not (is_z3(q) and z3.is_bool(q)) for q in rows):
                rows = [self.norm_idx(q, a.shape[0]) for q in rows]
                m = a.shape[1]

                def at(i, j):
                    if not rows:
                        return Fraction(0)
                    if not is_z3(i):
                        return a.fn(rows[i], j)
                    r = a.fn(rows[-1], j)
                    for t in range(len(rows) - 2, -1, -1):
                        r = ite(to_int(i) == t, a.fn(rows[t], j), r)
                    return r
                return self.arr((len(rows), m), at)
        ixs = self.fancy_lists(a, k)
        vals = [a.fn(*ix) for ix in ixs]
        return self.from_nested(tuple(vals)) if vals else self.arr((0,), lambda i: Fraction(0))

    def arr_set(self, a, k, v):
        v = self.force(v)
        self.log_mod(('arr', a.id), a)
        kind, x = self.arr_index(a, k)
        if kind == 'elem':
            if isinstance(v, SArr):
                tot = [s for s in v.shape if is_z3(s) or s != 1]
                if tot:
                    self.raise_py(ValueError, 'setting an array element with a sequence')
                v = v.fn(*([0] * v.ndim))
            if v is None or isinstance(v, (str, Obj, Opaque)):
                if isinstance(v, Opaque):
                    raise Unsupported('opaque in array')
                self.raise_py(TypeError, 'float() argument')
            if not (is_num(v) or isinstance(v, (Cx, complex))):
                raise Unsupported('array element %r' % (v,))
            self.store(a, x, v)
        elif kind == 'view':
            self.view_set(x, v)
        else:
            ixs = self.fancy_lists(a, x)
            vs = self.from_nested(v) if not is_num(v) else None
            if vs is not None and vs.ndim == 0:
                v, vs = vs.fn(), None
            if vs is not None and (vs.ndim != 1 or not self.same_dim(vs.shape[0], len(ixs))):
                self.raise_py(ValueError, 'shape mismatch in fancy assignment')
            vals = [vs.fn(i) if vs is not None else v for i in range(len(ixs))]
            for ix, val in zip(ixs, vals):
                self.store(a, ix, val)

    def store(self, a, ix, v):
        old = a.fn

        def fn(*jx):
            c = zand(*[eqz(i, j) for i, j in zip(ix, jx)])
            return ite(c, v, old(*jx)) if not (isinstance(c, bool) and c) else v
        # keep ite lazy when condition is concrete
        def fn2(*jx):
            c = zand(*[eqz(i, j) for i, j in zip(ix, jx)])
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if isinstance(c, bool):
                return v if c else old(*jx)
            return ite(c, v, old(*jx))
        a.setfn(fn2)

    def view_set(self, view, v):
        if isinstance(v, (VList, tuple)):
            v = self.from_nested(v)
        if isinstance(v, SArr):
            b = self.broadcast_to(v, view.shape)
            view.setfn(b)
        else:
            if isinstance(v, Opaque) or v is None:
                raise Unsupported('array assignment of %r' % (v,))
            view.setfn(lambda *ix: v)

    def broadcast_to(self, v, shape):
        f = v.fn
        n = len(shape)
        vs = v.shape
        while len(vs) > n:
            if not is_z3(vs[0]) and vs[0] == 1:
                g = f
                f = (lambda g: (lambda *ix: g(0, *ix)))(g)
                vs = vs[1:]
            else:
                self.raise_py(ValueError, 'could not broadcast')
        d = n - len(vs)
        one = []
        for s, t in zip(vs, shape[d:]):
            if not is_z3(s) and s == 1 and (is_z3(t) or t != 1):
                one.append(True)
            else:
                if not self.same_dim(s, t):
                    self.raise_py(ValueError, 'could not broadcast input array')
                one.append(False)
        return lambda *ix: f(*[0 if o else i for i, o in zip(ix[d:], one)])

    def arr_assign(self, a, new):
        """in-place a[...] = new (augmented assignment)"""
        self.log_mod(('arr', a.id), a)
        if isinstance(new, SArr):
            a.setfn(self.broadcast_to(new, a.shape))
        else:
            a.setfn(lambda *ix: new)

    # ---- reshaping -------------------------------------------------------
    def reshape(self, a, sh):
        if not isinstance(sh, tuple):
            sh = (sh,)
        if len(sh) == 1 and isinstance(sh[0], (tuple, VList)):
            sh = tuple(self.concrete_iter(sh[0]))
        sh = list(sh)
        if all(not is_z3(s) for s in a.shape):
            tot = 1
            for s in a.shape:
                tot *= s
            if -1 in sh:
                p = 1
                for s in sh:
                    if s != -1:
                        p *= s
                sh[sh.index(-1)] = tot // p if p else 0
            if any(is_z3(s) for s in sh):
                raise Unsupported('symbolic reshape')
            p = 1
            for s in sh:
                p *= s
            if p != tot:
                self.raise_py(ValueError, 'cannot reshape')
            fn, osh = a.fn, a.shape

            def g(*ix):
                if any(is_z3(i) for i in ix) and not (len(osh) == 1 and len(sh) == 1):
                    # flatten index symbolically by case split
                    flat = 0
                    for i, s in zip(ix, sh):
                        flat = flat * s + (i if not is_z3(i) else i)
                    r = None
                    for f in range(tot - 1, -1, -1):
                        v = fn(*unflat(f, osh))
                        r = v if r is None else ite(eqz(flat, f), v, r)
                    return r
                flat = 0
                for i, s in zip(ix, sh):
                    flat = flat * s + i
                return fn(*unflat(flat, osh)) if not is_z3(flat) else fn(flat)
            return self.arr(sh, g, a.dtype)
        # symbolic: allow column/row/flat conversions
        big = [(i, s) for i, s in enumerate(a.shape) if is_z3(s) or s != 1]
        if len(big) == 1:
            pos, n = big[0]
            tgt = [i for i, s in enumerate(sh) if (not is_z3(s) and s == -1) or is_z3(s) or s != 1]
            if len(tgt) == 1:
                s = sh[tgt[0]]
                if is_z3(s) or s != -1:
                    if not self.same_dim(s, n):
                        self.raise_py(ValueError, 'cannot reshape')
                sh[tgt[0]] = n
                fn, nd = a.fn, a.ndim
                t = tgt[0]
                return self.arr(sh, lambda *ix: fn(*[ix[t] if q == pos else 0 for q in range(nd)]), a.dtype)
        if len(sh) == len(a.shape) and all(eqz(x, y) is True or (is_z3(x) and is_z3(y) and x.eq(y))
                                           for x, y in zip(sh, a.shape)):
            return a
        raise Unsupported('symbolic reshape')

    def transpose(self, a):
        fn = a.fn
        return self.arr(a.shape[::-1], lambda *ix: fn(*ix[::-1]), a.dtype)

    def concat(self, arrs, axis):
        arrs = [self.from_nested(x) if not isinstance(x, SArr) else x for x in arrs]
        base = arrs[0]
        nd = base.ndim
        for x in arrs:
            if x.ndim != nd:
                self.raise_py(ValueError, 'concatenate: dimensions')
        if nd == 0:
            self.raise_py(ValueError, 'zero-dimensional arrays')
        if axis < 0:
            axis += nd
        for x in arrs[1:]:
            for d in range(nd):
                if d != axis and not self.same_dim(x.shape[d], base.shape[d]):
                    self.raise_py(ValueError, 'concatenate: sizes')
        offs, tot = [], 0
        for x in arrs:
            offs.append(tot)
            tot = self.add(tot, x.shape[axis])
        if is_z3(tot):
            tot = z3.simplify(tot)
        fns = [x.fn for x in arrs]
        sh = list(base.shape)
        sh[axis] = tot

        def fn(*ix):
            i = ix[axis]
            r = None
            for q in range(len(arrs) - 1, -1, -1):
                jx = list(ix)
                off = offs[q]
                jx[axis] = self.sub(i, off) if not (not is_z3(off) and off == 0) else i
                if r is None:
                    val = lambda jx=jx, q=q: fns[q](*jx)
                    r = val
                else:
                    c = self.cmp('<', i, offs[q + 1])
                    if is_z3(c):
                        c = z3.simplify(c)
                        c = True if z3.is_true(c) else False if z3.is_false(c) else c
                    prev = r
                    if isinstance(c, bool):
                        if c:
                            r = (lambda jx=jx, q=q: fns[q](*jx))
                    else:
                        r = (lambda c=c, jx=jx, q=q, prev=prev: ite(c, fns[q](*jx), prev()))
            return r()
        dt = 'complex' if any(x.dtype == 'complex' for x in arrs) else base.dtype
        return self.arr(sh, fn, dt)

    def atleast2(self, a):
        if a.ndim >= 2:
            return a
        fn = a.fn
        if a.ndim == 1:
            return self.arr((1,) + a.shape, lambda i, j: fn(j), a.dtype)
        return self.arr((1, 1), lambda i, j: fn(), a.dtype)

    def np_dot(self, a, b):
        h = self.user_hooks.get('dot')
        if h is not None:
            r = h(self, a, b)
            if r is not NotImplemented:
                return r
        a = self.from_nested(a) if not isinstance(a, SArr) and not is_num(a) else a
        b = self.from_nested(b) if not isinstance(b, SArr) and not is_num(b) else b
        if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim == 0 or b.ndim == 0:
            return self.mul(a if not isinstance(a, SArr) or a.ndim else a.fn(),
                            b if not isinstance(b, SArr) or b.ndim else b.fn())
        n = a.shape[-1]
        m = b.shape[-2] if b.ndim > 1 else b.shape[0]
        if not self.same_dim(n, m):
            self.raise_py(ValueError, 'shapes not aligned')
        if is_z3(n):
            n = m
        if is_z3(n):
            return self.sym_dot(a, b, n)
        fa, fb = a.fn, b.fn

        def s(f, g):
            r = Fraction(0)
            for q in range(n):
                r = self.add(r, self.mul(f(q), g(q)))
            return r
        dt = self.dt2(a, b)
        if a.ndim == 1 and b.ndim == 1:
            return s(fa, fb)
        if a.ndim == 2 and b.ndim == 2:
            return self.arr((a.shape[0], b.shape[1]),
                            lambda i, j: s(lambda q: fa(i, q), lambda q: fb(q, j)), dt)
        if a.ndim == 2 and b.ndim == 1:
            return self.arr((a.shape[0],), lambda i: s(lambda q: fa(i, q), fb), dt)
        if a.ndim == 1 and b.ndim == 2:
            return self.arr((b.shape[1],), lambda j: s(fa, lambda q: fb(q, j)), dt)
        raise Unsupported('dot')

    def sym_dot(self, a, b, n):
        """inner products over a dimension of any size: sums defined by recursion"""
        fa, fb = a.fn, b.fn
        if a.ndim > 2 or b.ndim > 2:
            raise Unsupported('dot')
        q = z3.Int(self.eng.fresh('q'))
        I = [z3.Int(self.eng.fresh('di'))] if a.ndim == 2 else []
        J = [z3.Int(self.eng.fresh('dj'))] if b.ndim == 2 else []
        p = self.mul(fa(*(I + [q])), fb(*([q] + J)))
        cx = isinstance(p, Cx)
        parts = [p.re, p.im] if cx else [p]
        fds = [self.fold_register('dot', q, I + J, to_real(x), n) for x in parts]

        def at(*ix):
            v = [self.fold_at(fd, n, [to_int(x) for x in ix]) for fd in fds]
            return Cx(v[0], v[1]) if cx else v[0]
        sh = a.shape[:-1] + (b.shape[1:] if b.ndim == 2 else ())
        if not sh:
            return at()
        return self.arr(sh, at, self.dt2(a, b))

    def reduce_all(self, a, f, init):
        if any(is_z3(s) for s in a.shape):
            return None
        import itertools
        r = init
        for ix in itertools.product(*[range(s) for s in a.shape]):
            r = f(r, a.fn(*ix))
        return r


def unflat(f, shape):
    out = []
    for s in reversed(shape):
        out.append(f % s)
        f //= s
    return tuple(reversed(out))
