"""Loop rule.

A loop over a sequence of symbolic length is replaced by an *inferred*
inductive invariant:

* the body is executed once on an arbitrary iteration k (all its paths), from a
  state in which everything the loop can change is arbitrary;
* a number / array cell x that every path changes by an amount d(k) that does
  not depend on the changed state gets the invariant x(k) = x0 + F(k), where F
  is the function defined by F(0) = 0, F(k+1) = F(k) + d(k);
* a cell that is overwritten gets the invariant "value of the last iteration
  that wrote it";
* a list that is appended to gets length x0 + F(k) and the appended values;
* everything else keeps only the candidate invariants that survive the
  initialisation and preservation checks (Houdini).

All these are checked, not assumed: the additive form of each path is an SMT
validity query.  Iterations that leave the loop (break, return, exception) are
executed separately from the invariant state of an arbitrary iteration.
"""
import ast
from fractions import Fraction
import z3
from .engine import Unsupported, PathAbort, PyExc, Budget, is_z3
from .values import *

Z = z3.IntSort()
RS = z3.RealSort()


class NeedKind(Exception):
    def __init__(self, var):
        self.var = var


class LoopPoison(Poison):
    def __init__(self, var, st):
        self.why = 'loop-carried variable %s' % var
        self.var = var
        self.st = st


class LazyVal(object):
    """value computed at the first read of a variable"""

    def __init__(self, fn):
        self.fn = fn


class FoldDef(object):
    def __init__(self, name, f, k, ix, delta, n, rng=None):
        self.name = name
        self.f = f
        self.k = k
        self.ix = list(ix)
        self.delta = delta
        self.n = n
        self.nonneg = False
        self.facts = []           # axiom instances valid for every (k, ix) in range


def consts_in(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


def apps_of(e, names):
    """all applications of the given uninterpreted functions in e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out.append(x)
            st.extend(x.children())
    return out


def sub_apps(e, name, val):
    """replace every application of function `name` by val"""
    a = apps_of(e, {name})
    if not a:
        return e
    # innermost first is not needed: no nested applications of the same array
    return z3.substitute(e, *[(x, val) for x in a])


def store_cond(p, f):
    """condition under which the conditional expression p does not keep f(...)"""
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and z3.is_real(p):
        a, b = store_cond(p.arg(1), f), store_cond(p.arg(2), f)
        if a is None or b is None:
            return None
        return z3.simplify(z3.Or(z3.And(p.arg(0), a), z3.And(z3.Not(p.arg(0)), b)))
    if z3.is_app(p) and p.decl().name() == f.name():
        return z3.BoolVal(False)
    if apps_of(p, {f.name()}):
        return None
    return z3.BoolVal(True)


def num_val(v):
    if isinstance(v, SArr):
        return v
    return v


class LoopRules(object):

    # ------------------------------------------------------------ snapshots
    def snapshot(self, fr):
        objs = {}
        for i, o in self.eng.objs.items():
            if isinstance(o, SArr):
                objs[i] = o._fn
            elif isinstance(o, Obj):
                objs[i] = (o.cls, dict(o.fields))
            elif isinstance(o, VList):
                objs[i] = (o.items, o.seq)
            elif isinstance(o, (VDict, VMap)):
                objs[i] = (o.__class__, o.d)
        return objs, dict(fr.locals), getattr(self, 'cur_exc', None), self.depth, self.numpy_math

    def restore(self, snap, fr):
        objs = snap[0]
        reg = self.eng.objs
        for i in [i for i in reg if i not in objs]:
            del reg[i]
        for i, s in objs.items():
            o = reg[i]
            if isinstance(o, SArr):
                o._fn = s
            elif isinstance(o, Obj):
                o.cls, o.fields = s[0], dict(s[1])
            elif isinstance(o, VList):
                o.items, o.seq = s
            elif isinstance(o, (VDict, VMap)):
                o.__class__, o.d = s
        fr.locals.clear()
        fr.locals.update(snap[1])
        self.cur_exc, self.depth, self.numpy_math = snap[2], snap[3], snap[4]

    building = 0

    def log_mod(self, key, obj):
        if self.building:
            return
        for ctx in self.loop_ctx:
            ctx.log(key, obj)

    @property
    def loop_ctx(self):
        return self.eng.cache.setdefault(('loopctx',), ()) or ()

    @property
    def inferred_ctx(self):
        """enclosing loops under the inferred rule (an iteration of a loop with a
        written contract is one arbitrary iteration of the current path)"""
        return [c for c in self.loop_ctx if isinstance(c, LoopRun)]

    # ------------------------------------------------------------ statements
    def st_For(self, st, fr):
        from .interp import BreakSig, ContinueSig, _PyIter
        it = self.ev(st.iter, fr)
        seq = self.as_seq(it)
        if isinstance(seq, SymSeq):
            sp = self.loop_spec(st, fr)
            if sp is not None:
                return self.annotated(sp, st, fr, seq)
            r = LoopRun(self, st, fr, seq).run()
            if r == 'break':
                return
            self.exec_body(st.orelse, fr)
            return
        if isinstance(seq, _PyIter):
            return self.iter_for(st, fr, seq.obj)
        for x in seq:
            self.assign(st.target, x, fr)
            try:
                self.exec_body(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_body(st.orelse, fr)

    def iter_for(self, st, fr, obj):
        """for x in <iterator object>: unrolled while concrete; bounded -> Unsupported"""
        from .interp import BreakSig, ContinueSig
        h = self.user_hooks.get('iterloop')
        if h is not None:
            r = h(self, st, fr, obj)
            if r is not NotImplemented:
                return
        nx = self.lookup_cls(obj, '__next__') or self.lookup_cls(obj, 'next')
        for _ in range(200):
            try:
                x = self.call(nx, [obj], {})
            except PyExc as e:
                if isinstance(e.obj.cls, ExtClass) and e.obj.cls.py is StopIteration:
                    self.exec_body(st.orelse, fr)
                    return
                raise
            self.assign(st.target, x, fr)
            try:
                self.exec_body(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        raise Unsupported('iterator loop too long')

    # ------------------------------------------------- annotated loop contracts
    def loop_spec(self, st, fr):
        sp = self.loop_specs.get(fr.func.qual if fr.func else '')
        if callable(sp):
            return sp(st, fr)
        return sp

    def bookkeeping(self, sp, nm, c):
        # an invariant about how the loop counts says nothing about the result: where it
        # does not hold the written contract does not fit this loop, and nothing is decided
        if nm in sp.counting and self.eng.valid(to_bool3(c))[0] != 'proved':
            raise Unsupported('loop contract of %s does not fit: %s' % (sp.name, nm))

    def annotated(self, sp, st, fr, seq):
        """Classical loop rule with a written contract: the invariant holds at
        entry, every iteration from any state allowed by it re-establishes it (and
        lowers the variant), and the loop is left from such a state.  The havoc
        clause is checked: an iteration may only change what it declares."""
        from .interp import BreakSig, ContinueSig
        eng = self.eng
        names = set(sp.targets(st))
        for nm, c in sp.inv(self, fr, 0 if seq is not None else None):
            self.bookkeeping(sp, nm, c)
            eng.prove(c, sp.name + '.' + nm + '_at_entry')
        n = z3.simplify(to_int(seq.length)) if seq is not None else None
        way = eng.decide(2, None, 'loop')
        if way == 0 and sp.fresh_exit and seq is not None:
            # left after the last iteration (if any): any state allowed by the invariant
            for v in names:
                if v not in sp.havoced:
                    fr.locals[v] = LoopPoison(v, st)
            eng.assume(n >= 0)
            sp.havoc(self, fr)
            for nm, c in sp.inv(self, fr, n):
                eng.assume(c)
            if not eng.feasible(z3.BoolVal(True)):
                raise PathAbort('no such state')
            self.exec_body(st.orelse, fr)
            return
        if way == 0:
            # no iteration at all
            if seq is not None:
                eng.assume(n <= 0)
            elif self.test(self.ev(st.test, fr)):
                raise PathAbort('loop entered')
            self.exec_body(st.orelse, fr)
            return
        start = eng.alloc
        allowed = set(sp.frame(self, fr))
        ctx = _ModLog(allowed)
        missing = [v for v in sp.havoced if v not in fr.locals and v not in names]
        if missing:
            raise Unsupported('loop contract of %s: no variable %s' % (sp.name, missing))
        for v in names:
            if v not in sp.havoced:
                fr.locals[v] = LoopPoison(v, st)
        k = z3.Int(eng.fresh('it')) if seq is not None else None
        sp.havoc(self, fr)
        for nm, c in sp.inv(self, fr, k):
            eng.assume(c)
        if seq is not None:
            eng.assume(z3.And(k >= 0, k < n))
        if sp.fresh_exit and not eng.feasible(z3.BoolVal(True)):
            raise PathAbort('no such state')
        old = sp.variant(self, fr) if sp.variant else None
        if old is not None:
            eng.prove(to_int(old) >= 0, sp.name + '.variant_not_negative')
        ctxs = self.loop_ctx
        eng.cache[('loopctx',)] = ctxs + (ctx,)
        try:
            if seq is None:
                if not self.test(self.ev(st.test, fr)):
                    raise PathAbort('loop not entered')
            else:
                self.assign(st.target, seq.get(k), fr)
            brk = False
            try:
                self.exec_body(st.body, fr)
            except ContinueSig:
                pass
            except BreakSig:
                brk = True
        finally:
            eng.cache[('loopctx',)] = ctxs
            bad = [x for x in ctx.mods if x[1] <= start and x not in allowed]
            if bad:
                raise Unsupported('loop contract of %s: the loop also changes %s' % (sp.name, bad[:3]))
        if brk:
            return
        k1 = None if k is None else k + 1
        for nm, c in sp.inv(self, fr, k1):
            self.bookkeeping(sp, nm, c)
            eng.prove(c, sp.name + '.' + nm + '_preserved')
        if seq is not None and sp.fresh_exit:
            eng.cover(sp.name + '.another_iteration')
            raise PathAbort('another iteration')
        if seq is not None:
            eng.assume(k1 == n)
        elif self.test(self.ev(st.test, fr)):
            if old is not None:
                eng.prove(to_int(sp.variant(self, fr)) < to_int(old), sp.name + '.variant_decreases')
            eng.cover(sp.name + '.another_iteration')
            raise PathAbort('another iteration')
        eng.cover(sp.name + '.last_iteration')
        self.exec_body(st.orelse, fr)

    max_unroll = 40

    def st_While(self, st, fr):
        from .interp import BreakSig, ContinueSig
        sp = self.loop_spec(st, fr)
        if sp is not None:
            return self.annotated(sp, st, fr, None)
        n = 0
        const_true = isinstance(st.test, ast.Constant) and st.test.value
        while True:
            if const_true or n > self.max_unroll:
                break
            snap = self.snapshot(fr)
            t = self.truth(self.ev(st.test, fr))
            if is_z3(t):
                t = z3.simplify(t)
                t = True if z3.is_true(t) else False if z3.is_false(t) else t
            if is_z3(t):
                break
            if not t:
                self.exec_body(st.orelse, fr)
                return
            try:
                self.exec_body(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
            n += 1
        qn = fr.func.qual if fr.func else ''
        if qn in self.unroll:
            return self.unrolled_while(st, fr, self.unroll[qn])
        r = LoopRun(self, st, fr, None).run()
        if r == 'break':
            return
        self.exec_body(st.orelse, fr)

    def unrolled_while(self, st, fr, lim):
        from .interp import BreakSig, ContinueSig
        for _ in range(lim):
            if not self.test(self.ev(st.test, fr)):
                self.exec_body(st.orelse, fr)
                return
            try:
                self.exec_body(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported('while loop unrolled %d times' % lim)

    # ------------------------------------------------------------ comprehension
    def sym_comp(self, node, g, seq, fr):
        """[elt for x in seq if c...] over a symbolic sequence"""
        snap = dict(fr.locals)
        kfr = fr

        def evalat(i, what):
            save = dict(kfr.locals)
            kfr.locals.clear()
            kfr.locals.update(snap)
            try:
                self.assign(g.target, seq.get(i), kfr)
                if what == 'cond':
                    r = True
                    for c in g.ifs:
                        r = zand(r, self.truth(self.ev(c, kfr)))
                    return r
                return self.ev(node.elt, kfr)
            finally:
                kfr.locals.clear()
                kfr.locals.update(save)
        if not g.ifs:
            return VList(self.eng, None, SymSeq(seq.length, lambda i: evalat(i, 'elt'), 'comp'))
        k = z3.Int(self.eng.fresh('kc'))
        n = to_int(seq.length)

        def run():
            self.eng.assume(z3.And(k >= 0, k < n))
            base = len(self.eng.pc)
            c = evalat(k, 'cond')
            return zand(*[f for f in self.eng.pc[base:] if not _isfact(self.eng, f)] + [c])
        snap0 = self.snapshot(fr)

        def run1():
            self.restore(snap0, fr)
            return run()
        conds = self.eng.nested(run1)
        self.restore(snap0, fr)
        cond = zor(*conds)
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = generalize(self.eng, cond, k)
        fd = self.fold_register('cnt', k, [], z3.If(cond, z3.RealVal(1), z3.RealVal(0)), n)
        cnt = lambda i: self.fold_at(fd, i, [])
        ln = z3.ToInt(cnt(n))
        sel = z3.Function(self.eng.fresh('sel'), Z, Z)

        def get(m):
            m = to_int(m)
            s = z3.simplify(sel(m))
            self.eng.fact_once(('sel', sel.name(), m.sexpr()), z3.Implies(
                z3.And(m >= 0, m < ln), z3.And(s >= 0, s < n, z3.substitute(cond, (k, s)), cnt(s) == z3.ToReal(m))))
            return evalat(s, 'elt')
        r = SymSeq(ln, get, 'filter')
        r.filter_of = (seq, k, cond, fd)
        return VList(self.eng, None, r)

    # ------------------------------------------------------------ folds
    def outer_extras(self, *exprs):
        """constants that vary with the iterations of enclosing loops and occur in
        exprs: they become explicit arguments of functions introduced inside"""
        ctxs = self.inferred_ctx
        if not ctxs:
            return []
        lim = min(c.counter0 for c in ctxs)
        ks = [c.k for c in ctxs]
        knames = set(k.decl().name() for k in ks)
        occ = set()
        for e in exprs:
            if is_z3(e):
                occ |= consts_in(e)
        out = [k for k in ks if k.decl().name() in occ]
        for e in exprs:
            if not is_z3(e):
                continue
            names = set()
            for nm in consts_in(e):
                if nm in knames or '!' not in nm or nm in self.eng.folds:
                    continue
                num = nm.rsplit('!', 1)[1]
                if num.isdigit() and int(num) > lim and not nm.startswith(('ix!', 'hc!')):
                    names.add(nm)
            if not names:
                continue
            got = set()
            for x in const_nodes(e, names):
                got.add(x.decl().name())
                if not any(x.eq(y) for y in out):
                    out.append(x)
            if any(nm.startswith('h_') for nm in names - got):
                raise Unsupported('inner loop depends on the contents of an array of the outer loop')
        return out

    def fold_register(self, name, k, ix, delta, n, match=True, hyps=()):
        """F(0,ix)=0, F(k+1,ix)=F(k,ix)+delta(k,ix) for 0<=k<n"""
        eng = self.eng
        delta = to_real(delta)
        kn = k.decl().name()
        extra = [x for x in self.outer_extras(delta, n) if x.decl().name() != kn and not any(x.eq(y) for y in ix)]
        ix = list(ix) + extra
        rng = z3.And(k >= 0, k < n, *hyps)
        if match:
            for h in self.index_facts:
                h(k)
            for fd in list(eng.folds.values()):
                if len(fd.ix) != len(ix) or any(a.sort() != b.sort() for a, b in zip(fd.ix, ix)):
                    continue
                sub = list(zip(fd.ix, ix))
                n2 = z3.simplify(z3.substitute(fd.n, *sub)) if sub else fd.n
                if not (n2.eq(n) or n2.eq(z3.simplify(n))):
                    continue
                d2 = z3.substitute(fd.delta, (fd.k, k), *sub)
                ok = d2.eq(delta)
                if not ok:
                    ok = eng.valid(z3.Implies(rng, d2 == delta), ms=1500)[0] == 'proved'
                if ok:
                    r = FoldDef(fd.name, fd.f, k, ix, delta, n)
                    r.nonneg, r.isint, r.facts = fd.nonneg, fd.isint, fd.facts
                    return r
        nm = eng.fresh('F_' + name)
        f = z3.Function(nm, *([Z] + [x.sort() for x in ix] + [RS]))
        fd = FoldDef(nm, f, k, ix, delta, n)
        fd.nonneg = eng.valid(z3.Implies(rng, delta >= 0), ms=1500)[0] == 'proved'
        fd.isint = integral(delta)
        okn = set(x.decl().name() for x in [k] + ix)
        for h in hyps:
            cn = consts_in(h)
            if kn in cn and not (cn & set(eng.folds)) and all('!' not in c or c in okn for c in cn):
                fd.facts.append(h)
        eng.folds[nm] = fd
        return fd

    def fold_args(self, fd, ix):
        ix = [to_int(i) if not (is_z3(i)) else i for i in ix]
        if len(ix) < len(fd.ix):
            ix = ix + list(fd.ix[len(ix):])
        return ix

    def fold_at(self, fd, k, ix):
        eng = self.eng
        k = z3.simplify(to_int(k))
        ix = self.fold_args(fd, ix)
        t = fd.f(*([k] + ix))
        key = ('fold', fd.name) + tuple(x.sexpr() for x in [k] + ix)
        if key in eng.facts_once:
            return t
        eng.fact_once(key, fd.f(*([z3.IntVal(0)] + ix)) == 0)
        if fd.isint:
            eng.fact_once(key + ('int',), z3.IsInt(t))
        if fd.nonneg:
            ikey = tuple(x.sexpr() for x in ix)
            lst = eng.cache.setdefault(('foldargs', fd.name) + ikey, [])
            eng.fact_once(key + ('nn',), z3.Implies(k >= 0, t >= 0))
            for k2 in lst:
                t2 = fd.f(*([k2] + ix))
                eng.fact_once(key + ('mono', k2.sexpr()), z3.And(
                    z3.Implies(z3.And(0 <= k, k <= k2), t <= t2), z3.Implies(z3.And(0 <= k2, k2 <= k), t2 <= t)))
            lst.append(k)
        return t

    def fold_step(self, fd, k, ix):
        """assert F(k+1) = F(k) + delta(k) for this k; returns F(k+1)"""
        k = z3.simplify(to_int(k))
        ix = self.fold_args(fd, ix)
        a, b = self.fold_at(fd, k, ix), self.fold_at(fd, z3.simplify(k + 1), ix)
        sub = list(zip(fd.ix, ix))
        d = z3.substitute(fd.delta, (fd.k, k), *sub)
        n = z3.substitute(fd.n, *sub) if sub else fd.n
        self.eng.fact_once(('step', fd.name) + tuple(x.sexpr() for x in [k] + ix),
                           z3.Implies(z3.And(k >= 0, k < n), b == a + d))
        return b

    def saturate(self, e, depth=0):
        """facts about the last-writer functions of inner loops that occur in e"""
        if depth > 3:
            return
        for a in apps_of(e, set(self.writers)):
            self.writers[a.decl().name()](a, depth)

    def prove_int_fold(self, r, fd, at, name, cases=None):
        """prove that the integer r (built from folds of loop counters) equals the
        value of fold fd at `at`, by induction"""
        eng = self.eng
        r = to_int(r)
        at = z3.simplify(to_int(at))
        self.fold_at(fd, at, [])
        # counters: ToInt of integer-valued folds is the fold itself
        subs = []
        st, seen = [r], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            st.extend(x.children())
            if x.decl().name() in eng.folds and not x.arg(0).eq(at):
                if eng.valid(x.arg(0) == at, ms=3000)[0] == 'proved':
                    subs.append((x, eng.folds[x.decl().name()].f(*([at] + [x.arg(i) for i in range(1, x.num_args())]))))
        if subs:
            r = z3.substitute(r, *subs)
        rr = self.strip_toint(r)
        return self.prove_fold_zero(rr - self.fold_at(fd, at, []), at, name, cases)

    def equal_folds(self, goal, ctx, signs=False):
        """sums occurring in goal that are equal term by term (signs: or are zero, or opposite)"""
        eng = self.eng
        apps = [a for a in apps_of(goal, set(eng.folds)) if eng.folds[a.decl().name()].ix]
        out = []

        def term(x, k):
            f = eng.folds[x.decl().name()]
            ix = [x.arg(q) for q in range(1, x.num_args())]
            self.inst_facts(f, k, ix)
            return z3.substitute(f.delta, (f.k, k), *list(zip(f.ix, ix)))
        for i, a in enumerate(apps):
            with eng.scope():
                if signs:
                    k = z3.Int(eng.fresh('ke'))
                    if eng.valid(z3.Implies(z3.And(ctx, k >= 0, k < a.arg(0)), term(a, k) == 0), ms=2000)[0] == 'proved':
                        out.append((a, z3.RealVal(0)))
                        continue
            for b in apps[:i]:
                if any(b.eq(x) for x, _ in out):
                    continue
                fa, fb = eng.folds[a.decl().name()], eng.folds[b.decl().name()]
                if not a.arg(0).eq(b.arg(0)) or (fa.ix and fa.f.eq(fb.f) and a.eq(b)):
                    continue
                rel = None
                with eng.scope():
                    k = z3.Int(eng.fresh('ke'))
                    da, db = term(a, k), term(b, k)
                    inr = z3.And(ctx, k >= 0, k < a.arg(0))
                    if eng.valid(z3.Implies(inr, da == db), ms=4000)[0] == 'proved':
                        rel = b
                    elif signs and eng.valid(z3.Implies(inr, da == -db), ms=4000)[0] == 'proved':
                        rel = -b
                if rel is not None:
                    out.append((a, rel))
                    break
        return out

    def inst_facts(self, fd, k, ix):
        for n, h in enumerate(fd.facts):
            g = z3.substitute(h, (fd.k, k), *list(zip(fd.ix, ix)))
            self.eng.fact_once(('ff', fd.name, n, k.sexpr()) + tuple(x.sexpr() for x in ix), g)

    def zero_fold(self, fd, at, ix, hyp, depth=0):
        """is F(at, ix) == 0 under hyp?  (every term of the sum is zero)"""
        eng = self.eng
        ix = self.fold_args(fd, ix)
        k = z3.Int(eng.fresh('kz'))
        d = z3.simplify(z3.substitute(fd.delta, (fd.k, k), *list(zip(fd.ix, ix))))
        h2 = z3.And(hyp, k >= 0, k < at)
        self.inst_facts(fd, k, ix)
        for h in self.index_facts:
            h(k)
        sub = []
        for a in apps_of(d, set(eng.folds)):
            f2 = eng.folds[a.decl().name()]
            a_ix = [a.arg(i) for i in range(1, a.num_args())]
            self.fold_at(f2, a.arg(0), a_ix)
            if f2.ix and depth < 3 and self.zero_fold(f2, a.arg(0), a_ix, h2, depth + 1):
                sub.append((a, z3.RealVal(0)))
        if sub:
            d = z3.substitute(d, *sub)
        return eng.valid(z3.Implies(h2, d == 0), ms=5000)[0] == 'proved'

    def strip_toint(self, r):
        if z3.is_app(r):
            k = r.decl().kind()
            if k == z3.Z3_OP_TO_INT:
                return r.arg(0)
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
                ch = [self.strip_toint(x) for x in r.children()]
                if k == z3.Z3_OP_ADD:
                    return z3.Sum(ch)
                if k == z3.Z3_OP_MUL:
                    return z3.Product(ch)
                if k == z3.Z3_OP_UMINUS:
                    return -ch[0]
                return ch[0] - z3.Sum(ch[1:])
        return z3.ToReal(r)

    def ctx_simplify(self, e, ctx=None):
        """replace If-conditions decided by the current path condition (and ctx)"""
        eng = self.eng
        memo = {}
        under = (lambda c: c) if ctx is None else (lambda c: z3.And(ctx, c))

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][0]
            if z3.is_app(x) and x.num_args():
                if x.decl().kind() == z3.Z3_OP_ITE:
                    c = z3.simplify(x.arg(0))
                    if z3.is_true(c) or (not z3.is_false(c) and eng.check(under(z3.Not(c))) == z3.unsat):
                        r = go(x.arg(1))
                    elif z3.is_false(c) or eng.check(under(c)) == z3.unsat:
                        r = go(x.arg(2))
                    else:
                        r = z3.If(x.arg(0), go(x.arg(1)), go(x.arg(2)))
                else:
                    ch = [go(y) for y in x.children()]
                    r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
            else:
                r = x
            memo[i] = (r, x)
            return r
        return go(e)

    def prove_fold_zero(self, expr, n, name, cases=None, info=None, hyps=()):
        with self.eng.scope():
            return self.prove_fold_zero1(expr, n, name, cases, info, hyps)

    def prove_fold_zero1(self, expr, n, name, cases=None, info=None, hyps=()):
        """prove expr == 0 by induction on the common fold bound n.

        cases: optional list of (label, fn(k) -> condition) splitting the step."""
        eng = self.eng
        if isinstance(expr, (int, Fraction)):
            return eng.prove(expr == 0, name)
        expr = to_real(expr)
        n = z3.simplify(to_int(n))
        expr = self.ctx_simplify(expr)
        apps = [a for a in apps_of(expr, set(eng.folds)) if a.arg(0).eq(n)]
        base = z3.substitute(expr, *[(a, z3.RealVal(0)) for a in apps]) if apps else expr
        if eng.valid(n >= 0, ms=2000)[0] != 'proved':
            eng.prove(n >= 0, name + '.bound', info)
        ok = eng.prove(base == 0, name + '.base', info)
        if not apps:
            return ok
        k = z3.Int(eng.fresh('ki'))
        subs_k, subs_k1 = [], []
        facts = []
        for a in apps:
            fd = eng.folds[a.decl().name()]
            ix = [a.arg(i) for i in range(1, a.num_args())]
            d = z3.substitute(fd.delta, (fd.k, k), *list(zip(fd.ix, ix)))
            subs_k.append((a, fd.f(*([k] + ix))))
            subs_k1.append((a, fd.f(*([k] + ix)) + d))
            inner = apps_of(d, set(eng.folds))
            self.inst_facts(fd, k, ix)
            for q in inner:
                self.fold_at(eng.folds[q.decl().name()], q.arg(0), [q.arg(i) for i in range(1, q.num_args())])
        for h in self.index_facts:
            h(k)
        hyp = z3.substitute(expr, *subs_k) == 0
        goal = z3.substitute(expr, *subs_k1) == 0
        rng = z3.And(k >= 0, k < n)
        eqs = self.equal_folds(goal, rng)
        if eqs:
            goal = z3.substitute(goal, *eqs)
        allok = ok
        hs = [h(k) for h in hyps]
        for label, cond in (cases or [('', lambda kk: z3.BoolVal(True))]):
            here = z3.And(rng, cond(k), *hs)
            gl = goal
            if label and any(eng.folds[x.decl().name()].ix for x in apps_of(goal, set(eng.folds))):
                gl = self.ctx_simplify(goal, here)
                eqs = self.equal_folds(gl, here, signs=True)
                if eqs:
                    gl = z3.substitute(gl, *eqs)
            g = z3.Implies(z3.And(here, hyp), gl)
            allok = eng.prove(g, name + '.step' + ('[%s]' % label if label else ''), info) and allok
        return allok


def integral(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return integral(e.arg(1)) and integral(e.arg(2))
        if k == z3.Z3_OP_TO_REAL:
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return all(integral(x) for x in e.children())
    return False


def _isfact(eng, f):
    i = f.get_id()
    return any(g.get_id() == i for g in eng.facts)


def generalize(eng, e, k, keep=()):
    """constants created inside the iteration become functions of k"""
    return e


class LoopRun(object):
    """one application of the loop rule"""

    def __init__(self, it, st, fr, seq):
        self.it, self.st, self.fr, self.seq = it, st, fr, seq
        self.eng = it.eng
        self.isfor = seq is not None
        self.n = z3.simplify(to_int(seq.length)) if self.isfor else None
        names = set()
        for b in st.body + ([] if not self.isfor else [st.target]):
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                if isinstance(x, ast.Global):
                    raise Unsupported('global in loop')
        self.tnames = set()
        if self.isfor:
            for x in ast.walk(st.target):
                if isinstance(x, ast.Name):
                    self.tnames.add(x.id)
        else:
            for x in ast.walk(st.test):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
        self.names = sorted(names)
        self.mods = {}            # key -> obj
        self.kinds = {}           # var -> kind
        self.dead = set()
        self.start_alloc = it.eng.alloc
        self.label = '%s:%d' % (fr.func.qual if fr.func else fr.module.name, st.lineno)

    # -- modification log --------------------------------------------------
    def log(self, key, obj):
        i = key[1]
        if i > self.start_alloc:
            if getattr(obj, 'havoc', False):
                # the first iteration would change the array the name had before the loop
                raise Unsupported('array both rebound and changed in place by the loop')
            if isinstance(obj, Obj) and isinstance(obj.tag, tuple) and obj.tag and obj.tag[0] == 'elem':
                if key[2] not in getattr(self.it, 'elem_mod_ok', ()):
                    raise Unsupported('loop modifies element attribute %s' % key[2])
            return
        if key not in self.mods:
            self.mods[key] = obj
            self.newmod = True

    # -- state -------------------------------------------------------------
    def entry(self):
        self.snap0 = self.it.snapshot(self.fr)
        self.v0 = dict((n, self.fr.locals[n]) for n in self.names if n in self.fr.locals)

    def heap_val(self, key):
        o = self.mods[key]
        if key[0] == 'attr':
            return o.fields.get(key[2])
        return o

    def set_heap(self, key, v):
        o = self.mods[key]
        if key[0] == 'attr':
            o.fields[key[2]] = v

    def locs(self):
        """all loop-carried locations: ('var', name) and heap keys"""
        return [('var', n) for n in self.names] + sorted(self.mods, key=repr)

    def get(self, loc):
        if loc[0] == 'var':
            return self.fr.locals.get(loc[1], _UNDEF)
        if loc[0] == 'attr':
            return self.mods[loc].fields.get(loc[2], _UNDEF)
        return self.mods[loc]

    def put(self, loc, v):
        if loc[0] == 'var':
            if v is _UNDEF:
                self.fr.locals.pop(loc[1], None)
            else:
                self.fr.locals[loc[1]] = v
        elif loc[0] == 'attr':
            if v is _UNDEF:
                self.mods[loc].fields.pop(loc[2], None)
            else:
                self.mods[loc].fields[loc[2]] = v
        elif loc[0] == 'arr':
            self.mods[loc]._fn = v._fn
        elif loc[0] == 'list':
            self.mods[loc].items, self.mods[loc].seq = v.items, v.seq
        else:
            raise Unsupported('loop modifies %s' % (loc,))

    # -- main --------------------------------------------------------------
    def run(self):
        it, eng = self.it, self.eng
        self.entry()
        self.sol, self.dimsol, self.rs = {}, {}, {}
        self.k = z3.Int(eng.fresh('k'))
        self.counter0 = eng.counter
        for rnd in range(60):
            try:
                self.newmod = False
                paths = self.pass_(resolved=None)
            except NeedKind as e:
                self.kinds[e.var] = self.kind_of_entry(e.var)
                continue
            if self.newmod:
                continue
            if self.refine_kinds(paths):
                continue
            break
        else:
            raise Unsupported('loop %s: no stable abstraction' % self.label)
        while self.solve(paths) and self.unsolved:
            paths = self.pass_(resolved=None)
        # second pass with the solved state: finds out how iterations can leave
        for rnd in range(20):
            outs = self.pass_(resolved=self.sol)
            if self.check_candidates(outs):
                break
        else:
            raise Unsupported('loop candidates do not stabilise')
        self.abn = [o for o in outs if o['out'] not in ('next', 'exit')]
        if eng.verbose > 1:
            print('LOOP', self.label, 'kinds', self.kinds, 'sol', [self.loc_name(x) for x in self.sol], 'dims',
                  [(self.loc_name(x), i, fd.name) for (x, i), fd in self.dimsol.items()], 'unsolved',
                  dict((self.loc_name(x), [str(y)[:300] for y in d]) for x, d in self.unsolved.items()),
                  'folds', [(fd.name, str(fd.delta)[:700]) for fd in self.dimsol.values()],
                  'outs', len(outs), 'abn', [(o['out'], str(o['val'])) for o in self.abn])
        self.nexts = [o for o in outs if o['out'] == 'next']
        self.finish_vars(outs)
        return self.leave()

    # -- kinds -------------------------------------------------------------
    def loc_name(self, loc):
        return loc[1] if loc[0] == 'var' else '%s%s' % (loc[0], '_'.join(str(x) for x in loc[1:]))

    def kind_of_entry(self, loc):
        v = self.entry_val(loc)
        if loc[0] == 'var' and isinstance(v, (SArr, VList)):
            # first try: the name keeps denoting the same object
            return ('alias',)
        return self.kind_of(v)

    def entry_val(self, loc):
        if loc[0] == 'var':
            return self.snap0[1].get(loc[1], _UNDEF)
        if loc[0] == 'attr':
            return self.snap0[0][loc[1]][1].get(loc[2], _UNDEF)
        o = self.mods[loc]
        if loc[0] == 'arr':
            a = SArr.__new__(SArr)
            a.id, a.shape, a._fn, a.dtype, a.base = o.id, o.shape, self.snap0[0][loc[1]], o.dtype, None
            return a
        if loc[0] == 'list':
            l = VList.__new__(VList)
            l.id = o.id
            l.items, l.seq = self.snap0[0][loc[1]]
            return l
        raise Unsupported('loop modifies %s' % (loc,))

    def kind_of(self, v):
        if isinstance(v, LoopPoison) and v.st is not self:
            raise NeedKind(('var', v.var))
        if isinstance(v, LazyVal):
            return ('other',)
        if v is _UNDEF:
            return ('undef',)
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return ('bool',)
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
            return ('int',)
        if isinstance(v, (Fraction, float)) or (is_z3(v) and z3.is_real(v)):
            return ('real',)
        if isinstance(v, (Cx, complex)):
            return ('cx',)
        if isinstance(v, SArr):
            return ('arr', v.ndim, 'cx' if v.dtype == 'complex' else 'real', (False,) * v.ndim)
        if isinstance(v, VList):
            return ('list',)
        if v is None or isinstance(v, (str, Class, Func, tuple, ExtClass)):
            return ('const',)
        if isinstance(v, Obj):
            return ('obj',)
        return ('other',)

    # -- havoc -------------------------------------------------------------
    def havoc(self, resolved):
        """put the loop-carried locations into their state at iteration k"""
        it, eng = self.it, self.eng
        self.sym = {}
        for loc in self.locs():
            if loc in self.sol:
                self.put(loc, self.sol[loc](self.k))
                continue
            kd = self.kinds.get(loc)
            if loc[0] != 'var' and kd is None:
                kd = self.kinds[loc] = self.kind_of_entry(loc)
            if kd is None:
                if loc[1] in self.tnames or True:
                    self.put(loc, LoopPoison(loc[1], self))
                continue
            self.put(loc, self.havoc_kind(loc, kd))

    def havoc_kind(self, loc, kd):
        it, eng = self.it, self.eng
        nm = 'h_' + self.loc_name(loc)
        t = kd[0]
        if t == 'multi':
            c = eng.decide(len(kd[1]), label='kind')
            alt = kd[1][c]
            if alt[0] == 'const':
                return alt[1]
            return self.havoc_kind(loc, alt)
        if t in ('int', 'real', 'bool'):
            x = eng.cache.get(('hv', id(self), loc, t))
            mk = {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[t]
            x = mk(eng.fresh(nm))
            self.sym[loc] = ('num', x)
            return x
        if t == 'cx':
            x = Cx(z3.Real(eng.fresh(nm)), z3.Real(eng.fresh(nm)))
            self.sym[loc] = ('cx', x)
            return x
        if t == 'arr':
            ent = self.entry_val(loc)
            shape = []
            dims = []
            for i, (d, ch) in enumerate(zip(ent.shape, kd[3])):
                if ch and (loc, i) in self.dimsol:
                    shape.append(self.dimval(loc, i, self.k))
                    dims.append(None)
                elif ch:
                    s = z3.Int(eng.fresh(nm + '_n'))
                    eng.assume(s >= 0)
                    shape.append(s)
                    dims.append(s)
                else:
                    shape.append(d)
                    dims.append(None)
            nd = kd[1]
            fs = [z3.Function(eng.fresh(nm), *([Z] * nd + [RS])) for _ in range(2 if kd[2] == 'cx' else 1)]

            def fn(*ix):
                inr = zand(*[zand(it.cmp('>=', i, 0), it.cmp('<', i, s)) for i, s in zip(ix, shape)])
                jx = [to_int(i) for i in ix]
                vs = [ite(inr, f(*jx), z3.RealVal(0)) for f in fs]
                return vs[0] if len(vs) == 1 else Cx(vs[0], vs[1])
            a = SArr(eng, shape, fn, ent.dtype if kd[2] == 'real' else 'complex')
            a.havoc = loc[0] == 'var'
            self.sym[loc] = ('arr', fs, dims, shape)
            return a
        if t == 'list':
            ent = self.entry_val(loc)
            ln = z3.Int(eng.fresh(nm + '_len'))
            eng.assume(ln >= 0)

            def get(i):
                raise Unsupported('loop %s reads the list it appends to' % self.label)
            s = SymSeq(ln, get, 'havoc')
            l = VList.__new__(VList)
            l.id = self.mods[loc].id if loc in self.mods else eng.newid(None)
            l.items, l.seq = None, s
            self.sym[loc] = ('list', ln, s)
            return l
        if t in ('const', 'alias'):
            return self.entry_val(loc)
        if t == 'undef':
            return _UNDEF
        raise Unsupported('loop-carried %s of kind %s' % (self.loc_name(loc), kd))

    # -- one nested pass ---------------------------------------------------
    def pass_(self, resolved):
        from .interp import BreakSig, ContinueSig, ReturnSig
        it, eng = self.it, self.eng
        snap = self.snap0
        outs = []
        ctxs = it.loop_ctx

        def run():
            it.restore(snap, self.fr)
            eng.cache[('loopctx',)] = ctxs + (self,)
            npc = len(eng.pc)
            eng.assume(self.k >= 0)
            if self.isfor:
                eng.assume(self.k < self.n)
            self.havoc(resolved)
            for nm, cand in self.cands():
                eng.assume(cand)
            nb = len(eng.pc)
            out = 'next'
            val = None
            try:
                if self.isfor:
                    it.assign(self.st.target, self.seq.get(self.k), self.fr)
                    it.exec_body(self.st.body, self.fr)
                else:
                    if not it.test(it.ev(self.st.test, self.fr)):
                        out = 'exit'
                    else:
                        it.exec_body(self.st.body, self.fr)
            except ContinueSig:
                pass
            except BreakSig:
                out = 'break'
            except ReturnSig as r:
                out, val = 'return', r.v
            except PyExc as e:
                out, val = 'exc', e
            o = {'out': out, 'val': val}
            if out == 'next':
                if resolved is None:
                    self.record(o)
                else:
                    self.record_cands(o)
            if not eng.quiet:
                pass
            o['ends'] = dict((loc, self.get(loc)) for loc in self.locs())
            facts = set(f.get_id() for f in eng.facts)
            o['cond'] = [f for f in eng.pc[nb:] if f.get_id() not in facts]
            o['facts'] = [f for f in eng.facts[nfacts:] if f.get_id() not in eng.soft]
            return o
        if resolved is None:
            eng.quiet += 1
        nfacts = len(eng.facts)
        try:
            outs = eng.nested(run)
        finally:
            if resolved is None:
                eng.quiet -= 1
            it.restore(snap, self.fr)
        return outs

    def dimval(self, loc, i, k):
        base = self.entry_val(loc).shape[i]
        t = self.it.fold_at(self.dimsol[(loc, i)], k, [])
        return z3.simplify(to_int(base) + z3.ToInt(t))

    def havoc_names(self, skip=()):
        out = set()
        for loc, s in self.sym.items():
            if s[0] == 'num':
                out.add(s[1].decl().name())
            elif s[0] == 'cx':
                out.add(s[1].re.decl().name())
                out.add(s[1].im.decl().name())
            elif s[0] == 'arr':
                out.update(f.name() for f in s[1])
                out.update(d.decl().name() for d in s[2] if d is not None)
            elif s[0] == 'list':
                out.add(s[1].decl().name())
        return out

    def record(self, o):
        """on a path that reaches the next iteration: changes relative to the
        havocked state (checked by the solver in the path's context)"""
        it, eng = self.it, self.eng
        o['delta'] = {}
        o['kinds'] = {}
        o['sym'] = dict(self.sym)
        for loc in self.locs():
            v = self.get(loc)
            kd = self.kinds.get(loc)
            if isinstance(v, LoopPoison) and v.var == loc[1]:
                o['delta'][loc] = ('same',)
                continue
            if isinstance(v, Maybe):
                v = it.force(v)
                self.put(loc, v)
            o['kinds'][loc] = self.kind_of(v) if not (isinstance(v, SArr) and kd is None) else self.kind_of(v)
            s = self.sym.get(loc)
            if s is None:
                continue
            if s[0] == 'num' and is_num(v):
                o['delta'][loc] = self.num_delta(v, s[1])
            elif s[0] == 'cx':
                c = as_cx(v)
                a, b = self.num_delta(c.re, s[1].re), self.num_delta(c.im, s[1].im)
                o['delta'][loc] = ('cxadd', a, b)
            elif s[0] == 'arr' and isinstance(v, SArr) and v.ndim == len(s[3]):
                o['delta'][loc] = self.arr_delta(loc, v, s, o)
            elif s[0] == 'list' and isinstance(v, VList):
                o['delta'][loc] = self.list_delta(v, s)

    def num_delta(self, v, x):
        eng = self.eng
        if is_z3(x) and z3.is_bool(x):
            if is_z3(v) and v.eq(x):
                return ('same',)
            return ('set', v)
        vz = to_real(v) if z3.is_real(x) else (to_int(v) if is_intlike(v) else to_real(v))
        if is_z3(v) and v.eq(x):
            return ('same',)
        zero = z3.RealVal(0) if z3.is_real(x) else z3.IntVal(0)
        d = z3.simplify(z3.substitute(vz, (x, zero)))
        if x.decl().name() in consts_in(vz):
            st, _, _ = eng.valid(to_real(vz) == to_real(x) + to_real(d), ms=2000)
            if st == 'proved':
                return ('add', to_real(d))
            if z3.is_real(x):
                c = z3.simplify(z3.substitute(vz, (x, z3.RealVal(1))))
                if eng.valid(to_real(vz) == x * c, ms=2000)[0] == 'proved':
                    return ('mul', c)
        return ('set', vz)

    def arr_delta(self, loc, v, s, o):
        it, eng = self.it, self.eng
        _, fs, dims, shape = s
        if isinstance(v, SArr) and not isinstance(v, SView):
            pass
        dd = []
        for i, (d, sh) in enumerate(zip(v.shape, shape)):
            if dims[i] is None and (loc, i) in self.dimsol:
                dd.append(None)
                continue
            if dims[i] is None:
                same = eqz(d, sh)
                if not isinstance(same, bool):
                    same = eng.valid(same, ms=1500)[0] == 'proved'
                if not same:
                    return ('shapechange', i)
                dd.append(None)
            else:
                dd.append(self.num_delta(d, dims[i]))
        ixs = [z3.Int('ix!%d!%d' % (self.k.get_id(), q)) for q in range(v.ndim)]
        val = v.fn(*ixs)
        if isinstance(val, (Cx, complex)) and len(fs) == 1:
            return ('needcx',)
        val = as_cx(val) if len(fs) == 2 else val
        parts = [val] if len(fs) == 1 else [val.re, val.im]
        inr = z3.And(*[z3.And(i >= 0, i < to_int(sh)) for i, sh in zip(ixs, shape)])
        ds = []
        for f, p in zip(fs, parts):
            p = to_real(p)
            d = z3.simplify(sub_apps(z3.simplify(p), f.name(), z3.RealVal(0)))
            old = z3.If(inr, f(*ixs), z3.RealVal(0))
            st, m, _ = eng.valid(p == old + d, ms=4000)
            if st == 'proved':
                ds.append(('add', d))
            else:
                ds.append(self.store_form(f, p, old, ixs, inr))
        return ('arr', dd, ixs, ds)

    def store_form(self, f, p, old, ixs, inr):
        """p = If(c, e, old) with c, e independent of the array"""
        eng = self.eng
        c = store_cond(z3.simplify(p), f)
        if c is not None:
            e = z3.simplify(sub_apps(z3.simplify(p), f.name(), z3.RealVal(0)))
            for cc in (z3.simplify(c), z3.simplify(z3.And(inr, c))):
                if eng.valid(p == z3.If(cc, e, old), ms=4000)[0] == 'proved':
                    return ('store', cc, e)
        two = []
        for val in (0, 1):
            two.append(z3.simplify(sub_apps(z3.simplify(p), f.name(), z3.RealVal(val))))
        # written exactly where the result does not depend on the old content
        c = z3.simplify(two[0] == two[1])
        e = two[0]
        st, m, _ = eng.valid(p == z3.If(c, e, old), ms=4000)
        if st == 'proved':
            return ('store', c, e)
        c = z3.simplify(z3.And(inr, c))
        st, m, _ = eng.valid(p == z3.If(c, e, old + e), ms=4000)
        if st == 'proved':
            return ('zadd', c, e)
        return ('unknown', p)

    def list_delta(self, v, s):
        if v.items is not None:
            return ('unknown', None)
        q = v.seq
        if q is s[2]:
            return ('append', [])
        vals = []
        while q is not s[2]:
            if q.name != 'append' or getattr(q, 'parent', None) is None:
                return ('unknown', None)
            vals.append(q.value)
            q = q.parent
        vals.reverse()
        return ('append', vals)

    def refine_kinds(self, paths):
        """returns True if the abstraction changed"""
        ch = False
        for o in paths:
            if o['out'] != 'next':
                continue
            for loc, kd in o['kinds'].items():
                cur = self.kinds.get(loc)
                if cur is None:
                    continue
                d = o['delta'].get(loc)
                if cur[0] == 'alias':
                    if o['ends'].get(loc) is not self.entry_val(loc):
                        if o['ends'].get(loc).__class__ is LoopPoison:
                            continue
                        self.kinds[loc] = self.kind_of(self.entry_val(loc))
                        ch = True
                    continue
                if cur[0] == 'arr' and d is not None:
                    if d[0] == 'shapechange':
                        sc = list(cur[3])
                        sc[d[1]] = True
                        self.kinds[loc] = cur[:3] + (tuple(sc),)
                        ch = True
                        continue
                    if d[0] == 'needcx':
                        self.kinds[loc] = cur[:2] + ('cx',) + cur[3:]
                        ch = True
                        continue
                    if d[0] == 'arr':
                        continue
                if kd[0] == cur[0] and kd[0] not in ('const', 'obj', 'other', 'arr'):
                    continue
                nk = self.join_kind(loc, cur, kd, o['ends'].get(loc))
                if nk != cur:
                    self.kinds[loc] = nk
                    ch = True
        return ch

    def join_kind(self, loc, cur, kd, v):
        if cur[0] in ('int', 'real', 'bool') and kd[0] in ('int', 'real', 'bool'):
            order = ['bool', 'int', 'real']
            return (order[max(order.index(cur[0]), order.index(kd[0]))],)
        if cur[0] in ('int', 'real') and kd[0] == 'cx' or cur[0] == 'cx' and kd[0] in ('int', 'real'):
            return ('cx',)
        alts = list(cur[1]) if cur[0] == 'multi' else [('const', self.entry_val(loc)) if cur[0] == 'const' else cur]
        new = ('const', v) if kd[0] == 'const' else kd
        if new[0] == 'const':
            for a in alts:
                if a[0] == 'const' and (a[1] is v or (type(a[1]) == type(v) and a[1] == v)):
                    return cur
        elif new[0] in ('int', 'real', 'bool', 'arr', 'cx', 'list'):
            for a in alts:
                if a[0] == new[0]:
                    return cur
            if new[0] == 'int' and ('real',) in alts:
                return cur
            if new[0] in ('arr', 'list'):
                raise Unsupported('loop-carried %s becomes an array' % self.loc_name(loc))
        else:
            raise Unsupported('loop-carried %s changes kind %s -> %s' % (self.loc_name(loc), cur, kd))
        return ('multi', alts + [new])

    # -- solving -----------------------------------------------------------
    def cond_of(self, o):
        return zand(*o['cond']) if o['cond'] else z3.BoolVal(True)

    def solve(self, paths):
        """find the solved form (state as a function of k) of each location"""
        it, eng = self.it, self.eng
        nxt = [o for o in paths if o['out'] == 'next']
        pend = []
        self.nextpaths = nxt
        # all paths use different fresh symbols for the havocked state: unify
        unify = self.unify(nxt)
        todo = {}
        for loc in self.locs():
            if loc not in self.kinds:
                continue
            ds = [o['delta'].get(loc) for o in nxt]
            if self.kinds[loc][0] in ('const', 'undef', 'alias') or loc in self.sol:
                continue
            todo[loc] = ds
        # scalar (and shape) folds first, then arrays/lists
        resolved_syms = self.rs
        progress = True
        before = len(self.sol) + len(self.dimsol)
        while progress and todo:
            progress = False
            for loc in list(todo):
                r = self.try_solve(loc, todo[loc], nxt, unify, resolved_syms)
                if r:
                    del todo[loc]
                    progress = True
        self.unsolved = dict(todo)
        return len(self.sol) + len(self.dimsol) > before

    def unify(self, nxt):
        """canonical symbols for the havocked state: name -> canonical term"""
        canon = {}
        maps = []
        for o in nxt:
            sub = []
            fsub = []
            for loc, s in o['sym'].items():
                def c(key, term):
                    if key not in canon:
                        canon[key] = z3.Const('hc!%d!%s' % (self.k.get_id(), '_'.join(map(str, key))), term.sort())
                    sub.append((term, canon[key]))
                if s[0] == 'num':
                    c((self.loc_name(loc),), s[1])
                elif s[0] == 'cx':
                    c((self.loc_name(loc), 're'), s[1].re)
                    c((self.loc_name(loc), 'im'), s[1].im)
                elif s[0] == 'arr':
                    for i, d in enumerate(s[2]):
                        if d is not None:
                            c((self.loc_name(loc), 'n', i), d)
                elif s[0] == 'list':
                    c((self.loc_name(loc), 'len'), s[1])
            maps.append(sub)
        self.canon = canon
        return maps

    def try_solve(self, loc, ds, nxt, maps, rs):
        it, eng = self.it, self.eng
        if any(d is None for d in ds):
            return False
        s = nxt[0]['sym'][loc] if nxt else None
        if s is None:
            return False
        name = self.loc_name(loc)
        ent = self.entry_val(loc)
        # names that may not occur in deltas / conditions
        forb = set()
        for key, cst in self.canon.items():
            if cst.decl().name() not in rs:
                forb.add(cst.decl().name())
        for o in nxt:
            for l2, s2 in o['sym'].items():
                if s2[0] == 'arr':
                    forb.update(f.name() for f in s2[1])

        def prep(e, m):
            """substitute canonical and solved symbols; None if still dependent"""
            if isinstance(e, bool):
                return z3.BoolVal(e)
            e = z3.substitute(e, *m) if m else e
            for q, val in rs.values():
                e = z3.substitute(e, (q, val))
            e = z3.simplify(e)
            if consts_in(e) & forb:
                return None
            return e

        def merged(vals):
            """vals: list per path of real exprs -> sum of If(cond, v, 0)"""
            tot = z3.RealVal(0)
            pv = [prep(to_real(v), m) for m, v in zip(maps, vals)]
            if pv and pv[0] is not None and all(v is not None and v.eq(pv[0]) for v in pv[1:]):
                # the same on every way through the body
                return self.skolemize(pv[0])
            for o, m, v in zip(nxt, maps, vals):
                v = prep(to_real(v), m)
                if v is None:
                    return None
                if z3.is_rational_value(v) and v.numerator_as_long() == 0:
                    continue
                c = prep(z3.And(*o['cond']) if o['cond'] else z3.BoolVal(True), m)
                if c is None:
                    return None
                t = z3.If(c, v, z3.RealVal(0))
                tot = t if z3.is_rational_value(tot) else tot + t
            return self.skolemize(z3.simplify(tot))

        def deltas(get):
            out = []
            for d in ds:
                x = get(d)
                if x is None:
                    return None
                if x[0] == 'same':
                    out.append(z3.RealVal(0))
                elif x[0] == 'add':
                    out.append(x[1])
                else:
                    return None
            return out

        def reg(vals, ix=()):
            d = merged(vals)
            if d is None:
                return None
            return it.fold_register(name, self.k, list(ix), d, self.bound(), hyps=self.path_facts(nxt))

        def asint(base, fd, k):
            t = it.fold_at(fd, k, [])
            if is_intlike(base):
                return z3.simplify(to_int(base) + z3.ToInt(t))
            return to_real(base) + t
        if s[0] == 'num':
            if z3.is_bool(s[1]):
                return False
            if any(d is not None and d[0] == 'mul' for d in ds):
                return self.solve_geometric(loc, s, ds, nxt, merged, name, ent, rs)
            vals = deltas(lambda d: d)
            if vals is None:
                return False
            cf = self.closed_form(merged(vals))
            if cf is not None and not (z3.is_int(s[1]) and cf[0] != 'int'):
                def cval(k, cf=cf, ent=ent):
                    k = to_int(k)
                    t = cf[1](k)
                    if cf[0] == 'int' and is_intlike(ent):
                        return z3.simplify(to_int(ent) + t)
                    return z3.simplify(to_real(ent) + to_real(t))
                self.sol[loc] = cval
                c = self.canon[(name,)]
                rs[c.decl().name()] = (c, cval(self.k))
                return True
            fd = reg(vals)
            if fd is None:
                return False
            if z3.is_int(s[1]) and not fd.isint:
                return False
            self.sol[loc] = lambda k, fd=fd: asint(ent if z3.is_int(s[1]) else to_real(ent), fd, k)
            c = self.canon[(name,)]
            rs[c.decl().name()] = (c, self.sol[loc](self.k))
            return True
        if s[0] == 'cx':
            va, vb = deltas(lambda d: d[1]), deltas(lambda d: d[2])
            if va is None or vb is None:
                return False
            fa, fb = reg(va), reg(vb)
            if fa is None or fb is None:
                return False
            e = as_cx(ent)
            self.sol[loc] = lambda k: Cx(to_real(e.re) + it.fold_at(fa, k, []), to_real(e.im) + it.fold_at(fb, k, []))
            for part, fd, b in (('re', fa, e.re), ('im', fb, e.im)):
                c = self.canon[(name, part)]
                rs[c.decl().name()] = (c, to_real(b) + it.fold_at(fd, self.k, []))
            return True
        if s[0] == 'list':
            return self.solve_list(loc, ds, nxt, maps, prep, merged, name, ent, rs)
        if s[0] == 'arr':
            # dimensions first; the contents are looked at again once they are known
            nd = 0
            for i in range(len(s[2])):
                if s[2][i] is None:
                    continue
                if (loc, i) in self.dimsol:
                    return False
                vals = deltas(lambda d: d[1][i] if d[0] == 'arr' else None)
                if vals is None:
                    return False
                fd = reg(vals)
                if fd is None or not fd.isint:
                    return False
                self.dimsol[(loc, i)] = fd
                c = self.canon[(name, 'n', i)]
                rs[c.decl().name()] = (c, self.dimval(loc, i, self.k))
                nd += 1
            if nd:
                return False
            ixs = ds[0][2] if ds and ds[0][0] == 'arr' else None
            if ixs is None:
                return False
            comps = []
            for q in range(len(s[1])):
                if all(d[3][q][0] == 'add' for d in ds):
                    fd = reg([d[3][q][1] for d in ds], ixs)
                    if fd is None:
                        return False
                    comps.append(('add', fd))
                elif all(d[3][q][0] in ('store', 'add') for d in ds):
                    r = self.solve_store([d[3][q] for d in ds], nxt, maps, prep, ixs)
                    if r is not None:
                        comps.append(('store', r))
                        continue
                    r = self.solve_zadd(loc, ent, q, len(s[1]), [d[3][q] for d in ds], nxt, prep, maps, reg, ixs)
                    if r is None:
                        return False
                    comps.append(('add', r))
                elif all(d[3][q][0] in ('store', 'add', 'zadd') for d in ds):
                    r = self.solve_zadd(loc, ent, q, len(s[1]), [d[3][q] for d in ds], nxt, prep, maps, reg, ixs)
                    if r is None:
                        return False
                    comps.append(('add', r))
                else:
                    return False
            # zero outside the shape at entry
            if any((loc, i) in self.dimsol for i in range(len(s[2]))):
                self.check_zero_outside(ent)
            efn = ent.fn

            def value(k):
                shape = [self.dimval(loc, i, k) if (loc, i) in self.dimsol else d
                         for i, d in enumerate(ent.shape)]

                def fn(*ix):
                    inr = zand(*[zand(it.cmp('>=', i, 0), it.cmp('<', i, s)) for i, s in zip(ix, shape)])
                    return ite(inr, fn0(*ix), z3.RealVal(0))

                def fn0(*ix):
                    e = efn(*ix)
                    e = as_cx(e) if len(comps) == 2 else e
                    parts = [e] if len(comps) == 1 else [e.re, e.im]
                    out = []
                    for (kind, c), p in zip(comps, parts):
                        if kind == 'add':
                            out.append(it.add(p, it.fold_at(c, k, ix)))
                        else:
                            out.append(c(k, ix, p))
                    return out[0] if len(out) == 1 else Cx(out[0], out[1])
                return SArr(eng, shape, fn, 'complex' if len(comps) == 2 else ent.dtype)
            self.sol[loc] = value
            return True
        return False

    def solve_geometric(self, loc, s, ds, nxt, merged, name, ent, rs):
        """x' = c*x with the same factor c in every iteration (but the first)"""
        it, eng = self.it, self.eng
        vals = []
        for d in ds:
            if d is None or d[0] not in ('mul', 'same'):
                return False
            vals.append((d[1] if d[0] == 'mul' else z3.RealVal(1)) - 1)
        m = merged(vals)
        cf = self.closed_form(m, raw=True)
        if cf is None:
            return False
        first, rest = [z3.simplify(to_real(x) + 1) for x in cf]

        def pw(n):
            t = it.powfn(rest, z3.ToReal(n))
            u = it.powfn(rest, z3.simplify(z3.ToReal(n) - 1))
            eng.fact_once(('powstep', rest.sexpr(), z3.simplify(n).sexpr()), z3.Implies(z3.And(n >= 1, rest != 0), t == u * rest))
            return t

        def cval(k):
            k = to_int(k)
            if first.eq(rest):
                return to_real(ent) * pw(z3.simplify(k))
            return z3.If(k <= 0, to_real(ent), to_real(ent) * first * pw(z3.simplify(k - 1)))
        self.sol[loc] = cval
        c = self.canon[(name,)]
        rs[c.decl().name()] = (c, cval(self.k))
        return True

    def closed_form(self, d, raw=False):
        """sum of d(0..k-1) when d is the same in every iteration, or in every
        iteration but the first; -> ('int'|'real', function of k) or None"""
        if d is None:
            return None
        kn = self.k.decl().name()

        def num(e):
            return z3.is_rational_value(e) and e.denominator_as_long() == 1

        def form(e):
            return ('int', z3.IntVal(e.numerator_as_long())) if num(e) else ('real', e)
        if kn not in consts_in(d):
            if raw:
                return d, d
            t, v = form(d)
            return t, (lambda k: (v * k if t == 'int' else v * z3.ToReal(k)))
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = d.children()
            if kn in consts_in(a) or kn in consts_in(b):
                return None
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(self.k >= 0, self.k < to_int(self.bound()))
            s.add(*[f for f in self.eng.pc if not z3.is_quantifier(f)])
            s.push()
            s.add(c != (self.k == 0))
            r = s.check()
            if r != z3.unsat:
                s.pop()
                s.add(c != (self.k > 0))
                if s.check() != z3.unsat:
                    return None
                a, b = b, a
            if raw:
                return a, b
            fa, fb = form(a), form(b)
            if fa[0] == 'int' and fb[0] == 'int':
                return 'int', lambda k: z3.If(k <= 0, z3.IntVal(0), fa[1] + fb[1] * (k - 1))
            a, b = to_real(fa[1]), to_real(fb[1])
            return 'real', lambda k: z3.If(k <= 0, z3.RealVal(0), a + b * z3.ToReal(k - 1))
        return None

    def check_zero_outside(self, a):
        it, eng = self.it, self.eng
        ix = [z3.Int(eng.fresh('zo')) for _ in a.shape]
        inr = z3.And(*[z3.And(i >= 0, i < to_int(s)) for i, s in zip(ix, a.shape)])
        v = a.fn(*ix)
        c = as_cx(v)
        st, _, _ = eng.valid(z3.Or(inr, zand(to_real(c.re) == 0, to_real(c.im) == 0)), ms=3000)
        if st != 'proved':
            raise Unsupported('loop %s: growing array is not zero outside its shape' % self.label)

    def bound(self):
        if self.isfor:
            return self.n
        if not hasattr(self, 'wbound'):
            self.wbound = z3.Int(self.eng.fresh('K'))
        return self.wbound

    def path_facts(self, paths):
        """axiom instances collected while executing the iteration"""
        if not self.it.inferred_ctx:
            return ()
        out, seen = [], set()
        for o in paths:
            for f in o['facts']:
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    out.append(f)
        return out

    def skolemize(self, e):
        """constants made inside an iteration are functions of k"""
        eng = self.eng
        names = [n for n in consts_in(e) if '!' in n and n != self.k.decl().name() and not n.startswith('ix!')]
        if not names:
            return e
        sub = []
        for x in const_nodes(e, set(names)):
            num = x.decl().name().rsplit('!', 1)[1]
            if num.isdigit() and int(num) > self.counter0:
                outer = [c.k for c in self.it.inferred_ctx]
                f = z3.Function('sk_' + x.decl().name(), *([Z] * (1 + len(outer)) + [x.sort()]))
                sub.append((x, f(*([self.k] + outer))))
        return z3.substitute(e, *sub) if sub else e

    def solve_store(self, ds, nxt, maps, prep, ixs):
        """A'(j) = If(c, e, A(j)): value of the last iteration writing j"""
        it, eng = self.it, self.eng
        conds, vals = [], []
        for d, o, m in zip(ds, nxt, maps):
            if d[0] == 'add':
                z = z3.simplify(d[1])
                if z3.is_rational_value(z) and z.numerator_as_long() == 0:
                    continue
                return None
            c = prep(z3.And(*(o['cond'] + [d[1]])), m)
            e = prep(d[2], m)
            if c is None or e is None:
                return None
            conds.append(self.skolemize(c))
            vals.append(self.skolemize(e))
        if not conds:
            return lambda k, ix, p: p
        C = z3.simplify(z3.Or(*conds)) if len(conds) > 1 else conds[0]
        V = vals[-1]
        for c, v in list(zip(conds, vals))[-2::-1]:
            V = z3.If(c, v, V)
        ext = [x for x in it.outer_extras(C, V) if not x.eq(self.k)]
        W0 = z3.Function(eng.fresh('W'), *([Z] * (len(ixs) + 1) + [x.sort() for x in ext] + [Z]))

        def W(*a):
            return W0(*(list(a) + ext))
        k = self.k
        n = self.bound()

        def inst(w, depth=0):
            """facts about one value of W: the last iteration before kk that writes ix"""
            kk, ix, ex = w.arg(0), [w.arg(q) for q in range(1, 1 + len(ixs))], [w.arg(q) for q in range(1 + len(ixs), w.num_args())]
            sub = list(zip(ixs, ix)) + list(zip(ext, ex))

            def sb(e, at_k):
                return z3.substitute(e, (k, at_k), *sub)
            key = ('W', w.sexpr())
            if key in eng.facts_once:
                return
            eng.fact_once(key, z3.And(w >= -1, w < z3.If(kk > 0, kk, 0), z3.Implies(w >= 0, sb(C, w))))
            # completeness: instantiate at every index (linear index functions) and as a quantifier
            q = z3.Int(eng.fresh('q'))
            eng.fact_once(key + ('all',), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < kk, sb(C, q)), q <= w)))
            nest = [sb(C, w)] if nested else []
            for cand in self.inst_points(sb(C, k), k, ix):
                eng.fact_once(key + ('inst', cand.sexpr()), z3.Implies(
                    z3.And(cand >= 0, cand < kk, sb(C, cand)), cand <= w))
                if nested:
                    nest.append(sb(C, cand))
            if nested:
                nest.append(sb(V, w))
                for e in nest:
                    it.saturate(e, depth + 1)
        nested = bool(set(n.split('(')[0] for n in consts_in(z3.And(C, V == V))) & set(it.writers))
        it.writers[W0.name()] = inst

        def at(kk, ix, p):
            ix = [to_int(i) for i in ix]
            kk = z3.simplify(to_int(kk))
            w = W(*([kk] + ix))
            inst(w)
            return ite(w >= 0, z3.substitute(V, (k, w), *list(zip(ixs, ix))), p)
        return at

    def solve_zadd(self, loc, ent, q, nparts, ds, nxt, prep, maps, reg, ixs):
        """assignments to cells that are still zero when they are assigned count as
        additions: checked by induction over the iterations done so far"""
        it, eng = self.it, self.eng
        vals, conds = [], []
        for d, o, m in zip(ds, nxt, maps):
            if d[0] == 'add':
                vals.append(d[1])
                continue
            vals.append(z3.If(d[1], d[2], z3.RealVal(0)) if d[0] == 'store' else d[2])
            c = d[1]
            if d[0] == 'store':
                c = z3.And(c, *[z3.And(i >= 0, i < to_int(sh)) for i, sh in zip(ixs, o['sym'][loc][3])])
            c = prep(z3.And(*(o['cond'] + [c])), m)
            if c is None:
                return None
            conds.append(self.skolemize(c))
        fd = reg(vals, ixs)
        if fd is None:
            return None
        e = ent.fn(*ixs)
        if nparts == 2:
            e = as_cx(e)
            e = e.re if q == 0 else e.im
        for c in conds:
            with eng.scope():
                K = z3.Int(eng.fresh('K'))
                for h in it.index_facts:
                    h(K)
                hyp = z3.And(K >= 0, K < self.bound(), z3.substitute(c, (self.k, K)))
                if eng.valid(z3.Implies(hyp, to_real(e) == 0), ms=3000)[0] != 'proved':
                    return None
                if not it.zero_fold(fd, K, list(ixs), hyp):
                    return None
        return fd

    def inst_points(self, c, k, ix):
        out = list(ix) + list(self.it.inst_hints)
        # conjuncts  a == b  linear in k with coefficient 1
        st, seen = [c], set()
        while st:
            e = st.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if z3.is_eq(e) and z3.is_int(e.arg(0)):
                d = e.arg(0) - e.arg(1)
                d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
                for sg in (1, -1):
                    if z3.is_int_value(z3.simplify(d - sg * k - d0)) and \
                            z3.simplify(d - sg * k - d0).as_long() == 0:
                        out.append(z3.simplify(-sg * d0))
            st.extend(e.children())
        res = []
        for x in out:
            if not any(x.eq(y) for y in res):
                res.append(x)
        return res[:16]

    def solve_list(self, loc, ds, nxt, maps, prep, merged, name, ent, rs):
        it, eng = self.it, self.eng
        if any(d[0] != 'append' for d in ds):
            return False
        if any(len(d[1]) > 1 for d in ds):
            return False
        dl = merged([z3.RealVal(len(d[1])) for d in ds])
        if dl is None:
            return False
        fd = it.fold_register(name + '_len', self.k, [], dl, self.bound(), hyps=self.path_facts(nxt))
        c = self.canon[(name, 'len')]
        elen = z3.IntVal(len(ent.items)) if ent.items is not None else to_int(ent.seq.length)
        eseq = it._mkseq(ent.items) if ent.items is not None else ent.seq
        # pieces: (cond(k), value template)
        pieces = []
        for d, o, m in zip(ds, nxt, maps):
            if not d[1]:
                continue
            cc = prep(z3.And(*o['cond']) if o['cond'] else z3.BoolVal(True), m)
            if cc is None:
                return False
            pieces.append((self.skolemize(cc), d[1][0], m))
        always = all(len(d[1]) == 1 for d in ds)
        sel = z3.Function(eng.fresh('sel'), Z, Z)
        run = self
        numeric = all(isinstance(p[1], (int, Fraction, float)) and not isinstance(p[1], bool) or
                      is_z3(p[1]) and p[1].sort() in (Z, z3.RealSort()) for p in pieces)

        def getval(kk):
            """value appended by iteration kk"""
            if len(pieces) == 1:
                ci = 0
            elif always and numeric:
                # a number: one expression instead of one path for each case
                vs = [run.subst_value(v, kk, prep, m) for _, v, m in pieces]
                if not all(is_z3(v) and v.sort() == Z for v in vs):
                    vs = [to_real(v) for v in vs]
                r = vs[-1]
                for (c, _, _), v in list(zip(pieces, vs))[-2::-1]:
                    r = z3.If(z3.substitute(c, (self.k, kk)), v, r)
                return z3.simplify(r)
            else:
                ci = eng.decide(len(pieces), lambda j: eng.feasible(z3.substitute(pieces[j][0], (self.k, kk))))
                eng.assume(z3.substitute(pieces[ci][0], (self.k, kk)))
            return run.subst_value(pieces[ci][1], kk, prep, pieces[ci][2])
        # make sure the templates can be substituted at all
        for p in pieces:
            if not self.substable(p[1]):
                return False

        def value(k):
            ln = z3.simplify(elen + z3.ToInt(it.fold_at(fd, k, [])))
            if always:
                eng.fact_once(('alw', fd.name, to_int(k).sexpr()), z3.Implies(to_int(k) >= 0, it.fold_at(
                    fd, k, []) == z3.ToReal(to_int(k))))
                ln = z3.simplify(elen + to_int(k))

            def get(i):
                i = to_int(i)
                if eng.branch(i < elen):
                    return eseq.get(i)
                m = z3.simplify(i - elen)
                if always:
                    return getval(m)
                s = z3.simplify(sel(m))
                cond = z3.Or(*[z3.substitute(p[0], (self.k, s)) for p in pieces])
                eng.fact_once(('sel', sel.name(), m.sexpr()), z3.Implies(
                    z3.And(m >= 0, i < ln), z3.And(s >= 0, s < to_int(k), cond,
                                                   it.fold_at(fd, s, []) == z3.ToReal(m))))
                return getval(s)
            l = VList.__new__(VList)
            l.id = loc[1] if loc[0] == 'list' else eng.newid(None)
            l.items, l.seq = None, SymSeq(ln, get, 'loop')
            return l
        self.sol[loc] = value
        rs[c.decl().name()] = (c, z3.simplify(elen + z3.ToInt(it.fold_at(fd, self.k, []))))
        return True

    def substable(self, v):
        if v is None or isinstance(v, (str, int, Fraction, float, Class, Func)) or is_z3(v):
            return True
        if isinstance(v, Cx):
            return True
        if isinstance(v, tuple):
            return all(self.substable(x) for x in v)
        if isinstance(v, VList):
            return v.items is not None and all(self.substable(x) for x in v.items)
        if isinstance(v, Obj):
            return isinstance(v.tag, tuple) and len(v.tag) == 3 and v.tag[0] == 'elem'
        if isinstance(v, SArr):
            return not isinstance(v, SView)
        return False

    def subst_arr(self, v, kk, prep, m):
        it, eng = self.it, self.eng
        ixs = [z3.Int(eng.fresh('ix!a')) for _ in v.shape]
        val = v.fn(*ixs)
        parts = [val.re, val.im] if isinstance(val, Cx) else [val]
        tmpl = []
        for e in parts:
            e = prep(to_real(e), m)
            if e is None:
                raise Unsupported('appended array depends on the loop state')
            tmpl.append(z3.substitute(self.skolemize(e), (self.k, kk)))
        shape = [d if isinstance(d, int) else self.subst_value(d, kk, prep, m) for d in v.shape]

        def fn(*ix):
            out = []
            for e in tmpl:
                e = z3.substitute(e, *list(zip(ixs, [to_int(i) for i in ix])))
                for a in apps_of(e, set(eng.folds)):
                    it.fold_at(eng.folds[a.decl().name()], a.arg(0), [a.arg(q) for q in range(1, a.num_args())])
                it.saturate(e)
                out.append(e)
            return out[0] if len(out) == 1 else Cx(out[0], out[1])
        return SArr(eng, shape, fn, v.dtype)

    def subst_value(self, v, kk, prep, m):
        if is_z3(v):
            e = prep(v, m)
            if e is None:
                raise Unsupported('appended value depends on the loop state')
            return z3.simplify(z3.substitute(self.skolemize(e), (self.k, kk)))
        if isinstance(v, Cx):
            return Cx(self.subst_value(v.re, kk, prep, m), self.subst_value(v.im, kk, prep, m))
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, kk, prep, m) for x in v)
        if isinstance(v, VList):
            return VList(self.eng, [self.subst_value(x, kk, prep, m) for x in v.items])
        if isinstance(v, SArr):
            return self.subst_arr(v, kk, prep, m)
        if isinstance(v, Obj):
            return v.tag[2].get(z3.simplify(z3.substitute(v.tag[1], (self.k, kk))))
        return v

    # -- candidates --------------------------------------------------------
    def cands(self):
        """candidate invariants over the current state -> [(name, z3 Bool)]"""
        out = []
        for gen in self.it.candidates:
            for nm, c in gen(self.it, self) or []:
                if nm in self.dead:
                    continue
                if isinstance(c, bool):
                    if c:
                        continue
                    c = z3.BoolVal(False)
                out.append((nm, c))
        return out

    def record_cands(self, o):
        if not self.it.candidates:
            return
        k0, self.k = self.k, self.k + 1
        try:
            for nm, c in self.cands():
                if self.eng.valid(c, ms=3000)[0] != 'proved':
                    o.setdefault('badcand', set()).add(nm)
        finally:
            self.k = k0

    def check_candidates(self, outs):
        bad = set()
        for o in outs:
            bad |= o.get('badcand', set())
        if not self.init_checked():
            return False
        if bad:
            self.dead |= bad
            return False
        return True

    def init_checked(self):
        """initialisation of the candidates (once)"""
        if getattr(self, '_init', False) or not self.it.candidates:
            return True
        self._init = True
        it, eng = self.it, self.eng
        it.restore(self.snap0, self.fr)
        k0, self.k = self.k, z3.IntVal(0)
        bad = set()
        try:
            for nm, c in self.cands():
                if eng.valid(c, ms=3000)[0] != 'proved':
                    bad.add(nm)
        finally:
            self.k = k0
        self.dead |= bad
        return not bad

    # -- leaving the loop --------------------------------------------------
    def finish_vars(self, outs):
        pass

    def abn_cond(self, kk):
        cs = []
        for o in self.abn:
            c = z3.And(*o['cond']) if o['cond'] else z3.BoolVal(True)
            cs.append(self.skolemize(c))
        c = z3.Or(*cs) if cs else z3.BoolVal(False)
        names = consts_in(c)
        if any(n.startswith('h_') for n in names):
            return None
        return z3.substitute(c, (self.k, kk))

    def last_written(self, K):
        """lazy values for variables the loop assigns but never carries"""
        it, eng = self.it, self.eng
        res = {}
        for loc in self.locs():
            if loc in self.kinds or loc[0] != 'var':
                continue
            res[loc] = self.lazy_last(loc, K)
        return res

    def lazy_last(self, loc, K):
        it, eng, run = self.it, self.eng, self
        ent = self.entry_val(loc)
        nx = self.nexts
        wr = [o for o in nx if not (isinstance(o['ends'].get(loc), LoopPoison))]

        def fn():
            if not wr:
                return ent
            if not run.isfor:
                return Poison('%s after a while loop' % loc[1])
            conds = [run.skolemize(z3.And(*o['cond']) if o['cond'] else z3.BoolVal(True)) for o in wr]
            C = z3.simplify(z3.Or(*conds))
            if any(x.startswith('h_') for x in consts_in(C)):
                return Poison('%s: last value unknown' % loc[1])
            allw = len(wr) == len(nx)
            w = z3.Int(eng.fresh('last'))
            ch = eng.decide(2, lambda i: eng.feasible(K == 0) if (i == 0 and allw) else True)
            q = z3.Int(eng.fresh('q'))
            Cq = z3.substitute(C, (run.k, q))
            if ch == 0:
                eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), z3.Not(Cq))) if not allw else K == 0)
                if ent is _UNDEF:
                    it.raise_py(UnboundLocalError, loc[1])
                return ent
            eng.assume(z3.And(w >= 0, w < K, z3.substitute(C, (run.k, w))))
            if allw:
                eng.assume(w == K - 1)
            else:
                eng.assume(z3.ForAll([q], z3.Implies(z3.And(q > w, q < K), z3.Not(Cq))))
            ci = eng.decide(len(wr), lambda j: eng.feasible(z3.substitute(conds[j], (run.k, w))))
            eng.assume(z3.substitute(conds[ci], (run.k, w)))
            v = wr[ci]['ends'][loc]
            if not run.substable(v):
                return Poison('%s: last value not expressible' % loc[1])

            def prep(e, m):
                if any(x.startswith('h_') for x in consts_in(e)):
                    return None
                return e
            return run.subst_value(v, w, prep, None)
        return LazyVal(fn)

    def leave(self):
        from .interp import BreakSig, ContinueSig, ReturnSig
        it, eng = self.it, self.eng
        if self.isfor:
            K = self.n
        else:
            K = self.bound()
            eng.assume(K >= 0)
        nopt = 2 if (self.abn or not self.isfor) else 1
        if self.isfor:
            ch = eng.decide(nopt, label='loop') if nopt > 1 else 0
        else:
            ch = eng.decide(2, lambda i: True if i == 0 else bool(self.abn))
        it.restore(self.snap0, self.fr)
        if ch == 0:
            # normal exit
            if self.abn and self.isfor:
                q = z3.Int(eng.fresh('q'))
                c = self.abn_cond(q)
                if c is not None:
                    eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), z3.Not(c))))
            self.set_state(K)
            if not self.isfor:
                if it.test(it.ev(self.st.test, self.fr)):
                    raise PathAbort('loop continues')
            return 'normal'
        # an iteration that leaves the loop
        k = z3.Int(eng.fresh('kx'))
        it.wits.append([k])
        if self.isfor:
            eng.assume(z3.And(k >= 0, k < K))
        else:
            eng.assume(k == K)
        if self.abn:
            q = z3.Int(eng.fresh('q'))
            c = self.abn_cond(q)
            if c is not None:
                eng.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), z3.Not(c))))
        self.set_state(k)
        self.exit_k = k
        try:
            if self.isfor:
                it.assign(self.st.target, self.seq.get(k), self.fr)
            else:
                if not it.test(it.ev(self.st.test, self.fr)):
                    raise PathAbort('not this way')
            it.exec_body(self.st.body, self.fr)
        except BreakSig:
            return 'break'
        except ContinueSig:
            raise PathAbort('iteration continues')
        raise PathAbort('iteration continues')

    def set_state(self, k):
        it, eng = self.it, self.eng
        lazies = self.last_written(k)
        self.sym = {}
        for loc in self.locs():
            if loc in self.sol:
                self.put(loc, self.sol[loc](k))
            elif loc in lazies:
                self.put(loc, lazies[loc])
            elif loc in self.kinds:
                self.put(loc, self.havoc_kind(loc, self.kinds[loc]))
        kk, self.k = self.k, k
        try:
            for nm, c in self.cands():
                eng.assume(c)
        finally:
            self.k = kk


class _ModLog(object):
    def __init__(self, allowed=()):
        self.mods = {}
        self.allowed = allowed

    def log(self, key, obj):
        if key not in self.allowed and isinstance(obj, Obj) and isinstance(obj.tag, tuple) and obj.tag and obj.tag[0] == 'elem':
            raise Unsupported('loop modifies element attribute %s' % (key[2:],))
        self.mods[key] = obj


def to_bool3(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class LoopSpec(object):
    counting = ()
    """contract of one loop.  havoced: local variables that havoc() sets; every
    other variable the loop assigns is unreadable at the start of an iteration."""

    def __init__(self, name, havoced, havoc, inv, variant=None, frame=lambda it, fr: (), fresh_exit=False):
        self.fresh_exit = fresh_exit
        self.name, self.havoced, self.havoc, self.inv = name, tuple(havoced), havoc, inv
        self.variant, self.frame = variant, frame

    def targets(self, st):
        out = set()
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                raise Unsupported('global in loop')
        return out


class _Undef(object):
    def __repr__(self):
        return '<undef>'


_UNDEF = _Undef()


def const_nodes(e, names):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out.append(x)
            st.extend(x.children())
    return out
