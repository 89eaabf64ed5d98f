"""pyvc engine: path exploration, solver interface, proof obligations.

The engine re-executes a *driver* (a Python callable that sets up a symbolic
pre-state, runs a function of the code under verification through the AST
interpreter and then states obligations) once per path.  A path is identified
by its list of decisions, so that re-executing the same prefix reproduces the
same fresh names, objects and path condition.
"""
import contextlib
import time
from fractions import Fraction
import z3

z3.set_param('auto_config', True)


class Unsupported(Exception):
    """The code leaves the subset the verifier understands (tool limit)."""


class PathAbort(Exception):
    """This path is finished (infeasible, or an inductive step is done)."""


class Restart(Exception):
    """Loop information was refined: the exploration has to start again."""


class Budget(Exception):
    """Time/paths budget exhausted."""


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, obj, msg=''):
        self.obj = obj
        self.msg = msg

    def __str__(self):
        c = getattr(self.obj, 'cls', None)
        return 'PyExc(%s: %s)' % (getattr(c, 'name', self.obj), self.msg)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def rv(x):
    """Python number -> z3 real value."""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        f = Fraction(repr(x))
        return z3.Q(f.numerator, f.denominator)
    raise Unsupported('not a number: %r' % (x,))


class LoopState(object):
    def __init__(self, key):
        self.key = key
        self.mods = {}        # mod key -> True   (heap locations written)
        self.kinds = {}       # var -> list of kinds
        self.dead = set()     # eliminated candidate names
        self.excl = {}        # (candidate) -> set of classes not accumulated
        self.iters = 0


class Obligation(object):
    __slots__ = ('name', 'status', 'n', 'fails', 'backend', 'reasons')

    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.n = 0
        self.fails = []
        self.reasons = []
        self.backend = set()

    def add(self, st, info, backend):
        self.n += 1
        if backend:
            self.backend.add(backend)
        order = {'proved': 0, 'unknown': 1, 'failed': 2}
        if order[st] > order[self.status]:
            self.status = st
        if st != 'proved' and len(self.fails) < 4:
            self.fails.append(info)


def _copy_cache(c):
    out = {}
    for k, v in c.items():
        out[k] = list(v) if isinstance(v, list) else v
    return out


class Abstraction(object):
    """quotients (and products of unknowns) become arbitrary functions"""

    def __init__(self, products):
        self.products, self.used, self.memo, self.facts = products, 0, {}, []
        R, Z = z3.RealSort(), z3.IntSort()
        self.div = z3.Function('abs_div', R, R, R)
        self.mulf = {'Int': z3.Function('abs_mul_int', Z, Z, Z), 'Real': z3.Function('abs_mul', R, R, R)}

    def rewrite(self, f):
        st = [f]
        while st:
            x = st[-1]
            if x.get_id() in self.memo:
                st.pop()
                continue
            todo = [c for c in x.children() if c.get_id() not in self.memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            self.memo[x.get_id()] = (x, self.node(x, [self.memo[c.get_id()][1] for c in x.children()]))
        return self.memo[f.get_id()][1]

    def node(self, x, ch):
        if not ch:
            return x
        kd = x.decl().kind()
        num = lambda a: z3.is_int_value(a) or z3.is_rational_value(a)
        if kd == z3.Z3_OP_DIV and not num(x.arg(1)):
            self.used += 1
            return self.div(*ch)
        if kd == z3.Z3_OP_MUL and self.products:
            co = [b for a, b in zip(x.children(), ch) if num(a)]
            un = [(a.get_id(), b) for a, b in zip(x.children(), ch) if not num(a)]
            if len(un) > 1:
                self.used += 1
                un = [b for _, b in sorted(un, key=lambda t: t[0])]
                g = self.mulf[str(x.sort())]
                y = un[0]
                for b in un[1:]:
                    m = g(y, b)
                    self.facts += [m == g(b, y), z3.Implies(z3.Or(y == 0, b == 0), m == 0),
                                   z3.Implies(y == 1, m == b), z3.Implies(b == 1, m == y)]
                    y = m
                for c in co:
                    y = c * y
                return y
        if all(a.eq(b) for a, b in zip(x.children(), ch)):
            return x
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT):
            return {z3.Z3_OP_ADD: lambda a: z3.Sum(*a), z3.Z3_OP_MUL: lambda a: z3.Product(*a),
                    z3.Z3_OP_AND: lambda a: z3.And(*a), z3.Z3_OP_OR: lambda a: z3.Or(*a),
                    z3.Z3_OP_DISTINCT: lambda a: z3.Distinct(*a)}[kd](ch)
        return x.decl()(*ch)


def has_quantifier(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def mentions(e, names):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in names:
                return True
            st.extend(x.children())
    return False


class Engine(object):
    def __init__(self, timeout_ms=8000, branch_ms=3000, max_paths=6000,
                 deadline=None, verbose=False):
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.verbose = verbose
        self.loops = {}
        self.obls = {}
        self.solver_time = 0.0
        self.n_queries = 0
        self.n_paths = 0
        self.covers = {}
        self.assumptions = set()
        self.solver = None
        self.in_spec = 0
        self.facts_once = set()
        self.executed = set()
        self.soft = {}

    # ---- paths ---------------------------------------------------------
    def begin_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.counter = 0
        self.alloc = 0
        self.objs = {}
        self.loopstack = []
        self.facts_once = set()
        self.notes = []
        self.path_desc = []
        self.cache = {}
        self.facts = []
        self.folds = {}
        self.quiet = 0

    # ---- scratch context ---------------------------------------------------
    @contextlib.contextmanager
    def scope(self):
        """facts asserted inside are forgotten afterwards"""
        save = (self.cache, self.facts_once)
        npc, nfacts = len(self.pc), len(self.facts)
        self.cache = _copy_cache(save[0])
        self.facts_once = set(save[1])
        self.solver.push()
        try:
            yield
        finally:
            self.solver.pop()
            del self.pc[npc:]
            del self.facts[nfacts:]
            self.cache, self.facts_once = save

    def forget(self, names):
        """drop the hypotheses that mention one of these constants (what is
        proved afterwards is proved from fewer hypotheses)"""
        if self.solver.num_scopes():
            raise Unsupported('forget inside a scope')
        self.pc = [f for f in self.pc if not mentions(f, names)]
        self.facts = [f for f in self.facts if not (is_z3(f) and mentions(f, names))]
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        for f in self.pc:
            self.solver.add(f)

    # ---- nested exploration ------------------------------------------------
    def nested(self, run):
        """Explore every path of run() from the current state; returns the
        list of its results (run returns None to drop a path).  The caller
        restores the heap; solver, path condition and caches are restored
        here."""
        save = (self.prefix, self.pos, self.pending, self.cache, self.facts_once, self.path_desc)
        out = []
        work = [[]]
        npaths = 0
        npc, nfacts = len(self.pc), len(self.facts)
        try:
            while work:
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exhausted')
                self.prefix, self.pos, self.pending = work.pop(), 0, []
                self.cache = _copy_cache(save[3])
                self.facts_once = set(save[4])
                self.path_desc = list(save[5])
                self.solver.push()
                try:
                    r = run()
                    if r is not None:
                        out.append(r)
                except PathAbort:
                    pass
                finally:
                    self.solver.pop()
                    del self.pc[npc:]
                    del self.facts[nfacts:]
                work.extend(self.pending)
                npaths += 1
                self.n_paths += 1
                if npaths > self.max_paths:
                    raise Budget('more than %d paths in a nested exploration' % self.max_paths)
        finally:
            (self.prefix, self.pos, self.pending, self.cache, self.facts_once, self.path_desc) = save
        return out

    def explore(self, driver, fresh_obls=True):
        """Explore every path of driver(); restart until loop info is stable."""
        import copy
        base = copy.deepcopy(self.obls), copy.deepcopy(self.covers), self.n_paths
        while True:
            work = [[]]
            if fresh_obls:
                self.obls, self.covers = copy.deepcopy(base[0]), copy.deepcopy(base[1])
                self.n_paths = base[2]
            restart = False
            while work:
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exhausted')
                prefix = work.pop()
                self.begin_path(prefix)
                try:
                    driver()
                except PathAbort:
                    pass
                except Restart as r:
                    if self.verbose:
                        print('  restart:', r)
                    restart = True
                work.extend(self.pending)
                self.n_paths += 1
                if self.n_paths > self.max_paths:
                    raise Budget('more than %d paths' % self.max_paths)
                if restart:
                    break
            if not restart:
                return

    def fresh(self, name):
        self.counter += 1
        return '%s!%d' % (name, self.counter)

    def newid(self, obj=None):
        self.alloc += 1
        self.objs[self.alloc] = obj
        return self.alloc

    def decide(self, n, feasible=None, label=''):
        """n-way choice; feasible(i) -> bool prunes."""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            return c
        opts = [i for i in range(n) if feasible is None or feasible(i)]
        if not opts:
            raise PathAbort('infeasible')
        base = self.prefix
        for o in opts[1:]:
            self.pending.append(base + [o])
        self.prefix = base + [opts[0]]
        self.pos = len(self.prefix)
        return opts[0]

    # ---- solver ----------------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathAbort('assume False')
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathAbort('assume False')
        self.pc.append(f)
        self.solver.add(f)

    def fact_once(self, key, f):
        """Assert a (valid) axiom instance once per path."""
        if key in self.facts_once:
            return
        self.facts_once.add(key)
        if isinstance(f, bool):
            return
        self.facts.append(f)
        self.pc.append(f)
        self.solver.add(f)

    def soft_fact(self, key, f):
        """assumption made only while an invariant is being inferred"""
        self.soft[f.get_id()] = f
        self.fact_once(key, f)

    def check(self, *extra, ms=None):
        t = time.time()
        self.n_queries += 1
        self.solver.set('timeout', ms or self.branch_ms)
        if len(extra) == 0:
            r = self.solver.check()
        else:
            r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def feasible(self, f):
        if isinstance(f, bool):
            return f
        return self.check(f) != z3.unsat

    def branch(self, cond, label=''):
        """Fork on a boolean condition; returns a Python bool."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('br', cond.get_id())
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
        else:
            ft = self.check(cond) != z3.unsat
            ff = self.check(z3.Not(cond)) != z3.unsat
            if ft and ff:
                self.pending.append(self.prefix + [1])
                c = 0
            elif ft:
                c = 2
            elif ff:
                c = 3
            else:
                raise PathAbort('infeasible')
            self.prefix = self.prefix + [c]
            self.pos = len(self.prefix)
        val = c in (0, 2)
        if c in (0, 1):
            self.assume(cond if val else z3.Not(cond))
        if label:
            self.path_desc.append('%s=%s' % (label, val))
        return val

    # ---- obligations -------------------------------------------------------
    def prove(self, goal, name, info=None):
        """Discharge PC => goal; record under name.  Returns True if proved."""
        if self.quiet:
            return True
        st, model, backend = self.valid(goal)
        ob = self.obls.get(name)
        if ob is None:
            ob = self.obls[name] = Obligation(name)
        inf = None
        if st != 'proved':
            inf = {'path': list(self.path_desc), 'goal': str(goal)[:1500],
                   'info': info(model) if (callable(info) and model is not None) else
                   (None if callable(info) else info),
                   'model': str(model)[:3000] if model is not None else None}
            if self.verbose:
                print('  OBLIGATION %s: %s  path=%s' % (name, st, self.path_desc))
        ob.add(st, inf, backend)
        return st == 'proved'

    def valid(self, goal, ms=None):
        """-> ('proved'|'failed'|'unknown', model, backend)"""
        if isinstance(goal, bool):
            if goal:
                return 'proved', None, 'trivial'
            # goal is False: proved only if the path is infeasible
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None, 'simplify'
        neg = z3.Not(goal)
        full = ms or self.timeout_ms
        r = self.check(neg, ms=min(full, 1500))
        if r == z3.unknown and full > 1500:
            if self.generalized(neg):
                return 'proved', None, 'z3-generalized'
            r = self.check(neg, ms=full)
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            return 'failed', self.solver.model(), 'z3'
        # second chance: nonlinear solver on its own
        t = time.time()
        try:
            s2 = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver()
            s2.set('timeout', ms or self.timeout_ms)
            for f in self.pc:
                s2.add(f)
            s2.add(neg)
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return 'proved', None, 'z3-nl'
        if r == z3.sat:
            return 'failed', s2.model(), 'z3-nl'
        r = self.cvc5_valid(neg, ms or self.timeout_ms)
        if r == 'unsat':
            return 'proved', None, 'cvc5'
        return 'unknown', None, None

    def generalized(self, neg):
        """quotients by a variable and products of unknowns replaced by arbitrary
        numbers, quantified hypotheses dropped (a stronger statement)"""
        t = time.time()
        forms = [f for f in self.pc if not has_quantifier(f)]
        if has_quantifier(neg):
            return False
        forms.append(neg)
        ok = False
        for som in (False, True):
            fs = [z3.simplify(f, som=True) for f in forms] if som else forms
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            ab = Abstraction(som)
            fs = [ab.rewrite(f) for f in fs]
            if not ab.used:
                continue
            for f in fs + ab.facts:
                s.add(f)
            if s.check() == z3.unsat:
                ok = True
                break
        self.solver_time += time.time() - t
        return ok

    def cvc5_valid(self, neg, ms):
        t = time.time()
        try:
            import cvc5
            s = z3.Solver()
            for f in self.pc:
                s.add(f)
            s.add(neg)
            txt = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(int(ms)))
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            res = 'unknown'
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if out is not None and 'unsat' in str(out):
                    res = 'unsat'
            return res
        except Exception:
            return 'unknown'
        finally:
            self.solver_time += time.time() - t

    def cover(self, name):
        """Reachability (anti-vacuity): the current path condition is satisfiable."""
        c = self.covers.setdefault(name, [0, 0])
        c[0] += 1
        if c[1] == 0:
            r = self.check(ms=self.timeout_ms)
            if r == z3.sat:
                c[1] += 1
