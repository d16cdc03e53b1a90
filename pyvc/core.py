"""
pyvc core: symbolic values, heap, path exploration, obligations.

A path is explored by running the interpreter from the start of the lemma under a decision prefix (replay).  Every
branch on a symbolic condition asks the solver which sides are feasible under the path condition; the lemma is
proved when every obligation of every feasible path is valid.
"""
import time, itertools, sys
sys.setrecursionlimit(60000)
import z3

class OutOfReach(Exception):
    """The code uses something the verifier has no semantics for."""

class Infeasible(Exception):
    """The current path has a contradictory condition."""

class Stop(Exception):
    """End of the path (everything to prove was proved)."""

class PyRaise(Exception):
    """A Python exception of the program under verification."""
    def __init__(self, val):
        Exception.__init__(self, val)
        self.val = val

# ---------------------------------------------------------------- values
class SymInt(object):
    __slots__ = ('t', 'kind', 'org')
    def __init__(self, t, kind=None, org=None):
        self.t = t; self.kind = kind; self.org = org
    def __repr__(self): return 'SymInt(%s)' % (self.t,)

class SymBool(object):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SymBool(%s)' % (self.t,)

class SymFloat(object):
    """A finite double; t is its real value.  nan and infinities are native floats."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SymFloat(%s)' % (self.t,)

class Ref(object):
    __slots__ = ('a',)
    def __init__(self, a): self.a = a
    def __eq__(self, o): return isinstance(o, Ref) and o.a == self.a
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.a)
    def __repr__(self): return '<%s>' % (self.a,)

class Opaque(object):
    """An arbitrary value of the program, given by a name and index terms.  `props` answers questions about it."""
    __slots__ = ('name', 'idx', 'props')
    def __init__(self, name, idx=(), props=None):
        self.name = name; self.idx = tuple(idx); self.props = props or {}
    def key(self): return (self.name,) + tuple(str(z3.simplify(as_int(i))) for i in self.idx)
    def __repr__(self): return 'Opaque%r' % (self.key(),)

class BuiltinFn(object):
    def __init__(self, name, fn, kind='builtin_function_or_method'):
        self.name = name; self.fn = fn; self.kind = kind
    def __repr__(self): return '<builtin %s>' % self.name

class BoundMethod(object):
    __slots__ = ('func', 'self')
    def __init__(self, func, self_): self.func = func; self.self = self_
    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.func == self.func and (o.self is self.self or o.self == self.self)
    def __hash__(self): return hash(id(self.func))
    def __repr__(self): return '<bound %r of %r>' % (self.func, self.self)

class Unmodelled(object):
    """A name of a library that has no model; using it is out of reach."""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<unmodelled %s>' % self.name
    def __eq__(self, o): return isinstance(o, Unmodelled) and o.name == self.name
    def __hash__(self): return hash(self.name)

class Poison(object):
    def __init__(self, why): self.why = why

class XRange(object):
    def __init__(self, lo, hi, step=1): self.lo = lo; self.hi = hi; self.step = step

def as_int(v):
    if isinstance(v, SymInt): return v.t
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SymBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return v

def mkint(t, kind=None, org=None):
    if isinstance(t, int): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SymInt(t, kind, org)

def tint(t):
    """z3 int term -> python int when it is a constant"""
    if isinstance(t, int): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return t

# ---------------------------------------------------------------- heap records
class Rec(object):
    gen = 0

class HList(Rec):
    """items: list of values and Span/LoopSeg pieces"""
    def __init__(self, items=()): self.items = list(items)
    def copy(self): return HList(self.items)

class HDict(Rec):
    def __init__(self, ent=None, sym=(), base=None):
        self.ent = dict(ent or {})     # canonical key -> (key, value), insertion order
        self.sym = list(sym)           # [(key, value)] symbolic keys, newest last
        self.base = base               # abstract part or None
    def copy(self): return HDict(self.ent, self.sym, self.base.copy() if hasattr(self.base, 'copy') else self.base)

class HSet(Rec):
    def __init__(self, ent=None, base=None):
        self.ent = dict(ent or {}); self.base = base; self.sym = []
    def copy(self):
        s = HSet(self.ent, self.base.copy() if hasattr(self.base, 'copy') else self.base); s.sym = list(self.sym); return s

class HObj(Rec):
    def __init__(self, cls, dct=None, payload=None):
        self.cls = cls; self.dct = dct; self.payload = payload; self.f = {}
    def copy(self):
        o = HObj(self.cls, self.dct, self.payload); o.f = dict(self.f); return o

class HClass(Rec):
    def __init__(self, name, bases, dct, kind='type', builtin=None, module=''):
        self.name = name; self.bases = tuple(bases); self.dict = dict(dct); self.kind = kind
        self.builtin = builtin; self.module = module; self.mro = None
    def copy(self):
        c = HClass(self.name, self.bases, self.dict, self.kind, self.builtin, self.module); c.mro = self.mro; return c

class HFunc(Rec):
    def __init__(self, name, node, env, defaults, module, qual):
        self.name = name; self.node = node; self.env = env; self.defaults = defaults
        self.module = module; self.qual = qual; self.attrs = {}
    def copy(self):
        f = HFunc(self.name, self.node, self.env, self.defaults, self.module, self.qual)
        f.attrs = dict(self.attrs); return f

class HModule(Rec):
    def __init__(self, name, vars=None, unmodelled=False):
        self.name = name; self.vars = vars if vars is not None else {}; self.f_unmodelled = unmodelled
    def copy(self): return HModule(self.name, dict(self.vars), self.f_unmodelled)

class HEnv(Rec):
    def __init__(self, vars=None, parent=None, globs=None, gdecl=()):
        self.vars = dict(vars or {}); self.parent = parent; self.globs = globs; self.gdecl = set(gdecl)
    def copy(self): return HEnv(self.vars, self.parent, self.globs, self.gdecl)

class HStream(Rec):
    """cStringIO.StringIO: content rope and position"""
    def __init__(self, buf=b'', pos=0): self.buf = buf; self.pos = pos
    def copy(self): return HStream(self.buf, self.pos)

class HTable(Rec):
    """abstract reference table: list of segments"""
    def __init__(self, segs=(), facts=()):
        self.segs = list(segs); self.facts = list(facts)
    def copy(self): return HTable(self.segs, self.facts)

class Heap(object):
    def __init__(self, base, ctr=0):
        self.base = base; self.over = {}; self.gen = 1; self.ctr = ctr
    def get(self, a):
        r = self.over.get(a)
        return r if r is not None else self.base[a]
    def w(self, a):
        r = self.over.get(a)
        if r is None:
            r = self.base[a].copy(); r.gen = self.gen; self.over[a] = r
        elif r.gen != self.gen:
            r = r.copy(); r.gen = self.gen; self.over[a] = r
        return r
    def new(self, rec):
        self.ctr += 1
        a = self.ctr
        rec.gen = self.gen
        self.over[a] = rec
        return Ref(a)
    def snap(self):
        self.gen += 1
        return dict(self.over)
    def restore(self, s):
        self.over = dict(s); self.gen += 1

class Obligation(object):
    __slots__ = ('name', 'ok', 'secs', 'detail', 'backend')
    def __init__(self, name, ok, secs, detail=None, backend='z3'):
        self.name = name; self.ok = ok; self.secs = secs; self.detail = detail; self.backend = backend

class Ex(object):
    """One path."""
    def __init__(self, world, prefix, lemma):
        self.world = world
        self.heap = Heap(world.base, world.ctr)
        self.solver = z3.Solver()
        self.solver.set('timeout', lemma.timeout_ms)
        self.lemma = lemma
        self.prefix = list(prefix); self.trace = []; self.forks = []
        self.fresh_ctr = 0
        self.depth = 0
        self.memo = {}
        self.ghost = {}
        self.events = []
        self.nested = 0
        self.steps = 0
        self.contracts = lemma.contracts
        self.loopseg = {}
        self.excstack = []
        self.lemma_unroll = 40
        self.stack = []
        for ax in lemma.axioms: self.solver.add(ax)

    # ---- solver
    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.lemma.solver_s += time.time() - t0
        self.lemma.queries += 1
        if r == z3.unknown and extra:
            r = self.lemma.second_opinion(self.solver, extra)
        return r

    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        k = ('assumed', c.get_id())
        if k in self.memo: return
        self.memo[k] = c            # (kept, so that its id is not used again)
        self.solver.add(c)

    def require_feasible(self):
        self.asked += 1
        k = (tuple(self.trace), self.asked); m = self.lemma.answers.get(k)
        if m is None: self.lemma.answers[k] = m = self.check() != z3.unsat
        if not m: raise Infeasible()

    def fresh(self, name):
        self.fresh_ctr += 1
        return '%s!%d' % (name, self.fresh_ctr)

    def int(self, name='i', lo=None, hi=None, kind=None):
        t = z3.Int(self.fresh(name))
        if lo is not None: self.assume(t >= lo)
        if hi is not None: self.assume(t <= hi)
        return SymInt(t, kind)

    def bool(self, name='b'):
        return SymBool(z3.Bool(self.fresh(name)))

    def branch(self, c):
        if isinstance(c, SymBool): c = c.t
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(c if d else z3.Not(c))
            return d
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if not t and not f: raise Infeasible()
        if t and f:
            self.forks.append(self.trace + [False])
            d = True
        else:
            d = t
        self.trace.append(d)
        self.solver.add(c if d else z3.Not(c))
        return d

    def choice(self, n):
        """explore n alternatives"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for j in range(1, n): self.forks.append(self.trace + [j])
        self.trace.append(d)
        return d

    def valid(self, c):
        """decide whether c holds on this path, without forking"""
        if isinstance(c, SymBool): c = c.t
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        # (the same question of a path that begins in the same way has the same answer)
        self.asked += 1
        k = (tuple(self.trace), self.asked, c.get_id()); m = self.lemma.answers.get(k)
        if m is None:
            self.lemma.answers[k] = m = (self.check(z3.Not(c)) == z3.unsat); self.lemma.terms.append(c)
        return m
    asked = 0

    def prove(self, c, name, detail=None):
        """an obligation"""
        lem = self.lemma
        if isinstance(c, SymBool): c = c.t
        key = (tuple(self.trace), self.nested, name, c.get_id() if not isinstance(c, bool) else c)
        if key in lem.proved: return True
        t0 = time.time()
        backend = 'z3'
        if isinstance(c, bool):
            ok = c
            if not ok and self.check() == z3.unsat: raise Infeasible()
            info = None if ok else 'false on a feasible path'
            backend = 'structural'
        else:
            r = self.check(z3.Not(c))
            ok = r == z3.unsat
            info = None
            if r == z3.sat:
                try: info = 'counter-model: %s' % (self.solver.model(),)
                except Exception: info = 'refuted'
            elif r == z3.unknown:
                self.give_up()
                lem.obls.append(Obligation(name, False, time.time() - t0, (detail, 'unknown'), backend))
                lem.out.append('undecided obligation %s: solver answered unknown' % name)
                raise Stop()
        if ok:
            lem.proved.add(key); lem.terms.append(c)
        else: self.give_up()
        lem.obls.append(Obligation(name, ok, time.time() - t0, None if ok else (detail, info), backend))
        if not ok:
            lem.fail(name, '%s %s' % (detail or '', info or ''))
            self.counterexample(None if isinstance(c, bool) else c)
            raise Stop()
        return ok

    trying = None
    def give_up(self):
        """while one of several annotations of a loop is tried: the next one"""
        if self.trying is not None:
            self.lemma.pick[self.trying] = self.lemma.pick.get(self.trying, 0) + 1
            raise Retry()

    def counterexample(self, c):
        """the values of the declared inputs under the counter-model, for replay on the real code"""
        rp = self.ghost.get('replay')
        if rp is None: return
        try:
            self.solver.push()
            if c is not None: self.solver.add(z3.Not(c))
            if self.solver.check() == z3.sat:
                m = self.solver.model()
                self.lemma.models.append(rp(m))
            self.solver.pop()
        except Exception: pass

    def cover(self, name):
        if name in self.lemma.covered: return
        if self.check() == z3.unsat: raise Infeasible()
        self.lemma.covered.add(name)

    def unreachable(self, name, detail=None):
        """prove that this point is not reachable"""
        if self.check() == z3.unsat: raise Infeasible()
        info = ''
        try: info = str(self.solver.model())
        except Exception: pass
        self.lemma.obls.append(Obligation(name, False, 0.0, (detail, info)))
        self.lemma.fail(name, '%s %s' % (detail, info))
        self.counterexample(None)
        raise Stop()

    # ---- nested exploration (loop bodies)
    def explore_nested(self, fn):
        """run fn on every path from here; state is restored before each one and at the end"""
        save = (self.prefix, self.trace, self.forks, self.heap.snap(), dict(self.memo), list(self.events), dict(self.ghost))
        self.nested += 1
        work = [[]]
        n = 0
        try:
            while work:
                p = work.pop()
                n += 1
                if n > self.lemma.max_paths: raise OutOfReach('too many paths in a loop body')
                self.prefix = p; self.trace = []; self.forks = []
                self.heap.restore(save[3])
                self.memo = dict(save[4]); self.events = list(save[5]); self.ghost = dict(save[6])
                self.solver.push()
                try:
                    fn()
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
                work.extend(self.forks)
        finally:
            self.nested -= 1
            self.prefix, self.trace, self.forks = save[0], save[1], save[2]
            self.heap.restore(save[3])
            self.memo, self.events, self.ghost = dict(save[4]), list(save[5]), dict(save[6])

class Retry(Exception):
    """the path has to be explored again, with what was learned on the way"""

class Lemma(object):
    """A named proof: a harness explored on all paths."""
    def __init__(self, name, fn, contracts=None, axioms=(), max_paths=4000, timeout_ms=8000, budget_s=120,
                 uses=(), doc='', cover=(), bounded=None, loops=None):
        self.loops = loops or {}; self.annotated = set()
        self.name = name; self.fn = fn; self.contracts = contracts or {}; self.axioms = list(axioms)
        self.max_paths = max_paths; self.timeout_ms = timeout_ms; self.budget_s = budget_s
        self.effects = set(); self.pick = {}; self.generators = set()
        self.obls = []; self.failures = []; self.solver_s = 0.0; self.queries = 0
        self.proved = set(); self.terms = []; self.answers = {}; self.paths = 0; self.out = []; self.doc = doc or (fn.__doc__ or '')
        self.models = []; self.cover = tuple(cover); self.covered = set(); self.bounded = bounded; self.undecided = []
        self.functions = set(); self.feasible_ends = 0; self.completed = 0; self.cvc5_calls = 0; self.used_contracts = set()
    def fail(self, name, detail):
        self.failures.append((name, str(detail)[:3000]))
    def second_opinion(self, solver, extra):
        from . import cvc5_backend
        self.cvc5_calls += 1
        if self.cvc5_calls > 40: return z3.unknown
        return cvc5_backend.check(solver, extra, 20)
    def reset(self):
        self.obls = []; self.failures = []; self.out = []; self.proved = set(); self.terms = []; self.answers = {}; self.models = []; self.covered = set(); self.undecided = []
        self.completed = self.feasible_ends = 0
    def run(self, world):
        t0 = time.time()
        work = [[]]; restarts = 0
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self.out.append('more than %d paths' % self.max_paths); break
            if time.time() - t0 > self.budget_s:
                self.out.append('time budget of %d s exhausted' % self.budget_s); break
            ex = Ex(world, prefix, self)
            try:
                self.fn(ex)
                if ex.check() == z3.unsat: raise Infeasible()
                self.feasible_ends += 1; self.completed += 1
            except Retry:
                # what was learned changes the exploration: start again
                restarts += 1; self.reset()
                if restarts > 60: self.out.append('no annotation fits'); break
                work = [[]]; continue
            except (Infeasible,):
                pass
            except Stop:
                self.feasible_ends += 1
            except OutOfReach as e:
                try: ex.give_up()
                except Retry:
                    restarts += 1
                    if restarts <= 60:
                        self.reset(); work = [[]]; continue
                self.out.append('out of reach: %s%s' % (e, ex.where()))
                if len(self.out) > 5: break
            except PyRaise as e:
                # an exception the harness did not expect
                try: ex.unreachable('no-unexpected-exception', 'raises %s%s' % (ex.describe_exc(e.val), ex.where()))
                except (Stop, Infeasible): pass
                except OutOfReach as e2: self.out.append(str(e2))
            except RecursionError:
                self.out.append('recursion limit'); break
            work.extend(ex.forks)
            if len(self.failures) >= 5: break
        self.secs = time.time() - t0
        return self
    @property
    def status(self):
        if self.failures: return 'refuted'
        if self.out: return 'out-of-reach'
        if not self.obls or not (self.completed or self.covered): return 'vacuous'
        return 'proved'
