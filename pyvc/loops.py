"""Loops over symbolic sequences: verified with annotations (invariants keyed by function and loop).

An annotation gives, for the state at the start of iteration k, how to put the program into an arbitrary such state
(`havoc`) and what has to be proved of a state (`check`).  The rule is the usual one: the invariant holds on entry; from an
arbitrary state of iteration k that satisfies it, one run of the body satisfies it for k+1; after the loop it holds for the
last k.  Every way of leaving the body (break, return, exception) continues the path of the caller.
"""
import z3
from .core import *
from . import interp as I

class Piece(object):
    """k-th element by rule: count and item are given"""
    piece = True
    def __init__(self, n, item, name='piece', inv=None, sub=None): self.n = n; self._item = item; self.name = name; self.inv = inv; self._sub = sub
    def sub(self, lo, hi):
        """elements lo..hi"""
        if self._sub is not None: return self._sub(lo, hi)
        return Piece(tint(as_int(hi) - as_int(lo)), lambda ex, k: self._item(ex, tint(as_int(lo) + as_int(k))), self.name + ' part')
    def count(self, ex): return self.n
    def item(self, ex, k): return self._item(ex, k)
    def keys(self): return Piece(self.n, lambda ex, k: self._item(ex, k)[0], self.name + '.keys', self.inv)
    def values(self): return Piece(self.n, lambda ex, k: self._item(ex, k)[1], self.name + '.values', self.inv)
    def __repr__(self): return 'Piece(%s)' % self.name

class RangePiece(object):
    piece = True
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
    def count(self, ex): return tint(z3.If(as_int(self.hi) > as_int(self.lo), as_int(self.hi) - as_int(self.lo), 0))
    def item(self, ex, k): return mkint(as_int(self.lo) + as_int(k))

def ordinals(node):
    """loops and comprehensions of a function in source order"""
    out = []
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
        elif isinstance(n, I.Node):
            if n._ in ('FunctionDef', 'ClassDef', 'Lambda') and n is not node: return
            if n._ in ('For', 'While', 'comprehension'): out.append(n)
            for k, v in n.__dict__.items():
                if isinstance(v, (list, I.Node)): walk(v)
    walk(node)
    out.sort(key=lambda n: (getattr(n, 'ln', 0) or 0))
    return out

def find(frame, s):
    """the annotation of a loop: by (function, ordinal), else by function when it has a single one"""
    tab = getattr(frame.ex.lemma, 'loops', None) or {}
    if not tab: return None
    q = frame.qual
    a = tab.get(q)
    if a is None:
        node = getattr(frame, 'node', None)
        if node is None: return None
        os = ordinals(node)
        i = [j for j, n in enumerate(os) if n is s]
        a = tab.get((q, i[0])) if i else None
    if a is None: return None
    return a()

def guarded(f, *a):
    try: return f(*a)
    except (KeyError, AttributeError, IndexError, TypeError) as e:
        raise OutOfReach('the loop annotation does not fit the code: %s %s' % (type(e).__name__, e))

class Cut(object):
    """an arbitrary iteration of a loop: locals assigned in it are unknown unless the annotation gives them, and nothing may be
    modified in it but what the annotation makes arbitrary"""
    def __init__(self, frame, a, body, target=None):
        self.frame = frame; self.a = a
        names, _ = I.stored_names(body)
        if target is not None: names |= target_names(target)
        self.names = names
    def at(self, k):
        ex = self.frame.ex; h = ex.heap
        h.gen += 1; g = h.gen
        if self.frame.env is not None:
            e = h.w(self.frame.env.a)
            for n in self.names:
                if n in e.vars: e.vars[n] = Poison(n)
        guarded(self.a.havoc, self.frame, k)
        self.mine = set(x for x, r in h.over.items() if r.gen >= g) | {self.frame.env.a if self.frame.env is not None else None}
        h.gen += 1; self.g = h.gen; self.c0 = h.ctr
    def frame_ok(self):
        h = self.frame.ex.heap
        bad = [x for x, r in h.over.items() if r.gen >= self.g and x <= self.c0 and x not in self.mine]
        for x in bad:
            r = h.over[x]
            if isinstance(r, HEnv): continue
            if hasattr(self.a, 'modified'): self.a.modified(self.frame, x)
            raise OutOfReach('the loop in %s modifies %s, which its annotation does not mention' % (self.frame.qual, type(r).__name__ + (repr(r.items) if isinstance(r, HList) else '')))

def target_names(t):
    if t._ == 'Name': return {t.id}
    out = set()
    for e in getattr(t, 'elts', None) or []: out |= target_names(e)
    return out

def while_loop(frame, s):
    a = find(frame, s)
    w = frame.ex.ghost.get('while_inv')      # (module prefix, factory): given by the harness
    if a is None and w is not None and frame.qual.startswith(w[0]): a = w[1]()
    if a is None: return False
    ex = frame.ex
    guarded(a.enter, frame)
    guarded(a.check, frame, 0)
    k = ex.int('k', lo=0).t
    c = Cut(frame, a, s.body)
    c.at(k)
    ex.lemma.annotated.add(frame.qual)
    if I.truth(ex, frame.ev(s.test)):
        v0 = guarded(a.variant, frame)
        try: frame.block(s.body)
        except I._Break: return True
        except I._Continue: pass
        c.frame_ok()
        guarded(a.check, frame, tint(k + 1))
        v1 = guarded(a.variant, frame)
        if v0 is not None: ex.prove(z3.And(as_int(v0) >= 0, as_int(v1) < as_int(v0)), 'loop-terminates')
        raise Stop()
    frame.block(s.orelse or [])
    return True

def annotation(frame, s, piece):
    """of this loop, else of the sequence it runs over"""
    a = find(frame, s)
    if a is None and getattr(piece, 'inv', None) is not None: a = piece.inv()
    if isinstance(a, (tuple, list)):
        # candidates, tried in turn (every obligation of the one that is kept has to hold)
        i = frame.ex.lemma.pick.get(id(s), 0)
        if i < len(a) - 1: frame.ex.trying = id(s)
        a = a[min(i, len(a) - 1)]
    if a is None and isinstance(piece, RangePiece) and frame.ex.ghost.get('range_inv') is not None: a = frame.ex.ghost['range_inv']()
    if a is None and isinstance(piece, RangePiece) and frame.ex.ghost.get('range_for') is not None: a = frame.ex.ghost['range_for'](piece)
    return a

def piece_loop(frame, s, piece):
    """True when the loop was left by break"""
    a = annotation(frame, s, piece)
    if a is None: raise OutOfReach('loop over %r without an invariant in %s' % (piece, frame.qual))
    ex = frame.ex
    n = piece.count(ex)
    guarded(a.enter, frame)
    guarded(a.check, frame, 0)
    ex.lemma.annotated.add(frame.qual)
    c = Cut(frame, a, s.body, s.target)
    if ex.choice(2) == 0:
        k = ex.int('k', lo=0).t
        ex.assume(k < as_int(n))
        ex.require_feasible()
        c.at(k)
        frame.assign(s.target, piece.item(ex, k))
        try: frame.block(s.body)
        except I._Break: return True
        except I._Continue: pass
        c.frame_ok()
        guarded(a.check, frame, tint(k + 1))
        raise Stop()
    ex.assume(as_int(n) >= 0)
    ex.trying = None
    c.at(n)
    ex.require_feasible()
    return False

def comp_piece(frame, g, piece, emit, out=None):
    """out: the list a list comprehension builds"""
    ex = frame.ex
    a = annotation(frame, g, piece)
    if not (out is None or id(g) in ex.lemma.effects): ex.trying = None
    if out is None or id(g) in ex.lemma.effects:
        if a is None: raise OutOfReach('comprehension with effects over %r' % piece)
        return comp_effect(frame, g, piece, emit, a, out)
    def impure(why):
        if a is None: raise OutOfReach('comprehension %s over %r' % (why, piece))
        ex.lemma.effects.add(id(g))
        raise Retry()
    # a mapping or filter without effects: decide for an arbitrary element
    n = piece.count(ex)
    k0 = ex.int('k', lo=0).t
    ex.heap.gen += 1; gg = ex.heap.gen; c0 = ex.heap.ctr
    save = list(ex.heap.get(out.a).items)
    def at(k):
        frame.assign(g.target, piece.item(ex, k))
        for t in g.ifs or []:
            v = frame.ev(t)
            if isinstance(v, SymBool): raise OutOfReach('comprehension with a symbolic condition over %r' % piece)
            if not I.truth(ex, v): return MISS
        emit()
        return ex.heap.w(out.a).items.pop()
    ex.assume(z3.Or(k0 < as_int(n), as_int(n) <= 0))
    depth = len(ex.trace)
    v = at(k0)
    if len(ex.trace) != depth: impure('that forks')
    if [x for x, r in ex.heap.over.items() if r.gen >= gg and x <= c0 and x != out.a and not isinstance(r, HEnv)]: impure('with effects')
    ex.heap.w(out.a).items[:] = save
    if v is MISS: return
    def item(ex, k):
        old = ex.heap.over.get(out.a)
        ex.heap.over[out.a] = HList(ex.heap.get(out.a).items)
        ex.heap.over[out.a].gen = ex.heap.gen
        try: return at(k)
        finally: ex.heap.over[out.a] = old
    ex.heap.w(out.a).items.append(Piece(n, item, piece.name + ' mapped', piece.inv if hasattr(piece, 'inv') else None))

MISS = object()

def comp_effect(frame, g, piece, emit, a, out):
    ex = frame.ex
    n = piece.count(ex)
    guarded(a.enter, frame)
    guarded(a.check, frame, 0)
    ex.lemma.annotated.add(frame.qual)
    c = Cut(frame, a, [], g.target)
    save = list(ex.heap.get(out.a).items) if out is not None else None
    if ex.choice(2) == 0:
        k = ex.int('k', lo=0).t
        ex.assume(k < as_int(n))
        ex.require_feasible()
        c.at(k)
        if out is not None: c.mine.add(out.a)
        frame.assign(g.target, piece.item(ex, k))
        n0 = len(ex.heap.get(out.a).items) if out is not None else 0
        if all(I.truth(ex, frame.ev(t)) for t in g.ifs or []): emit()
        if out is not None and hasattr(a, 'emitted'): guarded(a.emitted, frame, k, ex.heap.get(out.a).items[n0:])
        c.frame_ok()
        guarded(a.check, frame, tint(k + 1))
        raise Stop()
    ex.trying = None
    c.at(n)
    if hasattr(a, 'collected'):
        ex.heap.w(out.a).items[:] = save + [a.collected(frame)]; return
    # the values such a comprehension collects are unknown
    if out is not None: ex.heap.w(out.a).items[:] = save + [Piece(n, lambda ex, k: Opaque('collected', (as_int(k),)), 'collected')]

class Inv(object):
    """base class of annotations"""
    def enter(self, frame): pass
    def check(self, frame, k): pass
    def havoc(self, frame, k): pass
    def variant(self, frame): return None
    def var(self, frame, name): return frame.load(name)
    def setvar(self, frame, name, v): frame.store(name, v)
    def poison(self, frame, *names):
        for n in names: frame.store(n, Poison(n))
