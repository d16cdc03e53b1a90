"""Collections of names (of attributes): a few tracked names, each in or not, and any number of others.  Sets and dictionaries
whose abstract part is one of these classes, and lists with `Rest` pieces, are followed exactly for the tracked names; what they
hold of the others is arbitrary.  The tracked names are symbolic texts, different from each other and from the others."""
import z3
from .core import *
from . import interp as I, rope as R, loops as L
MISS = I._MISS

def tracked(ex): return ex.ghost['names']
def which(ex, k):
    """the tracked name a value is, or None for another"""
    if not R.is_text(k): return None
    kk = R.key(k)
    for t in tracked(ex):
        if R.key(t) == kk: return kk
    if isinstance(k, R.Rope) and not any(isinstance(p, R.Seg) and p.atom.fname.startswith('another name') for p in k.parts):
        raise OutOfReach('a name made of others: %r' % (k,))
    return None
def another(ex, k): return isinstance(k, R.Rope) and 'names' in ex.ghost and any(isinstance(p, R.Seg) and p.atom.fname.startswith('another name') for p in k.parts)
def absent(ex, k):
    """a key that has to be there is not (for another name: the case of the tracked ones, which stand for any, where it is followed)"""
    if another(ex, k): raise Stop()
    ex.raise_('KeyError', k)
def by_key(ex): return [(R.key(t), t) for t in tracked(ex)]
def other(ex, where, k=0): return R.sym_str(ex, 'another name ' + where, ex.ghost.get('names_kind', 'b'), ix=(as_int(k),))
def distinct(ex, a, b):
    """whether two texts are different names (tracked ones, or a tracked and another)"""
    if not isinstance(a, R.Rope) or not isinstance(b, R.Rope): return False
    ka, kb = R.key(a), R.key(b)
    if ka == kb: return False
    t = [R.key(x) for x in tracked(ex)]
    n = lambda x: any(isinstance(p, R.Seg) and p.atom.fname.startswith('another name') for p in x.parts)
    return ka in t and (kb in t or n(b)) or kb in t and n(a)

class Rest(L.Piece):
    """other names (or pairs of one and a value), any number"""
    def __init__(self, ex, n=None, values=None, label=None):
        self.ex = ex; self.label = label or ex.fresh('rest'); self.values_ = values
        n = ex.int('others', lo=0).t if n is None else n
        L.Piece.__init__(self, n, self.one, self.label, lambda: Frame())
    def one(self, ex, k):
        nm = other(ex, self.label, k)
        return nm if self.values_ is None else (nm, self.values_(ex, nm))
    def keys(self): return Keys(self)
    def values(self): return L.Piece(self.n, lambda ex, k: self.one(ex, k)[1], self.label, self.inv)
    def sub(self, lo, hi): return Rest(self.ex, tint(as_int(hi) - as_int(lo)), self.values_)
    def where(self, ex, x):
        if which(ex, x) is not None: return None
        if not ex.branch(as_int(self.n) > 0) or not ex.choice(2): return None
        p = ex.int('place', lo=0).t; ex.assume(p < as_int(self.n))
        return p
    def add_to_set(self, ex, s): lift(ex, s); ex.heap.get(s.a).base.more(ex, self.n)
def remove_another(ex, l):
    """one of the others is removed from a list (whether a name is there when it is removed is followed for the tracked names, which stand for any)"""
    items = ex.heap.get(l.a).items; m = 0
    for x in items:
        if isinstance(x, Rest): m = tint(as_int(m) + as_int(x.n))
    ex.assume(as_int(m) > 0); ex.require_feasible()
    t = [x for x in items if not isinstance(x, Rest)]
    ex.heap.w(l.a).items[:] = spread(ex, t, tint(as_int(m) - 1))
class Keys(Rest):
    def __init__(self, of): self.of = of; self.ex = of.ex; self.label = of.label; self.n = of.n; self.name = of.label; self.inv = of.inv; self._sub = None; self.values_ = None; self._item = lambda ex, k: of.one(ex, k)[0]

class Names(object):
    """a set of names"""
    def __init__(self, ex, has=None, n=0): self.t = dict(has) if has is not None else {k: False for k, _ in by_key(ex)}; self.n = n
    def copy(self): x = Names.__new__(Names); x.t = dict(self.t); x.n = self.n; return x
    def has(self, ex, s, k):
        w = which(ex, k)
        if w is not None: return z3.BoolVal(self.t[w])
        return z3.And(as_int(self.n) > 0, z3.Bool(ex.fresh('holds another')))
    def add(self, ex, s, k):
        w = which(ex, k)
        if w is not None: self.t[w] = True
        else: self.more(ex, 1)
    def more(self, ex, n):
        """up to n others more"""
        if isinstance(n, int) and n == 0: return
        m = ex.int('others', lo=0).t; ex.assume(z3.And(m >= as_int(self.n), m >= as_int(n), m <= as_int(self.n) + as_int(n))); self.n = m
    def less(self, ex):
        """some others fewer"""
        if isinstance(self.n, int) and self.n == 0: return
        m = ex.int('others', lo=0).t; ex.assume(m <= as_int(self.n)); self.n = m
    def discard(self, ex, s, k):
        w = which(ex, k)
        if w is not None: r = self.t[w]; self.t[w] = False; return r
        n0 = self.n
        if not ex.branch(as_int(n0) > 0): return False
        self.less(ex); return bool(ex.choice(2))
    def items(self, ex, s): return spread(ex, [t for k, t in by_key(ex) if self.t[k]], self.n)
    def size(self): return tint(as_int(self.n) + sum(1 for v in self.t.values() if v))
    def len(self, ex, s): return mkint(self.size())
    def nonempty(self, ex, s): return as_int(self.size()) > 0
    def span(self, ex, s): raise OutOfReach('span of names')
    def havoc(self, ex): self.n = ex.int('others', lo=0).t

def spread(ex, items, n, values=None):
    """tracked ones among the others"""
    if isinstance(n, int) and n == 0 or ex.valid(as_int(n) == 0): return items
    if not items: return [Rest(ex, as_int(n), values)]
    m = ex.int('others', lo=0).t; ex.assume(m <= as_int(n))
    return [Rest(ex, m, values)] + items + [Rest(ex, as_int(n) - m, values)]

class Table(object):
    """a dictionary by name"""
    def __init__(self, ex, vals=None, n=0, values=None):
        self.t = {k: MISS for k, _ in by_key(ex)}; self.n = n; self.label = ex.fresh('table'); self.values_ = values or (lambda ex2, nm: Opaque('value of another'))
        for k, v in (vals or {}).items(): self.t[k] = v
    def copy(self): x = Table.__new__(Table); x.t = dict(self.t); x.n = self.n; x.label = self.label; x.values_ = self.values_; return x
    def clone(self, ex, d): return self.copy()
    def lookup(self, ex, d, k):
        w = which(ex, k)
        if w is not None: return self.t[w]
        if not ex.branch(as_int(self.n) > 0) or not ex.choice(2): return MISS
        return self.values_(ex, k)
    def set(self, ex, d, k, v):
        w = which(ex, k)
        if w is not None: self.t[w] = v
        else: Names.more(self, ex, 1)
        return True
    def delete(self, ex, d, k):
        w = which(ex, k)
        if w is not None: r = self.t[w] is not MISS; self.t[w] = MISS; return r
        Names.less(self, ex); return True
    def items(self, ex, d): return spread(ex, [(t, self.t[k]) for k, t in by_key(ex) if self.t[k] is not MISS], self.n, self.values_)
    def size(self): return tint(as_int(self.n) + sum(1 for v in self.t.values() if v is not MISS))
    def len(self, ex, d): return mkint(self.size())
    def nonempty(self, ex, d): return as_int(self.size()) > 0
    def havoc(self, ex): self.n = ex.int('others', lo=0).t

def lift(ex, ref):
    """give a plain set or dictionary of names its pointwise form"""
    r = ex.heap.get(ref.a)
    if isinstance(r.base, (Names, Table)): return r.base
    if r.base is not None: raise OutOfReach('names and something else')
    ents = list(r.ent.values()) + list(r.sym)
    if isinstance(r, HSet):
        b = Names(ex)
        for x in ents: b.add(ex, ref, x)
    else:
        b = Table(ex)
        for k, v in ents: b.set(ex, ref, k, v)
    w = ex.heap.w(ref.a); w.base = b; w.ent = {}; w.sym = []
    return b

def is_names(ex, v):
    """a collection in pointwise form"""
    if isinstance(v, tuple): return any(isinstance(x, Rest) for x in v)
    r = I.rec(ex, v) if isinstance(v, Ref) else None
    if isinstance(r, HObj) and r.payload is not None: r = I.rec(ex, r.payload)
    if isinstance(r, (HSet, HDict)): return isinstance(r.base, (Names, Table))
    return isinstance(r, HList) and any(isinstance(x, Rest) for x in r.items)
def view(ex, v):
    """-> (tracked names in it, number of others)"""
    its = I.iterate(ex, v); t = {k: False for k, _ in by_key(ex)}; n = 0
    for x in its:
        if isinstance(x, L.Piece): n = tint(as_int(n) + as_int(x.n)); continue
        w = which(ex, x)
        if w is not None: t[w] = True
        else: n = tint(as_int(n) + 1)
    return t, n

def union(ex, s, it):
    b = lift(ex, s); t, n = view(ex, it)
    for k, v in t.items():
        if v: b.t[k] = True
    b.more(ex, n)
def difference(ex, s, it):
    b = lift(ex, s); t, n = view(ex, it)
    for k, v in t.items():
        if v: b.t[k] = False
    if not (isinstance(n, int) and n == 0): b.less(ex)
def intersection(ex, s, it):
    b = lift(ex, s); t, n = view(ex, it)
    for k, v in t.items():
        if not v: b.t[k] = False
    m = b.n; b.less(ex)
    if not (isinstance(b.n, int)): ex.assume(b.n <= as_int(n))
def update(ex, d, src):
    """dict.update of one from another, one of them pointwise"""
    b = lift(ex, d); r = ex.heap.get(src.a)
    o = r.base if isinstance(r.base, Table) else None
    if o is None:
        for k, v in I.dict_items(ex, src): b.set(ex, d, k, v)
        return
    for k, v in o.t.items():
        if v is not MISS: b.t[k] = v
    Names.more(b, ex, o.n)

class Frame(L.Inv):
    """an iteration over another name: the tracked ones are as they are everywhere.  Which collections the body changes is found by running it"""
    def boxes(self, f):
        """the collections of names in reach: the variables of the function and the attributes of its objects, by path"""
        ex = f.ex; out = {}; seen = set()
        def add(path, v, deep):
            if not isinstance(v, Ref) or v.a in seen: return
            seen.add(v.a); r = ex.heap.get(v.a)
            if isinstance(r, HObj) and r.payload is not None: add(path, r.payload, 0)
            elif isinstance(r, (HSet, HDict, HList)): out[path] = v
            if isinstance(r, HObj) and deep:
                d = getattr(r, 'dct', None)
                if d is not None:
                    for e in list(ex.heap.get(d.a).ent.values()): add(path + '.' + str(e[0]), e[1], 0)
        if f.env is not None:
            for n, v in sorted(ex.heap.get(f.env.a).vars.items()): add(n, v, 1)
        return out
    def known(self, f):
        t = f.ex.lemma.__dict__.setdefault('name_frames', {})
        return t.setdefault((f.qual, self.where), set())
    def enter(self, f):
        ex = f.ex; self.ex = ex; self.where = getattr(f, 'loop_ln', None)
        b = self.boxes(f); self.bs = [b[p] for p in sorted(self.known(f)) if p in b]
        for b in self.bs:
            if not isinstance(ex.heap.get(b.a), HList): lift(ex, b)
        self.was = self.state(ex)
    def modified(self, f, a):
        for p, v in self.boxes(f).items():
            if v.a == a and p not in self.known(f): self.known(f).add(p); raise Retry()
    def state(self, ex): return [(b, dict(ex.heap.get(b.a).base.t) if not isinstance(ex.heap.get(b.a), HList) else view(ex, b)[0]) for b in self.bs]
    def havoc(self, f, k):
        ex = self.ex
        for b in self.bs:
            w = ex.heap.w(b.a)
            if isinstance(w, HList): w.items[:] = [Rest(ex)] + [x for x in w.items if not isinstance(x, Rest)] + [Rest(ex)]
            else: w.base = w.base.copy(); w.base.havoc(ex)
    def check(self, f, k):
        for (b, t), (_, t0) in zip(self.state(self.ex), self.was):
            for x in t0:
                ok = t[x] is t0[x] or t[x] == t0[x] if not isinstance(t0[x], SymBase) else t[x] is t0[x]
                self.ex.prove(bool(ok), 'other-names-do-not-touch-this-one', '%s: %r / %r' % (x, t0[x], t[x]))
SymBase = (SymInt, SymBool, SymFloat, Opaque)
