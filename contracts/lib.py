"""Shared vocabulary of the lemmas."""
import z3
from pyvc.core import *
from pyvc import interp as I, rope as R, ops, bi
from pyvc.interp import _MISS
MISS = _MISS

CALLEE = {}     # qualified callee -> what discharges its contract

def ev(m, t):
    """value of a term in a model"""
    if isinstance(t, (int, float, str, bytes)): return t
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    return None

def reach(what, fn):
    """evaluate part of a harness; when the code no longer has what it names, the lemma is out of reach, not refuted"""
    try: return fn()
    except PyRaise as e: raise OutOfReach('%s: %s' % (what, e.val))
    except (KeyError, AttributeError, IndexError) as e: raise OutOfReach('%s: %s %s' % (what, type(e).__name__, e))
def G(ex, name): return reach(name, lambda: ex.world.get(ex, name))
def call(ex, f, *a, **k):
    if isinstance(f, str): f = G(ex, f)
    return I.call(ex, f, list(a), k)
def meth(ex, o, name, *a, **k): return I.call(ex, I.getattr_(ex, o, name), list(a), k)
def attr(ex, o, name): return reach(name, lambda: I.getattr_(ex, o, name))

def stream(ex, content=b''):
    return call(ex, 'pyamf.util.pure.BufferedByteStream', content)

def buf(ex, st):
    """content of a stream"""
    return meth(ex, st, 'getvalue')

def result(ex, fn):
    """('ok', value) or ('exc', class name)"""
    d = ex.depth; sl = len(ex.stack)
    try: return ('ok', fn())
    except PyRaise as e:
        ex.depth = d; del ex.stack[sl:]
        if isinstance(e.val, Opaque): return ('exc', None, e.val)
        return ('exc', ex.heap.get(I.class_of(ex, e.val).a).name, e.val)

def same_bytes(ex, a, b, name, detail=None):
    """obligation: two strings are equal"""
    if not (R.is_text(a) and R.is_text(b)) or R.kind_of(a) != R.kind_of(b):
        return ex.prove(False, name, 'kinds differ: %r / %r' % (a, b))
    ex.prove(R.eq(ex, a, b), name, detail or '%r == %r' % (a, b))

def replay_int(ex, contract, *terms):
    def rp(m):
        vs = [ev(m, as_int(t)) for t in terms]
        return {'contract': contract, 'case': repr(vs[0] if len(vs) == 1 else tuple(vs))}
    ex.ghost['replay'] = rp

class AbsDict(object):
    """An arbitrary dict satisfying a pointwise invariant: looking a key up either misses or gives make(ex, key)"""
    def __init__(self, name, make, check=None, exact=False):
        self.name = name; self.make = make; self.check = check; self.exact = exact
    def lookup(self, ex, d, k):
        kk = ('absdict', self.name, keyname(ex, k))
        if kk not in ex.memo:
            ex.memo[kk] = self.make(ex, k) if ex.branch(z3.Bool('%s has %s' % (self.name, keyname(ex, k)))) else _MISS
        return ex.memo[kk]
    def set(self, ex, d, k, v):
        if self.check is not None: self.check(ex, k, v)
        if self.exact: return False          # recorded as an entry of its own, compared by key
        ex.memo[('absdict', self.name, keyname(ex, k))] = v
        return True
    def delete(self, ex, d, k): raise OutOfReach('deleting from %s' % self.name)
    def items(self, ex, d): raise OutOfReach('iterating %s' % self.name)
    def nonempty(self, ex, d): return z3.Bool(ex.fresh(self.name + ' nonempty'))
    def len(self, ex, d): return ex.int('len ' + self.name, lo=0)

def keyname(ex, k):
    if isinstance(k, bytes) and k.isascii(): k = k.decode()
    if R.is_text(k): return R.key(k)
    if isinstance(k, (SymInt,)): return str(z3.simplify(k.t))
    if isinstance(k, Opaque): return repr(k.key())
    return repr(k)

# ---- byte streams
class BS(object):
    """a byte stream in an arbitrary state allowed by its representation invariant: any content, any position within it,
    and a cached length that is right unless flagged stale"""
    def __init__(self, ex, content=None, pos=None, cached=None):
        self.ex = ex
        self.st = stream(ex)
        self.c = R.sym_str(ex, 'content') if content is None else content
        self.p = ex.int('pos', lo=0).t if pos is None else pos
        n = R.length(ex, self.c)
        ex.assume(as_int(self.p) <= as_int(n))
        def put():
            r = ex.heap.w(self.st.a)
            I.getattr_(ex, self.st, '_buffer'); I.getattr_(ex, self.st, '_len'); I.getattr_(ex, self.st, '_len_changed')
            b = ex.heap.w(I.getattr_(ex, self.st, '_buffer').a)
            b.buf; b.buf = self.c; b.pos = tint(as_int(self.p))
            fresh = ex.choice(2) if cached is None else cached
            I.setattr_(ex, self.st, '_len_changed', not fresh)
            I.setattr_(ex, self.st, '_len', mkint(as_int(n)) if fresh else ex.int('stale length'))
        reach('byte stream representation', put)
    def state(self):
        b = self.ex.heap.get(I.getattr_(self.ex, self.st, '_buffer').a)
        return b.buf, b.pos
    def check(self, content, pos, name):
        """the stream now has this content and position, its public observers agree and the representation invariant holds"""
        ex = self.ex; st = self.st
        got = buf(ex, st)
        same_bytes(ex, got, content, name + '-content')
        n = R.length(ex, content)
        ex.prove(as_int(meth(ex, st, 'tell')) == as_int(pos), name + '-position')
        if not ex.branch(as_int(pos) <= as_int(n)): return
        ch = I.getattr_(ex, st, '_len_changed')
        ln = I.getattr_(ex, st, '_len')
        inv = True if ch is True else as_int(ln) == as_int(n)
        ex.prove(z3.Or(as_int(ch) == 1, inv) if not isinstance(inv, bool) else inv, name + '-length-cache')
        ex.prove(as_int(call(ex, G(ex, 'pyamf.util.pure.BufferedByteStream.__len__'), st)) == as_int(n), name + '-len')
        ex.prove(as_int(meth(ex, st, 'remaining')) == as_int(n) - as_int(pos), name + '-remaining')
        e = meth(ex, st, 'at_eof')
        ex.prove((as_int(e) == 1) == (as_int(pos) == as_int(n)), name + '-at_eof')

def strmeta(ex, name='s', kind=None):
    """an arbitrary byte or unicode string"""
    kind = ('b', 'u')[ex.choice(2)] if kind is None else kind
    return R.sym_str(ex, name, kind)

def utf8_of(ex, s): return s if R.is_str(s) else R.utf8(ex, s)

def splice(ex, c, p, s):
    """c with s written at p: overwritten in place or extended"""
    n = R.length(ex, c); sl = R.length(ex, s)
    head = R.slice_(ex, c, 0, p)
    end = tint(as_int(p) + as_int(sl))
    if ex.branch(as_int(end) >= as_int(n)): return R.concat(ex, head, s)
    return R.concat(ex, R.concat(ex, head, s), R.slice_(ex, c, end, n))

def expect(ex, r, kind, name):
    """obligation: the call ended in this way: 'ok' or an exception class name"""
    ok = r[0] == 'ok' if kind == 'ok' else r[0] == 'exc' and (r[1] == kind or (kind in ANCESTORS and r[1] in ANCESTORS[kind]))
    ex.prove(bool(ok), name, '%s %s' % (r[0], ex.describe_exc(r[2]) if r[0] == 'exc' else ''))
ANCESTORS = {}

def any_cache(ex, st, content):
    """the cached length of a stream: any number if flagged stale, else right"""
    f = ex.bool('stale'); n = ex.int('cached length')
    ex.assume(z3.Or(f.t, n.t == as_int(R.length(ex, content))))
    def put():
        I.getattr_(ex, st, '_len'); I.getattr_(ex, st, '_len_changed')
        I.setattr_(ex, st, '_len_changed', f); I.setattr_(ex, st, '_len', n)
    reach('stream length cache', put)

def check_cache(ex, st, content, name):
    ch = I.getattr_(ex, st, '_len_changed'); ln = I.getattr_(ex, st, '_len')
    if ch is True: return
    ex.prove(z3.Or(as_int(ch) == 1, as_int(ln) == as_int(R.length(ex, content))), name + '-length-cache')

def sio(ex, st): return I.getattr_(ex, st, '_buffer')
