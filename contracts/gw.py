"""Arbitrary services, authenticators, preprocessors, requests and errors, for the lemmas on gateways."""
from .lib import *
from pyvc import loops as L
GW = 'pyamf.remoting.gateway.'
RM = 'pyamf.remoting.'
A0 = 'pyamf.remoting.amf0.'
A3 = 'pyamf.remoting.amf3.'

def as_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else c.t if isinstance(c, SymBool) else c
def in_scope(q):
    def c(ex, f, a, k):
        h = ex.ghost.get('scoped', {}).get(q)
        return NotImplemented if h is None else h(ex, f, a, k)
    return c
def scope(ex, **k): ex.ghost.setdefault('scoped', {}).update(k)
def is_a(ex, e, c):
    """isinstance, of an error too"""
    return ex.branch(as_bool(ERRORS(ex, e, c))) if isinstance(e, Opaque) else I.is_subclass(ex, I.class_of(ex, e), c)

def ERRORS(ex, e, c):
    """whether an arbitrary exception is of a class: of BaseException; otherwise anything the class hierarchy allows"""
    if isinstance(c, tuple): return z3.Or([as_bool(ERRORS(ex, e, x)) for x in c])
    T = ex.world.T
    if c == T['BaseException'] or c == T['object']: return z3.BoolVal(True)
    k = ('error', e.name, c.a)
    if k not in ex.memo:
        b = z3.Bool('%s is a %s %d' % (e.name, ex.heap.get(c.a).name, c.a))
        for k2, v in list(ex.memo.items()):
            if isinstance(k2, tuple) and k2[:2] == ('error', e.name):
                if I.is_subclass(ex, Ref(k2[2]), c): ex.assume(z3.Implies(v, b))
                if I.is_subclass(ex, c, Ref(k2[2])): ex.assume(z3.Implies(b, v))
        ex.memo[k] = b
    return ex.memo[k]

def error(ex, name='error', exits=False):
    """an arbitrary exception of any class (exits: a process exit or keyboard interrupt)"""
    n = ex.fresh(name)
    T = ex.world.T
    def cls_attr(ex2, o, a):
        if a == '__name__': return R.sym_str(ex2, 'error name') if False else ex2.memo.setdefault(('errname', n), R.sym_str(ex2, 'class name'))
        if a == '_amf_code':
            if ex2.branch(z3.Bool(n + ' has a code')): return ex2.memo.setdefault(('errcode', n), Opaque(n + ' code'))
            I.attr_error(ex2, o, a)
        return MISS
    def val_attr(ex2, o, a):
        if a == '__class__': return c
        if a == 'args': return ex2.memo.setdefault(('errargs', n), [(), (R.sym_str(ex2, 'first argument', 'b'),), (Opaque('first argument', (), {'isinstance': lambda *x: False}),)][ex2.choice(3)])
        if ex2.branch(z3.Bool('%s has %s' % (n, a))): return ex2.memo.setdefault(('errattr', n, a), Opaque('%s.%s' % (n, a)))
        I.attr_error(ex2, o, a)
    c = Opaque(n + ' class', (), {'getattr': cls_attr, 'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name})
    e = Opaque(n, (), {'isinstance': ERRORS, 'class': c, 'getattr': val_attr, 'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name, 'truth': lambda *a: True})
    x = z3.Or(as_bool(ERRORS(ex, e, T['SystemExit'])), as_bool(ERRORS(ex, e, T['KeyboardInterrupt'])))
    ex.assume(x if exits else z3.Not(x))
    if exits: ex.assume(z3.Not(as_bool(ERRORS(ex, e, T['Exception']))))      # a process exit is no ordinary exception too
    return e
def code_of(ex, e):
    """what a fault names an error by"""
    n = e.name
    return ex.memo.setdefault(('errcode', n), Opaque(n + ' code')) if ex.branch(z3.Bool(n + ' has a code')) else ex.memo.setdefault(('errname', n), R.sym_str(ex, 'class name'))

class Trace(object):
    """the calls of service code on a path, in order"""
    def __init__(self): self.ev = []
    def names(self): return [e[0] for e in self.ev]

def outcome(ex, what, value=None, exits=True):
    """arbitrary code: it returns a value, raises any error, or ends the process"""
    h = ex.choice(3 if exits else 2)
    if h == 0: return ('ok', Opaque(ex.fresh(what)) if value is None else value() if callable(value) else value)
    return (('error', 'exit')[h - 1], error(ex, what + ' error', h == 2))

def play(o):
    if o[0] == 'ok': return o[1]
    raise PyRaise(o[1])

def code(ex, name, tr, attrs=(), value=None):
    """a callable of the program: what it does is recorded and arbitrary.  attrs: attributes it may have"""
    state = {}
    def run(ex2, f, a, k):
        o = outcome(ex2, name + ' result', value)
        tr.ev.append((name, tuple(a), dict(k), o))
        return play(o)
    def get(ex2, o, a):
        if a in attrs:
            if a not in state: state[a] = ex2.choice(2)
            if state[a]: return attrs[a]
        I.attr_error(ex2, o, a)
    return Opaque(name, (), {'call': run, 'getattr': get, 'truth': lambda *a: True, 'callable': True, 'isinstance': lambda *a: False, 'str': lambda ex2, o: b'<service>',
                             'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name})

def mark(ex, name, cls=None): return Opaque(name, (), {'truth': lambda *a: True, 'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name})

def same(ex, a, b, name):
    """obligation: this very value"""
    ex.prove(as_bool(I.is_(ex, a, b)) if not (R.is_text(a) and R.is_text(b)) else as_bool(R.eq(ex, a, b)), name, '%r / %r' % (a, b))

def same_args(ex, got, want, name):
    for x in want:
        if I.is_piece(x) and not got and ex.valid(as_int(x.count(ex)) == 0): want = tuple(y for y in want if y is not x)
    ex.prove(len(got) == len(want), name, '%r / %r' % (got, want))
    for x, y in zip(got, want):
        if I.is_piece(x) or I.is_piece(y): ex.prove(x is y or getattr(x, 'name', 0) == getattr(y, 'name', 1), name, '%r / %r' % (got, want))
        else: same(ex, x, y, name)
