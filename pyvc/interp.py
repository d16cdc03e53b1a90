"""Interpreter for the Python 2 subset PyAMF is written in, over the values of core.py and rope.py."""
import json, z3
from .core import *
from . import rope as R
from .rope import Rope, is_str, is_uni, is_text

class Node(object):
    def __repr__(self): return '<%s@%s>' % (self._, getattr(self, 'ln', '?'))

def load_node(d):
    if isinstance(d, dict):
        if '_' in d:
            n = Node()
            n._ = d['_']
            for k, v in d.items():
                if k == '_': continue
                n.__dict__[k] = load_node(v)
            if n._ == 'Str':
                s = d['s']
                n.s = s['b'].encode('latin-1') if 'b' in s else s['u']
            return n
        if 'b' in d: return d['b']
        if 'u' in d: return d['u']
        if 'i' in d: return int(d['i'])
        if 'l' in d: return int(d['l'])
        if 'f' in d: return float(d['f'])
        if 'e' in d: return d['e']
        raise OutOfReach('constant %r' % d)
    if isinstance(d, list): return [load_node(x) for x in d]
    return d

class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass

def stored_names(nodes, deep=False):
    """names assigned in a statement list (not inside nested functions/classes)"""
    out = set(); glob = set()
    def target(t):
        if t is None: return
        if t._ == 'Name': out.add(t.id)
        elif t._ in ('Tuple', 'List'):
            for e in t.elts: target(e)
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
            return
        if not isinstance(n, Node): return
        if n._ in ('FunctionDef', 'ClassDef'):
            out.add(n.name); return
        if n._ in ('Lambda', 'GeneratorExp', 'SetComp', 'DictComp'): return
        if n._ == 'Global': glob.update(n.names); return
        if n._ == 'Assign':
            for t in n.targets: target(t)
        elif n._ == 'AugAssign': target(n.target)
        elif n._ in ('For', 'comprehension'): target(n.target)
        elif n._ == 'ExceptHandler' and n.name is not None: target(n.name)
        elif n._ in ('Import', 'ImportFrom'):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        elif n._ == 'With' and getattr(n, 'optional_vars', None) is not None: target(n.optional_vars)
        for k, v in n.__dict__.items():
            if isinstance(v, (list, Node)): walk(v)
    walk(nodes)
    return out - glob, glob

# ------------------------------------------------------------------ helpers on Ex
def raise_(ex, clsname, *args):
    cls = ex.world.T[clsname]
    raise PyRaise(instantiate_exc(ex, cls, args))

def instantiate_exc(ex, cls, args):
    o = HObj(cls, ex.heap.new(HDict()))
    o.f['args'] = tuple(args)
    return ex.heap.new(o)
Ex.raise_ = raise_

def where(ex):
    return ' [%s]' % ' < '.join(reversed(['%s:%s' % x for x in ex.stack[-4:]])) if getattr(ex, 'stack', None) else ''
Ex.where = where
Ex.stack = None

def describe_exc(ex, v):
    if isinstance(v, Ref):
        r = ex.heap.get(v.a)
        if isinstance(r, HObj):
            return '%s%r' % (ex.heap.get(r.cls.a).name, r.f.get('args', ()))
    return repr(v)
Ex.describe_exc = describe_exc

def rec(ex, v):
    return ex.heap.get(v.a) if isinstance(v, Ref) else None

def T(ex, name): return ex.world.T[name]

def class_of(ex, v):
    t = ex.world.T
    if v is None: return t['NoneType']
    if isinstance(v, (bool, SymBool)): return t['bool']
    if isinstance(v, int):
        return t['int'] if -2**31 <= v < 2**31 else t['long']
    if isinstance(v, SymInt):
        if v.kind: return t[v.kind]
        c = z3.And(v.t >= -2**31, v.t < 2**31)
        return t['int'] if ex.branch(c) else t['long']
    if isinstance(v, (float, SymFloat)): return t['float']
    if is_str(v): return t['str']
    if is_uni(v): return t['unicode']
    if isinstance(v, tuple): return t['tuple']
    if isinstance(v, BuiltinFn): return t[v.kind]
    if isinstance(v, BoundMethod):
        if isinstance(v.func, BuiltinFn): return t['builtin_function_or_method']
        return t['instancemethod']
    if isinstance(v, XRange): return t['xrange']
    if isinstance(v, Opaque):
        c = v.props.get('class')
        if c is None: raise OutOfReach('type of %r' % v)
        return c
    if isinstance(v, Ref):
        r = ex.heap.get(v.a)
        if isinstance(r, HObj): return r.cls
        if isinstance(r, HClass): return t['type'] if r.kind == 'type' else t['classobj']
        n = {HList: 'list', HDict: 'dict', HSet: 'set', HFunc: 'function', HModule: 'module', HStream: 'StringIO'}.get(type(r))
        if n: return t[n]
    if isinstance(v, Unmodelled): raise OutOfReach('type of unmodelled %s' % v.name)
    raise OutOfReach('type of %r' % (v,))

def type_of(ex, v):
    """the builtin type()"""
    c = class_of(ex, v)
    if isinstance(c, Ref) and ex.heap.get(c.a).kind == 'classobj': return ex.world.T['instance']
    return c

def mro_of(ex, c):
    r = ex.heap.get(c.a)
    if r.mro is None:
        r.mro = compute_mro(ex, c)
    return r.mro

def compute_mro(ex, c):
    r = ex.heap.get(c.a)
    if r.kind == 'classobj':
        out = [c]
        for b in r.bases:
            for m in mro_of(ex, b):
                if m not in out: out.append(m)
        return out
    seqs = [list(mro_of(ex, b)) for b in r.bases] + [list(r.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs: return out
        for s in seqs:
            h = s[0]
            if not any(h in q[1:] for q in seqs): break
        else: raise OutOfReach('mro')
        out.append(h)
        for q in seqs:
            if q[0] == h: q.pop(0)

def is_subclass(ex, c, d):
    if isinstance(d, Unmodelled): return False
    return d in mro_of(ex, c)

_MISS = object()

def class_lookup(ex, c, name):
    for k in mro_of(ex, c):
        r = ex.heap.get(k.a)
        if name in r.dict: return r.dict[name]
    return _MISS

def is_exc_class(ex, c): return is_subclass(ex, c, T(ex, 'BaseException'))

def bind(ex, f, obj, cls):
    r = rec(ex, f)
    if isinstance(r, HFunc): return BoundMethod(f, obj) if obj is not None else BoundMethod(f, None)
    if isinstance(f, BuiltinFn):
        if f.kind == 'function_like': return f
        return BoundMethod(f, obj) if obj is not None else f
    if isinstance(r, HObj):
        n = ex.heap.get(r.cls.a).builtin
        if n == 'property':
            if obj is None: return f
            g = r.f['fget']
            if g is None: ex.raise_('AttributeError', b'unreadable attribute')
            return call(ex, g, [obj])
        if n == 'classmethod': return BoundMethod(r.f['func'], cls)
        if n == 'staticmethod': return r.f['func']
    return f

def dict_key(name): return ('s', name)

def inst_dict_get(ex, r, name):
    if r.dct is None: return _MISS
    d = ex.heap.get(r.dct.a)
    e = d.ent.get(('s', name))
    if e is not None: return e[1]
    if d.sym or d.base is not None:
        v = dict_lookup(ex, r.dct, name.encode())
        return v
    return _MISS

def getattr_(ex, obj, name, default=_MISS):
    try:
        return getattr__(ex, obj, name)
    except PyRaise as e:
        if default is _MISS: raise
        r = rec(ex, e.val)
        if isinstance(r, HObj) and is_subclass(ex, r.cls, T(ex, 'AttributeError')): return default
        raise

def attr_error(ex, obj, name):
    ex.raise_('AttributeError', ("no attribute '%s'" % name).encode())

def getattr__(ex, obj, name):
    if isinstance(obj, Opaque):
        h = obj.props.get('getattr')
        if h is not None:
            v = h(ex, obj, name)
            if v is not _MISS: return v
        c = obj.props.get('class')
        if name == '__class__' and c is not None: return c
        if c is not None:
            v = class_lookup(ex, c, name)
            if v is not _MISS: return bind(ex, v, obj, c)
        raise OutOfReach('attribute %s of %r' % (name, obj))
    if isinstance(obj, Unmodelled):
        return Unmodelled(obj.name + '.' + name)
    r = rec(ex, obj)
    if isinstance(r, HModule):
        if name in r.vars: return r.vars[name]
        if name == '__dict__': return module_dict(ex, obj)
        if name == '__name__': return r.name.encode()
        sub = r.name + '.' + name
        if r.f_unmodelled: return Unmodelled(sub)
        attr_error(ex, obj, name)
    if isinstance(r, HClass):
        if name == '__dict__': return class_dict(ex, obj)
        if name == '__name__': return r.name.encode()
        if name == '__module__': return r.module.encode()
        if name == '__bases__': return tuple(r.bases)
        if name == '__mro__': return tuple(mro_of(ex, obj))
        if name == '__class__': return T(ex, 'type') if r.kind == 'type' else attr_error(ex, obj, name)
        v = class_lookup(ex, obj, name)
        if v is not _MISS:
            x = rec(ex, v)
            if isinstance(x, HFunc): return BoundMethod(v, None)
            if isinstance(x, HObj) and ex.heap.get(x.cls.a).builtin in ('classmethod', 'staticmethod'):
                return bind(ex, v, None, obj)
            return v
        if r.kind == 'type' and name in ('__new__', '__init__', '__call__', '__setattr__', '__getattribute__', '__hash__', '__doc__', '__eq__'):
            if name == '__doc__': return None
            return BuiltinFn('object.' + name, lambda ex, a, k: ex.raise_('OutOfReachPy'), 'wrapper')
        attr_error(ex, obj, name)
    if isinstance(r, HFunc):
        if name in r.attrs: return r.attrs[name]
        if name in ('func_name', '__name__'): return r.name.encode()
        if name == '__module__': return ex.heap.get(r.module.a).name.encode()
        if name == 'func_code':
            return func_code(ex, obj)
        if name == 'func_defaults': return tuple(r.defaults) or None
        if name == '__call__': return obj
        if name == '__doc__': return None
        if name == '__class__': return T(ex, 'function')
        if name == '__dict__': raise OutOfReach('function __dict__')
        attr_error(ex, obj, name)
    if isinstance(obj, BoundMethod):
        if name == 'im_func': return obj.func
        if name == 'im_self': return obj.self
        if name == '__call__': return obj
        if name in ('__name__', 'func_code', '__module__', '__doc__'):
            if isinstance(obj.func, BuiltinFn):
                if name == '__name__': return obj.func.name.split('.')[-1].encode()
            return getattr__(ex, obj.func, name)
        if name == '__class__': return class_of(ex, obj)
        f = rec(ex, obj.func)
        if isinstance(f, HFunc) and name in f.attrs: return f.attrs[name]
        attr_error(ex, obj, name)
    if isinstance(obj, BuiltinFn):
        if name == '__call__': return obj
        if name == '__name__': return obj.name.split('.')[-1].encode()
        attr_error(ex, obj, name)
    cls = class_of(ex, obj)
    if isinstance(r, HObj) and ex.heap.get(cls.a).builtin == 'super':
        o = r.f['obj']; k = r.f['klass']
        isclass = isinstance(rec(ex, o), HClass)
        ms = mro_of(ex, o if isclass else class_of(ex, o))
        for c in ms[ms.index(k) + 1:]:
            d = ex.heap.get(c.a).dict
            if name in d: return bind(ex, d[name], None if isclass else o, c)
        attr_error(ex, obj, name)
    if isinstance(r, HObj):
        # instance
        cv = class_lookup(ex, cls, name)
        if cv is not _MISS:
            x = rec(ex, cv)
            if isinstance(x, HObj) and ex.heap.get(x.cls.a).builtin == 'property':
                return bind(ex, cv, obj, cls)
        if name == '__class__': return cls
        if name == '__dict__':
            if r.dct is None: attr_error(ex, obj, name)
            return r.dct
        v = inst_dict_get(ex, r, name)
        if v is not _MISS: return v
        if cv is not _MISS: return bind(ex, cv, obj, cls)
        if name == 'args' and 'args' in r.f: return r.f['args']
        if name == 'message' and 'args' in r.f: return r.f['args'][0] if len(r.f['args']) == 1 else b''
        if name in r.f: return r.f[name]
        if name == '__module__': return ex.heap.get(cls.a).module.encode()
        if name in ('__new__', '__hash__', '__str__', '__repr__', '__init__', '__setattr__') and ex.heap.get(cls.a).kind == 'type':
            return BoundMethod(class_lookup_default(ex, name), obj)
        g = class_lookup(ex, cls, '__getattr__')
        if g is not _MISS: return call(ex, bind(ex, g, obj, cls), [name.encode()])
        attr_error(ex, obj, name)
    if name == '__class__': return cls
    v = class_lookup(ex, cls, name)
    if v is not _MISS: return bind(ex, v, obj, cls)
    b = ex.heap.get(cls.a).builtin
    if b in PARTIAL and name in PARTIAL[b]: raise OutOfReach('%s.%s' % (b, name))
    attr_error(ex, obj, name)

PARTIAL = {}

def class_lookup_default(ex, name):
    return BuiltinFn('object.' + name, ex.world.object_slots.get(name) or (lambda ex, a, k: (_ for _ in ()).throw(OutOfReach('object.' + name))))

def func_code(ex, f):
    r = ex.heap.get(f.a)
    o = HObj(T(ex, 'code'), None)
    args = r.node.args
    names = [a.id if a._ == 'Name' else '.0' for a in args.args]
    o.f = {'co_varnames': tuple(n.encode() for n in names), 'co_argcount': len(names)}
    return ex.heap.new(o)

def class_dict(ex, c):
    r = ex.heap.get(c.a)
    d = HDict()
    for k, v in r.dict.items(): d.ent[('s', k)] = (k.encode(), v)
    return ex.heap.new(d)

def module_dict(ex, m):
    r = ex.heap.get(m.a)
    d = HDict()
    for k, v in r.vars.items(): d.ent[('s', k)] = (k.encode(), v)
    return ex.heap.new(d)

def setattr_(ex, obj, name, val):
    r = rec(ex, obj)
    if isinstance(obj, Opaque):
        h = obj.props.get('setattr')
        if h is not None: return h(ex, obj, name, val)
        raise OutOfReach('setting attribute of %r' % obj)
    if isinstance(r, HModule):
        ex.heap.w(obj.a).vars[name] = val; return
    if isinstance(r, HClass):
        ex.heap.w(obj.a).dict[name] = val; return
    if isinstance(r, HFunc):
        ex.heap.w(obj.a).attrs[name] = val; return
    if isinstance(r, HObj):
        cv = class_lookup(ex, r.cls, name)
        if cv is not _MISS:
            x = rec(ex, cv)
            if isinstance(x, HObj) and ex.heap.get(x.cls.a).builtin == 'property':
                if x.f['fset'] is None: ex.raise_('AttributeError', b"can't set attribute")
                call(ex, x.f['fset'], [obj, val]); return
        sa = class_lookup(ex, r.cls, '__setattr__')
        if sa is not _MISS:
            call(ex, bind(ex, sa, obj, r.cls), [name.encode(), val]); return
        inst_setattr(ex, obj, name, val)
        return
    ex.raise_('AttributeError', b"can't set attribute " + name.encode())

def inst_setattr(ex, obj, name, val):
    r = ex.heap.get(obj.a)
    if r.dct is None:
        sl = [s for k in mro_of(ex, r.cls) for s in ex.heap.get(k.a).dict.get('__slots__', ())]
        if name.encode() not in sl: ex.raise_('AttributeError', name.encode())
        ex.heap.w(obj.a).f[name] = val
        return
    d = ex.heap.get(r.dct.a)
    if d.sym or d.base is not None: dict_set(ex, r.dct, name.encode(), val)
    else: ex.heap.w(r.dct.a).ent[('s', name)] = (name.encode(), val)

def delattr_(ex, obj, name):
    r = rec(ex, obj)
    if isinstance(r, HObj) and r.dct is not None:
        d = ex.heap.w(r.dct.a)
        if ('s', name) in d.ent: del d.ent[('s', name)]; return
        attr_error(ex, obj, name)
    if isinstance(r, HClass):
        c = ex.heap.w(obj.a)
        if name in c.dict: del c.dict[name]; return
        attr_error(ex, obj, name)
    raise OutOfReach('delattr')

# ------------------------------------------------------------------ truth, identity, equality
def truth(ex, v):
    if v is None: return False
    if isinstance(v, bool): return v
    if isinstance(v, SymBool): return ex.branch(v.t)
    if isinstance(v, int): return v != 0
    if isinstance(v, SymInt): return ex.branch(v.t != 0)
    if isinstance(v, float): return v != 0.0
    if isinstance(v, SymFloat): return ex.branch(v.t != 0)
    if is_text(v):
        n = R.length(ex, v)
        return n != 0 if isinstance(n, int) else ex.branch(n > 0)
    if isinstance(v, tuple): return len(v) > 0
    if isinstance(v, Opaque):
        p = v.props.get('truth')
        if p is not None: return ex.branch(p) if not callable(p) else ex.branch(p(ex))
        return ex.branch(opaque_bool(v, 'truth'))
    if isinstance(v, (BuiltinFn, BoundMethod)): return True
    r = rec(ex, v)
    if isinstance(r, (HList,)): 
        n = list_len(ex, v)
        return n != 0 if isinstance(n, int) else ex.branch(n > 0)
    if isinstance(r, HDict): return dict_truth(ex, v)
    if isinstance(r, HSet):
        if r.base is not None: return ex.branch(r.base.nonempty(ex, r))
        return len(r.ent) + len(r.sym) > 0
    if isinstance(r, HObj):
        f = class_lookup(ex, r.cls, '__nonzero__')
        if f is not _MISS: return truth(ex, call(ex, bind(ex, f, v, r.cls), []))
        f = class_lookup(ex, r.cls, '__len__')
        if f is not _MISS: return truth(ex, call(ex, bind(ex, f, v, r.cls), []))
        if r.payload is not None: return truth(ex, r.payload)
        return True
    if isinstance(r, (HClass, HFunc, HModule, HStream)): return True
    if isinstance(v, XRange): return truth(ex, mkint(as_int(v.hi) - as_int(v.lo)))
    raise OutOfReach('truth of %r' % (v,))

def opaque_bool(v, what):
    idx = [as_int(i) for i in v.idx]
    f = z3.Function('%s:%s' % (what, v.name), *([z3.IntSort()] * len(idx) + [z3.BoolSort()])) if idx else None
    return f(*idx) if idx else z3.Bool('%s:%s' % (what, v.name))

def opaque_same(ex, a, b):
    if a.name != b.name or len(a.idx) != len(b.idx): return False
    cs = [as_int(x) == as_int(y) for x, y in zip(a.idx, b.idx)]
    if not cs: return True
    c = z3.simplify(z3.And(*cs))
    return True if z3.is_true(c) else False if z3.is_false(c) else c

def is_(ex, a, b):
    """identity: bool or z3 Bool"""
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name: return opaque_same(ex, a, b)
    if isinstance(b, Opaque) and not isinstance(a, Opaque): a, b = b, a
    if isinstance(a, Opaque):
        h = a.props.get('is')
        if h is not None: return h(ex, a, b)
        c = a.props.get('class')
        if c is not None and not isinstance(b, Opaque) and b is None: return c == T(ex, 'NoneType')
        if isinstance(b, (Ref, Opaque, bool)) or b is None:
            if isinstance(b, Ref) and a.props.get('fresh_from_refs'): return False
            nm = b.key() if isinstance(b, Opaque) else b
            return opaque_bool(a, 'is:%s' % (nm,))
        return opaque_bool(a, 'is:%r' % (b,))
    if a is None or b is None: return a is b
    if isinstance(a, SymBool) and isinstance(b, bool): return a.t if b else z3.Not(a.t)
    if isinstance(b, SymBool) and isinstance(a, bool): return b.t if a else z3.Not(b.t)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Ref) or isinstance(b, Ref): return a == b
    if isinstance(a, SymBool) and isinstance(b, SymBool): return a.t == b.t
    if is_text(a) and is_text(b):
        if R.kind_of(a) != R.kind_of(b): return False
        if isinstance(a, Rope) or isinstance(b, Rope): raise OutOfReach('identity of strings')
        return a == b
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)): return num_eq(ex, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple): return a is b or (len(a) == 0 and len(b) == 0)
    if isinstance(a, (BuiltinFn, BoundMethod, Unmodelled)): return a == b
    if type(a) is not type(b): return False
    return a is b

def num_term(ex, v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SymInt): return v.t
    if isinstance(v, SymBool): return as_int(v)
    if isinstance(v, SymFloat): return v.t
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): return None
        import fractions
        fr = fractions.Fraction(v)
        return z3.Q(fr.numerator, fr.denominator)
    return None

NUM = (bool, int, float, SymInt, SymBool, SymFloat)

def num_eq(ex, a, b):
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)): return a == b
    x, y = num_term(ex, a), num_term(ex, b)
    if x is None or y is None: return False
    c = z3.simplify(to_real(x) == to_real(y) if x.is_real() or y.is_real() else x == y)
    return True if z3.is_true(c) else False if z3.is_false(c) else c

def to_real(t): return z3.ToReal(t) if t.is_int() else t

def eq(ex, a, b):
    """==: bool or z3 Bool (may call program code)"""
    if isinstance(a, NUM) and isinstance(b, NUM): return num_eq(ex, a, b)
    if is_text(a) and is_text(b): return R.eq(ex, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        x = a if isinstance(a, Opaque) else b
        y = b if x is a else a
        h = x.props.get('eq')
        if h is not None: return h(ex, x, y)
        if isinstance(y, Opaque) and y.name == x.name:
            s = opaque_same(ex, x, y)
            if s is True: return True
        return opaque_bool(x, 'eq:%s' % (y.key() if isinstance(y, Opaque) else R.key(y) if is_text(y) else repr(y),))
    ra, rb = rec(ex, a), rec(ex, b)
    if isinstance(ra, HObj):
        f = class_lookup(ex, ra.cls, '__eq__')
        if f is not _MISS:
            v = call(ex, bind(ex, f, a, ra.cls), [b])
            return v.t if isinstance(v, SymBool) else truth(ex, v)
        f = class_lookup(ex, ra.cls, '__cmp__')
        if f is not _MISS:
            v = call(ex, bind(ex, f, a, ra.cls), [b])
            return num_eq(ex, v, 0)
    if isinstance(rb, HObj):
        f = class_lookup(ex, rb.cls, '__eq__')
        if f is not _MISS:
            v = call(ex, bind(ex, f, b, rb.cls), [a])
            return v.t if isinstance(v, SymBool) else truth(ex, v)
        f = class_lookup(ex, rb.cls, '__cmp__')
        if f is not _MISS:
            v = call(ex, bind(ex, f, b, rb.cls), [a])
            return num_eq(ex, v, 0)
    pa = ra.payload if isinstance(ra, HObj) and ra.payload is not None else a
    pb = rb.payload if isinstance(rb, HObj) and rb.payload is not None else b
    if isinstance(pa, tuple) and isinstance(pb, tuple):
        return seq_eq(ex, list(pa), list(pb))
    qa, qb = rec(ex, pa), rec(ex, pb)
    if pa == pb and isinstance(pa, Ref): return True
    if isinstance(qa, HList) and isinstance(qb, HList): return seq_eq(ex, list(qa.items), list(qb.items))
    if isinstance(qa, HDict) and isinstance(qb, HDict):
        if qa.sym or qb.sym or qa.base is not None or qb.base is not None: raise OutOfReach('comparing symbolic dicts')
        if set(qa.ent) != set(qb.ent): return False
        return seq_eq(ex, [qa.ent[k][1] for k in qa.ent], [qb.ent[k][1] for k in qa.ent])
    if isinstance(qa, HSet) and isinstance(qb, HSet):
        if qa.base is not None or qb.base is not None or qa.sym or qb.sym: raise OutOfReach('comparing symbolic sets')
        return set(qa.ent) == set(qb.ent)
    if isinstance(a, (BoundMethod, BuiltinFn, Unmodelled)): return a == b
    if isinstance(a, Ref) or isinstance(b, Ref): return a == b
    if a is None or b is None: return a is b
    if isinstance(ra, HObj) or isinstance(rb, HObj): return a == b
    return False

def seq_eq(ex, xs, ys):
    if any(is_piece(x) for x in xs + ys): raise OutOfReach('comparing symbolic lists')
    if len(xs) != len(ys): return False
    out = []
    for x, y in zip(xs, ys):
        e = eq(ex, x, y)
        if e is False: return False
        if e is not True: out.append(e)
    if not out: return True
    return z3.And(*out)

def is_piece(x): return getattr(x, 'piece', False)

def mkbool(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return SymBool(c)

# ------------------------------------------------------------------ dicts
def canon(ex, k):
    """canonical key of a concrete key, or None when symbolic"""
    if isinstance(k, bytes):
        try: return ('s', k.decode('ascii'))
        except UnicodeDecodeError: return ('b', k)
    if isinstance(k, str): return ('s', k)
    if isinstance(k, (bool, int)): return ('n', int(k))
    if isinstance(k, float): return ('n', int(k)) if k == int(k) else ('f', k)
    if k is None: return ('none',)
    if isinstance(k, Ref):
        r = ex.heap.get(k.a)
        if isinstance(r, (HList, HDict, HSet)): ex.raise_('TypeError', b'unhashable type')
        if isinstance(r, HObj):
            if r.payload is not None and isinstance(ex.heap.get(r.payload.a), (HList, HDict, HSet)) and \
                    class_lookup(ex, r.cls, '__hash__') is _MISS: ex.raise_('TypeError', b'unhashable type')
        return ('r', k.a)
    if isinstance(k, tuple):
        c = tuple(canon(ex, x) for x in k)
        return None if None in c else ('t',) + c
    if isinstance(k, (BuiltinFn, BoundMethod, Unmodelled)): return ('fn', k)
    return None

def as_dict(ex, d):
    r = rec(ex, d)
    if isinstance(r, HDict): return d
    if isinstance(r, HObj) and r.payload is not None: return r.payload
    raise OutOfReach('not a dict: %r' % (r,))

def dict_lookup(ex, d, k):
    """value or _MISS"""
    r = ex.heap.get(d.a)
    c = canon(ex, k)
    if c is not None and not r.sym:
        e = r.ent.get(c)
        if e is not None: return e[1]
        if r.base is not None: return r.base.lookup(ex, d, k)
        return _MISS
    for kk, v in reversed(r.sym):
        if ex.branch(mkterm(key_eq(ex, k, kk))): return v
    if c is not None:
        e = r.ent.get(c)
        if e is not None: return e[1]
    else:
        for kk, v in reversed(list(r.ent.values())):
            if ex.branch(mkterm(key_eq(ex, k, kk))): return v
    if r.base is not None: return r.base.lookup(ex, d, k)
    return _MISS

def mkterm(c): return c

def key_eq(ex, a, b):
    if is_text(a) != is_text(b): return False
    if isinstance(a, NUM) != isinstance(b, NUM): return False
    if isinstance(a, Ref) or isinstance(b, Ref):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return is_(ex, a, b)
        return a == b
    return eq(ex, a, b)

def dict_set(ex, d, k, v):
    r = ex.heap.get(d.a)
    if r.base is not None and r.base.set(ex, d, k, v): return
    c = canon(ex, k)
    w = ex.heap.w(d.a)
    if c is not None and not r.sym:
        e = r.ent.get(c)
        w.ent[c] = (e[0] if e is not None else k, v)
        return
    for i in range(len(r.sym) - 1, -1, -1):
        if ex.branch(key_eq(ex, k, r.sym[i][0])):
            w = ex.heap.w(d.a)
            w.sym[i] = (r.sym[i][0], v); return
    if c is not None:
        w = ex.heap.w(d.a)
        e = r.ent.get(c)
        w.ent[c] = (e[0] if e is not None else k, v)
        return
    for cc, (kk, vv) in list(r.ent.items()):
        if ex.branch(key_eq(ex, k, kk)):
            ex.heap.w(d.a).ent[cc] = (kk, v); return
    ex.heap.w(d.a).sym.append((k, v))

def dict_del(ex, d, k):
    r = ex.heap.get(d.a)
    if r.base is not None:
        return r.base.delete(ex, d, k)
    c = canon(ex, k)
    for i in range(len(r.sym) - 1, -1, -1):
        if ex.branch(key_eq(ex, k, r.sym[i][0])):
            del ex.heap.w(d.a).sym[i]; return True
    if c is not None:
        if c in r.ent:
            del ex.heap.w(d.a).ent[c]; return True
        return False
    for cc, (kk, vv) in list(r.ent.items()):
        if ex.branch(key_eq(ex, k, kk)):
            del ex.heap.w(d.a).ent[cc]; return True
    return False

def dict_items(ex, d):
    r = ex.heap.get(d.a)
    if r.base is not None: return r.base.items(ex, d)
    return [e for e in r.ent.values()] + list(r.sym)

def dict_truth(ex, d):
    r = ex.heap.get(d.a)
    if r.ent or r.sym: return True
    if r.base is not None: return ex.branch(r.base.nonempty(ex, d))
    return False

def new_dict(ex, items=()):
    d = ex.heap.new(HDict())
    for k, v in items: dict_set(ex, d, k, v)
    return d

def set_add(ex, s, k):
    r = ex.heap.get(s.a)
    if r.base is not None: return r.base.add(ex, s, k)
    c = canon(ex, k)
    if c is not None and not r.sym:
        ex.heap.w(s.a).ent.setdefault(c, k); return
    if set_has(ex, s, k): return
    if c is not None: ex.heap.w(s.a).ent[c] = k
    else: ex.heap.w(s.a).sym.append(k)

def set_has(ex, s, k):
    r = ex.heap.get(s.a)
    if r.base is not None: return ex.branch(r.base.has(ex, s, k))
    c = canon(ex, k)
    if c is not None and not r.sym: return c in r.ent
    for x in r.sym:
        if ex.branch(key_eq(ex, k, x)): return True
    if c is not None: return c in r.ent
    for x in list(r.ent.values()):
        if ex.branch(key_eq(ex, k, x)): return True
    return False

def set_discard(ex, s, k):
    r = ex.heap.get(s.a)
    if r.base is not None: return r.base.discard(ex, s, k)
    c = canon(ex, k)
    for i, x in enumerate(r.sym):
        if ex.branch(key_eq(ex, k, x)):
            del ex.heap.w(s.a).sym[i]; return True
    if c is not None:
        if c in r.ent:
            del ex.heap.w(s.a).ent[c]; return True
        return False
    for cc, x in list(r.ent.items()):
        if ex.branch(key_eq(ex, k, x)):
            del ex.heap.w(s.a).ent[cc]; return True
    return False

def set_items(ex, s):
    r = ex.heap.get(s.a)
    if r.base is not None: return r.base.items(ex, s) if hasattr(r.base, 'items') else [r.base.span(ex, s)]
    return list(r.ent.values()) + list(r.sym)

# ------------------------------------------------------------------ lists
def new_list(ex, items=()): return ex.heap.new(HList(items))

def as_list(ex, l):
    r = rec(ex, l)
    if isinstance(r, HList): return l
    if isinstance(r, HObj) and r.payload is not None: return r.payload
    raise OutOfReach('not a list: %r' % (r,))

def list_len(ex, l):
    r = ex.heap.get(l.a)
    n = 0
    for x in r.items: n = tint(as_int(n) + as_int(x.count(ex))) if is_piece(x) else tint(as_int(n) + 1) if not isinstance(n, int) else n + 1
    return n

# ------------------------------------------------------------------ calls
def call(ex, f, args, kw=None):
    kw = kw or {}
    if isinstance(f, BoundMethod):
        if f.self is not None or isinstance(f.func, BuiltinFn):
            return call(ex, f.func, ([f.self] if f.self is not None else []) + list(args), kw)
        return call(ex, f.func, list(args), kw)
    if isinstance(f, BuiltinFn):
        if any(is_piece(x) for x in args): raise OutOfReach('a sequence of any length as arguments of %s' % f.name)
        return f.fn(ex, list(args), dict(kw))
    if isinstance(f, Opaque):
        h = f.props.get('call')
        if h is not None: return h(ex, f, list(args), dict(kw))
        raise OutOfReach('calling %r' % f)
    if isinstance(f, Unmodelled): raise OutOfReach('calling %s' % f.name)
    r = rec(ex, f)
    if isinstance(r, HFunc): return call_func(ex, f, r, list(args), dict(kw))
    if isinstance(r, HClass): return instantiate(ex, f, list(args), dict(kw))
    if isinstance(r, HObj):
        g = class_lookup(ex, r.cls, '__call__')
        if g is not _MISS: return call(ex, bind(ex, g, f, r.cls), args, kw)
    ex.raise_('TypeError', b'not callable')

def call_method(ex, obj, name, *args, **kw):
    return call(ex, getattr_(ex, obj, name), list(args), kw)

def instantiate(ex, c, args, kw):
    r = ex.heap.get(c.a)
    if r.builtin and r.builtin in ex.world.ctors:
        return ex.world.ctors[r.builtin](ex, c, args, kw)
    nw = class_lookup(ex, c, '__new__') if r.kind == 'type' else _MISS
    if nw is not _MISS and isinstance(rec(ex, nw), HFunc):
        obj = call(ex, nw, [c] + list(args), kw)
        if not (isinstance(obj, Ref) and isinstance(rec(ex, obj), HObj) and is_subclass(ex, class_of(ex, obj), c)): return obj
    else:
        obj = alloc(ex, c, args, kw)
    init = class_lookup(ex, c, '__init__')
    if init is not _MISS:
        call(ex, bind(ex, init, obj, c), args, kw)
    else:
        o = ex.heap.get(obj.a)
        if isinstance(o, HObj) and 'args' in o.f:
            ex.heap.w(obj.a).f['args'] = tuple(args)
        elif (args or kw) and not (isinstance(o, HObj) and o.payload is not None):
            ex.raise_('TypeError', b'object() takes no parameters')
        elif args or kw:
            base = payload_base(ex, c)
            ex.world.payload_init[base](ex, obj, args, kw)
    return obj

def payload_base(ex, c):
    for k in mro_of(ex, c):
        b = ex.heap.get(k.a).builtin
        if b in ('dict', 'list', 'set', 'tuple', 'str', 'unicode', 'int', 'float', 'long'): return b
    return None

def alloc(ex, c, args=(), kw=None):
    """object.__new__"""
    o = HObj(c)
    kinds = mro_of(ex, c)
    slotted = False
    if ex.heap.get(c.a).kind == 'type':
        slotted = all('__slots__' in ex.heap.get(k.a).dict for k in kinds if ex.heap.get(k.a).builtin is None) and \
            any(ex.heap.get(k.a).builtin is None for k in kinds)
    if not slotted: o.dct = ex.heap.new(HDict())
    if is_exc_class(ex, c): o.f['args'] = tuple(args)
    b = payload_base(ex, c)
    if b == 'dict': o.payload = ex.heap.new(HDict())
    elif b == 'list': o.payload = ex.heap.new(HList())
    elif b == 'set': o.payload = ex.heap.new(HSet())
    elif b == 'tuple':
        o.payload = tuple(iterate_concrete(ex, args[0])) if args else ()
    elif b in ('str', 'unicode', 'int', 'float', 'long'):
        o.payload = args[0] if args else {'str': b'', 'unicode': '', 'int': 0, 'float': 0.0, 'long': 0}[b]
    return ex.heap.new(o)

def call_func(ex, f, r, args, kw):
    h = ex.contracts.get(r.qual)
    if h is not None:
        v = h(ex, f, args, kw)
        if v is not NotImplemented:
            ex.lemma.used_contracts.add(r.qual)
            return v
    ex.lemma.functions.add(r.qual)
    node = r.node
    if ex.depth > 120: raise OutOfReach('call depth (recursion without a contract): %s' % r.qual)
    a = node.args
    names = a.args
    nd = len(r.defaults)
    vars = {}
    pos = list(args)
    nreq = len(names) - nd
    extra = []
    if len(pos) > len(names):
        if a.vararg: extra = pos[len(names):]; pos = pos[:len(names)]
        else: ex.raise_('TypeError', ('%s() takes at most %d arguments (%d given)' % (r.name, len(names), len(pos))).encode())
    bound = {}
    for p, v in zip(names, pos):
        if p._ != 'Name': raise OutOfReach('tuple parameter')
        if is_piece(v): raise OutOfReach('a sequence of any length as arguments of %s' % r.qual)
        bound[p.id] = v
    kwextra = []
    pn = set(p.id for p in names)
    for k, v in kw.items():
        if k in pn:
            if k in bound: ex.raise_('TypeError', b'multiple values for keyword argument')
            bound[k] = v
        elif a.kwarg: kwextra.append((k.encode(), v))
        else: ex.raise_('TypeError', ('%s() got an unexpected keyword argument %s' % (r.name, k)).encode())
    for i, p in enumerate(names):
        if p.id not in bound:
            if i >= nreq: bound[p.id] = r.defaults[i - nreq]
            else: ex.raise_('TypeError', ('%s() takes at least %d arguments' % (r.name, nreq)).encode())
    if a.vararg: bound[a.vararg] = tuple(extra)
    if a.kwarg: bound[a.kwarg] = new_dict(ex, kwextra)
    env = HEnv(bound, r.env, None)
    info = func_info(node)
    env.gdecl = info[1]
    envref = ex.heap.new(env)
    fr = Frame(ex, envref, r.module, info[0] | pn | set(filter(None, [a.vararg, a.kwarg])), r.qual)
    fr.node = node
    ex.depth += 1
    if ex.stack is None: ex.stack = []
    ex.stack.append((r.qual, node.ln))
    ok = False
    try:
        if node._ == 'Lambda':
            ok = True
            return fr.ev(node.body)
        if info[2]:
            # a generator is run at once: its consumer does not change what it reads (listed as assumed)
            l = ex.heap.new(HList()); fr.yields = l
            ex.lemma.generators.add(r.qual)
            try: fr.block(node.body)
            except _Return: pass
            except PyRaise as e:
                if not is_subclass(ex, class_of(ex, e.val), T(ex, 'StopIteration')): raise
            ok = True
            g = HObj(T(ex, 'generator')); g.f['iter_items'] = list(ex.heap.get(l.a).items)
            return ex.heap.new(g)
        fr.block(node.body)
        ok = True
        return None
    except _Return as e:
        ok = True
        return e.v
    except PyRaise:
        ok = True
        raise
    finally:
        ex.depth -= 1
        if ok: ex.stack.pop()

_FI = {}
def func_info(node):
    i = id(node)
    if i not in _FI:
        if node._ == 'Lambda': _FI[i] = (set(), set(), False, node)
        else:
            s, g = stored_names(node.body)
            _FI[i] = (s, g, has_yield(node.body), node)
    return _FI[i]

def has_yield(n):
    if isinstance(n, list): return any(has_yield(x) for x in n)
    if not isinstance(n, Node): return False
    if n._ == 'Yield': return True
    if n._ in ('FunctionDef', 'ClassDef', 'Lambda'): return False
    return any(has_yield(v) for v in n.__dict__.values() if isinstance(v, (list, Node)))

def iterate_concrete(ex, v):
    """elements of an iterable whose length is known; OutOfReach otherwise"""
    out = []
    for x in iterate(ex, v):
        if is_piece(x): raise OutOfReach('iterating a symbolic sequence where a known length is needed')
        out.append(x)
    return out

def iterate(ex, v):
    """list of elements and pieces"""
    if isinstance(v, tuple): return list(v)
    if isinstance(v, XRange):
        if isinstance(v.lo, int) and isinstance(v.hi, int): return list(range(v.lo, v.hi, v.step))
        from .loops import RangePiece
        return [RangePiece(v.lo, v.hi)]
    if isinstance(v, bytes): return [bytes([b]) for b in v]
    if isinstance(v, str): return list(v)
    if isinstance(v, Rope):
        n = R.length(ex, v)
        if isinstance(n, int): return [R.slice_(ex, v, i, i + 1) for i in range(n)]
        raise OutOfReach('iterating a symbolic string')
    if isinstance(v, Opaque):
        h = v.props.get('iter')
        if h is not None: return h(ex, v)
        raise OutOfReach('iterating %r' % v)
    r = rec(ex, v)
    if isinstance(r, HList): return list(r.items)
    if isinstance(r, HDict): return [e[0] if not is_piece(e) else e.keys() for e in dict_items(ex, v)]
    if isinstance(r, HSet): return set_items(ex, v)
    if isinstance(r, HObj):
        if r.f.get('iter_items') is not None:
            its = r.f['iter_items']; 
            ex.heap.w(v.a).f['iter_items'] = []
            return list(its)
        f = class_lookup(ex, r.cls, '__iter__')
        if f is not _MISS:
            it = call(ex, bind(ex, f, v, r.cls), [])
            if it == v: raise OutOfReach('iterator protocol')
            return iterate(ex, it)
        if r.payload is not None: return iterate(ex, r.payload)
        f = class_lookup(ex, r.cls, '__getitem__')
        if f is not _MISS: raise OutOfReach('sequence protocol iteration')
    ex.raise_('TypeError', b'not iterable')

from .frame import Frame   # noqa: E402  (statement and expression evaluation)
