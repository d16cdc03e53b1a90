"""Models of the builtins and library functions PyAMF uses (Jython 2.7 semantics; see jy/conformance.py, which compares
the models with the running interpreter on every check)."""
import struct as _struct, z3, fractions
from .core import *
from . import interp as I, rope as R, ops, frame as F, names
from .interp import _MISS, rec
from .rope import is_text, is_str, is_uni, Rope

INTS = (bool, int, SymInt, SymBool)
METHODS = {}
def method(*spec):
    def d(fn):
        for s in spec:
            t, n = s.split('.')
            METHODS.setdefault(t, {})[n] = fn
        return fn
    return d
BUILTINS = {}
def builtin(name, kind='builtin_function_or_method'):
    def d(fn): BUILTINS[name] = (fn, kind); return fn
    return d
CTORS = {}
def ctor(name):
    def d(fn): CTORS[name] = fn; return fn
    return d

def opaque_text(ex, kind='b', tag='fmt'):
    return R.sym_str(ex, tag, kind, meta=('msg',))

# ------------------------------------------------------------------ formatting
def to_text(ex, v):
    """str() / %s"""
    if is_text(v): return v
    if isinstance(v, bool): return str(v).encode()
    if isinstance(v, int): return str(v).encode()
    if isinstance(v, SymInt): return R.atom_rope(R.decimal_atom(ex, v.t, 'b'))
    if v is None: return b'None'
    if isinstance(v, float): return float_repr(v).encode()
    if isinstance(v, SymFloat):
        k = ('floatstr', str(z3.simplify(v.t)))
        if k not in ex.memo:
            a = R.Atom(ex, ex.fresh('floatstr'), (), 'b', None, ('floatstr', v.t), 1)
            ex.memo[k] = a
        return R.atom_rope(ex.memo[k])
    if isinstance(v, Opaque):
        h = v.props.get('str')
        if h is not None: return h(ex, v)
        return opaque_text(ex)
    r = rec(ex, v)
    if isinstance(r, HObj):
        if I.is_exc_class(ex, r.cls) and I.class_lookup(ex, r.cls, '__str__') is _MISS:
            a = r.f.get('args', ())
            if len(a) == 0: return b''
            if len(a) == 1: 
                t = to_text(ex, a[0])
                if is_uni(t):
                    try: return ascii_bytes(ex, t)
                    except OutOfReach: return opaque_text(ex)
                return t
            return opaque_text(ex)
        f = I.class_lookup(ex, r.cls, '__str__')
        if f is not _MISS: return I.call(ex, I.bind(ex, f, v, r.cls), [])
        if r.payload is not None and is_text(r.payload): return r.payload
        f = I.class_lookup(ex, r.cls, '__repr__')
        if f is not _MISS: return I.call(ex, I.bind(ex, f, v, r.cls), [])
    return opaque_text(ex)

def ascii_bytes(ex, u):
    if isinstance(u, str):
        try: return u.encode('ascii')
        except UnicodeEncodeError: ex.raise_('UnicodeEncodeError', b'ascii')
    if isinstance(u, bytes): return u
    ps = []
    for p in u.parts:
        if isinstance(p, R.Lit):
            try: ps.append(R.Lit(p.s.encode('ascii')))
            except UnicodeEncodeError: ex.raise_('UnicodeEncodeError', b'ascii')
        elif isinstance(p, R.Seg) and p.atom.meta and p.atom.meta[0] == 'asciiu' and R.whole_atom([p]): ps.append(R.whole(p.atom.meta[1]))
        elif isinstance(p, R.Seg) and p.atom.meta and p.atom.meta[0] == 'udecimal': ps.append(R.whole(R.decimal_atom(ex, p.atom.meta[1], 'b')))
        else: raise OutOfReach('ascii encoding of arbitrary text')
    return R.mk('b', ps)

def float_repr(v):
    if v != v: return 'nan'
    if v == float('inf'): return 'inf'
    if v == float('-inf'): return '-inf'
    return repr(v)

def py_repr(ex, v):
    if isinstance(v, (bool, int)): return repr(v).encode()
    if v is None: return b'None'
    return opaque_text(ex)

def fmt(ex, f, args):
    if isinstance(f, Rope): return opaque_text(ex, f.kind)
    kind = 'b' if isinstance(f, bytes) else 'u'
    s = f.decode('latin-1') if kind == 'b' else f
    if not isinstance(args, tuple):
        r = rec(ex, args)
        if isinstance(r, HDict) and '%(' in s: return opaque_text(ex, kind)
        args = (args,)
    if '%(' in s: return opaque_text(ex, kind)
    out = b'' if kind == 'b' else ''
    i = 0; ai = 0
    lit = ''
    def flush(out, lit):
        if not lit: return out
        return R.concat(ex, out, lit.encode('latin-1') if kind == 'b' else lit)
    while i < len(s):
        c = s[i]
        if c != '%': lit += c; i += 1; continue
        j = i + 1
        while s[j] in '0123456789.-+ #l': j += 1
        spec, conv = s[i + 1:j], s[j]
        i = j + 1
        if conv == '%': lit += '%'; continue
        if ai >= len(args): ex.raise_('TypeError', b'not enough arguments for format string')
        v = args[ai]; ai += 1
        out = flush(out, lit); lit = ''
        if conv == 's' and not spec: t = to_text(ex, v)
        elif conv == 'r': t = py_repr(ex, v)
        elif conv in 'di' and not spec:
            if isinstance(v, (bool, int)): t = str(int(v)).encode()
            elif isinstance(v, SymInt): t = to_text(ex, v)
            elif isinstance(v, (float, SymFloat)): t = opaque_text(ex)
            elif isinstance(v, Opaque): t = opaque_text(ex)
            else: ex.raise_('TypeError', b'%d format: a number is required')
        elif isinstance(v, (int, float, bytes, str)): 
            try: t = (('%' + spec + conv) % (v if not isinstance(v, bytes) else v.decode('latin-1'),)).encode('latin-1')
            except TypeError: ex.raise_('TypeError', b'format')
        else: t = opaque_text(ex)
        try: out = R.concat(ex, out, t)
        except OutOfReach: out = opaque_text(ex, 'u')
    out = flush(out, lit)
    if ai < len(args): ex.raise_('TypeError', b'not all arguments converted during string formatting')
    return out

# ------------------------------------------------------------------ strings
ENC = {'utf8': 'utf-8', 'utf-8': 'utf-8', 'ascii': 'ascii', 'latin-1': 'latin-1', 'latin1': 'latin-1', 'utf_8': 'utf-8'}
def codec(ex, a, k, dflt='ascii'):
    e = a[0] if a else k.get('encoding', dflt.encode())
    if not isinstance(e, (bytes, str)): raise OutOfReach('symbolic codec')
    n = (e.decode() if isinstance(e, bytes) else e).lower()
    if n not in ENC: raise OutOfReach('codec %s' % n)
    return ENC[n]

@method('unicode.encode', 'str.encode')
def _encode(ex, a, k):
    s = text(ex, a[0]); c = codec(ex, a[1:], k)
    if is_str(s): s = R.to_unicode_ascii(ex, s)
    if c == 'utf-8': return R.utf8(ex, s)
    if isinstance(s, str):
        try: return s.encode(c)
        except UnicodeEncodeError: ex.raise_('UnicodeEncodeError', b'')
    return ascii_bytes(ex, s)

@method('str.decode', 'unicode.decode')
def _decode(ex, a, k):
    s = text(ex, a[0]); c = codec(ex, a[1:], k)
    if is_uni(s): s = ascii_bytes(ex, s)
    if c == 'utf-8': return R.utf8_decode(ex, s)
    if isinstance(s, bytes):
        try: return s.decode(c)
        except UnicodeDecodeError: ex.raise_('UnicodeDecodeError', b'')
    if c == 'ascii': return R.to_unicode_ascii(ex, s)
    raise OutOfReach('decode %s' % c)

def text(ex, v):
    r = rec(ex, v)
    if isinstance(r, HObj) and r.payload is not None: return r.payload
    return v

def conc(ex, v):
    v = text(ex, v)
    if isinstance(v, (bytes, str)) or v is None or isinstance(v, (int, bool)): return v
    raise OutOfReach('string method on a symbolic string')

def like(a, v):
    """coerce v to the kind of a"""
    if isinstance(a, bytes) and isinstance(v, str): return v.encode('latin-1')
    if isinstance(a, str) and isinstance(v, bytes): return v.decode('latin-1')
    return v

def py_method(name, wrap=None):
    def f(ex, a, k):
        if name in ('startswith', 'endswith') and isinstance(a[0], Rope): return symbolic_prefix(ex, a[0], a[1], name)
        if isinstance(a[0], Rope) and name in SPLITS and len(a) > 1 and not isinstance(conc_or_none(a[1]), type(None)): return symbolic_split(ex, a[0], conc_or_none(a[1]), name, a[2] if len(a) > 2 else None)
        s = conc(ex, a[0])
        args = [tuple(like(s, conc(ex, y)) for y in x) if isinstance(x, tuple) else like(s, conc(ex, x)) for x in a[1:]]
        try: r = getattr(s, name)(*args)
        except ValueError: ex.raise_('ValueError', b'substring not found')
        if isinstance(r, list): return I.new_list(ex, r)
        return r
    return f
for _n in ('startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'rsplit', 'splitlines', 'rjust',
           'ljust', 'replace', 'find', 'rfind', 'index', 'count', 'isdigit', 'isalpha', 'title', 'capitalize', 'partition',
           'rpartition', 'zfill'):
    method('str.' + _n, 'unicode.' + _n)(py_method(_n))

SPLITS = ('split', 'rsplit', 'partition', 'rpartition')
def conc_or_none(x): return x if isinstance(x, (bytes, str)) and len(x) == 1 else None
def last_sep(ex, s, sep):
    """(text before the last separator, text after it), or None without one"""
    sep = like(b'' if s.kind == 'b' else '', sep)
    i = len(s.parts) - 1
    while i >= 0:
        p = s.parts[i]
        if isinstance(p, R.Lit):
            j = p.s.rfind(sep)
            if j >= 0:
                head = R.mk(s.kind, list(s.parts[:i]) + ([R.Lit(p.s[:j])] if j else [])); tail = R.mk(s.kind, ([R.Lit(p.s[j + 1:])] if p.s[j + 1:] else []) + list(s.parts[i + 1:]))
                return head, tail
        elif not (isinstance(p, R.Seg) and ex.memo.get(('without', p.atom.fname, sep if isinstance(sep, str) else sep.decode()))): raise OutOfReach('splitting %r' % s)
        i -= 1
    return None
def symbolic_split(ex, s, sep, name, limit):
    from .loops import Piece
    r = last_sep(ex, s, sep)
    sp = like(b'' if s.kind == 'b' else '', sep)
    if r is None:
        if name == 'partition': return (s, sp[:0], sp[:0])
        if name == 'rpartition': return (sp[:0], sp[:0], s)
        return I.new_list(ex, [s])
    head, tail = r
    if name == 'rpartition': return (head, sp, tail)
    if name == 'rsplit' and limit == 1: return I.new_list(ex, [head, tail])
    if limit is not None or name == 'partition': raise OutOfReach('%s of a symbolic string' % name)
    if not isinstance(head, Rope): return I.new_list(ex, head.split(sp) + [tail])
    n = ex.int('fields', lo=1).t
    p = Piece(n, lambda ex, k: R.sym_str(ex, 'field of ' + R.key(head), head.kind, ix=(as_int(k),)), 'fields')
    p.joined = (sp, head)
    return I.new_list(ex, [p, tail])

def symbolic_prefix(ex, s, p, name):
    if isinstance(p, tuple): return any(I.truth(ex, symbolic_prefix(ex, s, x, name)) for x in p)
    p = like(b'' if s.kind == 'b' else '', p)
    if not isinstance(p, (bytes, str)): raise OutOfReach('symbolic prefix')
    n = R.length(ex, s)
    if not ex.branch(as_int(n) >= len(p)): return False
    part = R.slice_(ex, s, 0, len(p)) if name == 'startswith' else R.slice_(ex, s, tint(as_int(n) - len(p)), n)
    return I.mkbool(R.eq(ex, part, p))

@method('str.join', 'unicode.join')
def _join(ex, a, k):
    sep = text(ex, a[0]); out = None
    for x in I.iterate(ex, a[1]):
        if getattr(x, 'joined', None) is not None and x.joined[0] == like(x.joined[0], sep): x = x.joined[1]
        if I.is_piece(x): raise OutOfReach('joining a symbolic sequence')
        if not is_text(x): ex.raise_('TypeError', b'sequence item: expected string')
        out = x if out is None else R.concat(ex, R.concat(ex, out, sep), x)
    if out is None: return b'' if is_str(sep) else ''
    return out

@method('str.__len__', 'unicode.__len__')
def _slen(ex, a, k): return b_len(ex, a, k)
@method('str.format', 'unicode.format')
def _sfmt(ex, a, k): return opaque_text(ex, R.kind_of(a[0]))

# ------------------------------------------------------------------ builtin functions
@builtin('len')
def b_len(ex, a, k):
    v = a[0]
    if is_text(v):
        n = R.length(ex, v)
        return n if isinstance(n, int) else SymInt(n, 'int')
    if isinstance(v, tuple):
        t = 0
        for x in v: t = as_int(t) + as_int(x.count(ex)) if I.is_piece(x) else t + 1
        return t if isinstance(t, int) else mkint(t)
    if isinstance(v, XRange): return mkint(z3.If(as_int(v.hi) > as_int(v.lo), as_int(v.hi) - as_int(v.lo), 0))
    if isinstance(v, Opaque):
        h = v.props.get('len')
        if h is not None: return h(ex, v)
        raise OutOfReach('len of %r' % v)
    r = rec(ex, v)
    if isinstance(r, HList): return mkint(I.list_len(ex, v)) if not isinstance(I.list_len(ex, v), int) else I.list_len(ex, v)
    if isinstance(r, HDict):
        if r.base is not None: return r.base.len(ex, v)
        return len(r.ent) + len(r.sym)
    if isinstance(r, HSet):
        if r.base is not None: return r.base.len(ex, v)
        return len(r.ent) + len(r.sym)
    if isinstance(r, HObj):
        f = I.class_lookup(ex, r.cls, '__len__')
        if f is not _MISS and not isinstance(f, BuiltinFn): return I.call(ex, I.bind(ex, f, v, r.cls), [])
        if r.payload is not None: return b_len(ex, [r.payload], k)
    ex.raise_('TypeError', b'object has no len()')

@builtin('isinstance')
def b_isinstance(ex, a, k):
    v, c = a
    return isinst(ex, v, c)
def isinst(ex, v, c):
    if isinstance(c, tuple):
        for x in c:
            if isinst(ex, v, x): return True
        return False
    if isinstance(c, Unmodelled): return False
    if isinstance(v, Opaque):
        h = v.props.get('isinstance')
        if h is not None:
            r = h(ex, v, c)
            return ex.branch(r) if not isinstance(r, bool) else r
    rc = rec(ex, c)
    if not isinstance(rc, HClass):
        ex.raise_('TypeError', b'isinstance() arg 2 must be a class, type, or tuple of classes and types')
    k = I.class_of(ex, v)
    if I.is_subclass(ex, k, c): return True
    if c == I.T(ex, 'instance'): return ex.heap.get(k.a).kind == 'classobj'
    return c == I.T(ex, 'object')

@builtin('issubclass')
def b_issubclass(ex, a, k):
    v, c = a
    if isinstance(v, Opaque) and v.props.get('issubclass'): return v.props['issubclass'](ex, v, c)
    if not isinstance(rec(ex, v), HClass): ex.raise_('TypeError', b'issubclass() arg 1 must be a class')
    if isinstance(c, tuple): return any(b_issubclass(ex, [v, x], k) for x in c)
    if isinstance(c, Unmodelled): return False
    if not isinstance(rec(ex, c), HClass): ex.raise_('TypeError', b'issubclass() arg 2 must be a class')
    return I.is_subclass(ex, v, c)

def nm(ex, v):
    v = text(ex, v)
    if isinstance(v, bytes):
        try: return v.decode('ascii')
        except UnicodeDecodeError: raise OutOfReach('non-ascii attribute name')
    if isinstance(v, str):
        try: v.encode('ascii')
        except UnicodeEncodeError: ex.raise_('UnicodeEncodeError', b'attribute name')
        return v
    if is_text(v) or isinstance(v, Opaque): return v
    ex.raise_('TypeError', b'attribute name must be string')

@builtin('hasattr')
def b_hasattr(ex, a, k):
    n = nm(ex, a[1])
    if not isinstance(n, str): return getattr_sym(ex, a[0], n, _MISS, True) is not _MISS
    try: I.getattr_(ex, a[0], n); return True
    except PyRaise as e:
        return False

@builtin('getattr')
def b_getattr(ex, a, k):
    n = nm(ex, a[1])
    if not isinstance(n, str): return getattr_sym(ex, a[0], n, a[2] if len(a) > 2 else _MISS)
    if len(a) > 2: return I.getattr_(ex, a[0], n, a[2])
    return I.getattr_(ex, a[0], n)

def getattr_sym(ex, o, n, dflt, probe=False):
    """attribute with a symbolic name: looked up in the instance dictionary; class attributes are compared too"""
    if isinstance(o, Opaque) and o.props.get('getattr_sym'): return o.props['getattr_sym'](ex, o, n, dflt, probe)
    r = rec(ex, o)
    if not isinstance(r, HObj) or r.dct is None: raise OutOfReach('symbolic attribute name on %r' % (o,))
    for c in I.mro_of(ex, r.cls):
        for name in sorted(ex.heap.get(c.a).dict):
            e = I.eq(ex, name.encode(), n)
            if ex.branch(e): return I.getattr_(ex, o, name) if not probe else True
    v = I.dict_lookup(ex, r.dct, n)
    if v is not _MISS: return v
    if dflt is not _MISS: return dflt
    if probe: return _MISS
    ex.raise_('AttributeError', b'attribute')

@builtin('setattr')
def b_setattr(ex, a, k):
    n = nm(ex, a[1])
    if isinstance(n, str): I.setattr_(ex, a[0], n, a[2]); return None
    o = a[0]
    if isinstance(o, Opaque) and o.props.get('setattr_sym'): return o.props['setattr_sym'](ex, o, n, a[2])
    r = rec(ex, o)
    if not isinstance(r, HObj) or r.dct is None: raise OutOfReach('symbolic setattr')
    for c in I.mro_of(ex, r.cls):
        for name in sorted(ex.heap.get(c.a).dict):
            if ex.branch(I.eq(ex, name.encode(), n)): I.setattr_(ex, o, name, a[2]); return None
    I.dict_set(ex, r.dct, n, a[2])

@builtin('delattr')
def b_delattr(ex, a, k): I.delattr_(ex, a[0], nm(ex, a[1]))

@builtin('callable')
def b_callable(ex, a, k):
    v = a[0]
    if isinstance(v, (BuiltinFn, BoundMethod)): return True
    if isinstance(v, Opaque):
        h = v.props.get('callable')
        if h is None: raise OutOfReach('callable(%r)' % v)
        return h(ex, v) if callable(h) else h
    r = rec(ex, v)
    if isinstance(r, (HFunc, HClass)): return True
    if isinstance(r, HObj): return I.class_lookup(ex, r.cls, '__call__') is not _MISS
    return False

@builtin('id')
def b_id(ex, a, k):
    v = a[0]
    if isinstance(v, Ref): return SymInt(z3.Int('id:%d' % v.a)) if False else 10**9 + v.a
    if isinstance(v, Opaque):
        if v.idx:
            f = z3.Function('id:' + v.name, *([z3.IntSort()] * (len(v.idx) + 1)))
            return SymInt(f(*[as_int(i) for i in v.idx]))
        return SymInt(z3.Int('id:' + v.name))
    raise OutOfReach('id of %r' % (v,))

@builtin('ord')
def b_ord(ex, a, k):
    v = text(ex, a[0])
    if not is_text(v): ex.raise_('TypeError', b'ord() expected string of length 1')
    n = R.length(ex, v)
    if isinstance(n, int):
        if n != 1: ex.raise_('TypeError', b'ord() expected a character')
    elif not ex.branch(as_int(n) == 1): ex.raise_('TypeError', b'ord() expected a character')
    c = R.char_term(ex, v)
    if isinstance(c, SymInt): return mkint(c.t, 'int', c.org)
    return c

@builtin('chr')
def b_chr(ex, a, k):
    v = a[0]
    if isinstance(v, (bool, int)):
        if not 0 <= v < 256: ex.raise_('ValueError', b'chr() arg not in range(256)')
        return bytes([v])
    if not isinstance(v, SymInt): ex.raise_('TypeError', b'an integer is required')
    if not ex.branch(z3.And(v.t >= 0, v.t < 256)): ex.raise_('ValueError', b'chr() arg not in range(256)')
    return R.mk('b', [R.Ch(v.t, v.org)])

@builtin('hex')
def b_hex(ex, a, k):
    if isinstance(a[0], int): return hex(a[0]).encode()
    return opaque_text(ex)

@builtin('repr')
def b_repr(ex, a, k): return py_repr(ex, a[0])

@builtin('range')
def b_range(ex, a, k):
    x = mkrange(ex, a)
    if isinstance(x.lo, int) and isinstance(x.hi, int): return I.new_list(ex, range(x.lo, x.hi, x.step))
    return I.new_list(ex, I.iterate(ex, x))
def mkrange(ex, a):
    for v in a:
        if not isinstance(v, INTS): ex.raise_('TypeError', b'an integer is required')
    a = [v if isinstance(v, int) else mkint(as_int(v)) for v in a]
    if len(a) == 1: return XRange(0, a[0])
    if len(a) == 2: return XRange(a[0], a[1])
    if not all(isinstance(v, int) for v in a): raise OutOfReach('range with a step')
    return XRange(*a)
@ctor('xrange')
def c_xrange(ex, c, a, k): return mkrange(ex, a)

@builtin('max')
def b_max(ex, a, k): return minmax(ex, a, 'Gt')
@builtin('min')
def b_min(ex, a, k): return minmax(ex, a, 'Lt')
def minmax(ex, a, op):
    xs = a if len(a) > 1 else I.iterate(ex, a[0])
    if any(I.is_piece(x) for x in xs):
        if len(xs) != 1: raise OutOfReach('max of a partly symbolic sequence')
        n = as_int(xs[0].count(ex))
        if not ex.branch(n > 0): ex.raise_('ValueError', b'empty sequence')
        j = ex.int('extreme', lo=0); ex.assume(j.t < n)
        r = xs[0].item(ex, j.t)
        if not isinstance(r, (int, SymInt)): raise OutOfReach('max of a symbolic sequence')
        i = ex.ghost.get('some index')
        if i is not None: ex.assume(z3.Implies(z3.And(as_int(i) >= 0, as_int(i) < n), as_int(xs[0].item(ex, i)) <= as_int(r) if op == 'Gt' else as_int(xs[0].item(ex, i)) >= as_int(r)))
        return r
    if not xs: ex.raise_('ValueError', b'empty sequence')
    r = xs[0]
    for x in xs[1:]:
        if I.truth(ex, ops.compare(ex, op, x, r)): r = x
    return r
@builtin('abs')
def b_abs(ex, a, k):
    v = a[0]
    if isinstance(v, (bool, int, float)): return abs(v)
    t = I.num_term(ex, v)
    t = z3.If(t >= 0, t, -t)
    return SymFloat(t) if isinstance(v, SymFloat) else mkint(t)
@builtin('hash')
def b_hash(ex, a, k):
    if isinstance(a[0], Ref):
        r = rec(ex, a[0])
        if isinstance(r, (HList, HDict, HSet)): ex.raise_('TypeError', b'unhashable type')
    if isinstance(a[0], Opaque):
        f = z3.Function('hash:' + a[0].name, *([z3.IntSort()] * (len(a[0].idx) + 1))) if a[0].idx else None
        return SymInt(f(*[as_int(i) for i in a[0].idx]) if f is not None else z3.Int('hash:' + a[0].name))
    raise OutOfReach('hash')
@builtin('cmp')
def b_cmp(ex, a, k):
    if I.truth(ex, ops.compare(ex, 'Eq', a[0], a[1])): return 0
    if all(is_text(x) for x in a):
        b = ex.bool('cmp')
        return 1 if ex.branch(b) else -1
    return -1 if I.truth(ex, ops.compare(ex, 'Lt', a[0], a[1])) else 1
@builtin('zip')
def b_zip(ex, a, k):
    return I.new_list(ex, [tuple(x) for x in zip(*[I.iterate_concrete(ex, v) for v in a])])
@builtin('enumerate')
def b_enum(ex, a, k):
    return make_iter(ex, I.new_list(ex, [(i, x) for i, x in enumerate(I.iterate_concrete(ex, a[0]))]))
@builtin('map')
def b_map(ex, a, k):
    return I.new_list(ex, [I.call(ex, a[0], list(x)) if a[0] is not None else x[0] for x in zip(*[I.iterate_concrete(ex, v) for v in a[1:]])])
@builtin('filter')
def b_filter(ex, a, k):
    xs = I.iterate_concrete(ex, a[1])
    ys = [x for x in xs if I.truth(ex, I.call(ex, a[0], [x]) if a[0] is not None else x)]
    return tuple(ys) if isinstance(a[1], tuple) else I.new_list(ex, ys)
@builtin('any')
def b_any(ex, a, k): return any(I.truth(ex, x) for x in I.iterate_concrete(ex, a[0]))
@builtin('all')
def b_all(ex, a, k): return all(I.truth(ex, x) for x in I.iterate_concrete(ex, a[0]))
@builtin('sum')
def b_sum(ex, a, k):
    s = a[1] if len(a) > 1 else 0
    for x in I.iterate_concrete(ex, a[0]): s = ops.binop(ex, 'Add', s, x)
    return s
@builtin('sorted')
def b_sorted(ex, a, k):
    return I.new_list(ex, sort_items(ex, I.iterate(ex, a[0]), k.get('key')))
def sort_items(ex, xs, key=None):
    if key is not None:
        if len(xs) <= 1 and not any(I.is_piece(x) for x in xs): return xs
        h = ex.ghost.get('sort')
        if h is not None: return h(ex, xs, key)
        ks = [I.call(ex, key, [x], {}) for x in xs if not I.is_piece(x)]
        if len(ks) == len(xs) and all(isinstance(x, (int, bytes)) for x in ks) and len(set(map(type, ks))) == 1:
            return [x for _, _, x in sorted(zip(ks, range(len(xs)), xs))]
        raise OutOfReach('sorting symbolic values')
    if all(isinstance(x, bytes) for x in xs) or all(isinstance(x, str) for x in xs) or all(isinstance(x, (int, float)) for x in xs):
        return sorted(xs)
    if len(xs) <= 1 and not any(I.is_piece(x) for x in xs): return xs
    if 'names' in ex.ghost and all(R.is_text(x) or isinstance(x, names.Rest) for x in xs): return xs      # (in some order)
    h = ex.ghost.get('sort')
    if h is not None: return h(ex, xs, None)
    raise OutOfReach('sorting symbolic values')
@builtin('iter')
def b_iter(ex, a, k): return make_iter(ex, I.new_list(ex, I.iterate(ex, a[0])))
@builtin('next')
def b_next(ex, a, k): return I.call_method(ex, a[0], 'next')
def make_iter(ex, l):
    o = HObj(I.T(ex, 'iterator'))
    o.f['iter_items'] = list(ex.heap.get(l.a).items)
    return ex.heap.new(o)
@method('iterator.next')
def it_next(ex, a, k):
    its = ex.heap.get(a[0].a).f['iter_items']
    if not its: ex.raise_('StopIteration')
    if I.is_piece(its[0]): raise OutOfReach('next() on a symbolic sequence')
    ex.heap.w(a[0].a).f['iter_items'] = its[1:]
    return its[0]
@method('iterator.__iter__')
def it_iter(ex, a, k): return a[0]

@builtin('dir')
def b_dir(ex, a, k):
    v = a[0]; out = set()
    if isinstance(v, Opaque):
        h = v.props.get('dir')
        if h is not None: return h(ex, v)
    r = rec(ex, v)
    if isinstance(r, HModule): out |= set(r.vars)
    else:
        c = v if isinstance(r, HClass) else I.class_of(ex, v)
        for m in I.mro_of(ex, c): out |= set(ex.heap.get(m.a).dict)
        if isinstance(r, HObj) and r.dct is not None:
            d = ex.heap.get(r.dct.a)
            if d.sym or d.base is not None: raise OutOfReach('dir of an object with a symbolic dictionary')
            out |= set(x[1] for x in d.ent if x[0] == 's')
    return I.new_list(ex, [n.encode() for n in sorted(out)])
@builtin('globals', 'frame')
def b_globals(fr, a, k): return I.module_dict(fr.ex, fr.module)
@builtin('locals', 'frame')
def b_locals(fr, a, k): raise OutOfReach('locals()')
@builtin('__import__', 'frame')
def b_import(fr, a, k):
    ex = fr.ex
    n = conc(ex, a[0])
    n = n.decode('latin-1') if isinstance(n, bytes) else n
    if n == '': ex.raise_('ValueError', b'Empty module name')
    h = ex.ghost.get('import')
    if h is not None: return h(ex, n)
    m = ex.world.import_(ex, n)
    if '.' in n: m = ex.world.import_(ex, n.split('.')[0])
    return m
@builtin('reload')
def b_reload(ex, a, k): raise OutOfReach('reload')
@builtin('open')
def b_open(ex, a, k):
    h = ex.ghost.get('open')
    if h is None: raise OutOfReach('open')
    return h(ex, a, k)

# ------------------------------------------------------------------ type constructors
@ctor('type')
def c_type(ex, c, a, k):
    if len(a) == 1: return I.type_of(ex, a[0])
    n, bases, d = a
    n = nm(ex, n)
    if not isinstance(n, str): raise OutOfReach('type() with symbolic name')
    dd = {}
    for kk, v in I.dict_items(ex, d): dd[nm(ex, kk)] = v
    b = I.iterate_concrete(ex, bases) or [I.T(ex, 'object')]
    return F.make_class(ex, n, b, dd, '')
@ctor('object')
def c_object(ex, c, a, k): 
    o = HObj(I.T(ex, 'object'))
    return ex.heap.new(o)
@ctor('bool')
def c_bool(ex, c, a, k):
    if not a: return False
    if isinstance(a[0], (SymBool, bool)): return a[0]
    return I.truth(ex, a[0])
@ctor('int')
def c_int(ex, c, a, k): return to_int(ex, a)
@ctor('long')
def c_long(ex, c, a, k): return to_int(ex, a)
def to_int(ex, a):
    if not a: return 0
    v = text(ex, a[0])
    if isinstance(v, (bool, int)): return int(v)
    if isinstance(v, SymInt): return v
    if isinstance(v, SymBool): return mkint(as_int(v))
    if isinstance(v, float):
        try: return int(v)
        except ValueError: ex.raise_('ValueError', b'cannot convert float NaN to integer')
        except OverflowError: ex.raise_('OverflowError', b'cannot convert float infinity to integer')
    if isinstance(v, SymFloat):
        t = v.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(v, (bytes, str)):
        s = v.decode('latin-1') if isinstance(v, bytes) else v
        base = a[1] if len(a) > 1 else 10
        try:
            if '_' in s: raise ValueError
            if s != s.strip('\x85\xa0') and isinstance(v, bytes): raise ValueError
            return int(s, base)
        except ValueError: ex.raise_('ValueError', b'invalid literal for int()')
    if isinstance(v, Rope):
        if len(v.parts) == 1 and isinstance(v.parts[0], R.Seg) and R.whole_atom(v.parts) and v.parts[0].atom.meta and \
                v.parts[0].atom.meta[0] in ('decimal', 'udecimal'):
            return mkint(v.parts[0].atom.meta[1])
        meta = v.parts[0].atom.meta if len(v.parts) == 1 and isinstance(v.parts[0], R.Seg) and R.whole_atom(v.parts) else None
        if meta and meta[0] == 'utf8': 
            return to_int(ex, [R.atom_rope(meta[1])])
        kk = R.key(v)
        if ex.branch(z3.Bool('isint:' + kk)):
            return SymInt(z3.Int('intof:' + kk))
        ex.raise_('ValueError', b'invalid literal for int()')
    if isinstance(v, Opaque):
        h = v.props.get('int')
        if h is not None: return h(ex, v)
        raise OutOfReach('int(%r)' % v)
    f = I.getattr_(ex, v, '__int__', None)
    if f is not None: return I.call(ex, f, [])
    ex.raise_('TypeError', b'int() argument must be a string or a number')
@ctor('float')
def c_float(ex, c, a, k):
    if not a: return 0.0
    v = text(ex, a[0])
    if isinstance(v, (float, SymFloat)): return v
    if isinstance(v, INTS): return ops.float_of_int(ex, v)
    if isinstance(v, (bytes, str)):
        try: return float(v)
        except ValueError: ex.raise_('ValueError', b'could not convert string to float')
    if isinstance(v, Rope):
        p = v.parts[0]
        if len(v.parts) == 1 and isinstance(p, R.Seg) and R.whole_atom(v.parts) and p.atom.meta:
            if p.atom.meta[0] in ('decimal', 'udecimal'): return ops.float_of_int(ex, mkint(p.atom.meta[1]))
        kk = R.key(v)
        if ex.branch(z3.Bool('isfloat:' + kk)): return SymFloat(z3.Real('floatof:' + kk))
        ex.raise_('ValueError', b'could not convert string to float')
    if isinstance(v, Opaque) and v.props.get('float'): return v.props['float'](ex, v)
    if isinstance(v, Opaque): raise OutOfReach('float(%r)' % v)
    f = I.getattr_(ex, v, '__float__', None)
    if f is not None: return I.call(ex, f, [])
    ex.raise_('TypeError', b'float() argument must be a string or a number')
@ctor('str')
def c_str(ex, c, a, k):
    if not a: return b''
    t = to_text(ex, a[0])
    if is_uni(t):
        try: return ascii_bytes(ex, t)
        except OutOfReach:
            kk = R.key(t)
            if not ex.branch(z3.Bool('isascii:' + kk)): ex.raise_('UnicodeEncodeError', b'ascii')
            at = R.Atom(ex, 'ascii:' + kk, (), 'b', R.length(ex, t), ('ascii', t))
            return R.atom_rope(at)
    return t
@ctor('unicode')
def c_unicode(ex, c, a, k):
    if not a: return ''
    if len(a) > 1 or 'encoding' in k: 
        if is_uni(a[0]): ex.raise_('TypeError', b'decoding Unicode is not supported')
        return _decode(ex, a, k)
    if isinstance(a[0], Opaque) and a[0].props.get('unicode'): return a[0].props['unicode'](ex, a[0])
    t = to_text(ex, a[0])
    return t if is_uni(t) else R.to_unicode_ascii(ex, t)
@ctor('tuple')
def c_tuple(ex, c, a, k): return tuple(I.iterate_concrete(ex, a[0])) if a else ()
@ctor('list')
def c_list(ex, c, a, k): return I.new_list(ex, I.iterate(ex, a[0]) if a else ())
@ctor('set')
def c_set(ex, c, a, k):
    if a:
        r = rec(ex, a[0])
        if isinstance(r, HSet): return ex.heap.new(r.copy())
    s = ex.heap.new(HSet())
    if a: set_update(ex, s, a[0])
    return s
CTORS['frozenset'] = c_set
def set_update(ex, s, it):
    if names.is_names(ex, it) or names.is_names(ex, s): return names.union(ex, s, it)
    r = rec(ex, it)
    if isinstance(r, HSet) and r.base is not None:
        w = ex.heap.get(s.a)
        if w.base is None and not w.ent and not w.sym:
            w = ex.heap.w(s.a); w.base = r.base; return
        return w_union(ex, s, it)
    for x in I.iterate(ex, it):
        if I.is_piece(x):
            w = ex.heap.get(s.a)
            if hasattr(x, 'add_to_set'): x.add_to_set(ex, s); continue
            raise OutOfReach('adding a symbolic sequence to a set')
        I.set_add(ex, s, x)
def w_union(ex, s, it): raise OutOfReach('union with a symbolic set')
@ctor('dict')
def c_dict(ex, c, a, k):
    d = ex.heap.new(HDict())
    dict_init(ex, d, a, k)
    return d
def dict_init(ex, d, a, k):
    if a: dict_update(ex, d, a[0])
    for kk, v in k.items(): I.dict_set(ex, d, kk.encode(), v)
def dict_update(ex, d, src):
    r = rec(ex, src)
    if isinstance(r, HObj) and r.payload is not None and isinstance(rec(ex, r.payload), HDict): src = r.payload; r = rec(ex, src)
    if isinstance(r, HDict):
        w = ex.heap.get(d.a)
        if names.is_names(ex, src) or names.is_names(ex, d): return names.update(ex, d, src)
        if r.base is not None:
            if w.base is None and not w.ent and not w.sym and hasattr(r.base, 'clone'):
                w = ex.heap.w(d.a); w.base = r.base.clone(ex, src); w.ent = dict(r.ent); w.sym = list(r.sym); return
            raise OutOfReach('update from a symbolic dict')
        for kk, v in I.dict_items(ex, src): I.dict_set(ex, d, kk, v)
        return
    ks = I.getattr_(ex, src, 'keys', None)
    if ks is not None:
        for kk in I.iterate_concrete(ex, I.call(ex, ks, [])): I.dict_set(ex, d, kk, F.getitem(ex, src, kk))
        return
    for it in I.iterate_concrete(ex, src):
        kk, v = I.iterate_concrete(ex, it)
        I.dict_set(ex, d, kk, v)
@ctor('property')
def c_property(ex, c, a, k):
    o = HObj(c)
    a = list(a) + [None] * 4
    o.f.update(fget=k.get('fget', a[0]), fset=k.get('fset', a[1]), fdel=k.get('fdel', a[2]))
    return ex.heap.new(o)
@ctor('classmethod')
def c_cm(ex, c, a, k):
    o = HObj(c); o.f['func'] = a[0]; return ex.heap.new(o)
@ctor('staticmethod')
def c_sm(ex, c, a, k):
    o = HObj(c); o.f['func'] = a[0]; return ex.heap.new(o)
@ctor('super')
def c_super(ex, c, a, k):
    o = HObj(c); o.f['klass'] = a[0]; o.f['obj'] = a[1]; return ex.heap.new(o)
@ctor('buffer')
def c_buffer(ex, c, a, k): raise OutOfReach('buffer')
@ctor('file')
def c_file(ex, c, a, k): raise OutOfReach('file')

PAYLOAD_INIT = {'dict': lambda ex, o, a, k: dict_init(ex, ex.heap.get(o.a).payload, a, k),
                'list': lambda ex, o, a, k: ex.heap.w(ex.heap.get(o.a).payload.a).items.extend(I.iterate(ex, a[0]) if a else ()),
                'set': lambda ex, o, a, k: set_update(ex, ex.heap.get(o.a).payload, a[0]),
                'tuple': lambda ex, o, a, k: None, 'str': lambda ex, o, a, k: None, 'unicode': lambda ex, o, a, k: None,
                'int': lambda ex, o, a, k: None, 'float': lambda ex, o, a, k: None, 'long': lambda ex, o, a, k: None}

@method('object.__new__')
def o_new(ex, a, k): return I.alloc(ex, a[0], a[1:], k)
@method('object.__init__')
def o_init(ex, a, k):
    r = rec(ex, a[0])
    if isinstance(r, HObj) and 'args' in r.f: ex.heap.w(a[0].a).f['args'] = tuple(a[1:])
@method('object.__setattr__')
def o_setattr(ex, a, k):
    n = nm(ex, a[1])
    if isinstance(n, str): I.inst_setattr(ex, a[0], n, a[2])
    else: I.dict_set(ex, ex.heap.get(a[0].a).dct, n, a[2])
@method('object.__hash__')
def o_hash(ex, a, k): return b_id(ex, a, k)
@method('BaseException.__init__')
def e_init(ex, a, k):
    r = rec(ex, a[0])
    if isinstance(r, HObj): ex.heap.w(a[0].a).f['args'] = tuple(a[1:])
@method('tuple.__new__')
def t_new(ex, a, k): return I.alloc(ex, a[0], a[1:], k)

# ------------------------------------------------------------------ dict / list / set methods
def D(ex, v): return I.as_dict(ex, v)
@method('dict.get')
def d_get(ex, a, k):
    v = I.dict_lookup(ex, D(ex, a[0]), a[1])
    return v if v is not _MISS else (a[2] if len(a) > 2 else None)
@method('dict.__getitem__')
def d_getitem(ex, a, k):
    v = I.dict_lookup(ex, D(ex, a[0]), a[1])
    if v is _MISS: names.absent(ex, a[1])
    return v
@method('dict.__setitem__')
def d_set(ex, a, k): I.dict_set(ex, D(ex, a[0]), a[1], a[2])
@method('dict.__delitem__')
def d_del(ex, a, k):
    if not I.dict_del(ex, D(ex, a[0]), a[1]): names.absent(ex, a[1])
@method('dict.__contains__', 'dict.has_key')
def d_has(ex, a, k): return I.dict_lookup(ex, D(ex, a[0]), a[1]) is not _MISS
@method('dict.keys', 'dict.iterkeys', 'dict.__iter__')
def d_keys(ex, a, k): return I.new_list(ex, [e[0] if not I.is_piece(e) else e.keys() for e in I.dict_items(ex, D(ex, a[0]))])
@method('dict.values', 'dict.itervalues')
def d_values(ex, a, k): return I.new_list(ex, [e[1] if not I.is_piece(e) else e.values() for e in I.dict_items(ex, D(ex, a[0]))])
@method('dict.items', 'dict.iteritems')
def d_items(ex, a, k): return I.new_list(ex, [tuple(e) if not I.is_piece(e) else e for e in I.dict_items(ex, D(ex, a[0]))])
@method('dict.__len__')
def d_len(ex, a, k): return b_len(ex, [D(ex, a[0])], k)
@method('dict.pop')
def d_pop(ex, a, k):
    d = D(ex, a[0])
    v = I.dict_lookup(ex, d, a[1])
    if v is _MISS:
        if len(a) > 2: return a[2]
        ex.raise_('KeyError', a[1])
    I.dict_del(ex, d, a[1])
    return v
@method('dict.setdefault')
def d_setdef(ex, a, k):
    d = D(ex, a[0])
    v = I.dict_lookup(ex, d, a[1])
    if v is not _MISS: return v
    v = a[2] if len(a) > 2 else None
    I.dict_set(ex, d, a[1], v)
    return v
@method('dict.update')
def d_update(ex, a, k): dict_init(ex, D(ex, a[0]), a[1:], k)
@method('dict.__init__')
def d_init(ex, a, k): dict_init(ex, D(ex, a[0]), a[1:], k)
@method('dict.copy')
def d_copy(ex, a, k):
    d = ex.heap.new(HDict()); dict_update(ex, d, D(ex, a[0])); return d
@method('dict.clear')
def d_clear(ex, a, k):
    w = ex.heap.w(D(ex, a[0]).a); w.ent = {}; w.sym = []; w.base = None
@method('dict.popitem')
def d_popitem(ex, a, k): raise OutOfReach('popitem')

def L(ex, v): return I.as_list(ex, v)
@method('list.append')
def l_append(ex, a, k): ex.heap.w(L(ex, a[0]).a).items.append(a[1])
@method('list.extend')
def l_extend(ex, a, k): ex.heap.w(L(ex, a[0]).a).items.extend(I.iterate(ex, a[1]))
@method('list.insert')
def l_insert(ex, a, k):
    l = L(ex, a[0]); r = ex.heap.get(l.a)
    if a[1] == 0 and isinstance(a[1], int): ex.heap.w(l.a).items.insert(0, a[2]); return
    if isinstance(a[1], (float, SymReal)) or not isinstance(a[1], (int, SymInt, SymBool)): ex.raise_('TypeError', b'an integer is required')
    if not isinstance(a[1], int) or any(I.is_piece(x) for x in r.items):
        n = I.list_len(ex, l); i, _ = F.clamp_slice(ex, a[1], n, n)
        x, y = F.list_part(ex, r.items, 0, i), F.list_part(ex, r.items, i, n)
        ex.heap.w(l.a).items[:] = x + [a[2]] + y; return
    ex.heap.w(l.a).items.insert(a[1], a[2])
@method('list.pop')
def l_pop(ex, a, k):
    l = L(ex, a[0]); r = ex.heap.get(l.a)
    i = a[1] if len(a) > 1 else -1
    if not isinstance(i, (int, SymInt, SymBool)): ex.raise_('TypeError', b'an integer is required')
    if not isinstance(i, int) or any(I.is_piece(x) for x in r.items):
        n = I.list_len(ex, l); j = F.index_norm(ex, i, n)
        if not ex.branch(z3.And(as_int(j) >= 0, as_int(j) < as_int(n))): ex.raise_('IndexError', b'pop index out of range')
        v = F.list_get(ex, l, mkint(j))
        x, y = F.list_part(ex, r.items, 0, j), F.list_part(ex, r.items, tint(as_int(j) + 1), n)
        ex.heap.w(l.a).items[:] = x + y
        return v
    try: return ex.heap.w(l.a).items.pop(i)
    except IndexError: ex.raise_('IndexError', b'pop from empty list')
def first_place(ex, items, v):
    """the first place of a value in a list, or None"""
    off = 0
    for x in items:
        if I.is_piece(x):
            j = ops.piece_where(ex, x, v)
            if j is not None: return tint(as_int(off) + as_int(j))
            off = tint(as_int(off) + as_int(x.count(ex)))
        else:
            if (not (R.is_text(x) and R.is_text(v)) and I.is_(ex, x, v) is True) or ex.branch(I.eq(ex, x, v)): return off
            off = tint(as_int(off) + 1)
    return None
@method('list.remove')
def l_remove(ex, a, k):
    l = L(ex, a[0]); items = ex.heap.get(l.a).items
    if names.another(ex, a[1]) and any(isinstance(x, names.Rest) for x in items): names.remove_another(ex, l); return
    i = first_place(ex, items, a[1])
    if i is None: ex.raise_('ValueError', b'list.remove(x): x not in list')
    F.delitem(ex, l, mkint(i) if not isinstance(i, int) else i)
@method('list.index', 'tuple.index')
def l_index(ex, a, k):
    if len(a) > 2: raise OutOfReach('index within bounds')
    i = first_place(ex, a[0] if isinstance(a[0], tuple) else ex.heap.get(L(ex, a[0]).a).items, a[1])
    if i is None: ex.raise_('ValueError', b'not in list')
    return i if isinstance(i, int) else mkint(i)
@method('list.count', 'tuple.count')
def l_count(ex, a, k):
    return sum(1 for x in I.iterate_concrete(ex, a[0]) if ex.branch(I.eq(ex, x, a[1])))
@method('list.sort')
def l_sort(ex, a, k):
    l = L(ex, a[0])
    if set(k) - {'key'} or len(a) > 1: raise OutOfReach('sort with a comparison function')
    ex.heap.w(l.a).items = sort_items(ex, list(ex.heap.get(l.a).items), k.get('key'))
@method('list.reverse')
def l_rev(ex, a, k):
    l = L(ex, a[0]); w = ex.heap.w(l.a)
    if any(I.is_piece(x) for x in w.items): raise OutOfReach('reverse')
    w.items.reverse()
@method('list.__len__')
def l_len(ex, a, k): return b_len(ex, [L(ex, a[0])], k)
@method('list.__getitem__')
def l_getitem(ex, a, k): return F.getitem(ex, L(ex, a[0]), a[1])
@method('list.__setitem__')
def l_setitem(ex, a, k): return F.setitem(ex, L(ex, a[0]), a[1], a[2])
@method('list.__init__')
def l_init(ex, a, k):
    if len(a) > 1: ex.heap.w(L(ex, a[0]).a).items[:] = I.iterate(ex, a[1])
@method('list.__iter__')
def l_iter(ex, a, k): return L(ex, a[0])
@method('list.__contains__')
def l_contains(ex, a, k): return ops.contains(ex, L(ex, a[0]), a[1])

def S(ex, v):
    r = rec(ex, v)
    return v if isinstance(r, HSet) else r.payload
@method('set.add')
def s_add(ex, a, k): I.set_add(ex, S(ex, a[0]), a[1])
@method('set.update')
def s_update(ex, a, k):
    for x in a[1:]: set_update(ex, S(ex, a[0]), x)
@method('set.discard')
def s_discard(ex, a, k): I.set_discard(ex, S(ex, a[0]), a[1])
@method('set.remove')
def s_remove(ex, a, k):
    if not I.set_discard(ex, S(ex, a[0]), a[1]): names.absent(ex, a[1])
@method('set.copy')
def s_copy(ex, a, k): return ex.heap.new(ex.heap.get(S(ex, a[0]).a).copy())
@method('set.clear')
def s_clear(ex, a, k):
    w = ex.heap.w(S(ex, a[0]).a); w.ent = {}; w.sym = []; w.base = None
@method('set.__len__')
def s_len(ex, a, k): return b_len(ex, [S(ex, a[0])], k)
@method('set.__contains__')
def s_contains(ex, a, k): return I.set_has(ex, S(ex, a[0]), a[1])
@method('set.__iter__')
def s_iter(ex, a, k): return S(ex, a[0])
def has_in(ex, it, x):
    r = rec(ex, it)
    if isinstance(r, HSet): return I.set_has(ex, it, x)
    if isinstance(r, (HDict,)): return I.dict_lookup(ex, it, x) is not _MISS
    return I.truth(ex, ops.any_eq(ex, I.iterate(ex, it), x))
@method('set.difference_update')
def s_diffup(ex, a, k):
    s = S(ex, a[0])
    for it in a[1:]:
        if names.is_names(ex, it) or names.is_names(ex, s): names.difference(ex, s, it); continue
        for x in I.iterate_concrete(ex, it): I.set_discard(ex, s, x)
@method('set.intersection_update')
def s_intup(ex, a, k):
    s = S(ex, a[0])
    if names.is_names(ex, a[1]) or names.is_names(ex, s): return names.intersection(ex, s, a[1])
    for x in I.iterate_concrete(ex, s):
        if not has_in(ex, a[1], x): I.set_discard(ex, s, x)
@method('set.difference')
def s_diff(ex, a, k):
    n = s_copy(ex, a, k); s_diffup(ex, [n] + a[1:], k); return n
@method('set.intersection')
def s_inter(ex, a, k):
    n = s_copy(ex, a, k); s_intup(ex, [n] + a[1:], k); return n
@method('set.union')
def s_union(ex, a, k):
    n = s_copy(ex, a, k); s_update(ex, [n] + a[1:], k); return n
@method('set.issubset')
def s_sub(ex, a, k): return all(has_in(ex, a[1], x) for x in I.iterate_concrete(ex, a[0]))
@method('set.issuperset')
def s_sup(ex, a, k): return all(I.set_has(ex, S(ex, a[0]), x) for x in I.iterate_concrete(ex, a[1]))

# ------------------------------------------------------------------ struct
SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'l': (4, True), 'L': (4, False), 'i': (4, True),
         'I': (4, False), 'q': (8, True), 'Q': (8, False)}

def struct_fmt(ex, f):
    """(big endian?, [(count or None, code)])"""
    f = text(ex, f)
    big = True
    items = []
    parts = R.parts_of(f)
    cnt = None
    first = True
    for p in parts:
        if isinstance(p, R.Lit):
            s = p.s.decode('latin-1') if isinstance(p.s, bytes) else p.s
            for c in s:
                if first and c in '!@><=':
                    big = c != '<'
                    first = False; continue
                first = False
                if c.isdigit(): cnt = (cnt or 0) * 10 + int(c) if cnt is None or isinstance(cnt, int) else bad(); continue
                if c == ' ': continue
                if c not in SIZES and c not in 'sdfxc': ex.raise_('struct.error', b'bad char in struct format')
                items.append((cnt, c)); cnt = None
        elif isinstance(p, R.Seg) and p.atom.meta and p.atom.meta[0] in ('decimal', 'udecimal') and R.whole_atom([p]) and cnt is None:
            cnt = tint(p.atom.meta[1]); first = False
        else: raise OutOfReach('symbolic struct format')
    return big, items
def bad(): raise OutOfReach('struct format')

@builtin('struct.pack')
def st_pack(ex, a, k):
    big, items = struct_fmt(ex, a[0])
    args = a[1:]
    out = []
    need = sum(1 if c == 's' or n is None else n for n, c in items if c != 'x')
    if need != len(args): ex.raise_('struct.error', b'pack expected a different number of items')
    for n, c in items:
        if c == 's':
            s = args.pop(0)
            if not is_text(s): ex.raise_('struct.error', b'argument for s must be a string')
            if is_uni(s): s = ascii_bytes(ex, s)
            ln = R.length(ex, s)
            w = 1 if n is None else n
            if R.same_term(tint(w), ln) or ex.valid(as_int(w) == as_int(ln)): out += R.parts_of(s)
            elif ex.branch(as_int(w) <= as_int(ln)): out += R.parts_of(R.slice_(ex, s, 0, w))
            else: raise OutOfReach('padding in struct.pack')
            continue
        for _ in range(1 if n is None else n):
            v = args.pop(0)
            if c in 'df': out += pack_float(ex, c, v, big); continue
            if isinstance(v, (float, SymFloat)): v = to_int(ex, [v])
            if not isinstance(v, INTS): ex.raise_('struct.error', b'required argument is not an integer')
            size, signed = SIZES[c]
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            if isinstance(v, (bool, int)):
                v = int(v)
                if not lo <= v <= hi: 
                    if c in 'lLqQ' : raise OutOfReach('struct.pack of an out of range integer')
                    v &= (1 << 8 * size) - 1
                    lo = 0
                out.append(R.Lit((v & ((1 << 8 * size) - 1)).to_bytes(size, 'big' if big else 'little'))); continue
            t = as_int(v)
            if not ex.valid(z3.And(t >= lo, t <= hi)):
                if not ex.branch(z3.And(t >= lo, t <= hi)):
                    if c in 'lLqQiI': raise OutOfReach('struct.pack of an out of range integer')
            bs = [R.Ch(z3.simplify(ops.modc(ops.divc(t, 1 << (8 * i)), 256)), ('int', t, i, size, lo, hi)) for i in range(size)]
            if big: bs.reverse()
            out += bs
    return R.mk('b', out)

F32 = z3.Function('f32', z3.RealSort(), z3.RealSort())
def pack_float(ex, c, v, big):
    n = 8 if c == 'd' else 4
    if isinstance(v, INTS): v = ops.float_of_int(ex, v)
    if isinstance(v, float):
        if c == 'd' : return [R.Lit(_struct.pack('>d' if big else '<d', v) if v == v else (b'\x7f\xf8\0\0\0\0\0\0' if big else b'\0\0\0\0\0\0\xf8\x7f'))]
        try: return [R.Lit(_struct.pack('>f' if big else '<f', v) if v == v else (b'\x7f\xc0\0\0' if big else b'\0\0\xc0\x7f'))]
        except OverflowError: return [R.Lit(_struct.pack('>f' if big else '<f', float('inf') if v > 0 else float('-inf')))]
    if not isinstance(v, SymFloat): ex.raise_('struct.error', b'required argument is not a float')
    t = z3.simplify(v.t)
    if c == 'f':
        # beyond the largest single the value becomes infinite
        big32 = z3.Q(2**128 - 2**103, 1)
        if not ex.branch(z3.And(t < big32, t > -big32)):
            return pack_float(ex, c, float('inf') if ex.branch(t > 0) else float('-inf'), big)
        r = F32(t)
        ex.assume(F32(r) == r)
        ab = z3.If(t >= 0, t, -t)
        ex.assume(z3.And(r - t <= ab * z3.Q(1, 2**24) + z3.Q(1, 2**150), t - r <= ab * z3.Q(1, 2**24) + z3.Q(1, 2**150)))
        t = r
    kk = ('float', c, big, str(t))
    at = ex.memo.get(kk)
    if at is None:
        at = R.Atom(ex, ex.fresh('double' if c == 'd' else 'single'), (), 'b', n, ('dbl' if c == 'd' else 'flt', t, big))
        ex.memo[kk] = at
    return [R.whole(at)]

@builtin('struct.unpack')
def st_unpack(ex, a, k):
    big, items = struct_fmt(ex, a[0])
    s = text(ex, a[1])
    if not is_text(s): ex.raise_('TypeError', b'unpack')
    total = 0
    for n, c in items:
        sz = 1 if c in 'sxc' else 8 if c == 'd' else 4 if c == 'f' else SIZES[c][0]
        total = tint(as_int(total) + as_int(1 if n is None else n) * sz) if not isinstance(n, int) and n is not None or not isinstance(total, int) else total + (1 if n is None else n) * sz
    ln = R.length(ex, s)
    if not R.same_term(tint(total), ln):
        if isinstance(ln, int) and isinstance(total, int): same = False
        else: same = ex.branch(as_int(ln) == as_int(total))
        if not same: ex.raise_('struct.error', b'unpack str size does not match format')
    out = []
    rest = R.parts_of(s)
    for n, c in items:
        if c == 's':
            m, rest = R.cut(ex, rest, 1 if n is None else n)
            out.append(R.mk('b', m)); continue
        for _ in range(1 if n is None else n):
            size = 8 if c == 'd' else 4 if c == 'f' else 1 if c == 'x' else SIZES[c][0]
            m, rest = R.cut(ex, rest, size)
            if c == 'x': continue
            if c in 'df': out.append(unpack_float(ex, c, m, big)); continue
            out.append(unpack_int(ex, m, size, SIZES[c][1], big, c))
    return tuple(out)

def bytes_of(ex, parts, n):
    """n byte terms with their origin"""
    out = []
    rest = list(parts)
    while rest:
        h = rest[0]
        if isinstance(h, R.Lit):
            out += [(b, None) for b in h.s]; rest.pop(0)
        elif isinstance(h, R.Ch): out.append((h.t, h.org)); rest.pop(0)
        elif isinstance(h, R.RLoop): rest[0:1] = R.unfold_first(ex, h)
        else:
            l = R.part_len(ex, h)
            if not isinstance(l, int):
                if not ex.branch(as_int(l) > 0): rest.pop(0); continue
            elif l == 0: rest.pop(0); continue
            if R.is_atomic(h): raise OutOfReach('reading the bytes of %r' % h)
            out.append((h.atom.at(ex, h.lo), None)); rest[0:1] = R.drop_first(h)
        if len(out) > n: raise OutOfReach('bytes_of')
    if len(out) != n: raise OutOfReach('bytes_of: %d of %d' % (len(out), n))
    return out

def unpack_int(ex, parts, size, signed, big, code):
    bs = bytes_of(ex, parts, size)
    if not big: bs.reverse()
    kind = 'long' if code in 'LIqQ' else 'int'
    if all(isinstance(b, int) for b, _ in bs):
        return int.from_bytes(bytes(b for b, _ in bs), 'big', signed=signed)
    o = bs[0][1]
    if o is not None and o[0] == 'int' and o[3] == size and \
            all(x[1] is not None and x[1][0] == 'int' and z3.eq(x[1][1], o[1]) and x[1][2] == size - 1 - i for i, x in enumerate(bs)):
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if ex.valid(z3.And(o[1] >= lo, o[1] <= hi)): return mkint(o[1], kind)
    t = z3.IntVal(0)
    for b, _ in bs: t = t * 256 + as_int(b)
    if signed: t = z3.If(t >= (1 << (8 * size - 1)), t - (1 << (8 * size)), t)
    return mkint(t, kind)

def unpack_float(ex, c, parts, big):
    n = 8 if c == 'd' else 4
    m = R.mk('b', parts)
    if isinstance(m, bytes): return _struct.unpack(('>' if big else '<') + c, m)[0]
    p = m.parts[0]
    if len(m.parts) == 1 and isinstance(p, R.Seg) and p.atom.meta and p.atom.meta[0] == ('dbl' if c == 'd' else 'flt') and \
            p.atom.meta[2] == big and R.whole_atom(m.parts):
        return SymFloat(p.atom.meta[1])
    if any(R.is_atomic(q) for q in m.parts): raise OutOfReach('float bytes read back with another layout')
    key = ('unpackf', c, big, R.key(m))
    if key not in ex.memo: ex.memo[key] = ex.choice(4)
    w = ex.memo[key]
    if w: return (float('nan'), float('inf'), float('-inf'))[w - 1]
    return SymFloat(z3.Real('dblof:%s:%s' % (big, R.key(m))))

@builtin('struct.calcsize')
def st_calc(ex, a, k):
    big, items = struct_fmt(ex, a[0])
    return sum((1 if n is None else n) * (1 if c in 'sxc' else 8 if c == 'd' else 4 if c == 'f' else SIZES[c][0]) for n, c in items)

# ------------------------------------------------------------------ cStringIO
@ctor('StringIO')
def c_sio(ex, c, a, k):
    b = b''
    if a:
        b = text(ex, a[0])
        if b is None: b = b''
        if not is_text(b): ex.raise_('TypeError', b'StringIO')
        if is_uni(b): b = to_latin(ex, b)
    return ex.heap.new(HStream(b, 0))
def to_latin(ex, u):
    if isinstance(u, str):
        if any(ord(ch) > 255 for ch in u): raise OutOfReach('writing wide characters to cStringIO')
        return u.encode('latin-1')
    raise OutOfReach('writing arbitrary unicode to cStringIO')
@method('StringIO.getvalue')
def sio_getvalue(ex, a, k): return ex.heap.get(a[0].a).buf
@method('StringIO.tell')
def sio_tell(ex, a, k):
    p = ex.heap.get(a[0].a).pos
    return p if isinstance(p, int) else mkint(p)
@method('StringIO.seek')
def sio_seek(ex, a, k):
    r = ex.heap.get(a[0].a)
    p = a[1]
    if not isinstance(p, INTS): ex.raise_('TypeError', b'an integer is required')
    mode = a[2] if len(a) > 2 else k.get('mode', 0)
    if not isinstance(mode, (int, bool)): raise OutOfReach('symbolic seek mode')
    p = tint(as_int(p))
    if mode == 1: p = tint(as_int(r.pos) + as_int(p))
    elif mode == 2: p = tint(as_int(R.length(ex, r.buf)) + as_int(p))
    ex.heap.w(a[0].a).pos = p
@method('StringIO.read')
def sio_read(ex, a, k):
    r = ex.heap.get(a[0].a)
    n = a[1] if len(a) > 1 else -1
    if n is None: n = -1
    if not isinstance(n, INTS): ex.raise_('TypeError', b'an integer is required')
    L_ = R.length(ex, r.buf)
    pos = r.pos
    chkpos(ex, pos, L_)
    avail = tint(as_int(L_) - as_int(pos))
    n = tint(as_int(n))
    if isinstance(n, int) and n < 0: m = avail
    elif isinstance(n, int) and isinstance(avail, int): m = min(n, avail)
    else:
        if not isinstance(n, int) and ex.branch(n < 0): m = avail
        elif ex.branch(as_int(n) <= as_int(avail)): m = n
        else: m = avail
    end = tint(as_int(pos) + as_int(m))
    s = R.slice_(ex, r.buf, pos, end)
    ex.heap.w(a[0].a).pos = end
    return s
def chkpos(ex, pos, L_):
    if isinstance(pos, int) and isinstance(L_, int): ok = 0 <= pos <= L_
    else: ok = ex.branch(z3.And(as_int(pos) >= 0, as_int(pos) <= as_int(L_)))
    if not ok: raise OutOfReach('stream position outside the content')
@method('StringIO.write')
def sio_write(ex, a, k):
    r = ex.heap.get(a[0].a)
    s = text(ex, a[1])
    if not is_text(s):
        if isinstance(s, Opaque): raise OutOfReach('writing %r' % s)
        ex.raise_('TypeError', b'write() argument must be a string')
    if is_uni(s): s = to_latin(ex, s)
    L_ = R.length(ex, r.buf)
    pos = r.pos
    sl = R.length(ex, s)
    end = tint(as_int(pos) + as_int(sl))
    w = None
    if R.same_term(tint(pos), L_) or (not (isinstance(pos, int) and isinstance(L_, int)) and ex.branch(as_int(pos) == as_int(L_))):
        nb = R.mk('b', R.parts_of(r.buf) + R.parts_of(s))
    else:
        chkpos(ex, pos, L_)
        left, right = R.cut(ex, R.parts_of(r.buf), pos)
        rest_len = tint(as_int(L_) - as_int(pos))
        if isinstance(sl, int) and isinstance(rest_len, int): over = sl >= rest_len
        else: over = ex.branch(as_int(sl) >= as_int(rest_len))
        tail = [] if over else R.cut(ex, right, sl)[1]
        nb = R.mk('b', left + R.parts_of(s) + tail)
    w = ex.heap.w(a[0].a)
    w.buf = nb; w.pos = end
@method('StringIO.close', 'StringIO.flush')
def sio_close(ex, a, k): return None

# ------------------------------------------------------------------ datetime (naive; microseconds since the epoch)
from . import dates

# ------------------------------------------------------------------ installation
def mkmodule(ex, name, vars, unmodelled=False):
    return ex.heap.new(HModule(name, dict(vars, __name__=name.encode()), unmodelled))

def install(world, ex):
    T = world.T
    for t, ms in METHODS.items():
        c = ex.heap.w(T[t].a)
        for n, fn in ms.items(): c.dict[n] = BuiltinFn('%s.%s' % (t, n), fn)
    fs = ex.heap.w(T['frozenset'].a)
    for n in ('__len__', '__contains__', '__iter__', 'union', 'difference', 'intersection', 'copy', 'issubset'):
        fs.dict[n] = BuiltinFn('frozenset.' + n, METHODS['set'][n])
    for t in ('object', 'BaseException', 'tuple'):
        pass
    lib = {}
    for n, (fn, kind) in BUILTINS.items():
        if '.' in n: lib.setdefault(n.rsplit('.', 1)[0], {})[n.rsplit('.', 1)[1]] = BuiltinFn(n, fn, kind)
        else: world.builtins[n] = BuiltinFn(n, fn, kind)
    world.builtins['NotImplemented'] = Opaque('NotImplemented')
    world.builtins['__debug__'] = True
    world.ctors.update(CTORS)
    world.payload_init.update(PAYLOAD_INIT)
    world.object_slots.update(METHODS['object'])
    world.format = fmt
    world.make_iter = make_iter
    for t in T: pass
    import types as _t
    tt = {'NoneType': 'NoneType', 'TypeType': 'type', 'BooleanType': 'bool', 'IntType': 'int', 'LongType': 'long',
          'FloatType': 'float', 'StringType': 'str', 'UnicodeType': 'unicode', 'TupleType': 'tuple', 'ListType': 'list',
          'DictType': 'dict', 'DictionaryType': 'dict', 'FunctionType': 'function', 'LambdaType': 'function',
          'GeneratorType': 'generator', 'CodeType': 'code', 'ClassType': 'classobj', 'InstanceType': 'instance',
          'MethodType': 'instancemethod', 'UnboundMethodType': 'instancemethod', 'BuiltinFunctionType': 'builtin_function_or_method',
          'BuiltinMethodType': 'builtin_function_or_method', 'ModuleType': 'module', 'XRangeType': 'xrange', 'ObjectType': 'object',
          'FileType': 'file', 'SliceType': 'slice'}
    lib['types'] = {k: T[v] for k, v in tt.items()}
    lib['types']['StringTypes'] = (T['str'], T['unicode'])
    lib['struct']['error'] = T['struct.error']
    lib['cStringIO'] = {'StringIO': T['StringIO']}
    lib['StringIO'] = {'StringIO': T['StringIO']}
    lib['__builtin__'] = None
    lib['zlib'] = {'error': T['zlib.error'], 'compress': BuiltinFn('zlib.compress', z_compress), 'decompress': BuiltinFn('zlib.decompress', z_decompress)}
    lib['inspect'] = {'getmro': BuiltinFn('inspect.getmro', lambda ex, a, k: a[0].props['mro'](ex) if isinstance(a[0], Opaque) and 'mro' in a[0].props else tuple(I.mro_of(ex, a[0]))),
                      'getargspec': BuiltinFn('inspect.getargspec', getargspec),
                      'formatargspec': BuiltinFn('inspect.formatargspec', lambda ex, a, k: opaque_text(ex)),
                      'isclass': BuiltinFn('inspect.isclass', lambda ex, a, k: isinstance(rec(ex, a[0]), HClass)),
                      'ismethod': BuiltinFn('inspect.ismethod', lambda ex, a, k: isinstance(a[0], BoundMethod))}
    lib['traceback'] = {'format_exception': BuiltinFn('format_exception', lambda ex, a, k: I.new_list(ex, [opaque_text(ex, 'b', 'tb')])),
                        'print_exc': BuiltinFn('print_exc', lambda ex, a, k: None),
                        'print_exception': BuiltinFn('print_exception', lambda ex, a, k: None),
                        'format_exc': BuiltinFn('format_exc', lambda ex, a, k: opaque_text(ex, 'b', 'tb'))}
    lib['time'] = {'time': BuiltinFn('time.time', lambda ex, a, k: SymFloat(z3.Real(ex.fresh('now'))))}
    lib['platform'] = {'python_implementation': BuiltinFn('impl', lambda ex, a, k: b'Jython')}
    lib['os'] = {}; lib['os.path'] = {}; lib['glob'] = {}
    lib['logging'] = {}; lib['pkg_resources'] = {}
    lib['uuid'] = {}; lib['decimal'] = {}; lib['collections'] = {}; lib['weakref'] = {}; lib['array'] = {}; lib['sets'] = {}
    lib['urlparse'] = {}; lib['urllib2'] = {}; lib['gzip'] = {}
    dates.install(world, ex, lib)
    UNM = {'os', 'os.path', 'glob', 'logging', 'pkg_resources', 'uuid', 'decimal', 'collections', 'weakref', 'array', 'sets',
           'urlparse', 'urllib2', 'gzip', 'time', 'zlib', 'inspect', 'traceback', 'platform', 'types', 'datetime', 'calendar'}
    def builder(name, vars):
        def b(ex):
            if name == '__builtin__':
                return mkmodule(ex, name, world.builtins)
            return mkmodule(ex, name, vars, name in UNM)
        return b
    for n, vs in lib.items(): world.lib[n] = builder(n, vs)
    def sysmod(ex):
        md = ex.heap.new(HDict())
        mp = ex.heap.new(HList())
        return mkmodule(ex, 'sys', {'modules': md, 'meta_path': mp, 'byteorder': b'big', 'maxint': 2**31 - 1,
                                    'version_info': (2, 7, 3, b'final', 0),
                                    'exc_info': BuiltinFn('sys.exc_info', exc_info),
                                    'exc_clear': BuiltinFn('sys.exc_clear', lambda ex, a, k: None),
                                    'path': ex.heap.new(HList()), 'platform': b'java1.8', 'stderr': Unmodelled('sys.stderr'),
                                    'stdout': Unmodelled('sys.stdout')})
    world.lib['sys'] = sysmod

def exc_info(ex, a, k):
    if not ex.excstack: return (None, None, None)
    v = ex.excstack[-1]
    return (I.class_of(ex, v), v, Opaque('traceback', (), {'class': I.T(ex, 'traceback')}))

def getargspec(ex, a, k):
    f = a[0]
    if isinstance(f, BoundMethod): f = f.func
    r = rec(ex, f)
    if not isinstance(r, HFunc): ex.raise_('TypeError', b'not a Python function')
    ar = r.node.args
    names = I.new_list(ex, [x.id.encode() for x in ar.args])
    return (names, ar.vararg.encode() if ar.vararg else None, ar.kwarg.encode() if ar.kwarg else None, tuple(r.defaults) or None)

ZLIB_HEADS = (b'\x78\x9c', b'\x78\xda', b'\x78\x01', b'\x78\x5e')      # they differ in a hint at the level only
def z_compress(ex, a, k):
    s = text(ex, a[0])
    kk = ('zlib', R.key(s))
    if kk not in ex.memo: ex.memo[kk] = R.Atom(ex, ex.fresh('zlib'), (), 'b', None, ('zlib', s), 6)
    return R.mk('b', [R.Lit(ZLIB_HEADS[0]), R.whole(ex.memo[kk])])
def z_decompress(ex, a, k):
    s = text(ex, a[0])
    if isinstance(s, Rope):
        ps = s.parts
        if len(ps) == 2 and isinstance(ps[0], R.Lit) and ps[0].s in ZLIB_HEADS and isinstance(ps[1], R.Seg) and ps[1].atom.meta and ps[1].atom.meta[0] == 'zlib' and R.whole_atom(ps[1:]):
            return ps[1].atom.meta[1]
    if ex.branch(z3.Bool('iszlib:' + R.key(s))): return R.sym_str(ex, 'unz')
    ex.raise_('zlib.error', b'')
