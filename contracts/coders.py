"""Encoders and decoders in arbitrary states, and the byte layouts of scalar values."""
from .lib import *

CODEC = 'pyamf.codec.'

# ---- reference tables by contract (discharged over their real representation by the lemmas of C08)
class Tab(object):
    """Ghost state of a reference table: its length and what is known about its entries"""
    def __init__(self, n, known=()): self.n = n; self.known = tuple(known)

def tab(ex, t):
    k = ('table', t.a)
    return ex.memo.get(k)
def tab_put(ex, t, n, known): ex.memo[('table', t.a)] = Tab(tint(as_int(n)), known)

def same_entry(ex, t, x, y):
    if ex.memo.get(('byvalue', t.a)):
        return ex.branch(R.eq(ex, x, y)) if R.is_text(x) and R.is_text(y) and R.kind_of(x) == R.kind_of(y) else False
    if isinstance(x, Ref) or isinstance(y, Ref):
        if isinstance(x, Opaque) or isinstance(y, Opaque): return ex.branch(I.is_(ex, x, y))
        return x == y
    if isinstance(x, Opaque) and isinstance(y, Opaque): return ex.branch(I.is_(ex, x, y))
    if R.is_text(x) and R.is_text(y): return x is y
    return x is y

def c_append(ex, f, a, k):
    t = tab(ex, a[0])
    if t is None: return NotImplemented
    tab_put(ex, a[0], as_int(t.n) + 1, t.known + ((t.n, a[1]),))
    return mkint(as_int(t.n))

def c_find(ex, f, a, k):
    """-1, or the index of an entry that is this value (the latest one)"""
    t = tab(ex, a[0])
    if t is None: return NotImplemented
    for i, o in reversed(t.known):
        if same_entry(ex, a[0], o, a[1]): return mkint(as_int(i))
    kk = ('prior', a[0].a, keyname(ex, a[1]))
    if kk not in ex.memo:
        if ex.ghost.get(('fresh', keyname(ex, a[1]))) or not ex.branch(z3.Bool(ex.fresh('in table'))): ex.memo[kk] = None
        else:
            i = ex.int('ref', lo=0); ex.assume(i.t < as_int(t.n))
            for j, o in t.known: ex.assume(i.t != as_int(j))
            ex.memo[kk] = i
    i = ex.memo[kk]
    return -1 if i is None else i

def c_get(ex, f, a, k):
    t = tab(ex, a[0])
    if t is None: return NotImplemented
    i = as_int(a[1])
    for j, o in reversed(t.known):
        if ex.branch(i == as_int(j)): return o
    if not ex.branch(z3.And(i >= 0, i < as_int(t.n))): return None
    h = ex.ghost.get(('entry', a[0].a))
    if h is None: return Opaque('entry', (i,), {'is': lambda ex, x, y: False if y is None else I.opaque_same(ex, x, y) if isinstance(y, Opaque) and y.name == x.name else False})
    return h(ex, i)

TABLES = {CODEC + 'IndexedCollection.append': c_append, CODEC + 'IndexedCollection.getReferenceTo': c_find, CODEC + 'IndexedCollection.getByReference': c_get,
          CODEC + 'ByteStringReferenceCollection.append': c_append, CODEC + 'ByteStringReferenceCollection.getReferenceTo': c_find}
for q in TABLES: CALLEE[q] = 'discharged by the lemmas of C08 over the real representation'

def abstract_table(ex, t, byvalue=False, name='n'):
    n = ex.int(name, lo=0).t
    tab_put(ex, t, n, ())
    if byvalue: ex.memo[('byvalue', t.a)] = True
    return n

# ---- codecs
def func_cache(ex, c):
    """the memo of type functions holds, for each key it has, what getTypeFunc gives for the value at hand"""
    d = attr(ex, c, '_func_cache')
    def make(ex, k): return meth(ex, c, 'getTypeFunc', ex.ghost['elem'])
    def check(ex, k, v):
        ex.memo[('funccache', keyname(ex, k))] = v
    reach('_func_cache', lambda: setattr(ex.heap.w(d.a), 'base', AbsDict('func_cache %s' % d.a, make, check)))

def text_memo(ex, ctx):
    """the memo of texts holds, for unicode keys their UTF-8 bytes, for byte keys the text they encode"""
    d = attr(ex, ctx, '_unicodes')
    def make(ex, k): return R.utf8(ex, k) if R.is_uni(k) else R.utf8_decode(ex, k)
    def check(ex, k, v):
        want = result(ex, lambda: make(ex, k))
        if want[0] != 'ok': return ex.prove(False, 'text-memo-invariant')
        same_bytes(ex, v, want[1], 'text-memo-invariant')
    reach('_unicodes', lambda: setattr(ex.heap.w(d.a), 'base', AbsDict('unicodes %s' % d.a, make, check)))

class Enc(object):
    """an encoder in an arbitrary state: any bytes written before, any memo and table contents"""
    def __init__(self, ex, amf, tables=True, **kw):
        self.ex = ex; self.amf = amf
        self.pre = R.sym_str(ex, 'sent')
        self.b = BS(ex, self.pre, R.length(ex, self.pre))
        self.st = self.b.st
        self.e = call(ex, 'pyamf.amf%d.Encoder' % amf, self.st, **kw)
        self.ctx = attr(ex, self.e, 'context')
        func_cache(ex, self.e); text_memo(ex, self.ctx)
        self.objs = attr(ex, self.ctx, '_objects')
        self.n = abstract_table(ex, self.objs, name='objects')
        if amf == 3:
            # the format can number 2^27 entries
            self.strs = attr(ex, self.ctx, 'strings')
            self.ns = abstract_table(ex, self.strs, True, 'strings')
            ex.assume(z3.And(self.n < 2**26, self.ns < 2**26))
    def write(self, v):
        self.ex.ghost['elem'] = v
        return result(self.ex, lambda: meth(self.ex, self.e, 'writeElement', v))
    def wrote(self, want, name):
        """exactly these bytes were appended"""
        ex = self.ex
        same_bytes(ex, buf(ex, self.st), R.concat(ex, self.pre, want), name)
        ex.prove(as_int(meth(ex, self.st, 'tell')) == as_int(R.length(ex, self.pre)) + as_int(R.length(ex, want)), name + '-position')

class Dec(object):
    """a decoder in an arbitrary state, about to read these bytes with anything around them"""
    def __init__(self, ex, amf, data, nested=True, rest=None, **kw):
        self.ex = ex; self.amf = amf; self.data = data
        self.pre = R.sym_str(ex, 'before')
        self.post = R.sym_str(ex, 'after') if rest is None else rest
        self.c = R.concat(ex, R.concat(ex, self.pre, data), self.post)
        self.p = R.length(ex, self.pre)
        self.b = BS(ex, self.c, as_int(self.p))
        self.st = self.b.st
        self.d = call(ex, 'pyamf.amf%d.Decoder' % amf, self.st, **kw)
        self.ctx = attr(ex, self.d, 'context')
        text_memo(ex, self.ctx)
        self.objs = attr(ex, self.ctx, '_objects')
        self.n = abstract_table(ex, self.objs, name='objects')
        if amf == 3:
            self.strs = attr(ex, self.ctx, 'strings')
            self.ns = abstract_table(ex, self.strs, True, 'strings')
        c = attr(ex, self.d, '_func_cache')
        def make(ex, k): return meth(ex, self.d, 'getTypeFunc', k) or MISS
        reach('_func_cache', lambda: setattr(ex.heap.w(c.a), 'base', AbsDict('func_cache %s' % c.a, make)))
    def read(self): return result(self.ex, lambda: meth(self.ex, self.d, 'readElement'))
    def consumed(self, name):
        """exactly the data was consumed, nothing else of the stream changed"""
        ex = self.ex
        ex.prove(as_int(meth(ex, self.st, 'tell')) == as_int(self.p) + as_int(R.length(ex, self.data)), name + '-consumes')
        same_bytes(ex, buf(ex, self.st), self.c, name + '-content')
    def untouched(self, name):
        self.b.check(self.c, self.p, name)

# ---- layouts
def u16(t): return [R.Ch(z3.simplify((as_int(t) / 256) % 256)), R.Ch(z3.simplify(as_int(t) % 256))]
def u32(t): return [R.Ch(z3.simplify((as_int(t) / 2**(8 * i)) % 256)) for i in (3, 2, 1, 0)]
def dbl(ex, x): return bi.pack_float(ex, 'd', x, True)
def lit(b): return [R.Lit(b)]
def by(*parts):
    out = []
    for p in parts:
        if isinstance(p, (bytes, R.Rope)): out += R.parts_of(p)
        else: out += p
    return R.mk('b', out)

def u29_bytes(n):
    n %= 2**29
    if n < 0x80: return bytes([n])
    if n < 0x4000: return bytes([128 + n // 128, n % 128])
    if n < 0x200000: return bytes([128 + n // 2**14, 128 + n // 128 % 128, n % 128])
    return bytes([128 + n // 2**22, 128 + n // 2**15 % 128, 128 + n // 256 % 128, n % 256])

def u29(ex, t):
    """the bytes of a 29-bit number (its two's complement when negative), as one chunk: C01 is their layout"""
    t = tint(as_int(t))
    if isinstance(t, int): return u29_bytes(t)
    L = z3.Function('u29len', z3.IntSort(), z3.IntSort())(t)
    ex.assume(z3.And(L >= 1, L <= 4))
    return R.atom_rope(R.Atom(ex, 'u29', (t,), 'b', L, ('u29', t)))

def c_encode_int(ex, f, a, k):
    n = a[0]
    if not isinstance(n, (int, SymInt)) or isinstance(n, bool): return NotImplemented
    if not ex.branch(z3.And(as_int(n) >= -2**28, as_int(n) < 2**28)): ex.raise_('OverflowError', b'Out of range')
    return u29(ex, as_int(n))

def c_decode_int(ex, f, a, k):
    """a chunk at the position of the stream is consumed and gives its number"""
    signed = a[1] if len(a) > 1 else k.get('signed', False)
    b = reach('stream', lambda: ex.heap.w(I.getattr_(ex, a[0], '_buffer').a))
    if not isinstance(b.buf, R.Rope): return NotImplemented
    _, right = R.cut(ex, R.parts_of(b.buf), b.pos)
    while right and isinstance(right[0], R.RLoop): right[0:1] = R.unfold_first(ex, right[0])
    if not right or not (isinstance(right[0], R.Seg) and right[0].atom.meta and right[0].atom.meta[0] == 'u29'): return NotImplemented
    t = as_int(right[0].atom.meta[1])
    b.pos = tint(as_int(b.pos) + as_int(R.part_len(ex, right[0])))
    if I.truth(ex, signed): return mkint(z3.If(t >= 2**28, t - 2**29, t))
    return mkint(z3.If(t < 0, t + 2**29, t))

INTS = {'pyamf.amf3.encode_int': c_encode_int, 'pyamf.amf3.decode_int': c_decode_int}
CALLEE['pyamf.amf3.encode_int'] = CALLEE['pyamf.amf3.decode_int'] = 'discharged by the lemmas of C01'
MODULAR = dict(TABLES); MODULAR.update(INTS)

def as_double(ex, v):
    """float(v) by the model of the conversion"""
    return call(ex, ex.world.builtins['float'], v)

def same_value(ex, got, want, name):
    """equal values of the same type"""
    if want is None or isinstance(want, (bool,)): return ex.prove(I.is_(ex, got, want), name, repr(got))
    if R.is_text(want):
        if not R.is_text(got): return ex.prove(False, name, 'not text: %r' % (got,))
        if R.kind_of(got) != R.kind_of(want): return ex.prove(R.eq(ex, got, want), name, repr(got))
        return same_bytes(ex, got, want, name)
    if isinstance(want, float) and want != want: return ex.prove(isinstance(got, float) and got != got, name, repr(got))
    if isinstance(want, I.NUM):
        if not isinstance(got, I.NUM) or isinstance(got, (bool, SymBool)): return ex.prove(False, name, repr(got))
        return ex.prove(I.num_eq(ex, got, want), name, repr(got))
    return ex.prove(I.is_(ex, got, want), name, '%r / %r' % (got, want))
