"""Deductive part: the operations of a reference table over its real representation (a list of any length and the index by
identity, hash or content), as an inductive invariant, so the contracts hold after any sequence of operations; the AMF3 string
and class tables; clearing of both contexts; unknown references of every kind are errors for any table contents."""
from .coders import *
from pyvc import loops as L

IC = 'pyamf.codec.IndexedCollection'
BC = 'pyamf.codec.ByteStringReferenceCollection'

class Coll(object):
    """a reference table in an arbitrary state: entries E(0..n-1); an index that misses or gives an entry of that key"""
    def __init__(self, ex, kind):
        self.ex = ex; self.kind = kind
        self.t = call(ex, IC, kind == 1) if kind < 2 else call(ex, BC)
        self.n = ex.int('n', lo=0).t
        self.hashed = kind == 1
        nm = ex.fresh('E')
        def item(ex, k):
            if kind == 2: return R.sym_str(ex, nm, 'b', ix=(as_int(k),))
            return Opaque(nm, (as_int(k),))
        self.item = item
        def make(ex, k):
            i = ex.int('at', lo=0); ex.assume(i.t < self.n)
            if kind == 2: ex.assume(as_bool(R.eq(ex, item(ex, i.t), k)))
            else: ex.assume(as_int(self.h(item(ex, i.t))) == as_int(k))
            return i
        def put():
            l = ex.heap.w(I.getattr_(ex, self.t, 'list').a); l.items = [L.Piece(self.n, item)]
            d = ex.heap.w(I.getattr_(ex, self.t, 'dict').a); d.ent = {}; d.base = AbsDict(ex.fresh('index'), make, exact=True)
        reach('reference table representation', put)
    def h(self, o): return (bi.b_hash if self.hashed else bi.b_id)(self.ex, [o], {})
    def new(self, name):
        if self.kind == 2: return R.sym_str(self.ex, name)
        return Opaque(self.ex.fresh(name))
    def same_key(self, x, y):
        if self.kind == 2: return R.eq(self.ex, x, y)
        return as_int(self.h(x)) == as_int(self.h(y))
    def find(self, x): return as_int(meth(self.ex, self.t, 'getReferenceTo', x))
    def get(self, i): return meth(self.ex, self.t, 'getByReference', i)
    def is_entry(self, v, i, name):
        """v is the value at index i of the original entries"""
        if self.kind == 2: return same_bytes(self.ex, v, self.item(self.ex, i), name) if v is not None else self.ex.prove(False, name)
        self.ex.prove(I.is_(self.ex, v, self.item(self.ex, i)) if v is not None else False, name)
    def is_value(self, v, o, name):
        if self.kind == 2: return same_bytes(self.ex, v, o, name) if v is not None else self.ex.prove(False, name)
        self.ex.prove(v is o or (v is not None and I.is_(self.ex, v, o)), name, repr(v))
    def size(self): return as_int(call(self.ex, self.ex.world.builtins['len'], self.t))

def as_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else c
KINDS = ('by identity', 'by hash', 'by content')

def append(kind):
    def f(ex):
        c = Coll(ex, kind); o = c.new('o'); x = c.new('x')
        before = c.find(x)
        r = meth(ex, c.t, 'append', o)
        ex.prove(as_int(r) == c.n, 'append-gives-next-index')
        ex.prove(c.size() == c.n + 1, 'append-length')
        c.is_value(c.get(mkint(c.n)), o, 'append-lookup-by-index')
        ex.prove(c.find(o) == c.n, 'append-lookup-by-value')
        i = ex.int('i', 0)
        ex.assume(i.t < c.n)
        if ex.choice(2): c.is_entry(c.get(i), i.t, 'append-keeps-entries')
        else:
            after = c.find(x)
            if ex.branch(c.same_key(x, o)): ex.prove(after == c.n, 'append-same-value')
            else: ex.prove(after == before, 'append-keeps-index')
    f.__doc__ = 'table %s: append gives the next index, under which the value is then found both ways; everything else is as before' % KINDS[kind]
    return f

def lookup(kind):
    def f(ex):
        c = Coll(ex, kind); x = c.new('x')
        r = c.find(x)
        ex.prove(z3.Or(r == -1, z3.And(r >= 0, r < c.n)), 'index-in-range')
        if ex.branch(r != -1): ex.prove(c.same_key(c.item(ex, r), x), 'index-names-the-value')
        has = call(ex, 'pyamf.codec.IndexedCollection.__contains__', c.t, x)
        ex.prove((as_int(has) == 1) == (r != -1), 'contains')
        i = ex.int('i', 0)
        v = c.get(i)
        if ex.branch(i.t < c.n): c.is_entry(v, i.t, 'lookup-by-index')
        else: ex.prove(v is None, 'absent-index')
    f.__doc__ = 'table %s: a lookup by value gives an index of that value or reports absence; by index, that entry or nothing' % KINDS[kind]
    return f

def clear(kind):
    def f(ex):
        c = Coll(ex, kind); x = c.new('x'); i = ex.int('i', 0)
        meth(ex, c.t, 'clear')
        ex.prove(c.size() == 0, 'cleared-length')
        ex.prove(c.find(x) == -1, 'cleared-index')
        ex.prove(c.get(i) is None, 'cleared-entries')
        c.n = z3.IntVal(0)
        ex.prove(as_int(meth(ex, c.t, 'append', x)) == 0, 'numbering-starts-again')
    f.__doc__ = 'table %s: after clear nothing is found and numbering starts at zero' % KINDS[kind]
    return f

# ---- the class table of AMF3
def class_ctx(ex):
    ctx = call(ex, 'pyamf.amf3.Context')
    n = ex.int('classes', lo=0).t
    def put():
        I.getattr_(ex, ctx, 'class_idx'); I.setattr_(ex, ctx, 'class_idx', mkint(n))
        def made(ex, k):
            ex.assume(z3.And(as_int(k) >= 0, as_int(k) < n)); ex.require_feasible()
            return Opaque('C', (as_int(k),), {'is': lambda ex, a, b: False if b is None else I.opaque_same(ex, a, b) if isinstance(b, Opaque) and b.name == 'C' else False})
        class Full(AbsDict):
            def lookup(self, ex, d, k):
                return made(ex, k) if ex.branch(z3.And(as_int(k) >= 0, as_int(k) < n)) else MISS
        ex.heap.w(I.getattr_(ex, ctx, 'class_ref').a).base = Full('class_ref', None, exact=True)
    reach('class table representation', put)
    return ctx, n

class DefObj(object): pass
def definition(ex):
    return ex.heap.new(HObj(G(ex, 'pyamf.amf3.ClassDefinition'), ex.heap.new(HDict())))

def add_class(ex):
    """a class definition added gets the next index, is found under it and under its class, and knows its index"""
    ctx, n = class_ctx(ex)
    d = definition(ex); k = G(ex, 'pyamf.ASObject')
    i = ex.int('i', 0)
    r = meth(ex, ctx, 'addClass', d, k)
    ex.prove(as_int(r) == n, 'class-index')
    ex.prove(meth(ex, ctx, 'getClassByReference', mkint(n)) == d, 'class-by-index')
    ex.prove(meth(ex, ctx, 'getClass', k) == d, 'class-by-class')
    ex.prove(as_int(attr(ex, d, 'reference')) == n, 'class-knows-index')
    ex.assume(i.t != n)
    v = meth(ex, ctx, 'getClassByReference', i)
    if ex.branch(i.t < n): ex.prove(isinstance(v, Opaque) and z3.simplify(as_int(v.idx[0]) == i.t), 'other-classes-kept')
    else: ex.prove(v is None, 'unknown-class-absent')
    d2 = definition(ex)
    ex.prove(as_int(meth(ex, ctx, 'addClass', d2, G(ex, 'pyamf.MixedArray'))) == n + 1, 'next-class-index')

def clear_context(amf):
    def f(ex):
        ctx = call(ex, 'pyamf.amf%d.Context' % amf)
        o = ex.heap.new(HObj(G(ex, 'pyamf.ASObject'), ex.heap.new(HDict()), ex.heap.new(HDict())))
        k = ex.choice(2)
        if k:      # anything may have been added before
            meth(ex, ctx, 'addObject', o)
            meth(ex, ctx, 'getBytesForString', R.sym_str(ex, 'u', 'u'))
            I.F_setitem(ex, attr(ex, ctx, 'extra'), b'x', o) if hasattr(I, 'F_setitem') else I.dict_set(ex, attr(ex, ctx, 'extra'), b'x', o)
            I.dict_set(ex, attr(ex, ctx, '_class_aliases'), G(ex, 'pyamf.ASObject'), o)
            if amf == 3:
                meth(ex, ctx, 'addString', R.sym_str(ex, 's', minlen=1))
                meth(ex, ctx, 'addClass', definition(ex), G(ex, 'pyamf.ASObject'))
                meth(ex, ctx, 'addProxyObject', o, definition(ex))
        meth(ex, ctx, 'clear')
        i = ex.int('i', 0); s = R.sym_str(ex, 't')
        ex.prove(meth(ex, ctx, 'getObject', i) is None, 'no-object')
        ex.prove(as_int(meth(ex, ctx, 'getObjectReference', o)) == -1, 'no-object-reference')
        for nm in ('extra', '_class_aliases', '_unicodes') + (('proxied_objects', 'classes', 'class_ref') if amf == 3 else ()):
            ex.prove(not I.truth(ex, attr(ex, ctx, nm)), 'cleared-' + nm)
        ex.prove(as_int(meth(ex, ctx, 'addObject', o)) == 0, 'objects-number-from-zero')
        if amf == 3:
            ex.prove(meth(ex, ctx, 'getString', i) is None, 'no-string')
            ex.prove(as_int(meth(ex, ctx, 'getStringReference', s)) == -1, 'no-string-reference')
            ex.prove(meth(ex, ctx, 'getClassByReference', i) is None, 'no-class')
            ex.prove(as_int(meth(ex, ctx, 'addClass', definition(ex), G(ex, 'pyamf.ASObject'))) == 0, 'classes-number-from-zero')
            ex.prove(as_int(meth(ex, ctx, 'addString', R.sym_str(ex, 's', minlen=1))) == 0, 'strings-number-from-zero')
    f.__doc__ = 'clearing an AMF%d context empties every table and restarts every numbering' % amf
    return f

def embedded_cleared(ex):
    """after an AMF0 context is cleared the AMF3 codecs embedded in it start with empty tables"""
    e = call(ex, 'pyamf.amf0.Encoder', stream(ex)); c = attr(ex, e, 'context')
    d = call(ex, 'pyamf.amf0.Decoder', stream(ex), c)
    o = ex.heap.new(HObj(G(ex, 'pyamf.ASObject'), ex.heap.new(HDict()), ex.heap.new(HDict())))
    def embedded(): return [attr(ex, x, 'context') for x in (meth(ex, c, 'getAMF3Encoder', e), meth(ex, c, 'getAMF3Decoder', d))]
    for x in embedded():
        meth(ex, x, 'addObject', o); meth(ex, x, 'addString', R.sym_str(ex, 's', minlen=1)); meth(ex, x, 'addClass', definition(ex), G(ex, 'pyamf.ASObject'))
    meth(ex, c, 'clear')
    i = ex.int('i', 0)
    for x in embedded():
        ex.prove(meth(ex, x, 'getObject', i) is None, 'embedded-no-object')
        ex.prove(as_int(meth(ex, x, 'getObjectReference', o)) == -1, 'embedded-no-reference')
        ex.prove(meth(ex, x, 'getString', i) is None, 'embedded-no-string')
        ex.prove(meth(ex, x, 'getClassByReference', i) is None, 'embedded-no-class')

# ---- references on the wire
def ref0(ex):
    """AMF0: a reference to an index below the table length gives that entry, any other raises ReferenceError"""
    i = ex.int('i', 0, 65535)
    d = Dec(ex, 0, by(b'\x07', u16(i)))
    r = d.read()
    if ex.branch(i.t < d.n):
        expect(ex, r, 'ok', 'known-reference')
        ex.prove(isinstance(r[1], Opaque) and r[1].name == 'entry' and z3.simplify(as_int(r[1].idx[0]) == i.t), 'known-reference-entry')
        d.consumed('known-reference')
    else: expect(ex, r, 'ReferenceError', 'unknown-reference')

MARK = {'array': b'\x09', 'object': b'\x0a', 'date': b'\x08', 'xml': b'\x07', 'xmlstring': b'\x0b', 'bytearray': b'\x0c', 'string': b'\x06'}
def ref3(what):
    def f(ex):
        i = ex.int('i', 0, 2**28 - 1)
        d = Dec(ex, 3, by(MARK[what], u29(ex, 2 * i.t)))
        if what == 'string': ex.ghost[('entry', d.strs.a)] = lambda ex, k: R.sym_str(ex, 'S', 'b', ix=(as_int(k),), meta=None, minlen=1)
        n = d.ns if what == 'string' else d.n
        r = d.read()
        if ex.branch(i.t < n):
            if what == 'string':
                if r[0] == 'exc' and r[1] == 'UnicodeDecodeError': return
                expect(ex, r, 'ok', 'known-reference'); return
            expect(ex, r, 'ok', 'known-reference')
            ex.prove(isinstance(r[1], Opaque) and r[1].name == 'entry' and z3.simplify(as_int(r[1].idx[0]) == i.t), 'known-reference-entry')
            d.consumed('known-reference')
        else: expect(ex, r, 'ReferenceError', 'unknown-reference')
    f.__doc__ = 'AMF3 %s: a reference below the table length gives that entry, any other raises ReferenceError' % what
    return f

def refclass(ex):
    """AMF3: a class reference below the table length uses that definition, any other raises ReferenceError"""
    i = ex.int('i', 0, 2**27 - 1)
    d = Dec(ex, 3, by(MARK['object'], u29(ex, 4 * i.t + 1)))
    n = ex.int('classes', lo=0).t
    class Full(AbsDict):
        def lookup(self, ex, dd, k):
            if ex.branch(z3.And(as_int(k) >= 0, as_int(k) < n)):
                ex.cover('known'); raise Stop()
            return MISS
    cr = attr(ex, d.ctx, 'class_ref')
    reach('class_ref', lambda: setattr(ex.heap.w(cr.a), 'base', Full('class_ref', None)))
    expect(ex, d.read(), 'ReferenceError', 'unknown-class-reference')
    ex.cover('unknown')

def lemmas(world, tier):
    M = lambda n, f, **k: Lemma('C08.' + n, f, **k)
    out = []
    for k, nm in enumerate(('identity', 'hash', 'content')):
        out += [M('append_' + nm, append(k)), M('lookup_' + nm, lookup(k)), M('clear_' + nm, clear(k))]
    out += [M('add_class', add_class), M('clear_amf0', clear_context(0)), M('clear_amf3', clear_context(3)), M('clear_embedded', embedded_cleared),
            M('ref_amf0', ref0, contracts=MODULAR), M('ref_class', refclass, contracts=MODULAR, cover=('known', 'unknown'))]
    out += [M('ref_' + w, ref3(w), contracts=MODULAR) for w in sorted(MARK)]
    return out
