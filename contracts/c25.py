"""Deductive part: for every operation pair of DataOutput / DataInput (and of ByteArray itself) and every value, what the write
appends to a stream of any content is read back by the matching read, with anything around it, as the same value, consuming
exactly what was written; sequences follow by induction over their length.  Byte arrays encode to their content, compressed or
not, by references when met again, and decode to equal ones."""
from .coders import *
from .c06 import in_scope
from .c02 import bounds, floats

INTS_ = {'Byte': (1, True), 'UnsignedByte': (1, False), 'Short': (2, True), 'UnsignedShort': (2, False), 'Int': (4, True), 'UnsignedInt': (4, False)}

def values(ex, op):
    if op == 'Boolean': return [True, False][ex.choice(2)]
    if op in INTS_: lo, hi = bounds(*INTS_[op]); return ex.int('v', lo, hi)
    if op == 'Double': return floats(ex)
    if op == 'Float':
        x = floats(ex)
        if isinstance(x, SymFloat): ex.assume(z3.And(x.t < z3.Q(2**128 - 2**103, 1), x.t > -z3.Q(2**128 - 2**103, 1)))
        return x
    if op == 'UTF':
        s = strmeta(ex)
        u = utf8_of(ex, s); ex.assume(as_int(R.length(ex, u)) < 65536)
        return s
    if op == 'UTFBytes' or op.startswith('MultiByte'): return R.sym_str(ex, 'text', 'u')

def same_as_written(ex, op, got, v):
    if op == 'Float' and isinstance(v, SymFloat): v = SymFloat(bi.F32(z3.simplify(v.t)))
    if op == 'UTF' and R.is_str(v):
        dec = result(ex, lambda: R.utf8_decode(ex, v))
        if dec[0] != 'ok': raise Stop()
        v = dec[1]
    if op == 'Boolean' and not isinstance(got, (bool, SymBool)): return ex.prove(False, 'boolean-read', repr(got))
    same_value(ex, got, v, 'value-read')

def holders(ex, by_array):
    """(what writes, its stream, what was there before)"""
    if by_array:
        c = R.sym_str(ex, 'content')
        b = call(ex, 'pyamf.amf3.ByteArray', c)
        meth(ex, b, 'seek', mkint(R.length(ex, c)))
        return b, b, c
    e = Enc(ex, 3)
    return call(ex, 'pyamf.amf3.DataOutput', e.e), e.st, e.pre

def reader(ex, by_array, data, pre=None):
    if by_array:        # the array itself, with anything appended
        meth(ex, by_array, 'append', R.sym_str(ex, 'after'))
        meth(ex, by_array, 'seek', mkint(R.length(ex, pre)))
        return by_array, by_array, R.length(ex, pre)
    d = Dec(ex, 3, data)
    return call(ex, 'pyamf.amf3.DataInput', d.d), d.st, d.p

def pair(op, by_array):
    def f(ex):
        w, st, pre = holders(ex, by_array)
        v = values(ex, op)
        name, extra = (op, []) if '/' not in op else (op.split('/')[0], [op.split('/')[1].encode()])
        r = result(ex, lambda: meth(ex, w, 'write' + name, v, *extra))
        if extra and extra[0] in (b'ascii', b'latin-1') and r[0] != 'ok':
            ex.prove(r[1] == 'UnicodeEncodeError', 'refused'); ex.cover('refused')
            return same_bytes(ex, buf(ex, st), pre, 'nothing-written')
        expect(ex, r, 'ok', 'write'); ex.cover('written')
        got = buf(ex, st)
        n = R.length(ex, pre)
        same_bytes(ex, R.slice_(ex, got, 0, n), pre, 'what-was-there-kept')
        data = R.slice_(ex, got, n, R.length(ex, got))
        ex.prove(as_int(meth(ex, st, 'tell')) == as_int(R.length(ex, got)), 'position-at-the-end')
        size = {'Boolean': 1, 'Double': 8, 'Float': 4}.get(op) or (INTS_[op][0] if op in INTS_ else None)
        if size: ex.prove(as_int(R.length(ex, data)) == size, 'size')
        i, st2, p = reader(ex, by_array and w, data, pre)
        before = buf(ex, st2)
        args = [mkint(R.length(ex, data))] if name in ('UTFBytes', 'MultiByte') else []
        r = result(ex, lambda: meth(ex, i, 'read' + name, *(args + extra)))
        if op == 'UTF' and R.is_str(v) and r[0] != 'ok': return          # bytes that are no UTF-8 text
        expect(ex, r, 'ok', 'read')
        same_as_written(ex, op, r[1], v)
        ex.prove(as_int(meth(ex, st2, 'tell')) == as_int(p) + as_int(R.length(ex, data)), 'consumes-what-was-written')
        same_bytes(ex, buf(ex, st2), before, 'content-kept')
    f.__doc__ = '%s: write%s of any value then read%s gives it back and consumes exactly what was written' % ('a byte array' if by_array else 'DataOutput and DataInput', op, op)
    return f

WRITE, READ = 'pyamf.codec.Encoder.writeElement', 'pyamf.codec.Decoder.readElement'
CALLEE[WRITE + ' (object)'] = 'an object field: C06, C07'

def objects(by_array):
    def f(ex):
        w, st, pre = holders(ex, by_array)
        v = Opaque('value'); seen = []
        enc = attr(ex, w, 'encoder')
        if by_array:
            old = Opaque('old', (), {'eq': lambda ex, a, b: False})
            def clean(c): ex.prove(as_int(call(ex, ex.world.builtins['len'], attr(ex, attr(ex, c, 'context'), '_objects'))) == 0, 'tables-empty')
            meth(ex, attr(ex, enc, 'context'), 'addObject', call(ex, 'pyamf.ASObject'))
        def write(ex2, ff, a, k):
            ex2.prove(a[0] == enc and a[1] is v, 'value-by-the-encoder')
            if by_array: clean(enc)
            seen.append(1)
        ex.ghost['scoped'] = {WRITE: write}
        expect(ex, result(ex, lambda: meth(ex, w, 'writeObject', v)), 'ok', 'write')
        ex.prove(len(seen) == 1, 'written-once')
        i, st2, p = reader(ex, by_array and w, b'', pre)
        dec = attr(ex, i, 'decoder')
        if by_array: meth(ex, attr(ex, dec, 'context'), 'addObject', call(ex, 'pyamf.ASObject'))
        def read(ex2, ff, a, k):
            ex2.prove(a[0] == dec, 'value-by-the-decoder')
            if by_array: clean(dec)
            seen.append(2); return v
        ex.ghost['scoped'] = {READ: read}
        r = result(ex, lambda: meth(ex, i, 'readObject')); expect(ex, r, 'ok', 'read')
        ex.prove(r[1] is v and seen == [1, 2], 'value-read')
    f.__doc__ = '%s: writeObject and readObject are writeElement and readElement of its encoder and decoder%s' % ('a byte array' if by_array else 'DataOutput and DataInput', ', with empty tables' if by_array else '')
    return f

def same_stream(ex):
    """what DataOutput writes goes to the stream of its encoder, what DataInput reads comes from that of its decoder"""
    e = Enc(ex, 3); o = call(ex, 'pyamf.amf3.DataOutput', e.e)
    ex.prove(attr(ex, o, 'stream') == e.st and attr(ex, o, 'encoder') == e.e, 'output')
    d = Dec(ex, 3, b''); i = call(ex, 'pyamf.amf3.DataInput', d.d)
    ex.prove(attr(ex, i, 'stream') == d.st and attr(ex, i, 'decoder') == d.d, 'input')
    c = R.sym_str(ex, 'content'); b = call(ex, 'pyamf.amf3.ByteArray', c)
    for n in ('encoder', 'decoder'): ex.prove(attr(ex, attr(ex, b, n), 'stream') == b, 'array-' + n)
    same_bytes(ex, buf(ex, b), c, 'array-content'); ex.prove(as_int(meth(ex, b, 'tell')) == 0, 'array-position')

def bad_boolean(ex):
    """a boolean field that is neither 0 nor 1 is refused, and only booleans are written as such"""
    t = ex.int('byte', 2, 255).t
    d = Dec(ex, 3, R.mk('b', [R.Ch(t)])); i = call(ex, 'pyamf.amf3.DataInput', d.d)
    expect(ex, result(ex, lambda: meth(ex, i, 'readBoolean')), 'ValueError', 'refused')
    e = Enc(ex, 3); o = call(ex, 'pyamf.amf3.DataOutput', e.e)
    v = (ex.int('v'), None, R.sym_str(ex, 's'))[ex.choice(3)]
    expect(ex, result(ex, lambda: meth(ex, o, 'writeBoolean', v)), 'ValueError', 'refused')
    e.wrote(b'', 'nothing-written')

# ---- byte arrays as values
def encode(compressed):
    def f(ex):
        c = R.sym_str(ex, 'c'); n = R.length(ex, c); ex.assume(as_int(n) < 2**27)
        b = call(ex, 'pyamf.amf3.ByteArray', c)
        if compressed:
            meth(ex, b, 'compress')
            ex.assume(as_int(R.length(ex, call(ex, ex.world.builtins['str'], b))) < 2**27)
        else: I.setattr_(ex, b, 'compressed', False)
        e = Enc(ex, 3); ex.ghost[('fresh', keyname(ex, b))] = True
        expect(ex, e.write(b), 'ok', 'write')
        got = buf(ex, e.st); data = R.slice_(ex, got, R.length(ex, e.pre), R.length(ex, got))
        ex.prove(as_int(tab(ex, e.objs).n) == e.n + 1, 'in-table')
        d = Dec(ex, 3, data)
        if not compressed: ex.assume(z3.Not(z3.Bool('iszlib:' + R.key(c))))
        r = d.read(); expect(ex, r, 'ok', 'read')
        ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.amf3.ByteArray'), 'type')
        same_bytes(ex, buf(ex, r[1]), c, 'content')
        ex.prove(I.is_(ex, attr(ex, r[1], 'compressed'), compressed), 'compressed-mark')
        d.consumed('array')
        same_bytes(ex, buf(ex, b), c, 'array-unchanged')
    f.__doc__ = 'a byte array of any content%s decodes to an equal one, consuming what was written' % (' marked compressed' if compressed else ' (that is no zlib stream)')
    return f

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update((q, in_scope(q)) for q in (WRITE, READ))
    L_ = lambda n, f, **k: Lemma('C25.' + n, f, contracts=k.pop('contracts', MODULAR), **k)
    out = []
    for a, n in ((False, 'data'), (True, 'array')):
        for op in ['Boolean', 'Float', 'Double', 'UTF', 'UTFBytes', 'MultiByte/utf-8'] + sorted(INTS_):
            out.append(L_('%s_%s' % (n, op.replace('/', '_').replace('-', '')), pair(op, a), cover=('written',)))
        out.append(L_('%s_Object' % n, objects(a), contracts=CON))
    return out + [L_('same_stream', same_stream), L_('bad_boolean', bad_boolean), L_('encode', encode(False)), L_('encode_compressed', encode(True))]
