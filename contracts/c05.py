"""Deductive part: AMF3 writers and readers of scalars, strings and byte arrays over arbitrary encoder and decoder states (any
bytes around, any memo contents, string and object tables of any length and content, by the contracts C08 proves of them):
layout for every value, decoding of that layout, inline-once-then-by-reference.  Lengths up to the 2^27-1 the format can hold."""
from .coders import *

def enc(ex, **k): return Enc(ex, 3, **k)
def undefined(ex): return G(ex, 'pyamf.Undefined')
def consts(ex, w): return [(None, b'\x01'), (undefined(ex), b'\x00'), (True, b'\x03'), (False, b'\x02')][w]

def write_const(ex):
    """null, undefined, true and false are written as their markers"""
    v, want = consts(ex, ex.choice(4))
    e = enc(ex)
    expect(ex, e.write(v), 'ok', 'write-constant'); e.wrote(want, 'constant-layout')

def read_const(ex):
    """their markers decode to exactly them"""
    v, data = consts(ex, ex.choice(4))
    d = Dec(ex, 3, data)
    r = d.read(); expect(ex, r, 'ok', 'read-constant')
    same_value(ex, r[1], v, 'constant-value'); d.consumed('constant')

def floats(ex):
    w = ex.choice(4)
    return (SymFloat(z3.Real(ex.fresh('x'))), float('nan'), float('inf'), float('-inf'))[w]

def write_int(ex):
    """an integer of the 29-bit range is written as an integer, any other as the nearest double"""
    n = ex.int('n', -2**1000, 2**1000)
    e = enc(ex)
    expect(ex, e.write(n), 'ok', 'write-integer')
    if ex.branch(z3.And(n.t >= -2**28, n.t < 2**28)):
        ex.cover('small'); want = by(b'\x04', u29(ex, n.t))
    else:
        ex.cover('big'); want = by(b'\x05', dbl(ex, as_double(ex, n)))
    e.wrote(want, 'integer-layout')

def read_int(ex):
    """the integer layout of any 29-bit number decodes to it, an integer"""
    n = ex.int('n', -2**28, 2**28 - 1)
    d = Dec(ex, 3, by(b'\x04', u29(ex, n.t)))
    r = d.read(); expect(ex, r, 'ok', 'read-integer')
    same_value(ex, r[1], n, 'integer-value'); ex.prove(isinstance(r[1], (int, SymInt)), 'integer-kind'); d.consumed('integer')

def write_float(ex):
    """every float is written as the number marker and its eight bytes"""
    x = floats(ex); e = enc(ex)
    expect(ex, e.write(x), 'ok', 'write-float'); e.wrote(by(b'\x05', dbl(ex, x)), 'float-layout')

def read_float(ex):
    """the eight bytes of any double decode to that float"""
    x = floats(ex)
    d = Dec(ex, 3, by(b'\x05', dbl(ex, x)))
    r = d.read(); expect(ex, r, 'ok', 'read-float')
    same_value(ex, r[1], x, 'float-value'); ex.prove(isinstance(r[1], (float, SymFloat)), 'float-kind'); d.consumed('float')

def write_text(kind, refs):
    def f(ex):
        s = R.sym_str(ex, 's', kind)
        e = enc(ex) if refs else enc(ex, string_references=False)
        u = utf8_of(ex, s); n = R.length(ex, u)
        ex.assume(as_int(n) < 2**27)
        r = e.write(s)
        expect(ex, r, 'ok', 'write-text')
        t = tab(ex, e.strs)
        if ex.branch(as_int(n) == 0):
            ex.cover('empty')
            e.wrote(b'\x06\x01', 'empty-layout'); ex.prove(as_int(t.n) == e.ns, 'empty-never-in-table'); return
        i = ex.memo.get(('prior', e.strs.a, keyname(ex, u)))
        if i is not None:
            ex.cover('seen')
            ex.prove(refs, 'by-reference-only-when-enabled')
            e.wrote(by(b'\x06', u29(ex, 2 * i.t)), 'reference-layout'); ex.prove(as_int(t.n) == e.ns, 'reference-adds-nothing'); return
        ex.cover('new')
        e.wrote(by(b'\x06', u29(ex, 2 * as_int(n) + 1), u), 'inline-layout')
        if refs:
            ex.prove(as_int(t.n) == e.ns + 1 and len(t.known) == 1, 'inline-added-once')
            same_bytes(ex, t.known[0][1], u, 'inline-added')
            e.pre = buf(ex, e.st)
            expect(ex, e.write(s), 'ok', 'write-again')
            e.wrote(by(b'\x06', u29(ex, 2 * e.ns)), 'second-time-by-reference')
    f.__doc__ = ('a %s string of any length: empty as the empty string, one already in the table by its index, any other inline with its UTF-8 length, and added to the table%s'
                 % ('byte' if kind == 'b' else 'unicode', '' if refs else ' (references switched off: always inline)'))
    return f

def read_text(ex):
    """an inline text of any length decodes to itself and joins the table unless it is empty"""
    s = R.sym_str(ex, 's', 'u'); u = R.utf8(ex, s); n = R.length(ex, u)
    ex.assume(as_int(n) < 2**27)
    d = Dec(ex, 3, by(b'\x06', u29(ex, 2 * as_int(n) + 1), u))
    r = d.read(); expect(ex, r, 'ok', 'read-text')
    same_value(ex, r[1], s, 'text-value'); d.consumed('text')
    t = tab(ex, d.strs)
    if ex.branch(as_int(n) == 0): ex.prove(as_int(t.n) == d.ns, 'empty-not-added')
    else:
        ex.prove(as_int(t.n) == d.ns + 1 and len(t.known) == 1, 'added-once')
        same_bytes(ex, t.known[0][1], u, 'added-its-bytes')

def read_text_ref(ex):
    """a reference to an entry of the string table decodes to the text of that entry"""
    i = ex.int('i', 0, 2**28 - 1)
    s = R.sym_str(ex, 's', 'u', minlen=1)
    d = Dec(ex, 3, by(b'\x06', u29(ex, 2 * i.t)))
    ex.assume(i.t < d.ns)
    def entry(ex, k):
        ex.prove(k == i.t, 'entry-asked-for'); return R.utf8(ex, s)
    ex.ghost[('entry', d.strs.a)] = entry
    r = d.read(); expect(ex, r, 'ok', 'read-text-reference')
    same_value(ex, r[1], s, 'text-reference-value'); d.consumed('text-reference')
    ex.prove(as_int(tab(ex, d.strs).n) == d.ns, 'reference-adds-nothing')

# ---- byte arrays
def bytearray_(ex, content): return call(ex, 'pyamf.amf3.ByteArray', content)

def write_bytearray(ex):
    """a byte array not marked compressed is written with its length and exactly its content, once, then by reference"""
    c = R.sym_str(ex, 'c')
    n = R.length(ex, c); ex.assume(as_int(n) < 2**27)
    b = bytearray_(ex, c)
    I.setattr_(ex, b, 'compressed', False)
    e = enc(ex); ex.ghost[('fresh', keyname(ex, b))] = True
    expect(ex, e.write(b), 'ok', 'write-bytearray')
    e.wrote(by(b'\x0c', u29(ex, 2 * as_int(n) + 1), c), 'bytearray-layout')
    ex.prove(as_int(tab(ex, e.objs).n) == e.n + 1, 'bytearray-in-table')
    e.pre = buf(ex, e.st)
    expect(ex, e.write(b), 'ok', 'write-again')
    e.wrote(by(b'\x0c', u29(ex, 2 * e.n)), 'second-time-by-reference')
    same_bytes(ex, buf(ex, b), c, 'bytearray-unchanged')

def read_bytearray(ex):
    """content of any length that is not a zlib stream decodes to a byte array holding it, in the object table"""
    c = R.sym_str(ex, 'c')
    n = R.length(ex, c); ex.assume(as_int(n) < 2**27)
    d = Dec(ex, 3, by(b'\x0c', u29(ex, 2 * as_int(n) + 1), c))
    ex.assume(z3.Not(z3.Bool('iszlib:' + R.key(c))))
    r = d.read(); expect(ex, r, 'ok', 'read-bytearray')
    ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.amf3.ByteArray'), 'bytearray-type')
    same_bytes(ex, buf(ex, r[1]), c, 'bytearray-content')
    ex.prove(I.is_(ex, attr(ex, r[1], 'compressed'), False), 'bytearray-not-compressed')
    d.consumed('bytearray')
    t = tab(ex, d.objs)
    ex.prove(as_int(t.n) == d.n + 1 and len(t.known) == 1 and t.known[0][1] == r[1], 'bytearray-in-table')

def lemmas(world, tier):
    L = lambda n, f, **k: Lemma('C05.' + n, f, contracts=MODULAR, **k)
    T = ('empty', 'seen', 'new')
    return [L('write_const', write_const), L('read_const', read_const), L('write_int', write_int, cover=('small', 'big')), L('read_int', read_int),
            L('write_float', write_float), L('read_float', read_float), L('write_bytes', write_text('b', True), cover=T),
            L('write_unicode', write_text('u', True), cover=T), L('write_unicode_norefs', write_text('u', False), cover=('empty', 'new')), L('read_text', read_text),
            L('read_text_ref', read_text_ref), L('write_bytearray', write_bytearray), L('read_bytearray', read_bytearray)]
