"""Deductive part: AMF0 writers and readers of scalars over arbitrary encoder and decoder states (any bytes before and after,
any memo contents): layout of each type for every value, decoding of that layout for every value, refusal of an unencodable
length.  A finite double's eight bytes are one uninterpreted chunk per value (model of struct 'd')."""
from .coders import *

def enc(ex): return Enc(ex, 0)
def undefined(ex): return G(ex, 'pyamf.Undefined')

def consts(ex, w):
    return [(None, b'\x05'), (undefined(ex), b'\x06'), (True, b'\x01\x01'), (False, b'\x01\x00')][w]

def write_const(ex):
    """null, undefined, true and false are written as their markers"""
    v, want = consts(ex, ex.choice(4))
    e = enc(ex)
    expect(ex, e.write(v), 'ok', 'write-constant'); e.wrote(want, 'constant-layout')

def read_const(ex):
    """their markers decode to exactly them; unsupported decodes to null"""
    w = ex.choice(5)
    v, data = consts(ex, w) if w < 4 else (None, b'\x0d')
    d = Dec(ex, 0, data)
    r = d.read(); expect(ex, r, 'ok', 'read-constant')
    same_value(ex, r[1], v, 'constant-value'); d.consumed('constant')

def floats(ex):
    w = ex.choice(4)
    return (SymFloat(z3.Real(ex.fresh('x'))), float('nan'), float('inf'), float('-inf'))[w]

def write_number(ex):
    """every float and every integer a double can hold is written as a number with the bytes of its nearest double"""
    w = ex.choice(2)
    if w: v = ex.int('n', -2**1000, 2**1000)
    else: v = floats(ex)
    e = enc(ex)
    expect(ex, e.write(v), 'ok', 'write-number')
    x = as_double(ex, v) if w else v
    e.wrote(by(b'\x00', dbl(ex, x)), 'number-layout')

def read_number(ex):
    """the bytes of any double decode to a number equal to it (an integer exactly when it is whole)"""
    x = floats(ex)
    d = Dec(ex, 0, by(b'\x00', dbl(ex, x)))
    r = d.read(); expect(ex, r, 'ok', 'read-number')
    same_value(ex, r[1], x, 'number-value')
    if isinstance(x, SymFloat):
        whole = z3.IsInt(x.t)
        ex.prove(whole if isinstance(r[1], (int, SymInt)) else z3.Not(whole), 'number-kind')
    d.consumed('number')

def header(ex, n):
    if ex.branch(as_int(n) > 65535): return by(b'\x0c', u32(n))
    return by(b'\x02', u16(n))

def write_text(kind):
    def f(ex):
        s = R.sym_str(ex, 's', kind)
        e = enc(ex)
        u = utf8_of(ex, s); n = R.length(ex, u)
        ex.assume(as_int(n) < 2**32)
        expect(ex, e.write(s), 'ok', 'write-text')
        e.wrote(by(header(ex, n), u), 'text-layout')
    f.__doc__ = 'a %s string of any length: marker, 16-bit (32-bit above 65535 bytes) length of its UTF-8 form, and the bytes' % ('byte' if kind == 'b' else 'unicode')
    return f

def read_text(ex):
    """short and long string layouts of any UTF-8 text decode to that text"""
    s = R.sym_str(ex, 's', 'u')
    u = R.utf8(ex, s); n = R.length(ex, u)
    if ex.choice(2):
        ex.assume(as_int(n) <= 65535); h = by(b'\x02', u16(n))
    else:
        ex.assume(as_int(n) < 2**32); h = by(b'\x0c', u32(n))
    d = Dec(ex, 0, by(h, u))
    r = d.read(); expect(ex, r, 'ok', 'read-text')
    same_value(ex, r[1], s, 'text-value'); d.consumed('text')

def lemmas(world, tier):
    L = lambda n, f, **k: Lemma('C04.' + n, f, contracts=TABLES, **k)
    return [L('write_const', write_const), L('read_const', read_const), L('write_number', write_number), L('read_number', read_number),
            L('write_bytes', write_text('b')), L('write_unicode', write_text('u')), L('read_text', read_text)]
