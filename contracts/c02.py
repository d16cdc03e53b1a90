"""Deductive part: each typed writer and reader of the byte stream is proved against the byte layout of its type, for every
value in range, every byte order, every content and every position; refusals are proved to write nothing.  A finite double's
eight (single's four) bytes are one uninterpreted chunk per value and byte order (the models of struct 'd' and 'f'); nan and
the infinities are exact bytes."""
from .lib import *

INT = {'uchar': (1, False), 'char': (1, True), 'ushort': (2, False), 'short': (2, True), '24bit_uint': (3, False), '24bit_int': (3, True),
       'ulong': (4, False), 'long': (4, True)}
ORDERS = (b'!', b'>', b'<', b'@')

def setup(ex, order):
    b = BS(ex)
    if order != b'!': I.setattr_(ex, b.st, 'endian', order)
    return b

def big(order): return order != b'<'       # the running interpreter is big-endian natively

def layout(t, size, order):
    bs = [R.Ch(z3.simplify((t / 2**(8 * i)) % 256)) for i in range(size)]
    return R.mk('b', bs[::-1] if big(order) else bs)

def bounds(size, signed):
    return (-2**(8 * size - 1), 2**(8 * size - 1) - 1) if signed else (0, 2**(8 * size) - 1)

def write_int(kind, size, signed):
    def f(ex):
        order = ORDERS[ex.choice(4)]
        lo, hi = bounds(size, signed)
        v = ex.int('v', lo, hi)
        b = setup(ex, order)
        expect(ex, result(ex, lambda: meth(ex, b.st, 'write_' + kind, v)), 'ok', 'write-%s' % kind)
        b.check(splice(ex, b.c, b.p, layout(v.t, size, order)), tint(as_int(b.p) + size), 'write-%s' % kind)
    f.__doc__ = 'write_%s(v) for every v in range, order, content and position: exactly %d bytes in that order at the position' % (kind, size)
    return f

def read_int(kind, size, signed):
    def f(ex):
        order = ORDERS[ex.choice(4)]
        lo, hi = bounds(size, signed)
        v = ex.int('v', lo, hi)
        pre = R.sym_str(ex, 'before'); post = R.sym_str(ex, 'after')
        p = R.length(ex, pre)
        b = BS(ex, R.concat(ex, R.concat(ex, pre, layout(v.t, size, order)), post), as_int(p))
        if order != b'!': I.setattr_(ex, b.st, 'endian', order)
        r = result(ex, lambda: meth(ex, b.st, 'read_' + kind))
        expect(ex, r, 'ok', 'read-%s' % kind)
        ex.prove(as_int(r[1]) == v.t, 'read-%s-value' % kind)
        b.check(b.c, tint(as_int(p) + size), 'read-%s' % kind)
    f.__doc__ = 'read_%s on the %d bytes of any value in range, in any order, with anything around them: that value, exactly those bytes' % (kind, size)
    return f

def short_read(kind, size):
    def f(ex):
        order = ORDERS[ex.choice(4)]
        b = setup(ex, order)
        ex.assume(as_int(R.length(ex, b.c)) - as_int(b.p) < size)
        expect(ex, result(ex, lambda: meth(ex, b.st, 'read_' + kind)), 'IOError', 'short-%s' % kind)
        b.check(b.c, b.p, 'short-%s' % kind)
    f.__doc__ = 'read_%s with fewer than %d bytes left: IOError, nothing consumed' % (kind, size)
    return f

def refuse_int(kind, size, signed):
    def f(ex):
        order = ORDERS[ex.choice(2) * 2]
        lo, hi = bounds(size, signed)
        b = setup(ex, order)
        w = ex.choice(7)
        if w == 0:
            v = ex.int('v'); ex.assume(z3.Or(v.t < lo, v.t > hi)); want = 'OverflowError'
        else:
            v = (None, R.sym_str(ex, 's'), R.sym_str(ex, 's', 'u'), SymFloat(z3.Real(ex.fresh('x'))), ex.bool('b'), I.new_list(ex))[w - 1]
            want = 'TypeError'
        expect(ex, result(ex, lambda: meth(ex, b.st, 'write_' + kind, v)), want, 'refuse-%s' % kind)
        b.check(b.c, b.p, 'refuse-%s' % kind)
    f.__doc__ = 'write_%s of an integer out of range: OverflowError; of another type (booleans included): TypeError; nothing written' % kind
    return f

def fchunk(ex, kind, x, order):
    return R.mk('b', bi.pack_float(ex, 'd' if kind == 'double' else 'f', x, big(order)))

def floats(ex):
    w = ex.choice(4)
    return (SymFloat(z3.Real(ex.fresh('x'))), float('nan'), float('inf'), float('-inf'))[w]

def write_float(kind, size):
    def f(ex):
        order = ORDERS[ex.choice(4)]
        x = floats(ex)
        b = setup(ex, order)
        expect(ex, result(ex, lambda: meth(ex, b.st, 'write_' + kind, x)), 'ok', 'write-%s' % kind)
        if isinstance(x, float) and x != x:
            # any of the bit patterns of nan
            got = buf(ex, b.st)
            ch = R.slice_(ex, got, b.p, tint(as_int(b.p) + size))
            y = bi.st_unpack(ex, [(b'>' if big(order) else b'<') + (b'd' if kind == 'double' else b'f'), ch], {})[0]
            ex.prove(isinstance(y, float) and y != y, 'write-%s-nan' % kind)
            b.check(splice(ex, b.c, b.p, ch), tint(as_int(b.p) + size), 'write-%s' % kind)
            return
        b.check(splice(ex, b.c, b.p, fchunk(ex, kind, x, order)), tint(as_int(b.p) + size), 'write-%s' % kind)
    f.__doc__ = 'write_%s(x) for every double: exactly %d bytes, the IEEE layout of x (rounded to single) in that order' % (kind, size)
    return f

def read_float(kind, size):
    def f(ex):
        order = ORDERS[ex.choice(4)]
        x = floats(ex)
        pre = R.sym_str(ex, 'before'); post = R.sym_str(ex, 'after')
        p = R.length(ex, pre)
        b = BS(ex, R.concat(ex, R.concat(ex, pre, fchunk(ex, kind, x, order)), post), as_int(p))
        if order != b'!': I.setattr_(ex, b.st, 'endian', order)
        r = result(ex, lambda: meth(ex, b.st, 'read_' + kind))
        expect(ex, r, 'ok', 'read-%s' % kind)
        y = r[1]
        if isinstance(x, float): ex.prove(isinstance(y, float) and (x == y or (x != x and y != y)), 'read-%s-special' % kind, repr(y))
        else:
            want = x.t
            if kind == 'float':
                if not ex.branch(z3.And(x.t < z3.Q(2**128 - 2**103, 1), x.t > -z3.Q(2**128 - 2**103, 1))):
                    ex.prove(isinstance(y, float) and y in (float('inf'), float('-inf')), 'read-float-overflow'); return
                want = bi.F32(z3.simplify(x.t))
            ex.prove(isinstance(y, SymFloat), 'read-%s-finite' % kind, repr(y))
            ex.prove(y.t == want, 'read-%s-value' % kind)
        b.check(b.c, tint(as_int(p) + size), 'read-%s' % kind)
    f.__doc__ = 'read_%s on the bytes of any double in any order: that double (rounded to single), exactly those bytes' % kind
    return f

def refuse_float(kind):
    def f(ex):
        b = setup(ex, ORDERS[ex.choice(2) * 2])
        w = ex.choice(5)
        v = (None, R.sym_str(ex, 's'), R.sym_str(ex, 's', 'u'), ex.int('i'), ex.bool('b'))[w]
        expect(ex, result(ex, lambda: meth(ex, b.st, 'write_' + kind, v)), 'TypeError', 'refuse-%s' % kind)
        b.check(b.c, b.p, 'refuse-%s' % kind)
    f.__doc__ = 'write_%s of anything but a float: TypeError, nothing written' % kind
    return f

def write_utf8(ex):
    """write_utf8_string(s) writes exactly the bytes of s (its UTF-8 form for unicode); anything else is a TypeError"""
    b = setup(ex, ORDERS[ex.choice(2) * 2])
    w = ex.choice(4)
    if w >= 2:
        expect(ex, result(ex, lambda: meth(ex, b.st, 'write_utf8_string', None if w == 2 else ex.int('i'))), 'TypeError', 'refuse-utf8')
        b.check(b.c, b.p, 'refuse-utf8'); return
    s = R.sym_str(ex, 's', 'bu'[w])
    expect(ex, result(ex, lambda: meth(ex, b.st, 'write_utf8_string', s)), 'ok', 'write-utf8')
    e = utf8_of(ex, s)
    b.check(splice(ex, b.c, b.p, e), tint(as_int(b.p) + as_int(R.length(ex, e))), 'write-utf8')

def read_utf8(ex):
    """read_utf8_string(length of the UTF-8 form of u) on those bytes gives u and consumes exactly them"""
    u = R.sym_str(ex, 'u', 'u'); e = R.utf8(ex, u)
    pre = R.sym_str(ex, 'before'); post = R.sym_str(ex, 'after')
    p = R.length(ex, pre); n = R.length(ex, e)
    b = BS(ex, R.concat(ex, R.concat(ex, pre, e), post), as_int(p))
    r = result(ex, lambda: meth(ex, b.st, 'read_utf8_string', mkint(as_int(n))))
    expect(ex, r, 'ok', 'read-utf8')
    same_bytes(ex, r[1], u, 'read-utf8-text')
    b.check(b.c, tint(as_int(p) + as_int(n)), 'read-utf8')

def lemmas(world, tier):
    out = []
    for k, (n, s) in sorted(INT.items()):
        out += [Lemma('C02.write_%s' % k, write_int(k, n, s)), Lemma('C02.read_%s' % k, read_int(k, n, s)), Lemma('C02.short_%s' % k, short_read(k, n)),
                Lemma('C02.refuse_%s' % k, refuse_int(k, n, s))]
    for k, n in (('double', 8), ('float', 4)):
        out += [Lemma('C02.write_%s' % k, write_float(k, n)), Lemma('C02.read_%s' % k, read_float(k, n)), Lemma('C02.short_%s' % k, short_read(k, n)),
                Lemma('C02.refuse_%s' % k, refuse_float(k))]
    out += [Lemma('C02.write_utf8', write_utf8), Lemma('C02.read_utf8', read_utf8)]
    return out
