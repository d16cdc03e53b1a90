from vals import *

EDGE = [('null',), ('undef',), ('bool', True), ('bool', False), ('int', 0), ('int', 2**53), ('int', -2**53 - 1), ('int', 2**62), ('uni', u''), ('str', ''),
        ('big', 65535, 'a'), ('big', 65536, 'a'), ('big', 65534, u'a'), ('big', 65537, u'b'), ('big', 32767, u'\xe9'), ('big', 32768, u'\xe9'),
        ('big', 21845, u'\u20ac'), ('big', 21846, u'\u20ac'), ('big', 16383, u'\U00010000'), ('big', 16384, u'\U00010000'), ('big', 200000, u'z'),
        ('float', pk(float('inf'))), ('float', pk(float('-inf'))), ('float', pk(float('nan'))), ('float', pk(-0.0)), ('float', pk(5e-324)),
        ('float', pk(1.7976931348623157e308)), ('float', pk(2.0**63)), ('float', pk(-2.0**31)), ('float', pk(0.1))] + [('int', b) for b in BOUND if abs(b) < 2**66]

@contract('C04', lambda r: g_scalar(r, 0), EDGE)
def scalar(d):
    """a scalar is written in the AMF0 layout of its type, decodes to the same value and is consumed entirely"""
    v = build(d, [])
    b, out, left = enc_dec([v], 0)
    if v == v: ensure(b == spec0(v), '%s encodes as %s, the layout is %s', v, b, spec0(v))
    e = same(v, out[0], ctx(0)); ensure(e is None, '%s', e)
    ensure(left == 0, '%s bytes left over', left)

@contract('C04', g_date, [('date', (1970, 1, 1, 0, 0, 0, 0)), ('date', (1969, 12, 31, 23, 59, 59, 999000)), ('date', (1, 1, 1, 0, 0, 0, 0)), ('date', (9999, 12, 28, 23, 59, 59, 0))])
def date(d):
    """a date is 0x0B, its UTC milliseconds as a double and a zero timezone, and decodes to the same instant"""
    v = build(d, [])
    b, out, left = enc_dec([v], 0)
    ensure(len(b) == 11 and b[0] == '\x0b' and b[9:] == '\0\0', 'date layout %s', b)
    ms = struct.unpack('!d', b[1:9])[0]
    ensure(abs(ms - ms_of(v)) < 0.5, '%s is written as %s ms, expected %s', v, ms, ms_of(v))
    e = same(v, out[0], ctx(0)); ensure(e is None, '%s', e)
    ensure(left == 0, '%s bytes left over', left)

@contract('C04', lambda r: [g_scalar(r, 0) if r.randrange(6) else g_date(r) for _ in range(r.randrange(2, 10))])
def sequence(ds):
    """several scalars in one message decode to the same sequence, each consumed exactly"""
    vs = [build(d, []) for d in ds]
    st = encode(*vs, encoding=0)
    dec = decoder(0, st.getvalue())
    for v in vs:
        one = encode(v, encoding=0).getvalue()
        p = dec.stream.tell()
        ensure(st.getvalue()[p:p + len(one)] == one, '%s encodes differently behind %s', v, vs)
        w = dec.readElement()
        ensure(dec.stream.tell() == p + len(one), 'decoding %s consumed %s bytes of %s', v, dec.stream.tell() - p, len(one))
        e = same(v, w, ctx(0)); ensure(e is None, '%s', e)
    raises(StopIteration, dec.next)

def g_raw(r):
    k = r.randrange(5)
    if k == 0: return '\x00' + ''.join(chr(r.randrange(256)) for _ in range(8))
    if k == 1: return '\x01' + chr(r.randrange(256))
    if k == 2: s = g_uni(r).encode('utf-8'); return '\x0c' + struct.pack('!L', len(s)) + s
    if k == 3: return r.choice(['\x05', '\x06', '\x0d'])
    return '\x0b' + struct.pack('!dh', float(r.randrange(-6 * 10**13, 2 * 10**14)), r.randrange(-720, 720))
@contract('C04', g_raw)
def incoming(b):
    """data in the layout, written by any encoder, decodes to the value it denotes"""
    dec = decoder(0, b + '\x05')
    v = dec.readElement()
    ensure(dec.stream.tell() == len(b), '%s of %s bytes consumed', dec.stream.tell(), len(b))
    if b[0] == '\x00':
        f = struct.unpack('!d', b[1:])[0]
        ensure(v == f or (v != v and f != f), 'number %s decodes as %s', f, v)
    elif b[0] == '\x01': ensure(v is (b[1] != '\0'), 'boolean %s decodes as %s', b, v)
    elif b[0] == '\x0c': ensure(v == b[5:].decode('utf-8') and isinstance(v, unicode), 'long string %s decodes as %s', b, v)
    elif b[0] in '\x05\x0d': ensure(v is None, 'null decodes as %s', v)
    elif b[0] == '\x06': ensure(v is pyamf.Undefined, 'undefined decodes as %s', v)
    else:
        ms = struct.unpack('!d', b[1:9])[0]
        w = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=ms)
        ensure(abs(v - w) < datetime.timedelta(milliseconds=1), 'date %s decodes as %s', w, v)
