from vals import *

EDGE = [('null',), ('undef',), ('bool', True), ('bool', False), ('uni', u''), ('str', ''), ('big', 63, 'a'), ('big', 64, 'a'), ('big', 8191, u'a'), ('big', 8192, 'b'),
        ('big', 4096, u'\xe9'), ('big', 70000, u'z'), ('big', 1048576, 'y'), ('big', 1048575, u'y'), ('float', pk(float('inf'))), ('float', pk(float('nan'))), ('float', pk(-0.0)), ('float', pk(1.0)),
        ('float', pk(2.0**28))] + [('int', b) for b in BOUND if abs(b) < 2**66]

@contract('C05', lambda r: g_scalar(r, 3), EDGE)
def scalar(d):
    """a scalar is written in the AMF3 layout of its type, decodes to the same value of that type and is consumed entirely"""
    v = build(d, [])
    b, out, left = enc_dec([v], 3)
    s = Spec3().one(v)
    if v == v: ensure(b == s, '%s encodes as %s, the layout is %s', v, b, s)
    e = same(v, out[0], ctx(3)); ensure(e is None, '%s', e)
    ensure(left == 0, '%s bytes left over', left)

def g_seq(r):
    pool = [g_uni(r, 4) for _ in range(r.randrange(1, 5))]
    out = []
    for _ in range(r.randrange(2, 14)):
        if r.randrange(3): u = r.choice(pool); out.append(('uni', u) if r.randrange(2) else ('str', u.encode('utf-8')))
        else: out.append(g_scalar(r, 3))
    return out
@contract('C05', g_seq, [[('uni', u'a'), ('str', 'a'), ('str', ''), ('uni', u''), ('uni', u'a')], [('str', 's%d' % (i % 70)) for i in range(140)],
                         [('uni', u'\xe9'), ('str', '\xc3\xa9'), ('uni', u'\xe9')]])
def sequence(ds):
    """in a message, a non-empty string is inline once and a reference afterwards, an empty one never a reference; all decode"""
    vs = [build(d, []) for d in ds]
    sp = Spec3()
    want = ''.join(sp.one(v) for v in vs)
    b, out, left = enc_dec(vs, 3)
    if all(v == v for v in vs): ensure(b == want, '%s encode as %s, the layout is %s', vs, b, want)
    for v, w in zip(vs, out):
        e = same(v, w, ctx(3)); ensure(e is None, '%s', e)
    ensure(left == 0, '%s bytes left over', left)
    for strict in (True, False):
        b2 = encode(*vs, encoding=3, strict=strict).getvalue()
        ensure(b2 == b, 'the encoding depends on strict')

@contract('C05', lambda r: r.choice([64, 65, 100, 8191, 8193, 300]), [64, 65, 8192, 8193])
def many_strings(n):
    """string references stay right past every size of index"""
    vs = [u'k%d' % i for i in range(n)]
    vs += vs[-3:] + vs[:2] + [vs[n // 2]]
    sp = Spec3(); 
    idx = dict((v, i) for i, v in enumerate(vs[:n]))
    want = ''.join('\x06' + u29(len(v) << 1 | 1) + str(v) for v in vs[:n]) + ''.join('\x06' + u29(idx[v] << 1) for v in vs[n:])
    b, out, left = enc_dec(vs, 3)
    ensure(b == want, 'the layout of %s strings is wrong', n)
    ensure(out == vs and left == 0, 'the %s strings decode as something else', n)
many_strings.limit = 3

@contract('C05', lambda r: [g_date(r) if r.randrange(3) else ('ref', r.randrange(5)) for _ in range(r.randrange(1, 5))], [[('date', (1970, 1, 1, 0, 0, 0, 0)), ('date', (1970, 1, 1, 0, 0, 0, 0))]])
def dates(ds):
    """a date is its UTC milliseconds inline, decodes to the same instant; the same date object again is a reference to it"""
    vs = []
    for d in ds:
        if d[0] == 'ref': vs.append(vs[d[1] % len(vs)] if vs else datetime.datetime(2000, 1, 1))
        else: vs.append(build(d, []))
    b, out, left = enc_dec(vs, 3)
    p = 0; seen = []
    for v in vs:
        ensure(b[p] == '\x08', 'date marker at %s of %s', p, b)
        k = [i for i, s in enumerate(seen) if s is v]
        if k:
            ensure(b[p + 1] == chr(k[0] << 1), 'date reference %s', b); p += 2
        else:
            seen.append(v)
            ensure(b[p + 1] == '\x01', 'date header %s', b)
            ms = struct.unpack('!d', b[p + 2:p + 10])[0]
            ensure(abs(ms - ms_of(v)) < 0.5, '%s is written as %s ms', v, ms); p += 10
    ensure(p == len(b) and left == 0, 'extra bytes')
    for v, w in zip(vs, out):
        e = same(v, w, ctx(3)); ensure(e is None, '%s', e)

@contract('C05', lambda r: (g_bytes(r), r.randrange(2)), [('', 0), ('x' * 63, 0), ('x' * 64, 0), ('x' * 8192, 0), ('\x00\xff' * 100, 1), ('', 1), ('a', 1)])
def byte_array(c):
    """a byte array decodes to a byte array with the same content, alone, between other values and repeated"""
    s, comp = c
    a = build(('ba', s, comp), [])
    b, out, left = enc_dec([a, u'q', a], 3)
    ensure(left == 0 and type(out[0]) is amf3.ByteArray and out[0].getvalue() == s, 'byte array %s decodes as %s', s, out[0])
    ensure(out[1] == u'q' and out[2] is out[0], 'values behind a byte array: %s', out)
    if not comp and s[:2] != '\x78\x9c': ensure(b[:1] + b[1:] == '\x0c' + u29(len(s) << 1 | 1) + s + '\x06\x03q\x0c\x00', 'byte array layout %s', b)

def g_raw(r):
    k = r.randrange(4)
    if k == 0: return '\x05' + ''.join(chr(r.randrange(256)) for _ in range(8))
    if k == 1: return '\x04' + u29(r.getrandbits(29))
    if k == 2: s = g_uni(r).encode('utf-8'); return '\x06' + u29(len(s) << 1 | 1) + s
    return '\x08\x01' + struct.pack('!d', float(r.randrange(-6 * 10**13, 2 * 10**14)))
@contract('C05', g_raw)
def incoming(b):
    """data in the layout, written by any encoder, decodes to the value it denotes"""
    dec = decoder(3, b + '\x01')
    v = dec.readElement()
    ensure(dec.stream.tell() == len(b), '%s of %s bytes consumed', dec.stream.tell(), len(b))
    if b[0] == '\x05':
        f = struct.unpack('!d', b[1:])[0]
        ensure(type(v) is float and (v == f or (v != v and f != f)), 'number %s decodes as %s', f, v)
    elif b[0] == '\x04':
        n = amf3.decode_int(BufferedByteStream(b[1:]), False)
        if n >= 2**28: n -= 2**29
        ensure(v == n, 'integer %s decodes as %s', b, v)
    elif b[0] == '\x06': ensure(Spec3().one(v) == b, 'string %s decodes as %s', b, v)
    else:
        w = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=struct.unpack('!d', b[2:])[0])
        ensure(abs(v - w) < datetime.timedelta(milliseconds=1), 'date %s decodes as %s', w, v)
