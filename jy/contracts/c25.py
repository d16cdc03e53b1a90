from contracts.graphs import *
import zlib

CHARSETS = ['utf-8', 'latin-1', 'utf-16-le', 'utf-16-be', 'ascii']
def chars(s, cs):
    try: return s.encode(cs)
    except UnicodeError: return None
def g_text(r, cs='utf-8'):
    s = g_uni(r)
    return s if chars(s, cs) is not None else g_uni(r, ascii=True)
INTS = {'Byte': (-128, 127), 'UnsignedByte': (0, 255), 'Short': (-32768, 32767), 'UnsignedShort': (0, 65535), 'Int': (-2**31, 2**31 - 1), 'UnsignedInt': (0, 2**32 - 1)}
SIZE = {'Byte': 1, 'UnsignedByte': 1, 'Short': 2, 'UnsignedShort': 2, 'Int': 4, 'UnsignedInt': 4, 'Float': 4, 'Double': 8, 'Boolean': 1}
def g_op(r):
    k = r.choice(sorted(INTS) * 2 + ['Boolean', 'Boolean', 'Float', 'Double', 'UTF', 'UTF', 'UTFBytes', 'MultiByte', 'Object', 'Object', 'Object'])
    if k in INTS: return k, g_int(r, *INTS[k])
    if k == 'Boolean': return k, bool(r.randrange(2))
    if k == 'Float': return k, struct.pack('!f', r.choice([0.0, 1.0, -1.5, 3.140625, 1e30, float('inf'), r.uniform(-1e6, 1e6)]))
    if k == 'Double': return k, pk(r.choice([g_float(r), float('inf'), float('nan'), -0.0]))
    if k in ('UTF', 'UTFBytes'): s = g_text(r); return k, s if r.randrange(3) else s.encode('utf-8')
    if k == 'MultiByte':
        cs = r.choice(CHARSETS); return k, (g_text(r, cs), cs)
    return k, g_val(r, 3, 2)
def g_seq(r): return r.choice(['array', 'array', 'pair', 'ext']), r.choice(['!', '!', '<', '>']), [g_op(r) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))]

ONES = [(k, v) for k in sorted(INTS) for v in sorted(set([INTS[k][0], INTS[k][0] + 1, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, INTS[k][1] - 1, INTS[k][1]])) if INTS[k][0] <= v <= INTS[k][1]] + [
    ('Boolean', True), ('Boolean', False), ('Float', struct.pack('!f', 1.5)), ('Float', struct.pack('!f', -0.0)), ('Double', pk(1.1)), ('Double', pk(float('nan'))), ('Double', pk(float('-inf')))] + [
    (k, v) for k in ('UTF', 'UTFBytes') for v in (u'', u'a', u'\xe9\u20ac\U0001f600', '\xc3\xa9', u'x' * 300, u'\u20ac' * 21845, u'\x00', u'\ufeffa')] + [
    ('MultiByte', (u'\xe9', c)) for c in CHARSETS[:4]] + [('MultiByte', (u'', 'ascii'))] + [
    ('Object', d) for d in [('null',), ('int', 5), ('uni', u'abc'), ('list', [('uni', u'abc'), ('uni', u'abc')]), ('dict', [('a', ('int', 1))]), ('obj', 'Plain', [('a', ('int', 1))]), ('obj', 'Static', [('sa', ('null',)), ('sb', ('null',))]), ('obj', 'Ext', [('a', ('int', 1)), ('b', ('uni', u'a'))]), ('ba', 'abc', 0)]]

def write(o, k, v):
    """performs one write; the value a read gives back and the number of bytes if known"""
    w = getattr(o, 'write' + k)
    if k in ('Float', 'Double'): v = struct.unpack('!f' if k == 'Float' else '!d', v)[0]
    if k == 'MultiByte': w(*v)
    elif k == 'Object': v = build(v, []); w(v)
    else: w(v)
    return v
def read(i, k, v):
    r = getattr(i, 'read' + k)
    if k == 'MultiByte': return r(len(v[0].encode(v[1])), v[1])
    if k == 'UTFBytes': return r(len(v.encode('utf-8') if isinstance(v, unicode) else v))
    return r()
def check(k, v, g, c):
    if k in INTS: ensure(type(g) in (int, long) and g == v, '%s %s read as %s', k, v, g)
    elif k == 'Boolean': ensure(g is v, '%s read as %s', v, g)
    elif k in ('Float', 'Double'): ensure(type(g) is float and (g != g and v != v or pk(g) == pk(v)), '%s %s read as %s', k, v, g)
    elif k == 'MultiByte': ensure(isinstance(g, unicode) and g == v[0], '%s read as %s', v, g)
    elif k in ('UTF', 'UTFBytes'):
        t = v if isinstance(v, unicode) else v.decode('utf-8')
        ensure((isinstance(g, unicode) or g == '') and g == t, '%s %s read as %s', k, v, g)
    else:
        x = same(v, g, c); ensure(x is None, '%s', x)
def width(k, v):
    if k in SIZE: return SIZE[k]
    if k == 'MultiByte': return len(v[0].encode(v[1]))
    if k == 'Object': return None
    return len(v.encode('utf-8') if isinstance(v, unicode) else v) + (2 if k == 'UTF' else 0)

class Rec(object):
    """writes and reads whatever it is told"""
    ops = None
    class __amf__: external = True
    def __writeamf__(self, o): Rec.sent = [(k, write(o, k, v)) for k, v in Rec.ops]
    def __readamf__(self, i):
        self.got = []
        for k, v in Rec.sent: self.got.append((k, v, read(i, k, v)))
pyamf.register_class(Rec, 'v.Rec')

@contract('C25', g_seq, [(w, e, [o]) for w in ('array', 'pair', 'ext') for e in ('!', '<') for o in ONES if not (e == '<' and w == 'ext')] +
    [(w, '!', ONES[-9:] + ONES[:50:5] + ONES[-9:]) for w in ('array', 'pair', 'ext')] + [('array', '!', [('Object', ('uni', u'abc')), ('Byte', 1), ('Object', ('uni', u'abc'))]), ('ext', '!', [('Object', ('uni', u'abc')), ('Byte', -1), ('Object', ('uni', u'abc'))])], shrink=True, weight=3)
def pairs(case):
    """a sequence of writes followed by the same reads gives the values back and consumes exactly what was written"""
    where, endian, ops = case
    if where == 'ext':
        Rec.ops = ops
        b, out, left = enc_dec([Rec(), u'end'], 3)
        ensure(left == 0 and out[1] == u'end', 'left %s, then %s', left, out[1])
        c = ctx(3)
        for k, v, g in out[0].got:
            check(k, v, g, c)
        return
    if where == 'array':
        o = i = amf3.ByteArray()
        o.endian = endian
    else:
        st = BufferedByteStream(); st.endian = endian
        o = amf3.DataOutput(encoder(3, stream=st)); i = amf3.DataInput(decoder(3, st))
    sent = []; pos = 0; at = []
    for k, v in ops:
        w = write(o, k, v); sent.append((k, w))
        n = o.stream.tell() - pos; pos += n; at.append(pos)
        ensure(o.stream.tell() == len(o.stream), 'something was overwritten')
        if width(k, w) is not None: ensure(n == width(k, w), '%s %s was written as %s bytes', k, w, n)
        if k in SIZE and k not in ('Float', 'Double', 'Boolean'):
            ensure(o.stream.getvalue()[pos - n:] == struct.pack(('<' if endian == '<' else '!') + {'Byte': 'b', 'UnsignedByte': 'B', 'Short': 'h', 'UnsignedShort': 'H', 'Int': 'i', 'UnsignedInt': 'I'}[k], w), '%s %s written as %s', k, w, o.stream.getvalue()[pos - n:])
    o.stream.seek(0)
    c = ctx(3)
    for j, (k, w) in enumerate(sent):
        g = read(i, k, w)
        check(k, w, g, ctx(3) if where == 'array' else c)
        ensure(i.stream.tell() == at[j], 'after reading %s the position is %s, not %s', k, i.stream.tell(), at[j])

@contract('C25', lambda r: (r.choice(sorted(INTS)), g_int(r)), [(k, v) for k in sorted(INTS) for lo, hi in [INTS[k]] for v in (lo - 1, hi + 1, lo - 1000, hi + 2**33, -2**70, 2**70)])
def out_of_range(case):
    """an integer out of range is refused and nothing is written"""
    k, v = case
    lo, hi = INTS[k]
    if lo <= v <= hi: return
    a = amf3.ByteArray('abc'); a.seek(3)
    raises(OverflowError, getattr(a, 'write' + k), v)
    ensure(a.getvalue() == 'abc' and a.tell() == 3, '%s', a.getvalue())

@contract('C25', None, [('Boolean', 1), ('Boolean', None), ('Boolean', u'x'), ('Byte', u'1'), ('UnsignedByte', None), ('Short', 1.5), ('UnsignedShort', '1'), ('Int', []), ('UnsignedInt', None), ('Float', u'x'), ('Double', 'y'), ('Double', None), ('UTF', 5), ('UTF', None), ('UTF', u'x' * 65536), ('UTF', u'\u20ac' * 21846)])
def refused(case):
    """a value of the wrong type is refused and nothing is written"""
    k, v = case
    for mk in (lambda: amf3.ByteArray('abc'), None):
        if mk: a = mk(); st = a
        else: st = BufferedByteStream('abc'); a = amf3.DataOutput(encoder(3, stream=st))
        st.seek(3)
        raises((TypeError, ValueError, OverflowError), getattr(a, 'write' + k), v)
        ensure(st.getvalue() == 'abc' and st.tell() == 3, '%s', st.getvalue())

@contract('C25', None, [(k, n) for k in sorted(SIZE) for n in range(SIZE[k])] + [('UTF', 0), ('UTF', 1), ('Object', 0)])
def cut(case):
    """reading past the end is an error and moves nothing"""
    k, n = case
    a = amf3.ByteArray('\x00\x05ab'[:n] if k == 'UTF' else '\x00' * n)
    raises((IOError, pyamf.EOStream), read, a, k, u'')
    ensure(a.tell() == 0 or k == 'UTF', 'the position is %s', a.tell())

def is_zlib(b):
    try: zlib.decompress(b); return True
    except zlib.error: return False
def g_content(r):
    k = r.randrange(6)
    b = g_bytes(r)
    if k == 0: b = '\x78\x9c' + b
    if k == 1: b = '\x78\xda' + b
    if k == 2: b = zlib.compress(b)[:-1]
    if k == 3: b = b * r.choice([10, 100])
    return b, bool(r.randrange(2)), r.randrange(4)
@contract('C25', g_content, [(b, z, n) for b in ('', 'a', 'abc', '\x00', '\x78', '\x78\x9c', '\x78\xda', '\x78\x9cabc', '\x78\xdaabc', 'x' * 63, 'x' * 64, 'x' * 127, 'x' * 128, 'x' * 20000, zlib.compress('abc')[:-1], '\x78\x01\x02', ''.join(map(chr, range(256)))) for z in (False, True) for n in (0, 1)], weight=2)
def byte_arrays(case):
    """a byte array is sent as its content, compressed if so marked, and received with equal content"""
    b, z, n = case
    if is_zlib(b): return
    a = amf3.ByteArray()
    a.write(b)
    if n & 1: a.seek(0)
    if z: a.compress()
    s = str(a)
    if z: ensure(s[:2] == '\x78\xda' and zlib.decompress(s) == b, 'compressed %s', s)
    else: ensure(s == b, '%s is sent as %s', b, s)
    ensure(a.getvalue() == b, 'the content changed')
    for enc in (0, 3):
        w = encode([a, a, u'end'] if n & 2 else a, encoding=enc).getvalue()
        if not n & 2: ensure(w == ('\x11' if enc == 0 else '') + '\x0c' + u29(len(s) << 1 | 1) + s, 'written as %s', w)
        d = decoder(enc, w); g = d.readElement()
        ensure(d.stream.at_eof(), 'bytes left')
        if n & 2: ensure(g[0] is g[1] and g[2] == u'end', '%s', g); g = g[0]
        ensure(type(g) is amf3.ByteArray and g.getvalue() == b and g.tell() == 0, '%s came back as %s at %s', b, g.getvalue(), g.tell())
        ensure(g == a and str(g) == s, '%s is sent again as %s', s, str(g))
    h = amf3.ByteArray(b)
    ensure(h.getvalue() == b and h.tell() == 0 and h == b, '%s', h.getvalue())

@contract('C25', lambda r: [g_val(r, 3, 2) for _ in range(r.randrange(1, 4))], [[('uni', u'abc'), ('uni', u'abc')], [('obj', 'Plain', []), ('obj', 'Plain', [])], [('list', [('uni', u'k')]), ('uni', u'k')]])
def nested_arrays(ds):
    """objects in a byte array stay readable after the array is sent, and do not mix with the message's own references"""
    a = amf3.ByteArray(); vs = []
    for d in ds:
        v = build(d, []); vs.append(v); a.writeObject(v)
    b, out, left = enc_dec([[vs, a, vs, u'abc', u'abc'], u'end'], 3)
    ensure(left == 0 and out[1] == u'end', '%s', out)
    g = out[0][1]
    ensure(out[0][3:] == [u'abc', u'abc'] and out[0][0] is out[0][2], '%s', out)
    x = same(vs, out[0][0], ctx(3)); ensure(x is None, '%s', x)
    for v in vs:
        x = same(v, g.readObject(), ctx(3)); ensure(x is None, '%s', x)
    ensure(g.at_eof(), 'bytes left in the array')
