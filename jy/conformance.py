# Compares the builtin models of pyvc with this interpreter: each line is (expression, expected value) as the model has it.
import struct, sys, datetime, calendar, zlib
from cStringIO import StringIO
EXPECT = [
    ("type(2**31-1) is int and type(2**31) is long and type(-2**31) is int", True),
    ("sys.byteorder", 'big'),
    ("struct.pack('@H', 1)", '\x00\x01'),
    ("struct.pack('!h', -2)", '\xff\xfe'), ("struct.pack('<L', 0x01020304)", '\x04\x03\x02\x01'),
    ("struct.pack('B', 200)", '\xc8'), ("struct.pack('>l', -2**31)", '\x80\x00\x00\x00'),
    ("struct.pack('!d', 1.5)", '?\xf8\x00\x00\x00\x00\x00\x00'), ("struct.pack('<d', 1.5)", '\x00\x00\x00\x00\x00\x00\xf8?'),
    ("struct.pack('!d', float('nan'))", '\x7f\xf8\x00\x00\x00\x00\x00\x00'),
    ("struct.pack('>f', 1e300)", '\x7f\x80\x00\x00'), ("struct.pack('!3s', 'abc')", 'abc'), ("struct.pack('!2s', 'abc')", 'ab'),
    ("type(struct.unpack('>L', '\\0\\0\\0\\1')[0]) is long", True), ("type(struct.unpack('>H', '\\0\\1')[0]) is int", True),
    ("struct.unpack('!h', '\\xff\\xfe')", (-2,)), ("struct.unpack('<l', '\\xfe\\xff\\xff\\xff')", (-2,)),
    ("len(struct.pack('@l', 1)), len(struct.pack('@L', 1)), len(struct.pack('@h', 1)), len(struct.pack('@q', 1)), len(struct.pack('@d', 1.0))", (4, 4, 2, 8, 8)),
    ("hasattr(StringIO(), 'len')", False),
    ("'a' == u'a' and '\\xe9' != u'\\xe9'", True), ("len(u'\\U0001f600')", 1),
    ("str(float('nan')), str(float('inf')), str(float('-inf'))", ('nan', 'inf', '-inf')),
    ("-7 // 2, -7 % 2, -1 >> 1, -1 & 0xff, 5 | -8", (-4, 1, -1, 255, -3)),
    ("int(3.9), int(-3.9), type(int(3.0)) is int", (3, -3, True)),
    ("u'\\xe9'.encode('utf-8'), '\\xc3\\xa9'.decode('utf-8')", ('\xc3\xa9', u'\xe9')),
    ("bool(''), bool(u''), bool(0.0), bool([]), bool({}), bool(())", (False,) * 6),
    ("{1: 2}.get(1.0), {1: 2}.get(True), {'a': 1}.get(u'a')", (2, 2, 1)),
    ("xrange(3)[2], list(xrange(2, 4))", (2, [2, 3])),
    ("'%s%ds' % ('!', 5)", '!5s'),
    ("datetime.datetime.utcfromtimestamp(0.25)", datetime.datetime(1970, 1, 1, 0, 0, 0, 250000)),
    ("datetime.datetime.utcfromtimestamp(-1.5)", datetime.datetime(1969, 12, 31, 23, 59, 58, 500000)),
    ("calendar.timegm(datetime.datetime(1969, 12, 31, 23, 59, 58, 500000).utctimetuple())", -2),
    ("datetime.datetime(2000,1,1) + datetime.timedelta(seconds=1.5)", datetime.datetime(2000, 1, 1, 0, 0, 1, 500000)),
    ("sorted(set([1, 2]) - set([2])), sorted(set([1]).union([2]))", ([1], [1, 2])),
    ("[zlib.compress(c)[:2] for c in ('', 'a', 'ab' * 9000)]", ['\x78\x9c'] * 3),
    ("[zlib.decompress(h + zlib.compress(c)[2:]) == c for c in ('', 'a', 'ab' * 9000) for h in ('\x78\x9c', '\x78\xda', '\x78\x01', '\x78\x5e')]", [True] * 12),
    ("isinstance(True, int), type(True) is int, 2**70 % 256", (True, False, 0)),
]
def stream():
    s = StringIO(); s.write('abcdef'); s.seek(2); a = s.read(2); b = s.tell(); s.write('XY'); c = s.getvalue(); s.seek(-1, 2); d = s.read()
    s.seek(0); s.seek(3, 1); e = s.tell(); s.seek(6); f = s.read(); s.write(u'abc'); g = s.getvalue()
    return (a, b, c, d, e, f, g)
def raises(f, *a):
    try: f(*a)
    except Exception as e: return e.__class__.__name__
    return None
def run(seed):
    bad = []; n = 0
    env = {'struct': struct, 'sys': sys, 'StringIO': StringIO, 'zlib': zlib, 'datetime': datetime, 'calendar': calendar}
    for e, want in EXPECT:
        n += 1
        got = eval(e, env)
        if got != want: bad.append('%s = %r, the model says %r' % (e, got, want))
    n += 1
    if stream() != ('cd', 4, 'abcdXY', 'Y', 3, '', 'abcdXYabc'): bad.append('cStringIO: %r' % (stream(),))
    for f, a, want in [(struct.unpack, ('!L', 'abc'), 'error'), (struct.pack, ('!L', 'x'), 'error'), ('\xff'.decode, ('utf-8',), 'UnicodeDecodeError'),
                       (u'\xe9'.encode, ('ascii',), 'UnicodeEncodeError'), (lambda: '\xe9' + u'a', (), 'UnicodeDecodeError'),
                       (int, (float('nan'),), 'ValueError'), (float, (10**400,), 'OverflowError'), (ord, ('ab',), 'TypeError'),
                       (chr, (256,), 'ValueError'), (StringIO().write, (1,), 'TypeError'), (lambda: {}[[]], (), 'TypeError'),
                       ('\xed\xa0\x80'.decode, ('utf-8',), 'UnicodeDecodeError'), ('\xc0\x80'.decode, ('utf-8',), 'UnicodeDecodeError')]:
        n += 1
        g = raises(f, *a)
        if g != want: bad.append('%r: raises %s, the model says %s' % (a, g, want))
    return {'compared': n, 'mismatches': bad}
