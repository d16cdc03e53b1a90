from hlib import *
import pyamf
from pyamf import amf3, util

def s_enc(n):
    """the AMF3 specification of a 29-bit integer"""
    n &= 0x1fffffff
    if n < 0x80: return chr(n)
    if n < 0x4000: return chr(0x80 | n >> 7) + chr(n & 0x7f)
    if n < 0x200000: return chr(0x80 | n >> 14) + chr(0x80 | n >> 7 & 0x7f) + chr(n & 0x7f)
    return chr(0x80 | n >> 22) + chr(0x80 | n >> 15 & 0x7f) + chr(0x80 | n >> 8 & 0x7f) + chr(n & 0xff)

def g29(r):
    k = r.randrange(3)
    if k == 0: return r.randrange(-2**28, 2**28)
    if k == 1: return max(-2**28, min(2**28 - 1, (1 << r.randrange(0, 29)) * r.choice((1, -1)) + r.randrange(-2, 3)))
    return r.randrange(-2000, 40000)

EDGE = [b for b in BOUND if -2**28 <= b < 2**28] + [-2**28, 2**28 - 1]

@contract('C01', g29, EDGE)
def roundtrip_signed(n):
    """decode_int(encode_int(n), signed) == n for every signed 29-bit n, consuming exactly the encoding, on any call"""
    for _ in (0, 1):      # the second call answers from the cache
        e = amf3.encode_int(n)
        ensure(type(e) is str, 'encode_int(%s) is not a byte string: %s', n, e)
        ensure(e == s_enc(n), 'encode_int(%s) = %s, the specification says %s', n, e, s_enc(n))
        st = util.BufferedByteStream(e + 'rest')
        v = amf3.decode_int(st, True)
        ensure(v == n, 'decode_int(encode_int(%s)) = %s', n, v)
        ensure(st.tell() == len(e), 'decoding consumed %s of %s bytes', st.tell(), len(e))
        if n >= 0:
            st = util.BufferedByteStream(e)
            v = amf3.decode_int(st, False)
            ensure(v == n, 'unsigned decode_int(encode_int(%s)) = %s', n, v)

@contract('C01', lambda r: r.getrandbits(r.choice((7, 14, 21, 29, 29))), [0, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x1fffffff])
def decode_unsigned(u):
    """every unsigned 29-bit value decodes from its specified encoding, signed and unsigned"""
    b = s_enc(u)
    st = util.BufferedByteStream(b + '\xff')
    v = amf3.decode_int(st)
    ensure(v == u, 'unsigned decoding of %s gives %s, expected %s', b, v, u)
    ensure(st.tell() == len(b), 'position %s after a %s-byte integer', st.tell(), len(b))
    st = util.BufferedByteStream(b)
    v = amf3.decode_int(st, True)
    w = u - 0x20000000 if u & 0x10000000 else u
    ensure(v == w, 'signed decoding of %s gives %s, expected %s', b, v, w)

@contract('C01', lambda r: r.choice((1, -1)) * r.randrange(2**28, 2**r.randrange(29, 70)), [2**28, -2**28 - 1, 2**29, 2**31, -2**31, 2**32, 2**64, -2**64])
def range_refused(n):
    """integers outside the signed 29-bit range are refused with OverflowError (every time), never truncated"""
    if -2**28 <= n < 2**28: return
    for _ in (0, 1): raises(OverflowError, amf3.encode_int, n)

def g_seq(r): return [g29(r) for _ in range(r.randrange(1, 12))]
@contract('C01', g_seq, [[0, -1, 1], [200, 200, -200, 0x1fffffff >> 1], [2097152, 2097151, -2097152, 268435455, -268435456]])
def history(ns):
    """the answer does not depend on what was encoded before; consecutive integers decode in order"""
    e = [amf3.encode_int(n) for n in ns]
    st = util.BufferedByteStream(''.join(e))
    for n in ns:
        v = amf3.decode_int(st, True)
        ensure(v == n, 'sequence %s decoded %s for %s', ns, v, n)
    ensure(st.at_eof(), 'bytes left over')

def g_element(r): return g29(r) if r.randrange(3) else r.choice([-2**28 - 1, 2**28, 2**40, -2**40, 2**28 + r.randrange(9)])
@contract('C01', g_element, EDGE + [2**28, -2**28 - 1])
def element(n):
    """as AMF3 elements, integers of the 29-bit range use the integer type and all others the number type"""
    b = pyamf.encode(n, encoding=pyamf.AMF3).getvalue()
    if -2**28 <= n < 2**28: ensure(b == '\x04' + s_enc(n), 'element %s encodes as %s', n, b)
    else: ensure(b[0] == '\x05' and len(b) == 9, 'element %s encodes as %s', n, b)
    v = list(pyamf.decode(b, encoding=pyamf.AMF3))
    ensure(v == [n], 'element %s decodes as %s', n, v)

@contract('C01', lambda r: ''.join(chr(0x80 | r.randrange(128)) for _ in range(r.randrange(0, 4))), ['', '\x80', '\x81\x82', '\x81\x82\x83'])
def truncated(b):
    """an integer cut short is an IOError"""
    for signed in (True, False):
        raises(IOError, amf3.decode_int, util.BufferedByteStream(b), signed)
