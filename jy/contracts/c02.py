from hlib import *
from pyamf import util
import struct

INTS = {'uchar': (1, 0), 'char': (1, 1), 'ushort': (2, 0), 'short': (2, 1), '24bit_uint': (3, 0), '24bit_int': (3, 1), 'ulong': (4, 0), 'long': (4, 1)}
ENDS = ['!', '@', '<', '>']
import sys
BIG = {'!': True, '>': True, '<': False, '@': struct.pack('@H', 1) == '\x00\x01'}

def lay(v, n, big):
    v &= (1 << 8 * n) - 1
    bs = [chr(v >> 8 * i & 0xff) for i in range(n)]
    return ''.join(bs[::-1] if big else bs)

def rng(k):
    n, s = INTS[k]
    return (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)

def mk(content, pos, end):
    st = util.BufferedByteStream(content)
    st.endian = end
    st.seek(pos)
    return st

def edges(k):
    lo, hi = rng(k)
    return sorted(set([lo, lo + 1, -1, 0, 1, hi - 1, hi, hi >> 1, (hi >> 1) + 1, 0x12, 0x1234 if hi > 0x1234 else 1, 0x123456 if hi > 0x123456 else 2]) & set(range(lo, lo + 3) + [-1, 0, 1, 2, 0x12, hi - 1, hi, hi >> 1, (hi >> 1) + 1, 0x1234, 0x123456])) if hi < 2**31 else [lo, lo + 1, 0, 1, 0x12345678, 0x7fffffff, hi]

def g(r):
    k = r.choice(sorted(INTS)); lo, hi = rng(k)
    j = r.randrange(3)
    v = r.randrange(lo, hi + 1) if j == 0 else g_int(r, lo, hi)
    c = g_bytes(r, 9)
    return (k, r.choice(ENDS), v, c, r.randrange(0, len(c) + 1))

@contract('C02', g, [(k, e, v, '', 0) for k in sorted(INTS) for e in ENDS for v in edges(k) if rng(k)[0] <= v <= rng(k)[1]] +
          [(k, e, rng(k)[0], 'abcdef', 2) for k in sorted(INTS) for e in ENDS])
def integers(c):
    """an in-range integer is written in exactly its width and byte order, over what is there, and reads back"""
    k, end, v, content, pos = c
    n, _ = INTS[k]
    st = mk(content, pos, end)
    getattr(st, 'write_' + k)(v)
    want = content[:pos] + lay(v, n, BIG[end]) + content[pos + n:]
    ensure(st.getvalue() == want, 'write_%s(%s) (%s) at %s gives %s, expected %s', k, v, end, pos, st.getvalue(), want)
    ensure(st.tell() == pos + n, 'position %s after writing at %s', st.tell(), pos)
    ensure(len(st) == len(want), 'length %s, expected %s', len(st), len(want))
    st.seek(pos)
    w = getattr(st, 'read_' + k)()
    ensure(w == v and isinstance(w, (int, long)), 'read_%s gives %s for %s (%s)', k, w, v, end)
    ensure(st.tell() == pos + n, 'position %s after reading at %s', st.tell(), pos)
    ensure(st.getvalue() == want, 'reading changed the content')

def g_raw(r):
    k = r.choice(sorted(INTS)); n = INTS[k][0]
    return (k, r.choice(ENDS), ''.join(chr(r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])) for _ in range(n)), g_bytes(r, 4))
@contract('C02', g_raw)
def raw(c):
    """every byte pattern reads as the number it denotes"""
    k, end, b, pre = c
    n, s = INTS[k]
    x = 0
    for ch in (b if BIG[end] else b[::-1]): x = x << 8 | ord(ch)
    if s and x >> 8 * n - 1: x -= 1 << 8 * n
    st = mk(pre + b + 'z', len(pre), end)
    v = getattr(st, 'read_' + k)()
    ensure(v == x, 'read_%s of %s (%s) gives %s, expected %s', k, b, end, v, x)

def g_bad(r):
    k = r.choice(sorted(INTS) + ['float', 'double'])
    if k in INTS:
        lo, hi = rng(k)
        v = r.choice([hi + 1, lo - 1, hi + r.randrange(1, 2**40), lo - r.randrange(1, 2**40), (hi + 1) * 2, 2**64, -2**64, 256 ** r.randrange(1, 9) + hi,
                      None, 1.0, 0.5, 'a', u'1', '', [], (), {}, True, False])
    else: v = r.choice([None, 1, 0, -3, 2**70, 'a', u'1', '', [], (), {}, True])
    c = g_bytes(r, 9)
    return (k, r.choice(ENDS), v, c, r.randrange(0, len(c) + 1))
@contract('C02', g_bad, [(k, '!', v, 'ab', 1) for k in sorted(INTS) for v in [rng(k)[1] + 1, rng(k)[0] - 1, 1.0, None, 'x', u'x', True]] +
          [(k, '!', v, 'ab', 1) for k in ('float', 'double') for v in (1, None, 'x')])
def refused(c):
    """a value of the wrong type is a TypeError, one out of range an OverflowError, and nothing is written"""
    k, end, v, content, pos = c
    st = mk(content, pos, end)
    if k in INTS and type(v) in (int, long):
        if rng(k)[0] <= v <= rng(k)[1]: return
        raises(OverflowError, getattr(st, 'write_' + k), v)
    else: raises(TypeError, getattr(st, 'write_' + k), v)
    ensure(st.getvalue() == content and st.tell() == pos and len(st) == len(content), 'the refused write_%s(%s) changed the stream to %s at %s', k, v, st.getvalue(), st.tell())

def f32(r):
    while 1:
        b = ''.join(chr(r.randrange(256)) for _ in range(4))
        v = struct.unpack('!f', b)[0]
        if v == v: return v
def g_f(r):
    c = g_bytes(r, 9)
    if r.randrange(2): return ('float', r.choice(ENDS), struct.pack('!d', f32(r)), c, r.randrange(0, len(c) + 1))
    v = g_float(r) if r.randrange(8) else r.choice([float('inf'), float('-inf'), float('nan'), -0.0])
    return ('double', r.choice(ENDS), struct.pack('!d', v), c, r.randrange(0, len(c) + 1))
@contract('C02', g_f, [(k, e, struct.pack('!d', v), 'abc', 1) for k in ('float', 'double') for e in ENDS for v in
                       (0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), float('nan'))])
def floats(c):
    """floats and doubles are written in IEEE layout and byte order and read back bit for bit (as a NaN if one was written)"""
    k, end, bits, content, pos = c
    v = struct.unpack('!d', bits)[0]
    n = 4 if k == 'float' else 8
    st = mk(content, pos, end)
    getattr(st, 'write_' + k)(v)
    ensure(st.tell() == pos + n, 'position %s', st.tell())
    if v == v:
        e = struct.pack('!f' if n == 4 else '!d', v)
        want = content[:pos] + (e if BIG[end] else e[::-1]) + content[pos + n:]
        ensure(st.getvalue() == want, 'write_%s(%s) (%s) gives %s, expected %s', k, v, end, st.getvalue(), want)
    st.seek(pos)
    w = getattr(st, 'read_' + k)()
    ensure(type(w) is float and same_float(v, w), 'read_%s gives %s for %s', k, w, v)
    ensure(st.tell() == pos + n, 'position %s', st.tell())

def g_seq(r):
    out = []
    for _ in range(r.randrange(1, 8)):
        k = r.choice(sorted(INTS) + ['double', 'float'])
        out.append((k, r.choice(ENDS), g_int(r, *rng(k)) if k in INTS else float(r.randrange(-1000, 1000))))
    return out
@contract('C02', g_seq)
def sequences(ops):
    """any sequence of writes, byte orders mixed, reads back as the same sequence"""
    st = util.BufferedByteStream()
    for k, e, v in ops:
        st.endian = e
        getattr(st, 'write_' + k)(v)
    st.seek(0)
    for k, e, v in ops:
        st.endian = e
        w = getattr(st, 'read_' + k)()
        ensure(w == v, '%s (%s) of %s read back as %s', k, e, v, w)
    ensure(st.at_eof(), 'bytes left over')

def g_short(r):
    k = r.choice(sorted(INTS) + ['float', 'double'])
    n = INTS[k][0] if k in INTS else 4 if k == 'float' else 8
    return (k, g_bytes(r, 5), r.randrange(0, n))
@contract('C02', g_short, [(k, 'ab', j) for k in sorted(INTS) + ['float', 'double'] for j in range(0, 8) if j < (INTS[k][0] if k in INTS else 4 if k == 'float' else 8)])
def short_data(c):
    """too few bytes left: an IOError, and the position does not move"""
    k, pre, j = c
    st = mk(pre + '\x81' * j, len(pre), '!')
    raises(IOError, getattr(st, 'read_' + k))
    ensure(st.tell() == len(pre), 'the failed read_%s moved the position from %s to %s', k, len(pre), st.tell())
