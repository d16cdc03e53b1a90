# Contracts evaluated on the real code (Jython 2.7).
import random

class Broken(Exception): pass
class Skip(Exception): pass

REG = []
class C(object):
    def __init__(self, prop, name, fn, gen, corner, limit, shrink, weight):
        self.weight = weight
        self.prop = prop; self.name = name; self.fn = fn; self.gen = gen; self.corner = list(corner)
        self.limit = limit; self.doc = ' '.join((fn.__doc__ or '').split()); self.shrink = shrink

def contract(prop, gen=None, corner=(), limit=10**9, name=None, shrink=False, weight=1):
    def d(fn):
        REG.append(C(prop, name or fn.__name__, fn, gen, corner, limit, shrink, weight))
        return fn
    return d

def ensure(c, msg, *args):
    if not c: raise Broken(msg % tuple(short(a) for a in args) if args else msg)

def short(v):
    try: s = repr(v)
    except Exception: s = '<unprintable>'
    return s if len(s) < 300 else s[:300] + '...'

def raises(excs, f, *a, **k):
    """the exception, which must be one of excs"""
    try: v = f(*a, **k)
    except excs as e: return e
    raise Broken('expected %s, got the value %s' % (excs, short(v)))

def outcome(f, *a, **k):
    """('ok', value) or ('exc', class)"""
    try: return ('ok', f(*a, **k))
    except Exception as e: return ('exc', e)

def smaller(x):
    if isinstance(x, list):
        for i in range(len(x)): yield x[:i] + x[i + 1:]
        for i in range(len(x)):
            for y in smaller(x[i]): yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, tuple):
        for i in range(len(x)):
            for y in smaller(x[i]): yield x[:i] + (y,) + x[i + 1:]
    elif isinstance(x, (str, unicode)):
        if len(x) > 1: yield x[:len(x) // 2]; yield x[1:]

# ---------------------------------------------------------------- generators of plain data
BOUND = sorted(set(s * (b + d) for b in [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1fffff, 0x200000,
        0x7fffff, 0x800000, 0xffffff, 0x1000000, 0xfffffff, 0x10000000, 0x1fffffff, 0x20000000, 0x7fffffff, 0x80000000, 0xffffffff,
        0x100000000, 2**53, 2**62, 2**63, 2**64] for d in (-1, 0, 1) for s in (1, -1)))

def g_int(r, lo=None, hi=None):
    k = r.randrange(4)
    if k == 0: v = r.choice(BOUND)
    elif k == 1: v = r.getrandbits(r.randrange(1, 34)) * r.choice((1, -1))
    elif k == 2: v = r.randrange(-300, 300)
    else: v = (1 << r.randrange(0, 40)) * r.choice((1, -1)) + r.randrange(-2, 3)
    if lo is not None and v < lo or hi is not None and v > hi:
        v = r.randrange(lo if lo is not None else -2**40, (hi if hi is not None else 2**40) + 1)
    return v

FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 3.141592653589793,
          123456789.0, 2.0**53, 2.0**53 + 2, -2.0**28, 2.0**28, 2.0**29, 4294967296.0, 0.1, 1e16]
def g_float(r):
    k = r.randrange(5)
    if k == 0: return r.choice(FLOATS)
    if k == 1: return float(r.randrange(-2**31, 2**31))
    if k == 2: return r.uniform(-1e6, 1e6)
    if k == 3: return r.uniform(-1, 1) * 10 ** r.randrange(-300, 300)
    import struct
    while 1:
        v = struct.unpack('!d', ''.join(chr(r.randrange(256)) for _ in range(8)))[0]
        if v == v and v not in (float('inf'), float('-inf')): return v

CHARS = [u'a', u'b', u'z', u'0', u' ', u'\x00', u'\n', u'/', u'_', u'\x7f', u'\x80', u'\xe9', u'\xff', u'\u0100', u'\u07ff', u'\u0800', u'\u20ac',
         u'\ufffd', u'\uffff', u'\ud7ff', u'\ue000', u'\U00010000', u'\U0001f600', u'\U0010ffff']
SIZES = [0, 1, 2, 3, 10, 63, 64, 127, 128, 129, 255, 256]
def g_uni(r, maxlen=12, ascii=False):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, maxlen]) if r.randrange(12) else r.choice(SIZES)
    if ascii: return u''.join(unichr(r.randrange(32, 127)) for _ in range(n))
    if r.randrange(3) == 0: return u''.join(unichr(r.randrange(32, 127)) for _ in range(n))
    return u''.join(r.choice(CHARS) for _ in range(n))
def g_bytes(r, maxlen=16):
    n = r.choice([0, 1, 2, 3, 5, 8, maxlen]) if r.randrange(8) else r.choice(SIZES)
    return ''.join(chr(r.randrange(256)) for _ in range(n))
def g_key(r):
    """a non-empty attribute name (text)"""
    if r.randrange(4): return u''.join(r.choice(u'abcdxyz_09') for _ in range(r.randrange(1, 6)))
    s = g_uni(r, 6)
    return s or u'k'

def same_float(a, b):
    import struct
    if a != a or b != b: return a != a and b != b
    return struct.pack('!d', a) == struct.pack('!d', b)

# ---------------------------------------------------------------- constants mentioned in the code under test
def _mine():
    import re, os, pyamf
    root = os.path.dirname(os.path.abspath(pyamf.__file__))
    ints = set(); strs = set()
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != 'tests']
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            s = open(os.path.join(d, f)).read()
            s = re.sub(r'"""(?:.|\n)*?"""|\'\'\'(?:.|\n)*?\'\'\'', '', s)
            for m in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', s):
                try: v = int(m, 0) if m[:2] in ('0x', '0X') else int(m)
                except ValueError: continue
                if v < 2**70: ints.add(v)
            for m in re.findall(r"'([^'\\\n]{1,24})'|\"([^\"\\\n]{1,24})\"", s):
                m = m[0] or m[1]
                if ' ' not in m.strip() and '%' not in m: strs.add(m)
    return sorted(ints), sorted(strs)
MINED, WORDS = _mine()
for _v in list(MINED):
    for _s in (_v, -_v, _v + 1, _v - 1, -_v - 1, 1 << _v if _v < 65 else 0):
        if _s not in BOUND: BOUND.append(_s)
BOUND.sort()
SIZES = sorted(set(SIZES + [v + d for v in MINED for d in (-1, 0, 1) if 0 <= v + d <= 400]))
