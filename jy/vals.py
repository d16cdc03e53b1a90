# Descriptions of values (Python literals), how to build them, how to compare them, and the wire layout of scalars.
from hlib import *
import datetime, struct, calendar
import pyamf
from pyamf import amf0, amf3, xml as pxml
from pyamf.util import BufferedByteStream

# ---------------------------------------------------------------- classes
class Plain(object): pass
class Other(object): pass
class Anon(object): pass            # never registered
class AnonOld: pass
class OldStyle: pass
class Static(object):
    class __amf__:
        static = ('sa', 'sb')
        dynamic = False
class StaticDyn(object):
    class __amf__:
        static = ('sa', 'sb', 'sc')
class Base(object):
    class __amf__:
        static = ('ba',)
class Sub(Base):
    class __amf__:
        static = ('zz',)
class Slots(object):
    __slots__ = ['x', 'y']
class Prop(object):
    def __init__(self): self._v = None
    v = property(lambda s: s.__dict__.get('_v'), lambda s, v: s.__dict__.__setitem__('_v', v))
    class __amf__:
        exclude = ('_v',)
class Syn(object):
    class __amf__:
        synonym = {'local': 'remote'}
class Ext(object):
    class __amf__:
        external = True
    def __writeamf__(self, o):
        o.writeUTF(getattr(self, 'name', u''))
        o.writeObject(getattr(self, 'a', None))
        o.writeObject(getattr(self, 'b', None))
    def __readamf__(self, i):
        self.name = i.readUTF()
        self.a = i.readObject()
        self.b = i.readObject()
class A3(object):
    class __amf__:
        amf3 = True
class DictSub(dict): pass
CLASSES = {'Plain': Plain, 'Other': Other, 'Static': Static, 'StaticDyn': StaticDyn, 'Base': Base, 'Sub': Sub, 'Slots': Slots, 'Prop': Prop,
           'Syn': Syn, 'Ext': Ext, 'A3': A3, 'OldStyle': OldStyle, 'Anon': Anon, 'AnonOld': AnonOld, 'DictSub': DictSub}
for _n in CLASSES:
    if _n not in ('Anon', 'AnonOld'):
        pyamf.register_class(CLASSES[_n], 'v.' + _n)
ATTRS = {'Static': ['sa', 'sb'], 'Slots': ['x', 'y'], 'Prop': ['v', 'q', 'r'], 'Syn': ['local', 'q'], 'Ext': ['a', 'b']}
MUST = {'Static': ['sa', 'sb'], 'StaticDyn': ['sa', 'sb', 'sc'], 'Base': ['ba'], 'Sub': ['ba', 'zz'], 'Slots': ['x', 'y'], 'Prop': ['v'], 'Ext': ['a', 'b']}

# ---------------------------------------------------------------- building
def fl(bits): return struct.unpack('!d', bits)[0]
def pk(f): return struct.pack('!d', f)

def build(d, nodes):
    k = d[0]
    if k == 'null': return None
    if k == 'undef': return pyamf.Undefined
    if k in ('bool', 'int', 'str', 'uni'): return d[1]
    if k == 'float': return fl(d[1])
    if k == 'date': return datetime.datetime(*d[1])
    if k == 'day': return datetime.date(*d[1])
    if k == 'rep': return [d[2]] * d[1]
    if k == 'big': return d[2] * d[1]
    if k == 'list':
        o = []; nodes.append(o)
        for x in d[1]: o.append(build(x, nodes))
        return o
    if k == 'tuple':
        o = tuple([build(x, nodes) for x in d[1]]); nodes.append(o)
        return o
    if k in ('dict', 'mixed', 'asobj', 'dictsub'):
        o = {'dict': dict, 'mixed': pyamf.MixedArray, 'asobj': pyamf.ASObject, 'dictsub': DictSub}[k](); nodes.append(o)
        seen = set()
        for a, x in d[1]:
            if bkey(a) in seen: continue
            seen.add(bkey(a))
            o[a] = build(x, nodes)
        return o
    if k == 'obj':
        o = CLASSES[d[1]](); nodes.append(o)
        for a, x in d[2]: setattr(o, a, build(x, nodes))
        for a in MUST.get(d[1], ()):
            if not hasattr(o, a) or d[1] == 'Prop': setattr(o, a, getattr(o, a, None))
        return o
    if k == 'a3':
        o = A3(); nodes.append(o)
        inner = []
        for a, x in d[1]: setattr(o, a, build(x, inner))
        return o
    if k == 'xml':
        o = pxml.fromstring(d[1]); nodes.append(o)
        return o
    if k == 'ba':
        o = amf3.ByteArray(); o.write(d[1]); nodes.append(o)
        if len(d) > 2 and d[2]: o.compress()
        return o
    if k == 'ref': return nodes[d[1] % len(nodes)] if nodes else None
    raise ValueError(d)

def bkey(k):
    if isinstance(k, unicode): return k.encode('utf-8')
    if isinstance(k, str): return k
    return str(k)

def canon_int(k):
    try: return str(int(k)) == k
    except ValueError: return False

# ---------------------------------------------------------------- comparing
class Diff(Exception): pass
def same(x, y, c):
    """c: {'enc':0|3, 'fwd':{}, 'rev':{}, 'path':[...]}"""
    try:
        _same(x, y, c); return None
    except Diff as e: return str(e)

def ctx(enc): return {'enc': enc, 'fwd': {}, 'rev': {}, 'keep': []}

def need(cond, x, y, why):
    if not cond: raise Diff('%s: %s became %s (%s)' % (why, short(x), short(y), type(y).__name__))

def ident(x, y, c):
    """True when x was met before (and y is its counterpart)"""
    if id(x) in c['fwd']:
        need(c['fwd'][id(x)] is y, x, y, 'a shared value was decoded to something else than its first occurrence')
        return True
    need(id(y) not in c['rev'], x, y, 'two different values were decoded to one')
    c['fwd'][id(x)] = y; c['rev'][id(y)] = x; c['keep'].append((x, y))
    return False

def samekeys(a, b):
    # (Jython's sets of non-ASCII strings do not compare reliably)
    return sorted(a.keys(), key=repr) == sorted(b.keys(), key=repr)

def _items(x, y, xs, ys, c, why):
    """xs, ys: normalised key -> value"""
    need(samekeys(xs, ys), sorted(xs, key=repr), sorted(ys, key=repr), why + ': keys')
    for k in xs: _same(xs[k], ys[k], c)

def _same(x, y, c):
    enc = c['enc']
    if x is None: need(y is None, x, y, 'null'); return
    if x is pyamf.Undefined: need(y is pyamf.Undefined, x, y, 'undefined'); return
    t = type(x)
    if t is bool: need(y is x, x, y, 'boolean'); return
    if t in (int, long):
        need(type(y) in (int, long, float), x, y, 'number')
        need(y == x or (abs(x) > 2**53 and y == float(x)), x, y, 'number')
        if enc == 3: need(type(y) in ((int, long) if -2**28 <= x < 2**28 else (float,)), x, y, 'number type')
        return
    if t is float:
        need(type(y) in (int, long, float), x, y, 'number')
        if x != x: need(y != y, x, y, 'number')
        else: need(y == x, x, y, 'number')
        if enc == 3: need(type(y) is float and same_float(x, y), x, y, 'number type')
        return
    if isinstance(x, str):
        need(isinstance(y, unicode) or y == '', x, y, 'text'); need(y == x.decode('utf-8'), x, y, 'text'); return
    if isinstance(x, unicode):
        need(isinstance(y, unicode) or y == '', x, y, 'text'); need(y == x, x, y, 'text'); return
    if isinstance(x, datetime.datetime):
        need(type(y) is datetime.datetime, x, y, 'date')
        need(abs(y - x) <= datetime.timedelta(microseconds=0 if x.microsecond == 0 else 3 if 1700 < x.year < 2300 else 100), x, y, 'date')
        return
    if isinstance(x, datetime.date):
        need(type(y) is datetime.datetime and y == datetime.datetime(x.year, x.month, x.day), x, y, 'date'); return
    if pxml.is_xml(x):
        need(pxml.is_xml(y), x, y, 'XML')
        if enc == 3 and ident(x, y, c): return
        tree(x, y); return
    if isinstance(x, amf3.ByteArray):
        need(type(y) is amf3.ByteArray, x, y, 'byte array')
        if ident(x, y, c): return
        need(y.getvalue() == x.getvalue(), x.getvalue(), y.getvalue(), 'byte array'); return
    if isinstance(x, (list, tuple)):
        need(type(y) is list, x, y, 'list')
        if ident(x, y, c): return
        need(len(x) == len(y), len(x), len(y), 'list length')
        for i in range(len(x)): _same(x[i], y[i], c)
        return
    if isinstance(x, pyamf.MixedArray):
        if enc == 3 and all(k in x for k in range(len(x))):      # an AMF3 array without names is a list
            need(type(y) is list, x, y, 'dense mixed array')
            if ident(x, y, c): return
            need(len(x) == len(y), x, y, 'dense mixed array length')
            for i in range(len(y)): _same(x[i], y[i], c)
            return
        need(type(y) is pyamf.MixedArray, x, y, 'mixed array')
        if ident(x, y, c): return
        xs = {}
        n = 0
        if enc == 3:
            while n in x: n += 1
        for k, v in x.items():
            if isinstance(k, (int, long)): k = int(k) if enc == 0 or 0 <= k < n else str(k)
            else:
                k = bkey(k)
                if enc == 0 and canon_int(k): k = int(k)
            xs[k] = v
        _items(x, y, xs, dict((k if isinstance(k, (int, long)) else bkey(k), v) for k, v in y.items()), c, 'mixed array')
        return
    if isinstance(x, DictSub): need(type(y) is DictSub, x, y, 'registered dict')
    elif isinstance(x, dict): need(type(y) is pyamf.ASObject, x, y, 'anonymous object')
    if isinstance(x, dict):
        if ident(x, y, c): return
        _items(x, y, dict((bkey(k), v) for k, v in x.items()), dict((bkey(k), v) for k, v in y.items()), c, 'object')
        return
    k = x.__class__
    if k in (Anon, AnonOld):
        need(type(y) is pyamf.ASObject, x, y, 'anonymous object')
        if ident(x, y, c): return
        _items(x, y, dict((bkey(a), v) for a, v in x.__dict__.items()), dict((bkey(a), v) for a, v in y.items()), c, 'object')
        return
    need(y.__class__ is k, x, y, 'typed object')
    if ident(x, y, c): return
    if enc == 0 and isinstance(x, A3): c = dict(c, enc=3)
    if k is Slots: xs, ys = [dict((a, getattr(o, a, pyamf.Undefined)) for a in ('x', 'y')) for o in (x, y)]
    else: xs, ys = [dict((bkey(a), v) for a, v in o.__dict__.items()) for o in (x, y)]
    if k is Ext: xs.setdefault('name', u''); xs.setdefault('a', None); xs.setdefault('b', None)
    _items(x, y, xs, ys, c, 'object of %s' % k.__name__)

def tree(x, y):
    need(x.tag == y.tag, x.tag, y.tag, 'XML tag')
    need((x.text or '') == (y.text or ''), x.text, y.text, 'XML text')
    need((x.tail or '') == (y.tail or ''), x.tail, y.tail, 'XML tail')
    need(dict(x.attrib) == dict(y.attrib), x.attrib, y.attrib, 'XML attributes')
    a, b = list(x), list(y)
    need(len(a) == len(b), len(a), len(b), 'XML children')
    for i, j in zip(a, b): tree(i, j)

# ---------------------------------------------------------------- wire layout (specification) of scalars
def u29(n):
    if n < 0x80: return chr(n)
    if n < 0x4000: return chr(0x80 | n >> 7) + chr(n & 0x7f)
    if n < 0x200000: return chr(0x80 | n >> 14) + chr(0x80 | n >> 7 & 0x7f) + chr(n & 0x7f)
    return chr(0x80 | n >> 22) + chr(0x80 | n >> 15 & 0x7f) + chr(0x80 | n >> 8 & 0x7f) + chr(n & 0xff)

def ms_of(d):
    return calendar.timegm(d.timetuple()) * 1000.0 + getattr(d, 'microsecond', 0) / 1000.0

def spec0(v):
    """AMF0 layout of a scalar; dates as (prefix, milliseconds, suffix)"""
    if v is None: return '\x05'
    if v is pyamf.Undefined: return '\x06'
    if type(v) is bool: return '\x01' + ('\x01' if v else '\x00')
    if type(v) in (int, long, float): return '\x00' + struct.pack('!d', float(v))
    if isinstance(v, unicode): v = v.encode('utf-8')
    if isinstance(v, str):
        return ('\x02' + struct.pack('!H', len(v)) if len(v) < 65536 else '\x0c' + struct.pack('!L', len(v))) + v
    raise ValueError(v)

class Spec3(object):
    """AMF3 layout of scalars in one message"""
    def __init__(self): self.strings = []; self.objs = []
    def text(self, v):
        if isinstance(v, unicode): v = v.encode('utf-8')
        if v == '': return '\x01'
        if v in self.strings: return u29(self.strings.index(v) << 1)
        self.strings.append(v)
        return u29(len(v) << 1 | 1) + v
    def one(self, v):
        if v is None: return '\x01'
        if v is pyamf.Undefined: return '\x00'
        if type(v) is bool: return '\x03' if v else '\x02'
        if type(v) in (int, long):
            if -2**28 <= v < 2**28: return '\x04' + u29(v & 0x1fffffff)
            return '\x05' + struct.pack('!d', float(v))
        if type(v) is float: return '\x05' + struct.pack('!d', v)
        if isinstance(v, basestring): return '\x06' + self.text(v)
        raise ValueError(v)

# ---------------------------------------------------------------- generators
def g_scalar(r, enc):
    k = r.randrange(12)
    if k == 0: return ('null',)
    if k == 1: return ('undef',)
    if k == 2: return ('bool', bool(r.randrange(2)))
    if k < 6: return ('int', g_int(r))
    if k == 6: return ('float', pk(g_float(r) if r.randrange(10) else r.choice([float('inf'), float('-inf'), float('nan'), -0.0])))
    if k < 9: return ('uni', r.choice(WORDS).decode('ascii', 'ignore') if r.randrange(10) == 0 else g_uni(r))
    return ('str', r.choice(WORDS) if r.randrange(10) == 0 else g_uni(r).encode('utf-8'))

def g_date(r):
    y = r.choice([1, 1583, 1900, 1969, 1970, 1970, 1999, 2000, 2038, 2100, 9999]) if r.randrange(3) else r.randrange(1, 10000)
    return ('date', (y, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 0, 1000, 999000, r.randrange(1000) * 1000])))

XMLS = ['<a/>', '<a>t</a>', '<a b="c"><d/>e<f>g</f></a>', u'<a>\xe9\u20ac</a>'.encode('utf-8'), '<r x="1" y="&lt;&amp;"><q>&gt;</q></r>']

def g_name(r, enc):
    k = r.randrange(14)
    if k == 0: return u'' if enc == 0 and r.randrange(2) else u'e'
    if k == 1: return g_key(r)
    if k == 2: return g_key(r).encode('utf-8')
    if k == 3: return r.choice(WORDS)
    return r.choice(['a', 'b', 'c', 'd', 'name', 'x1', u'u', u'key'])
def g_mkey(r, enc):
    k = r.randrange(6)
    if k < 3: return r.choice([0, 1, 2, 3, 4, r.randrange(0, 9)])
    if k == 3: return r.choice([-1, -7, 100, 2**31, 2**32 - 1, 63, 64, 127, 128, r.randrange(-50, 300)])
    return g_name(r, enc)

def g_val(r, enc, depth=3, cls=None):
    """a value description; refs point at anything built before"""
    if depth <= 0 or r.randrange(5) < 2:
        k = r.randrange(16)
        if k == 0: return g_date(r)
        if k == 1: return ('day', (r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29)))
        if k == 2: return ('xml', r.choice(XMLS))
        if k == 3: return ('ba', g_bytes(r), r.randrange(2))
        if k < 8: return ('ref', r.randrange(64))
        return g_scalar(r, enc)
    k = r.randrange(20)
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    sub = lambda: g_val(r, enc, depth - 1)
    if k < 5: return ('list', [sub() for _ in range(n)])
    if k < 6: return ('tuple', [sub() for _ in range(n)])
    if k < 9: return ('dict', [(g_name(r, enc) if r.randrange(8) else r.randrange(-3, 200), sub()) for _ in range(n)])
    if k < 10: return ('asobj', [(g_name(r, enc), sub()) for _ in range(n)])
    if k < 13: return ('mixed', [(g_mkey(r, enc), sub()) for _ in range(n + r.randrange(3))])
    if k == 13 and enc == 0: return ('a3', [(r.choice(['a', 'b', 'c']), g_val(r, 3, depth - 1)) for _ in range(n)])
    if k == 14: return ('dictsub', [(g_name(r, enc), sub()) for _ in range(n)])
    c = r.choice(sorted(set(CLASSES) - set(['A3', 'DictSub']) - (set(['Ext']) if enc == 0 else set())))
    names = ATTRS.get(c) or MUST.get(c, []) + ['a', 'b', 'c', 'q']
    chosen = [a for a in names if a in MUST.get(c, ()) or r.randrange(2)]
    return ('obj', c, [(a, sub()) for a in chosen])

def encode(*values, **kw):
    # (looking for the C extension takes most of the time of an encoding)
    kw.setdefault('use_ext', False)
    return pyamf.encode(*values, **kw)
def decoder(enc, *a, **kw):
    kw.setdefault('use_ext', False)
    return pyamf.get_decoder(enc, *a, **kw)
def encoder(enc, *a, **kw):
    kw.setdefault('use_ext', False)
    return pyamf.get_encoder(enc, *a, **kw)

def enc_dec(values, enc, **kw):
    """bytes, decoded values, bytes left"""
    st = encode(*values, encoding=enc, **kw)
    b = st.getvalue()
    dec = decoder(enc, b)
    out = []
    for _ in values: out.append(dec.readElement())
    return b, out, dec.stream.remaining()
