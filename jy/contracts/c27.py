from contracts.graphs import *
import types, sys, collections, decimal, array, weakref, sets, re, abc

class Meta(type): pass
class WithMeta(object): __metaclass__ = Meta
class Abstract(object): __metaclass__ = abc.ABCMeta
class StrSub(str): pass
class UniSub(unicode): pass
class ListSub(list): pass
class TupSub(tuple): pass
class ListSub2(ListSub): pass
Point = collections.namedtuple('Point', 'x y')
class WithM(object):
    def m(self): pass
    @classmethod
    def c(cls): pass
    @staticmethod
    def s(): pass
def a_function(): pass
def a_generator(): yield 1
MOD = types.ModuleType('m'); MOD.x = 1

UNENC = {'function': a_function, 'lambda': lambda x: x, 'builtin': len, 'bound': WithM().m, 'unbound': WithM.m, 'classmethod': WithM.c, 'static': WithM.s, 'listmethod': [].append, 'new class': WithM, 'old class': OldStyle,
         'registered class': Plain, 'type': type, 'int': int, 'str': str, 'error class': ValueError, 'metaclass': WithMeta, 'abstract': Abstract, 'code': a_function.func_code, 'genfunction': a_generator, 'module': MOD, 'module2': re, 'pyamf': pyamf}

@contract('C27', None, [(k, e) for k in sorted(UNENC) for e in (0, 3)])
def unencodable(case):
    """a function, class or module is refused with nothing written, every time and inside any container"""
    k, enc = case
    v = UNENC[k]
    e = encoder(enc); e.stream.write('ab')
    for _ in range(2):
        raises(pyamf.EncodeError, e.writeElement, v)
        ensure(e.stream.getvalue() == 'ab' and e.stream.tell() == 2, '%s was written as %s', k, e.stream.getvalue())
    e.writeElement(5)
    ensure(decoder(enc, e.stream.getvalue()[2:]).readElement() == 5, 'after %s: %s', k, e.stream.getvalue())
    for box in ([v], (v,), {u'a': v}, pyamf.MixedArray({u'a': v}), [[v]], collections.deque([v])): raises(pyamf.EncodeError, encode, box, encoding=enc)
    o = Plain(); o.a = v
    raises(pyamf.EncodeError, encode, o, encoding=enc)
    raises(pyamf.EncodeError, encode, [1, v], encoding=enc)

# ---------------------------------------------------------------- the writer of a value's own type
KINDS = {'none': None, 'true': True, 'false': False, 'zero': 0, 'one': 1, 'long one': long(1), 'float one': 1.0, 'float zero': 0.0, 'neg': -1, 'empty': '', 'empty u': u'', 'text': u'ab', 'bytes': 'ab', 'text 1': u'1', 'list': [], 'list 1': [1], 'tuple': (), 'tuple 1': (1,), 'dict': {}, 'dict 1': {u'a': 1},
         'undef': pyamf.Undefined, 'date': datetime.datetime(2001, 2, 3), 'day': datetime.date(2001, 2, 3), 'strsub': StrSub('ab'), 'unisub': UniSub(u'ab'), 'listsub': ListSub([1, 2]), 'listsub2': ListSub2([3]), 'tupsub': TupSub((1, u'x')), 'point': Point(1, 2), 'asobj': pyamf.ASObject(a=1), 'mixed': pyamf.MixedArray({0: 1, u'a': 2}),
         'strsub 0': StrSub(''), 'unisub 0': UniSub(u''), 'listsub 0': ListSub(), 'tupsub 0': TupSub()}
PLAINLY = {'strsub': u'ab', 'unisub': u'ab', 'listsub': [1, 2], 'listsub2': [3], 'tupsub': [1, u'x'], 'point': [1, 2], 'strsub 0': u'', 'unisub 0': u'', 'listsub 0': [], 'tupsub 0': []}
def wanted(k): return PLAINLY.get(k, KINDS[k])

@contract('C27', lambda r: (r.choice([0, 3, 'mix']), [r.choice(sorted(KINDS)) for _ in range(r.randrange(1, 7))]), [(e, [a, b]) for e in (0, 3) for a in ('true', 'one', 'zero', 'false', 'float one', 'text', 'bytes', 'list') for b in sorted(KINDS)] + [('mix', [k]) for k in sorted(KINDS)], weight=2)
def own_type(case):
    """each value is written as its own type, whatever was written before it"""
    enc, ks = case
    st = BufferedByteStream(); e = encoder(3 if enc == 3 else 0, stream=st)
    if enc == 'mix': e.use_amf3 = True
    at = []
    for k in ks: at.append(st.tell()); e.writeElement(KINDS[k])
    b = st.getvalue()
    d = decoder(3 if enc == 3 else 0, b)
    c = ctx(0 if enc == 0 else 3)
    for i, k in enumerate(ks):
        g = d.readElement(); w = wanted(k)
        if k in ks[:i] or isinstance(w, (list, tuple)): x = same(w, g, ctx(c['enc']))
        else: x = same(w, g, ctx(c['enc']))
        ensure(x is None, '%s: %s', k, x)
        t = b[at[i]] if enc != 'mix' else b[at[i] + 1]
        if isinstance(w, bool): ensure(t == '\x01' if enc == 0 else t in '\x02\x03', '%s is written as a %s', k, t)
        elif isinstance(w, (int, long)): ensure(t == ('\x00' if enc == 0 else '\x04'), '%s is written as a %s', k, t)
        elif isinstance(w, float): ensure(t == ('\x00' if enc == 0 else '\x05'), '%s is written as a %s', k, t)
        elif isinstance(w, basestring): ensure(t == ('\x02' if enc == 0 else '\x06'), '%s is written as a %s', k, t)
        elif isinstance(w, (list, tuple)): ensure(t in ('\x0a\x07' if enc == 0 else '\x09'), '%s is written as a %s', k, t)
    ensure(d.stream.at_eof(), 'bytes left')

# ---------------------------------------------------------------- custom types
class T1(object):
    def __init__(self, v=None): self.v = v
class T1Sub(T1): pass
class T2(object):
    def __init__(self, v=None): self.v = v
class O1:
    def __init__(self, v=None): self.v = v
class O2:
    def __init__(self, v=None): self.v = v
class TList(list): pass
class TDict(dict): pass
CLS = {'T1': T1, 'T1Sub': T1Sub, 'T2': T2, 'O1': O1, 'O2': O2, 'TList': TList, 'TDict': TDict}
RESULTS = [('int', 5), ('uni', u'x'), ('list', [('int', 1)]), ('dict', [('a', ('int', 1))]), ('bool', False), ('undef',), ('list', []), ('obj', 'Plain', [('a', ('int', 1))]), ('float', pk(0.5)), ('uni', u'')]
def make(n, v):
    if n == 'TList': return TList([v])
    if n == 'TDict': return TDict({u'v': v})
    return CLS[n](v)

class Types(object):
    """custom types for the time of a case"""
    def __init__(self, regs): self.regs = regs; self.seen = []
    def __enter__(self):
        self.old = dict(pyamf.TYPE_MAP)
        for key, ns, d in self.regs:
            t = tuple(CLS[n] for n in ns) if key != 'list' else [CLS[n] for n in ns]
            if key == 'one': t = t[0]
            pyamf.add_type(t, self.conv(ns, d))
        return self
    def conv(self, ns, d):
        def f(x, encoder):
            self.seen.append((ns, x, encoder)); return build(d, [])
        return f
    def __exit__(self, *a):
        pyamf.TYPE_MAP.clear(); pyamf.TYPE_MAP.update(self.old)

def g_types(r):
    names = sorted(CLS); r.shuffle(names); regs = []; used = set()
    for _ in range(r.choice([1, 1, 2, 3])):
        key = r.choice(['one', 'one', 'tuple', 'list'])
        ns = [n for n in names if n not in used and not (n == 'T1Sub' and 'T1' in used) and not (n == 'T1' and 'T1Sub' in used)][:1 if key == 'one' else 2]
        if 'T1' in ns and 'T1Sub' in ns: ns.remove('T1Sub')
        if not ns: break
        used.update(ns); regs.append((key, ns, r.choice(RESULTS)))
    return r.choice([0, 3, 'mix']), regs, [r.choice(sorted(CLS)) for _ in range(r.randrange(1, 6))]
@contract('C27', g_types, [(e, [('one', [a], ('uni', u'conv'))], [a, b, a]) for e in (0, 3, 'mix') for a in sorted(CLS) for b in sorted(CLS)] + [(e, [('one', [a], ('uni', u'conv'))], [b, a, b]) for e in (0, 3) for a in sorted(CLS) for b in sorted(CLS)] +
    [(e, [('tuple', ['T1', 'O1'], ('int', 1)), ('list', ['T2', 'O2'], ('int', 2))], ['T1', 'O1', 'T2', 'O2', 'TList', 'T1Sub']) for e in (0, 3, 'mix')] + [(e, [('one', ['T1'], d)], ['T1', 'T2', 'T1']) for e in (0, 3) for d in RESULTS], weight=2)
def custom(case):
    """an instance of a type with a converter is written as the converter's result, any other as itself"""
    enc, regs, ns = case
    by = {}
    for key, names, d in regs:
        for n in names: by[n] = d
    if 'T1' in by: by.setdefault('T1Sub', by['T1'])
    with Types(regs) as t:
        objs = [make(n, i) for i, n in enumerate(ns)]
        st = BufferedByteStream(); e = encoder(3 if enc == 3 else 0, stream=st)
        if enc == 'mix': e.use_amf3 = True
        e.writeElement(objs)
        d = decoder(3 if enc == 3 else 0, st.getvalue()); g = d.readElement()
        ensure(d.stream.at_eof() and len(g) == len(objs), 'written as %s', g)
        used = [x for x, n in zip(objs, ns) if n in by]
        ensure(len(t.seen) == len(used) and all(a[1] is b for a, b in zip(t.seen, used)), 'converted %s, expected %s', [s[1] for s in t.seen], used)
        for s in t.seen: ensure(enc == 'mix' or s[2] is e, 'the encoder is %s', s[2])
        for i, n in enumerate(ns):
            if n in by: x = same(build(by[n], []), g[i], ctx(0 if enc == 0 else 3))
            elif n == 'TList': x = same([i], g[i], ctx(0 if enc == 0 else 3))
            else: x = same({u'v': i}, g[i], ctx(0 if enc == 0 else 3))
            ensure(x is None, '%s (%s of %s): %s', n, i, ns, x)
    b = encode(make('T1', 3), encoding=0).getvalue()
    ensure(decoder(0, b).readElement() == {u'v': 3}, 'a converter stayed')

class BadConv(Exception): pass
@contract('C27', None, [0, 3])
def failing(enc):
    """an error of a converter reaches the caller with nothing written"""
    old = dict(pyamf.TYPE_MAP)
    def f(x, encoder): raise BadConv()
    try:
        pyamf.add_type(T1, f)
        e = encoder(enc)
        for _ in range(2):
            raises(BadConv, e.writeElement, T1())
            ensure(e.stream.getvalue() == '', 'written %s', e.stream.getvalue())
        raises(KeyError, pyamf.add_type, T1, None)
        ensure(pyamf.TYPE_MAP[T1] is f, 'the converter changed')
        for x in (5, 'x', None, [T2, 5]): raises(TypeError, pyamf.add_type, x, f)
        ensure(pyamf.get_type(T1) is f and pyamf.remove_type(T1) is f, 'another converter')
        raises(KeyError, pyamf.get_type, T1); raises(KeyError, pyamf.remove_type, T1)
        ensure(pyamf.TYPE_MAP == old, 'the types changed')
    finally:
        pyamf.TYPE_MAP.clear(); pyamf.TYPE_MAP.update(old)

class Ref(object): pass
KEEP = Ref(); KEEP.a = 1
def dead():
    x = Ref(); r = weakref.ref(x); del x
    import gc; gc.collect()
    return r
def adapted(r, k, vals):
    """(value, what it is written as)"""
    if k == 'deque': return collections.deque(vals), list(vals)
    if k == 'set': v = sets.Set(vals); return v, ('any', list(v))
    if k == 'iset': v = sets.ImmutableSet(vals); return v, ('any', list(v))
    if k == 'array': return array.array('i', vals), list(vals)
    if k == 'darray': return array.array('d', [float(x) for x in vals]), [float(x) for x in vals]
    if k == 'ddict': d = collections.defaultdict(list); d.update((u'k%d' % x, x) for x in vals); return d, dict(d)
    if k == 'counter': c = collections.Counter([u'k%d' % x for x in vals]); return c, dict(c)
    if k == 'odict': d = collections.OrderedDict((u'k%d' % x, x) for x in vals); return d, dict(d)
    if k == 'decimal': x = vals[0] if vals else 0; return decimal.Decimal(x) / 8, x / 8.0
    if k == 'wref': return weakref.ref(KEEP), {u'a': 1}
    if k == 'dead': return dead(), None
    if k == 'wvd': d = weakref.WeakValueDictionary(); d[u'k'] = KEEP; return d, {u'k': {u'a': 1}}
    if k == 'wset': return weakref.WeakSet([KEEP]), [{u'a': 1}]
AD = ['deque', 'set', 'iset', 'array', 'darray', 'ddict', 'counter', 'odict', 'decimal', 'wref', 'dead', 'wvd', 'wset']
@contract('C27', lambda r: (r.choice([0, 3, 'mix']), [(r.choice(AD), [r.randrange(-9, 9) for _ in range(r.randrange(4))]) for _ in range(r.randrange(1, 5))]), [(e, [(k, v)]) for e in (0, 3, 'mix') for k in AD for v in ([], [1], [2, 1, 2])] + [(e, [(a, [1, 2]), (b, [3])]) for e in (0, 3) for a in AD for b in AD])
def adapters(case):
    """sets, deques, arrays, decimals, counters, ordered, default and weak dictionaries, and weak references are written as the plain value they stand for"""
    enc, items = case
    pairs = [adapted(None, k, v) for k, v in items]
    st = BufferedByteStream(); e = encoder(3 if enc == 3 else 0, stream=st)
    if enc == 'mix': e.use_amf3 = True
    for v, w in pairs: e.writeElement(v)
    e.writeElement([v for v, w in pairs])
    d = decoder(3 if enc == 3 else 0, st.getvalue())
    got = [d.readElement() for _ in pairs]
    again = d.readElement()
    ensure(d.stream.at_eof() and len(again) == len(pairs), 'bytes left after %s', again)
    for (k, x), (v, w), g, h in zip(items, pairs, got, again):
        for y in (g, h):
            if isinstance(w, tuple): ensure(type(y) is list and sorted(y) == sorted(w[1]), '%s became %s', w, y)
            else:
                m = same(w, y, ctx(0 if enc == 0 else 3)); ensure(m is None, '%s: %s', k, m)

@contract('C27', lambda r: (r.choice([0, 3]), r.randrange(-10**9, 10**9), r.randrange(-6, 3)), [(e, x, s) for e in (0, 3) for x in (0, 1, -1, 15) for s in (0, -1, 2)])
def decimals(case):
    """a decimal is written as the nearest double, and refused by a strict encoder"""
    enc, x, s = case
    v = decimal.Decimal(x).scaleb(s)
    g = decoder(enc, encode(v, encoding=enc).getvalue()).readElement()
    ensure(g == float(v) and (enc == 0 or type(g) is float), '%s became %s', v, g)
    e = encoder(enc, strict=True)
    raises(pyamf.EncodeError, e.writeElement, v); ensure(e.stream.getvalue() == '', 'written %s', e.stream.getvalue())

KNOWN = {0: '\x00\x01\x02\x03\x05\x06\x07\x08\x0a\x0b\x0c\x0d\x0f\x10\x11', 3: ''.join(map(chr, range(13)))}
@contract('C27', None, [(e, m, p) for e in (0, 3) for m in range(256) for p in ('', '\x01' * 9) if chr(m) not in KNOWN[e]] + [(e, m, 'in') for e in (0, 3) for m in range(256) if chr(m) not in KNOWN[e]])
def unknown_marker(case):
    """an unknown type marker is a decoding error, at the top and inside a value"""
    enc, m, p = case
    if p == 'in':
        b = {0: '\x0a\x00\x00\x00\x01', 3: '\x09\x03\x01'}[enc] + chr(m) + '\x01' * 9
        if enc == 0 and m == 9: return          # (the end marker of an object)
    else: b = chr(m) + p
    d = decoder(enc, b)
    raises(pyamf.DecodeError, d.readElement)
    if enc == 0: raises(pyamf.DecodeError, decoder(0, '\x11' + chr(m)).readElement) if chr(m) not in KNOWN[3] else None
