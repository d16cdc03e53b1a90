from contracts.graphs import *
from pyamf import flex

OPS = ['addItem', 'addItemAt', 'getItemAt', 'getItemIndex', 'removeAll', 'removeItemAt', 'setItemAt', 'append', 'toArray', 'length', 'extend', 'iter', 'pop']
def g_ops(r):
    n = r.choice([0, 0, 1, 2, 3, 5])
    ops = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 14])):
        op = r.choice(OPS)
        ops.append((op, r.choice([-1, 0, 0, 1, 1, 2, 3, 4, 5, r.randrange(-4, 9)]), r.choice([None, 0, 1, u'a', u'b', 1.5, r.randrange(3), [1], {}, (2,), False])))
    return [r.choice([None, 0, 1, u'a', u'b', [1]]) for _ in range(n)], ops

def step(a, m, op, i, x):
    """one operation on the collection and on a plain list"""
    bad = i < 0 or i > len(m) or (op != 'addItemAt' and i == len(m))
    if op == 'addItem': a.addItem(x); m.append(x)
    elif op == 'addItemAt':
        if bad: raises(IndexError, a.addItemAt, x, i)
        else: a.addItemAt(x, i); m.insert(i, x)
    elif op == 'getItemAt':
        if bad: raises(IndexError, a.getItemAt, i); raises(IndexError, a.getItemAt, i, 1)
        else:
            ensure(a.getItemAt(i) is m[i], 'item %s is %s', i, a.getItemAt(i)); ensure(a.getItemAt(i, 5) is m[i], 'item %s', i)
    elif op == 'getItemIndex':
        want = m.index(x) if x in m else -1
        ensure(a.getItemIndex(x) == want, 'the index of %s is %s, not %s', x, want, a.getItemIndex(x))
    elif op == 'removeAll': a.removeAll(); del m[:]
    elif op == 'removeItemAt':
        if bad: raises(IndexError, a.removeItemAt, i)
        else: got = a.removeItemAt(i); want = m.pop(i); ensure(got is want, 'removed %s, not %s', got, want)
    elif op == 'setItemAt':
        if bad: raises(IndexError, a.setItemAt, x, i)
        else: got = a.setItemAt(x, i); want = m[i]; m[i] = x; ensure(got is want, 'replaced %s, not %s', got, want)
    elif op == 'append': a.append(x); m.append(x)
    elif op == 'extend': a.extend([x, i]); m.extend([x, i])
    elif op == 'pop':
        if m: ensure(a.pop() is m.pop(), 'pop')
    elif op == 'toArray':
        t = a.toArray(); ensure(isinstance(t, list) and same_items(t, m), 'as an array: %s', t)
    elif op == 'length':
        ensure(a.length == len(m), 'the length is %s', a.length)
        raises(AttributeError, setattr, a, 'length', i)
    elif op == 'iter': ensure(same_items(list(iter(a)), m), 'items %s', list(iter(a)))

def same_items(t, m): return len(t) == len(m) and all(p is q for p, q in zip(t, m))

@contract('C23', g_ops, [(l, [(op, i, u'x')]) for l in ([], [u'a'], [u'a', u'b', u'a', None]) for op in OPS for i in (-2, -1, 0, 1, 2, 3, 4, 5)], shrink=True, weight=2)
def like_a_list(case):
    """after any operations a collection holds what a plain list would; a wrong index raises IndexError and changes nothing"""
    start, ops = case
    a = flex.ArrayCollection(list(start)); m = list(start)
    a = flex.ArrayCollection(m)
    for op, i, x in ops:
        step(a, m, op, i, x)
        ensure(same_items(a, m) and len(a) == len(m) and a.length == len(m), 'after %s(%s, %s) the collection is %s, a list %s', op, i, x, list(a), m)

class HasIter(object):
    def __iter__(self): return iter([1, u'b', None])
@contract('C23', None, ['dict', 'none', 'tuple', 'gen', 'iterable', 'list', 'coll', 'set'])
def sources(kind):
    """a collection is made of any iterable's items; a dictionary is refused"""
    if kind == 'dict': raises(TypeError, flex.ArrayCollection, {}); raises(TypeError, flex.ArrayCollection, {u'a': 1}); raises(TypeError, flex.ArrayCollection, pyamf.ASObject()); return
    src, want = {'none': (None, []), 'tuple': ((1, 2, 1), [1, 2, 1]), 'gen': ((x for x in (3, 4)), [3, 4]), 'iterable': (HasIter(), [1, u'b', None]), 'list': ([None, 0], [None, 0]),
                 'coll': (flex.ArrayCollection([5, 6]), [5, 6]), 'set': (set([9]), [9])}[kind]
    a = flex.ArrayCollection(src)
    ensure(list(a) == want and isinstance(a, list), '%s', a)
    ensure(flex.ArrayCollection() == [], 'a new collection holds %s', flex.ArrayCollection())

def acyclic(d):
    if d[0] == 'ref': return ('int', d[1])
    return tuple([acyclic(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and k else [(acyclic(y) if isinstance(y, tuple) and y and y[0] in KINDS else (y[0], acyclic(y[1])) if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple) else y) for y in x] if isinstance(x, list) else x for k, x in enumerate(d)])
KINDS = ('null', 'undef', 'bool', 'int', 'str', 'uni', 'float', 'date', 'day', 'rep', 'big', 'list', 'tuple', 'dict', 'mixed', 'asobj', 'dictsub', 'obj', 'a3', 'xml', 'ba', 'ref')

class Box(object): pass
def strip(v, seen):
    """the value without its proxies; sharing kept"""
    if id(v) in seen: return seen[id(v)][1]
    def put(o): seen[id(v)] = (v, o); return o
    if isinstance(v, flex.ArrayCollection): o = put([]); o.extend([strip(x, seen) for x in v]); return o
    if isinstance(v, flex.ObjectProxy): return put(strip(v._amf_object, seen))
    if type(v) in (list, tuple): o = put([]); o.extend([strip(x, seen) for x in v]); return o
    if type(v) in (dict, pyamf.ASObject): o = put(pyamf.ASObject()); o.update((k, strip(x, seen)) for k, x in v.items()); return o
    return v

def g_wrap(r): return r.choice(['coll', 'coll', 'proxy', 'proxyobj', 'nest', 'shared']), r.choice([0, 3]), acyclic(('list', [g_val(r, 3, 2) for _ in range(r.choice([0, 1, 2, 4]))])), [(n, acyclic(g_val(r, 3, 1))) for n in (u'a', u'b')][:r.randrange(3)]
@contract('C23', g_wrap, [(k, e, ('list', l), d) for k in ('coll', 'proxy', 'proxyobj', 'nest', 'shared') for e in (0, 3) for l in ([], [('int', 1), ('uni', u'eggs'), ('null',)], [('list', []), ('dict', [])]) for d in ([], [(u'a', ('uni', u'spam')), (u'b', ('int', 5))])], weight=2)
def encoded(case):
    """a collection or object proxy sent and received holds an equal value, and is one value if sent twice"""
    kind, enc, ld, dd = case
    l = build(ld, []); d = build(('asobj', dd), [])
    if kind == 'coll': v = flex.ArrayCollection(l)
    elif kind == 'proxy': v = flex.ObjectProxy(d)
    elif kind == 'proxyobj':
        o = Plain(); o.__dict__.update((str(k), x) for k, x in d.items()); v = flex.ObjectProxy(o)
    elif kind == 'nest': v = flex.ArrayCollection([flex.ArrayCollection(l), flex.ObjectProxy(d), flex.ArrayCollection()])
    else: inner = flex.ArrayCollection(l); v = flex.ArrayCollection([inner, d, inner, flex.ObjectProxy(d), l, l])
    b, out, left = enc_dec([[v, v], u'end'], enc)
    ensure(left == 0 and out[1] == u'end', 'left %s, then %s', left, out[1])
    g, h = out[0]
    ensure(g is h, 'a value sent twice is two values')
    ensure(type(g) is type(v), '%s came back as %s', type(v), type(g))
    if kind == 'proxyobj': x = same(v._amf_object, g._amf_object, ctx(3))
    else: x = same(strip(v, {}), strip(g, {}), ctx(3))
    ensure(x is None, '%s', x)
    if kind == 'nest': ensure([type(i) for i in g] == [type(i) for i in v], '%s', g)
    if kind == 'shared':
        ensure(g[0] is g[2] and g[3]._amf_object is g[1] and g[4] is g[5] and g[0] is not g[4], 'sharing changed: %s', g)

@contract('C23', g_wrap, [('x', 3, ('list', l), d) for l in ([], [('int', 1), ('null',)]) for d in ([], [(u'a', ('uni', u'spam'))])])
def wrapping(case):
    """wrapping a list or dictionary and unwrapping it gives back an equal value; other values are left alone"""
    kind, enc, ld, dd = case
    l = build(ld, []); d = build(('asobj', dd), [])
    for v in (l, tuple(l)):
        p = flex.proxy_object(v)
        ensure(type(p) is flex.ArrayCollection and same_items(p, l), '%s', p)
        u = flex.unproxy_object(p); ensure(type(u) is list and same_items(u, l), '%s', u)
    for v in (d, dict(d), pyamf.MixedArray(d)):
        p = flex.proxy_object(v)
        ensure(type(p) is flex.ObjectProxy and p._amf_object is v, '%s', p)
        ensure(flex.unproxy_object(p) is v, '%s', flex.unproxy_object(p))
    for v in (None, 5, u'x', 1.5, Plain(), flex.ArrayCollection([1]), flex.ObjectProxy({}), True):
        ensure(flex.proxy_object(v) is v, '%s', v)
    for v in (None, 5, u'x', [1], {u'a': 1}, Plain()): ensure(flex.unproxy_object(v) is v, '%s', v)
    e = flex.ObjectProxy(); ensure(type(e._amf_object) is pyamf.ASObject and not e._amf_object, '%s', e)

@contract('C23', g_wrap, [('x', 3, ('list', l), d) for l in ([], [('int', 1), ('list', [('uni', u'a')]), ('dict', [('k', ('null',))])]) for d in ([], [(u'a', ('list', [('int', 1)]))])])
def automatic(case):
    """with proxies on for both sides, lists and dictionaries come back equal and are proxies on the way"""
    kind, enc, ld, dd = case
    if "'mixed'" in repr((ld, dd)): return       # (arrives as an object)
    l = build(ld, []); d = build(('asobj', dd), [])
    v = [l, d, l, {u'q': l, u'd': d}, 5, u'x']
    b = encode(v, encoding=3, use_proxies=True).getvalue()
    dec = decoder(3, b, use_proxies=True); g = dec.readElement()
    ensure(dec.stream.at_eof(), 'bytes left')
    x = same(strip(v, {}), g, ctx(3)); ensure(x is None, '%s', x)
    p = decoder(3, b).readElement()
    ensure(type(p) is flex.ArrayCollection and type(p[0]) is flex.ArrayCollection and type(p[1]) is flex.ObjectProxy and p[0] is p[2], 'on the way: %s', p)
    if "'obj'" not in repr((ld, dd)) and "'dictsub'" not in repr((ld, dd)):
        x = same(strip(v, {}), strip(p, {}), ctx(3)); ensure(x is None, '%s', x)

@contract('C23', None, [('a', 1), ('b', u'x'), ('a', None), ('z', [1])])
def proxied_attributes(case):
    """reading and setting an attribute of a proxy reads and sets that of the object"""
    n, x = case
    o = Plain(); p = flex.ObjectProxy(o)
    raises(AttributeError, getattr, p, n)
    setattr(p, n, x)
    ensure(getattr(o, n) is x and getattr(p, n) is x and p._amf_object is o, '%s', vars(o))
    setattr(o, n, 7); ensure(getattr(p, n) == 7, '%s', getattr(p, n))
    q = Other(); p._amf_object = q
    ensure(p._amf_object is q and vars(p) == {'_amf_object': q} and not vars(q), '%s', vars(p))

A = '\x0a\x07Cflex.messaging.io.ArrayCollection'
@contract('C23', None, [('\x09\x05\x01\x04\x01\x04\x02', [1, 2]), ('\x09\x01\x01', []), ('\x0a\x0b\x01\x0dsource\x09\x03\x01\x04\x05\x01', [5]), ('\x04\x05', None), ('\x01', None), ('\x06\x03a', 'text')])
def received(case):
    """a received collection holds the list sent, also under the name source; anything that is no list is refused"""
    b, want = case
    if want is None: raises(pyamf.DecodeError, decoder(3, A + b).readElement); return
    if want == 'text': return
    g = decoder(3, A + b).readElement()
    ensure(type(g) is flex.ArrayCollection and list(g) == want, '%s', g)
