from contracts.graphs import *

@contract('C07', g_graph(3), EDGES(3) + [
    [('obj', 'Ext', [('a', ('ref', 0)), ('b', ('list', []))]), ('ref', 0), ('obj', 'Ext', [('b', ('ref', 1))])],
    [('list', [('obj', 'Plain', [('a', ('int', 1))]), ('obj', 'Static', []), ('obj', 'Plain', [('b', ('int', 1))]), ('obj', 'Ext', []), ('obj', 'Static', [])])],
    [('mixed', [(-1, ('int', 1)), (0, ('int', 2)), (2, ('int', 3)), ('s', ('int', 4))])],
    [('dict', [(1, ('int', 1)), (u'\xe9', ('uni', u'\xe9'))]), ('str', '\xc3\xa9'), ('str', '1')]], weight=4)
def graph(ds):
    """any graph of containers and objects decodes to an equal graph with the same sharing and cycles, consumed exactly"""
    roundtrip(ds, 3)

@contract('C07', g_graph(3), EDGES(3)[:6])
def no_string_references(ds):
    """the same with string references switched off"""
    roundtrip(ds, 3, string_references=False)

@contract('C07', lambda r: (r.randrange(1, 60), r.choice(['list', 'dict', 'obj'])), [(300, 'list'), (200, 'dict'), (200, 'obj')])
def depth(c):
    """nesting depth and a cycle back to the top make no difference"""
    nested(c[0], 3, c[1])

@contract('C07', lambda r: (r.randrange(1, 400), r.choice(['list', 'dict', 'obj', 'mixed']), [r.randrange(1000) for _ in range(4)]),
          [(70, 'list', [0, 61, 62, 63, 64, 69]), (8300, 'list', [0, 62, 63, 8189, 8190, 8191, 8192, 8299]), (130, 'obj', [0, 62, 63, 64, 129]), (130, 'mixed', [0, 62, 63])])
def indices(c):
    """a reference among many values, whatever its index, names the value the encoder meant"""
    n, kind, idx = c
    many(n, 3, kind, [i % n for i in idx])

_cls = {}
def mkclass(n, dyn):
    if (n, dyn) not in _cls:
        class X(object): pass
        X.__amf__ = {'static': tuple('s%02d' % i for i in range(n)), 'dynamic': dyn}
        X.__name__ = 'W%d%s' % (n, dyn)
        pyamf.register_class(X, 'w.%d.%s' % (n, dyn))
        _cls[n, dyn] = X
    return _cls[n, dyn]

@contract('C07', lambda r: (r.randrange(0, 40), bool(r.randrange(2)), [r.randrange(300) for _ in range(r.randrange(1, 4))]),
          [(n, d, [1, 2]) for n in (0, 1, 3, 4, 7, 8, 9, 15, 16, 31, 32, 63, 64, 600) for d in (True, False)])
def wide_class(c):
    """classes with any number of static attributes, several instances, with and without dynamic attributes"""
    n, dyn, vals = c
    X = mkclass(n, dyn)
    xs = []
    for v in vals:
        o = X()
        for i in range(n): setattr(o, 's%02d' % i, v + i)
        if dyn: o.extra = [v]
        xs.append(o)
    b, out, left = enc_dec([xs, xs[0]], 3)
    ensure(left == 0 and len(out[0]) == len(xs), 'decodes as %s with %s bytes left', out, left)
    for x, y in zip(xs, out[0]):
        ensure(type(y) is X and y.__dict__ == x.__dict__, '%s became %s', x.__dict__, getattr(y, '__dict__', y))
    ensure(out[1] is out[0][0], 'sharing across values')

@contract('C07', lambda r: (r.randrange(1, 12), r.randrange(1, 9)), [(40, 2), (140, 1), (33, 3), (5, 30)])
def many_classes(c):
    """class definitions by reference, however many classes came before"""
    k, rep = c
    cs = [mkclass(i % 5, bool(i % 2)) if i < 10 else mkanon(i) for i in range(k)]
    xs = []
    for r in range(rep + 1):
        for C in cs:
            o = C()
            for a in (C.__amf__['static'] if hasattr(C, '__amf__') else ('p', 'q')): setattr(o, a, r)
            xs.append(o)
    b, out, left = enc_dec([xs], 3)
    ensure(left == 0 and len(out[0]) == len(xs), '%s bytes left', left)
    for x, y in zip(xs, out[0]):
        ensure(type(y) is type(x) and y.__dict__ == x.__dict__, '%s of %s became %s of %s', x.__dict__, type(x), getattr(y, '__dict__', y), type(y))
def mkanon(i):
    if i not in _cls:
        class X(object): pass
        X.__name__ = 'M%d' % i
        pyamf.register_class(X, 'm.%d' % i)
        _cls[i] = X
    return _cls[i]

@contract('C07', lambda r: (r.choice(['dict', 'asobj', 'mixed', 'obj', 'dictsub']), r.choice(['', u'']), g_scalar(r, 3), r.choice([None, 1, 'a'])),
          [(k, e, ('int', 1), None) for k in ('dict', 'asobj', 'mixed', 'obj', 'dictsub') for e in ('', u'')])
def refused_keys(c):
    """what AMF3 cannot represent (an empty attribute name, a key that is no name) is refused"""
    kind, k, d, other = c
    v = build(d, [])
    if kind == 'obj': o = Plain(); o.__dict__[str(k)] = v
    else:
        o = {'dict': dict, 'mixed': pyamf.MixedArray, 'asobj': pyamf.ASObject, 'dictsub': DictSub}[kind](); o[k] = v
    if other is not None:
        if kind == 'obj': o.a = 1
        else: o[other] = 1
    r = outcome(encode, o, encoding=3)
    ensure(r[0] == 'exc' and isinstance(r[1], (pyamf.EncodeError, ValueError, TypeError)), 'an empty key in a %s is encoded as %s', kind, r[1].getvalue() if r[0] == 'ok' else r[1])
    if kind == 'mixed':
        m = pyamf.MixedArray(); m[(1, 2)] = v
        r = outcome(encode, m, encoding=3)
        ensure(r[0] == 'exc', 'a tuple key is encoded')

@contract('C07', lambda r: [g_scalar(r, 3) for _ in range(r.randrange(4))], [[], [('int', 1)]])
def unknown_class(ds):
    """a typed object of an unregistered class keeps its attributes and, by reference, its identity and class"""
    sp = Spec3()
    vs = [build(d, []) for d in ds]
    n = len(vs)
    b = '\x09\x05\x01' + '\x0a' + u29(n << 4 | 0xb) + sp.text('v.None') + ''.join(sp.text('a%d' % i) for i in range(n))
    b += ''.join(sp.one(v) for v in vs) + sp.text('dyn') + '\x04\x05\x01' + '\x0a\x02'
    o = list(decoder(3, b))[0]
    ensure(o[0] is o[1] and isinstance(o[0], pyamf.TypedObject) and o[0].alias == 'v.None', 'decodes as %s', o)
    ensure(set(o[0]) == set(['a%d' % i for i in range(n)] + ['dyn']) and o[0]['dyn'] == 5, 'attributes %s', sorted(o[0]))
    for i in range(n):
        e = same(vs[i], o[0]['a%d' % i], ctx(3)); ensure(e is None, '%s', e)
    raises(pyamf.UnknownClassAlias, decoder(3, b, strict=True).readElement)
