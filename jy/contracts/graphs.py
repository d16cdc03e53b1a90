from vals import *

def roundtrip(ds, enc, **kw):
    nodes = []
    vs = [build(d, nodes) for d in ds]
    try:
        b, out, left = enc_dec(vs, enc, **kw)
    except pyamf.BaseError as e:
        raise Broken('encoding or decoding fails: %s %s' % (e.__class__.__name__, short(str(e))))
    c = ctx(enc)
    for v, w in zip(vs, out):
        e = same(v, w, c); ensure(e is None, '%s (bytes %s)', e, b)
    ensure(left == 0, '%s bytes left over', left)
    return b, vs, out

def g_graph(enc):
    def g(r):
        depth = r.choice([1, 2, 2, 3, 3, 4])
        return [g_val(r, enc, depth) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return g

S = ('list', [])
EDGES = lambda enc: [
    [('list', [('list', []), ('ref', 1), ('ref', 0)])], [('dict', [('a', ('dict', [])), ('b', ('ref', 1)), ('me', ('ref', 0))])],
    [('obj', 'Plain', [('a', ('ref', 0)), ('b', ('obj', 'Plain', [('a', ('ref', 0)), ('c', ('ref', 1))]))]), ('ref', 1)],
    [('obj', 'Static', [('sa', ('ref', 0)), ('sb', ('list', [('ref', 0)]))])], [('tuple', []), ('tuple', []), ('list', [])],
    [('mixed', []), ('mixed', [(0, ('int', 1)), (1, ('int', 2)), ('k', ('ref', 1))])], [('mixed', [(3, ('null',)), (7, ('undef',)), ('x', ('null',))])],
    [('list', [('date', (1970, 1, 1, 0, 0, 0, 0)), S, ('date', (2000, 1, 1, 0, 0, 0, 0)), S, ('ref', 2), ('ref', 1)])],
    [('list', [('xml', '<a/>'), S, ('xml', '<b/>'), S, ('ref', 4), ('ref', 2), ('ref', 1), ('ref', 3)])],
    [('list', [('day', (1999, 1, 2)), S, ('ref', 1), ('uni', u'q'), ('str', 'q')])],
    [('obj', 'Sub', [('ba', ('int', 1)), ('zz', S), ('q', ('ref', 1))]), ('obj', 'Sub', [('ba', ('null',)), ('zz', ('ref', 0))]), ('obj', 'Base', [('ba', ('ref', 0))])],
    [('list', [('obj', 'Plain', [('n%d' % i, ('int', i))]) for i in range(40)] + [('ref', 17), ('ref', 40)])],
    [('list', [('list', []) for i in range(70)] + [('ref', 1), ('ref', 63), ('ref', 64), ('ref', 65), ('ref', 70)])],
    [('list', [('int', i) for i in range(n)]) for n in (63, 64, 127, 128, 300)],
    [('dict', [('k%d' % i, ('int', i)) for i in range(n)]) for n in (0, 1, 2, 100)],
    [('mixed', [(i, ('int', i)) for i in range(n)]) for n in (0, 1, 63, 64, 65, 130)],
    [('obj', 'Anon', [('a', ('ref', 0))]), ('obj', 'AnonOld', [('a', ('ref', 0))]), ('obj', 'OldStyle', [('a', ('ref', 2))])],
    [('dictsub', [('a', ('ref', 0))]), ('asobj', [('b', ('ref', 1))])],
    [('obj', 'Prop', [('v', ('list', [])), ('q', ('ref', 1))])], [('obj', 'Syn', [('local', ('list', [])), ('q', ('ref', 1))])],
    [('ba', 'abc', 0), ('ref', 0), ('list', [('ref', 0)])],
]

def nested(n, enc, kind):
    inner = top = [] if kind == 'list' else {} if kind == 'dict' else Plain()
    for i in range(n):
        nxt = [] if kind == 'list' else {} if kind == 'dict' else Plain()
        if kind == 'list': inner.append(i); inner.append(nxt)
        elif kind == 'dict': inner['n'] = nxt
        else: inner.n = nxt
        inner = nxt
    if kind == 'list': inner.append(top)
    elif kind == 'dict': inner['top'] = top
    else: inner.top = top
    b, out, left = enc_dec([top], enc)
    c = ctx(enc)
    e = same(top, out[0], c); ensure(e is None, '%s', e)
    ensure(left == 0, '%s bytes left', left)

def many(n, enc, kind, idx):
    """n distinct containers, then references to some of them"""
    idx = sorted(set(idx))
    mk = {'list': list, 'dict': dict, 'obj': Plain, 'mixed': pyamf.MixedArray}[kind]
    xs = [mk() for _ in range(n)]
    for i in idx:
        if kind == 'list': xs[i].append(i)
        elif kind == 'obj': xs[i].i = i
        else: xs[i]['i'] = i
    top = xs + [xs[i] for i in idx]
    b, out, left = enc_dec([top], enc)
    o = out[0]
    ensure(len(o) == len(top) and left == 0, 'length %s, %s bytes left', len(o), left)
    for j, i in enumerate(idx):
        ensure(o[i] == [i] if kind == 'list' else o[i].i == i if kind == 'obj' else o[i]['i'] == i, 'element %s became %s', i, o[i])
        y = o[n + j]
        ensure(y == [i] if kind == 'list' else y.i == i if kind == 'obj' else y['i'] == i, 'the second occurrence of element %s became %s', i, y)
        if enc == 0 and i + 1 > 65535: continue      # beyond the index range AMF0 writes the value again
        ensure(y is o[i], 'the reference to element %s of %s decodes as %s', i, n, y)
    ensure(len(set(map(id, o[:n]))) == n, 'distinct values were merged')
