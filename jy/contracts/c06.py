from contracts.graphs import *

@contract('C06', g_graph(0), EDGES(0) + [[('a3', [('a', ('list', []))]), ('list', []), ('ref', 1), ('ref', 0)], [('dict', [('', ('int', 1)), ('b', ('ref', 0))])]], weight=4)
def graph(ds):
    """any graph of containers and objects decodes to an equal graph with the same sharing and cycles, consumed exactly"""
    roundtrip(ds, 0)

@contract('C06', lambda r: (r.randrange(1, 60), r.choice(['list', 'dict', 'obj'])), [(300, 'list'), (200, 'dict'), (200, 'obj')])
def depth(c):
    """nesting depth and a cycle back to the top make no difference"""
    nested(c[0], 0, c[1])

@contract('C06', lambda r: (r.randrange(1, 400), r.choice(['list', 'dict', 'obj', 'mixed']), [r.randrange(1000) for _ in range(4)]),
          [(260, 'list', [0, 254, 255, 256, 259]), (700, 'obj', [0, 255, 511, 512, 699]), (65540, 'list', [0, 255, 256, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65539])])
def indices(c):
    """a reference among many values, whatever its index, names the value the encoder meant"""
    n, kind, idx = c
    many(n, 0, kind, [i % n for i in idx])

@contract('C06', lambda r: (r.choice(['dict', 'mixed', 'obj']), r.choice([1, 100, 65534, 65535, 65536, 65537, 70000, 131072]), r.choice([u'a', 'a', u'\xe9'])),
          [(k, n, u) for k in ('dict', 'mixed', 'asobj') for n in (65535, 65536) for u in (u'k', 'k')], limit=30)
def long_key(c):
    """a key within 65535 bytes survives, a longer one is refused"""
    kind, n, u = c
    k = u * n
    if kind == 'obj' and isinstance(k, unicode): k = k.encode('utf-8')
    if kind == 'obj': v = Plain(); v.__dict__[k] = 5
    else: v = {'dict': dict, 'mixed': pyamf.MixedArray, 'asobj': pyamf.ASObject}[kind](); v[k] = 5
    if len(bkey(k)) > 65535: raises(pyamf.EncodeError, encode, v, encoding=0); return
    out = enc_dec([v], 0)[1][0]
    e = same(v, out, ctx(0)); ensure(e is None, '%s', e)

def g_unknown(r): return [(g_name(r, 0), g_scalar(r, 0)) for _ in range(r.randrange(4))]
@contract('C06', g_unknown, [[], [('a', ('int', 1))]])
def unknown_class(c):
    """a typed object of an unregistered class keeps its attributes and, by reference, its identity"""
    body = ''
    want = {}
    for k, d in c:
        k = bkey(k)
        if k in want: continue
        want[k] = build(d, [])
        body += struct.pack('!H', len(k)) + k + spec0(want[k])
    b = '\x0a\0\0\0\x02' + '\x10\x00\x06v.None' + body + '\0\0\x09' + '\x07\0\x01'
    o = list(decoder(0, b))[0]
    ensure(o[0] is o[1], 'reference to a typed object')
    ensure(isinstance(o[0], pyamf.TypedObject) and o[0].alias == 'v.None', 'decodes as %s', o[0])
    ensure(samekeys(o[0], want), 'attributes %s, expected %s', sorted(o[0]), sorted(want))
    for k in want:
        e = same(want[k], o[0][k], ctx(0)); ensure(e is None, '%s', e)
    dec = decoder(0, b, strict=True)
    raises(pyamf.UnknownClassAlias, dec.readElement)
