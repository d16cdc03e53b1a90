from contracts.classes import *
from contracts.c09 import one, I

def g(r):
    specs = g_class(r)
    names = NAMES + ['f', 'X', 'Y', '_h', 'zz'] + [p for s in specs for p in s['props']] + [x for s in specs for x in (s['slots'] or [])]
    attrs = {}
    for n in names:
        if r.randrange(3): attrs[n] = r.choice([('int', r.randrange(9)), ('uni', u'v' + unicode(n)), ('list', [('int', 1)]), ('dict', [('k', ('int', 2))]), ('null',)])
    if r.randrange(3):
        for s in specs:
            for n in s['amf'].get('static', ()): attrs.setdefault(n, ('int', 7))
    if r.randrange(4): 
        syn = {}
        for s in specs: syn.update(s['amf'].get('synonym', {}))
        for n in list(attrs):
            if n in syn and syn[n] not in syn and r.randrange(3): attrs[syn[n]] = attrs.pop(n)
    return (specs, attrs)
EDGE = [([one({})], I('a', 'b')), ([one({'exclude': ['a']})], I('a', 'b')), ([one({'readonly': ['a']})], I('a', 'b')), ([one({'dynamic': False, 'static': ['a']})], I('a', 'b')),
        ([one({'static': ['a', 'b']})], I('a')), ([one({'static': ['a', 'b'], 'readonly': ['a']})], I('a', 'b')), ([one({'static': ['a', 'b'], 'exclude': ['a']})], I('a', 'b')),
        ([one({'dynamic': False})], I('a')), ([one({'exclude': ['a'], 'synonym': {'a': 'X'}})], I('X', 'b')), ([one({'readonly': ['a'], 'synonym': {'a': 'X'}})], I('X', 'b')),
        ([one({'synonym': {'a': 'X'}})], I('X', 'b')), ([one({'synonym': {'a': 'X'}, 'static': ['a']})], I('X')), ([one({'synonym': {'a': 'X'}, 'static': ['a'], 'dynamic': False})], I('X', 'b')),
        ([one({'exclude': ['a']}), one({})], I('a', 'b')), ([one({'readonly': ['a']}), one({})], I('a', 'b')), ([one({'dynamic': False}), one({})], I('a')),
        ([one({}, props={'p0': 'r'})], I('p0', 'a')), ([one({'dynamic': False}, props={'p0': 'rw', 'q0': 'r'})], I('p0', 'q0', 'a')), ([one({'exclude': ['p0']}, props={'p0': 'rw'})], I('p0')),
        ([one({}, slots=['s0', 't0'])], I('s0', 'a')), ([one({'exclude': ['a']}, dict=True)], I('a', 'b')), ([one({'dynamic': False, 'static': ['a']}, dict=True)], I('a', 'b')),
        ([one({'readonly': ['a']}, dict=True)], I('a', 'b')), ([one({'synonym': {'a': 'X'}, 'exclude': ['a']}, dict=True)], I('X', 'b'))]

def pairs0(d):
    return ''.join(struct.pack('!H', len(k)) + k + encode(v, encoding=0).getvalue() for k, v in d.items())

@contract('C10', g, EDGE, weight=3)
def applied(c):
    """incoming attributes are set exactly as far as the class configuration (bases included) permits"""
    specs, attrs = c
    e = effective(specs)
    props = dict((p, k) for s in specs for p, k in s['props'].items())
    if e.sealed and props or len(set(e.syn.values())) != len(e.syn): return
    if any(v == 'w' for v in props.values()) and e.isdict: return
    slots = [x for s in specs for x in (s['slots'] or [])]
    data = dict((n, build(d, [])) for n, d in attrs.items())
    for enc, how in ((0, 'wire'), (3, 'wire'), (3, 'static'), (3, 'direct')):
        if enc == 0 and e.proxy: continue
        ks = make(specs); K = ks[-1]
        try:
            alias = pyamf.register_class(K, 'k.K')
            inc = dict(data)
            local = dict(inc); ren = {}
            for l, x in e.syn.items():
                if x in local: ren[l] = local.pop(x)
            local.update(ren)
            missing = [s for s in e.static if s not in local]
            allowed = set(local) - e.exclude - e.readonly
            if not e.dynamic: allowed &= e.decodable
            if how == 'wire' and enc == 0: b = '\x10\0\x03k.K' + pairs0(inc) + '\0\0\x09'
            elif how == 'wire': 
                sp = ''.join(u29(len(k) << 1 | 1) + k + encode(v, encoding=3, string_references=False).getvalue() for k, v in inc.items())
                b = '\x0a\x0b\x07k.K' + sp + '\x01'
            else:
                ns = sorted(inc)
                b = '\x0a' + u29(len(ns) << 4 | 3) + '\x07k.K' + ''.join(u29(len(k) << 1 | 1) + k for k in ns) + ''.join(encode(inc[k], encoding=3, string_references=False).getvalue() for k in ns)
            if enc == 3 and how == 'wire' and len(inc) > 1: continue    # string table indices: see 'static'
            def run():
                if how == 'direct':
                    o = alias.createInstance()
                    alias.applyAttributes(o, dict(inc), codec=decoder(3, ''))
                    return o
                return decoder(enc, b).readElement()
            if missing:
                raises(AttributeError, run); continue
            bad = [n for n in allowed if n in props and 'w' not in props[n]]
            if e.sealed and [n for n in allowed if n not in slots]: 
                raises(AttributeError, run); continue
            o = run()
            ensure(type(o) is K, 'decodes as %s', o)
            if e.isdict: got = dict(o)
            elif e.sealed: got = dict((s, getattr(o, s)) for s in slots if hasattr(o, s))
            else:
                got = dict(o.__dict__)
                got.update((s, getattr(o, s)) for s in slots if hasattr(o, s))
                for p in props:
                    if '_' + p in got: got[p] = got.pop('_' + p)
            got = dict((str(k), v) for k, v in got.items())
            ensure(sorted(got) == sorted(allowed), '%s AMF%s: attributes %s are set, expected %s', how, enc, sorted(got), sorted(allowed))
            for n in allowed:
                d = same(local[n], got[n], ctx(enc)) if how != 'direct' else None if got[n] == local[n] else 'wrong value'
                ensure(d is None, 'attribute %s: %s', n, d)
        finally: forget(ks)

def g_twice(r):
    s, a = g(r)
    for x in s: x['amf'].pop('proxy', None)
    return (s, a, g(r)[1])
@contract('C10', g_twice, [(s, a, I('a', 'b', 'c', 'X')) for s, a in EDGE])
def every_instance(c):
    """later instances of the class in one message are filtered the same as the first"""
    specs, a1, a2 = c
    e = effective(specs)
    if e.sealed or len(set(e.syn.values())) != len(e.syn): return
    ks = make(specs); K = ks[-1]
    pyamf.register_class(K, 'k.K')
    try:
        def enc(a):
            d = dict((n, build(x, [])) for n, x in a.items())
            for s in e.static:
                if e.syn.get(s, s) not in d and s not in d: d[s] = 1
            return '\x10\0\x03k.K' + pairs0(d) + '\0\0\x09'
        def names(o): return sorted(str(k) for k in (o if e.isdict else o.__dict__))
        def dec(b):
            r = outcome(lambda: decoder(0, b).readElement())
            return r
        x, y = dec(enc(a1)), dec(enc(a2))
        both = dec('\x0a\0\0\0\x02' + enc(a1) + enc(a2))
        if x[0] == 'ok' and y[0] == 'ok':
            ensure(both[0] == 'ok', 'decoding two instances fails with %s', both[1])
            ensure(names(both[1][0]) == names(x[1]) and names(both[1][1]) == names(y[1]), 'two instances in a message: %s and %s, alone: %s and %s', names(both[1][0]), names(both[1][1]), names(x[1]), names(y[1]))
    finally: forget(ks)

@contract('C10', lambda r: [g_scalar(r, 3) for _ in range(2)], [[('int', 1), ('int', 2)]])
def unwrapped(ds):
    """a proxied attribute arrives unwrapped"""
    v = [build(d, []) for d in ds]
    class P(object):
        __amf__ = {'proxy': ('l', 'o')}
    pyamf.register_class(P, 'k.K')
    try:
        o = P(); o.l = list(v); o.o = {'x': v[0]}; o.n = [5]
        w = list(decoder(3, encode(o, encoding=3).getvalue()))[0]
        ensure(type(w) is P and type(w.l) is list and isinstance(w.o, dict) and w.n == [5], 'unwrapped as %s', w.__dict__)
        d = same(o.l, w.l, ctx(3)) or same(o.o, w.o, ctx(3)); ensure(d is None, '%s', d)
    finally: pyamf.unregister_class(P)
