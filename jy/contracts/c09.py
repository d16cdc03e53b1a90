from contracts.classes import *

def g(r):
    specs = g_class(r)
    names = NAMES + ['f', '_h'] + [p for s in specs for p in s['props']] + [x for s in specs for x in (s['slots'] or [])]
    attrs = {}
    for n in names:
        if r.randrange(3): attrs[n] = r.choice([('int', r.randrange(9)), ('uni', u'v' + unicode(n)), ('list', [('int', 1)]), ('dict', [('k', ('int', 2))]), ('null',)])
    return (specs, attrs)

def one(amf, **kw):
    s = {'amf': amf, 'slots': None, 'props': {}, 'dict': False, 'obj': False}
    s.update(kw); return s
I = lambda *names: dict((n, ('int', i + 1)) for i, n in enumerate(names))
EDGE = [([one({})], I('a', 'b')), ([one({'exclude': ['a']})], I('a', 'b')), ([one({'static': ['b', 'a'], 'dynamic': False})], I('a', 'c')),
        ([one({'static': ['a', 'b'], 'exclude': ['a']})], I('a', 'b', 'c')), ([one({'exclude': ['a']}), one({})], I('a', 'b')), ([one({'exclude': ['a']}), one({'static': ['a', 'b']})], I('a', 'b')),
        ([one({'dynamic': False}), one({})], I('a')), ([one({}), one({'dynamic': False}), one({})], I('a')), ([one({'synonym': {'a': 'X'}})], I('a', 'b')),
        ([one({'synonym': {'a': 'X'}, 'static': ['a', 'b']})], I('a', 'b')), ([one({'proxy': ['a', 'b']})], {'a': ('list', [('int', 1)]), 'b': ('dict', [('k', ('int', 1))]), 'c': ('list', [])}),
        ([one({'dynamic': False}, props={'p0': 'rw', 'q0': 'r'})], I('a', 'p0')), ([one({'exclude': ['p0']}, props={'p0': 'rw'})], I('a', 'p0')),
        ([one({}, slots=['s0', 't0'])], I('s0', 't0')), ([one({}, slots=['s0', 't0']), one({})], I('s0', 't0', 'a')), ([one({'exclude': ['a'], 'static': ['b']}, dict=True)], I('a', 'c')),
        ([one({'dynamic': False, 'static': ['b']}, dict=True)], I('a', 'b')), ([one({'dynamic': False}, dict=True)], I('a', 'b')), ([one({'synonym': {'a': 'X'}}, dict=True)], I('a', 'b')),
        ([one({'synonym': {'a': 'X'}}), one({'synonym': {'b': 'Y'}})], I('a', 'b', 'c')), ([one({'static': ['c', 'a']}), one({'static': ['b', 'd']})], I('a', 'b'))]

def expected(e, o, attrs, props, slots):
    have = dict((k, v) for k, v in attrs.items())
    if e.isdict:
        out = dict((k, v) for k, v in have.items() if (e.dynamic or k in e.encodable) and k not in e.exclude)
        for s in e.static: out.setdefault(s, pyamf.Undefined)
    else:
        out = {}
        for s in e.static: out[s] = have.get(s, pyamf.Undefined)
        names = set(e.enc_props - e.exclude)
        if e.dynamic: names |= set(o.__dict__) - e.exclude
        for n in names:
            if n not in out: out[n] = have[n]
    return out

@contract('C09', g, EDGE, weight=3)
def encoded(c):
    """what is written of an object is exactly what its class configuration (bases included) permits, with the right values"""
    specs, attrs = c
    e = effective(specs)
    if e.sealed and any(s['props'] for s in specs) or len(set(e.syn.values())) != len(e.syn): return
    ks = make(specs); K = ks[-1]
    try:
        o = K()
        props = dict((p, k) for s in specs for p, k in s['props'].items())
        slots = [x for s in specs for x in (s['slots'] or [])]
        vals = {}
        for n, d in attrs.items():
            v = build(d, [])
            if n in props:
                if 'w' not in props[n]: o.__dict__['_' + n] = v if not e.sealed else None
                elif e.sealed: continue
                else: setattr(o, n, v)
            elif e.isdict: o[n] = v
            elif n in slots: setattr(o, n, v)
            elif e.sealed: continue
            else: setattr(o, n, v)
            vals[n] = v
        if e.sealed and props: return
        if not e.isdict and not e.sealed:
            for n in list(o.__dict__): vals[n] = o.__dict__[n]
        for p in props:
            if 'r' in props[p]: vals.setdefault(p, getattr(o, p))
            else: vals.pop(p, None)
        for s in slots:
            if s not in vals and (s not in e.static or True): setattr(o, s, 0); vals[s] = 0
        want = expected(e, o, vals, props, slots)
        for l in list(want):
            if want[l] is pyamf.Undefined and l in e.static and not e.isdict and l in vals: want[l] = vals[l]
        ext = [e.syn.get(n, n) for n in want]
        if len(set(ext)) != len(ext): return          # two attributes under one external name
        order = [e.syn.get(n, n) for n in e.static]
        for enc in (0, 3):
            if enc == 0 and e.proxy: continue
            pyamf.register_class(K, 'k.K')
            b = encode(o, encoding=enc).getvalue()
            forget(ks)
            t = list(decoder(enc, b))[0]
            ensure(isinstance(t, pyamf.TypedObject), 'written as %s', t)
            ensure(sorted(t.keys()) == sorted(ext), 'AMF%s: %s are written, expected %s', enc, sorted(t.keys()), sorted(ext))
            for n in want:
                w = t[e.syn.get(n, n)]
                v = want[n]
                if n in e.proxy and enc == 3 and isinstance(v, (list, dict)):
                    ensure(type(w) is (flex.ArrayCollection if isinstance(v, list) else flex.ObjectProxy), 'proxied %s is written as %s', n, w)
                    w = list(w) if isinstance(v, list) else w._amf_object
                d = same(v, w, ctx(enc)); ensure(d is None, 'attribute %s: %s', n, d)
            if enc == 3 and order:
                # the names announced in the class definition, in order
                st = BufferedByteStream(b); st.seek(1)
                h = amf3.decode_int(st)
                ensure(h >> 4 == len(order), '%s attributes announced, expected %s', h >> 4, len(order))
                dec = decoder(3, st)
                ensure(dec.readBytes() == 'k.K', 'class name')
                names = [dec.readBytes() for _ in order]
                ensure(names == order, 'attributes announced in order %s, expected %s', names, order)
            if not e.dynamic and enc == 3 and not (set(want) - set(e.static)) and e.encodable == set(e.static):
                ensure(b[1] == u29(len(order) << 4 | 3)[0], 'a closed class is announced as dynamic')
    finally: forget(ks)

def g_multi(r):
    s, a = g(r)
    for x in s: x['amf'].pop('proxy', None); x['slots'] = None
    return (s, [a] + [g(r)[1] for _ in range(r.randrange(1, 4))])
@contract('C09', g_multi, [(s, [a, {}, a]) for s, a in EDGE if not any(x['slots'] or x['amf'].get('proxy') for x in s)])
def repeated(c):
    """later instances of a class in one message are filtered the same as the first"""
    specs, many = c
    e = effective(specs)
    if len(set(e.syn.values())) != len(e.syn): return
    if set(e.syn.values()) & set(['a', 'b']) and set(e.syn) - set(['a', 'b']): return
    names = set(n for a in many for n in a)
    ks = make(specs); K = ks[-1]
    props = dict((p, k) for s in specs for p, k in s['props'].items())
    try:
        xs = []
        for a in many:
            o = K()
            for n, d in a.items():
                if n in props:
                    if 'w' in props[n]: setattr(o, n, build(d, []))
                elif specs[0]['dict']: o[n] = build(d, [])
                elif n[0] not in 'st': setattr(o, n, build(d, []))
            xs.append(o)
        for enc in (0, 3):
            pyamf.register_class(K, 'k.K')
            alone = [encode(o, encoding=enc).getvalue() for o in xs]
            b = encode(xs, encoding=enc).getvalue()
            forget(ks)
            ts = list(decoder(enc, b))[0]
            for i, a in enumerate(alone):
                t = list(decoder(enc, a))[0]
                ensure(sorted(t.keys()) == sorted(ts[i].keys()), 'instance %s in a message has %s, alone %s', i, sorted(ts[i].keys()), sorted(t.keys()))
                for n in t: d = same(t[n], ts[i][n], ctx(enc)) if not isinstance(t[n], dict) else None; ensure(d is None, '%s: %s', n, d)
    finally: forget(ks)
