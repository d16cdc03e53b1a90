from contracts.envelopes import *

@contract('C12', g_env, EDGES, weight=3)
def envelope(d):
    """an envelope decodes to the same version, headers, flags and messages in the same order, and the stream is consumed"""
    e, vals = mk(d)
    b = remoting.encode(e, **opts(d)).getvalue()
    st = BufferedByteStream(b)
    check(d, remoting.decode(st, **opts(d)), vals)
    ensure(st.remaining() == 0, '%s bytes left', st.remaining())

@contract('C12', g_env, EDGES)
def layout(d):
    """counts, flags, names, targets and (in strict mode) the byte length of every header value and body are written exactly"""
    d = dict(d, strict=True)
    e, vals = mk(d)
    w = Wire(remoting.encode(e, **opts(d)).getvalue())
    ensure(w.version == d['v'], 'version %s', w.version)
    ensure(sorted((n, f) for n, f, _, _ in w.headers) == sorted((u(n), int(q)) for n, q, _ in d['h']), 'headers %s', w.headers)
    ensure(len(w.bodies) == len(d['m']), '%s bodies', len(w.bodies))
    for (t, r, _, body), m in zip(w.bodies, d['m']):
        if m[1] == 'req':
            ensure(t == u(m[2]) and r == u(m[0]), 'request %s is sent to %s for %s', m[:3], t, r)
            ensure(body[0] == '\x0a' and struct.unpack('!L', body[1:5])[0] == len(m[3]), 'arguments %s', body)
        else: ensure(t == u(m[0]) + SUFFIX[m[2] if m[1] == 'res' else 1] and r == u'null', 'response %s is sent to %s for %s', m[:3], t, r)
    d2 = dict(d, strict=False)
    b2 = remoting.encode(mk(d2)[0], **opts(d2)).getvalue()
    want = list(w.b)
    for x in w.headers + w.bodies: want[x[2]:x[2] + 4] = '\0\0\0\0'
    if not [1 for x in d['h'] if x[2][0] in ('dict', 'asobj', 'mixed', 'obj')]: ensure(b2 == ''.join(want), 'strict mode changes more than the lengths: %s / %s', b2, w.b)

@contract('C12', lambda r: [(r.choice(['set', 'set', 'req', 'unreq', 'del']), r.choice(['a', u'b', 'c']), r.randrange(9)) for _ in range(r.randrange(1, 14))],
          [[('set', 'a', 1), ('req', 'a', 0), ('unreq', 'a', 0), ('unreq', 'a', 0), ('set', 'a', 2)], [('req', 'a', 0), ('unreq', 'a', 0)]])
def header_flags(ops):
    """the must-understand flag of a header is what it was last set to; an unknown header has none"""
    h = remoting.HeaderCollection(); model = {}
    for op, n, v in ops:
        if op == 'set': h[n] = v; model.setdefault(n, [v, False])[0] = v
        elif op == 'del':
            if n in model and not model[n][1]: del h[n]; del model[n]
        elif n in model: h.set_required(n, op == 'req'); model[n][1] = op == 'req'
        else: raises(KeyError, h.set_required, n, op == 'req')
        for k in ('a', 'b', 'c'):
            if k in model: ensure(h[k] == model[k][0] and h.is_required(k) is model[k][1], 'header %s: %s, %s', k, h[k], h.is_required(k))
            else: raises(KeyError, h.is_required, k)
        ensure(len(h) == len(model), 'length %s', len(h))
    raw = [(n, model[n][1], model[n][0]) for n in model]
    g = remoting.HeaderCollection(raw)
    for n in model: ensure(g[n] == model[n][0] and g.is_required(n) == model[n][1], 'header %s', n)

@contract('C12', lambda r: [(r.choice(u'abcd'), r.randrange(9)) for _ in range(r.randrange(1, 9))], [[(u'a', 1), (u'b', 2), (u'a', 3)]])
def envelope_map(ops):
    """an envelope is an ordered mapping of identifiers to messages: setting one again replaces it in place"""
    e = remoting.Envelope(0); order = []; model = {}
    for k, v in ops:
        m = remoting.Request('t%d' % v); e[k] = m
        if k not in model: order.append(k)
        model[k] = m
        ensure(m.envelope is e and m.headers is e.headers, 'the message is not bound to its envelope')
        ensure(e.keys() == order and len(e) == len(order) and list(e) == [(q, model[q]) for q in order] and list(e.iteritems()) == list(e) and bool(e), 'content %s', list(e))
        for q in u'abcd':
            ensure((q in e) == (q in model), 'membership of %s', q)
            if q in model: ensure(e[q] is model[q], '%s', q)
            else: raises(KeyError, e.__getitem__, q)
        raises(TypeError, e.__setitem__, k, 5)
        ensure(e[k] is m, 'a refused message was stored')

@contract('C12', None, [100, 32767, 32768, 40000])
def many_bodies(n):
    """any number of messages up to 65535"""
    e = remoting.Envelope(0)
    e.bodies = [(str(i), remoting.Request('t')) for i in range(n)]      # (setting them one by one is quadratic)
    b = remoting.encode(e, use_ext=False).getvalue()
    ensure(b[:6] == '\0\0\0\0' + struct.pack('!H', n), 'starts %s', b[:6])
    if n > 1000: return
    ensure(len(remoting.decode(b)) == n, 'decodes to %s', len(remoting.decode(b)))
