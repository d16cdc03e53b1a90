from contracts.envelopes import *

def sbytes(d):
    d = dict(d, strict=True)
    return remoting.encode(mk(d)[0], **opts(d)).getvalue()

def refused(b, why, **kw):
    r = outcome(remoting.decode, b, use_ext=False, **kw)
    ensure(r[0] == 'exc', '%s: decodes to %s', why, r[1])
    return r[1]

@contract('C13', lambda r: (g_env(r), r.randrange(10**6)), [(d, i) for d in EDGES[:4] for i in range(0)] + [(EDGES[2], None), (EDGES[3], None), (EDGES[5], None)], weight=2)
def truncated(c):
    """an envelope cut off anywhere is an error, in either mode"""
    d, at = c
    b = sbytes(d)
    for i in range(len(b)) if at is None else [at % len(b)]:
        for strict in (False, True): refused(b[:i], '%s of %s bytes' % (i, len(b)), strict=strict)

@contract('C13', lambda r: (r.randrange(10, 65536), g_env(r)), [(v, EDGES[2]) for v in (10, 11, 255, 256, 0x0300, 32767, 32768, 65535)])
def version(c):
    """a version above 9 is a decoding error, whatever follows"""
    v, d = c
    b = struct.pack('!H', v) + sbytes(d)[2:]
    for strict in (False, True): ensure(isinstance(refused(b, 'version %d' % v, strict=strict), pyamf.DecodeError), 'not a decoding error')

@contract('C13', lambda r: (g_env(r), r.randrange(100), r.choice([1, -1, 2, 256, -256, 2**31, r.randrange(-2**32, 2**32)])), [(d, i, x) for d in EDGES[1:6] for i in range(4) for x in (1, -1, 1 << 24)], weight=2)
def wrong_length(c):
    """in strict mode a header or body length that disagrees with its content is an error (and outside it makes no difference)"""
    d, which, delta = c
    w = Wire(sbytes(d))
    at = [x for x in w.headers + w.bodies]
    if not at: return
    x = at[which % len(at)]
    n = (len(x[3]) + delta) % 2**32
    if n == len(x[3]): return
    b = w.b[:x[2]] + struct.pack('!L', n) + w.b[x[2] + 4:]
    refused(b, 'length %d of %d' % (n, len(x[3])), strict=True)
    d = dict(d, strict=False)
    check(d, remoting.decode(b, **opts(d)), mk(d)[1])

@contract('C13', lambda r: (g_env(r), g_bytes(r) or 'x'), [(d, x) for d in EDGES[:4] for x in ('\0', 'abc', '\x05')])
def left_over(c):
    """bytes after the last body are an error in strict mode"""
    refused(sbytes(c[0]) + c[1], 'bytes left over', strict=True)

@contract('C13', lambda r: (g_env(r), r.choice(['h', 'm']), r.choice([1, 2, 255, 32768, 65535])), [(d, k, n) for d in EDGES[:5] for k in 'hm' for n in (1, 32768, 65535, 0x7fff)])
def wrong_count(c):
    """an envelope that announces more messages than it holds is an error"""
    d, k, n = c
    w = Wire(sbytes(d))
    if k == 'm':
        at = w.bodies[0][2] if w.bodies else None
        p = len(w.b) - 2 - sum(4 + len(x[3]) + 4 + len(x[0].encode('utf-8')) + len(x[1].encode('utf-8')) for x in w.bodies)
        if n <= len(w.bodies): return
        b = w.b[:p] + struct.pack('!H', n) + w.b[p + 2:]
    else:
        if w.headers or w.bodies: return
        b = w.b[:2] + struct.pack('!H', n) + w.b[4:]
    for strict in (False, True): refused(b, '%s announced' % n, strict=strict)

def env(version, headers, bodies):
    return struct.pack('!HH', version, len(headers)) + ''.join('\0\1h\0' + struct.pack('!L', len(h)) + h for h in headers) + struct.pack('!H', len(bodies)) + \
        ''.join(struct.pack('!H', len('/%d/onResult' % i)) + '/%d/onResult\0\4null' % i + struct.pack('!L', len(b)) + b for i, b in enumerate(bodies))

LEAD = ['\x0a\0\0\0\1\x0a\0\0\0\0', '\x03\0\1a\x05\0\0\x09', '\x11\x0a\x0b\x01\x03a\x06\x05hi\x01', '\x11\x09\x03\x01\x0a\x0b\x0fv.Plain\x01', '\x11\x09\x03\x01\x06\x05yo', '\x11\x0a\x23\x11v.Static\x05sa\x05sb\x01\x01', '\x10\0\x07v.Plain\0\0\x09']
REFS = ['\x07\0\0', '\x07\0\1', '\x11\x06\0', '\x11\x09\0', '\x11\x0a\0', '\x11\x0a\1', '\x11\x06\2', '\x0a\0\0\0\1\x07\0\1', '\x11\x0a\0']
@contract('C13', lambda r: (r.choice([0, 3]), r.choice(['h', 'm']), [r.choice(LEAD) for _ in range(r.randrange(1, 4))], r.choice(REFS)), [(v, k, LEAD, f) for v in (0, 3) for k in 'hm' for f in REFS])
def isolated(c):
    """a reference never resolves across message bodies, nor to a header's content"""
    v, k, lead, ref = c
    b = env(v, lead, [ref]) if k == 'h' else env(v, [], lead + [ref])
    for strict in (False, True):
        e = refused(b, 'a reference in a body resolves behind %s' % (lead,), strict=strict)
        ensure(isinstance(e, pyamf.ReferenceError), 'a dangling reference is %s', repr(e))

@contract('C13', lambda r: (g_env(r), g_env(r), g_val(r, 3, 2)), [(EDGES[2], EDGES[3], ('list', [('uni', u'q'), ('obj', 'Plain', [('a', ('uni', u'q'))]), ('ref', 0)]))], weight=2)
def same_alone(c):
    """a body is written the same and means the same alone or behind any headers and bodies"""
    d, e, v = c
    x = (u'the body', 'req', u'the.target', [v])
    for ver in (0, 3):
        if ver == 0 and "'Ext'" in repr(v): continue
        lead = {'v': ver, 'h': [h for h in e['h'] if e['v'] == ver], 'm': [m for m in d['m'] if d['v'] == ver and u(m[0]) != x[0]], 'strict': True, 'tz': None}
        both = dict(lead, m=lead['m'] + [x]); alone = dict(lead, h=[], m=[x])
        w1, w2 = Wire(sbytes(both)), Wire(sbytes(alone))
        if not ('dict' in repr(v) or 'asobj' in repr(v) or 'obj' in repr(v) or 'mixed' in repr(v)):
            ensure(w1.bodies[-1][3] == w2.bodies[0][3], 'written as %s, alone as %s', w1.bodies[-1][3], w2.bodies[0][3])
        m1 = remoting.decode(w1.b, strict=True, use_ext=False); m2 = remoting.decode(w2.b, strict=True, use_ext=False)
        check(both, m1, mk(both)[1])
        check(alone, m2, mk(alone)[1])
        # the same bytes, moved behind the others
        w3 = struct.pack('!HH', ver, len(w1.headers)) + w1.b[4:]
        bodies = w2.b[6:]
        moved = w1.b[:4 + sum(2 + len(n.encode('utf-8')) + 1 + 4 + len(val) for n, _, _, val in w1.headers)] + struct.pack('!H', 1) + bodies
        check(dict(both, m=[x]), remoting.decode(moved, strict=True, use_ext=False), dict(mk(both)[1]))
