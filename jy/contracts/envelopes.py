from graphs import *
from pyamf import remoting

def g_text(r, n=10):
    return r.choice([u'/1', u'/2', u'null', u'a.b', u'svc.method', u'\xe9\u20ac']) if r.randrange(2) else g_uni(r, n)

SUFFIX = (u'/onResult', u'/onStatus', u'/onDebugEvents')
def clean_target(t):
    if isinstance(t, str): t = t.decode('utf-8')
    return not any(t.endswith(s) for s in SUFFIX)

def g_body(r, enc): return g_val(r, enc, r.choice([0, 1, 2]))
def g_fault(r): return dict((k, r.choice([('null',), ('int', 5), ('list', []), ('uni', g_uni(r)), ('uni', u'Server.Call.Failed')])) for k in ('code', 'type', 'details', 'description') if r.randrange(3))
def g_env(r):
    version = r.choice([0, 0, 3, 3, 3, r.randrange(10)])
    enc = 3 if version == 3 else 0
    hs, seen = [], set()
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        n = g_text(r)
        if n in seen: continue
        seen.add(n); hs.append((n if r.randrange(3) else n.encode('utf-8'), bool(r.randrange(2)), g_body(r, enc)))
    ms, seen = [], set()
    for i in range(r.choice([0, 1, 1, 2, 3, 5])):
        n = u'/%d' % (i + 1) if r.randrange(2) else g_text(r)
        if n in seen or not clean_target(n): continue
        seen.add(n)
        n = n if r.randrange(3) else n.encode('utf-8')
        k = r.randrange(5)
        if k < 2:
            t = g_text(r, 30)
            ms.append((n, 'req', t if clean_target(t) else u't', [g_body(r, enc) for _ in range(r.choice([0, 1, 1, 2, 4]))]))
        elif k < 4: ms.append((n, 'res', r.randrange(3), g_body(r, enc)))
        else: ms.append((n, 'fault', g_fault(r)))
    return {'v': version, 'h': hs, 'm': ms, 'strict': bool(r.randrange(2)), 'tz': r.choice([None, None, 0, 3600, -7200])}

EDGES = [{'v': 0, 'h': [], 'm': [], 'strict': False, 'tz': None}, {'v': 3, 'h': [(u'a', True, ('list', [('null',)])), ('b', False, ('null',))], 'm': [], 'strict': True, 'tz': None},
    {'v': 0, 'h': [(u'a', True, ('null',)), ('b', True, ('null',))], 'm': [(u'/1', 'req', u'a.b', []), (u'/2', 'req', u'c', [('list', [('ref', 0)]), ('int', 1)])], 'strict': True, 'tz': None},
    {'v': 3, 'h': [], 'm': [('/1', 'res', 0, ('dict', [('me', ('ref', 0))])), ('/2', 'res', 1, ('uni', u'x')), ('/3', 'res', 2, ('null',)), ('/4', 'fault', {'code': ('uni', u'X')})], 'strict': True, 'tz': 3600},
    {'v': 0, 'h': [], 'm': [('/1', 'fault', {}), ('/2', 'req', u'onResult', [('date', (2000, 1, 1, 0, 0, 0, 0))]), (u'', 'req', u'', [])], 'strict': False, 'tz': -3600},
    {'v': 9, 'h': [(u'x' * 300, False, ('str', 'v'))], 'm': [(u'/onResul', 'req', u'a/onResult/b', [('null',)])], 'strict': True, 'tz': None},
    {'v': 0, 'h': [(u'', False, ('undef',))], 'm': [(u'/%d' % i, 'req', u't', [('int', i)]) for i in range(1, 40)], 'strict': True, 'tz': None}]

def mk(d):
    """the envelope and the values in it, by place"""
    e = remoting.Envelope(d['v']); vals = {}
    for n, req, v in d['h']:
        e.headers[n] = vals['h', n] = build(v, [])
        if req: e.headers.set_required(n)
    for m in d['m']:
        n = m[0]
        if m[1] == 'req':
            nodes = []
            vals['m', n] = [build(x, nodes) for x in m[3]]
            e[n] = remoting.Request(m[2], body=list(vals['m', n]))
        elif m[1] == 'res':
            vals['m', n] = build(m[3], [])
            e[n] = remoting.Response(vals['m', n], status=m[2])
        else:
            f = dict((k, build(v, [])) for k, v in m[2].items())
            vals['m', n] = f
            e[n] = remoting.Response(remoting.ErrorFault(**f), status=remoting.STATUS_ERROR)
    return e, vals

def opts(d):
    kw = {'strict': d['strict'], 'use_ext': False}
    if d['tz'] is not None: kw['timezone_offset'] = datetime.timedelta(seconds=d['tz'])
    return kw

def u(s): return s.decode('utf-8') if isinstance(s, str) else s

def check(d, e, vals):
    """the decoded envelope e against the description"""
    enc = 3 if d['v'] == 3 else 0
    ensure(e.amfVersion == d['v'], 'version %s', e.amfVersion)
    ensure(samekeys(dict((u(n), 1) for n in e.headers), dict((u(n), 1) for n, _, _ in d['h'])), 'headers %s', list(e.headers))
    for n, req, _ in d['h']:
        ensure(e.headers.is_required(u(n)) == req, 'header %s: must-understand is %s', n, e.headers.is_required(u(n)))
        x = same(vals['h', n], e.headers[u(n)], ctx(enc)); ensure(x is None, 'header %s: %s', n, x)
    got = [u(n) for n in e.keys()]
    ensure(got == [u(m[0]) for m in d['m']] and len(e) == len(d['m']), 'messages %s, expected %s', got, [m[0] for m in d['m']])
    for (n, m), w in zip(e, d['m']):
        v = vals['m', w[0]]
        if w[1] == 'req':
            ensure(type(m) is remoting.Request and u(m.target) == u(w[2]), 'request %s: %s', n, m)
            ensure(len(m.body) == len(v), 'request %s has %s arguments, expected %s', n, len(m.body), len(v))
            c = ctx(enc)
            for a, b in zip(v, m.body):
                x = same(a, b, c); ensure(x is None, 'request %s: %s', n, x)
        elif w[1] == 'res':
            ensure(type(m) is remoting.Response and m.status == w[2], 'response %s: %s', n, m)
            if w[2] == remoting.STATUS_ERROR and (isinstance(v, dict) and type(v) in (dict, pyamf.ASObject) or getattr(v, '__class__', None) in (Anon, AnonOld)): continue   # read as a fault
            x = same(v, m.body, ctx(enc)); ensure(x is None, 'response %s: %s', n, x)
        else:
            ensure(type(m) is remoting.Response and m.status == remoting.STATUS_ERROR and type(m.body) is remoting.ErrorFault, 'fault %s: %s', n, m)
            for k in ('code', 'type', 'details', 'description'):
                x = same(v.get(k, ''), getattr(m.body, k), ctx(enc)); ensure(x is None, 'fault %s, %s: %s', n, k, x)
            ensure(m.body.level == 'error', 'level %s', m.body.level)
        ensure(m.envelope is e, 'the message belongs to another envelope')

class Wire(object):
    """the layout of an envelope whose lengths are set"""
    def __init__(self, b):
        self.b = b; self.p = 0
        self.version = self.h(); self.headers = []; self.bodies = []
        for _ in range(self.h()):
            n = self.s(); f = ord(self.take(1)); at = self.p; self.headers.append((n, f, at, self.take(self.l())))
        for _ in range(self.h()):
            t = self.s(); r = self.s(); at = self.p; self.bodies.append((t, r, at, self.take(self.l())))
        ensure(self.p == len(b), 'the layout covers %s of %s bytes', self.p, len(b))
    def take(self, n):
        ensure(self.p + n <= len(self.b), 'a length runs past the end')
        self.p += n
        return self.b[self.p - n:self.p]
    def h(self): return struct.unpack('!H', self.take(2))[0]
    def l(self): return struct.unpack('!L', self.take(4))[0]
    def s(self): return self.take(self.h()).decode('utf-8')
