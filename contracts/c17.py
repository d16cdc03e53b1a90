"""Deductive part: WSGIGateway.__call__ and DjangoGateway.__call__ for every request method, body length, decoding outcome (any
message, or an error of any class), processing outcome and encoding outcome, debugging on or off, with or without a logger."""
from .gw import *
DJ = GW + 'django.DjangoGateway'
WS = GW + 'wsgi.WSGIGateway'
FMT = GW + 'format_exception'
BAD = ('pyamf.DecodeError', 'pyamf.EOStream')

def traced(ex): return ex.memo.setdefault('traceback', R.sym_str(ex, 'traceback', 'b'))
def c_format(ex, f, a, k): return traced(ex)
CALLEE[FMT] = 'assumed: the text of the traceback (traceback.print_exc)'
CALLEE['pyamf.remoting.decode'] = CALLEE['pyamf.remoting.encode'] = CALLEE[WS + '.getResponse'] = CALLEE[DJ + '.getResponse'] = 'arbitrary outcome'

def log(ex):
    return [None, Opaque('logger', (), {'truth': lambda *a: True, 'getattr': lambda ex2, o, n: Opaque('log', (), {'call': lambda *a: None})})][ex.choice(2)]

def shows(ex, body):
    """whether a text has (part of) the traceback in it"""
    return any(isinstance(p, R.Seg) and p.atom.fname == traced(ex).parts[0].atom.fname for p in R.parts_of(body)) if isinstance(body, R.Rope) else False

class Req(object):
    """one request and what becomes of it"""
    def __init__(self, ex, cls, has_log=True):
        self.ex = ex
        self.debug = bool(ex.choice(2)); self.strict = bool(ex.choice(2))
        self.g = call(ex, cls, debug=self.debug, strict=self.strict, logger=log(ex))
        self.tz = attr(ex, self.g, '_get_timezone_offset')
        self.stage = 'start'; self.o = None
        self.env = Opaque('request envelope', (), {'truth': lambda *a: True}); self.reply = Opaque('response envelope', (), {'truth': lambda *a: True})
        self.out = R.sym_str(ex, 'encoded', 'b')
        scope(ex, **{'pyamf.remoting.decode': self.decode, 'pyamf.remoting.encode': self.encode, cls + '.getResponse': self.process})
    def at(self, stage, value):
        self.stage = stage
        self.o = outcome(self.ex, stage, lambda: value)
        self.ex.cover('%s %s' % (stage, self.o[0]))
        return play(self.o)
    def decode(self, ex, f, a, k):
        ex.prove(self.stage == 'reading', 'decoded-once', self.stage)
        same(ex, a[0], self.body, 'the-body-decoded')
        ex.prove(I.truth(ex, k.get('strict', a[1] if len(a) > 1 else False)) == self.strict, 'as-strict-as-configured')
        return self.at('decoding', self.env)
    def process(self, ex, f, a, k):
        ex.prove(self.stage == 'decoding' and self.o[0] == 'ok' and any(x is self.env for x in a), 'the-request-decoded')
        return self.at('processing', self.reply)
    def encode(self, ex, f, a, k):
        ex.prove(self.stage == 'processing' and self.o[0] == 'ok' and a[0] is self.reply, 'the-response-encoded')
        return self.at('encoding', BS(ex, self.out, 0).st)
    def expected(self):
        """the status of this request"""
        ex = self.ex; e = self.o and self.o[0] != 'ok' and self.o[1]
        if self.stage in ('reading', 'decoding') and e:
            if any(ex.branch(as_bool(ERRORS(ex, e, c))) for c in [G(ex, n) for n in BAD] + [ex.world.builtins['IOError']]): return 400
            return 500
        if e: return 500
        return {'encoding': 200, 'length': 500}.get(self.stage)
    def details(self, body):
        if not self.debug: self.ex.prove(not shows(self.ex, body), 'no-details-without-debugging')

def wsgi(ex):
    q = Req(ex, WS)
    m = [b'POST', R.sym_str(ex, 'method', 'b')][ex.choice(2)]
    post = m == b'POST' if isinstance(m, bytes) else ex.branch(as_bool(R.eq(ex, m, b'POST')))
    d = ex.heap.new(HDict())
    I.dict_set(ex, d, b'REQUEST_METHOD', m)
    n = ex.int('length', lo=0)
    ln = ex.choice(4)
    if ln: I.dict_set(ex, d, b'CONTENT_LENGTH', [b'', R.atom_rope(R.decimal_atom(ex, n.t, 'b')), b'x'][ln - 1])
    want = n if ln == 2 else 0
    q.body = R.sym_str(ex, 'body', 'b')
    def read(ex2, f, a, k):
        ex2.prove(q.stage == 'start', 'read-once'); ex2.prove(len(a) == 1 and as_bool(I.num_eq(ex2, a[0], want)), 'its-length-read', repr(a))
        return q.at('reading', q.body)
    I.dict_set(ex, d, b'wsgi.input', Opaque('input', (), {'getattr': lambda ex2, o, nm: Opaque('read', (), {'call': read}) if nm == 'read' else MISS}))
    starts = []
    start = Opaque('start_response', (), {'call': lambda ex2, f, a, k: starts.append(a)})
    r = result(ex, lambda: I.call(ex, q.g, [d, start], {}))
    if not post:
        want = 400; ex.prove(q.stage == 'start', 'nothing-read'); ex.cover('method')
    elif ln == 3: want = 500; ex.prove(q.stage == 'start', 'nothing-read'); ex.cover('length')
    elif q.o[0] == 'exit' and q.stage != 'encoding':
        ex.prove(r[0] == 'exc' and r[2] is q.o[1] and not starts, 'exits-pass'); return
    else: want = q.expected()
    expect(ex, r, 'ok', 'answered')
    ex.prove(len(starts) == 1, 'started-once', repr(len(starts)))
    st, hs = starts[0][0], I.iterate(ex, starts[0][1])
    ex.prove(isinstance(st, bytes) and st.split(b' ')[0] == str(want).encode() and len(st) > 4, 'status-%s' % want, repr(st))
    ex.prove(all(isinstance(h, tuple) and len(h) == 2 and R.is_str(h[0]) and R.is_str(h[1]) for h in hs), 'header-pairs')
    h = dict((x[0].lower(), x[1]) for x in hs); ex.prove(len(h) == len(hs), 'each-header-once')
    parts = I.iterate(ex, r[1]); body = b''
    for p in parts: ex.prove(R.is_str(p), 'body-bytes'); body = R.concat(ex, body, p)
    ln = h.get(b'content-length')
    ex.prove(ln is not None and R.is_text(ln), 'a-content-length')
    same_bytes(ex, ln, call(ex, ex.world.builtins['str'], mkint(as_int(R.length(ex, body)))), 'content-length')
    if want == 200:
        same_bytes(ex, h.get(b'content-type'), b'application/x-amf', 'content-type'); same_bytes(ex, body, q.out, 'the-encoded-response')
    else:
        ex.prove(h.get(b'content-type') != b'application/x-amf', 'content-type-of-errors'); q.details(body)
wsgi.__doc__ = 'WSGI: one start, its status, the exact length; errors of any class are answered; details only when debugging'

def django(ex):
    q = Req(ex, DJ)
    m = [b'POST', R.sym_str(ex, 'method', 'b')][ex.choice(2)]
    post = m == b'POST' if isinstance(m, bytes) else ex.branch(as_bool(R.eq(ex, m, b'POST')))
    q.body = R.sym_str(ex, 'body', 'b'); q.stage = 'reading'
    old = ex.choice(2)
    def get(ex2, o, n):
        if n == 'method': return m
        if n == ('raw_post_data' if old else 'body'): return q.body
        I.attr_error(ex2, o, n)
    req = Opaque('http request', (), {'getattr': get, 'truth': lambda *a: True})
    r = result(ex, lambda: I.call(ex, q.g, [req], {}))
    if not post: want = 405; ex.prove(q.stage == 'reading', 'nothing-read'); ex.cover('method')
    elif q.o[0] == 'exit' and q.stage != 'encoding':
        ex.prove(r[0] == 'exc' and r[2] is q.o[1], 'exits-pass'); return
    else: want = q.expected()
    expect(ex, r, 'ok', 'answered')
    ex.prove(I.is_subclass(ex, I.class_of(ex, r[1]), G(ex, 'django.http.HttpResponse')), 'a-response')
    same_value(ex, attr(ex, r[1], 'status_code'), want, 'status-%s' % want)
    body = attr(ex, r[1], 'content')
    ex.prove(R.is_str(body), 'body-bytes')
    h = lambda n: result(ex, lambda: F_getitem(ex, r[1], n))
    if want == 200:
        ct = h(b'Content-Type'); ex.prove(ct[0] == 'ok', 'content-type'); same_bytes(ex, ct[1], b'application/x-amf', 'content-type'); same_bytes(ex, body, q.out, 'the-encoded-response')
        cl = h(b'Content-Length'); ex.prove(cl[0] == 'ok', 'content-length'); same_bytes(ex, cl[1], call(ex, ex.world.builtins['str'], mkint(as_int(R.length(ex, body)))), 'content-length')
    else: q.details(body)
django.__doc__ = 'Django: the status of each outcome, type and exact length of a reply; errors of any class are answered; details only when debugging'
from pyvc.frame import getitem as F_getitem
from .coders import same_value

def settings(ex):
    """the Django settings: debugging and time offset as configured there unless given"""
    s = G(ex, 'django.conf.settings')
    dbg, off = Opaque('debug', (), {'truth': lambda *a: True}), Opaque('offset')
    a, b = ex.choice(2), ex.choice(2)
    if a: I.setattr_(ex, s, 'DEBUG', dbg)
    if b: I.setattr_(ex, s, 'AMF_TIME_OFFSET', off)
    given = ex.choice(2)
    g = call(ex, DJ, **(dict(debug=False, timezone_offset=None) if given else {}))
    want = (False, None) if given else (dbg if a else False, off if b else None)
    ex.prove(attr(ex, g, 'debug') is want[0], 'debug'); ex.prove(attr(ex, g, 'timezone_offset') is want[1], 'offset')
    ex.prove(attr(ex, g, 'expose_request') is True, 'exposes')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in ('pyamf.remoting.decode', 'pyamf.remoting.encode', WS + '.getResponse', DJ + '.getResponse')}
    CON[FMT] = c_format
    st = tuple('%s %s' % (s, o) for s in ('decoding', 'processing', 'encoding') for o in ('ok', 'error', 'exit'))
    L_ = lambda n, f, **k: Lemma('C17.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('wsgi', wsgi, cover=('method', 'length', 'reading error') + st), L_('django', django, cover=('method',) + st), L_('settings', settings)]
