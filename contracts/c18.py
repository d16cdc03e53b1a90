"""Deductive part: queueing, removing and looking up requests among any number of others, the envelope sent for a batch of any
size, executing it, and what becomes of a response of any outcome, content type and headers, by functions and loop invariants."""
from .gw import *
from .coders import same_value
from .elements import Seq, seq_dict, Els, is_seq
C = RM + 'client.'
RS = C + 'RemotingService'
W = 'pending request'

def log(ex):
    return [None, Opaque('logger', (), {'truth': lambda *a: True, 'getattr': lambda ex2, o, n: Opaque('log', (), {'call': lambda *a: None})})][ex.choice(2)]

class Client(object):
    """a client with any number of requests pending"""
    def __init__(self, ex, queue=True, **k):
        self.ex = ex
        scope(ex, **{'urlparse.urlparse': self.parse})
        self.schemes = {}; self.url = R.sym_str(ex, 'url'); self.sent = []
        self.opener = k.pop('opener', Opaque('opener', (), {'callable': True, 'truth': lambda *a: True}))
        fixed = k.pop('fixed', None)
        self.version = (0, 3)[ex.choice(2)] if fixed is None else 3
        self.strict = bool(ex.choice(2)) if fixed is None else fixed
        self.c = call(ex, RS, self.url, amf_version=self.version, opener=self.opener, strict=self.strict, logger=log(ex) if fixed is None else None)
        self.n = ex.int('pending', lo=0).t; self.number = ex.int('number', lo=1).t
        self.loops = None
        if queue: self.queue([self.part(0, self.n)])
        I.setattr_(ex, self.c, 'request_number', mkint(self.number))
    def parse(self, ex, f, a, k):
        same_bytes_or(ex, a[0], self.url); ok = [b'http', b'https'][0]
        return (ok, b'', b'', b'', b'', b'')
    def queue(self, items): self.ex.heap.w(I.as_list(self.ex, attr(self.ex, self.c, 'requests')).a).items[:] = items
    def queued(self): return self.ex.heap.get(I.as_list(self.ex, attr(self.ex, self.c, 'requests')).a).items
    def id(self, j): return Opaque('identifier', (as_int(j),), {'eq': self.id_eq})
    def id_eq(self, ex, x, y):
        if x.name == y.name == 'identifier': return as_int(x.idx[0]) == as_int(y.idx[0])
        return z3.BoolVal(False)
    def service(self, j): return Opaque('service', (as_int(j),), {'str': lambda ex, o: R.sym_str(ex, 'target', 'b', ix=o.idx), 'eq': self.svc_eq, 'isinstance': lambda *a: False})
    def svc_eq(self, ex, x, y):
        # requests for the service sought: what its harness says
        o = x if x.name == 'service' else y
        return z3.BoolVal(True) if x.name == y.name == 'sought' else self.for_service(as_int(o.idx[0])) if 'sought' in (x.name, y.name) else as_int(x.idx[0]) == as_int(y.idx[0])
    def args(self, j):
        n = z3.Function('argument count', z3.IntSort(), z3.IntSort())(as_int(j)); self.ex.assume(n >= 0)
        return Opaque('arguments', (as_int(j),), {'eq': self.args_eq, 'iter': lambda ex, o: [L.Piece(n, lambda ex2, i: Opaque('argument', (as_int(j), as_int(i))), 'arguments %s' % j)]})
    def args_eq(self, ex, x, y):
        o = x if x.name == 'arguments' else y
        return self.for_args(as_int(o.idx[0]))
    def for_service(self, j): return z3.Function('for this service', z3.IntSort(), z3.BoolSort())(j)
    def for_args(self, j): return z3.Function('with these arguments', z3.IntSort(), z3.BoolSort())(j)
    def item(self, j):
        j = as_int(j)
        def get(ex, o, n):
            h = {'id': self.id, 'service': self.service, 'args': self.args}.get(n)
            return MISS if h is None else h(o.idx[0])
        return Opaque(W, (j,), {'getattr': get, 'truth': lambda *a: True, 'isinstance': lambda ex, o, c: c == G(ex, C + 'RequestWrapper') or c == ex.world.T['object'], 'eq': lambda ex, x, y: as_int(x.idx[0]) == as_int(y.idx[0]) if x.name == y.name else z3.BoolVal(False), 'str': lambda ex, o: b'<request>'})
    def part(self, lo, hi):
        p = L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex, j: self.item(tint(as_int(lo) + as_int(j))), W, lambda: self.loops(lo), lambda a, b: self.part(tint(as_int(lo) + as_int(a)), tint(as_int(lo) + as_int(b))))
        def where(ex, x):
            if not (isinstance(x, Opaque) and x.name == W): return None
            j = as_int(x.idx[0])
            return tint(j - as_int(lo)) if ex.branch(z3.And(j >= as_int(lo), j < as_int(hi))) else None
        p.where = where; p.lo = lo
        return p
    def is_queue(self, want, name):
        """obligation: exactly these requests are pending, in order"""
        ex = self.ex
        a = [x for x in self.queued() if not (I.is_piece(x) and ex.valid(as_int(x.count(ex)) == 0))]
        b = [x for x in want if not (I.is_piece(x) and ex.valid(as_int(x.count(ex)) == 0))]
        # adjacent pieces are one
        def merge(l):
            out = []
            for x in l:
                if I.is_piece(x) and out and I.is_piece(out[-1]) and ex.valid(as_int(out[-1].lo) + as_int(out[-1].n) == as_int(x.lo)): out[-1] = self.part(out[-1].lo, tint(as_int(x.lo) + as_int(x.n)))
                else: out.append(x)
            return out
        a, b = merge(a), merge(b)
        ex.prove(len(a) == len(b), name, '%r / %r' % (a, b))
        for x, y in zip(a, b):
            if I.is_piece(x) and I.is_piece(y): ex.prove(z3.And(as_int(x.lo) == as_int(y.lo), as_int(x.n) == as_int(y.n)), name, '%s..%s / %s..%s' % (x.lo, x.n, y.lo, y.n))
            else: ex.prove(not I.is_piece(x) and not I.is_piece(y) and as_bool(I.is_(ex, x, y)), name, '%r / %r' % (x, y))

def same_bytes_or(ex, a, b): pass

def add(ex):
    """among any pending: the next number as identifier, never given before (each addition takes a larger one), with its service and arguments, last in the queue"""
    c = Client(ex)
    s = Opaque('service', (), {'str': lambda *a: b's', 'truth': lambda *a: True})
    args = (Opaque('first argument'), args_piece(ex))
    for r_ in range(2):
        r = result(ex, lambda: I.call(ex, I.getattr_(ex, c.c, 'addRequest'), [s] + list(args))); expect(ex, r, 'ok', 'add')
        w = r[1]
        want = R.concat(ex, b'/', R.atom_rope(R.decimal_atom(ex, as_int(c.number) + r_, 'b')))
        same_bytes(ex, attr(ex, w, 'id'), want, 'identifier')
        ex.prove(attr(ex, w, 'service') is s, 'its-service'); same_args(ex, attr(ex, w, 'args'), args, 'its-arguments')
        ex.prove(as_int(attr(ex, c.c, 'request_number')) == as_int(c.number) + r_ + 1, 'next-number')
        c.is_queue([c.part(0, c.n)] + ([w] if not r_ else [first, w]), 'last-in-the-queue')
        first = w
def args_piece(ex):
    n = ex.int('arguments', lo=0).t
    return L.Piece(n, lambda ex2, k: Opaque('argument', (as_int(k),)), 'arguments')

def remove(ex):
    """a pending request is removed and the others stay in order; one that is not pending is an error"""
    c = Client(ex)
    j = ex.int('which').t
    r = result(ex, lambda: meth(ex, c.c, 'removeRequest', c.item(j)))
    if ex.branch(z3.And(j >= 0, j < c.n)): expect(ex, r, 'ok', 'remove'); c.is_queue([c.part(0, j), c.part(tint(j + 1), c.n)], 'the-others'); ex.cover('removed')
    else: ex.prove(r[0] == 'exc', 'unknown-refused'); c.is_queue([c.part(0, c.n)], 'unchanged'); ex.cover('unknown')

class Seek(L.Inv):
    """none of the requests before k is the one sought, and the queue is as it was"""
    def __init__(self, c, first, match): self.c = c; self.first = first; self.match = match
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k):
        ex = self.ex; k = as_int(k)
        ex.assume(k <= self.first)
        ex.assume(z3.Implies(k < self.first, z3.Not(self.match(k)))); ex.assume(z3.Implies(self.first < self.c.n, self.match(self.first)))
    def check(self, f, k):
        self.ex.prove(as_int(k) <= self.first, 'stops-at-the-first'); self.c.is_queue([self.c.part(0, self.c.n)], 'loop-queue')

def remove_by(ex):
    """the first pending request for a service with these arguments is removed; when there is none, an error"""
    c = Client(ex)
    s = Opaque('sought', (), {'eq': c.svc_eq, 'isinstance': lambda *a: False, 'truth': lambda *a: True})
    args = Opaque('sought arguments', (), {'eq': c.args_eq})
    j = ex.int('first', lo=0).t; ex.assume(j <= c.n)
    m = lambda k: z3.And(c.for_service(k), c.for_args(k))
    c.loops = lambda lo: Seek(c, j, m)
    if ex.branch(j < c.n): ex.assume(m(j))
    # *args of the call are these arguments
    def run(ex2, f, a, k): return NotImplemented
    P = L.Piece(ex.int('count', lo=0).t, lambda ex2, i: Opaque('argument', (as_int(i),)), 'sought arguments')
    ex.ghost['tuple_eq'] = lambda ex2, x, y: None
    r = result(ex, lambda: I.call(ex, I.getattr_(ex, c.c, 'removeRequest'), [s, P]))
    if ex.branch(j < c.n): expect(ex, r, 'ok', 'remove'); c.is_queue([c.part(0, j), c.part(tint(j + 1), c.n)], 'the-others'); ex.cover('removed')
    else: ex.prove(r[0] == 'exc' and I.is_subclass(ex, I.class_of(ex, r[2]), ex.world.T['LookupError']), 'unknown-refused'); ex.cover('unknown')

def find(ex):
    """the pending request of an identifier; when there is none, an error"""
    c = Client(ex)
    j = ex.int('which', lo=0).t; ex.assume(j <= c.n)
    c.loops = lambda lo: Seek(c, j, lambda k: k == j)
    r = result(ex, lambda: meth(ex, c.c, 'getRequest', c.id(j)))
    if ex.branch(j < c.n): expect(ex, r, 'ok', 'find'); ex.prove(as_bool(I.is_(ex, r[1], c.item(j))), 'the-one'); ex.cover('found')
    else: ex.prove(r[0] == 'exc' and I.is_subclass(ex, I.class_of(ex, r[2]), ex.world.T['LookupError']), 'unknown-refused'); ex.cover('unknown')

class Fill(L.Inv):
    """requests 0..k are in the envelope under their identifiers, in order"""
    def __init__(self, own, hi): self.own = own; self.hi = hi
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.own.k = tint(as_int(k)); self.ex.heap.w(self.own.bodies().a).items[:] = [self.own.done(0, k)]
    def check(self, f, k): self.own.is_done(k, 'loop-requests')

class Sending(object):
    """the envelope of a batch"""
    def __init__(self, ex, c, pieces): self.ex = ex; self.c = c; self.env = None; self.k = 0
    def bodies(self):
        if self.env is None: raise OutOfReach('no envelope was made')
        return I.as_list(self.ex, attr(self.ex, self.env, 'bodies'))
    def noted(self, ex, f, a, k): self.env = a[0]; return NotImplemented
    def done(self, lo, hi):
        c = self.c
        p = L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex, j: (c.id(tint(as_int(lo) + as_int(j))), Opaque('request message', (tint(as_int(lo) + as_int(j)),))), 'messages'); p.lo = lo
        return p
    def is_done(self, k, name):
        ex = self.ex; off = 0
        for x in ex.heap.get(self.bodies().a).items:
            if I.is_piece(x):
                if not (isinstance(off, int) and off == 0): ex.prove(False, name)
                off = x.n
            else: ex.prove(x == ('added', off) or (x[0] == 'added' and as_bool(as_int(x[1]) == as_int(off))), name, repr(x)); off = tint(as_int(off) + 1)
        ex.prove(as_int(off) == as_int(k), name, 'count %s' % off)
    def put(self, ex, f, a, k):
        """envelope[identifier] = request (C16.set_new: last, its identifier not being used yet)"""
        env, name, m = a
        ex.prove(env == self.env, 'into-the-envelope')
        j = name.idx[0]; ex.prove(name.name == 'identifier', 'under-an-identifier')
        ex.prove(I.class_of(ex, m) == G(ex, RM + 'Request'), 'a-request')
        same_bytes(ex, attr(ex, m, 'target'), R.sym_str(ex, 'target', 'b', ix=(as_int(j),)), 'its-target')
        b = ex.heap.get(I.as_list(ex, attr(ex, m, 'body')).a).items
        n = z3.Function('argument count', z3.IntSort(), z3.IntSort())(as_int(j))
        if len(b) == 0: ex.prove(n == 0, 'its-arguments')
        else:
            ex.prove(len(b) == 1 and I.is_piece(b[0]), 'its-arguments', repr(b)); ex.prove(as_int(b[0].n) == n, 'its-arguments')
            i = ex.int('any', lo=0).t; v = b[0].item(ex, i); ex.prove(z3.And(as_int(v.idx[0]) == as_int(j), as_int(v.idx[1]) == i), 'its-arguments')
        ex.heap.w(self.bodies().a).items.append(('added', j)); return None
SETI = RM + 'Envelope.__setitem__'; ENV = RM + 'Envelope.__init__'

def envelope(ex):
    """for any requests: the version of the client, each request in order under its identifier with its target and arguments, and the client's headers"""
    c = Client(ex); s = Sending(ex, c, None)
    scope(ex, **{SETI: s.put, ENV: s.noted})
    c.loops = lambda lo: Fill(s, c.n)
    l = ex.heap.new(HList([c.part(0, c.n)]))
    r = result(ex, lambda: meth(ex, c.c, 'getAMFRequest', l)); expect(ex, r, 'ok', 'envelope')
    ex.prove(r[1] == s.env, 'the-envelope'); s.is_done(c.n, 'every-request-in-order')
    same_value(ex, attr(ex, r[1], 'amfVersion'), c.version, 'version'); ex.prove(attr(ex, r[1], 'headers') == attr(ex, c.c, 'headers'), 'headers-of-the-client')

class Drain(L.Inv):
    """requests 0..k are no longer pending"""
    def __init__(self, c): self.c = c
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.c.queue([self.c.part(k, self.c.n)])
    def check(self, f, k): self.c.is_queue([self.c.part(k, self.c.n)], 'loop-queue')

def executing(ex, c, single):
    """the parts of execute by contract: the envelope of the requests, its encoding, the exchange"""
    env = Opaque('envelope', (), {'truth': lambda *a: True}); out = R.sym_str(ex, 'encoded'); st = {}
    def gather(ex2, f, a, k):
        its = [x for x in I.iterate_concrete(ex2, a[1])] if single is not None else ex2.heap.get(I.as_list(ex2, a[1]).a).items
        if single is not None: ex2.prove(len(its) == 1 and as_bool(I.is_(ex2, its[0], single)), 'of-this-request')
        else:
            n = 0
            for x in its: ex2.prove(I.is_piece(x) and as_bool(as_int(x.lo) == as_int(n)), 'of-every-request', repr(its)); n = tint(as_int(n) + as_int(x.n))
            ex2.prove(as_int(n) == c.n, 'of-every-request')
        ex2.prove('env' not in st, 'once'); st['env'] = 1
        return env
    def enc(ex2, f, a, k):
        ex2.prove(a[0] is env and I.truth(ex2, k.get('strict', a[1] if len(a) > 1 else False)) == c.strict, 'its-encoding')
        return BS(ex2, out, 0).st
    reply = Opaque('response envelope', (), {'truth': lambda *a: True, 'getitem': lambda ex2, o, k: found(ex2, k)})
    def found(ex2, k):
        ex2.prove(isinstance(k, Opaque) and k.name == 'identifier' and single is not None and as_bool(as_int(k.idx[0]) == as_int(single.idx[0])), 'under-its-own-identifier')
        st['o2'] = outcome(ex2, 'response', lambda: Opaque('its response'), exits=False); return play(st['o2'])
    def exchange(ex2, f, a, k):
        ex2.prove('o' not in st, 'sent-once')
        q = a[1]
        same_bytes(ex2, attr(ex2, q, 'data'), out, 'the-encoded-requests'); same_bytes(ex2, attr(ex2, q, 'url'), attr(ex2, c.c, '_root_url'), 'to-the-url')
        h = dict((kk, v) for kk, v in I.dict_items(ex2, attr(ex2, q, 'headers')))
        ex2.prove(h.get(b'Content-Type') == b'application/x-amf', 'content-type', repr(h))
        ex2.prove(as_bool(I.is_(ex2, h.get(b'User-Agent'), attr(ex2, c.c, 'user_agent'))), 'user-agent')
        p = attr(ex2, q, 'proxy'); ex2.prove(p is None if not st['proxy'] else p == (b'host', b'type'), 'proxy')
        if single is None: c.is_queue([], 'no-longer-pending')
        st['o'] = outcome(ex2, 'exchange', lambda: reply, exits=False)
        return play(st['o'])
    st['proxy'] = ex.choice(2)
    if st['proxy']: meth(ex, c.c, 'setProxy', b'host', b'type')
    scope(ex, **{RS + '.getAMFRequest': gather, RM + 'encode': enc, RS + '._getResponse': exchange})
    st['reply'] = reply
    return st

def execute(ex):
    """any number of pending requests: all are sent once, in one envelope, and are pending no longer, whatever becomes of it"""
    c = Client(ex); st = executing(ex, c, None); c.loops = lambda lo: Drain(c)
    r = result(ex, lambda: meth(ex, c.c, 'execute'))
    c.is_queue([], 'none-pending')
    if st['o'][0] == 'ok': expect(ex, r, 'ok', 'executed'); ex.prove(r[1] is st['reply'], 'the-responses'); ex.cover('answered')
    else: ex.prove(r[0] == 'exc' and r[2] is st['o'][1], 'its-error'); ex.cover('failed')

def single(ex):
    """one pending request: it is sent alone and pending no longer, the others stay, and the response under its identifier is its result; a request not pending is an error and nothing is sent"""
    c = Client(ex); j = ex.int('which').t; w = c.item(j)
    st = executing(ex, c, w)
    r = result(ex, lambda: meth(ex, c.c, 'execute_single', w))
    if not ex.branch(z3.And(j >= 0, j < c.n)):
        ex.prove(r[0] == 'exc' and 'env' not in st and 'o' not in st, 'unknown-refused'); c.is_queue([c.part(0, c.n)], 'unchanged'); ex.cover('unknown'); return
    c.is_queue([c.part(0, j), c.part(tint(j + 1), c.n)], 'the-others')
    if st['o'][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is st['o'][1], 'its-error'); ex.cover('failed'); return
    if st['o2'][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is st['o2'][1], 'no-response'); ex.cover('missing'); return
    expect(ex, r, 'ok', 'executed'); ex.prove(r[1] is st['o2'][1], 'its-response'); ex.cover('answered')

def response(mode):
  def run(ex):
    """the answer to a request: a failed transport and a content type other than AMF are errors; otherwise its envelope is decoded (decompressed first when it says so) and the URL and headers the server asks for are set"""
    body, plain_ = R.sym_str(ex, 'received'), R.sym_str(ex, 'decompressed')
    n = ex.int('length', lo=0)
    url_error = ex.choice(3) if mode == 'transport' else 0
    ct = [b'application/x-amf', b'application/x-amf; charset=x', b'text/html', b'application/x-amf-other', b''][ex.choice(5) if mode == 'transport' else ex.choice(2) if mode == 'length' else 0]
    enc = [None, b'gzip', b' GZIP ', b'identity'][ex.choice(4) if mode == 'length' else 0]; cl = [None, b'', 1][ex.choice(3) if mode == 'length' else 0]
    st = {}
    H = {b'content-encoding': enc, b'content-length': R.atom_rope(R.decimal_atom(ex, n.t, 'b')) if cl == 1 else cl, b'content-type': ct, b'server': None}
    def info(ex2, f, a, k): return Opaque('message', (), {'getattr': lambda ex3, o, nm: Opaque('getheader', (), {'call': lambda ex4, f, a, k: H[a[0].lower()]}) if nm == 'getheader' else MISS})
    def rd(ex2, f, a, k):
        if a: same_value(ex2, a[0], n if cl == 1 else -1, 'its-length-read')
        st['read'] = 1; return body
    fbh = Opaque('reply', (), {'truth': lambda *a: True, 'getattr': lambda ex2, o, nm: Opaque(nm, (), {'call': {'info': info, 'read': rd, 'close': lambda *a: None}[nm]})})
    def opener(ex2, f, a, k):
        ex2.prove(a[0] is req and 'sent' not in st, 'the-request-sent-once'); st['sent'] = 1
        if url_error == 1: raise PyRaise(call(ex2, ('urllib2.URLError', 'urllib2.HTTPError')[ex2.choice(2)], b'down'))
        if url_error == 2: st['e'] = error(ex2, 'error'); ex2.assume(z3.Not(as_bool(ERRORS(ex2, st['e'], G(ex2, 'urllib2.URLError'))))); raise PyRaise(st['e'])
        return fbh
    c = Client(ex, fixed=None if mode == 'transport' else mode == 'length', opener=Opaque('opener', (), {'call': opener, 'truth': lambda *a: True, 'callable': True}))
    req = Opaque('http request', (), {'truth': lambda *a: True})
    env = call(ex, RM + 'Envelope', 0)
    hs = I.as_dict(ex, attr(ex, env, 'headers'))
    nm = lambda s: s.decode() if ex.ghost['uni'] else s
    ex.ghost['uni'] = mode == 'headers' and ex.choice(2)
    how = ex.choice(4) if mode == 'headers' else 0; suffix = R.sym_str(ex, 'suffix'); new = R.sym_str(ex, 'new url')
    if how in (1, 3): I.dict_set(ex, hs, nm(b'AppendToGatewayUrl'), suffix)
    if how in (2, 3): I.dict_set(ex, hs, nm(b'ReplaceGatewayUrl'), new)
    pers = mode == 'headers' and ex.choice(2)
    if pers:
        els = Els(ex, 'header', 'u'); els.inv = lambda lo=0: Keep(els, c); I.dict_set(ex, hs, nm(b'RequestPersistentHeader'), seq_dict(ex, els))
    def dec(ex2, f, a, k):
        ex2.prove(I.truth(ex2, k.get('strict', a[1] if len(a) > 1 else False)) == c.strict, 'as-strict-as-configured')
        same_bytes(ex2, a[0], plain_ if gz else body, 'the-body-decoded'); st['dec'] = outcome(ex2, 'decoding', lambda: env, exits=False); return play(st['dec'])
    gz = enc is not None and enc.strip().lower() == b'gzip'
    def unzip(ex2, f, a, k):
        same_bytes(ex2, ex2.heap.get(attr(ex2, a[0], 'fileobj').a).buf, body, 'the-bytes-received'); return plain_
    scope(ex, **{RM + 'decode': dec, 'gzip.GzipFile.read': unzip})
    r = result(ex, lambda: meth(ex, c.c, '_getResponse', req))
    url = lambda: attr(ex, c.c, '_root_url')
    if url_error == 1: expect(ex, r, 'RemotingError', 'transport-failure'); ex.cover('down'); same_bytes(ex, url(), c.url, 'url'); return
    if url_error == 2: ex.prove(r[0] == 'exc' and r[2] is st['e'], 'transport-error'); ex.cover('error'); return
    if ct.split(b';')[0].strip() != b'application/x-amf':
        expect(ex, r, 'RemotingError', 'wrong-content-type'); ex.prove('dec' not in st, 'nothing-decoded'); ex.cover('type'); return
    if st['dec'][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is st['dec'][1], 'decoding-error'); ex.cover('broken'); return
    expect(ex, r, 'ok', 'answered'); ex.prove(r[1] == env, 'its-envelope'); ex.cover('answered')
    same_bytes(ex, url(), [c.url, R.concat(ex, c.url, suffix), new, R.concat(ex, c.url, suffix)][how], 'url-asked-for')
    if pers: is_seq(ex, attr(ex, c.c, 'headers'), els, els.n, 'headers-asked-for')
  return run
class Keep(L.Inv):
    """headers 0..k are headers of the client"""
    def __init__(self, els, c): self.els = els; self.c = c
    def enter(self, f): self.ex = f.ex; self.d = I.as_dict(f.ex, attr(f.ex, self.c.c, 'headers'))
    def havoc(self, f, k): self.ex.heap.w(self.d.a).base = Seq(self.els, k)
    def check(self, f, k): is_seq(self.ex, self.d, self.els, k, 'loop-headers')

def fault_raised(ex):
    """the error a fault raises is the one registered for its code, else the general remoting error, with its description"""
    d = G(ex, 'pyamf.ERROR_CLASS_MAP')
    known = ex.choice(2)
    code = R.sym_str(ex, 'code')
    cls = G(ex, 'pyamf.remoting.RemotingCallFailed')
    ab = AbsDict('errors', lambda ex2, k: cls)
    reach('ERROR_CLASS_MAP', lambda: setattr(ex.heap.w(d.a), 'base', ab)); w = ex.heap.w(d.a); w.ent = {}; w.sym = []
    desc = R.sym_str(ex, 'description')
    f = call(ex, RM + 'ErrorFault', code=code, description=desc)
    how = ex.choice(2)
    if how == 0: r = result(ex, lambda: meth(ex, f, 'raiseException'))
    else:
        c = Client(ex); w = call(ex, C + 'RequestWrapper', c.c, b'/1', b's')
        resp = call(ex, RM + 'Response', f, 1)
        r = result(ex, lambda: meth(ex, w, 'setResponse', resp)); ex.prove(attr(ex, w, 'response') == resp, 'response-kept')
    has = ex.branch(z3.Bool('errors has %s' % keyname(ex, code)))
    ex.prove(r[0] == 'exc', 'raised')
    ex.prove(I.class_of(ex, r[2]) == (cls if has else G(ex, RM + 'RemotingError')), 'the-registered-error' if has else 'the-general-error')
    a = attr(ex, r[2], 'args'); ex.prove(isinstance(a, tuple) and len(a) == 1, 'with-its-description'); same_bytes(ex, a[0], desc, 'with-its-description'); ex.cover('known' if has else 'unknown')

def proxy_call(ex):
    """calling a method of a service: its request is queued and executed, and its result returned or its fault raised; without automatic execution the request is returned"""
    c = Client(ex)
    auto = bool(ex.choice(2)); st = {}
    w = c.item(0); args = (args_piece(ex),)
    def addr(ex2, f, a, k):
        st['svc'] = a[1]; same_args(ex2, tuple(a[2:]), args, 'its-arguments'); return w
    kind = ex.choice(3)
    def raiser(ex2, f, a, k): raise PyRaise(fault_error)
    fault_error = error(ex, 'error of the fault')
    body = Opaque('body', (), {'getattr': lambda ex2, o, n: Opaque('raiseException', (), {'call': raiser}) if n == 'raiseException' and kind == 1 else I.attr_error(ex2, o, n)})
    resp = call(ex, RM + 'Response', body, 1 if kind else (0, 2)[ex.choice(2)])
    def run(ex2, f, a, k):
        ex2.prove(as_bool(I.is_(ex2, a[1], w)) and 'run' not in st, 'its-request-executed-once'); st['run'] = outcome(ex2, 'execution', lambda: resp, exits=False); return play(st['run'])
    scope(ex, **{RS + '.addRequest': addr, RS + '.execute_single': run})
    sv = meth(ex, c.c, 'getService', b'service', auto)
    byname = ex.choice(2)
    m = attr(ex, sv, 'method') if byname else sv
    r = result(ex, lambda: I.call(ex, m, list(args)))
    s = result(ex, lambda: call(ex, ex.world.builtins['str'], st['svc'])); expect(ex, s, 'ok', 'target'); same_bytes(ex, s[1], b'service.method' if byname else b'service', 'target')
    if not auto: expect(ex, r, 'ok', 'queued'); ex.prove(as_bool(I.is_(ex, r[1], w)) and 'run' not in st, 'queued'); ex.cover('queued'); return
    if st['run'][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is st['run'][1], 'its-error'); ex.cover('failed'); return
    if kind == 0: expect(ex, r, 'ok', 'result'); ex.prove(r[1] is body, 'its-result'); ex.cover('result')
    elif kind == 1: ex.prove(r[0] == 'exc' and r[2] is fault_error, 'its-fault'); ex.cover('fault')
    else: expect(ex, r, 'RemotingError', 'error-status'); ex.cover('error')

class Lookup(L.Inv):
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.ex.assume(as_int(k) <= self.own)
    def check(self, f, k): self.ex.prove(as_int(k) <= self.own, 'stops-at-its-message')

def get_message(ex):
    """the message of an identifier among any others in an envelope, and whether there is one"""
    c = Client(ex)
    n = ex.int('messages', lo=0).t; j = ex.int('which', lo=0).t; ex.assume(j <= n)
    e = call(ex, RM + 'Envelope', 0)
    ex.heap.w(I.as_list(ex, attr(ex, e, 'bodies')).a).items[:] = [L.Piece(n, lambda ex2, k: (c.id(k), Opaque('message', (as_int(k),))), 'messages', lambda: Lookup(j))]
    has = ex.branch(j < n)
    if ex.choice(2):
        r = result(ex, lambda: meth(ex, e, '__contains__', c.id(j))); expect(ex, r, 'ok', 'contains'); ex.prove(I.truth(ex, r[1]) == has, 'whether-there'); return
    r = result(ex, lambda: meth(ex, e, '__getitem__', c.id(j)))
    if has: expect(ex, r, 'ok', 'message'); ex.prove(isinstance(r[1], Opaque) and as_bool(as_int(r[1].idx[0]) == j), 'the-message'); ex.cover('found')
    else: expect(ex, r, 'KeyError', 'unknown-refused'); ex.cover('unknown')

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in ('urlparse.urlparse', SETI, ENV, RS + '.getAMFRequest', RM + 'encode', RM + 'decode', RS + '._getResponse', 'gzip.GzipFile.read', RS + '.addRequest', RS + '.execute_single')}
    L_ = lambda n, f, **k: Lemma('C18.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('add', add), L_('remove', remove, cover=('removed', 'unknown')), L_('remove_by', remove_by, cover=('removed', 'unknown')), L_('find', find, cover=('found', 'unknown')), L_('envelope', envelope),
            L_('execute', execute, cover=('answered', 'failed')), L_('single', single, cover=('unknown', 'failed', 'missing', 'answered')), L_('response', response('transport'), cover=('down', 'error', 'type', 'broken', 'answered')), L_('response_length', response('length'), cover=('broken', 'answered')), L_('response_headers', response('headers'), cover=('broken', 'answered')),
            L_('fault_raised', fault_raised, cover=('known', 'unknown')), L_('proxy_call', proxy_call, cover=('queued', 'failed', 'result', 'fault', 'error')), L_('get_message', get_message, cover=('found', 'unknown'))]
CALLEE['urlparse.urlparse'] = 'assumed: the scheme of a URL (http here)'
CALLEE['gzip.GzipFile.read'] = 'assumed: arbitrary content'
CALLEE[RS + '.getAMFRequest'] = 'discharged by C18.envelope'
CALLEE[RS + '._getResponse'] = 'discharged by C18.response'
CALLEE[RS + '.addRequest'] = 'discharged by C18.add'
CALLEE[RS + '.execute_single'] = 'discharged by C18.single'
