"""Deductive part: a batch of any number of requests: each gets the answer of its own processor under its own identifier, in
order (a loop invariant over the contract of the processors, which C15 shows always answer); replacing and adding a response;
the fault of any error (registered code or type name, message, details only when debugging) for both protocols, whatever turning
the error into text or encoding it does."""
from .gw import *
from . import c15
MS = 'pyamf.flex.messaging.'

def error_text(ex):
    """text of any value, whatever its conversions do"""
    outs = {}
    def conv(which, kind):
        def h(ex2, v):
            c = outs[which] = ex2.choice(3)
            if c == 0: return R.sym_str(ex2, 'as ' + which, kind)
            if c == 1: ex2.raise_('UnicodeDecodeError' if ex2.choice(2) else 'UnicodeEncodeError', b'text')
            e = error(ex2, which + ' error'); ex2.assume(as_bool(ERRORS(ex2, e, ex2.world.T['Exception'])))
            raise PyRaise(e)
        return h
    v = Opaque('value', (), {'unicode': conv('text', 'u'), 'str': conv('bytes', 'b'), 'class': Opaque('its class', (), {'getattr': lambda ex2, o, n: R.sym_str(ex2, 'class name') if n == '__name__' else MISS})})
    r = result(ex, lambda: call(ex, RM + 'get_error_text', v))
    ex.prove(r[0] == 'ok' and R.is_text(r[1]) and R.kind_of(r[1]) == 'u', 'a-text', repr(r))
    if outs.get('text') == 0: ex.prove(r[1].parts[0].atom.fname.startswith('as text') and len(r[1].parts) == 1, 'its-text'); ex.cover('text')
    else: ex.cover('no text')

def fault_amf0(ex):
    """the fault of any error in AMF0: its code or type name, its message, details only when debugging"""
    e = error(ex); debug = bool(ex.choice(2))
    r = result(ex, lambda: call(ex, A0 + 'build_fault', e.props['class'], e, Opaque('traceback'), debug)); ex.prove(r[0] == 'ok', 'a-fault', repr(r))
    c15.is_fault(ex, r[1], e, debug, 'fault')
    if not debug: ex.prove(attr(ex, r[1], 'details') is None, 'no-details')

def error_message(ex):
    """the error message of any error in RemoteObject, whatever encoding the error does: never raises, correlated with its request"""
    e = error(ex); debug = bool(ex.choice(2))
    tr = Trace()
    enc = code(ex, 'encode', tr, value=lambda: mark(ex, 'bytes'))
    def dec(ex2, f, a, k):
        nx = code(ex2, 'next', tr)
        return Opaque('decoder', (), {'getattr': lambda ex3, o, n: nx if n in ('next', '__next__') else MISS, 'iter': lambda ex3, o: [I.call(ex3, nx, [])]})
    scope(ex, **{'pyamf.encode': lambda ex2, f, a, k: I.call(ex2, enc, list(a), k), 'pyamf.decode': dec})
    rq = None
    if ex.choice(2): rq = call(ex, MS + 'RemotingMessage', messageId=mark(ex, 'message id'))
    r = result(ex, lambda: call(ex, A3 + 'generate_error', rq, e.props['class'], e, Opaque('traceback'), debug))
    out = [x for x in tr.ev if x[3][0] == 'exit']
    if out: ex.prove(r[0] == 'exc' and r[2] is out[0][3][1], 'exit-passed-on'); ex.cover('exit'); return
    ex.prove(r[0] == 'ok', 'an-error-message', repr(r))
    m = r[1]
    ex.prove(I.class_of(ex, m) == G(ex, MS + 'ErrorMessage'), 'an-error-message')
    same(ex, attr(ex, m, 'faultCode'), code_of(ex, e), 'code')
    ex.prove(attr(ex, m, 'correlationId') is (attr(ex, rq, 'messageId') if rq is not None else None), 'correlated')
    rc = attr(ex, m, 'rootCause')
    ok = all(x[3][0] == 'ok' for x in tr.ev)
    ex.prove(rc is e if ok else rc is None, 'cause-only-if-it-can-be-sent'); ex.cover('sent' if ok else 'cannot be sent')
    d = attr(ex, m, 'faultDetail'); x = attr(ex, m, 'extendedData')
    if not debug: ex.prove(d is None and x is None, 'no-details', '%r %r' % (d, x))
    s = attr(ex, m, 'faultString')
    if ex.branch(z3.Bool('%s has message' % e.name)): same_bytes(ex, s, ex.memo.get(('text of', keyname(ex, ex.memo.get(('errattr', e.name, 'message')))), b'?'), 'message'); ex.cover('message')

class Batch(L.Inv):
    """after k requests: the responses of requests 0..k under their identifiers, in order"""
    def __init__(self, b): self.b = b
    def enter(self, f):
        self.ex = f.ex; self.f = f
        vs = [v for v in f.ex.heap.get(f.env.a).vars.values() if isinstance(v, Ref) and isinstance(I.rec(f.ex, v), HObj) and I.class_of(f.ex, v) == G(f.ex, RM + 'Envelope') and v != self.b.req]
        if len(vs) != 1: raise OutOfReach('the envelope of the responses')
        self.resp = vs[0]
    def bodies(self): return I.getattr_(self.ex, self.resp, 'bodies')
    def havoc(self, f, k):
        self.ex.heap.w(self.bodies().a).items[:] = [self.b.done(0, k)]; self.b.k = tint(as_int(k))
        if self.b.environ is not None: self.b.touch()
    def check(self, f, k):
        ex = self.ex
        its = ex.heap.get(self.bodies().a).items
        self.b.is_done(its, k, 'responses-in-order')
        ex.prove(as_int(self.b.k) == as_int(k), 'each-processed-once')

class Batch_(object):
    def __init__(self, ex):
        self.ex = ex; self.n = ex.int('requests', lo=0).t; self.k = 0
        self.req = call(ex, RM + 'Envelope', ex.int('version', 0, 9))
        self.inv = Batch(self)
        self.environ = None
        ex.heap.w(attr(ex, self.req, 'bodies').a).items[:] = [L.Piece(self.n, lambda ex2, j: (self.name(j), self.msg(j)), 'bodies', lambda: self.inv)]
        self.processed = None
    def touch(self): self.ex.heap.w(self.environ.a)
    def name(self, j): return Opaque('identifier', (as_int(j),), {'eq': lambda ex, x, y: as_int(x.idx[0]) == as_int(y.idx[0])})
    def msg(self, j): return Opaque('request', (as_int(j),), {'truth': lambda *a: True})
    def resp(self, j): return Opaque('response', (as_int(j),), {'isinstance': lambda ex, x, c: True})
    def done(self, lo, hi):
        return L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex, j: (self.name(tint(as_int(lo) + as_int(j))), self.resp(tint(as_int(lo) + as_int(j)))), 'done')
    def is_done(self, items, k, name):
        ex = self.ex; off = 0
        for x in items:
            if I.is_piece(x): ex.prove(x.name == 'done' and as_bool(as_int(off) == 0), name, repr(items)); off = x.n
            else:
                ex.prove(isinstance(x, tuple) and len(x) == 2 and x[0].name == 'identifier' and x[1].name == 'response', name, repr(x))
                ex.prove(z3.And(as_int(x[0].idx[0]) == as_int(off), as_int(x[1].idx[0]) == as_int(off)), name, repr(x)); off = tint(as_int(off) + 1)
        ex.prove(as_int(off) == as_int(k), name, 'length %s' % off)
    def processor(self, ex, f, a, k):
        m = a[-1]
        ex.prove(isinstance(m, Opaque) and m.name == 'request', 'processor-of-a-request')
        j = m.idx[0]
        def run(ex2, p, args, kw):
            ex2.prove(len(args) == 1 and args[0] == m or as_bool(I.is_(ex2, args[0], m)), 'on-its-request'); ex2.prove(as_int(j) == as_int(self.k), 'in-request-order')
            self.kw = kw; self.k = tint(as_int(self.k) + 1)
            return self.resp(j)
        return Opaque('processor', (as_int(j),), {'call': run})
    def set(self, ex, f, a, k):
        """adding a response under an identifier not used yet (C16.set_response)"""
        ex.heap.w(I.getattr_(ex, a[0], 'bodies').a).items.append((a[1], a[2])); return None

def batch(ex, cls='wsgi.WSGIGateway'):
    """any number of requests: the responses carry their identifiers, in order, one each, by the processor of its request"""
    b = Batch_(ex)
    g = call(ex, GW + cls)
    dj = cls != 'wsgi.WSGIGateway'
    env = call(ex, 'django.conf.Settings') if dj else ex.heap.new(HDict()); b.environ = env
    scope(ex, **{GW + 'BaseGateway.getProcessor': b.processor, RM + 'Envelope.__setitem__': b.set})
    b.touch = lambda: I.setattr_(ex, env, 'amf_request', None) if dj else I.dict_set(ex, env, b'pyamf.request', None)
    if dj: b.touch()
    r = result(ex, lambda: meth(ex, g, 'getResponse', *((env, b.req) if dj else (b.req, env)))); expect(ex, r, 'ok', 'batch') if r[0] == 'ok' or r[1] else ex.prove(False, 'batch')
    ex.prove(I.class_of(ex, r[1]) == G(ex, RM + 'Envelope'), 'an-envelope')
    b.is_done(ex.heap.get(attr(ex, r[1], 'bodies').a).items, b.n, 'every-request-answered-in-order')
    ex.prove(as_int(attr(ex, r[1], 'amfVersion')) == as_int(attr(ex, b.req, 'amfVersion')), 'same-version')
    ex.prove(not ex.heap.get(I.as_dict(ex, attr(ex, r[1], 'headers')).a).ent, 'no-headers')

def batch_django(ex):
    """the same of the Django gateway"""
    batch(ex, 'django.DjangoGateway')

class Find(L.Inv):
    """no body before k has this name"""
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k): self.own.havoc(f, k)
    def check(self, f, k): self.own.check(f, k)

class SetResponse(object):
    def __init__(self, ex, at):
        self.ex = ex; self.at = at; self.n = ex.int('bodies', lo=0).t
        self.j0 = ex.int('at', lo=0).t if at else None
        if at: ex.assume(self.j0 < self.n)
        self.env = call(ex, RM + 'Envelope', 0)
        self.list = attr(ex, self.env, 'bodies')
        self.piece = self.part(0, self.n)
        ex.heap.w(self.list.a).items[:] = [self.piece]
        self.new = Opaque('new name', (), {'eq': self.eq})
        self.v = call(ex, RM + 'Response', mark(ex, 'body'))
    def part(self, lo, hi): return L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex, j: self.item(tint(as_int(lo) + as_int(j))), 'bodies', lambda: Find(self), lambda a, b: self.part(tint(as_int(lo) + as_int(a)), tint(as_int(lo) + as_int(b))))
    def item(self, j): return (Opaque('name', (as_int(j),), {'eq': self.eq}), Opaque('body', (as_int(j),)))
    def eq(self, ex, x, y):
        o = y if x.name == 'new name' else x
        if o.name != 'name': return z3.BoolVal(True)
        return as_int(o.idx[0]) == self.j0 if self.at else z3.BoolVal(False)
    def state(self, k):
        """bodies as they are before body k is looked at"""
        if not self.at: return [self.piece]
        if self.ex.branch(self.j0 < as_int(k)): return [self.part(0, self.j0), (self.new, self.v), self.part(tint(self.j0 + 1), self.n)]
        return [self.piece]
    def havoc(self, f, k):
        ex = self.ex
        ex.heap.w(self.list.a).items[:] = self.state(k)
        f.store('idx', mkint(as_int(k)))
        f.store('found', bool(self.at) and ex.branch(self.j0 < as_int(k)))
    def check(self, f, k):
        ex = self.ex
        ex.prove(as_int(f.load('idx')) == as_int(k), 'position')
        ex.prove(I.truth(ex, f.load('found')) == (bool(self.at) and ex.branch(self.j0 < as_int(k))), 'found')
        self.same(ex.heap.get(self.list.a).items, self.state(k), 'bodies')
    def same(self, got, want, name):
        ex = self.ex
        off = 0
        pos = lambda l: [(x, None) for x in l]
        def flat(l):
            out = []; o = 0
            for x in l:
                n = x.count(ex) if I.is_piece(x) else 1
                if not (I.is_piece(x) and ex.valid(as_int(n) == 0)): out.append((x, o))
                o = tint(as_int(o) + as_int(n))
            return out, o
        (a, na), (b, nb) = flat(got), flat(want)
        ex.prove(as_int(na) == as_int(nb), name, 'length'); ex.prove(len(a) == len(b), name, '%r / %r' % (got, want))
        for (x, ox), (y, oy) in zip(a, b):
            ex.prove(as_int(ox) == as_int(oy), name, 'place')
            if I.is_piece(x) or I.is_piece(y):
                ex.prove(I.is_piece(x) and I.is_piece(y) and x.name == y.name == 'bodies', name, '%r / %r' % (x, y))
                n = ex.int('any', lo=0).t; ex.assume(n < as_int(x.count(ex)))
                p, q = x.item(ex, n), y.item(ex, n)
                ex.prove(z3.And(as_int(p[0].idx[0]) == as_int(q[0].idx[0]), as_int(p[1].idx[0]) == as_int(q[1].idx[0])), name, 'bodies kept')
            else: ex.prove(x[0] is y[0] and x[1] == y[1], name, '%r / %r' % (x, y))

def set_response(at):
    def f(ex):
        s = SetResponse(ex, at)
        r = result(ex, lambda: meth(ex, s.env, '__setitem__', s.new, s.v)); expect(ex, r, 'ok', 'set')
        s.same(ex.heap.get(s.list.a).items, [s.part(0, s.j0), (s.new, s.v), s.part(tint(s.j0 + 1), s.n)] if at else [s.piece, (s.new, s.v)], 'bodies')
        ex.prove(attr(ex, s.v, 'envelope') == s.env, 'belongs-to-the-envelope')
    f.__doc__ = 'a message set under %s among any number of others: %s, the others as they were' % (('an identifier in use', 'in its place') if at else ('a new identifier', 'the last one'))
    return f

def lemmas(world, tier):
    CON = {q: in_scope(q) for q in ('pyamf.encode', 'pyamf.decode', GW + 'BaseGateway.getProcessor', RM + 'Envelope.__setitem__')}
    CON[A3 + 'generate_random_id'] = c15.CON[A3 + 'generate_random_id']
    TXT = dict(CON); TXT[RM + 'get_error_text'] = c15.text_contract
    L_ = lambda n, f, **k: Lemma('C16.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('error_text', error_text, cover=('text', 'no text')), L_('fault_amf0', fault_amf0, contracts=TXT), L_('error_message', error_message, contracts=TXT, cover=('exit', 'sent', 'cannot be sent', 'message')),
            L_('batch', batch), L_('batch_django', batch_django), L_('set_new', set_response(False)), L_('set_again', set_response(True))]
CALLEE['pyamf.encode'] = CALLEE['pyamf.decode'] = 'arbitrary outcome'
CALLEE[GW + 'BaseGateway.getProcessor'] = 'C14.processor; the processors always answer: C15.process_amf0, C15.process_amf3'
CALLEE[RM + 'Envelope.__setitem__'] = 'discharged by C16.set_new'
