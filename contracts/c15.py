"""Deductive part: which authenticator applies (method over service over gateway), what it is asked and what counts as accepted,
which preprocessor and callables get the raw request; both request processors over arbitrary service code (it may return
anything, raise any error, or end the process): neither preprocessor nor method runs unless the authenticator accepted the
credentials of this request, and every refusal is answered with a fault."""
from .gw import *

BG = GW + 'BaseGateway.'
LEVELS = {'Authenticator': ('authenticator', '_pyamf_authenticator'), 'Preprocessor': ('preprocessor', '_pyamf_preprocessor')}

def a_method(ex, attrs, name='method'):
    return Opaque(name, (), {'getattr': lambda ex2, o, a: attrs[a] if a in attrs else I.attr_error(ex2, o, a), 'truth': lambda *a: True, 'callable': True,
                             'isinstance': lambda *a: False, 'str': lambda *a: b'<code>', 'is': lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name})

def one_of(ex, what):
    """something configured at a level, or nothing"""
    return mark(ex, what) if ex.choice(2) else None

def level(kind):
    arg, mark_ = LEVELS[kind]
    def f(ex):
        onm, ons, ong = one_of(ex, 'of the method'), one_of(ex, 'of the service'), one_of(ex, 'of the gateway')
        m = a_method(ex, {mark_: onm} if onm is not None else {})
        how = ex.choice(3)          # called by its own name; a method it has; a name that is none of its methods
        svc = m if how == 0 else a_method(ex, {}, 'service')
        name = None if how == 0 else R.sym_str(ex, 'name')
        g = call(ex, GW + 'BaseGateway', **{arg: ong})
        w = call(ex, GW + 'ServiceWrapper', svc, **{arg: ons})
        d = ex.heap.new(HDict())
        ex.heap.w(d.a).base = AbsDict('methods', lambda ex2, k: m)
        scope(ex, **{GW + 'ServiceWrapper.getMethods': lambda ex2, ff, a, k: (ex2.prove(a[0] == w, 'of-this-service'), d)[1]})
        has = how == 1
        if name is not None: ex.assume(z3.Bool('methods has %s' % keyname(ex, name)) == z3.BoolVal(has))
        else: ex.assume(z3.Not(z3.Bool('methods has None')))
        sr = call(ex, GW + 'ServiceRequest', mark(ex, 'envelope'), w, name)
        r = result(ex, lambda: meth(ex, g, 'get' + kind, sr)); expect(ex, r, 'ok', 'level')
        want = onm if how != 2 and onm is not None else ons if ons is not None else ong
        ex.prove(r[1] is want, 'most-specific', '%r / %r' % (r[1], want))
        ex.cover('method' if want is onm and want is not None else 'service' if want is ons and want is not None else 'gateway' if want is ong and want is not None else 'none')
    f.__doc__ = 'the %s of a request: that of its method, else of its service, else of the gateway, else none' % kind.lower()
    return f

def exposes(ex):
    """whether the raw request is passed to service code: as its method says, else its service, else the gateway"""
    vals = [None, False, True]
    onm = ex.choice(2); ons = vals[ex.choice(3)]; ong = vals[ex.choice(3)]
    m = a_method(ex, {'_pyamf_expose_request': True} if onm else {})
    how = ex.choice(3)
    svc = m if how == 0 else a_method(ex, {}, 'service')
    name = None if how == 0 else R.sym_str(ex, 'name')
    g = call(ex, GW + 'BaseGateway', expose_request=ong)
    w = call(ex, GW + 'ServiceWrapper', svc, expose_request=ons)
    d = ex.heap.new(HDict()); ex.heap.w(d.a).base = AbsDict('methods', lambda ex2, k: m)
    scope(ex, **{GW + 'ServiceWrapper.getMethods': lambda ex2, ff, a, k: d})
    if name is not None: ex.assume(z3.Bool('methods has %s' % keyname(ex, name)) == z3.BoolVal(how == 1))
    sr = call(ex, GW + 'ServiceRequest', mark(ex, 'envelope'), w, name)
    r = result(ex, lambda: meth(ex, g, 'mustExposeRequest', sr)); expect(ex, r, 'ok', 'exposes')
    want = True if how != 2 and onm else ons if ons is not None else bool(ong)
    ex.prove(I.truth(ex, r[1]) == want, 'asked-for', '%r / %r' % (r[1], want)); ex.cover(str(want))

def authenticate(ex):
    """an authenticator of any behaviour is asked once for exactly these credentials; only the answer True accepts"""
    g = call(ex, GW + 'BaseGateway')
    sr = mark(ex, 'service request'); user, pw, http = Opaque('user'), Opaque('password'), Opaque('request')
    tr = Trace()
    for o in (user, pw, http): o.props['is'] = lambda ex2, x, y: isinstance(y, Opaque) and x.name == y.name
    answers = [True, False, None, 1, b'yes', mark(ex, 'anything')]
    a = code(ex, 'authenticator', tr, {'_pyamf_expose_request': True}, value=lambda: answers[ex.choice(len(answers))]) if ex.choice(2) else None
    scope(ex, **{BG + 'getAuthenticator': lambda ex2, ff, x, k: (ex2.prove(x[1] is sr, 'of-this-request'), a)[1]})
    kw = {'http_request': http} if ex.choice(2) else {}
    r = result(ex, lambda: meth(ex, g, 'authenticateRequest', sr, user, pw, **kw))
    if a is None: expect(ex, r, 'ok', 'none-applies'); ex.prove(r[1] is True, 'accepted-without'); ex.cover('none'); return
    ex.prove(len(tr.ev) == 1, 'asked-once')
    asked = I.getattr_(ex, a, '_pyamf_expose_request', None) is not None
    same_args(ex, tr.ev[0][1], ((http if kw else None,) if asked else ()) + (user, pw), 'for-these-credentials'); ex.prove(not tr.ev[0][2], 'for-these-credentials')
    kind, v = tr.ev[0][3]
    if kind != 'ok': ex.prove(r[0] == 'exc' and r[2] is v, 'its-failure-passed-on'); ex.cover('fails'); return
    expect(ex, r, 'ok', 'answered')
    ex.prove(I.truth(ex, r[1]) == (v is True), 'only-true-accepts', '%r answered %r' % (r[1], v)); ex.cover('accepted' if v is True else 'refused')

def preprocess(ex):
    """a preprocessor gets the service request and the arguments, the raw request first only if it asks for it"""
    g = call(ex, GW + 'BaseGateway'); tr = Trace()
    sr = mark(ex, 'service request'); http = mark(ex, 'request')
    p = code(ex, 'preprocessor', tr, {'_pyamf_expose_request': True}) if ex.choice(2) else None
    scope(ex, **{BG + 'getPreprocessor': lambda ex2, ff, x, k: (ex2.prove(x[1] is sr, 'of-this-request'), p)[1]})
    args = anyargs(ex)
    r = result(ex, lambda: meth(ex, g, 'preprocessRequest', sr, *args, http_request=http))
    if p is None: expect(ex, r, 'ok', 'none-applies'); ex.prove(not tr.ev, 'nothing-run'); ex.cover('none'); return
    asked = I.getattr_(ex, p, '_pyamf_expose_request', None) is not None
    ex.prove(len(tr.ev) == 1, 'run-once'); same_args(ex, tr.ev[0][1], ((http,) if asked else ()) + (sr,) + args, 'with-these-arguments')
    if tr.ev[0][3][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is tr.ev[0][3][1], 'its-failure-passed-on')
    else: expect(ex, r, 'ok', 'run')
    ex.cover('run')

def anyargs(ex):
    n = ex.int('arguments', lo=0).t
    return (L.Piece(n, lambda ex2, k: Opaque('argument', (as_int(k),)), 'arguments'),)

def calling(ex):
    """the service gets exactly the arguments, behind the raw request when asked for"""
    g = call(ex, GW + 'BaseGateway'); tr = Trace()
    http = mark(ex, 'request'); sr = code(ex, 'service', tr)
    exposed = bool(ex.choice(2))
    scope(ex, **{BG + 'mustExposeRequest': lambda ex2, ff, x, k: (ex2.prove(x[1] is sr, 'of-this-request'), exposed)[1]})
    args = anyargs(ex); kw = {'http_request': http} if ex.choice(2) else {}
    r = result(ex, lambda: meth(ex, g, 'callServiceRequest', sr, *args, **kw))
    ex.prove(len(tr.ev) == 1 and not tr.ev[0][2], 'called-once')
    same_args(ex, tr.ev[0][1], ((http if kw else None,) if exposed else ()) + args, 'with-these-arguments')
    if tr.ev[0][3][0] != 'ok': ex.prove(r[0] == 'exc' and r[2] is tr.ev[0][3][1], 'its-failure-passed-on')
    else: expect(ex, r, 'ok', 'called'); ex.prove(r[1] is tr.ev[0][3][1], 'its-result')
    ex.cover('exposed' if exposed else 'plain')

# ---- the processors
class Request(object):
    """a request of any target and arguments, with or without credentials, and the gateway steps as arbitrary code"""
    def __init__(self, ex, amf3=False):
        self.ex = ex; self.tr = Trace(); self.kw = {'http_request': mark(ex, 'request')}
        self.env = call(ex, RM + 'Envelope', 0)
        self.cred = ex.choice(2)
        self.user, self.pw = mark(ex, 'user'), mark(ex, 'password')
        self.describe = not amf3 and bool(ex.choice(2))
        hs = I.as_dict(ex, attr(ex, self.env, 'headers'))
        if self.cred: I.dict_set(ex, hs, b'Credentials', I.new_dict(ex, [(b'userid', self.user), (b'password', self.pw)]))
        if self.describe: I.dict_set(ex, hs, b'DescribeService', True)
        n = ex.int('arguments', lo=0).t
        self.args = L.Piece(n, lambda ex2, k: Opaque('argument', (as_int(k),)), 'arguments')
        self.target = R.sym_str(ex, 'target', 'u')
        self.g = call(ex, GW + 'BaseGateway', debug=bool(ex.choice(2)), logger=[None, logger(ex)][ex.choice(2)])
        self.w = call(ex, GW + 'ServiceWrapper', mark(ex, 'service'), mark(ex, 'description'))
        self.sr = call(ex, GW + 'ServiceRequest', self.env, self.w, None)
        self.found = None; self.auth = self.pre = self.called = None
        scope(ex, **{BG + 'getServiceRequest': self.c_find, BG + 'authenticateRequest': self.c_auth, BG + 'preprocessRequest': self.c_pre, BG + 'callServiceRequest': self.c_call})
    def c_find(self, ex, f, a, k):
        self.asked = a[2]
        self.found = ex.choice(3)
        if self.found == 1: raise PyRaise(call(ex, GW + 'UnknownServiceError', b'unknown'))
        if self.found == 2: raise PyRaise(error(ex, 'lookup error'))
        return self.sr
    def c_auth(self, ex, f, a, k):
        ex.prove(a[1] == self.sr, 'authenticates-this-request')
        ex.prove(self.auth is None and self.pre is None and self.called is None, 'authenticates-first')
        want = (self.user, self.pw) if self.cred else (None, None)
        ex.prove(len(a) == 4 and a[2] is want[0] and a[3] is want[1], 'with-the-credentials-of-this-request', repr(a[2:]))
        ex.prove(k.get('http_request') is self.kw['http_request'], 'with-the-raw-request')
        self.auth = outcome(ex, 'authenticated', lambda: bool(ex.choice(2)))
        return play(self.auth)
    def accepted(self): return self.auth is not None and self.auth[0] == 'ok' and self.auth[1] is True
    def c_pre(self, ex, f, a, k):
        ex.prove(self.accepted(), 'preprocessor-only-after-acceptance'); ex.prove(self.pre is None and self.called is None, 'preprocessor-once-before-the-method')
        ex.prove(a[1] == self.sr, 'preprocesses-this-request')
        self.preargs = a[2:]
        self.pre = outcome(ex, 'preprocessed'); return play(self.pre)
    def c_call(self, ex, f, a, k):
        ex.prove(self.accepted(), 'method-only-after-acceptance'); ex.prove(self.pre is not None and self.pre[0] == 'ok', 'method-after-preprocessor')
        ex.prove(self.called is None, 'method-once'); ex.prove(a[1] == self.sr, 'calls-this-request')
        same_args(ex, tuple(a[2:]), (self.args,), 'with-its-arguments')
        ex.prove(k.get('http_request') is self.kw['http_request'], 'with-the-raw-request')
        self.called = outcome(ex, 'called'); return play(self.called)
    def ended(self):
        """(how, error) of what ended this request: nothing, unknown, refused, failed, exit"""
        if self.found: return ('unknown' if self.found == 1 else 'failed', None)
        for o in (self.auth, self.pre, self.called):
            if o is None: continue
            if o[0] == 'error': return ('failed', o[1])
            if o[0] == 'exit': return ('exit', o[1])
            if o is self.auth and o[1] is not True: return ('refused', None)
        return ('answered', None)

def logger(ex):
    return Opaque('logger', (), {'truth': lambda *a: True, 'getattr': lambda ex2, o, n: BuiltinFn('log', lambda *a: None)})

def text_contract(ex, f, a, k): return ex.memo.setdefault(('text of', keyname(ex, a[0]) if not isinstance(a[0], Ref) else a[0].a), R.sym_str(ex, 'text', 'u'))

def is_fault(ex, f, e, debug, name):
    """obligation: an error fault naming this error, with details only when debugging"""
    ex.prove(I.is_subclass(ex, I.class_of(ex, f), G(ex, RM + 'ErrorFault')), name + '-error-fault')
    c = attr(ex, f, 'code')
    if isinstance(e, Opaque): same(ex, c, code_of(ex, e), name + '-code')
    d = attr(ex, f, 'description')
    if isinstance(e, Opaque): same_bytes(ex, d, ex.memo.get(('text of', keyname(ex, e)), b'?'), name + '-message')
    ex.prove(I.truth(ex, attr(ex, f, 'details')) == debug, name + '-details-only-when-debugging', repr(attr(ex, f, 'details')))

def process_amf0(ex):
    """the AMF0 processor: any target, credentials, arguments, outcome of every step, debugging and logging or not"""
    q = Request(ex)
    req = call(ex, RM + 'Request', q.target, ex.heap.new(HList([q.args])), q.env)
    p = call(ex, A0 + 'RequestProcessor', q.g)
    r = result(ex, lambda: I.call(ex, p, [req], dict(q.kw)))
    how, e = q.ended()
    ex.cover(how)
    if how == 'exit': ex.prove(r[0] == 'exc' and r[2] is e, 'exit-passed-on'); return
    if r[0] != 'ok': return ex.prove(q.found == 2 and isinstance(r[2], Opaque), 'answered', 'raises %r' % (r[2],))      # (what getServiceRequest may raise besides: C14)
    ex.prove(I.class_of(ex, r[1]) == G(ex, RM + 'Response'), 'is-a-response')
    same_bytes(ex, q.asked, q.target, 'of-its-target')
    st = attr(ex, r[1], 'status'); b = attr(ex, r[1], 'body')
    debug = I.truth(ex, attr(ex, q.g, 'debug'))
    if how == 'answered':
        ex.prove(st == 0, 'status-ok')
        if q.describe: ex.prove(q.called is None and b is attr(ex, q.w, 'description'), 'description'); ex.cover('described')
        else: ex.prove(q.called is not None and b is q.called[1], 'its-result', repr(b))
        return
    ex.prove(st == 1, 'status-error')
    if how == 'refused':
        ex.prove(q.pre is None and q.called is None, 'nothing-run')
        same_bytes(ex, attr(ex, b, 'code'), b'AuthenticationError', 'authentication-fault'); is_fault(ex, b, None, False, 'refused'); return
    if how == 'unknown':
        ex.prove(q.auth is None and q.pre is None and q.called is None, 'nothing-run')
        same_bytes(ex, attr(ex, b, 'code'), b'Service.ResourceNotFound', 'unknown-service-fault')
        is_fault(ex, b, None, debug, 'unknown'); return
    is_fault(ex, b, e, debug, 'failure')

def process_amf3(ex):
    """the RemoteObject processor: a remoting message to any destination and operation, with or without credentials, any arguments, any outcome of every step; any other message runs no service code"""
    what = ex.choice(6)
    MS = 'pyamf.flex.messaging.'
    rq = None
    if what == 0:
        q = Request(ex, True)
        dest = [None, b'', R.sym_str(ex, 'destination', 'b')][ex.choice(3)]; op = R.sym_str(ex, 'operation', 'b')
        rq = call(ex, MS + 'RemotingMessage', destination=dest, operation=op, body=ex.heap.new(HList([q.args])), messageId=mark(ex, 'message id'))
    else:
        q = Request(ex, True)
        if what == 1: rq = call(ex, MS + 'CommandMessage', operation=ex.int('operation'), messageId=mark(ex, 'message id'))
        elif what == 2: rq = call(ex, MS + 'AsyncMessage', messageId=mark(ex, 'message id'))
        elif what == 3: rq = mark(ex, 'something else'); rq.props.update({'isinstance': lambda *a: False, 'getattr': lambda ex2, o, n: I.attr_error(ex2, o, n)})
    body = ex.heap.new(HList([rq] if what < 4 else [])) if what != 5 else mark(ex, 'no list')
    if what == 5: body.props['getitem'] = lambda ex2, o, i: ex2.raise_('TypeError', b'no list')
    req = call(ex, RM + 'Request', b'null', body, q.env)
    I.setattr_(ex, req, 'body', body)
    faults = []
    def gen(ex2, f, a, k):
        fm = call(ex2, MS + 'ErrorMessage', correlationId=mark(ex2, 'correlation')); faults.append((fm, a)); return fm
    scope(ex, **{A3 + 'generate_error': gen})
    p = call(ex, A3 + 'RequestProcessor', q.g)
    r = result(ex, lambda: I.call(ex, p, [req], dict(q.kw)))
    how, e = q.ended()
    if how == 'exit': ex.prove(r[0] == 'exc' and r[2] is e, 'exit-passed-on'); ex.cover('exit'); return
    expect(ex, r, 'ok', 'answered') if r[0] == 'ok' or r[1] else ex.prove(False, 'answered', repr(r[2]))
    ex.prove(I.class_of(ex, r[1]) == G(ex, RM + 'Response'), 'is-a-response')
    st = attr(ex, r[1], 'status'); b = attr(ex, r[1], 'body')
    if what: ex.prove(q.found is None and q.auth is None and q.pre is None and q.called is None, 'no-service-code')
    if what == 0 and q.found is not None:
        want = op
        if isinstance(dest, R.Rope) and not ex.valid(as_int(R.length(ex, dest)) == 0): want = R.concat(ex, R.concat(ex, dest, b'.'), op)
        same_bytes(ex, q.asked, want, 'of-its-destination-and-operation')
    if faults:
        ex.prove(len(faults) == 1 and b == faults[0][0] and st == 1, 'status-error'); f, a = faults[0]
        ex.prove(as_bool(I.is_(ex, a[0], rq)), 'fault-of-this-request')
        dbg = len(a) > 4 and I.truth(ex, a[4])
        ex.prove(dbg == I.truth(ex, attr(ex, q.g, 'debug')), 'details-only-when-debugging')
        ex.cover('refused' if how == 'refused' else 'unknown' if how == 'unknown' else 'failed' if e is not None else 'no request')
        ex.prove(how != 'answered' or what != 0, 'faulted-only-when-it-failed', how)
        if how == 'refused':
            ex.prove(q.pre is None and q.called is None, 'nothing-run'); same_bytes(ex, attr(ex, a[1], '_amf_code'), b'AuthenticationError', 'authentication-fault')
        if e is not None: ex.prove(a[2] is e and as_bool(I.is_(ex, a[1], e.props['class'])), 'fault-of-this-error')
    else:
        ex.prove(what < 3 and how == 'answered' and st == 0, 'status-ok')
        ex.prove(I.class_of(ex, b) == G(ex, MS + 'AcknowledgeMessage'), 'acknowledged')
        ex.prove(attr(ex, b, 'correlationId') is attr(ex, rq, 'messageId'), 'correlated')
        if what == 0: ex.prove(q.called is not None and attr(ex, b, 'body') is q.called[1], 'its-result'); ex.cover('answered')
        else: ex.cover('other message')

GATEWAY_STEPS = tuple(BG + n for n in ('getServiceRequest', 'authenticateRequest', 'preprocessRequest', 'callServiceRequest', 'getAuthenticator', 'getPreprocessor', 'mustExposeRequest')) + (GW + 'ServiceWrapper.getMethods', A3 + 'generate_error')
CON = {q: in_scope(q) for q in GATEWAY_STEPS}
CON[RM + 'get_error_text'] = text_contract
for q, w in (('getServiceRequest', 'C14.resolve'), ('authenticateRequest', 'C15.authenticate'), ('preprocessRequest', 'C15.preprocess'), ('callServiceRequest', 'C15.calling'),
             ('getAuthenticator', 'C15.authenticator_level'), ('getPreprocessor', 'C15.preprocessor_level'), ('mustExposeRequest', 'C15.exposes')): CALLEE[BG + q] = 'discharged by ' + w
CON[A3 + 'generate_random_id'] = lambda ex, f, a, k: R.sym_str(ex, 'random id')
CALLEE[A3 + 'generate_random_id'] = 'assumed: uuid.uuid4 gives a text'
CALLEE[A3 + 'generate_error'] = 'discharged by C16.error_message'
CALLEE[GW + 'ServiceWrapper.getMethods'] = 'discharged by C14.methods'
CALLEE[RM + 'get_error_text'] = 'discharged by C16.error_text'

def lemmas(world, tier):
    L_ = lambda n, f, **k: Lemma('C15.' + n, f, contracts=k.pop('contracts', CON), **k)
    return [L_('authenticator_level', level('Authenticator'), cover=('method', 'service', 'gateway', 'none')), L_('preprocessor_level', level('Preprocessor'), cover=('method', 'service', 'gateway', 'none')),
            L_('exposes', exposes, cover=('True', 'False')), L_('authenticate', authenticate, cover=('none', 'fails', 'accepted', 'refused')), L_('preprocess', preprocess, cover=('none', 'run')),
            L_('calling', calling, cover=('exposed', 'plain')), L_('process_amf0', process_amf0, cover=('answered', 'unknown', 'refused', 'failed', 'exit', 'described')),
            L_('process_amf3', process_amf3, cover=('answered', 'refused', 'unknown', 'failed', 'exit', 'no request', 'other message'))]
