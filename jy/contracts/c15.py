from contracts.services import *

# an authenticator: what it does with the credentials, and whether it asks for the raw request
AUTHS = ('ok', 'creds', 'no', 'none', 'one', 'text', 'obj', 'raise', 'deny_exc', 'base')
class Denied(Exception): _amf_code = 'Denied.Code'
def authenticator(name, kind, expose, how):
    def body(a):
        LOG.append(('auth', name, a))
        u, p = a[-2:]
        if kind == 'ok': return True
        if kind == 'creds': return u == u'user' and p == u'pass'
        if kind == 'no': return False
        if kind == 'none': return None
        if kind == 'one': return 1
        if kind == 'text': return 'yes'
        if kind == 'obj': return [True]
        if kind == 'deny_exc': raise Denied('x')
        if kind == 'base': raise BaseOnly('x')
        raise ValueError('x')
    if how == 'func': f = lambda *a: body(a)
    elif how == 'object':
        class F(object):
            def __call__(self, *a): return body(a)
        f = F()
    else:
        class G(object):
            def m(self, *a): return body(a)
        f = G().m
        if expose: f = lambda *a: body(a)
    if expose: f = gateway.expose_request(f)
    return f
def accepts(kind, cred): return kind == 'ok' or (kind == 'creds' and cred == (u'user', u'pass'))
def preprocessor(name, kind, expose):
    def f(*a):
        LOG.append(('pre', name, a))
        if kind == 'raise': raise ValueError('pre')
        if kind == 'false': return False
    if expose: f = gateway.expose_request(f)
    return f

def g_spec(r, kinds):
    if r.randrange(2): return None
    return (r.choice(kinds), bool(r.randrange(2)))
def g_auth(r):
    lv = {}
    for l in ('method', 'service', 'gateway'):
        lv[l] = {'auth': g_spec(r, AUTHS + ('ok', 'creds', 'creds', 'no')), 'pre': g_spec(r, ('ok', 'raise', 'false', 'ok')), 'expose': r.choice([None, None, False, True]), 'how': r.choice(['func', 'func', 'object', 'method'])}
    reqs = [(r.choice(['m', 'm', 'm', 'n', 'self', '_p', 'zz', 'boom', 'describe']), r.randrange(2), r.choice([None, (u'user', u'pass'), (u'user', u'pass'), (u'user', u'Pass'), (u'', u''), (u'user', None), 'bad', 'part']), r.randrange(3))
            for _ in range(r.randrange(1, 6))]
    return r.choice(['class', 'oldclass', 'instance', 'func', 'callclass', 'module', 'method']), lv, reqs, r.choice(['decorate', 'wrapped'])
N = {'auth': None, 'pre': None, 'expose': None, 'how': 'func'}
def lv(**k): return dict((l, dict(N, **k.get(l, {}))) for l in ('method', 'service', 'gateway'))
R2 = [('m', v, c, 1) for v in (0, 1) for c in ((u'user', u'pass'), None, (u'user', u'x'))]
CORNERS = [('class', lv(**{l: {'auth': ('creds', e), 'pre': ('ok', e), 'expose': e}}), R2 + R2[:1], 'decorate') for l in ('method', 'service', 'gateway') for e in (False, True)]
CORNERS += [('instance', lv(gateway={'auth': ('no', False)}, service={'auth': ('no', False)}, method={'auth': ('ok', False)}), R2 + [('n', 0, None, 1), ('zz', 0, None, 0)], 'decorate'),
            ('instance', lv(gateway={'auth': ('ok', False)}, service={'auth': ('no', False)}), R2 + [('n', 0, None, 1), ('zz', 0, None, 0), ('describe', 0, None, 0)], 'decorate'),
            ('func', lv(gateway={'auth': ('ok', False)}, method={'auth': ('no', False), 'pre': ('ok', False)}), [('self', v, None, 1) for v in (0, 1)], 'decorate'),
            ('instance', lv(gateway={'auth': ('ok', False), 'expose': True}, method={'auth': ('no', False), 'pre': ('ok', False)}), R2 + [('n', 0, None, 1)], 'decorate')]
CORNERS += [('class', lv(service={'auth': (k, False), 'pre': ('ok', False)}), [('m', v, (u'user', u'pass'), 1) for v in (0, 1)], 'wrapped') for k in AUTHS]

def setup(case):
    kind, lv, reqs, style = case
    mk_auth = lambda l: lv[l]['auth'] and authenticator(l, lv[l]['auth'][0], lv[l]['auth'][1], lv[l]['how'])
    mk_pre = lambda l: lv[l]['pre'] and preprocessor(l, *lv[l]['pre'])
    def deco(f):
        a, p = mk_auth('method'), mk_pre('method')
        if a: f = gateway.authenticate(f, a)
        if p: f = gateway.preprocess(f, p)
        if lv['method']['expose'] is not None and lv['method']['expose']: f = gateway.expose_request(f)
        return f
    ns = {'m': lambda self, *a: rec('svc.m', a), 'n': lambda self, *a: rec('svc.n', a), '_p': lambda self, *a: rec('svc._p', a)}
    def boom(self, *a):
        rec('svc.boom', a); raise ValueError('x')
    ns['boom'] = boom
    if kind in ('class', 'instance', 'callclass'):
        if kind == 'callclass': ns['__call__'] = lambda self, *a: rec('svc()', a)
        if style == 'decorate': ns['m'] = deco(ns['m'])
        S = type('Svc', (object,), ns)
        if style != 'decorate': deco(S.m)
        s = S() if kind == 'instance' else S
    elif kind == 'oldclass':
        if style == 'decorate': ns['m'] = deco(ns['m'])
        s = types.ClassType('Svc', (), ns)
        if style != 'decorate': deco(s.m)
    elif kind == 'module':
        s = types.ModuleType('mod')
        s.m = deco(lambda *a: rec('svc.m', a)); s.n = lambda *a: rec('svc.n', a)
        def b(*a):
            rec('svc.boom', a); raise ValueError('x')
        s.boom = b; s._p = lambda *a: rec('svc._p', a)
    elif kind == 'func': s = deco(lambda *a: rec('svc()', a))
    else:
        C = type('Svc', (object,), {'f': deco(lambda self, *a: rec('svc()', a))}); s = C().f
    gw = gateway.BaseGateway(authenticator=mk_auth('gateway'), preprocessor=mk_pre('gateway'), expose_request=bool(lv['gateway']['expose']))
    gw.addService(s, 'svc', description='desc', authenticator=mk_auth('service'), preprocessor=mk_pre('service'), expose_request=lv['service']['expose'])
    return gw

@contract('C15', g_auth, CORNERS)
def protected(case):
    """the most specific authenticator is asked, once, with this request's credentials; method and preprocessor run only if it
    returned True; the raw request goes to the callables that ask for it and to no other"""
    kind, lv, reqs, style = case
    gw = setup(case)
    plain = kind in ('func', 'method')
    for meth, via, cred, nargs in reqs:
        if plain: meth = 'self'
        if meth == 'describe' and via: meth = 'm'
        describe = meth == 'describe'
        if describe: meth = 'm'
        if kind == 'module' and meth == 'self': meth = 'm'
        level = lambda what: ('method' if lv['method'][what] is not None and (meth == 'm' or (plain and meth == 'self')) else None) or ('service' if lv['service'][what] is not None else 'gateway')
        a_l, p_l = level('auth'), level('pre')
        e_m = lv['method']['expose'] and (meth == 'm' or plain)
        expose = True if e_m else lv['service']['expose'] if lv['service']['expose'] is not None else bool(lv['gateway']['expose'])
        auth, pre = lv[a_l]['auth'], lv[p_l]['pre']
        headers = {}
        if describe: headers['DescribeService'] = None
        if cred == 'bad': headers['Credentials'] = u'text'
        elif cred == 'part': headers['Credentials'] = {u'userid': u'user'}
        elif cred: headers['Credentials'] = {u'userid': cred[0], u'password': cred[1]}
        http = object(); args = [object() for _ in range(nargs)]
        target = u'svc' if meth == 'self' else u'svc.' + meth.decode('ascii')
        if via: req = amf3_request(None, target, [], headers); req.body[0].body = args
        else: req = amf0_request(target, args, headers)
        del LOG[:]
        got = verdict(process(gw, req, http)); log = list(LOG)
        want = []; out = None
        raw = lambda e: (http,) if e else ()
        if cred in ('bad', 'part'): out = ('fault', None)
        else:
            if auth is not None:
                want.append(('auth', a_l, raw(auth[1]) + (cred or (None, None))))
                if auth[0] == 'raise': out = ('fault', 'ValueError')
                elif auth[0] == 'deny_exc': out = ('fault', 'Denied.Code')
                elif auth[0] == 'base': out = ('fault', 'BaseOnly')
                elif not accepts(auth[0], cred): out = ('fault', 'AuthenticationError')
            if out is None and pre is not None:
                want.append(('pre', p_l)) 
                if pre[0] == 'raise': out = ('fault', 'ValueError')
        calls = [x for x in log if x[0] not in ('auth', 'pre')]
        given = tuple(raw(expose)) + tuple(args)
        reach = None
        if out is None:
            if describe: out = ('ok', 'desc')
            elif meth == '_p': out = ('fault', 'Service.MethodInvalid')
            elif meth == 'zz': out = ('fault', 'Service.MethodNotFound')
            elif meth == 'self' and not (plain or kind == 'callclass'): out = ('fault', 'Service.MethodNotFound')
            else:
                reach = 'svc()' if meth == 'self' else 'svc.' + meth
                out = ('fault', 'ValueError') if meth == 'boom' else ('ok', u'%s/%d' % (reach, len(given)))
        ensure([x[:2] if x[0] == 'pre' else x for x in log if x[0] in ('auth', 'pre')] == want, '%s %s: %s ran, expected %s', target, cred, log, want)
        ensure(calls == ([(reach, given)] if reach else []), '%s %s: %s ran, expected %s with %s', target, cred, calls, reach, given)
        for x in log:
            if x[0] == 'pre':
                x = list(x[2])
                if pre[1]: ensure(x[0] is http, 'no raw request for the preprocessor: %s', x); x = x[1:]
                ensure(http not in x, 'the preprocessor was given the raw request')
                ensure(isinstance(x[0], gateway.ServiceRequest) and (x[1:] == [] or x[1:] == args), 'preprocessor got %s', x)
        ensure(got[0] == out[0] and (out[1] is None or got[1] == out[1]), '%s %s: answered %s, expected %s', target, cred, got, out)

@contract('C15', None, [0])
def decorators(_):
    """the decorators return the function they were given and refuse what cannot be called"""
    f = lambda: 1
    for d in (gateway.authenticate, gateway.preprocess):
        ensure(d(f, lambda *a: True) is f, '%s', d)
        raises(TypeError, d, 5, lambda: 1); raises(TypeError, d, f, 5)
        raises(TypeError, d, f, None)
    ensure(gateway.expose_request(f) is f, 'expose_request')
    raises(TypeError, gateway.expose_request, 5)
