# Services with recorded calls, and the expected outcome of a request on them, from the description alone.
from envelopes import *
import types, uuid
from pyamf.remoting import gateway
from pyamf.remoting.gateway.wsgi import WSGIGateway
from pyamf.flex import messaging

LOG = []
def rec(path, args):
    LOG.append((path, tuple(args)))
    return u'%s/%d' % (path, len(args))

class Coded(Exception):
    _amf_code = 'My.Code'
class OldCoded:
    _amf_code = 'Old.Code'
    def __init__(self, *a): self.args = a
class SubCoded(Coded): pass
class OwnCoded(Coded): _amf_code = 'Own.Code'
class OldSubCoded(OldCoded): pass
class OldPlain: pass
class BadStr(Exception):
    def __str__(self): raise ValueError('no text')
    __repr__ = __unicode__ = __str__
class Msg(Exception):
    def __init__(self, m): self.message = m
class Locked(Exception):
    """cannot be encoded"""
    def __init__(self): self.lock = types
class BaseOnly(BaseException): pass
ERRORS = {'value': lambda: ValueError('no'), 'key': lambda: KeyError('k'), 'coded': lambda: Coded('c'), 'subcoded': lambda: SubCoded('c'), 'owncoded': lambda: OwnCoded('c'), 'oldsubcoded': lambda: OldSubCoded('x'), 'old': lambda: OldPlain(), 'oldcoded': lambda: OldCoded('x'),
          'uni': lambda: ValueError(u'\xe9\u20ac'), 'bytes': lambda: ValueError('\xff\xe9'), 'badstr': lambda: BadStr('q'), 'noargs': lambda: RuntimeError(),
          'msgint': lambda: Msg(7), 'msguni': lambda: Msg(u'\u20ac'), 'msgobj': lambda: Msg(object), 'locked': lambda: Locked(), 'base': lambda: BaseOnly('b'),
          'unknown': lambda: gateway.UnknownServiceError('inner'), 'decode': lambda: pyamf.DecodeError('d'), 'stop': lambda: StopIteration(),
          'os': lambda: OSError(2, 'No such file'), 'unicode': lambda: UnicodeDecodeError('utf-8', '\xff', 0, 1, 'bad'), 'assert': lambda: AssertionError(),
          'import': lambda: ImportError('m'), 'attr': lambda: AttributeError('a'), 'type': lambda: TypeError('t'), 'gen': lambda: GeneratorExit()}
def code_of(kind):
    e = ERRORS[kind]()
    return {'coded': 'My.Code', 'subcoded': 'My.Code', 'owncoded': 'Own.Code', 'oldsubcoded': 'Old.Code', 'oldcoded': 'Old.Code', 'unknown': 'Service.ResourceNotFound'}.get(kind) or (e.__class__ if isinstance(e, BaseException) else e.__class__).__name__

class Sub(object):
    def m(self, *a): return rec('sub.m', a)
def methods(path, old=False):
    ns = {}
    def meth(n):
        def f(self, *a): return rec('%s.%s' % (path, n), a)
        f.__name__ = n
        return f
    for n in ('a', 'ab', 'login', '_priv', '__hid', '__call2__'): ns[n] = meth(n)
    ns['b_'] = meth('b_')
    def two(self, x, y): return rec('%s.two' % path, (x, y))
    ns['two'] = two
    def boom(self, kind): LOG.append(('%s.boom' % path, (kind,))); raise ERRORS[kind]()
    ns['boom'] = boom
    def echo(self, v): LOG.append(('%s.echo' % path, ())); return v
    ns['echo'] = echo
    ns['data'] = 5; ns['none'] = None; ns['text'] = 'x'; ns['sub'] = Sub()
    return ns
CALLABLE = ('a', 'ab', 'login', 'b_', 'two', 'boom', 'echo')
KINDS = ('class', 'oldclass', 'instance', 'oldinstance', 'func', 'method', 'module', 'callclass', 'callinstance', 'lambda')
def service(name, kind):
    ns = methods(name)
    if kind == 'class': return type('Svc', (object,), ns)
    if kind == 'oldclass': return types.ClassType('Svc', (), ns)
    if kind == 'instance': return type('Svc', (object,), ns)()
    if kind == 'oldinstance': return types.ClassType('Svc', (), ns)()
    if kind in ('callclass', 'callinstance'):
        ns['__call__'] = lambda self, *a: rec('%s()' % name, a)
        c = type('Svc', (object,), ns)
        return c if kind == 'callclass' else c()
    if kind == 'func':
        def f(*a): return rec('%s()' % name, a)
        return f
    if kind == 'lambda': return lambda *a: rec('%s()' % name, a)
    if kind == 'method': return type('Svc', (object,), {'meth': lambda self, *a: rec('%s()' % name, a)})().meth
    if kind == 'module':
        m = types.ModuleType('svcmod')
        for n in CALLABLE + ('_priv', '__hid'):
            def f(n=n):
                def g(*a): return rec('%s.%s' % (name, n), a)
                return g
            setattr(m, n, f())
        m.data = 5; m.none = None; m.text = 'x'; m.sub = Sub()
        return m
    raise ValueError(kind)
SELF = ('func', 'lambda', 'method', 'callclass', 'callinstance')     # may be called themselves

def expected(services, target):
    """what the target reaches: ('call', path) or ('fault', code)"""
    if target in services:
        return ('call', '%s()' % target) if services[target] in SELF else ('fault', 'Service.MethodNotFound')
    i = target.rfind(u'.')
    if i < 0: name, meth = u'', target
    else: name, meth = target[:i], target[i + 1:]
    if name not in services: return ('fault', 'Service.ResourceNotFound')
    k = services[name]
    try: meth.encode('ascii')
    except UnicodeError: return ('fault', None)
    if meth.startswith('_'): return ('fault', 'Service.MethodInvalid')
    if k in ('func', 'lambda', 'method'): return ('fault', None)
    if meth in CALLABLE: return ('call', '%s.%s' % (name, meth))
    if meth in ('data', 'none', 'text', 'sub'): return ('fault', 'Service.MethodInvalid')
    return ('fault', 'Service.MethodNotFound')

NAMES = [u'svc', u'svc.a', u'other', u'a', u'', u'a.b.c', u'echo', u'_p', u's v']
METHS = [u'a', u'ab', u'login', u'_priv', u'__hid', u'__call2__', u'_Svc__hid', u'b_', u'data', u'none', u'text', u'sub', u'sub.m', u'', u'missing', u'__class__', u'__init__', u'__dict__',
         u'__call__', u'func_globals', u'A', u'a ', u' a', u'a.a', u'.a', u'a.', u'sub.__class__', u'\xe9', u'__getattribute__', u'_', u'__str__', u'a\x00', u'None']
def g_services(r):
    return dict((n, r.choice(KINDS)) for n in NAMES if r.randrange(3) == 0 or n == u'svc')
AFFIX = [u' ', u'\t', u'.', u'..', u'_', u'\n', u'()', u'\x00', u'/', u'#', u':']
def odd_targets(n):
    """near misses of a service name"""
    out = []
    for m in (u'a', u'_priv'):
        out += [n + u'.' + n + u'.' + m, n + u'.' + m + u'.' + m, n + u'..' + m, u'.' + n + u'.' + m, n + u'.' + m + u'.', n + u'.sub.m', n + u'.sub.' + m, n + u'.im_self.' + m, n + u'.__class__.' + m,
                n + u'.service.' + m, u'services.' + n + u'.' + m, n.upper() + u'.' + m, n + u'.' + m.upper()]
        out += [n + u'.' + x + m for x in AFFIX] + [n + u'.' + m + x for x in AFFIX] + [n + x + u'.' + m for x in AFFIX] + [x + n + u'.' + m for x in AFFIX]
    return out
def g_target(r, services):
    k = r.randrange(9)
    n = r.choice(sorted(services))
    if k == 0: return n
    if k == 1: return r.choice([w for w in WORDS if w]).decode('latin-1')
    if k == 2: return g_uni(r)
    if k == 3: return r.choice(NAMES) + u'.' + r.choice(METHS)
    if k == 4: return n + u'.' + r.choice(list(CALLABLE)).decode('ascii')
    if k == 5: return r.choice(odd_targets(n))
    return n + u'.' + r.choice(METHS)

def process(gw, message, http=None):
    return gw.getProcessor(message)(message, http_request=http)
def amf0_request(target, args, headers=None):
    e = remoting.Envelope(0)
    for k in headers or {}: e.headers[k] = headers[k]
    e['/1'] = remoting.Request(target, body=list(args))
    return e['/1']
def amf3_request(destination, operation, args, headers=None, **kw):
    e = remoting.Envelope(3)
    for k in headers or {}: e.headers[k] = headers[k]
    m = messaging.RemotingMessage(destination=destination, operation=operation, body=list(args), messageId=u'mid', **kw)
    e['/1'] = remoting.Request(u'null', body=[m])
    return e['/1']
def verdict(resp):
    """('ok', value) or ('fault', code) of a response of either kind"""
    b = resp.body
    if isinstance(b, messaging.ErrorMessage):
        ensure(resp.status == remoting.STATUS_ERROR, 'status %s for a fault', resp.status)
        return ('fault', b.faultCode)
    if isinstance(b, remoting.ErrorFault):
        ensure(resp.status == remoting.STATUS_ERROR, 'status %s for a fault', resp.status)
        return ('fault', b.code)
    ensure(resp.status == remoting.STATUS_OK, 'status %s for a result %s', resp.status, b)
    if isinstance(b, messaging.AcknowledgeMessage): return ('ok', b.body)
    return ('ok', b)
