# Requests to the two HTTP endpoints that can run here (WSGI, Django).
from services import *
import os, sys
from cStringIO import StringIO
_m = types.ModuleType('verif_settings'); _m.SECRET_KEY = 'x'
sys.modules['verif_settings'] = _m
os.environ['DJANGO_SETTINGS_MODULE'] = 'verif_settings'
from django import http as dhttp
from django import conf
conf.settings.AMF_TIME_OFFSET = None
from pyamf.remoting.gateway.django import DjangoGateway

class Answer(object): pass
class Loud(object):
    """a logger that keeps what it is told"""
    def __init__(self): self.lines = []
    def exception(self, m, *a, **k): self.lines.append((m % a) if a else m)
    error = warning = info = debug = exception

def ask_wsgi(gw, body, method='POST', length=None, **extra):
    st = []
    env = {'REQUEST_METHOD': method, 'wsgi.input': StringIO(body), 'CONTENT_LENGTH': str(len(body)) if length is None else length}
    if length is False: del env['CONTENT_LENGTH']
    env.update(extra)
    out = gw(env, lambda s, h, *a: st.append((s, h)))
    ensure(len(st) == 1, 'the response was started %s times', len(st))
    a = Answer(); a.status = int(st[0][0].split(' ')[0]); a.line = st[0][0]
    a.headers = dict((k.lower(), v) for k, v in st[0][1]); a.body = ''.join(out)
    ensure(len(a.headers) == len(st[0][1]), 'a header twice: %s', st[0][1])
    for k, v in st[0][1]: ensure(isinstance(k, str) and isinstance(v, str), 'header %s: %s', k, v)
    ensure(isinstance(a.body, str), 'the body is no byte string: %s', a.body)
    ensure(a.headers.get('content-length') == str(len(a.body)), 'content length %s for %s bytes', a.headers.get('content-length'), len(a.body))
    return a

def ask_django(gw, body, method='POST', length=None):
    r = dhttp.HttpRequest(); r.method = method; r._stream = StringIO(body); r._read_started = False
    h = gw(r)
    ensure(isinstance(h, dhttp.HttpResponse), 'answered with %s', h)
    a = Answer(); a.status = h.status_code; a.headers = dict((k.lower(), v) for k, v in h.items()); a.body = h.content; a.line = ''
    if 'content-length' in a.headers: ensure(a.headers['content-length'] == str(len(a.body)), 'content length %s for %s bytes', a.headers['content-length'], len(a.body))
    return a
ENDS = {'wsgi': (WSGIGateway, ask_wsgi), 'django': (DjangoGateway, ask_django)}
