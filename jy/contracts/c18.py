from contracts.envelopes import *
from pyamf.remoting import client
import urllib2, gzip
from cStringIO import StringIO

class Reg(pyamf.BaseError): pass
class Head(object):
    def __init__(self, h): self.h = dict((k.lower(), v) for k, v in h.items())
    def getheader(self, n): return self.h.get(n.lower())
class Reply(object):
    def __init__(self, body, headers): self.f = StringIO(body); self.h = headers
    def info(self): return Head(self.h)
    def read(self, n=-1): return self.f.read(n) if n >= 0 else self.f.read()

class Server(object):
    """answers each request with its own target and arguments"""
    def __init__(self): self.seen = []; self.how = {}; self.sent = 0
    def __call__(self, req):
        self.sent += 1
        how, self.how = self.how, {}
        self.http = (req.get_full_url(), dict((k.lower(), v) for k, v in req.header_items()))
        if how.get('fail') == 'url': raise urllib2.URLError('down')
        if how.get('fail') == 'http': raise urllib2.HTTPError('http://h/', 500, 'oops', {}, None)
        if how.get('fail') == 'os': raise IOError('reset')
        e = remoting.decode(req.get_data(), strict=how.get('strict', False))
        self.seen.append([(u(n), u(m.target), list(m.body)) for n, m in e])
        self.headers = dict((u(k), (v, e.headers.is_required(k))) for k, v in e.headers.items())
        out = remoting.Envelope(e.amfVersion)
        items = list(e)
        if how.get('order') == 'reverse': items.reverse()
        elif how.get('order'): random.Random(how['order']).shuffle(items)
        for i, (n, m) in enumerate(items):
            if how.get('drop') == u(n): continue
            code = how.get('fault', {}).get(u(m.target))
            if code is not None: out[n] = remoting.Response(remoting.ErrorFault(code=code, description=u'because %s' % u(n)), status=remoting.STATUS_ERROR)
            elif how.get('debug'): out[n] = remoting.Response([u(m.target), list(m.body)], status=remoting.STATUS_DEBUG)
            else: out[n] = remoting.Response([u(m.target), list(m.body)])
        if how.get('extra'): out[u'/99999'] = remoting.Response(u'stray')
        for k, v in how.get('headers', []): out.headers[k] = v
        body = remoting.encode(out, use_ext=False, strict=True).getvalue()
        h = {'Content-Type': how.get('type', 'application/x-amf'), 'Server': 'x'}
        if how.get('gzip'):
            s = StringIO(); g = gzip.GzipFile(fileobj=s, mode='wb'); g.write(body); g.close(); body = s.getvalue(); h['Content-Encoding'] = how['gzip']
        if how.get('cut'): body = body[:min(how['cut'], len(body) - 1)]
        if not how.get('nolen'): h['Content-Length'] = str(len(body))
        return Reply(body, h)
import random

URLS = ['http://h/a', 'https://h:81/b?c', 'http://other/']
CODES = ['Server.Call.Failed', 'Reg.Code', 'Unknown.Code', '', 'TypeError', 'Some']
EXC = {'Server.Call.Failed': remoting.RemotingCallFailed, 'Reg.Code': Reg, 'TypeError': TypeError}
TYPES = ['application/x-amf', 'application/x-amf; charset=x', ' application/x-amf ;x', 'text/html', 'application/x-amfx', 'x', '', 'application/x-amf,', 'APPLICATION/X-AMF', 'text/html; application/x-amf']
def g_how(r):
    h = {}
    k = r.randrange(9)
    if k == 0: h['fail'] = r.choice(['url', 'http', 'os'])
    elif k == 1: h['type'] = r.choice(TYPES)
    elif k == 2: h['drop'] = u'/%d' % r.randrange(1, 5)
    elif k == 3: h['fault'] = dict((u's%d.m' % i, r.choice(CODES)) for i in range(3) if r.randrange(2))
    elif k == 4: h['headers'] = r.choice([[('AppendToGatewayUrl', u'?s=1')], [('ReplaceGatewayUrl', unicode(r.choice(URLS)))], [('RequestPersistentHeader', {u'p': 5})], [('RequestPersistentHeader', {u'h1': u'new'})], [('AppendToGatewayUrl', u'x'), ('RequestPersistentHeader', {u'q': None, u'p': u'x'})], [('Other', 1)]])
    elif k == 5: h['cut'] = r.randrange(1, 12)
    if r.randrange(2): h['order'] = r.choice(['reverse', r.randrange(1, 99)])
    for o in ('extra', 'nolen', 'debug'):
        if r.randrange(5) == 0: h[o] = True
    if r.randrange(5) == 0: h['gzip'] = r.choice(['gzip', ' GZIP '])
    return h
def g_ops(r):
    ops = []
    for _ in range(r.randrange(1, 12)):
        k = r.randrange(14)
        if k < 5: ops.append(('add', r.randrange(3), [r.randrange(5) for _ in range(r.randrange(3))]))
        elif k < 6: ops.append(('call', r.randrange(3), [r.randrange(5)], g_how(r)))
        elif k < 7: ops.append(('queue', r.randrange(3), [r.randrange(5)]))
        elif k < 9: ops.append(('remove', r.randrange(5), bool(r.randrange(2))))
        elif k < 11: ops.append(('exec', g_how(r)))
        elif k < 12: ops.append(('single', r.randrange(5), g_how(r)))
        elif k < 13: ops.append(('header', r.choice(['h1', 'h2']), r.randrange(9), bool(r.randrange(2))))
        else: ops.append(r.choice([('http', 'X-A', 'v'), ('creds', 'u', 'p'), ('get', r.randrange(9))]))
    return r.choice([0, 3]), r.choice(URLS), bool(r.randrange(2)), bool(r.randrange(2)), ops
A3 = [('add', 0, [1]), ('add', 1, []), ('add', 2, [2, 3])]
CORN = [(v, URLS[0], s, False, A3 + [('exec', {'order': 'reverse', 'extra': True}), ('exec', {}), ('remove', 0, True), ('add', 0, [9]), ('exec', {'fault': {u's0.m': c}})]) for v, s, c in zip((0, 3) * 3, (False, True) * 3, CODES)] + \
    [(0, URLS[1], False, True, [('add', 0, [1]), ('exec', {'headers': hs}), ('call', 1, [5], {}), ('header', 'h1', 5, True), ('exec', {}), ('call', 1, [5], {'headers': hs}), ('call', 1, [5], {})]) for hs in
        ([('AppendToGatewayUrl', u'?s=1')], [('ReplaceGatewayUrl', u'http://new/x')], [('RequestPersistentHeader', {u'p': 5, u'h1': 3})])] + \
    [(3, URLS[0], False, False, A3 + [('exec', {'type': t}), ('call', 0, [1], {'type': t})]) for t in TYPES] + \
    [(3, URLS[0], False, False, A3 + [('exec', {'fail': t}), ('call', 0, [1], {'fail': t}), ('exec', {})]) for t in ('url', 'http', 'os')] + \
    [(3, URLS[0], True, False, A3 + [('remove', 1, w), ('single', 1, {}), ('exec', {'gzip': 'gzip', 'nolen': True}), ('add', 0, [1]), ('remove', 0, w), ('exec', {})]) for w in (False, True)]

def target(i): return u's%d.m' % i
@contract('C18', g_ops, CORN)
def session(case):
    """identifiers are never reused; each pending request is sent once and gets the response with its identifier; faults raise the
    registered error; failures and foreign content types are errors; requested URLs and headers take effect on later calls"""
    version, url, strict, log, ops = case
    srv = Server()
    gw = client.RemotingService(url, amf_version=version, opener=srv, strict=strict, user_agent='UA', referer='ref')
    pending = []; used = set(); gone = []; http = {}; headers = {}; cur = url
    had = 'Reg.Code' in pyamf.ERROR_CLASS_MAP
    if not had: pyamf.add_error_class(Reg, 'Reg.Code')
    def ident(w):
        ensure(w.id not in used, 'identifier %s used again', w.id); used.add(w.id)
    def sent(batch):
        ensure(srv.seen and srv.seen[-1] == [(u(w.id), target(i), list(a)) for w, i, a in batch], 'sent %s, expected %s', srv.seen[-1:], [(w.id, i, a) for w, i, a in batch])
        ensure(srv.http[0] == cur, 'sent to %s, expected %s', srv.http[0], cur)
        for k, v in dict(http, **{'content-type': 'application/x-amf', 'user-agent': 'UA', 'referer': 'ref'}).items(): ensure(srv.http[1].get(k) == v, 'header %s: %s', k, srv.http[1])
        ensure(srv.headers == headers, 'AMF headers %s, expected %s', srv.headers, headers)
    def after(how):
        got = cur
        for k, v in how.get('headers', []):
            if k == 'AppendToGatewayUrl': got += v
            elif k == 'ReplaceGatewayUrl': got = v
            elif k == 'RequestPersistentHeader':
                for a in v: headers[a] = (v[a], headers.get(a, (0, False))[1])
        return got
    def broken(how):
        if how.get('fail') in ('url', 'http'): return remoting.RemotingError
        if how.get('fail'): return IOError
        if 'type' in how and how['type'].split(';')[0].strip() != 'application/x-amf': return remoting.RemotingError
        if how.get('cut'): return Exception
    for op in ops:
        k = op[0]
        if k == 'add' or k == 'queue':
            if k == 'add': w = gw.addRequest(target(op[1]).encode('ascii'), *op[2])
            else: w = gw.getService('s%d' % op[1], auto_execute=False).m(*op[2])
            ident(w); pending.append((w, op[1], tuple(op[2])))
            ensure(gw.getRequest(w.id) is w, 'getRequest(%s)', w.id)
        elif k == 'remove':
            if not pending:
                raises(LookupError, gw.removeRequest, 's0.m'); continue
            j = op[1] % len(pending); w, i, a = pending[j]
            if op[2]: gw.removeRequest(w)
            else:
                j = [x for x in range(len(pending)) if pending[x][0].service == w.service and pending[x][2] == a][0]
                w, i, a = pending[j]
                gw.removeRequest(w.service, *a)
            gone.append(pending.pop(j)[0])
        elif k == 'get':
            n = '/%d' % op[1]
            have = [w for w, _, _ in pending if w.id == n]
            if have: ensure(gw.getRequest(n) is have[0], '%s', n)
            else: raises(LookupError, gw.getRequest, n)
        elif k == 'header':
            gw.addHeader(op[1], op[2], op[3]); headers[u(op[1])] = (op[2], op[3])
        elif k == 'http': gw.addHTTPHeader(op[1], op[2]); http[op[1].lower()] = op[2]
        elif k == 'creds':
            gw.setCredentials(op[1], op[2]); headers[u'Credentials'] = ({u'userid': u(op[1]), u'password': u(op[2])}, True)
        else:
            how = dict(op[-1]); srv.how = dict(how); n0 = srv.sent
            if k == 'exec': batch = list(pending); pending = []
            elif k == 'single':
                if not pending: continue
                batch = [pending.pop(op[1] % len(pending))]
            else: batch = None
            bad = broken(how)
            if k == 'exec':
                if bad: raises(bad, gw.execute); ensure(srv.sent == n0 + 1, 'sent %s times', srv.sent - n0)
                else:
                    e = gw.execute(); sent(batch); cur = after(how)
                    want = [w for w, _, _ in batch if how.get('drop') != u(w.id)]
                    ensure(sorted(u(n) for n in e.keys()) == sorted([u(w.id) for w in want] + [u'/99999'] * bool(how.get('extra'))), 'responses %s', e.keys())
                    for w, i, a in batch:
                        if how.get('drop') == u(w.id): ensure(w.id not in e, 'a response for %s', w.id); continue
                        check(e[w.id], w, i, a, how)
            elif k == 'single':
                w, i, a = batch[0]
                if bad: raises(bad, gw.execute_single, w)
                elif how.get('drop') == u(w.id): raises(KeyError, gw.execute_single, w); sent(batch); cur = after(how)
                else: r = gw.execute_single(w); sent(batch); cur = after(how); check(r, w, i, a, how)
            else:
                sv = gw.getService('s%d' % op[1])
                code = how.get('fault', {}).get(target(op[1]))
                how.pop('drop', None); srv.how.pop('drop', None)
                if bad: raises(bad, sv.m, *op[2])
                else:
                    if code is not None:
                        x = raises(EXC.get(code, remoting.RemotingError), sv.m, *op[2])
                        ensure(type(x) is EXC.get(code, remoting.RemotingError) and unicode(x).startswith(u'because /'), 'raised %s', x)
                    else:
                        v = sv.m(*op[2]); ensure(v == [target(op[1]), op[2]], 'call gave %s', v)
                    n = srv.seen[-1][0][0]
                    ensure(n not in [u(x) for x in used], 'identifier %s used again', n); used.add(n)
                    ensure(srv.seen[-1] == [(n, target(op[1]), op[2])] and srv.http[0] == cur, 'sent %s to %s', srv.seen[-1], srv.http)
                    ensure(srv.headers == headers, 'AMF headers %s, expected %s', srv.headers, headers)
                    cur = after(how)
                ensure(srv.sent == n0 + 1, 'sent %s times', srv.sent - n0)
            for w in (batch or []):
                gone.append(w[0])
        ensure([w.id for w in gw.requests] == [w.id for w, _, _ in pending], 'pending %s, expected %s', [w.id for w in gw.requests], [w.id for w, _, _ in pending])
        for w in gone:
            raises(LookupError, gw.getRequest, w.id)
            raises((LookupError, ValueError), gw.removeRequest, w); raises((LookupError, ValueError), gw.execute_single, w)
        ensure(dict((u(n), v) for n, v in gw.headers.items()) == dict((n, v[0]) for n, v in headers.items()), 'headers %s, expected %s', gw.headers, headers)

def check(r, w, i, a, how):
    code = how.get('fault', {}).get(target(i))
    if code is not None:
        ensure(r.status == remoting.STATUS_ERROR and r.body.code == code and r.body.description == u'because %s' % u(w.id), '%s answered with %s', w.id, r)
        x = raises(EXC.get(code, remoting.RemotingError), w.setResponse, r)
        ensure(type(x) is EXC.get(code, remoting.RemotingError) and unicode(x) == u'because %s' % u(w.id), 'raised %s', x)
    else:
        ensure(r.body == [target(i), list(a)], '%s answered with %s', w.id, r)
        raises(AttributeError, lambda: w.result)
        w.setResponse(r); ensure(w.result is r.body, 'result')

@contract('C18', None, ['ftp://h/', 'h', 'http://h/', 'https://h', '', 'file:///x', 'httpx://h'])
def schemes(url):
    """only HTTP addresses are accepted"""
    if url.startswith(('http://', 'https://')): client.RemotingService(url)
    else: raises(ValueError, client.RemotingService, url)
    raises(TypeError, client.RemotingService, 'http://h/', nonsense=1)
    raises(TypeError, client.RemotingService('http://h/').getService, 5)
