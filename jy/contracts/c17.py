from contracts.http import *
from contracts import c16

class NoRepr(object):
    def __repr__(self): raise ValueError('\xff\xe9')
    __str__ = __unicode__ = __repr__
class Bad(Exception):
    def __str__(self): raise ValueError(u'\xe9')
    __repr__ = __unicode__ = __str__
class BadOld: pass
CAUSES = {'value': lambda: ValueError('x'), 'uni': lambda: ValueError(u'\xe9\u20ac'), 'bytes': lambda: ValueError('\xff'), 'bad': lambda: Bad(), 'old': lambda: BadOld(), 'base': lambda: BaseOnly('x'),
          'decode': lambda: pyamf.DecodeError('x'), 'io': lambda: IOError('x'), 'eos': lambda: pyamf.EOStream('x'), 'key': lambda: KeyError(u'\xe9'), 'gen': lambda: GeneratorExit(), 'mem': lambda: MemoryError()}
UNENC = {'type': lambda: Plain, 'func': lambda: len, 'module': lambda: types, 'norepr': lambda: [NoRepr, NoRepr()], 'bigkey': lambda: {'k' * 70000: 1}, 'huge': lambda: 10 ** 400, 'gen': lambda: (x for x in [len])}

def details(a, debug, what):
    if a.status == 200: return
    if a.status in (400, 500):
        ensure(a.headers.get('content-type', '').startswith('text/plain'), 'content type %s', a.headers)
        traced = 'Traceback' in a.body
        ensure(traced == debug or a.status == 400 and what == 'method', 'debug is %s: %s', debug, a.body)

def g_http(r):
    end = r.choice(['wsgi', 'wsgi', 'django'])
    opt = {'debug': bool(r.randrange(2)), 'strict': bool(r.randrange(2)), 'log': bool(r.randrange(2)), 'tz': r.choice([None, None, 0, 3600, -7200.0])}
    k = r.randrange(12)
    if k < 2: return end, opt, ('method', r.choice(['GET', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'post', '', 'POSTS', 'PATCH', 'TRACE']))
    if k < 5: return end, opt, ('cut', r.random(), r.choice([0, 3]), [c16.g_req(r) for _ in range(r.choice([1, 2]))])
    if k == 5: return end, opt, ('bytes', g_bytes(r, 40))
    if k == 6: return end, opt, ('flip', r.random(), r.randrange(256), r.choice([0, 3]), [c16.g_req(r)])
    if k == 7: return end, opt, ('length', r.choice(['', 'x', False, '-5', '0x', '1e3', ' ', u'\xe9', None]))
    if k == 8: return end, opt, ('unenc', r.choice(sorted(UNENC)), r.choice([0, 3]))
    if k == 9: return end, opt, (r.choice(['processing', 'decoding', 'encoding']), r.choice(sorted(CAUSES)))
    return end, opt, ('good', r.choice([0, 3]), [c16.g_req(r) for _ in range(r.choice([0, 1, 3]))])
O = lambda d=False, s=False, log=False, tz=None: {'debug': d, 'strict': s, 'log': log, 'tz': tz}
ECHO = ('echo', 0, ('int', 5))
CORNER = [(e, O(d), c) for e in ('wsgi', 'django') for d in (False, True) for c in
    [('method', 'GET'), ('bytes', ''), ('bytes', 'Bad request'), ('bytes', '\0\0\0\0\0\0'), ('bytes', '\0\0\0\0\0'), ('cut', 0.99, 3, [ECHO]), ('cut', 0.5, 0, [ECHO]), ('good', 0, []), ('good', 3, [ECHO, ECHO])]] + \
    [(e, O(d, log=l), (w, c)) for e in ('wsgi', 'django') for d in (False, True) for l in (False, True) for w in ('processing', 'decoding', 'encoding') for c in sorted(CAUSES)] + \
    [(e, O(d), ('unenc', c, v)) for e in ('wsgi', 'django') for d in (False, True) for c in sorted(UNENC) for v in (0, 3)] + \
    [('wsgi', O(d), ('length', v)) for d in (False, True) for v in ('', 'x', False, '-5', None)] + \
    [(e, O(d, True), ('trail', 3)) for e in ('wsgi', 'django') for d in (False, True)] + \
    [(e, O(d, log=True), ('bytes', b)) for e in ('wsgi', 'django') for d in (False, True) for b in ('\0\3\0\0\0\1\0\4null\0\2/1\0\0\0\0\x0a\0\0\0\1\x11\x0a\x09\1\x07\xff\xfe\xfd\0', '\0\3\0\0\0\1\0\4null\0\2/1\0\0\0\0\x11\x0a\x08\0',
     '\0\0\0\1\0\1a\2\2\0\1\0\0\0\0\2\0\1\xff\0\0', '\0\0\0\0\0\1\0\1a\0\1b\0\0\0\0\x0a\0\0\0\1\x10\0\3\xe2\x82\xac\0\0\x09', '\0\0\0\0\0\1\0\1a\0\1b\0\0\0\0\x0a\0\0\0\1\x0f\0\0\0\4<a b', '\0\0\0\0\0\1\0\1a\0\1b\0\0\0\0\x0a\0\0\0\1\x07\0\7')]

def envelope(version, qs, strict):
    e = remoting.Envelope(version)
    for i, q in enumerate(qs):
        t, b = c16.request(q); e[u'/%d' % (i + 1)] = remoting.Request(t, body=b)
    return remoting.encode(e, use_ext=False, strict=strict).getvalue()
def raiser(kind):
    def f(*a, **k): raise CAUSES[kind]()
    return f

@contract('C17', g_http, CORNER)
def endpoint(case):
    """any request is answered once, with the status for what happened, a right length, and details only when debugging; nothing is raised"""
    end, opt, what = case
    cls, ask = ENDS[end]
    log = Loud() if opt['log'] else None
    gw = cls({'svc': service('svc', 'class')}, debug=opt['debug'], strict=opt['strict'], expose_request=False, logger=log, timezone_offset=opt['tz'])
    del LOG[:]
    k = what[0]; good = None
    body = envelope(3, [ECHO], opt['strict'])
    if k == 'method':
        a = ask(gw, body, what[1])
        ensure(a.status == (400 if end == 'wsgi' else 405), 'status %s', a.status); ensure(LOG == [], 'service code ran')
        return details(a, opt['debug'], k)
    if k == 'length':
        a = ask_wsgi(gw, body, length=what[1]) if end == 'wsgi' else ask(gw, body)
        if what[1] in ('', False) and end == 'wsgi': ensure(a.status == 400, 'status %s', a.status)
        elif end == 'wsgi' and what[1] in ('x', '0x', '1e3', u'\xe9'): ensure(a.status == 500, 'status %s', a.status)
        elif what[1] is None: ensure(a.status == 200, 'status %s', a.status)
        return details(a, opt['debug'], k)
    if k == 'bytes':
        try: remoting.decode(what[1], strict=opt['strict'], timezone_offset=gw._get_timezone_offset()); good = 200
        except (pyamf.DecodeError, pyamf.EOStream, IOError): good = 400
        except Exception: good = 500
        a = ask(gw, what[1])
        if len(what[1]) < 6: good = 400
        ensure(a.status == good or good == 200 and a.status == 500, 'status %s, expected %s', a.status, good)
        return details(a, opt['debug'], k)
    if k == 'cut':
        b = envelope(what[2], what[3], opt['strict']); b = b[:int(len(b) * what[1])]
        a = ask(gw, b); ensure(a.status == 400, 'status %s for a message cut to %s', a.status, b); ensure(LOG == [], 'service code ran: %s', LOG)
        return details(a, opt['debug'], k)
    if k == 'trail':
        a = ask(gw, body + 'x'); ensure(a.status == 500, 'status %s', a.status); ensure(LOG == [], 'service code ran')
        return details(a, opt['debug'], k)
    if k == 'flip':
        b = envelope(what[3], what[4], opt['strict']); i = int(len(b) * what[1])
        a = ask(gw, b[:i] + chr(what[2]) + b[i + 1:]); ensure(a.status in (200, 400, 500), 'status %s', a.status)
        return details(a, opt['debug'], k)
    if k == 'unenc':
        gw.addService(lambda: UNENC[what[1]](), 'bad')
        e = remoting.Envelope(what[2]); e[u'/1'] = remoting.Request(u'bad', body=[])
        if what[1] == 'bigkey' and what[2] == 3: return
        a = ask(gw, remoting.encode(e, strict=opt['strict']).getvalue())
        ensure(a.status == 500, 'status %s for a result that cannot be encoded: %s', a.status, a.body)
        return details(a, opt['debug'], k)
    if k == 'processing':
        gw.getProcessor = raiser(what[1])
        a = ask(gw, body); ensure(a.status == 500, 'status %s', a.status)
        return details(a, opt['debug'], k)
    if k in ('decoding', 'encoding'):
        old = getattr(remoting, k[:-3] + 'e')
        setattr(remoting, k[:-3] + 'e', raiser(what[1]))
        try: a = ask(gw, body)
        finally: setattr(remoting, k[:-3] + 'e', old)
        ensure(a.status == (400 if k == 'decoding' and what[1] in ('decode', 'io', 'eos') else 500), 'status %s', a.status)
        return details(a, opt['debug'], k)
    a = ask(gw, envelope(what[1], what[2], opt['strict']))
    ensure(a.status == 200 and a.headers['content-type'] == 'application/x-amf', 'status %s, %s', a.status, a.headers)
    ensure('content-length' in a.headers and 'server' in a.headers, '%s', a.headers)
    out = remoting.decode(a.body, strict=opt['strict'])
    ensure(out.amfVersion == what[1] and [u(n) for n in out.keys()] == [u'/%d' % (i + 1) for i in range(len(what[2]))], 'answered %s', out.keys())
    if log is None: return
