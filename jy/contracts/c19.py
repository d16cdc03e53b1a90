from contracts.graphs import *
from pyamf import sol
import tempfile, os, shutil
from cStringIO import StringIO

def g_key19(r, enc):
    k = g_name(r, enc)
    return unicode(k) if isinstance(k, (int, long, float)) else k
def g_sol(r):
    enc = r.choice([0, 3])
    seen = set(); kv = []
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        k = g_key19(r, enc)
        if bkey(k) in seen: continue
        seen.add(bkey(k)); kv.append((k, g_val(r, enc, r.choice([0, 1, 2]))))
    if r.randrange(8) == 0: kv.append(('', ('int', 5)))
    return g_uni(r), enc, kv
EDGE = [(u'', e, []) for e in (0, 3)] + [(u'x' * n, e, [(u'a', ('null',)), (u'b' * 128, ('int', -1)), (u'', ('uni', u'\u20ac'))]) for e in (0, 3) for n in (1, 127, 128, 300)] + \
    [(u'\xe9\u20ac', e, [(u'\xe9', ('list', [('int', i) for i in range(n)])), (u'd', ('dict', [(u'a', ('uni', u'a')), (u'b', ('uni', u'a'))])), (u'a', ('date', (2000, 1, 1, 0, 0, 0, 0)))]) for e in (0, 3) for n in (0, 1, 5)]

def put(case):
    name, enc, kv = case
    nodes = []
    return dict((k, build(v, nodes)) for k, v in kv)
def compare(vals, got, enc, name, n2):
    ensure(n2 == name and isinstance(n2, unicode), 'name %s became %s', name, n2)
    a = dict((bkey(k), v) for k, v in vals.items()); b = dict((bkey(k), v) for k, v in got.items())
    ensure(samekeys(dict((k, 1) for k in a), dict((k, 1) for k in b)), 'keys %s, expected %s', list(got), list(vals))
    c = ctx(enc)
    for k in sorted(a):
        d = same(a[k], b[k], c); ensure(d is None, '%s: %s', k, d)

@contract('C19', g_sol, EDGE, weight=3)
def roundtrip_sol(case):
    """name, keys and values survive, and the header has the exact layout and length"""
    name, enc, kv = case; vals = put(case)
    st = sol.encode(name, vals, encoding=enc); b = st.getvalue(); nb = name.encode('utf-8')
    ensure(st.tell() == 0, 'position %s', st.tell())
    ensure(b[:2] == '\x00\xbf' and b[2:6] == struct.pack('!L', len(b) - 6), 'header %s of %s bytes', b[:6], len(b))
    ensure(b[6:16] == 'TCSO\0\4\0\0\0\0' and b[16:18 + len(nb)] == struct.pack('!H', len(nb)) + nb, 'header %s', b[6:40])
    ensure(b[18 + len(nb):22 + len(nb)] == '\0\0\0' + chr(enc), 'padding and version %s', b[18 + len(nb):22 + len(nb)])
    for src in (st, b):
        n2, got = sol.decode(src)
        compare(vals, got, enc, name, n2)
    b2 = sol.encode(name, vals, encoding=enc, strict=False).getvalue()
    ensure(b2 == b[:2] + '\0\0\0\0' + b[6:], 'non-strict form %s', b2[:30])
    compare(vals, sol.decode(b2, strict=False)[1], enc, name, sol.decode(b2, strict=False)[0])

@contract('C19', lambda r: (g_sol(r), r.randrange(4)), [(e, k) for e in EDGE[:4] for k in range(4)])
def files(case):
    """a file saved is the encoded object and loads to the same object; a file object given is left open"""
    case, how = case
    name, enc, kv = case; vals = put(case)
    s = sol.SOL(name); s.update(vals)
    d = tempfile.mkdtemp(prefix='verif-sol-')
    try:
        p = os.path.join(d, 'x.sol')
        if how == 0: s.save(p, encoding=enc)
        elif how == 1: sol.save(s, p, encoding=enc)
        elif how == 2:
            f = open(p, 'wb'); sol.save(s, f, encoding=enc); ensure(not f.closed, 'the file was closed'); f.close()
        else:
            f = open(p, 'wb'); f.write('x' * 5000); f.close()
            s.save(p, enc)
        ensure(len(open(p, 'rb').read()) == len(sol.encode(name, vals, encoding=enc).getvalue()), 'file size')
        if how % 2: got = sol.load(p)
        else:
            f = open(p, 'rb'); got = sol.load(f); ensure(not f.closed, 'the file was closed'); f.close()
        ensure(type(got) is sol.SOL, '%s', got)
        compare(vals, got, enc, name, got.name)
    finally: shutil.rmtree(d, ignore_errors=True)

@contract('C19', lambda r: (g_sol(r), r.random()), [(e, f) for e in EDGE for f in (0.0, 0.02, 0.04, 0.1, 0.3, 0.5, 0.9, 0.999)])
def cut(case):
    """an object cut off anywhere is refused"""
    (name, enc, kv), f = case
    b = sol.encode(name, put((name, enc, kv)), encoding=enc).getvalue()
    for n in set([int(len(b) * f), len(b) - 1, min(len(b) - 1, int(25 * f))]):
        x = outcome(sol.decode, b[:n])
        ensure(x[0] == 'exc', 'cut to %s of %s bytes: %s', n, len(b), x)
        if n >= 6: ensure(isinstance(x[1], pyamf.DecodeError), 'cut to %s of %s bytes: %s', n, len(b), x)

@contract('C19', lambda r: (g_sol(r), r.randrange(64), r.randrange(1, 256)), [(e, i, x) for e in EDGE[:3] for i in range(24) for x in (1, 255)])
def damaged(case):
    """a wrong magic number, length, signature or padding is a decoding error"""
    (name, enc, kv), i, x = case
    b = sol.encode(name, put((name, enc, kv)), encoding=enc).getvalue(); nb = len(name.encode('utf-8'))
    places = range(16) + range(18 + nb, 21 + nb)
    i = places[i % len(places)]
    c = b[:i] + chr(ord(b[i]) ^ x) + b[i + 1:]
    e = raises(pyamf.DecodeError, sol.decode, c)
    if i < 2 or i > 5: raises(pyamf.DecodeError, sol.decode, c, False)
    raises(pyamf.DecodeError, sol.decode, b + '\0')
    if kv: raises(pyamf.DecodeError, sol.decode, b[:-1] + chr(x))

@contract('C19', None, [0])
def refused(_):
    """what is no file is refused, and so is an unknown version"""
    raises(ValueError, sol.load, 5); raises(ValueError, sol.save, sol.SOL(u'x'), 5)
    b = sol.encode(u'x', {u'a': 1}).getvalue()
    raises(ValueError, sol.decode, b[:22] + '\7' + b[23:])
    raises(Exception, sol.encode, u'x' * 65536, {})
    ensure(sol.LSO is sol.SOL and sol.SOL(u'n').name == u'n', 'SOL')
