from contracts.graphs import *
from pyamf import remoting, sol

def positions(values, enc):
    """bytes of all values, and where each starts"""
    st = BufferedByteStream(); e = encoder(enc, stream=st)
    if enc == 0: e.use_amf3 = False
    at = []
    for v in values: at.append(st.tell()); e.writeElement(v)
    at.append(st.tell())
    return st.getvalue(), at

def g_stream(r):
    scalar = r.randrange(2)
    enc = r.choice([0, 3])
    return enc, scalar, [g_scalar(r, enc) if scalar and r.randrange(6) else ('date', (2001, 2, 3, 4, 5, 6, 0)) if scalar else g_val(r, enc, 2) for _ in range(r.choice([1, 1, 2, 3, 4]))], [r.random() for _ in range(4)]
SC = [('null',), ('undef',), ('bool', True), ('int', 5), ('int', 300), ('int', 2**21 + 5), ('int', -1), ('int', 2**40), ('float', pk(1.5)), ('uni', u''), ('uni', u'abc'), ('uni', u'\xe9\u20ac'), ('big', 300, 'x'), ('date', (2001, 2, 3, 4, 5, 6, 0))]
CT = [('list', [('int', 1), ('list', [('uni', u'a')])]), ('dict', [('a', ('int', 1)), ('b', ('list', []))]), ('mixed', [(0, ('int', 1)), ('a', ('uni', u'x'))]), ('obj', 'Plain', [('a', ('int', 1))]), ('obj', 'Static', [('sa', ('int', 1)), ('sb', ('uni', u'x'))]),
      ('xml', XMLS[2]), ('ba', 'abc', 0), ('list', [('null',), ('undef',)]), ('obj', 'Ext', [('a', ('int', 1)), ('b', ('list', [('int', 300)]))]), ('a3', [('a', ('int', 300))])]
CORNER = [(e, 1, [x], []) for e in (0, 3) for x in SC] + [(e, 0, [x], []) for e in (0, 3) for x in CT if not (x[0] == 'a3' and e == 3 or e == 0 and x[0] in ('ba',) or e == 0 and x[:2] == ('obj', 'Ext'))] + [
    (e, 1, [x, y], []) for e in (0, 3) for x in SC[3:12:3] for y in SC[2:12:4]] + [(e, 0, [('int', 7), x, ('int', 8)], []) for e in (0, 3) for x in CT[:4]]

def vals_of(case):
    enc, scalar, ds, cuts = case
    nodes = []
    return [build(d, nodes) for d in ds]

def refuse(f, start, dec, what):
    """missing data is reported, and the position is the start of the value"""
    try: v = f()
    except pyamf.EOStream: raise Broken('a clean end was reported %s' % what)
    except StopIteration: raise Broken('a clean end was reported %s' % what)
    except IOError: pass
    else: raise Broken('%s delivered %s' % (what, short(v)))
    ensure(dec.stream.tell() == start, 'after a value cut %s the position is %s, not %s', what, dec.stream.tell(), start)

@contract('C24', g_stream, CORNER, weight=3)
def cut(case):
    """data that ends inside a value is reported as missing data with the position at the value's start; nothing is delivered"""
    enc, scalar, ds, cuts = case
    vs = vals_of(case)
    try: b, at = positions(vs, enc)
    except pyamf.EncodeError: return
    n = len(b)
    ks = range(n + 1) if n < 60 or not cuts else sorted(set(at + [a + 1 for a in at[:-1]] + [int(c * n) for c in cuts] + [n - 1]))
    for k in ks:
        whole = max(i for i in range(len(at)) if at[i] <= k)
        for step in (0, 1):
            dec = decoder(enc, b[:k])
            f = dec.next if step else dec.readElement
            for i in range(whole): f()
            if k == at[whole]:
                if step: raises(StopIteration, f); ensure(list(dec) == [], 'more at the end')
                else: raises(pyamf.EOStream, f)
                ensure(dec.stream.tell() == k, 'the position moved at the end')
            else:
                refuse(f, at[whole], dec, 'at byte %d of %s' % (k, short(b)))
                refuse(f, at[whole], dec, 'at byte %d of %s again' % (k, short(b)))
                if scalar:
                    dec.send(b[k:])
                    c = ctx(enc)
                    for i in range(whole, len(vs)):
                        x = same(vs[i], f(), c); ensure(x is None, 'after the rest came: %s', x)
                    ensure(dec.stream.at_eof(), 'bytes left')

@contract('C24', lambda r: (r.choice([0, 3]), [g_scalar(r, 3) for _ in range(r.randrange(1, 6))], [r.choice([1, 1, 2, 3, 5, 20]) for _ in range(30)]), [(e, SC[:13], [n]) for e in (0, 3) for n in (1, 2, 3, 7)])
def fed(case):
    """scalar values fed to a decoder in pieces are all delivered, in order, each once"""
    enc, ds, sizes = case
    vs = [build(d, []) for d in ds]
    b, at = positions(vs, enc)
    dec = decoder(enc); got = []; k = 0; n = 0
    while k < len(b):
        dec.send(b[k:k + sizes[n % len(sizes)]]); k += sizes[n % len(sizes)]; n += 1
        while 1:
            try: got.append(dec.next())
            except StopIteration: break
            except IOError: break
    ensure(len(got) == len(vs), '%s values became %s', len(vs), len(got))
    c = ctx(enc)
    for v, g in zip(vs, got):
        x = same(v, g, c); ensure(x is None, '%s', x)

# ---------------------------------------------------------------- post processors
class Procs(object):
    def __init__(self, n):
        self.calls = []; self.n = n
    def one(self, i):
        def f(payload, extra):
            self.calls.append((i, payload, extra))
            return ('p%d' % i, payload)
        return f
    def __enter__(self):
        self.old = pyamf.POST_DECODE_PROCESSORS[:]
        del pyamf.POST_DECODE_PROCESSORS[:]
        for i in range(self.n): pyamf.add_post_decode_processor(self.one(i))
        return self
    def __exit__(self, *a):
        pyamf.POST_DECODE_PROCESSORS[:] = self.old
    def undo(self, v):
        """the value before the processors, whose order is checked"""
        for i in reversed(range(self.n)):
            ensure(type(v) is tuple and len(v) == 2 and v[0] == 'p%d' % i, 'processor %s did not make the value %s', i, v)
            v = v[1]
        return v

def g_proc(r):
    e = r.choice([0, 3, 'mix'])
    return e, r.randrange(4), [g_val(r, 3 if e == 'mix' else e, 2) for _ in range(r.choice([1, 1, 2, 3]))]
PC = [(e, n, [x, ('int', 1), x]) for e in (0, 3, 'mix') for n in (0, 1, 2) for x in CT[:8] + SC[:5] if not (e == 0 and x[0] == 'ba')] + [(3, 2, [CT[8]]), (0, 2, [CT[9]]), (0, 2, [('list', [CT[9], CT[9], ('ref', 0)])])]

@contract('C24', g_proc, PC, weight=2)
def processors(case):
    """each processor is applied to each top-level value once, in order, on the previous one's result; never to a nested value"""
    enc, n, ds = case
    nodes = []
    vs = [build(d, nodes) for d in ds]
    e0 = 3 if enc == 3 else 0
    st = BufferedByteStream(); en = encoder(e0, stream=st)
    if enc == 'mix': en.use_amf3 = True
    at = []
    try:
        for v in vs: en.writeElement(v); at.append(st.tell())
    except pyamf.EncodeError: return
    b = st.getvalue()
    plain = [d for d in decoder(e0, b)]
    with Procs(n) as p:
        dec = decoder(e0, b)
        c = ctx(3 if enc else 0)
        for i, v in enumerate(vs):
            del p.calls[:]
            got = dec.readElement()
            x = same(v, p.undo(got), c) if enc != 'mix' else None
            ensure(x is None, '%s', x)
            ensure(type(p.undo(got)) is type(plain[i]), '%s', got)
            ensure([k[0] for k in p.calls] == range(n), 'the processors ran %s for one value', [k[0] for k in p.calls])
            for k in p.calls: ensure(isinstance(k[2], dict) and k[2] is dec.context.extra, 'the extra information is %s', k[2])
        del p.calls[:]
        raises(pyamf.EOStream, dec.readElement)
        ensure(not p.calls, 'processors ran at the end')
        # a value that is cut runs none, and runs them once when it is complete
        if at[0] > 1:
            dec = decoder(e0, b[:at[0] - 1])
            raises(IOError, dec.readElement)
            ensure(not p.calls, 'processors ran for a value that was cut')
            if ds[0][0] in ('null', 'undef', 'bool', 'int', 'float', 'uni', 'str', 'date'):
                dec.send(b[at[0] - 1:])
                p.undo(dec.readElement()); ensure([k[0] for k in p.calls] == range(n), 'the processors ran %s', p.calls)

@contract('C24', lambda r: (r.choice([0, 3]), r.randrange(1, 3), r.choice([1, 2, 3]), r.randrange(4)), [(v, n, m, a) for v in (0, 3) for n in (1, 2) for m in (1, 3) for a in (0, 1, 3)])
def in_messages(case):
    """in a remoting message the arguments are the top-level values; in a shared object its values are"""
    v, n, m, a = case
    e = remoting.Envelope(v)
    args = [[1, [2]], {u'a': {u'b': 1}}, u'x'][:a]
    for i in range(m): e['/%d' % i] = remoting.Request(u's.m', body=args)
    b = remoting.encode(e, use_ext=False).getvalue()
    s = sol.SOL('n'); s['k'] = [1, [2]]; s['l'] = u'x'
    sb = sol.encode("n", s).getvalue()
    with Procs(n) as p:
        out = remoting.decode(b)
        for i in range(m): ensure([p.undo(x) for x in out['/%d' % i].body] == args, '%s', out)
        ensure(len(p.calls) == n * m * a, '%s calls for %s values', len(p.calls), m * a)
        del p.calls[:]
        nm, o = sol.decode(sb)
        ensure(len(p.calls) == 2 * n and p.undo(o['k']) == [1, [2]] and p.undo(o['l']) == u'x', '%s', p.calls)

@contract('C24', None, [None, 5, u'x', [], {}, u'pyamf'])
def not_callable(x):
    """only callables are accepted as processors"""
    old = list(pyamf.POST_DECODE_PROCESSORS)
    raises(TypeError, pyamf.add_post_decode_processor, x)
    ensure(list(pyamf.POST_DECODE_PROCESSORS) == old, 'the processors changed')

class Fails(Exception): pass
@contract('C24', None, [(e, n) for e in (0, 3) for n in (0, 1, 2)])
def failing(case):
    """an error of a processor reaches the caller, and the next value is processed as ever"""
    e, n = case
    with Procs(3) as p:
        old = pyamf.POST_DECODE_PROCESSORS[n]
        def bad(payload, extra): raise Fails()
        pyamf.POST_DECODE_PROCESSORS[n] = bad
        dec = decoder(e, encode([1], u'x', encoding=e).getvalue())
        raises(Fails, dec.readElement)
        ensure([k[0] for k in p.calls] == range(n), '%s', p.calls)
        pyamf.POST_DECODE_PROCESSORS[n] = old; del p.calls[:]
        ensure(p.undo(dec.readElement()) == u'x' and len(p.calls) == 3, '%s', p.calls)
