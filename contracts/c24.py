"""Deductive part: readElement, finalise, next and send of the real decoders in arbitrary states.  Readers of the single types are
arbitrary code (contract: they keep the nesting depth, leave the stream at any position and end in a value or in any of the
errors), so the obligations hold for every type and any nesting: missing data is reported and never as a clean end, with the
position restored; any number of processors runs once per top-level value in order and never for a nested one.  Scalars are cut
at every byte, for any content, and read again after the rest was appended."""
from .coders import *
from .c06 import in_scope
from pyvc import loops as L

READER = {0: 'pyamf.amf0.Decoder.readNull', 3: 'pyamf.amf3.Decoder.readNull'}
MARK = {0: b'\x05', 3: b'\x01'}
for q in READER.values(): CALLEE[q] = 'stands for the reader of any type: arbitrary outcome'

class Processors(L.Inv):
    """after k processors: each ran once, in order, on the result of the one before"""
    def __init__(self, log): self.log = log
    def enter(self, f):
        self.ex = f.ex
        vs = [n for n, v in f.ex.heap.get(f.env.a).vars.items() if v is self.log.first]
        if len(vs) != 1: raise OutOfReach('the payload among the locals')
        self.v = vs[0]
    def havoc(self, f, k): self.log.k = tint(as_int(k)); f.store(self.v, self.log.after(k))
    def check(self, f, k):
        ex = self.ex
        ex.prove(as_int(self.log.k) == as_int(k), 'each-processor-once')
        ex.prove(as_bool(I.is_(ex, f.load(self.v), self.log.after(k))), 'result-of-the-one-before', repr(f.load(self.v)))
def as_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else as_int(c) == 1 if isinstance(c, (SymInt,)) else c.t if isinstance(c, SymBool) else c

class Log(object):
    """any number of registered processors; counts the calls"""
    def __init__(self, ex, d):
        self.ex = ex; self.k = 0; self.first = Opaque('value'); self.d = d
        self.n = ex.int('processors', lo=0).t
        ls = G(ex, 'pyamf.POST_DECODE_PROCESSORS')
        ex.heap.w(ls.a).items[:] = [L.Piece(self.n, self.item, 'processors', lambda: Processors(self))]
    def after(self, k):
        k = tint(as_int(k))
        if isinstance(k, int): return self.first if k == 0 else Opaque('processed', (z3.IntVal(k),))
        return self.first if self.ex.branch(as_int(k) == 0) else Opaque('processed', (as_int(k),))
    def item(self, ex, k): return Opaque('processor', (as_int(k),), {'call': self.run, 'truth': lambda *a: True})
    def run(self, ex, p, args, kw):
        ex.prove(as_int(p.idx[0]) == as_int(self.k), 'in-registration-order')
        ex.prove(as_bool(I.is_(ex, args[0], self.after(self.k))), 'on-the-previous-result', repr(args[0]))
        ex.prove(args[1] == attr(ex, attr(ex, self.d.d, 'context'), 'extra'), 'with-the-extra-of-the-context')
        self.k = tint(as_int(self.k) + 1)
        return self.after(self.k)

def decoder(ex, amf, data, **k):
    d = Dec(ex, amf, data, **k)
    return d

def outcome(ex, d, value, also=()):
    """a reader of any type: leaves the stream anywhere at or after where it was"""
    how = ex.choice(4 + len(also))
    def read(ex2, f, a, kw):
        b = ex2.heap.w(sio(ex2, d.st).a)
        to = ex2.int('moved to').t
        ex2.assume(z3.And(to >= as_int(b.pos), to <= as_int(R.length(ex2, d.c))))
        b.pos = tint(to); d.to = to
        if how == 0: return value
        if how == 1: ex2.raise_('IOError', b'not enough')
        if how == 2: raise_real(ex2, 'pyamf.EOStream')
        if how == 3: raise_real(ex2, 'pyamf.DecodeError')
        return also[how - 4](ex2)
    return how, read

def raise_real(ex, q): raise PyRaise(call(ex, q))

def is_instance(ex, e, q): return I.truth(ex, call(ex, ex.world.builtins['isinstance'], e, G(ex, q) if isinstance(q, str) else q))

def depth_at(ex, d, n=None):
    def put():
        I.getattr_(ex, d.d, '__depth')
        if n is not None: I.setattr_(ex, d.d, '__depth', n)
        return I.getattr_(ex, d.d, '__depth')
    return reach('nesting depth', put)

def step(amf, nested, via='readElement'):
    def f(ex):
        d = decoder(ex, amf, MARK[amf])
        log = Log(ex, d)
        n = 0
        if nested: n = ex.int('depth', lo=1); depth_at(ex, d, n)
        how, reader = outcome(ex, d, log.first)
        ex.ghost['scoped'] = {READER[amf]: reader}
        r = result(ex, lambda: meth(ex, d.d, via))
        if how == 0:
            expect(ex, r, 'ok', 'value'); ex.cover('value')
            done = 0 if nested else log.n
            ex.prove(as_int(log.k) == as_int(done), 'processors-run' if not nested else 'processors-not-run-for-nested-values')
            ex.prove(as_bool(I.is_(ex, r[1], log.after(done))), 'result-of-the-last', repr(r[1]))
            ex.prove(as_int(meth(ex, d.st, 'tell')) == d.to, 'position-left-by-the-reader')
        else:
            ex.cover(('', 'missing', 'inner end', 'invalid')[how])
            ex.prove(r[0] == 'exc', 'no-value')
            ex.prove(as_int(log.k) == 0, 'no-processor')
            if how == 3: ex.prove(is_instance(ex, r[2], 'pyamf.DecodeError'), 'error-passed-on')
            else:
                ex.prove(is_instance(ex, r[2], ex.world.builtins['IOError']), 'missing-data-reported', r[1])
                ex.prove(not is_instance(ex, r[2], 'pyamf.EOStream'), 'not-a-clean-end')
                ex.prove(as_int(meth(ex, d.st, 'tell')) == as_int(d.p), 'position-restored')
        same_bytes(ex, buf(ex, d.st), d.c, 'content-kept')
        ex.prove(as_int(depth_at(ex, d)) == as_int(n), 'depth-restored')
    f.__doc__ = 'AMF%d %s, %s, any reader of any type and any processors' % (amf, via, 'at any nesting depth' if nested else 'top level')
    return f

def two_values(amf):
    """a top-level value whose reader reads two nested values, the first of them failing or not: processors run once, for the outer value"""
    def f(ex):
        d = decoder(ex, amf, MARK[amf] * 3)
        log = Log(ex, d)
        inner = [Opaque('inner', (z3.IntVal(i),)) for i in (0, 1)]
        state = {'at': 0}
        fails = ex.choice(3)        # 0: neither, 1: the first, 2: the second of the nested values
        def reader(ex2, ff, a, kw):
            i = state['at']; state['at'] += 1
            if i == 0:
                for j in (0, 1):
                    v = meth(ex2, d.d, 'readElement')
                    ex2.prove(as_bool(I.is_(ex2, v, inner[j])), 'nested-value-as-read', repr(v))
                    ex2.prove(as_int(log.k) == 0, 'processors-not-run-for-nested-values')
                return log.first
            if fails == i: ex2.raise_('IOError', b'not enough')
            return inner[i - 1]
        ex.ghost['scoped'] = {READER[amf]: reader}
        r = result(ex, lambda: meth(ex, d.d, 'readElement'))
        if fails:
            ex.prove(r[0] == 'exc' and is_instance(ex, r[2], ex.world.builtins['IOError']), 'missing-data-reported')
            ex.prove(as_int(meth(ex, d.st, 'tell')) == as_int(d.p), 'position-restored'); ex.prove(as_int(log.k) == 0, 'no-processor')
            ex.cover('fails')
            state['at'] = 0; fails2 = 0
            def again(ex2, ff, a, kw):
                i = state['at']; state['at'] += 1
                if i == 0:
                    for j in (0, 1): meth(ex2, d.d, 'readElement')
                    return log.first
                return inner[i - 1]
            ex.ghost['scoped'] = {READER[amf]: again}
            r = result(ex, lambda: meth(ex, d.d, 'readElement'))
        expect(ex, r, 'ok', 'value'); ex.cover('value')
        ex.prove(as_int(log.k) == log.n, 'processors-run'); ex.prove(as_bool(I.is_(ex, r[1], log.after(log.n))), 'result-of-the-last')
        d.consumed('value')
    f.__doc__ = 'AMF%d: a value with two nested ones, either of which may lack data: processors run once in all, for the outer value, also on decoding again' % amf
    return f

def clean_end(amf):
    def f(ex):
        d = decoder(ex, amf, b'', rest=b'')
        log = Log(ex, d)
        r = result(ex, lambda: meth(ex, d.d, 'readElement'))
        ex.prove(r[0] == 'exc' and is_instance(ex, r[2], 'pyamf.EOStream'), 'clean-end')
        r = result(ex, lambda: meth(ex, d.d, 'next'))
        expect(ex, r, 'StopIteration', 'iteration-stops')
        ex.prove(as_int(log.k) == 0, 'no-processor')
        ex.prove(as_int(depth_at(ex, d)) == 0, 'depth-restored')
        it = meth(ex, d.d, '__iter__')
        ex.prove(it == d.d, 'iterates-itself')
        d.untouched('end')
    f.__doc__ = 'AMF%d: at the end of any content readElement reports the end, next stops, nothing changes' % amf
    return f

def send(amf):
    def f(ex):
        d = decoder(ex, amf, R.sym_str(ex, 'partial'))
        more = R.sym_str(ex, 'more')
        meth(ex, d.d, 'send', more)
        d.b.check(R.concat(ex, d.c, more), d.p, 'send')
    f.__doc__ = 'AMF%d: data sent is appended to any content, position kept' % amf
    return f

def chars(ex, n, name='byte'):
    out = []
    for i in range(n):
        t = ex.int(name, 0, 255).t; out.append(R.Ch(t))
    return out

SCALARS = {0: {'number': lambda ex: [R.Lit(b'\x00')] + chars(ex, 8), 'bool': lambda ex: [R.Lit(b'\x01')] + chars(ex, 1), 'date': lambda ex: [R.Lit(b'\x0b')] + chars(ex, 10),
               'string': lambda ex: text(ex, b'\x02', 2), 'long string': lambda ex: text(ex, b'\x0c', 4)},
           3: {'integer': lambda ex: [R.Lit(b'\x04')] + num29(ex), 'double': lambda ex: [R.Lit(b'\x05')] + chars(ex, 8), 'string': lambda ex: [R.Lit(b'\x06')] + str3(ex)}}

def text(ex, mark, n):
    s = R.sym_str(ex, 'text', 'u'); u = utf8_of(ex, s)
    if n == 2: ex.assume(as_int(R.length(ex, u)) < 65536)
    else: ex.assume(as_int(R.length(ex, u)) < 2**32)
    return [R.Lit(mark)] + (u16 if n == 2 else u32)(R.length(ex, u)) + R.parts_of(u)
def num29(ex):
    k = ex.choice(4)
    out = []
    for i in range(k): out.append(R.Ch(ex.int('more', 128, 255).t))
    return out + [R.Ch(ex.int('last', 0, 127 if k < 3 else 255).t)]
def str3(ex):
    s = R.sym_str(ex, 'text', 'u'); u = utf8_of(ex, s); n = as_int(R.length(ex, u))
    ex.assume(z3.And(n >= 1, n < 8192))
    t = 2 * n + 1
    if ex.branch(t < 128): return [R.Ch(t)] + R.parts_of(u)
    return [R.Ch(128 + t / 128), R.Ch(t % 128)] + R.parts_of(u)

def restart(amf, name):
    def f(ex):
        ps = SCALARS[amf][name](ex)
        whole = R.mk('b', ps)
        at = ex.int('cut', lo=1).t
        ex.assume(at < as_int(R.length(ex, whole)))
        first, rest = R.slice_(ex, whole, 0, tint(at)), R.slice_(ex, whole, tint(at), R.length(ex, whole))
        d = decoder(ex, amf, first, rest=b'')
        r = d.read()
        ex.prove(r[0] == 'exc' and is_instance(ex, r[2], ex.world.builtins['IOError']) and not is_instance(ex, r[2], 'pyamf.EOStream'), 'missing-data-reported', repr(r[:2]))
        ex.prove(as_int(meth(ex, d.st, 'tell')) == as_int(d.p), 'position-restored')
        same_bytes(ex, buf(ex, d.st), d.c, 'content-kept')
        ex.prove(as_int(tab(ex, d.objs).n) == d.n, 'no-table-entry')
        if amf == 3: ex.prove(as_int(tab(ex, d.strs).n) == d.ns, 'no-table-entry')
        meth(ex, d.d, 'send', rest)
        r = d.read()
        w = Dec(ex, amf, whole)
        want = w.read()
        if name != 'date': ex.prove(r[0] == want[0], 'same-outcome', '%r / %r' % (r[:2], want[:2]))       # (of a date, whether these milliseconds have one: C20)
        elif want[0] != 'ok' and r[0] == 'ok': return
        if r[0] == 'ok':
            ex.cover('again')
            if name != 'date': same_value(ex, r[1], want[1], 'same-value')
            ex.prove(as_int(meth(ex, d.st, 'tell')) == as_int(d.p) + as_int(R.length(ex, whole)), 'consumes')
            if amf == 3: ex.prove(as_int(tab(ex, d.strs).n) == d.ns + as_int(tab(ex, w.strs).n) - w.ns, 'same-table-growth')
    f.__doc__ = 'AMF%d %s cut at any byte: missing data reported, position and tables as before; once the rest is appended, what decoding the whole gives' % (amf, name)
    return f

def lemmas(world, tier):
    CON = dict(TABLES); CON.update((q, in_scope(q)) for q in READER.values())
    L_ = lambda n, f, **k: Lemma('C24.' + n, f, contracts=k.pop('contracts', CON), **k)
    out = []
    for amf in (0, 3):
        out += [L_('top_amf%d' % amf, step(amf, False), cover=('value', 'missing', 'inner end', 'invalid')), L_('nested_amf%d' % amf, step(amf, True), cover=('value', 'missing', 'inner end', 'invalid')),
                L_('next_amf%d' % amf, step(amf, False, 'next'), cover=('value', 'missing', 'inner end', 'invalid')), L_('inner_amf%d' % amf, two_values(amf), cover=('value', 'fails')),
                L_('clean_end_amf%d' % amf, clean_end(amf)), L_('send_amf%d' % amf, send(amf))]
        out += [L_('restart_amf%d_%s' % (amf, n.replace(' ', '_')), restart(amf, n), cover=('again',)) for n in SCALARS[amf]]
    return out
