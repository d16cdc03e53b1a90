"""Deductive part: the writer chosen for every kind of value, on an encoder that has written any other before; the reader of each of
the 256 markers; any registered converters in any number; and the library's own."""
from .gw import *
from .coders import same_value, Enc, Dec, MODULAR
E_ = lambda n: 'pyamf.amf%d.Encoder.' % n
NAMES = ('writeNull', 'writeBytes', 'writeString', 'writeBoolean', 'writeNumber', 'writeInteger', 'writeList', 'writeSequence', 'writeUndefined', 'writeDate', 'writeXML', 'writeObject', 'writeGenerator',
         'writeDict', 'writeMixedArray', 'writeByteArray', 'writeAMF3')
V = 'vtypes.'

def inst(ex, cls, *a): return call(ex, V + cls, *a)
def text_sub(ex, cls, s): return call(ex, V + cls, s)
def date(kind):
    def m(ex):
        from pyvc import dates as D
        u = ex.int('moment', D.MIN_US, D.MAX_US)
        if kind == 'date': ex.assume(u.t % D.DAY == 0)
        return D.mk(ex, kind, u.t)
    return m
# kind of value -> (a value of the kind, the writer of AMF0, of AMF3); no writer: it cannot be encoded
KINDS = [
    ('null', lambda ex: None, 'writeNull', 'writeNull'),
    ('boolean', lambda ex: SymBool(ex.bool('b').t), 'writeBoolean', 'writeBoolean'),
    ('true', lambda ex: True, 'writeBoolean', 'writeBoolean'), ('false', lambda ex: False, 'writeBoolean', 'writeBoolean'),
    ('integer', lambda ex: ex.int('i'), 'writeNumber', 'writeInteger'), ('one', lambda ex: 1, 'writeNumber', 'writeInteger'), ('big', lambda ex: 2**70, 'writeNumber', 'writeInteger'),
    ('number', lambda ex: SymFloat(z3.Real(ex.fresh('f'))), 'writeNumber', 'writeNumber'), ('one point zero', lambda ex: 1.0, 'writeNumber', 'writeNumber'), ('nan', lambda ex: float('nan'), 'writeNumber', 'writeNumber'),
    ('bytes', lambda ex: R.sym_str(ex, 's'), 'writeBytes', 'writeBytes'), ('text', lambda ex: R.sym_str(ex, 's', 'u'), 'writeString', 'writeString'),
    ('kind of bytes', lambda ex: inst(ex, 'Text', b'ab'), 'writeBytes', 'writeBytes'), ('kind of text', lambda ex: inst(ex, 'Unicode', 'ab'), 'writeString', 'writeString'),
    ('list', lambda ex: ex.heap.new(HList([L.Piece(ex.int('n', lo=0).t, lambda ex2, k: Opaque('item', (as_int(k),)), 'items')])), 'writeList', 'writeList'), ('tuple', lambda ex: (1, 2), 'writeList', 'writeList'), ('empty', lambda ex: (), 'writeList', 'writeList'),
    ('kind of list', lambda ex: inst(ex, 'List'), 'writeSequence', 'writeSequence'), ('kind of tuple', lambda ex: inst(ex, 'Tuple'), 'writeSequence', 'writeSequence'),
    ('dictionary', lambda ex: ex.heap.new(HDict()), 'writeObject', 'writeObject'), ('kind of dictionary', lambda ex: inst(ex, 'Dict'), 'writeObject', 'writeObject'),
    ('object', lambda ex: inst(ex, 'Thing'), 'writeObject', 'writeObject'), ('old object', lambda ex: inst(ex, 'Old'), 'writeObject', 'writeObject'), ('error', lambda ex: inst(ex, 'Error'), 'writeObject', 'writeObject'),
    ('ASObject', lambda ex: call(ex, 'pyamf.ASObject'), 'writeObject', 'writeObject'),
    ('undefined', lambda ex: G(ex, 'pyamf.Undefined'), 'writeUndefined', 'writeUndefined'),
    ('date and time', date('datetime'), 'writeDate', 'writeDate'), ('date', date('date'), 'writeDate', 'writeDate'),
    ('mixed array', lambda ex: call(ex, 'pyamf.MixedArray'), 'writeMixedArray', 'writeDict'),
    ('byte array', lambda ex: call(ex, 'pyamf.amf3.ByteArray'), 'writeObject', 'writeByteArray'),
    ('function', lambda ex: G(ex, V + 'function'), None, None), ('lambda', lambda ex: G(ex, V + 'anonymous'), None, None), ('builtin', lambda ex: ex.world.builtins['len'], None, None),
    ('method', lambda ex: attr(ex, inst(ex, 'Thing'), 'method'), None, None), ('class', lambda ex: G(ex, V + 'Thing'), None, None), ('old class', lambda ex: G(ex, V + 'Old'), None, None),
    ('builtin class', lambda ex: ex.world.T['int'], None, None), ('error class', lambda ex: G(ex, V + 'Error'), None, None), ('module', lambda ex: G(ex, 'pyamf.util'), None, None),
]
BY = {k[0]: k for k in KINDS}

def recording(ex, amf):
    """which writer gets which value"""
    log = []
    def w(name):
        def h(ex2, f, a, k): log.append((name, a[1])); return None
        return h
    scope(ex, **{E_(n) + x: w(x) for n in (0, 3) for x in NAMES}); scope(ex, **{'pyamf.codec.Encoder.' + x: w(x) for x in NAMES})
    return log
def types_known(ex, d=None):
    """no converters but the ones of the harness"""
    m = G(ex, 'pyamf.TYPE_MAP'); r = ex.heap.w(m.a); r.ent = {}; r.sym = []; r.base = d
def is_writer(ex, log, want, v, name):
    if want is None: return ex.prove(log == [], name, repr(log))
    ex.prove(len(log) == 1 and log[0][0] == want, name, '%s, not %s' % ([x[0] for x in log], want))
    ex.prove(log[0][1] is v or as_bool(I.is_(ex, log[0][1], v)), 'the-value-itself', repr(log))

class Plain(object):
    """an encoder that remembers nothing yet"""
    def __init__(self, ex, amf):
        self.ex = ex; self.pre = R.sym_str(ex, 'sent'); self.b = BS(ex, self.pre, R.length(ex, self.pre)); self.st = self.b.st
        self.e = call(ex, 'pyamf.amf%d.Encoder' % amf, self.st)
    def write(self, v): return result(self.ex, lambda: meth(self.ex, self.e, 'writeElement', v))
    def untouched(self, name): same_bytes(self.ex, buf(self.ex, self.st), self.pre, name); self.ex.prove(as_int(meth(self.ex, self.st, 'tell')) == as_int(R.length(self.ex, self.pre)), name)

def chosen(amf):
  def run(ex):
    """each kind of value gets its own writer, also after a value of any other kind and after one of its own; what cannot be encoded is refused and nothing written"""
    log = recording(ex, amf); types_known(ex)
    e = Plain(ex, amf)
    a = KINDS[ex.choice(len(KINDS))]; b = KINDS[ex.choice(len(KINDS))]
    for name, mk, w0, w3 in (a, b):
        v = mk(ex); del log[:]; w = w0 if amf == 0 else w3
        r = e.write(v)
        if w is None: expect(ex, r, 'EncodeError', name.replace(' ', '-') + '-refused'); e.untouched('nothing-written')
        else: expect(ex, r, 'ok', name.replace(' ', '-'))
        is_writer(ex, log, w, v, name.replace(' ', '-') + '-writer')
  return run

def switched(ex):
    """an AMF0 encoder that is to use AMF3 gives it every value"""
    log = recording(ex, 0); types_known(ex)
    e = Plain(ex, 0); I.setattr_(ex, e.e, 'use_amf3', True)
    for i in range(2):
        name, mk, w0, w3 = KINDS[ex.choice(len(KINDS))]
        v = mk(ex); del log[:]
        r = e.write(v); expect(ex, r, 'ok', 'written'); is_writer(ex, log, 'writeAMF3', v, 'all-by-AMF3')

# ---- converters
class Match(L.Inv):
    """none of the converters before k is for this value"""
    def __init__(self, own): self.own = own
    def enter(self, f): self.ex = f.ex
    def havoc(self, f, k):
        o = self.own; k = as_int(k)
        self.ex.assume(k <= o.j); self.ex.assume(z3.Implies(k < o.j, z3.Not(o.match(k)))); self.ex.assume(z3.Implies(o.j < o.n, o.match(o.j)))
    def check(self, f, k): self.ex.prove(as_int(k) <= self.own.j, 'stops-at-the-first')

class Converters(object):
    """any number of registered types and predicates, the j-th being the first that is for the value at hand (j = n: none)"""
    def __init__(self, ex):
        self.ex = ex; self.n = ex.int('converters', lo=0).t; self.j = ex.int('first', lo=0).t; ex.assume(self.j <= self.n); self.ran = []
        self.has = ex.branch(self.j < self.n)
        if self.has: ex.assume(self.match(self.j))
        types_known(ex, self)
    def match(self, k): return z3.Function('is for the value', z3.IntSort(), z3.BoolSort())(as_int(k))
    def pred(self, k): return z3.Function('is a predicate', z3.IntSort(), z3.BoolSort())(as_int(k))
    def clone(self, ex, d): return self
    def type(self, k):
        def test(ex, f, a, kw):
            ex.prove(a[0] is self.value, 'predicate-of-the-value'); return SymBool(self.match(k))
        return Opaque('type', (as_int(k),), {'callable': True, 'call': test, 'truth': lambda *a: True})
    def func(self, k):
        def run(ex, f, a, kw):
            ex.prove(len(a) == 1 and a[0] is self.value and kw.get('encoder') == self.encoder, 'converter-of-the-value', repr((a, kw)))
            self.ran.append(as_int(k)); return play(self.out)
        return Opaque('converter', (as_int(k),), {'call': run, 'callable': True, 'truth': lambda *a: True})
    def items(self, ex, d): return [L.Piece(self.n, lambda ex2, k: (self.type(k), self.func(k)), 'converters', lambda: Match(self))]
    def nonempty(self, ex, d): return self.n > 0
    def len(self, ex, d): return mkint(self.n)
    def lookup(self, ex, d, k): raise OutOfReach('lookup of a converter')
    def is_of(self, ex, v, c):
        if isinstance(c, Opaque) and c.name == 'type':
            k = c.idx[0]
            if ex.branch(self.pred(k)): ex.raise_('TypeError', b'isinstance() arg 2 must be a class')
            return self.match(k)
        return c == ex.world.T['object']

def custom(amf):
  def run(ex):
    """with any converters: a value of none of the basic kinds is written as what the first converter for it gives, nothing when that is None; without one, as an object"""
    log = recording(ex, amf)
    c = Converters(ex); e = Plain(ex, amf); c.encoder = e.e
    cls = G(ex, V + 'Thing')
    v = c.value = Opaque('value', (), {'isinstance': c.is_of, 'class': cls, 'truth': lambda *a: True})
    kind = ex.choice(3); ret = Opaque('converted', (), {'class': cls})
    c.out = [('ok', None), ('ok', ret), ('error', error(ex, 'converter error'))][kind]
    def we(ex2, f, a, k):
        if a[1] is v: return NotImplemented
        log.append(('element', a[1])); return None
    scope(ex, **{'pyamf.codec.Encoder.writeElement': we})
    r = e.write(v)
    if not c.has: expect(ex, r, 'ok', 'object'); is_writer(ex, log, 'writeObject', v, 'as-an-object'); ex.prove(c.ran == [], 'no-converter'); ex.cover('object'); return
    ex.prove(len(c.ran) == 1 and as_bool(c.ran[0] == c.j), 'the-first-converter-once', repr(c.ran))
    if kind == 2: ex.prove(r[0] == 'exc' and r[2] is c.out[1] and log == [], 'its-error'); ex.cover('error')
    elif kind == 0: expect(ex, r, 'ok', 'none'); is_writer(ex, log, None, v, 'nothing'); ex.cover('none')
    else: expect(ex, r, 'ok', 'converted'); ex.prove(len(log) == 1 and log[0][0] == 'element' and log[0][1] is ret, 'its-result', repr(log)); ex.cover('converted')
  return run

def basic_first(amf):
  def run(ex):
    """a basic value gets its own writer whatever converters are registered"""
    log = recording(ex, amf); c = Converters(ex); e = Plain(ex, amf)
    ks = [k for k in KINDS[:KINDS.index(BY['kind of list'])]] + [BY[k] for k in ('undefined', 'date and time', 'date', 'mixed array')]
    name, mk, w0, w3 = ks[ex.choice(len(ks))]
    v = mk(ex); r = e.write(v); expect(ex, r, 'ok', name.replace(' ', '-')); is_writer(ex, log, w0 if amf == 0 else w3, v, name.replace(' ', '-') + '-writer'); ex.prove(c.ran == [], 'no-converter')
  return run

# ---- markers
READ0 = {0: 'readNumber', 1: 'readBoolean', 2: 'readString', 3: 'readObject', 5: 'readNull', 6: 'readUndefined', 7: 'readReference', 8: 'readMixedArray', 10: 'readList', 11: 'readDate', 12: 'readLongString', 13: 'readNull', 15: 'readXML', 16: 'readTypedObject', 17: 'readAMF3'}
READ3 = {0: 'readUndefined', 1: 'readNull', 2: 'readBoolFalse', 3: 'readBoolTrue', 4: 'readInteger', 5: 'readNumber', 6: 'readString', 7: 'readXML', 8: 'readDate', 9: 'readArray', 10: 'readObject', 11: 'readXMLString', 12: 'readByteArray'}
D_ = lambda n: 'pyamf.amf%d.Decoder.' % n
def marker(amf):
  tab = READ0 if amf == 0 else READ3
  def run(ex):
    """each of the 256 markers, after any other: its own reader once, from the byte after it, or a decoding error when it has none"""
    ex.ghost['finalise'] = 1; log = []
    done = Opaque('value')
    def rd(name):
        def h(ex2, f, a, k): log.append(name); return done
        return h
    scope(ex, **{D_(amf) + x: rd(x) for x in set(tab.values())})
    ms = [ex.int('marker %d' % i, 0, 255).t for i in range(2)]
    c = R.mk('b', [R.Ch(m) for m in ms])
    b = BS(ex, c, 0); d = call(ex, 'pyamf.amf%d.Decoder' % amf, b.st)
    lo = [k for k in range(18)]
    for i, m in enumerate(ms):
        del log[:]
        r = result(ex, lambda: meth(ex, d, 'readElement'))
        k = next((k for k in sorted(tab) if ex.branch(m == k)), None)
        if k is None: expect(ex, r, 'DecodeError', 'unknown-marker'); ex.prove(log == [], 'nothing-read', repr(log)); ex.cover('unknown'); return
        expect(ex, r, 'ok', 'known-marker'); ex.prove(log == [tab[k]], 'its-reader', '%r, not %s' % (log, tab[k])); ex.prove(r[1] is done, 'its-value')
        ex.prove(as_int(meth(ex, b.st, 'tell')) == i + 1, 'one-byte')
    ex.cover('known')
  return run

# ---- the library's own converters
def to(ex):
    """the conversions give a list or dictionary of the content of the value (a tuple: of two items)"""
    U = 'pyamf.adapters.util.'
    n = ex.int('n', lo=0).t
    p = L.Piece(n, lambda ex2, k: Opaque('item', (as_int(k),)), 'items')
    l = ex.heap.new(HList([p])); enc = Opaque('encoder')
    r = result(ex, lambda: call(ex, U + 'to_list', l, enc)); expect(ex, r, 'ok', 'list')
    it = ex.heap.get(r[1].a).items; ex.prove(r[1] != l and I.class_of(ex, r[1]) == ex.world.T['list'] and len(it) == 1 and it[0].name == 'items' and it[0].n is n, 'a-list-of-its-items', repr(it))
    two = (Opaque('one'), Opaque('two'))
    r = result(ex, lambda: call(ex, U + 'to_tuple', I.new_list(ex, list(two)), enc)); expect(ex, r, 'ok', 'tuple'); ex.prove(isinstance(r[1], tuple) and len(r[1]) == 2 and r[1][0] is two[0] and r[1][1] is two[1], 'a-tuple-of-its-items', repr(r[1]))
    from .elements import Els, seq_dict, is_seq
    els = Els(ex, 'entry', 'u'); d = seq_dict(ex, els)
    r = result(ex, lambda: call(ex, U + 'to_dict', d, enc)); expect(ex, r, 'ok', 'dict'); ex.prove(r[1] != d and I.class_of(ex, r[1]) == ex.world.T['dict'], 'a-dictionary'); is_seq(ex, r[1], els, els.n, 'of-its-entries')

def lemmas(world, tier):
    CON = {}
    for n in (0, 3):
        for x in NAMES: CON[E_(n) + x] = in_scope(E_(n) + x)
        for x in set((READ0 if n == 0 else READ3).values()): CON[D_(n) + x] = in_scope(D_(n) + x)
    for x in NAMES + ('writeElement',): CON['pyamf.codec.Encoder.' + x] = in_scope('pyamf.codec.Encoder.' + x)
    L_ = lambda n, f, **k: Lemma('C27.' + n, f, contracts=k.pop('contracts', CON), **k)
    out = []
    for n in (0, 3): out += [L_('chosen_amf%d' % n, chosen(n)), L_('custom_amf%d' % n, custom(n), cover=('object', 'error', 'none', 'converted')), L_('basic_first_amf%d' % n, basic_first(n)), L_('marker_amf%d' % n, marker(n), cover=('known', 'unknown'))]
    return out + [L_('switched', switched), L_('conversions', to)]
for n in (0, 3):
    for x in NAMES: CALLEE[E_(n) + x] = 'discharged by the lemmas of C03 to C07'
    for x in set((READ0 if n == 0 else READ3).values()): CALLEE[D_(n) + x] = 'discharged by the lemmas of C03 to C07'
for x in NAMES: CALLEE['pyamf.codec.Encoder.' + x] = 'discharged by the lemmas of C03 to C07'
