"""Deductive part: every AMF0 container writer and reader for any number of children in any order, over arbitrary encoder and
decoder states, by induction over the structure: the children are arbitrary values for which the round trip and the table
growth are assumed, and the container is shown to write the layout whose reading gives the same children in the same order
under the same names, with the same number of table entries added in the same order on both sides (itself first).  A container
met before is written as a reference to its entry, which reads back as that entry.  Class aliases are by contract (C09, C10)."""
from .elements import *
from .c08 import as_bool

END = b'\x00\x00\x09'
def written(ex, e, els, o, head, tail=b'', first=None, name='container'):
    """header, the children in order, trailer; the container is the first new entry of the table, then those of the children"""
    ex.cover('written')
    e.wrote(by(*(list(head) + [els.upto(ex, els.n), tail])), name + '-layout')
    written_tables(ex, e, els, o, name)

def written_tables(ex, e, els, o, name):
    ex.cover('written')
    T = tab(ex, e.objs)
    ex.prove(as_int(T.n) == e.n + 1 + els.tot(ex, 'objects', els.n), name + '-table-growth')
    ex.prove(len(T.known) == 1 and T.known[0][1] == o and as_bool(as_int(T.known[0][0]) == e.n), name + '-is-first-entry', repr(T.known))

def maybe_seen(ex, e, o, r):
    """when the container was in the table with an index AMF0 can express: a reference; True when handled"""
    i = ex.memo.get(('prior', e.objs.a, keyname(ex, o)))
    if i is None: return False
    if not ex.branch(i.t <= 65535): return False
    ex.cover('reference')
    expect(ex, r, 'ok', 'write-reference')
    e.wrote(by(b'\x07', u16(i.t)), 'reference-layout')
    T = tab(ex, e.objs)
    ex.prove(as_int(T.n) == e.n, 'reference-adds-nothing'); ex.prove(T.known == (), 'reference-adds-nothing')
    return True

def children(ex, codec, inv, names=None, **k):
    els = Els(ex, 'child', names, amf=codec.amf, **k) if not isinstance(codec, type(None)) else None
    els.codec = codec; els.inv = lambda lo: inv(els, lo)
    return els

def enc_with(ex, names=None, inv=WriteLoop, **k):
    e = Enc(ex, 0)
    return e, children(ex, e, inv, names, **k)

def write_list(tup):
    def f(ex):
        e, els = enc_with(ex); ex.assume(els.n < 2**32)
        o = (els.piece(),) if tup else ex.heap.new(HList([els.piece()]))
        r = e.write(o)
        if maybe_seen(ex, e, o, r): return
        expect(ex, r, 'ok', 'write-list')
        written(ex, e, els, o, [b'\x0a', u32(els.n)], name='list')
    f.__doc__ = 'a %s of any children: reference when met before, else 0x0a, count, the children in order' % ('tuple' if tup else 'list')
    return f

# ---- reading
def reader(ex, head, names=None, tail=b'', inv=None, limit=None, **k):
    """a decoder in front of a header, the children in order, and a trailer"""
    els = Els(ex, 'child', names, amf=0, **k)
    if limit is not None: ex.assume(els.n < limit)
    h = list(head(els) if callable(head) else head)
    els.step(ex, els.n)
    d = Dec(ex, 0, by(*(h + [els.upto(ex, els.n), tail])))
    els.codec = d
    if inv is not None: els.inv = lambda lo: inv(els, lo)
    return d, els

def was_read(ex, d, els, r, name):
    """all of it was consumed; the table grew by the container, first, and what the children add"""
    ex.cover('read')
    d.consumed(name)
    T = tab(ex, d.objs)
    ex.prove(as_int(T.n) == d.n + 1 + els.tot(ex, 'objects', els.n), name + '-table-growth')
    ex.prove(len(T.known) == 1 and as_bool(z3.And(as_bool(T.known[0][1] == r), as_bool(as_int(T.known[0][0]) == d.n))), name + '-is-first-entry', repr(T.known))

def read_list(ex):
    """0x0a, count and the children's bytes give the list of those children in order"""
    d, els = reader(ex, lambda c: [b'\x0a', u32(c.n)], limit=2**32)
    ex.ghost['range_inv'] = lambda: ReadList(els)
    r = d.read()
    expect(ex, r, 'ok', 'read-list')
    is_list(ex, r[1], els, els.n, 'list-children')
    was_read(ex, d, els, r[1], 'list')

# ---- objects
def an_alias(ex, anonymous, statics=None, klass='pyamf.ASObject', amf3=False, alias=None, **k):
    """a compiled class alias (C09 and C10 establish what its attributes mean)"""
    a = ex.heap.new(HObj(G(ex, 'pyamf.alias.ClassAlias'), ex.heap.new(HDict())))
    f = dict(_compiled=True, klass=G(ex, klass), alias=b'' if anonymous else alias, anonymous=anonymous, amf3=amf3, static_attrs=ex.heap.new(HList(statics or [])),
             synonym_attrs=ex.heap.new(HDict()), external=False, dynamic=True, sealed=False, is_dict=True, shortcut_encode=True, shortcut_decode=True,
             exclude_attrs=None, readonly_attrs=None, proxy_attrs=None, encodable_properties=None, decodable_properties=None)
    f.update(k)
    for n, v in f.items(): I.setattr_(ex, a, n, v)
    return a

def alias_for(ex, obj, alias):
    """the alias of this class, or of this name"""
    def c(ex2, f, a, k):
        ex2.prove(a[1] == I.getattr_(ex2, obj, '__class__') if isinstance(obj, Ref) else True, 'alias-of-its-class', repr(a[1]))
        return alias
    return c
def encodable(obj, make):
    def c(ex, f, a, k):
        ex.prove(a[1] == obj, 'attributes-of-the-object')
        return make()
    return c
ALIAS = 'pyamf.codec.Context.getClassAlias'; ENCODABLE = 'pyamf.alias.ClassAlias.getEncodableAttributes'
CREATE = 'pyamf.alias.ClassAlias.createInstance'; APPLY = 'pyamf.alias.ClassAlias.applyAttributes'
CALLEE[ALIAS] = CALLEE[ENCODABLE] = CALLEE[CREATE] = CALLEE[APPLY] = 'discharged by the lemmas of C09 and C10'

def scoped(ex, **cs):
    """contracts whose result belongs to this harness"""
    ex.ghost.setdefault('scoped', {}).update(cs)
def in_scope(q):
    def c(ex, f, a, k):
        h = ex.ghost.get('scoped', {}).get(q)
        return NotImplemented if h is None else h(ex, f, a, k)
    return c
SCOPED = dict((q, in_scope(q)) for q in (ALIAS, ENCODABLE, CREATE, APPLY))

def instance(ex, q='pyamf.ASObject'):
    return ex.heap.new(HObj(G(ex, q), ex.heap.new(HDict()), ex.heap.new(HDict())))

def write_object(kind, names):
    def f(ex):
        e, els = enc_with(ex, names)
        o = ex.heap.new(HDict()) if kind == 'dict' else instance(ex)
        al = an_alias(ex, True)
        ex.ghost['scoped'] = {ALIAS: alias_for(ex, o, al), ENCODABLE: encodable(o, lambda: seq_dict(ex, els))}
        r = e.write(o)
        if maybe_seen(ex, e, o, r): return
        expect(ex, r, 'ok', 'write-object')
        written(ex, e, els, o, [b'\x03'], END, name='object')
    f.__doc__ = 'a %s with any attributes under %s names: reference, or 0x03, each name and its value in order, end' % (kind, {'u': 'text', 'b': 'byte', 'int': 'integer'}[names])
    return f

class WriteStatics(WriteLoop):
    """... and the attributes not yet written are those from k on"""
    def __init__(self, els, d): WriteLoop.__init__(self, els); self.d = d
    def havoc(self, f, k):
        WriteLoop.havoc(self, f, k); self.ex.heap.w(self.d.a).base = Seq(self.els, lo=k)
    def check(self, f, k):
        WriteLoop.check(self, f, k); is_seq(self.ex, self.d, self.els, self.els.n, 'attributes-left', lo=k)

def write_typed(ex):
    """an object of a named class with any static attributes (renamed or not) and others: 0x10, the class name, the statics
    first and in their order, then the others, end"""
    e, els = enc_with(ex, 'u')
    s = ex.int('statics', lo=0).t; ex.assume(s <= els.n)
    o = instance(ex, 'pyamf.TypedObject')
    nm = R.sym_str(ex, 'class', 'u', minlen=1); u = R.utf8(ex, nm)
    ex.assume(as_int(R.length(ex, u)) <= 65535)
    renamed = ex.choice(2)
    local = (lambda ex, k: R.sym_str(ex, 'local ' + els.lid, 'u', ix=(as_int(k),))) if renamed else els.name
    d = seq_dict(ex, els)
    al = an_alias(ex, False, [els.names_piece(0, s, local, lambda lo: WriteStatics(els, d))], alias=nm)
    if renamed:
        class Synonyms(AbsDict):
            def lookup(self, ex, dd, k):
                if isinstance(k, R.Rope) and len(k.parts) == 1 and k.parts[0].atom.fname.startswith('local '): return els.name(ex, k.parts[0].atom.ix[0])
                raise OutOfReach('synonym of %r' % (k,))
        ex.heap.w(I.getattr_(ex, al, 'synonym_attrs').a).base = Synonyms('synonyms', None)
    ex.ghost['scoped'] = {ALIAS: alias_for(ex, o, al), ENCODABLE: encodable(o, lambda: d)}
    r = e.write(o)
    if maybe_seen(ex, e, o, r): return
    expect(ex, r, 'ok', 'write-typed')
    R.note_split(ex, els.lid, 0, s, els.n)
    written(ex, e, els, o, [b'\x10', u16(R.length(ex, u)), u], END, name='typed')

def write_mixed(names):
    def f(ex):
        e, els = enc_with(ex, names)
        o = instance(ex, 'pyamf.MixedArray')
        d = I.as_dict(ex, o); ex.heap.w(d.a).base = Seq(els)
        r = e.write(o)
        if maybe_seen(ex, e, o, r): return
        if names == 'int' and r[0] == 'exc' and r[1] == 'OverflowError': ex.cover('refused'); return
        expect(ex, r, 'ok', 'write-mixed')
        got = buf(ex, e.st); n = as_int(R.length(ex, e.pre))
        same_bytes(ex, R.slice_(ex, got, 0, tint(n + 1)), by(e.pre, b'\x08'), 'mixed-marker')
        e.wrote(by(b'\x08', R.slice_(ex, got, tint(n + 1), tint(n + 5)), els.upto(ex, els.n), END), 'mixed-layout')
        written_tables(ex, e, els, o, 'mixed')
    f.__doc__ = 'a mixed array with any %s keys: reference, or 0x08, four bytes, each key and its value in order, end' % {'u': 'text', 'int': 'integer'}[names]
    return f

def long_name(ex):
    """a name of more than 65535 bytes is refused"""
    e = Enc(ex, 0)
    s = R.sym_str(ex, 's', 'ub'[ex.choice(2)])
    ex.assume(as_int(R.length(ex, utf8_of(ex, s))) > 65535)
    expect(ex, result(ex, lambda: meth(ex, e.e, 'serialiseString', s)), 'EncodeError', 'refused')
    same_bytes(ex, buf(ex, e.st), e.pre, 'refused-writes-nothing')

class ReadAttributes(ReadLoop):
    """after k rounds: attributes 0..k are in place and the name of the next one (or the empty one before the end) was read"""
    def enter(self, f):
        ReadLoop.enter(self, f)
        self.start = tint(as_int(self.els.codec.p) + as_int(R.length(self.ex, self.els.head)))
        self.var_ = [n for n, v in self.ex.heap.get(f.env.a).vars.items() if R.is_text(v)]
        self.d = [v for n, v in self.ex.heap.get(f.env.a).vars.items() if isinstance(v, Ref) and isinstance(self.ex.heap.get(v.a), HDict)]
        if len(self.var_) != 1 or len(self.d) != 1: raise OutOfReach('the locals of the attribute loop')
        self.var_ = self.var_[0]; self.d = self.d[0]
        self.limit()
    def limit(self):
        ex = self.ex
        self.more = lambda k: ex.branch(as_int(k) < self.els.n)
    def name_len(self, k): return as_int(R.length(self.ex, self.els.wire(self.ex, k)))
    def place(self, k):
        ex = self.ex
        base = as_int(self.start) + R.loop_len(ex, self.els.lid, 0, k) + 2
        return tint(base + self.name_len(k)) if self.more(k) else tint(base)
    def havoc(self, f, k):
        ex = self.ex
        ex.assume(as_int(k) <= self.els.n)
        self.read_state(k)
        f.store(self.var_, self.els.wire(ex, k) if self.more(k) else b'')
        ex.heap.w(self.d.a).base = Seq(self.els, k, self.els.wire)
    def check(self, f, k):
        ex = self.ex
        if not isinstance(k, int) : ex.prove(as_int(k) <= self.els.n, 'loop-stops-at-the-end')
        self.els.step(ex, k)
        self.test = lambda f, k: None
        ReadLoop.check(self, f, k)
        same_bytes(ex, f.load(self.var_), self.els.wire(ex, k) if self.more(k) else b'', 'loop-name')
        is_seq(ex, self.d, self.els, k, 'loop-attributes')
    def variant(self, f):
        ex = self.ex
        return as_int(R.length(ex, self.buf0)) - as_int(ex.heap.get(sio(ex, self.C.st).a).pos)

def attr_reader(ex, head, names, **k):
    d, els = reader(ex, head, names, END, **k)
    els.head = by(*list(head(els) if callable(head) else head))
    ex.ghost['while_inv'] = ('pyamf.amf', lambda: ReadAttributes(els))
    return d, els

def read_object(ex):
    """0x03, each name and its value in order, and the end give an anonymous object with exactly these"""
    d, els = attr_reader(ex, [b'\x03'], 'u', minname=1)
    r = d.read()
    expect(ex, r, 'ok', 'read-object')
    ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.ASObject'), 'anonymous-object')
    is_seq(ex, r[1], els, els.n, 'object-attributes')
    was_read(ex, d, els, r[1], 'object')

def class_name(ex):
    nm = R.sym_str(ex, 'class', 'u', minlen=1); u = R.utf8(ex, nm)
    ex.assume(as_int(R.length(ex, u)) <= 65535)
    return nm, u

def read_typed(ex):
    """0x10, a class name, each name and value in order, and the end: the alias of that name makes the object, which is in the
    table before any attribute is read, and is given exactly these attributes"""
    nm, u = class_name(ex)
    d, els = attr_reader(ex, [b'\x10', u16(R.length(ex, u)), u], 'u', minname=1)
    o = instance(ex, 'pyamf.TypedObject'); al = an_alias(ex, False, alias=nm); seen = []
    def lookup(ex2, f, a, k): same_bytes(ex2, a[1], nm, 'alias-of-that-name'); return al
    def create(ex2, f, a, k): ex2.prove(a[0] == al, 'created-by-its-alias'); return o
    def apply(ex2, f, a, k):
        ex2.prove(a[0] == al and a[1] == o, 'applied-to-the-object')
        is_seq(ex2, a[2], els, els.n, 'typed-attributes'); seen.append(1)
    ex.ghost['scoped'] = {ALIAS: lookup, CREATE: create, APPLY: apply}
    r = d.read()
    expect(ex, r, 'ok', 'read-typed')
    ex.prove(r[1] == o and len(seen) == 1, 'typed-object')
    was_read(ex, d, els, o, 'typed')

def read_unknown(strict):
    def f(ex):
        nm, u = class_name(ex)
        d, els = attr_reader(ex, [b'\x10', u16(R.length(ex, u)), u], 'u', minname=1)
        I.setattr_(ex, d.d, 'strict', strict)
        U = G(ex, 'pyamf.UnknownClassAlias')
        def unknown(ex2, f, a, k): raise PyRaise(call(ex2, U, b'x'))
        ex.ghost['scoped'] = {ALIAS: unknown}
        r = d.read()
        if strict: expect(ex, r, 'UnknownClassAlias', 'strict-refuses'); ex.cover('read'); return
        expect(ex, r, 'ok', 'read-unknown')
        ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.TypedObject'), 'typed-object')
        same_bytes(ex, attr(ex, r[1], 'alias'), nm, 'keeps-its-class-name')
        is_seq(ex, r[1], els, els.n, 'unknown-attributes')
        was_read(ex, d, els, r[1], 'unknown')
    f.__doc__ = 'an object of an unknown class %s' % ('is refused by a strict decoder' if strict else 'becomes a TypedObject of that name with exactly its attributes')
    return f

def read_mixed(names):
    def f(ex):
        h = ex.int('highest', 0, 2**32 - 1)
        d, els = attr_reader(ex, [b'\x08', u32(h.t)], names, minname=1 if names == 'u' else 0)
        els.inv = lambda lo: MapLoop(els, els.name if names == 'int' else els.wire)
        r = d.read()
        expect(ex, r, 'ok', 'read-mixed')
        ex.prove(I.class_of(ex, r[1]) == G(ex, 'pyamf.MixedArray'), 'mixed-array')
        is_seq(ex, r[1], els, els.n, 'mixed-entries')
        was_read(ex, d, els, r[1], 'mixed')
    f.__doc__ = '0x08, anything as highest index, the entries under %s names and the end give a mixed array of exactly these, integers as integer keys' % {'u': 'text', 'int': 'integer'}[names]
    return f

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update(CHILDREN); CON.update(SCOPED)
    L_ = lambda n, f, **k: Lemma('C06.' + n, f, contracts=CON, **k)
    both = ('written', 'reference')
    return [L_('write_list', write_list(False), cover=both), L_('write_tuple', write_list(True), cover=both), L_('read_list', read_list, cover=('read',)),
            L_('long_name', long_name), L_('read_object', read_object, cover=('read',)),
            L_('read_typed', read_typed, cover=('read',)), L_('read_unknown', read_unknown(False), cover=('read',)), L_('read_unknown_strict', read_unknown(True), cover=('read',)),
            L_('read_mixed_text', read_mixed('u'), cover=('read',)), L_('read_mixed_int', read_mixed('int'), cover=('read',)),
            L_('write_mixed_text', write_mixed('u'), cover=both), L_('write_mixed_int', write_mixed('int'), cover=both),
            L_('write_typed', write_typed, cover=both),
            L_('write_dict', write_object('dict', 'u'), cover=both), L_('write_asobject', write_object('object', 'u'), cover=both), L_('write_dict_bytes', write_object('dict', 'b'), cover=both), L_('write_dict_int', write_object('dict', 'int'), cover=both)]
