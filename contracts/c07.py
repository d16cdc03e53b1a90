"""Deductive part: every AMF3 container writer and reader for any number of children in any order, over arbitrary encoder and
decoder states (string, object and class tables of any content), by induction over the structure: the children are arbitrary
values for which the round trip and the table growth are assumed; the container is shown to write the layout whose reading
gives the same children in the same order under the same names, with the same entries added to all three tables in the same
order on both sides (the object itself before its children).  Class definitions are written once and then by index.  Class
aliases are by contract (C09, C10), the strings of names by C05, the tables by C08."""
from .elements import *
from .c06 import an_alias, alias_for, encodable, SCOPED, ALIAS, ENCODABLE, CREATE, APPLY, instance, as_bool, in_scope

LIMIT = 2**26
def enc_with(ex, names=None, inv=WriteLoop, **k):
    e = Enc(ex, 3)
    e.nc = ex.int('classes', 0, 2**25).t
    def put(): I.getattr_(ex, e.ctx, 'class_idx'); I.setattr_(ex, e.ctx, 'class_idx', mkint(e.nc))
    reach('class table', put)
    els = Els(ex, 'child', names, amf=3, **k)
    prepare(ex, e, els, inv)
    return e, els

def prepare(ex, codec, els, inv):
    ex.assume(els.n < LIMIT)
    els.codec = codec; els.inv = lambda lo: inv(els, lo)
    for w in ('names', 'values'):
        p = els.part(w); p.codec = codec; p.inv = lambda lo, p=p: inv(p, lo)
    if els.names: ex.ghost['named'] = ex.ghost.get('named', ()) + (els,)

def tables(ex, C, name, first, strings=0, objects=0, classes_=0):
    """how much the tables grew, the object itself being the first entry"""
    T = tab(ex, C.objs)
    ex.prove(as_int(T.n) == C.n + 1 + objects, name + '-objects-growth')
    ex.prove(len(T.known) == 1 and as_bool(z3.And(as_bool(T.known[0][1] == first), as_bool(as_int(T.known[0][0]) == C.n))), name + '-is-first-entry', repr(T.known))
    ex.prove(as_int(tab(ex, C.strs).n) == C.ns + strings, name + '-strings-growth')
    ex.prove(classes(ex, C) == C.nc + classes_, name + '-classes-growth')

def by_reference(ex, e, o, r, mark):
    i = ex.memo.get(('prior', e.objs.a, keyname(ex, o)))
    if i is None: return False
    ex.cover('reference')
    expect(ex, r, 'ok', 'write-reference')
    e.wrote(by(mark, u29(ex, 2 * i.t)), 'reference-layout')
    ex.prove(as_int(tab(ex, e.objs).n) == e.n, 'reference-adds-nothing'); ex.prove(as_int(tab(ex, e.strs).n) == e.ns, 'reference-adds-nothing')
    return True

def write_list(tup):
    def f(ex):
        e, els = enc_with(ex)
        o = (els.piece(),) if tup else ex.heap.new(HList([els.piece()]))
        r = e.write(o)
        if by_reference(ex, e, o, r, b'\x09'): return
        expect(ex, r, 'ok', 'write-list'); ex.cover('written')
        e.wrote(by(b'\x09', u29(ex, 2 * els.n + 1), b'\x01', els.upto(ex, els.n)), 'list-layout')
        t = lambda w: els.tot(ex, w, els.n)
        tables(ex, e, 'list', o, t('strings'), t('objects'), t('classes'))
    f.__doc__ = 'a %s of any children: reference when met before, else its count, no names, the children in order' % ('tuple' if tup else 'list')
    return f

def dec_with(ex, head, names=None, tail=None, **k):
    """a decoder in front of a layout over children"""
    els = Els(ex, 'child', names, amf=3, **k)
    ex.assume(els.n < LIMIT)
    els.step(ex, els.n)
    d = Dec(ex, 3, head(els))
    d.nc = ex.int('classes', 0, 2**25).t
    def put(): I.getattr_(ex, d.ctx, 'class_idx'); I.setattr_(ex, d.ctx, 'class_idx', mkint(d.nc))
    reach('class table', put)
    prepare(ex, d, els, ReadLoop)
    return d, els

def read_list(ex):
    """a count, no names, and the children's bytes give the list of those children in order"""
    d, els = dec_with(ex, lambda c: by(b'\x09', u29(ex, 2 * c.n + 1), b'\x01', c.upto(ex, c.n)))
    ex.ghost['range_inv'] = lambda: ReadList(els)
    r = d.read()
    expect(ex, r, 'ok', 'read-list'); ex.cover('read')
    is_list(ex, r[1], els, els.n, 'list-children')
    d.consumed('list')
    t = lambda w: els.tot(ex, w, els.n)
    tables(ex, d, 'list', r[1], t('strings'), t('objects'), t('classes'))

# ---- objects
class WriteStatics(WriteLoop):
    """the values only; the attributes not yet written are those from k on"""
    def __init__(self, els, d): WriteLoop.__init__(self, els.part('values')); self.all = els; self.d = d
    def havoc(self, f, k):
        WriteLoop.havoc(self, f, k); self.ex.heap.w(self.d.a).base = Seq(self.all, lo=k)
    def check(self, f, k):
        WriteLoop.check(self, f, k); is_seq(self.ex, self.d, self.all, self.all.n, 'attributes-left', lo=k)

def class_name(ex):
    nm = R.sym_str(ex, 'class', 'u', minlen=1); u = R.utf8(ex, nm)
    ex.assume(as_int(R.length(ex, u)) < LIMIT)
    return nm, u

def string_chunk(ex, C, u):
    """the bytes a non-empty string takes in this state of the string table, and whether it joins the table"""
    i = ex.memo.get(('prior', C.strs.a, keyname(ex, u)))
    if i is not None: return u29(ex, 2 * i.t), 0
    return by(u29(ex, 2 * as_int(R.length(ex, u)) + 1), u), 1

CONFIGS = ('dynamic', 'static', 'fixed')
def configure(ex, els, s, how):
    """alias attributes of a class with s static attributes: dynamic, static only, or not dynamic with other attributes"""
    if how == 'dynamic': return dict(dynamic=True), 2
    if how == 'static':
        ex.assume(s == els.n)
        if ex.choice(2): ex.assume(s == 0); return dict(dynamic=False, encodable_properties=None), 0
        return dict(dynamic=False, encodable_properties=ex.heap.new(HList([els.names_piece(0, s)]))), 0
    m = ex.int('encodable', lo=0).t; ex.assume(z3.And(m > s, m <= els.n))
    return dict(dynamic=False, encodable_properties=ex.heap.new(HList([els.names_piece(0, m)]))), 2

def write_object(kind, how):
    def f(ex):
        e, els = enc_with(ex, 'u', minname=1)
        s = 0
        if kind == 'typed': s = ex.int('statics', lo=0).t; ex.assume(z3.And(s <= els.n, s < 2**20)); s = 0 if ex.branch(s == 0) else s
        o = ex.heap.new(HDict()) if kind == 'dict' else instance(ex, 'pyamf.TypedObject' if kind == 'typed' else 'pyamf.ASObject')
        d = seq_dict(ex, els)
        cand = lambda lo: (WriteLoop(els.part('names')), WriteStatics(els, d))
        conf, code = configure(ex, els, s, how)
        nm, u = class_name(ex) if kind == 'typed' else (b'', b'')
        al = an_alias(ex, kind != 'typed', [els.names_piece(0, s, inv=cand)] if kind == 'typed' else [], alias=nm, klass='pyamf.TypedObject' if kind == 'typed' else 'pyamf.ASObject', **conf)
        I.setattr_(ex, al, 'klass', I.getattr_(ex, o, '__class__'))
        ex.ghost['scoped'] = {ALIAS: alias_for(ex, o, al), ENCODABLE: encodable(o, lambda: d)}
        # its class may have been written before
        known = ex.choice(2); ci = ex.int('class', 0).t; ex.assume(ci < e.nc)
        if known:
            cd = call(ex, 'pyamf.amf3.ClassDefinition', al)
            I.setattr_(ex, cd, 'reference', u29(ex, 4 * ci + 1))
            I.dict_set(ex, attr(ex, e.ctx, 'classes'), I.getattr_(ex, o, '__class__'), cd)
        r = e.write(o)
        if by_reference(ex, e, o, r, b'\x0a'): return
        expect(ex, r, 'ok', 'write-object'); ex.cover('written known' if known else 'written new')
        strings = classes_ = 0
        if known: head = u29(ex, 4 * ci + 1)
        else:
            classes_ = 1
            c, j = string_chunk(ex, e, u) if kind == 'typed' else (b'\x01', 0)
            head = by(u29(ex, s * 16 + 4 * code + 3), c, els.part('names').upto(ex, s))
            strings = j + els.part('names').tot(ex, 'strings', s)
            # the definition is found again by its class, and holds the number the decoder gives it
            cd = meth(ex, e.ctx, 'getClass', I.getattr_(ex, o, '__class__'))
            ex.prove(cd is not None, 'class-is-remembered')
            same_bytes(ex, attr(ex, cd, 'reference'), u29(ex, 4 * e.nc + 1), 'class-reference')
        v = els.part('values')
        tail = by(els.upto(ex, els.n, s), b'\x01') if code == 2 else b''
        e.wrote(by(b'\x0a', head, v.upto(ex, s), tail), 'object-layout')
        t = lambda w: v.tot(ex, w, s) + (els.tot(ex, w, els.n) - els.tot(ex, w, s) if code == 2 else 0)
        tables(ex, e, 'object', o, strings + t('strings'), t('objects'), classes_ + t('classes'))
    f.__doc__ = ('%s (%s): reference; or its class (by number when written before, else its traits, name and static names once), the static values, %s'
                 % ({'dict': 'a dict', 'object': 'an anonymous object', 'typed': 'a typed object with any static attributes'}[kind], how, 'nothing else' if how == 'static' else 'then each other name and value, end'))
    return f

def write_external(ex):
    """an externalizable object: reference; or its class (by number, or marked externalizable with its name), then exactly what
    its __writeamf__ writes through a DataOutput on this encoder"""
    e = Enc(ex, 3)
    e.nc = ex.int('classes', 0, 2**25).t
    def put(): I.getattr_(ex, e.ctx, 'class_idx'); I.setattr_(ex, e.ctx, 'class_idx', mkint(e.nc))
    reach('class table', put)
    o = instance(ex, 'pyamf.flex.ObjectProxy')
    nm, u = class_name(ex)
    al = an_alias(ex, False, alias=nm, external=True, dynamic=[True, False][ex.choice(2)])
    I.setattr_(ex, al, 'klass', I.getattr_(ex, o, '__class__'))
    body = R.sym_str(ex, 'body'); calls = []
    def writes(ex2, f, a, k):
        ex2.prove(a[0] == o, 'writes-itself')
        out = a[1]
        ex2.prove(I.class_of(ex2, out) == G(ex2, 'pyamf.amf3.DataOutput') and attr(ex2, out, 'encoder') == e.e and attr(ex2, out, 'stream') == e.st, 'data-output-on-this-encoder')
        meth(ex2, e.st, 'write', body); calls.append(1)
    ex.ghost['scoped'] = {ALIAS: alias_for(ex, o, al), WRITEAMF: writes}
    known = ex.choice(2); ci = ex.int('class', 0).t; ex.assume(ci < e.nc)
    if known:
        cd = call(ex, 'pyamf.amf3.ClassDefinition', al)
        I.setattr_(ex, cd, 'reference', u29(ex, 4 * ci + 1))
        I.dict_set(ex, attr(ex, e.ctx, 'classes'), I.getattr_(ex, o, '__class__'), cd)
    r = e.write(o)
    if by_reference(ex, e, o, r, b'\x0a'): return
    expect(ex, r, 'ok', 'write-external'); ex.cover('written known' if known else 'written new')
    ex.prove(len(calls) == 1, 'written-once')
    c, j = string_chunk(ex, e, u)
    e.wrote(by(b'\x0a', u29(ex, 4 * ci + 1), body) if known else by(b'\x0a', u29(ex, 7), c, body), 'external-layout')
    tables(ex, e, 'external', o, 0 if known else j, 0, 0 if known else 1)
WRITEAMF = 'pyamf.flex.ObjectProxy.__writeamf__'; READAMF = 'pyamf.flex.ObjectProxy.__readamf__'; BYNAME = 'pyamf.get_class_alias'
CALLEE[WRITEAMF] = CALLEE[READAMF] = 'any externalizable class: arbitrary code of the user'; CALLEE[BYNAME] = 'discharged by the lemmas of C11'

# ---- reading objects
class ReadNames(ReadLoop):
    """names 0..k were consumed and are in the new list, in order"""
    def __init__(self, els): ReadLoop.__init__(self, els.part('names')); self.all = els
    def enter(self, f):
        ReadLoop.enter(self, f)
        ex = self.ex; ls = []
        def look(v):
            if isinstance(v, Ref) and isinstance(ex.heap.get(v.a), HList) and not ex.heap.get(v.a).items: ls.append(v)
        for v in list(ex.heap.get(f.env.a).vars.values()):
            look(v)
            if not (isinstance(v, Ref) and isinstance(ex.heap.get(v.a), HObj)) or v == self.C.d: continue
            o = ex.heap.get(v.a)
            for x in o.f.values(): look(x)
            if o.dct is not None:
                for x in ex.heap.get(o.dct.a).ent.values(): look(x[1])
        if not ls: raise OutOfReach('the list of names')
        self.l = max(ls, key=lambda r: r.a)        # the one made last
    def put(self, f, k): self.ex.heap.w(self.l.a).items[:] = [self.all.names_piece(0, k, self.all.wire, lambda lo: ReadStatics(self.all))]
    def test(self, f, k):
        ex = self.ex; off = 0
        for x in ex.heap.get(self.l.a).items:
            if I.is_piece(x): ex.prove(x.name == self.all.lid + ' names' and off == 0, 'loop-names'); off = x.n
            else: same_bytes(ex, x, self.all.wire(ex, off), 'loop-names'); off = tint(as_int(off) + 1)
        ex.prove(as_int(off) == as_int(k), 'loop-names-count')

def the_dict(ex, f):
    """the container among the locals of a loop"""
    ds = []
    for n, v in ex.heap.get(f.env.a).vars.items():
        if not isinstance(v, Ref): continue
        r = ex.heap.get(v.a)
        if isinstance(r, HDict): ds.append(v)
        elif isinstance(r, HObj) and r.payload is not None and isinstance(ex.heap.get(r.payload.a), HDict): ds.append(r.payload)
    if len(ds) != 1: raise OutOfReach('the locals of the attribute loop')
    return ds[0]

class ReadStatics(ReadLoop):
    """values 0..k were consumed and are in place under the first k names"""
    def __init__(self, els): ReadLoop.__init__(self, els.part('values')); self.all = els
    def enter(self, f): ReadLoop.enter(self, f); self.d = the_dict(self.ex, f)
    def put(self, f, k): self.ex.heap.w(self.d.a).base = Seq(self.all, k, self.all.wire)
    def test(self, f, k): is_seq(self.ex, self.d, self.all, k, 'loop-attributes')

class ReadNamed(ReadLoop):
    """attributes lo..lo+k are in place and the name of the next one (or the empty one at the end) was read"""
    def enter(self, f):
        ReadLoop.enter(self, f)
        ex = self.ex
        self.var_ = [n for n, v in ex.heap.get(f.env.a).vars.items() if R.is_text(v)]
        if len(self.var_) != 1: raise OutOfReach('the locals of the attribute loop')
        self.var_ = self.var_[0]; self.d = the_dict(ex, f)
        self.start = tint(as_int(self.pos0) - self.ahead(0)); self.s0 = as_int(self.t0['strings'].n) - self.named(0)
        self.key0 = ex.heap.get(self.d.a).base.key if ex.heap.get(self.d.a).base is not None else self.els.wire
    def more(self, k): return self.ex.branch(as_int(self.at(k)) < self.els.n)
    def ahead(self, k):
        """bytes of the next name"""
        return as_int(R.length(self.ex, R.atom_rope(self.els.name_chunk(self.ex, self.at(k))))) if self.more(k) else 1
    def named(self, k): return self.els.part('names').cnt(self.ex, 'strings', self.at(k)) if self.more(k) else 0
    def facts(self, k):
        ex = self.ex; els = self.els; j = self.at(k); nx = tint(as_int(j) + 1)
        els.step(ex, j)
        for a, b, c in ((0, self.lo, j), (0, self.lo, nx), (self.lo, j, els.n), (self.lo, j, nx), (self.lo, nx, els.n), (0, self.lo, els.n), (j, nx, els.n)): R.note_split(ex, els.lid, a, b, c)
        m = els.minsize()
        for a, b in ((self.lo, j), (self.lo, nx), (j, els.n)):
            ex.assume(z3.Implies(as_int(a) <= as_int(b), R.loop_len(ex, els.lid, a, b) >= m * (as_int(b) - as_int(a))))
        ex.assume(R.loop_len(ex, els.lid, j, nx) == els.size(ex, j))
    def state(self, k):
        ex = self.ex
        T = {}
        for w, t in codec_tables(ex, self.C).items(): T[w] = (self.s0 if w == 'strings' else as_int(self.t0[w].n)) + self.added(w, k) + (self.named(k) if w == 'strings' else 0)
        return tint(as_int(self.start) + R.loop_len(ex, self.els.lid, self.lo, self.at(k)) + self.ahead(k)), T
    def havoc(self, f, k):
        ex = self.ex; els = self.els
        ex.assume(as_int(self.at(k)) <= els.n)
        self.facts(k)
        pos, T = self.state(k)
        b = ex.heap.w(sio(ex, self.C.st).a); b.pos = pos
        any_cache(ex, self.C.st, self.buf0)
        for w, t in codec_tables(ex, self.C).items():
            tab_put(ex, t, self.t0[w].n, self.t0[w].known); grow(ex, t, T[w] - as_int(self.t0[w].n))
        I.setattr_(ex, self.C.ctx, 'class_idx', mkint(self.c0 + self.added('classes', k)))
        f.store(self.var_, els.wire(ex, self.at(k)) if self.more(k) else b'')
        ex.heap.w(self.d.a).base = Seq(els, self.at(k), self.key0)
    def check(self, f, k):
        ex = self.ex; els = self.els
        ex.prove(as_int(self.at(k)) <= els.n, 'loop-stops-at-the-end')
        self.facts(k)
        pos, T = self.state(k)
        b = ex.heap.get(sio(ex, self.C.st).a)
        same_bytes(ex, b.buf, self.buf0, 'loop-content')
        ex.prove(as_int(b.pos) == as_int(pos), 'loop-position')
        check_cache(ex, self.C.st, self.buf0, 'loop')
        for w, t in codec_tables(ex, self.C).items():
            ex.prove(as_int(tab(ex, t).n) == T[w], 'loop-table-' + w)
            ex.prove(tab(ex, t).known == self.t0[w].known, 'loop-entries-' + w)
        ex.prove(classes(ex, self.C) == self.c0 + self.added('classes', k), 'loop-table-classes')
        same_bytes(ex, f.load(self.var_), els.wire(ex, self.at(k)) if self.more(k) else b'', 'loop-name')
        is_seq(ex, self.d, els, self.at(k), 'loop-attributes')
    def variant(self, f):
        ex = self.ex
        return as_int(R.length(ex, self.buf0)) - as_int(ex.heap.get(sio(ex, self.C.st).a).pos)

def fits_known_strings(ex, d, u):
    """the table entry a name refers to"""
    ex.ghost[('entry', d.strs.a)] = lambda ex, k: u

def read_object(kind, how, which=None):
    """which: its class by number ('known'), inline ('new'), inline with its name by reference ('named'); None: each of these"""
    code = 0 if how == 'static' else 2
    def f(ex):
        s = 0
        els = Els(ex, 'child', 'u', amf=3, minname=1)
        ex.assume(els.n < LIMIT)
        if kind == 'typed':
            s = ex.int('statics', lo=0).t; ex.assume(z3.And(s <= els.n, s < 2**20)); s = 0 if ex.branch(s == 0) else s
        if code == 0: ex.assume(as_int(s) == els.n)
        nm, u = class_name(ex) if kind != 'anonymous' else (b'', b'')
        known = which == 'known' if which else ex.choice(2); ci = ex.int('class', 0).t
        if how != 'static' and not isinstance(s, int): els.stops.append(s)
        names, values = els.part('names'), els.part('values')
        seen_name = False
        if known: head = u29(ex, 4 * ci + 1)
        elif kind == 'anonymous': head = by(u29(ex, as_int(s) * 16 + 4 * code + 3), b'\x01')
        else:
            seen_name = which == 'named' if which else ex.choice(2); si = ex.int('name at', 0).t
            head = by(u29(ex, as_int(s) * 16 + 4 * code + 3), u29(ex, 2 * si) if seen_name else by(u29(ex, 2 * as_int(R.length(ex, u)) + 1), u), names.upto(ex, s))
        for p in (names, values): p.step(ex, s)
        els.step(ex, els.n); els.step(ex, s)
        d = Dec(ex, 3, by(b'\x0a', head, values.upto(ex, s), by(els.upto(ex, els.n, s), b'\x01') if code == 2 else b''))
        d.nc = ex.int('classes', 0, 2**25).t
        def put(): I.getattr_(ex, d.ctx, 'class_idx'); I.setattr_(ex, d.ctx, 'class_idx', mkint(d.nc))
        reach('class table', put)
        if known: ex.assume(ci < d.nc)
        if seen_name: ex.assume(si < d.ns); fits_known_strings(ex, d, u)
        prepare(ex, d, els, ReadLoop)
        ex.ghost['range_inv'] = lambda: ReadNames(els)
        ex.ghost['while_inv'] = ('pyamf.amf3.Decoder', lambda: ReadNamed(els, s))
        o = instance(ex, 'pyamf.TypedObject' if kind == 'typed' else 'pyamf.ASObject')
        al = an_alias(ex, kind == 'anonymous', alias=nm)
        I.setattr_(ex, al, 'klass', I.getattr_(ex, o, '__class__')); seen = []
        def lookup(ex2, ff, a, k):
            if kind == 'anonymous': ex2.prove(a[0] == G(ex2, 'pyamf.ASObject'), 'alias-of-anonymous')
            else: same_bytes(ex2, a[0], u, 'alias-of-that-name') if R.is_str(a[0]) else same_bytes(ex2, a[0], nm, 'alias-of-that-name')
            return al
        def create(ex2, ff, a, k): ex2.prove(a[0] == al, 'created-by-its-alias'); return o
        def apply(ex2, ff, a, k):
            ex2.prove(a[0] == al and a[1] == o, 'applied-to-the-object')
            is_seq(ex2, a[2], els, els.n, 'object-attributes'); seen.append(1)
        ex.ghost['scoped'] = {BYNAME: lookup, CREATE: create, APPLY: apply}
        if known:
            cd = call(ex, 'pyamf.amf3.ClassDefinition', al)
            for n, v in (('encoding', code), ('attr_len', mkint(as_int(s))), ('static_properties', ex.heap.new(HList([els.names_piece(0, s, els.wire, lambda lo: ReadStatics(els))] if not isinstance(s, int) or s else [])))): I.setattr_(ex, cd, n, v)
            class One(AbsDict):
                def lookup(self, ex, dd, k):
                    ex.prove(as_int(k) == ci, 'class-asked-for'); return cd
            cr = attr(ex, d.ctx, 'class_ref')
            reach('class_ref', lambda: setattr(ex.heap.w(cr.a), 'base', One('class_ref', None)))
        r = d.read()
        expect(ex, r, 'ok', 'read-object'); ex.cover('read known' if known else 'read new')
        ex.prove(r[1] == o and len(seen) == 1, 'object')
        d.consumed('object')
        t = lambda w: values.tot(ex, w, s) + (els.tot(ex, w, els.n) - els.tot(ex, w, s) if code == 2 else 0)
        st = 0 if known else (0 if seen_name or kind == 'anonymous' else 1) + names.tot(ex, 'strings', s)
        tables(ex, d, 'object', o, st + t('strings'), t('objects'), (0 if known else 1) + t('classes'))
        if not known:
            cd = meth(ex, d.ctx, 'getClassByReference', mkint(d.nc))
            ex.prove(isinstance(cd, Ref) and attr(ex, cd, 'alias') == al, 'class-has-the-next-number')
            ex.prove(z3.And(as_int(attr(ex, cd, 'encoding')) == code, as_int(attr(ex, cd, 'attr_len')) == as_int(s)), 'class-traits')
    f.__doc__ = ('%s (%s): its class (inline once, then the same by number), the static values and %s give the object its alias makes, in the table before any attribute is read, with exactly these attributes'
                 % ('an anonymous object' if kind == 'anonymous' else 'a typed object with any static attributes', how, 'nothing else' if code == 0 else 'each other name and value'))
    return f

def read_external(ex):
    """an externalizable object: its class (inline or by number), then its __readamf__ reads through a DataInput on this decoder,
    once, with the object already in the table"""
    nm, u = class_name(ex)
    known = ex.choice(2); ci = ex.int('class', 0).t
    code = [1, 3][ex.choice(2)]
    body = R.sym_str(ex, 'body')
    d = Dec(ex, 3, by(b'\x0a', u29(ex, 4 * ci + 1) if known else by(u29(ex, 4 * code + 3), u29(ex, 2 * as_int(R.length(ex, u)) + 1), u), body))
    d.nc = ex.int('classes', 0, 2**25).t
    def put(): I.getattr_(ex, d.ctx, 'class_idx'); I.setattr_(ex, d.ctx, 'class_idx', mkint(d.nc))
    reach('class table', put)
    o = instance(ex, 'pyamf.flex.ObjectProxy')
    al = an_alias(ex, False, alias=nm, external=True)
    I.setattr_(ex, al, 'klass', I.getattr_(ex, o, '__class__')); calls = []
    def lookup(ex2, ff, a, k): same_bytes(ex2, a[0], u if R.is_str(a[0]) else nm, 'alias-of-that-name'); return al
    def create(ex2, ff, a, k): ex2.prove(a[0] == al, 'created-by-its-alias'); return o
    def reads(ex2, ff, a, k):
        ex2.prove(a[0] == o, 'reads-itself')
        i = a[1]
        ex2.prove(I.class_of(ex2, i) == G(ex2, 'pyamf.amf3.DataInput') and attr(ex2, i, 'decoder') == d.d and attr(ex2, i, 'stream') == d.st, 'data-input-on-this-decoder')
        same_bytes(ex2, meth(ex2, d.st, 'read', mkint(R.length(ex2, body))), body, 'what-was-written')
        T = tab(ex2, d.objs)
        ex2.prove(len(T.known) == 1 and T.known[0][1] == o, 'in-the-table-before-it-reads')
        calls.append(1)
    ex.ghost['scoped'] = {BYNAME: lookup, CREATE: create, READAMF: reads}
    if known:
        ex.assume(ci < d.nc)
        cd = call(ex, 'pyamf.amf3.ClassDefinition', al)
        I.setattr_(ex, cd, 'encoding', code)
        class One(AbsDict):
            def lookup(self, ex, dd, k): ex.prove(as_int(k) == ci, 'class-asked-for'); return cd
        cr = attr(ex, d.ctx, 'class_ref')
        reach('class_ref', lambda: setattr(ex.heap.w(cr.a), 'base', One('class_ref', None)))
    r = d.read()
    expect(ex, r, 'ok', 'read-external'); ex.cover('read known' if known else 'read new')
    ex.prove(r[1] == o and len(calls) == 1, 'external-object')
    d.consumed('external')
    tables(ex, d, 'external', o, 0 if known else 1, 0, 0 if known else 1)

def lemmas(world, tier):
    CON = dict(MODULAR); CON.update(CHILDREN); CON.update(NAMES); CON.update(SCOPED); CON.update((q, in_scope(q)) for q in (WRITEAMF, READAMF, BYNAME))
    L_ = lambda n, f, **k: Lemma('C07.' + n, f, contracts=CON, **k)
    obj = ('written new', 'written known', 'reference')
    both = ('written', 'reference')
    return [L_('write_list', write_list(False), cover=both), L_('write_tuple', write_list(True), cover=both), L_('read_list', read_list, cover=('read',)),
            L_('write_dict', write_object('dict', 'dynamic'), cover=obj), L_('write_anonymous', write_object('object', 'dynamic'), cover=obj)] + \
           [L_('write_typed_' + h, write_object('typed', h), cover=obj) for h in CONFIGS] + \
           [L_('write_external', write_external, cover=obj), L_('read_external', read_external, cover=('read known', 'read new'))] + \
           [L_('read_anonymous_dynamic', read_object('anonymous', 'dynamic'), cover=('read known', 'read new'))] + \
           [L_('read_typed_%s_%s' % (h, w), read_object('typed', h, w), cover=('read ' + ('known' if w == 'known' else 'new'),)) for h in ('dynamic', 'static') for w in ('known', 'new', 'named')]
