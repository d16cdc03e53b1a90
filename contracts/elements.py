"""Containers over their children.  The children are arbitrary values under the induction hypothesis of the round trip:
writing child k appends one chunk of bytes that does not start with the end marker and adds cnt(k) entries to each reference
table; reading that chunk consumes it, gives child k back and adds the same number of entries."""
from .coders import *
from pyvc import loops as L

def count_fn(which, lid): return z3.Function('adds %s:%s' % (which, lid), z3.IntSort(), z3.IntSort())
def total_fn(which, lid): return z3.Function('added %s:%s' % (which, lid), z3.IntSort(), z3.IntSort())

class Els(object):
    """n children, with names when they are attributes (names='u' | 'b' | 'int')"""
    def __init__(self, ex, name, names=None, n=None, amf=0, minname=0, whole=None, what='both'):
        self.ex = ex; self.lid = ex.fresh(name); self.amf = amf; self.names = names; self.minname = minname
        self.whole = whole or self; self.id = self.whole.lid; self.what = what
        self.n = ex.int('n', lo=0).t if n is None else n
        ex.loopseg[self.lid] = self
        self.inv = None; self.codec = None; self.parts = {}
        self.stops = list(self.whole.stops) if whole is not None else [self.n]     # where a stretch of children may end
        for w in self.tables(): ex.assume(total_fn(w, self.lid)(0) == 0)
    def part(self, what):
        """only the names, or only the values, of the children, as they appear apart from one another on the wire"""
        if what not in self.parts:
            p = self.parts[what] = Els(self.ex, self.id + ' ' + what, self.names, self.n, self.amf, self.minname, self, what)
            p.codec = self.codec
        return self.parts[what]
    def tables(self): return ('objects',) if self.amf == 0 else ('objects', 'strings', 'classes')
    def item(self, ex, k): return Opaque(self.id, (as_int(k),), {'elem': (self.whole, as_int(k))})
    def named(self): return self.names and self.what != 'values'
    def valued(self): return self.what != 'names'
    def cnt(self, ex, w, k):
        """table entries that child k adds: its name (its text is in the table or joins it), its value"""
        t = 0
        if self.named() and w == 'strings':
            c = count_fn('name', self.id)(as_int(k)); ex.assume(z3.And(c >= 0, c <= 1)); t = c
        if self.valued():
            c = count_fn(w, self.id)(as_int(k)); ex.assume(c >= 0); t = c + t
        return as_int(t)
    def tot(self, ex, w, k):
        if not self.valued() and w != 'strings': return z3.IntVal(0)       # names add to no other table
        t = total_fn(w, self.lid)(as_int(k)); ex.assume(t >= 0); return t
    def key_int(self, k): return z3.Function('key:%s' % self.id, z3.IntSort(), z3.IntSort())(as_int(k))
    def name(self, ex, k):
        """the name of child k, as the program has it"""
        if self.names == 'int': return SymInt(self.key_int(k), 'int')
        s = R.sym_str(ex, 'name ' + self.id, self.names, ix=(as_int(k),), minlen=self.minname)
        u = utf8_of(ex, s)
        if self.amf == 0: ex.assume(as_int(R.length(ex, u)) <= 65535)
        if self.names == 'u': ex.assume(z3.Not(z3.Bool('isint:' + R.key(s))))
        return s
    def wire(self, ex, k):
        """the bytes of its text"""
        if self.names == 'int': return R.atom_rope(R.decimal_atom(ex, self.key_int(k), 'b'))
        return utf8_of(ex, self.name(ex, k))
    def is_name(self, ex, s):
        """the index of the child of this name"""
        if not isinstance(s, R.Rope) or len(s.parts) != 1 or not isinstance(s.parts[0], R.Seg): return None
        at = s.parts[0].atom
        if self.names == 'int':
            if not (at.meta and at.meta[0] in ('decimal', 'udecimal')): return None
            t = at.meta[1]
            return t.arg(0) if z3.is_app(t) and t.decl().name() == 'key:%s' % self.id else None
        if len(at.ix) != 1: return None
        return at.ix[0] if R.key(s) in (R.key(self.name(ex, at.ix[0])), R.key(self.wire(ex, at.ix[0]))) else None
    def name_chunk(self, ex, k): return R.Atom(ex, self.id + '.name', (as_int(k),), 'b', None, ('enc', 'name', self.whole, as_int(k)), 1)
    def name_parts(self, ex, k):
        w = self.wire(ex, k)
        if self.amf == 0: return u16(R.length(ex, w)) + R.parts_of(w)
        return R.parts_of(R.atom_rope(self.name_chunk(ex, k)))
    def chunk(self, ex, k):
        a = R.Atom(ex, self.id + '.enc', (as_int(k),), 'b', None, ('enc', 'child', self.whole, as_int(k)), 1)
        ex.assume(a.at(ex, 0) != 9) if self.amf == 0 else None
        return a
    def rope_item(self, ex, k):
        return (self.name_parts(ex, k) if self.named() else []) + ([R.whole(self.chunk(ex, k))] if self.valued() else [])
    def size(self, ex, k):
        t = 0
        for p in self.rope_item(ex, k): t = as_int(t) + as_int(R.part_len(ex, p))
        return t
    def minsize(self): return (1 if self.valued() else 0) + ((2 + self.minname if self.amf == 0 else 1) if self.named() else 0)
    def step(self, ex, k):
        """what is known of items 0..k and item k"""
        k = tint(as_int(k))
        ki = as_int(k); key = ('step', self.lid, ki.get_id(), len(self.stops))
        if key in ex.memo: return
        ex.memo[key] = ki
        if not isinstance(k, int) or k >= 0:
            nx = tint(as_int(k) + 1)
            ll = lambda a, b: R.loop_len(ex, self.lid, a, b)
            ex.assume(ll(0, nx) == ll(0, k) + self.size(ex, k))
            m = self.minsize()          # every item has at least this many bytes
            ex.assume(z3.And(ll(0, k) >= m * as_int(k), ll(0, nx) >= m * as_int(nx)))
            for j in (k, nx):
                for e in self.stops: ex.assume(z3.Implies(as_int(j) <= as_int(e), z3.And(ll(j, e) >= m * (as_int(e) - as_int(j)), ll(0, e) == ll(0, j) + ll(j, e))))
            R.note_split(ex, self.lid, 0, k, nx)
            for w in self.tables(): ex.assume(self.tot(ex, w, nx) == self.tot(ex, w, k) + self.cnt(ex, w, k))
    def upto(self, ex, k, lo=0): return R.mk('b', [R.RLoop(self.lid, lo, k)])
    def make(self, it, lo, hi, inv, name=None):
        hi = self.n if hi is None else hi
        return L.Piece(tint(as_int(hi) - as_int(lo)), lambda ex, k: it(ex, tint(as_int(lo) + as_int(k))), name or self.lid, inv and (lambda: inv(lo)),
                       lambda a, b: self.make(it, tint(as_int(lo) + as_int(a)), tint(as_int(lo) + as_int(b)), inv, name))
    def piece(self, lo=0, hi=None): return self.make(self.item, lo, hi, self.inv)
    def names_piece(self, lo=0, hi=None, key=None, inv=None): return self.make(key or self.name, lo, hi, inv or self.inv, self.lid + ' names')
    def pairs(self, lo=0, hi=None, key=None):
        key = key or self.name
        return self.make(lambda ex, j: (key(ex, j), self.item(ex, j)), lo, hi, self.inv)

class Seq(object):
    """a dict: the children lo..hi under their names, in order"""
    def __init__(self, els, hi=None, key=None, lo=0): self.els = els; self.hi = els.n if hi is None else hi; self.key = key or els.name; self.lo = lo
    def with_(self, **k):
        s = Seq(self.els, self.hi, self.key, self.lo); s.__dict__.update(k); return s
    def clone(self, ex, d): return self
    def same_key(self, ex, k, j):
        n = self.key(ex, j)
        if isinstance(n, (int, SymInt)): return isinstance(k, (int, SymInt)) and not isinstance(k, bool) and I.num_eq(ex, n, k)
        if not (R.is_text(k) and R.kind_of(n) == R.kind_of(k)): return False
        return R.key(n) == R.key(k) or (R.is_text(k) and not isinstance(k, R.Rope) and ex.valid(as_bool(R.eq(ex, k, n))))
    def index(self, ex, k):
        if R.is_text(k) and not isinstance(k, R.Rope) and not k and self.els.minname: return None
        if isinstance(k, R.Rope) and len(k.parts) == 1 and isinstance(k.parts[0], R.Seg):
            j = k.parts[0].atom.ix
            if len(j) == 1 and self.same_key(ex, k, j[0]): return j[0]
        if isinstance(k, SymInt) and z3.is_app(k.t) and k.t.decl().name() == 'key:%s' % self.els.id: return k.t.arg(0)
        return MISS
    def lookup(self, ex, d, k):
        j = self.index(ex, k)
        if j is None: return MISS
        if j is MISS:
            if not ex.branch(z3.Bool('%s has %s' % (self.els.id, keyname(ex, k)))): return MISS
            raise OutOfReach('an arbitrary name of %s' % self.els.lid)
        return self.els.item(ex, j) if ex.branch(z3.And(j >= as_int(self.lo), j < as_int(self.hi))) else MISS
    def set(self, ex, d, k, v):
        j = self.index(ex, k)
        if j is not None and j is not MISS: ex.prove(j == as_int(self.hi), 'each-value-under-its-own-name', '%s / %s' % (j, self.hi))
        else: ex.prove(as_bool(self.same_key(ex, k, self.hi)), 'each-value-under-its-own-name', '%r / %r' % (k, self.key(ex, self.hi)))
        ex.prove(as_bool(I.is_(ex, v, self.els.item(ex, self.hi))), 'the-value-of-that-name', repr(v))
        ex.heap.w(d.a).base = self.with_(hi=tint(as_int(self.hi) + 1))
        return True
    def delete(self, ex, d, k):
        j = self.index(ex, k)
        if j is None or j is MISS: raise OutOfReach('removing an arbitrary name of %s' % self.els.lid)
        if not ex.branch(z3.And(j >= as_int(self.lo), j < as_int(self.hi))): return False
        if ex.valid(j == as_int(self.lo)): ex.heap.w(d.a).base = self.with_(lo=tint(as_int(self.lo) + 1)); return True
        raise OutOfReach('removing from the middle of %s' % self.els.lid)
    def items(self, ex, d): return [self.els.pairs(self.lo, self.hi, self.key)] + list(ex.heap.get(d.a).ent.values()) + list(ex.heap.get(d.a).sym)
    def nonempty(self, ex, d): return as_int(self.hi) > as_int(self.lo)
    def len(self, ex, d): return mkint(as_int(self.hi) - as_int(self.lo))

def as_bool(c): return z3.BoolVal(c) if isinstance(c, bool) else c

def seq_dict(ex, els, **k):
    d = ex.heap.new(HDict()); ex.heap.w(d.a).base = Seq(els, **k); return d

def is_seq(ex, d, els, hi, name, key=None, lo=0):
    """obligation: this dict is exactly the children lo..hi under their names"""
    r = ex.heap.get(I.as_dict(ex, d).a)
    b = r.base
    if b is None:
        ex.prove(not r.ent and not r.sym, name, 'other entries: %r %r' % (list(r.ent)[:4], r.sym[:2]))
        return ex.prove(as_int(hi) == as_int(lo), name, 'empty')
    ex.prove(isinstance(b, Seq) and b.els is els and not r.ent and not r.sym, name, 'other entries: %r %r' % (list(r.ent)[:4], r.sym[:2]))
    ex.prove(z3.And(as_int(b.hi) == as_int(hi), as_int(b.lo) == as_int(lo)), name, 'entries %s..%s' % (b.lo, b.hi))
    if key is not None: ex.prove(b.key == key, name, 'keys')

def is_list(ex, l, els, hi, name):
    """obligation: this list is exactly the children 0..hi in order"""
    off = 0
    for x in ex.heap.get(I.as_list(ex, l).a).items:
        if I.is_piece(x):
            ex.prove(x.name == els.lid and as_int(off) == 0 if isinstance(off, int) else False, name, 'a piece of something else')
            off = x.n
        else:
            ex.prove(as_bool(I.is_(ex, x, els.item(ex, off))), name, '%r at %s' % (x, off)); off = tint(as_int(off) + 1)
    ex.prove(as_int(off) == as_int(hi), name, 'length %s' % off)

def grow(ex, t, delta):
    """a table has got delta unknown entries more"""
    T = tab(ex, t)
    tab_put(ex, t, as_int(T.n) + as_int(delta), T.known)
    for k in [k for k, v in ex.memo.items() if isinstance(k, tuple) and k[0] == 'prior' and k[1] == t.a and v is None]: del ex.memo[k]
    for k in [k for k in ex.ghost if isinstance(k, tuple) and k[0] == 'fresh']: del ex.ghost[k]

def codec_tables(ex, C):
    """the tables of a codec harness (Enc or Dec) by name"""
    out = {'objects': C.objs}
    if C.amf == 3: out['strings'] = C.strs
    return out

def classes(ex, C): return as_int(I.getattr_(ex, C.ctx, 'class_idx'))

def children_added(ex, C, els, k, what='values'):
    els = els.part(what)
    for w, t in codec_tables(ex, C).items(): grow(ex, t, els.cnt(ex, w, k))
    if C.amf == 3: I.setattr_(ex, C.ctx, 'class_idx', mkint(classes(ex, C) + els.cnt(ex, 'classes', k)))

# ---- contracts of writing and reading a child
def c_write(ex, f, a, k):
    v = a[1]
    if not (isinstance(v, Opaque) and 'elem' in v.props): return NotImplemented
    els, j = v.props['elem']
    meth(ex, I.getattr_(ex, a[0], 'stream'), 'write', R.atom_rope(els.chunk(ex, j)))
    children_added(ex, els.codec, els, j)
    return None

def at_chunk(ex, st, what):
    b = reach('stream', lambda: ex.heap.w(I.getattr_(ex, st, '_buffer').a))
    if not isinstance(b.buf, R.Rope): return None
    _, right = R.cut(ex, R.parts_of(b.buf), b.pos)
    while right and isinstance(right[0], R.RLoop): right[0:1] = R.unfold_first(ex, right[0])
    if not right: return None
    p = right[0]
    if isinstance(p, R.Seg) and p.atom.meta and p.atom.meta[0] == 'enc' and p.atom.meta[1] == what and R.same_term(p.lo, 0):
        b.pos = tint(as_int(b.pos) + as_int(R.part_len(ex, p)))
        return p.atom.meta[2], p.atom.meta[3]
    return None

def c_read(ex, f, a, k):
    r = at_chunk(ex, I.getattr_(ex, a[0], 'stream'), 'child')
    if r is None: return NotImplemented
    els, j = r
    children_added(ex, els.codec, els, j)
    return els.item(ex, j)

def c_name(ex, f, a, k):
    """a name is written as one chunk (inline or a reference: C05) that may add its text to the string table"""
    for els in ex.ghost.get('named', ()):
        j = els.is_name(ex, a[1])
        if j is not None:
            meth(ex, I.getattr_(ex, a[0], 'stream'), 'write', R.atom_rope(els.name_chunk(ex, j)))
            children_added(ex, els.codec, els, j, 'names')
            return None
    return NotImplemented

def c_name_read(ex, f, a, k):
    r = at_chunk(ex, I.getattr_(ex, a[0], 'stream'), 'name')
    if r is None: return NotImplemented
    els, j = r
    children_added(ex, els.codec, els, j, 'names')
    return els.wire(ex, j)

NAMES = {'pyamf.amf3.Encoder.serialiseString': c_name, 'pyamf.amf3.Encoder.serialiseBytes': c_name, 'pyamf.amf3.Decoder.readBytes': c_name_read}
for q in NAMES: CALLEE[q] = 'of a name: discharged by the lemmas of C05'

CHILDREN = {'pyamf.codec.Encoder.writeElement': c_write, 'pyamf.codec.Decoder.readElement': c_read}
for q in CHILDREN: CALLEE[q] = 'of a child: the induction hypothesis over the structure of the value (of the container itself: executed)'

# ---- loops over the children
class Loop(L.Inv):
    """shared part: the stream and the tables"""
    def __init__(self, els, lo=0): self.els = els; self.lo = lo
    def at(self, k): return tint(as_int(self.lo) + as_int(k))
    def added(self, w, k): return self.els.tot(self.ex, w, self.at(k)) - self.els.tot(self.ex, w, self.lo)
    def enter(self, f):
        ex = self.ex = f.ex; C = self.C = self.els.codec
        b = ex.heap.get(sio(ex, C.st).a)
        self.buf0, self.pos0 = b.buf, b.pos
        self.t0 = dict((w, tab(ex, t)) for w, t in codec_tables(ex, C).items())
        if C.amf == 3: self.c0 = classes(ex, C)
    def put_tables(self, k):
        ex = self.ex
        for w, t in codec_tables(ex, self.C).items():
            tab_put(ex, t, self.t0[w].n, self.t0[w].known); grow(ex, t, self.added(w, k))
        if self.C.amf == 3: I.setattr_(ex, self.C.ctx, 'class_idx', mkint(self.c0 + self.added('classes', k)))
    def check_tables(self, k):
        ex = self.ex
        for w, t in codec_tables(ex, self.C).items():
            T = tab(ex, t)
            ex.prove(as_int(T.n) == as_int(self.t0[w].n) + self.added(w, k), 'loop-table-' + w)
            ex.prove(T.known == self.t0[w].known, 'loop-entries-' + w, '%r / %r' % (T.known, self.t0[w].known))
        if self.C.amf == 3: ex.prove(classes(ex, self.C) == self.c0 + self.added('classes', k), 'loop-table-classes')

class WriteLoop(Loop):
    """after k rounds: the bytes before the loop and those of children 0..k, and the table entries these added"""
    def enter(self, f):
        Loop.enter(self, f)
        self.ex.prove(as_int(self.pos0) == as_int(R.length(self.ex, self.buf0)), 'loop-starts-at-the-end')
    def want(self, k):
        self.els.step(self.ex, self.at(k)); R.note_split(self.ex, self.els.lid, self.lo, self.at(k), tint(as_int(self.at(k)) + 1)); R.note_split(self.ex, self.els.lid, 0, self.lo, self.at(k))
        return R.concat(self.ex, self.buf0, self.els.upto(self.ex, self.at(k), self.lo))
    def havoc(self, f, k):
        ex = self.ex
        c = self.want(k)
        b = ex.heap.w(sio(ex, self.C.st).a); b.buf = c; b.pos = R.length(ex, c)
        any_cache(ex, self.C.st, c); self.put_tables(k)
    def check(self, f, k):
        ex = self.ex
        b = ex.heap.get(sio(ex, self.C.st).a); c = self.want(k)
        same_bytes(ex, b.buf, c, 'loop-bytes')
        ex.prove(as_int(b.pos) == as_int(R.length(ex, c)), 'loop-position')
        check_cache(ex, self.C.st, c, 'loop'); self.check_tables(k)

class ReadLoop(Loop):
    """after k rounds: children 0..k were consumed and are in place, in order"""
    def place(self, k): return tint(as_int(self.pos0) + R.loop_len(self.ex, self.els.lid, 0, k))
    def read_state(self, k):
        ex = self.ex; els = self.els
        els.step(ex, k)
        for e in els.stops: R.note_split(ex, els.lid, 0, k, e); R.note_split(ex, els.lid, 0, tint(as_int(k) + 1), e)
        b = ex.heap.w(sio(ex, self.C.st).a); b.pos = self.place(k)
        any_cache(ex, self.C.st, self.buf0); self.put_tables(k)
    def havoc(self, f, k): self.read_state(k); self.put(f, k)
    def check(self, f, k):
        ex = self.ex
        b = ex.heap.get(sio(ex, self.C.st).a)
        same_bytes(ex, b.buf, self.buf0, 'loop-content')
        ex.prove(as_int(b.pos) == as_int(self.place(k)), 'loop-position')
        check_cache(ex, self.C.st, self.buf0, 'loop'); self.check_tables(k); self.test(f, k)

class ReadList(ReadLoop):
    """... in the list added last to the object table"""
    def enter(self, f):
        ReadLoop.enter(self, f)
        self.l = self.t0['objects'].known[-1][1]
    def put(self, f, k): self.ex.heap.w(I.as_list(self.ex, self.l).a).items[:] = [self.els.piece(0, k)]
    def test(self, f, k): is_list(self.ex, self.l, self.els, k, 'loop-list')

def base_of(ex, d): return I.as_dict(ex, d)
class MapLoop(L.Inv):
    """a loop that moves children, under a key computed from their names, into the container added last to the object table"""
    def __init__(self, els, key): self.els = els; self.key = key
    def enter(self, f):
        self.ex = f.ex
        self.d = base_of(f.ex, tab(f.ex, self.els.codec.objs).known[-1][1])
    def havoc(self, f, k): self.ex.heap.w(self.d.a).base = Seq(self.els, k, self.key)
    def check(self, f, k): is_seq(self.ex, self.d, self.els, k, 'loop-entries', self.key if self.ex.heap.get(self.d.a).base is not None else None)
