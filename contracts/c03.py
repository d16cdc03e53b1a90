"""Deductive part: every operation of the byte stream is proved against its contract over an arbitrary stream state (any
content, any position, cached length right or flagged stale), so the contracts compose over any sequence of operations;
the loop of peek carries an invariant and a variant.  What is not under contract here: positions beyond the content
(reachable by seek) and texts outside ASCII/UTF-8 written directly."""
from .lib import *
from pyvc import loops as L

class PeekLoop(L.Inv):
    """after k rounds: k bytes were taken, they are the k bytes after the starting position"""
    def enter(self, f):
        ex = f.ex
        self.ex = ex
        self.st = f.load('self')
        b = ex.heap.get(I.getattr_(ex, self.st, '_buffer').a)
        self.c, self.p = b.buf, b.pos
    def havoc(self, f, k):
        ex = self.ex
        n = R.length(ex, self.c)
        ex.assume(as_int(k) <= as_int(n) - as_int(self.p))
        size = f.load('size')
        ex.assume(z3.Or(as_int(size) < 0, as_int(k) <= as_int(size)))
        b = ex.heap.w(I.getattr_(ex, self.st, '_buffer').a)
        b.pos = tint(as_int(self.p) + as_int(k))
        any_cache(ex, self.st, self.c)
        f.store('bytes', R.slice_(ex, self.c, self.p, b.pos))
    def check(self, f, k):
        ex = self.ex
        b = ex.heap.get(I.getattr_(ex, self.st, '_buffer').a)
        same_bytes(ex, b.buf, self.c, 'peek-loop-content')
        check_cache(ex, self.st, self.c, 'peek-loop')
        ex.prove(as_int(b.pos) == as_int(self.p) + as_int(k), 'peek-loop-position')
        ex.prove(as_int(k) <= as_int(R.length(ex, self.c)) - as_int(self.p), 'peek-loop-bound')
        same_bytes(ex, f.load('bytes'), R.slice_(ex, self.c, self.p, tint(as_int(self.p) + as_int(k))), 'peek-loop-bytes')
        size = f.load('size')
        ex.prove(z3.Or(as_int(size) < 0, as_int(k) <= as_int(size)), 'peek-loop-size')
    def variant(self, f):
        b = self.ex.heap.get(I.getattr_(self.ex, self.st, '_buffer').a)
        return mkint(as_int(R.length(self.ex, self.c)) - as_int(b.pos))

def construct(ex):
    """a stream made of nothing, bytes or another stream has that content and is at its start"""
    k = ex.choice(3)
    c = b'' if k == 0 else R.sym_str(ex, 'c')
    src = None if k == 0 else c if k == 1 else BS(ex, c).st
    s = call(ex, 'pyamf.util.pure.BufferedByteStream', *([] if k == 0 else [src]))
    v = BS.__new__(BS); v.ex = ex; v.st = s
    v.check(c, 0, 'construct')

def read(ex):
    """read(n): the next n bytes, advancing by n; past the end (or everything, when at the end) IOError without moving"""
    b = BS(ex); n = R.length(ex, b.c)
    m = ex.int('n')
    r = result(ex, lambda: meth(ex, b.st, 'read', m))
    left = as_int(n) - as_int(b.p)
    if ex.branch(z3.Or(m.t < -1, z3.And(m.t == -1, left == 0), z3.And(m.t > 0, m.t > left))):
        ex.cover('refused')
        expect(ex, r, 'IOError', 'read-past-end')
        b.check(b.c, b.p, 'read-past-end')
        return
    ex.cover('read')
    expect(ex, r, 'ok', 'read-within')
    end = tint(z3.If(m.t == -1, as_int(n), as_int(b.p) + m.t))
    same_bytes(ex, r[1], R.slice_(ex, b.c, b.p, end), 'read-bytes')
    b.check(b.c, end, 'read')

def read_all(ex):
    """read() without a length: everything that is left, or IOError at the end"""
    b = BS(ex); n = R.length(ex, b.c)
    r = result(ex, lambda: meth(ex, b.st, 'read'))
    if ex.branch(as_int(b.p) == as_int(n)):
        expect(ex, r, 'IOError', 'read-all-at-end'); b.check(b.c, b.p, 'read-all-at-end'); return
    expect(ex, r, 'ok', 'read-all')
    same_bytes(ex, r[1], R.slice_(ex, b.c, b.p, n), 'read-all-bytes')
    b.check(b.c, n, 'read-all')

def peek(ex):
    """peek(n): what read(n) would give, or less at the end; nothing moves"""
    b = BS(ex); n = R.length(ex, b.c)
    m = ex.int('n', lo=-1)
    r = result(ex, lambda: meth(ex, b.st, 'peek', m))
    expect(ex, r, 'ok', 'peek-answers')
    left = as_int(n) - as_int(b.p)
    want = z3.If(z3.Or(m.t == -1, m.t > left), left, m.t)
    same_bytes(ex, r[1], R.slice_(ex, b.c, b.p, tint(as_int(b.p) + want)), 'peek-bytes')
    b.check(b.c, b.p, 'peek')

def peek_negative(ex):
    """peek(n) for n < -1 is refused and nothing moves"""
    b = BS(ex)
    m = ex.int('n', hi=-2)
    expect(ex, result(ex, lambda: meth(ex, b.st, 'peek', m)), 'ValueError', 'peek-backwards')
    b.check(b.c, b.p, 'peek-backwards')

def write(ex):
    """write(s): overwrites in place or extends, and advances by the length of s"""
    b = BS(ex); s = R.sym_str(ex, 's')
    expect(ex, result(ex, lambda: meth(ex, b.st, 'write', s)), 'ok', 'write')
    b.check(splice(ex, b.c, b.p, s), tint(as_int(b.p) + as_int(R.length(ex, s))), 'write')

def append(ex):
    """append(bytes, text or another stream) adds at the end and does not move"""
    b = BS(ex)
    k = ex.choice(3)
    s = R.sym_str(ex, 's', 'u' if k == 1 else 'b')
    arg = BS(ex, s, cached=1).st if k == 2 else s
    expect(ex, result(ex, lambda: meth(ex, b.st, 'append', arg)), 'ok', 'append')
    b.check(R.concat(ex, b.c, utf8_of(ex, s)), b.p, 'append')

def seek(ex):
    """seek within the content moves exactly there, for the three origins"""
    b = BS(ex); n = R.length(ex, b.c)
    t = ex.int('target', lo=0)
    ex.assume(t.t <= as_int(n))
    mode = ex.choice(4)
    if mode == 3: r = result(ex, lambda: meth(ex, b.st, 'seek', t))
    else:
        off = mkint(t.t - (0, as_int(b.p), as_int(n))[mode])
        r = result(ex, lambda: meth(ex, b.st, 'seek', off, mode))
    expect(ex, r, 'ok', 'seek')
    b.check(b.c, t.t, 'seek')

def consume(ex):
    """consume keeps exactly the unread tail, with the position at its start"""
    b = BS(ex); n = R.length(ex, b.c)
    expect(ex, result(ex, lambda: meth(ex, b.st, 'consume')), 'ok', 'consume')
    b.check(R.slice_(ex, b.c, b.p, n), 0, 'consume')

def truncate(ex):
    """truncate(n) keeps exactly the first n bytes"""
    b = BS(ex); n = R.length(ex, b.c)
    m = ex.int('n', lo=0)
    ex.assume(m.t <= as_int(n))
    expect(ex, result(ex, lambda: meth(ex, b.st, 'truncate', m)), 'ok', 'truncate')
    same_bytes(ex, buf(ex, b.st), R.slice_(ex, b.c, 0, m.t), 'truncate-content')
    ex.prove(as_int(call(ex, G(ex, 'pyamf.util.pure.BufferedByteStream.__len__'), b.st)) == m.t, 'truncate-len')

def add(ex):
    """a + b: a new stream with both contents, at its start; both operands unchanged (also when they are the same stream)"""
    a = BS(ex)
    b = a if ex.choice(2) else BS(ex)
    r = result(ex, lambda: meth(ex, a.st, '__add__', b.st))
    expect(ex, r, 'ok', 'add')
    v = BS.__new__(BS); v.ex = ex; v.st = r[1]
    ex.prove(r[1] != a.st and r[1] != b.st, 'add-new-stream')
    v.check(R.concat(ex, a.c, b.c), 0, 'add')
    a.check(a.c, a.p, 'add-left')
    b.check(b.c, b.p, 'add-right')

PEEK = {'pyamf.util.pure.BufferedByteStream.peek': PeekLoop}
def lemmas(world, tier):
    return [Lemma('C03.construct', construct), Lemma('C03.read', read, cover=('refused', 'read')), Lemma('C03.read_all', read_all),
            Lemma('C03.peek', peek, loops=PEEK), Lemma('C03.peek_negative', peek_negative, loops=PEEK), Lemma('C03.write', write),
            Lemma('C03.append', append), Lemma('C03.seek', seek), Lemma('C03.consume', consume), Lemma('C03.truncate', truncate),
            Lemma('C03.add', add)]
