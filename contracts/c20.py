"""Deductive part: the two conversions and the four date writers and readers, end to end, for every instant datetime can hold,
every offset and every decoder state: within half a millisecond everywhere and exact to the microsecond within 2^30 s of 1970
(32 years either side; the general rounding bound of doubles does not give more), plain dates exact.  Doubles are reals with
a relative error of 2^-53 per operation; naive date-times are integers of microseconds."""
from .coders import *
from pyvc import dates as D

US = 10**6
EXACT = 2**30 * US

def moment(ex, name='us', margin=0, kind='datetime'):
    u = ex.int(name, D.MIN_US + margin, D.MAX_US - margin)
    if kind == 'date': ex.assume(u.t % D.DAY == 0)
    return u.t, D.mk(ex, kind, u.t)

def offset(ex, name='offset'):
    """none, or any time difference below a day"""
    if ex.choice(2) == 0: return 0, None
    o = ex.int(name, -D.DAY, D.DAY)
    return o.t, D.mk(ex, 'timedelta', o.t)

def real(ex, x):
    x = I.num_term(ex, x)
    return I.to_real(x)

def near(ex, got, want, name):
    """got is a datetime: at most 500 microseconds from want, equal to it near 1970"""
    if not D.is_kind(ex, got, 'datetime'): return ex.prove(False, name + '-kind', repr(got))
    g = as_int(D.us_of(ex, got))
    want = as_int(want)
    if ex.branch(z3.And(want > -EXACT, want < EXACT)): ex.prove(g == want, name + '-exact')
    else: ex.prove(z3.And(g - want <= 500, want - g <= 500), name + '-millisecond')

def bounded(ex, err, near, a, b, name):
    """|err| < a when near, < b anyway (microseconds)"""
    ex.prove(z3.And(err < b, err > -b), name + '-error')
    ex.prove(z3.Implies(near, z3.And(err < a, err > -a)), name + '-error-near-epoch')
def assume_bounded(ex, err, near, a, b):
    ex.assume(z3.And(err < b, err > -b)); ex.assume(z3.Implies(near, z3.And(err < a, err > -a)))
Q = z3.Q
STAMP = (Q(1, 8), Q(32, 1))          # get_timestamp
WRITE = (Q(1, 4), Q(64, 1))          # the double of a date on the wire, in milliseconds
READ = (Q(5, 8), Q(64, 1))           # the date read from a double

def timestamp(ex):
    """get_timestamp is the number of seconds since 1970, fraction included, to the precision of a double; a plain date is midnight"""
    ex.ghost['fl_int'] = True
    kind = ('datetime', 'date')[ex.choice(2)]
    u, d = moment(ex, kind=kind)
    r = result(ex, lambda: call(ex, 'pyamf.util.get_timestamp', d)); expect(ex, r, 'ok', 'timestamp')
    e = real(ex, r[1]) * US - z3.ToReal(u)
    if kind == 'date': ex.prove(e == 0, 'timestamp-of-date-exact')
    bounded(ex, e, z3.And(u > -EXACT, u < EXACT), STAMP[0], STAMP[1], 'timestamp')

def round_trip(ex):
    """get_datetime(get_timestamp(d)) is d, before and after 1970"""
    u, d = moment(ex, margin=D.DAY)
    r = result(ex, lambda: call(ex, 'pyamf.util.get_datetime', call(ex, 'pyamf.util.get_timestamp', d))); expect(ex, r, 'ok', 'round-trip')
    near(ex, r[1], u, 'round-trip')

def c_timestamp(ex, f, a, k):
    u = as_int(D.us_of(ex, a[0]))
    t = z3.Real(ex.fresh('ts'))
    assume_bounded(ex, t * US - z3.ToReal(u), z3.And(u > -EXACT, u < EXACT), *STAMP)
    if D.is_kind(ex, a[0], 'date') and not D.is_kind(ex, a[0], 'datetime'): ex.assume(t * US == z3.ToReal(u))
    return SymFloat(t)
STAMPED = dict(MODULAR); STAMPED['pyamf.util.get_timestamp'] = c_timestamp
CALLEE['pyamf.util.get_timestamp'] = 'discharged by C20.timestamp'

def write(route):
    """route: 0 AMF0, 3 AMF3, 11 AMF3 inside AMF0"""
    def f(ex):
        kind = ('datetime', 'date')[ex.choice(2)]
        u, d = moment(ex, margin=4 * D.DAY, kind=kind)
        o, off = offset(ex)
        e = Enc(ex, 3 if route == 3 else 0, timezone_offset=off)
        if route == 11: I.setattr_(ex, e.e, 'use_amf3', True)
        ex.ghost[('fresh', keyname(ex, d))] = True
        r = e.write(d); expect(ex, r, 'ok', 'write-date')
        got = buf(ex, e.st)
        data = R.slice_(ex, got, R.length(ex, e.pre), R.length(ex, got))
        ps = R.parts_of(data)
        head = {0: b'\x0b', 3: b'\x08\x01', 11: b'\x11\x08\x01'}[route]; tail = b'\x00\x00' if route == 0 else b''
        ok = len(ps) == (3 if tail else 2) and isinstance(ps[0], R.Lit) and ps[0].s == head and isinstance(ps[1], R.Seg) and \
            ps[1].atom.meta and ps[1].atom.meta[0] == 'dbl' and (not tail or isinstance(ps[2], R.Lit) and ps[2].s == tail)
        ex.prove(bool(ok), 'date-layout', repr(data))
        if route != 11: ex.prove(as_int(tab(ex, e.objs).n) == e.n + 1, 'date-in-table')
        x = double_of(ex, ps[1].atom)
        w = u - o
        bounded(ex, x * 1000 - z3.ToReal(as_int(w)), z3.And(w > -EXACT, w < EXACT), WRITE[0], WRITE[1], 'date-written')
    f.__doc__ = 'a date or date-time through %s: marker, the milliseconds of the date minus the offset of the encoder as a double%s; one table entry' % \
        (NAMES[route], ', a zero timezone' if route == 0 else '')
    return f
NAMES = {0: 'AMF0', 3: 'AMF3', 11: 'AMF3 embedded in AMF0'}

def double_of(ex, atom):
    return reach('double', lambda: I.to_real(atom.meta[1] if isinstance(atom.meta[1], z3.ExprRef) else I.num_term(ex, atom.meta[1])))

def read(route):
    def f(ex):
        x = z3.Real(ex.fresh('ms'))
        lim = (D.MAX_US - 4 * D.DAY) // 1000
        ex.assume(z3.And(x > -lim, x < lim)); ex.assume(x > (D.MIN_US + 4 * D.DAY) // 1000)
        o, off = offset(ex)
        head = {0: b'\x0b', 3: b'\x08\x01', 11: b'\x11\x08\x01'}[route]
        zone = u16(ex.int('zone', 0, 65535).t) if route == 0 else []
        dd = Dec(ex, 3 if route == 3 else 0, by(head, dbl(ex, SymFloat(x)), zone), timezone_offset=off)
        r = dd.read(); expect(ex, r, 'ok', 'read-date')
        if not D.is_kind(ex, r[1], 'datetime'): return ex.prove(False, 'date-kind', repr(r[1]))
        g = as_int(D.us_of(ex, r[1]))
        bounded(ex, z3.ToReal(g - as_int(o)) - x * 1000, z3.And(x > -2**40, x < 2**40), READ[0], READ[1], 'date-read')
        dd.consumed('date')
        if route != 11:
            t = tab(ex, dd.objs)
            ex.prove(as_int(t.n) == dd.n + 1 and t.known[-1][1] == r[1], 'date-in-decoder-table')
    f.__doc__ = 'the date layout in %s with any double: the date of those milliseconds plus the offset of the decoder, once; one table entry' % NAMES[route]
    return f

def compose(ex):
    """what was written reads back as the same instant, shifted by the two offsets: exact near 1970, to the millisecond anywhere"""
    w = ex.int('w', D.MIN_US, D.MAX_US).t; g = ex.int('g').t
    x = z3.Real('ms')
    assume_bounded(ex, x * 1000 - z3.ToReal(w), z3.And(w > -EXACT, w < EXACT), *WRITE)
    assume_bounded(ex, z3.ToReal(g) - x * 1000, z3.And(x > -2**40, x < 2**40), *READ)
    ex.prove(z3.Implies(z3.And(w > -EXACT, w < EXACT), g == w), 'exact-near-epoch')
    ex.prove(z3.And(g - w <= 500, w - g <= 500), 'millisecond')

def refuse_time(ex):
    """a time of day is refused with an encoding error"""
    route = (0, 3, 11)[ex.choice(3)]
    t = D.mk(ex, 'time', ex.int('t', 0, D.DAY - 1).t)
    o, off = offset(ex)
    e = Enc(ex, 3 if route == 3 else 0, timezone_offset=off)
    if route == 11: I.setattr_(ex, e.e, 'use_amf3', True)
    expect(ex, e.write(t), 'EncodeError', 'time-refused')
    if route != 11: e.wrote(b'', 'time-nothing-written')

def date_reference(ex):
    """AMF3: the same date object again is written as a reference to its table entry"""
    u, d = moment(ex, margin=4 * D.DAY)
    o, off = offset(ex)
    e = Enc(ex, 3, timezone_offset=off)
    ex.ghost[('fresh', keyname(ex, d))] = True
    expect(ex, e.write(d), 'ok', 'write-date')
    e.pre = buf(ex, e.st)
    expect(ex, e.write(d), 'ok', 'write-again')
    e.wrote(by(b'\x08', u29(ex, 2 * e.n)), 'date-by-reference')

def lemmas(world, tier):
    L = lambda n, f, **k: Lemma('C20.' + n, f, contracts=k.pop('contracts', MODULAR), **k)
    return [L('timestamp', timestamp), L('round_trip', round_trip), L('compose', compose)] + \
        [L('write_' + n, write(r), contracts=STAMPED) for r, n in ((0, 'amf0'), (3, 'amf3'), (11, 'embedded'))] + \
        [L('read_' + n, read(r)) for r, n in ((0, 'amf0'), (3, 'amf3'), (11, 'embedded'))] + \
        [L('refuse_time', refuse_time), L('date_reference', date_reference)]
