from contracts.graphs import *
from pyamf import util, remoting

EPOCH = datetime.datetime(1970, 1, 1)
class TZ(datetime.tzinfo):
    def __init__(self, m): self.m = m
    def utcoffset(self, d): return datetime.timedelta(minutes=self.m)
    def dst(self, d): return datetime.timedelta(0)
    def tzname(self, d): return 'x'
def micros(d):
    """microseconds since 1970, exactly"""
    t = d - EPOCH
    return (t.days * 86400 + t.seconds) * 10**6 + t.microseconds
def g_dt(r):
    k = r.randrange(6)
    if k == 0: return r.choice(FIXED)
    y = r.choice([1, 4, 1583, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2038, 2100, 9999]) if k < 4 else r.randrange(1, 10000)
    m = r.randrange(1, 13)
    return (y, m, r.randrange(1, calendar.monthrange(y, m)[1] + 1) if k < 3 else r.choice([1, 28]), r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]),
            r.choice([0, 1, 999999, 500000, 999, 1000, r.randrange(10**6), r.randrange(1000) * 1000]))
FIXED = [(1970, 1, 1, 0, 0, 0, 0), (1970, 1, 1, 0, 0, 0, 1), (1969, 12, 31, 23, 59, 59, 999999), (1969, 12, 31, 23, 59, 59, 0), (1969, 12, 31, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0, 0), (9999, 12, 31, 23, 59, 59, 999000), (1900, 2, 28, 12, 0, 0, 0),
         (2000, 2, 29, 0, 0, 0, 0), (1900, 3, 1, 0, 0, 0, 0), (2038, 1, 19, 3, 14, 7, 0), (2038, 1, 19, 3, 14, 8, 0), (1901, 12, 13, 20, 45, 52, 0), (1901, 12, 13, 20, 45, 51, 0), (1582, 10, 10, 0, 0, 0, 0), (1999, 12, 31, 23, 59, 59, 999999), (1960, 2, 29, 23, 59, 59, 1000)]

def tol(d): return 0 if d.microsecond == 0 else 1 if 1700 < d.year < 2240 else 50

@contract('C20', g_dt, FIXED)
def timestamp(t):
    """a date-time's timestamp is its distance from 1970 in seconds, and converts back to the same instant"""
    d = datetime.datetime(*t)
    s = util.get_timestamp(d); n = micros(d)
    ensure(isinstance(s, (float, int, long)), '%s', s)
    if t[6] == 0: ensure(s == n / 10**6, '%s has the timestamp %s', d, s)
    else: ensure(abs(s - n / 1e6) <= 5e-5 and (tol(d) > 1 or abs(int(round(s * 10**6)) - n) <= 1), '%s has the timestamp %s', d, s)
    back = util.get_datetime(s)
    ensure(type(back) is datetime.datetime and back.tzinfo is None and abs(micros(back) - n) <= tol(d), '%s came back as %s', d, back)
    day = datetime.date(*t[:3])
    ensure(util.get_timestamp(day) == micros(datetime.datetime(*t[:3])) / 10**6, '%s has the timestamp %s', day, util.get_timestamp(day))

@contract('C20', lambda r: g_int(r, -62135596800, 253402300799) if r.randrange(3) else g_int(r, -62135596800000, 253402300799000) / 1000.0, [0, -1, 1, -0.001, 0.5, -0.5, 86399, 86400, -86400, -86401, 2**31, -2**31 - 1, 1e9 + 0.001])
def datetime_of(s):
    """a number of seconds since 1970 is the instant that far from it"""
    d = util.get_datetime(s)
    ensure(abs(micros(d) - s * 10**6) <= 50 if isinstance(s, float) else micros(d) == s * 10**6, '%s became %s', s, d)
    ensure(abs(util.get_timestamp(d) - s) <= 5e-5, '%s became %s', s, util.get_timestamp(d))

@contract('C20', lambda r: (g_dt(r), r.randrange(-14 * 60, 14 * 60)), [(FIXED[8], m) for m in (0, 60, -90, 720)])
def aware(case):
    """an aware date-time's timestamp is the instant it names"""
    t, m = case
    if not 2 < t[0] < 9998: return
    d = datetime.datetime(*t, tzinfo=TZ(m))
    n = micros(datetime.datetime(*t)) - m * 60 * 10**6
    ensure(abs(util.get_timestamp(d) - n / 1e6) <= 5e-5, '%s has the timestamp %s', d, util.get_timestamp(d))

def off(s): return None if s is None else datetime.timedelta(seconds=s)
WAYS = ('amf0', 'amf3', 'embedded', 'remoting0', 'remoting3', 'roheader')
def transmit(values, way, a, b):
    """encodes with offset a, decodes with offset b"""
    if way.startswith('remoting') or way == 'roheader':
        e = remoting.Envelope(3 if way != 'remoting0' else 0)
        if way == 'roheader': e.headers['h'] = values; e['/1'] = remoting.Response(None)
        else: e['/1'] = remoting.Request('t', body=[values])
        out = remoting.decode(remoting.encode(e, timezone_offset=off(a), use_ext=False).getvalue(), timezone_offset=off(b))
        return out.headers['h'] if way == 'roheader' else out['/1'].body[0]
    if way == 'embedded':
        st = BufferedByteStream()
        enc = encoder(pyamf.AMF0, stream=st, timezone_offset=off(a)); enc.use_amf3 = True
        enc.writeElement(values)
        return decoder(pyamf.AMF0, st.getvalue(), timezone_offset=off(b)).readElement()
    n = int(way[-1])
    return decoder(n, encode(values, encoding=n, timezone_offset=off(a)).getvalue(), timezone_offset=off(b)).readElement()

def g_shift(r): return [(g_dt(r), r.choice(['dt', 'dt', 'date'])) for _ in range(r.randrange(1, 4))], r.choice(WAYS), r.choice([None, 0, 3600, -3600, 86400, r.randrange(-50000, 50000)]), r.choice([None, 0, 3600, -7200, r.randrange(-50000, 50000)])
@contract('C20', g_shift, [([(FIXED[8], k), (FIXED[3], k)], w, a, b) for k in ('dt', 'date') for w in WAYS for a in (None, 0, 3600, -90000) for b in (None, 0, -7200, 90000)], weight=2)
def offsets(case):
    """the encoder's offset is subtracted once and the decoder's added once, whichever way the date travels"""
    ts, way, a, b = case
    if [1 for t, _ in ts if not 3 < t[0] < 9997]: return
    ds = [datetime.datetime(*t[:6] + (t[6] // 1000 * 1000,)) if k == 'dt' else datetime.date(*t[:3]) for t, k in ts]
    got = transmit(ds + [ds[0]], way, a, b)
    ensure(len(got) == len(ds) + 1, '%s', got)
    for d, g in zip(ds + [ds[0]], got):
        full = d if isinstance(d, datetime.datetime) else datetime.datetime(d.year, d.month, d.day)
        want = full - datetime.timedelta(seconds=a or 0) + datetime.timedelta(seconds=b or 0)
        ensure(type(g) is datetime.datetime and abs(micros(g) - micros(want)) <= tol(full) * 4, '%s (by %s, %s, %s) became %s, expected %s', d, way, a, b, g, want)

@contract('C20', lambda r: (g_dt(r), r.choice([0, 3]), r.choice([None, 3600, -3600])), [(t, e, o) for t in FIXED for e in (0, 3) for o in (None, 3600)])
def layout(case):
    """a date is written as its milliseconds since 1970, after the offset is subtracted; a time of day is refused"""
    t, enc, o = case
    if o and not 2 < t[0] < 9998: return
    t = t[:6] + (t[6] // 1000 * 1000,)
    d = datetime.datetime(*t)
    b = encode(d, encoding=enc, timezone_offset=off(o)).getvalue()
    ms = (micros(d) - (o or 0) * 10**6) // 1000
    pre, suf = ('\x0b', '\0\0') if enc == 0 else ('\x08\x01', '')
    ensure(b[:len(pre)] == pre and b[len(pre) + 8:] == suf, '%s', b)
    v = struct.unpack('!d', b[len(pre):len(pre) + 8])[0]
    ensure(v == ms if t[6] == 0 else abs(v - ms) < 0.02, '%s is written as %s, expected %s', d, v, ms)
    for x in (d.time(), [d.time()], {'a': d.time()}, [datetime.time(0, 0)]):
        raises(pyamf.EncodeError, encode, x, encoding=enc)
        raises(pyamf.EncodeError, encode, x, encoding=enc, timezone_offset=off(o))
