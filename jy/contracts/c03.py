from hlib import *
from pyamf import util
from StringIO import StringIO

class File(object):
    def __init__(self, s): self.f = StringIO(s)
    def read(self, n=-1): return self.f.read(n)
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()

def g_op(r):
    k = r.randrange(20)
    if k < 3: return ('read', r.choice([0, 1, 1, 2, 3, 4, 7, 20, 100, -1, -1, -2, -7]))
    if k < 5: return ('peek', r.choice([0, 1, 2, 3, 5, 30, -1, -2]))
    if k < 8: return ('write', g_bytes(r, 6))
    if k == 8: return ('append', g_bytes(r, 6))
    if k == 9: return ('append', g_uni(r, 4))
    if k == 10: return ('appends', g_bytes(r, 6), r.randrange(0, 4))
    if k < 13: return ('seek', r.randrange(0, 1000), 0)
    if k == 13: return ('seek', r.randrange(-20, 20), 1)
    if k == 14: return ('seek', -r.choice([0, 0, 1, 2, 5]), 2)
    if k == 15: return ('consume',)
    if k == 16: return ('truncate', r.randrange(0, 1000))
    if k == 17: return ('add', g_bytes(r, 6), r.randrange(0, 8))
    if k == 18: return ('utf8', r.choice([0, 1, 2, 3, 8]))
    return ('wutf8', g_uni(r, 4) if r.randrange(2) else g_bytes(r, 4))
def g(r): return (g_bytes(r, 12), [g_op(r) for _ in range(r.randrange(1, 12))])

def agree(st, m, p, what):
    v = st.getvalue()
    ensure(v == m, 'after %s the content is %s, expected %s', what, v, m)
    ensure(st.tell() == p, 'after %s the position is %s, expected %s', what, st.tell(), p)
    ensure(len(st) == len(m), 'after %s the length is %s, expected %s', what, len(st), len(m))
    ensure(st.remaining() == len(m) - p, 'after %s %s bytes remain, expected %s', what, st.remaining(), len(m) - p)
    ensure(st.at_eof() == (p == len(m)), 'after %s at_eof is %s', what, st.at_eof())
    ensure(st.tell() == p, 'asking moved the position')

@contract('C03', g, [('', [('write', 'a'), ('seek', 0, 0), ('read', 1), ('read', 1)]), ('abc', [('add', '', 0)]), ('', [('add', 'abc', 2)]), ('spam', [('seek', 1, 0), ('add', 'abc', 1)]), ('spam', [('seek', 3, 0), ('add', 'abc', 3)]),
                     ('abcdef', [('read', 2), ('consume',), ('read', 9), ('append', 'gh'), ('read', -1), ('read', -1)]),
                     ('abcdef', [('truncate', 3), ('write', 'xy'), ('truncate', 0), ('write', 'q')])], shrink=False)
def history(c):
    """content, position, length, remaining count and end test agree with a plain byte string after every operation"""
    m, ops = c
    st = util.BufferedByteStream(m)
    p = 0
    agree(st, m, p, 'construction')
    for i, op in enumerate(ops):
        k = op[0]; what = '%s (step %d of %r)' % (op, i, ops)
        if k == 'read':
            n = op[1]
            if n < -1 or (n == -1 and p == len(m)) or n > len(m) - p: raises(IOError, st.read, n)
            else:
                w = m[p:] if n == -1 else m[p:p + n]
                v = st.read() if n == -1 else st.read(n)
                ensure(v == w, 'read(%s) at %s of %s gives %s', n, p, m, v)
                p += len(w)
        elif k == 'peek':
            n = op[1]
            if n < -1: raises(ValueError, st.peek, n)
            else:
                w = m[p:] if n == -1 else m[p:p + n]
                v = st.peek(n)
                ensure(v == w, 'peek(%s) at %s of %s gives %s', n, p, m, v)
        elif k == 'write':
            st.write(op[1])
            m = m[:p] + op[1] + m[p + len(op[1]):]; p += len(op[1])
        elif k == 'wutf8':
            b = op[1].encode('utf-8') if isinstance(op[1], unicode) else op[1]
            st.write_utf8_string(op[1])
            m = m[:p] + b + m[p + len(b):]; p += len(b)
        elif k == 'append':
            st.append(op[1])
            m += op[1].encode('utf-8') if isinstance(op[1], unicode) else op[1]
        elif k == 'appends':
            o = util.BufferedByteStream(op[1]); q = min(op[2], len(op[1])); o.seek(q)
            st.append(o)
            m += op[1]
            agree(o, op[1], q, what)
        elif k == 'seek':
            mode = op[2]
            q = op[1] % (len(m) + 1) if mode == 0 else op[1]
            t = q if mode == 0 else p + q if mode == 1 else len(m) + q
            if not 0 <= t <= len(m): continue
            if mode == 0: st.seek(q)
            else: st.seek(q, mode)
            p = t
        elif k == 'consume':
            st.consume(); m = m[p:]; p = 0
        elif k == 'truncate':
            n = op[1] % (len(m) + 1)
            if n == 0:
                st.truncate(); m = ''; p = 0
            else:
                st.truncate(n); m = m[:n]
                if p > n: st.seek(0); p = 0
        elif k == 'add':
            o = util.BufferedByteStream(op[1]); q = min(op[2], len(op[1])); o.seek(q)
            s = st + o
            agree(s, m + op[1], 0, what + ' (the sum)')
            agree(o, op[1], q, what + ' (right operand)')
            s.seek(0, 2); s.write('x')
            s2 = o + st
            agree(s2, op[1] + m, 0, what + ' (the reverse sum)')
            agree(st + st, m + m, 0, what + ' (the stream added to itself)')
            agree(st, m, p, what + ' (added to itself)')
        elif k == 'utf8':
            n = op[1]
            if n > len(m) - p: raises(IOError, st.read_utf8_string, n)
            else:
                try: w = m[p:p + n].decode('utf-8')
                except UnicodeDecodeError:
                    raises(UnicodeDecodeError, st.read_utf8_string, n); st.seek(p)
                else:
                    v = st.read_utf8_string(n)
                    ensure(v == w and type(v) is unicode, 'read_utf8_string(%s) gives %s, expected %s', n, v, w)
                    p += n
        agree(st, m, p, what)

@contract('C03', lambda r: (r.choice(['str', 'uni', 'stream', 'file', 'sio', 'none']), g_bytes(r, 8), r.randrange(0, 9)),
          [(k, s, q) for k in ('str', 'stream', 'file', 'sio') for s in ('', 'abcd') for q in (0, 2)])
def construction(c):
    """a stream built from bytes, another stream or a file holds that content, at position 0, and leaves the source as it was"""
    k, s, q = c
    q = min(q, len(s))
    if k == 'str': src = s
    elif k == 'uni': s = ''.join(ch for ch in s if ord(ch) < 128); src = unicode(s)
    elif k == 'stream': src = util.BufferedByteStream(s); src.seek(q)
    elif k == 'file': src = File(s); src.seek(q)
    elif k == 'sio': src = StringIO(s); src.seek(q)
    else: src = None; s = ''
    st = util.BufferedByteStream(src)
    agree(st, s, 0, 'construction from %s' % k)
    if k in ('stream', 'file', 'sio'):
        ensure(src.tell() == q, 'the source moved from %s to %s', q, src.tell())
        st.write('zzzzzzzzzzzz')
        src.seek(0)
        ensure((src.getvalue() if k != 'file' else src.f.getvalue()) == s, 'the source changed')
    raises(TypeError, util.BufferedByteStream, 5)
    raises(TypeError, util.BufferedByteStream, ['a'])
