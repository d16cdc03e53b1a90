from vals import *
from pyamf import codec

OPS = ['add', 'add', 'add', 'get', 'find', 'clear']
def g_ops(r):
    return (r.randrange(3), [(r.choice(OPS) if r.randrange(8) else 'find', r.randrange(6) if r.randrange(4) else r.randrange(80)) for _ in range(r.randrange(1, 24))])

def pool(kind, k):
    if kind == 0: return [k]                     # equal for equal k, but never identical: by identity
    if kind == 1: return ('k', k)                # hashable: by hash
    return 'bytes %d' % k                        # byte strings: by value

@contract('C08', g_ops, [(k, [('add', i) for i in range(70)] + [('find', i) for i in range(72)] + [('get', i) for i in range(72)] + [('clear', 0), ('find', 3), ('get', 0), ('add', 3), ('get', 0)]) for k in range(3)])
def table(c):
    """a reference table against a plain list: consecutive indices, the very value by index, the index or absence by value, empty after clear"""
    kind, ops = c
    t = codec.IndexedCollection() if kind == 0 else codec.IndexedCollection(use_hash=True) if kind == 1 else codec.ByteStringReferenceCollection()
    made = {}; model = []
    for op, k in ops:
        v = made.setdefault(k, pool(kind, k))
        if op == 'add':
            if any(x is v for x in model): continue
            i = t.append(v); model.append(v)
            ensure(i == len(model) - 1, 'the %sth value gets index %s', len(model), i)
        elif op == 'get':
            w = t.getByReference(k)
            ensure(w is (model[k] if k < len(model) else None), 'index %s of %s gives %s', k, len(model), w)
            ensure(t[k] is w, 'indexing differs')
        elif op == 'find':
            i = t.getReferenceTo(v)
            want = [j for j, x in enumerate(model) if x is v] or [-1]
            ensure(i == want[0], '%s is found at %s, expected %s', v, i, want[0])
            ensure((v in t) == (want[0] >= 0), 'membership of %s', v)
            if kind == 0: ensure(t.getReferenceTo(pool(0, k)) == -1, 'an equal but different value is found')
        else: t.clear(); model = []
        ensure(len(t) == len(model), 'length %s, expected %s', len(t), len(model))

@contract('C08', lambda r: [(r.choice(['str', 'obj', 'cls', 'str?', 'obj?', 'cls?', 'str!', 'obj!', 'cls!', 'clear', 'uni', 'proxy']), r.randrange(7)) for _ in range(r.randrange(1, 25))],
          [[('str', i) for i in range(6)] + [('clear', 0)] + [('str?', i) for i in range(6)] + [('obj', 1), ('cls', 1), ('clear', 0), ('obj?', 1), ('cls?', 1), ('obj!', 0), ('cls!', 0), ('str!', 0)]])
def message_context(ops):
    """the tables of an AMF3 message context are independent of each other, and clearing forgets everything"""
    c = amf3.Context()
    strs, objs, clss = [], [], []
    objpool = [[i] for i in range(7)]; clspool = [type('T%d' % i, (object,), {}) for i in range(7)]
    class Def(object): pass
    defs = {}
    for op, k in ops:
        if op == 'str':
            s = 's' * k
            if s in strs: continue
            i = c.addString(s)
            if k == 0: ensure(i == -1, 'an empty string gets index %s', i); continue
            strs.append(s); ensure(i == len(strs) - 1, 'string index %s, expected %s', i, len(strs) - 1)
        elif op == 'obj':
            if any(x is objpool[k] for x in objs): continue
            i = c.addObject(objpool[k]); objs.append(objpool[k]); ensure(i == len(objs) - 1, 'object index %s, expected %s', i, len(objs) - 1)
        elif op == 'cls':
            if clspool[k] in clss: continue
            d = Def(); i = c.addClass(d, clspool[k]); clss.append(clspool[k]); defs[clspool[k]] = d
            ensure(i == len(clss) - 1 and d.reference == i, 'class index %s (%s), expected %s', i, d.reference, len(clss) - 1)
        elif op == 'str?': ensure(c.getStringReference('s' * k) == (strs.index('s' * k) if 's' * k in strs else -1), 'string %s is found at %s', k, c.getStringReference('s' * k))
        elif op == 'obj?':
            w = [j for j, x in enumerate(objs) if x is objpool[k]] or [-1]
            ensure(c.getObjectReference(objpool[k]) == w[0], 'object is found at %s, expected %s', c.getObjectReference(objpool[k]), w[0])
        elif op == 'cls?': ensure(c.getClass(clspool[k]) is (defs[clspool[k]] if clspool[k] in clss else None), 'class %s: %s', k, c.getClass(clspool[k]))
        elif op == 'str!': ensure(c.getString(k) == (strs[k] if k < len(strs) else None), 'string index %s gives %s', k, c.getString(k))
        elif op == 'obj!': ensure(c.getObject(k) is (objs[k] if k < len(objs) else None), 'object index %s gives %s', k, c.getObject(k))
        elif op == 'cls!': ensure(c.getClassByReference(k) is (defs[clss[k]] if k < len(clss) else None), 'class index %s gives %s', k, c.getClassByReference(k))
        elif op == 'uni':
            s = (u'\xe9' * k).encode('utf-8')
            ensure(c.getStringForBytes(s) == u'\xe9' * k and c.getBytesForString(u'\xe9' * k) == s, 'text %s', k)
        elif op == 'proxy':
            p = c.getProxyForObject(objpool[k])
            ensure(c.getProxyForObject(objpool[k]) is p and c.getObjectForProxy(p) is objpool[k], 'proxy of %s', k)
        else: c.clear(); strs, objs, clss = [], [], []

K3 = ['list', 'date', 'xml', 'ba', 'obj', 'anon', 'mixed', 'ext']
def item3(k, strs, classes):
    """bytes of a fresh value and the table entries it makes: (bytes, objects before its own end)"""
    def text(s):
        if s in strs: return u29(strs.index(s) << 1)
        strs.append(s); return u29(len(s) << 1 | 1) + s
    def cls(name, n, flag, attrs):
        if name in classes: return u29(classes.index(name) << 2 | 1)
        classes.append(name)
        return u29(n << 4 | flag) + (text(name) if name else '\x01') + ''.join(text(a) for a in attrs)
    if k == 'list': return '\x09\x01\x01'
    if k == 'date': return '\x08\x01' + struct.pack('!d', 1000.0)
    if k == 'xml': return '\x0b\x09<a/>'
    if k == 'ba': return '\x0c\x05ab'
    if k == 'obj': return '\x0a' + cls('v.Static', 2, 3, ['sa', 'sb']) + '\x01\x01'
    if k == 'anon': return '\x0a' + cls('', 0, 0xb, []) + '\x01'
    if k == 'mixed': return '\x09\x01' + text('k') + '\x01\x01'
    if k == 'ext': return '\x0a' + cls('v.Ext', 0, 7, []) + '\0\0\x01\x01'
REFS = {'list': '\x09', 'date': '\x08', 'xml': '\x0b', 'xmldoc': '\x07', 'ba': '\x0c', 'obj': '\x0a'}

def g_ref3(r):
    return ([r.choice(K3) for _ in range(r.randrange(0, 6))], r.choice(sorted(REFS) + ['str', 'cls', 'key', 'bytes'] ), g_int(r, 0, 2**28 - 1) if r.randrange(4) == 0 else r.randrange(0, 9))
@contract('C08', g_ref3, [([], k, i) for k in sorted(REFS) + ['str', 'cls', 'key', 'bytes'] for i in (0, 1, 2, 5, 63, 64, 8192, 2**20, 2**27 - 1)] +
          [(K3, k, i) for k in sorted(REFS) + ['str', 'cls', 'key', 'bytes'] for i in range(10)])
def unknown_amf3(c):
    """an AMF3 reference to an object, string or class that has not appeared is a reference error, to one that has gives that very value"""
    kinds, what, idx = c
    strs, classes = [], []
    body = ''.join(item3(k, strs, classes) for k in kinds)
    head = '\x09' + u29((len(kinds) + 1) << 1 | 1) + '\x01'
    idx &= 2**27 - 1
    if what in REFS: ref = REFS[what] + u29(idx << 1); known = idx <= len(kinds)
    elif what == 'str': ref = '\x06' + u29(idx << 1); known = idx < len(strs)
    elif what == 'bytes': ref = '\x09\x03' + u29(idx << 1) + '\x01' * 9; known = idx < len(strs)
    elif what == 'key':
        ref = '\x0a\x0b\x01' + u29(idx << 1) + '\x01' * 9; known = idx < len(strs)
    else:
        idx &= 2**26 - 1
        ref = '\x0a' + u29(idx << 2 | 1); known = idx < len(classes)
        ref += {'v.Static': '\x01\x01', '': '\x01', 'v.Ext': '\0\0\x01\x01'}[classes[idx]] if known else '\x01' * 9
    dec = decoder(3, head + body + ref)
    if not known:
        raises(pyamf.ReferenceError, dec.readElement); return
    v = dec.readElement()
    if what in REFS:
        if idx == 0: ensure(v[len(kinds)] is v, 'reference 0 gives %s', v[len(kinds)])
        else: ensure(v[len(kinds)] is v[idx - 1], 'reference %s gives %s, expected %s', idx, v[len(kinds)], v[idx - 1])
    elif what == 'str': ensure(v[len(kinds)] == strs[idx], 'string %s is %s, expected %s', idx, v[-1], strs[idx])
    elif what == 'key': ensure(strs[idx] in v[len(kinds)], 'key %s gives %s', idx, v[-1])
    elif what == 'cls': ensure(type(v[len(kinds)]) is {'v.Static': Static, '': pyamf.ASObject, 'v.Ext': Ext}[classes[idx]], 'class %s gives %s', idx, v[len(kinds)])
    elif what == 'bytes': ensure(strs[idx] in v[len(kinds)], 'key %s gives %s', idx, v[-1])

def item0(k):
    if k == 'list': return '\x0a\0\0\0\0'
    if k == 'obj': return '\x03\0\x01a\x05\0\0\x09'
    if k == 'mixed': return '\x08\0\0\0\0\0\x01a\x05\0\0\x09'
    if k == 'typed': return '\x10\0\x07v.Plain\0\x01a\x05\0\0\x09'
    if k == 'str': return '\x02\0\x01a'
    if k == 'num': return '\0' * 9
    if k == 'amf3': return '\x11\x09\x01\x01'
@contract('C08', lambda r: ([r.choice(['list', 'obj', 'mixed', 'typed', 'str', 'num', 'amf3']) for _ in range(r.randrange(6))], r.choice([0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 32767, 32768, 65535])),
          [([], i) for i in (0, 1, 2, 255, 256, 32768, 65535)] + [(['list', 'obj', 'mixed', 'typed', 'str', 'num'], i) for i in range(8)])
def unknown_amf0(c):
    """an AMF0 reference to an object that has not appeared is a reference error, to one that has gives that very value"""
    kinds, idx = c
    n = len(kinds)
    b = '\x0a' + struct.pack('!L', n + 1) + ''.join(item0(k) for k in kinds) + '\x07' + struct.pack('!H', idx)
    at = [None] + [i for i, k in enumerate(kinds) if k not in ('str', 'num', 'amf3')]
    dec = decoder(0, b)
    if idx >= len(at) and 'amf3' in kinds: return       # an embedded AMF3 value may take an index of its own
    if idx >= len(at): raises(pyamf.ReferenceError, dec.readElement); return
    if 'amf3' in kinds: return
    v = dec.readElement()
    want = v if idx == 0 else v[at[idx]]
    ensure(v[n] is want, 'reference %s gives %s, expected %s', idx, v[n], want)
    ensure(dec.stream.at_eof(), 'left over')

@contract('C08', lambda r: (r.choice([0, 3]), [r.choice(K3) for _ in range(r.randrange(1, 4))]), [(3, ['list', 'obj', 'mixed']), (0, ['list']), (3, K3)])
def next_message(c):
    """a reference to something in an earlier message (its context cleared) is a reference error"""
    enc, kinds = c
    if enc == 0:
        d = decoder(0, '\x0a\0\0\0\0'); d.readElement(); d.context.clear()
        d.send('\x07\0\0'); raises(pyamf.ReferenceError, d.readElement); return
    strs, classes = [], []
    d = decoder(3, ''.join(item3(k, strs, classes) for k in kinds))
    for k in kinds: d.readElement()
    for ref in ['\x09\0', '\x0a\0', '\x08\0'] + (['\x06\0'] if strs else []) + (['\x0a\x01'] if classes else []):
        d.context.clear()
        p = d.stream.tell()
        d.send(ref); raises(pyamf.ReferenceError, d.readElement)
        d.stream.seek(p + len(ref)) if d.stream.tell() != p + len(ref) else None
