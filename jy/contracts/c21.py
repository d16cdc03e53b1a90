from contracts.graphs import *
from pyamf import remoting, flex, codec

FREE, DTD, ENT = 0, 1, 2          # nothing forbidden, a document type, an entity declaration too
DOCS = [('<a/>', FREE), ('<?xml version="1.0"?><a b="c">t</a>', FREE), ('<a><!-- <!DOCTYPE b> --><![CDATA[<!ENTITY x "y">]]></a>', FREE), ('<a>&lt;!DOCTYPE a&gt;&#65;</a>', FREE),
        ('<!DOCTYPE a><a/>', DTD), ('<!DOCTYPE a [<!ELEMENT a ANY>]><a/>', DTD), ('<!DOCTYPE a [<!ATTLIST a b CDATA "v">]><a/>', DTD), ('<!DOCTYPE a [\n]>\n<a/>', DTD), ('<?xml version="1.0"?>\n<!-- x -->\n<!DOCTYPE a []><a/>', DTD),
        ('<!DOCTYPE a [<!ENTITY x "y">]><a>&x;</a>', ENT), ('<!DOCTYPE a [<!ENTITY x "y">]><a/>', ENT), ('<!DOCTYPE a [<!ENTITY % p "<!ELEMENT b ANY>"> %p;]><a/>', ENT),
        ('<!DOCTYPE a [<!ENTITY x "1"><!ENTITY y "&x;&x;&x;&x;"><!ENTITY z "&y;&y;&y;&y;">]><a>&z;</a>', ENT), ("<!DOCTYPE a [<!ENTITY x SYSTEM 'file:///nonexistent/x'>]><a>z</a>", ENT),
        ("<!DOCTYPE a [<!NOTATION n SYSTEM 'q'><!ENTITY x SYSTEM 'u' NDATA n>]><a>z</a>", ENT)]
def g_doc(r):
    d, k = r.choice(DOCS)
    if r.randrange(2):
        pad = r.choice(['', ' ', '\n', '\n\n  ', '<!-- c -->', '<?pi x?>'])
        i = d.index('<a') if '<?xml' not in d else d.index('?>') + 2
        d = d[:i] + pad + d[i:]
    if r.randrange(3) == 0: d = d.replace('<a', '<abc').replace('</a>', '</abc>').replace('DOCTYPE a', 'DOCTYPE abc').replace('ELEMENT a', 'ELEMENT abc').replace('ATTLIST a', 'ATTLIST abc')
    return d, k

def wire(doc, way):
    """bytes of a message with the document in it, and how to decode them"""
    amf0_ = '\x0f' + struct.pack('!L', len(doc)) + doc
    def amf3_(m): return m + u29(len(doc) << 1 | 1) + doc
    def dec(enc): return lambda b, **kw: decoder(enc, b, **kw).readElement()
    if way == 'amf0': return amf0_, dec(0)
    if way == 'amf0-list': return '\x0a\0\0\0\1' + amf0_, dec(0)
    if way == 'amf0-object': return '\x03\0\1k' + amf0_ + '\0\0\x09', dec(0)
    if way == 'amf3': return amf3_('\x0b'), dec(3)
    if way == 'amf3-document': return amf3_('\x07'), dec(3)
    if way == 'amf3-list': return '\x09\x03\x01' + amf3_('\x07'), dec(3)
    if way == 'embedded': return '\x11' + amf3_('\x0b'), dec(0)
    if way == 'embedded-list': return '\x0a\0\0\0\2\5\x11\x09\x03\x01' + amf3_('\x07'), dec(0)
    if way == 'external': return '\x0a\x07\x0bv.Ext\0\0' + amf3_('\x0b') + '\1', dec(3)
    if way == 'collection': return '\x0a\x07\x43flex.messaging.io.ArrayCollection\x09\x03\x01' + amf3_('\x0b'), dec(3)
    if way == 'decode': return amf0_, lambda b, **kw: list(pyamf.decode(b, encoding=0, **kw))
    if way == 'decode3': return amf3_('\x0b'), lambda b, **kw: list(pyamf.decode(b, encoding=3, **kw))
    rd = lambda b, **kw: remoting.decode(b, **kw)
    if way == 'remoting': return '\0\0\0\0\0\1\0\1t\0\1r\0\0\0\0\x0a\0\0\0\1' + amf0_, rd
    if way == 'remoting3': return '\0\3\0\0\0\1\0\1t\0\1r\0\0\0\0\x0a\0\0\0\1\x11' + amf3_('\x07'), rd
    if way == 'second': return '\0\3\0\0\0\2\0\1t\0\1q\0\0\0\0\x0a\0\0\0\1\x11\1\0\1t\0\1r\0\0\0\0\x0a\0\0\0\2\5\x11' + amf3_('\x0b'), rd
    if way == 'header': return '\0\0\0\1\0\1h\0\0\0\0\0' + amf0_ + '\0\0', rd
    if way == 'header3': return '\0\3\0\1\0\1h\0\0\0\0\0\x11' + amf3_('\x0b') + '\0\0', rd
WAYS = ['amf0', 'amf0-list', 'amf0-object', 'amf3', 'amf3-document', 'amf3-list', 'embedded', 'embedded-list', 'external', 'collection', 'decode', 'decode3', 'remoting', 'remoting3', 'second', 'header', 'header3']

@contract('C21', lambda r: (g_doc(r), r.choice(WAYS), r.choice([None, True, False]), r.choice([None, True, False])), [(d, w, a, b) for d in (DOCS[1], DOCS[4], DOCS[9]) for w in WAYS for a, b in ((None, None), (False, None), (None, False), (False, False))], weight=2)
def permissions(case):
    """a document type or an entity declaration is refused unless exactly that was allowed for this decoding"""
    (doc, kind), way, dtd, ent = case
    b, dec = wire(doc, way)
    kw = {}
    if dtd is not None: kw['forbid_dtd'] = dtd
    if ent is not None: kw['forbid_entities'] = ent
    ok = kind == FREE or (dtd is False and (kind == DTD or ent is False))
    x = outcome(dec, b, **kw)
    ensure((x[0] == 'ok') == ok, '%s by %s with %s: %s', doc, way, kw, x)
    if kw:
        x = outcome(dec, b)
        ensure((x[0] == 'ok') == (kind == FREE), 'after another decoder was given %s, %s by %s: %s', kw, doc, way, x)

@contract('C21', lambda r: (g_doc(r), r.choice([0, 3]), r.choice([None, True, False]), r.choice([None, True, False])), [(d, e, a, b) for d in (DOCS[4], DOCS[9]) for e in (0, 3) for a in (None, False) for b in (None, False)])
def byte_array(case):
    """XML read back out of a received byte array, and XML among other values, is checked in the same way"""
    (doc, kind), enc, dtd, ent = case
    inner = '\x0b' + u29(len(doc) << 1 | 1) + doc
    ba = amf3.ByteArray(inner)
    x = outcome(ba.readObject)
    ensure((x[0] == 'ok') == (kind == FREE), '%s: %s', doc, x)
    c = codec.Context(); ensure(c.forbid_dtd is True and c.forbid_entities is True, 'defaults %s %s', c.forbid_dtd, c.forbid_entities)
    for d in (decoder(0), decoder(3)): ensure(d.context.forbid_dtd is True and d.context.forbid_entities is True, 'defaults')
    x = outcome(pxml.fromstring, doc); ensure((x[0] == 'ok') == (kind == FREE), '%s: %s', doc, x)

TX = u' abc<>&"\'\xe9\u20ac\u0100]]>;-\n'
def g_text21(r): return r.choice([u'', u'', u'x', u'\xe9\u20ac', u'<&>"\'', u']]>', u' ', u'\n', u'&amp;']) if r.randrange(2) else u''.join(r.choice(TX) for _ in range(r.randrange(6)))
def g_tree(r, depth=3):
    names = [u'a', u'b', u'tag', u'x-y', u'\xe9', u'a.b', u'_']
    return (r.choice(names), sorted(dict((r.choice(names), g_text21(r).replace(u'\n', u' ')) for _ in range(r.choice([0, 0, 1, 2]))).items()), g_text21(r), g_text21(r), [g_tree(r, depth - 1) for _ in range(r.choice([0, 0, 1, 2, 3]))] if depth else [])
def mktree(d, parent=None):
    ET = type(pxml.fromstring('<a/>'))
    e = ET(d[0]) if parent is None else parent.makeelement(d[0], {})
    for k, v in d[1]: e.set(k, v)
    if d[2]: e.text = d[2]
    if d[3]: e.tail = d[3]
    for c in d[4]: e.append(mktree(c, e))
    return e
LEAF = (u'a', [], u'', u'', [])
@contract('C21', g_tree, [LEAF, (u'a', [], u'', u'tail', []), (u'a', [(u'b', u'<&"\'>\xe9')], u'\u20ac', u'', [(u'b', [], u'', u' x ', []), (u'c', [], u'y', u'', [LEAF])])])
def trees(d):
    """any tree encodes to text that decodes to an equal tree, also when it is a part of another"""
    t = mktree(d)
    for enc in (0, 3):
        for e in [t] + list(t.iter()):
            tail = e.tail
            x = encode(e, [e, e], encoding=enc).getvalue()
            dd = decoder(enc, x); got = dd.readElement(); two = dd.readElement()
            ensure(e.tail == tail, 'the tree was changed')
            ensure(not got.tail, 'text after the document: %s', got.tail)
            e.tail = None
            try:
                try: tree(e, got); tree(e, two[0])
                except Diff as z: raise Broken('%s (AMF%s)' % (z, enc))
            finally: e.tail = tail
            ensure(enc == 0 or two[0] is two[1], 'one tree became two')
            ensure(dd.stream.at_eof(), 'bytes left')
