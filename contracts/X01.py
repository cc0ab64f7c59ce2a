"""X01: XML escaping."""
import re
import xml.etree.ElementTree as ET
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Gen, Str, StrN
from pyslet.xml import structures as xml

MARK = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\r': '&#xD;'}
NAMED = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
SRC = Str(alphabet='&<>"\'\r\nab];#\x00\x7f\x80\xe9\xff\u0100\u20ac\uffff'
          '\U00010000\U0010ffff', maxlen=10)


# -- the reference for a character --------------------------------------------

def is_text(k, r, p, text):
    """r has text at p"""
    return k.And(p + len(text) <= len(r), lambda: k.And(*[
        k.code(r, p + i) == ord(text[i]) for i in range(len(text))]))


def digit(k, c, i):
    d = (c // 16 ** i) % 16
    return k.ite(d < 10, d + 48, d + 55)


def DIGIT(k, c, i):
    """the character of hexadecimal digit i of c"""
    return k.opaque('digit%i' % i, 'int', lambda k, c: digit(k, c, i), c)


def is_ref(k, r, p, c, width):
    """r has a hexadecimal reference to character c at p"""
    out = [k.code(r, p + i) == ord(x) for i, x in enumerate('&#x')]
    for i in range(width):
        out.append(k.code(r, p + 3 + i) == DIGIT(k, c, width - 1 - i))
    out.append(k.code(r, p + 3 + width) == 59)
    return k.And(p + width + 4 <= len(r), lambda: k.And(*out))


def cases(k, c, wide, q=None):
    """(condition, length, test) of the escaped forms of character c"""
    out = [(c == ord(x), len(t), lambda r, p, t=t: is_text(k, r, p, t))
           for x, t in MARK.items()]
    if wide:
        lo = 0x7f
        for width, hi in ((2, 0xff), (4, 0xffff), (6, 0x10ffff)):
            out.append((k.And(c > lo, c <= hi), width + 4,
                        lambda r, p, w=width: is_ref(k, r, p, c, w)))
            lo = hi
    if q is not None:
        t = '&#x%02X;' % ord(q) if wide else \
            '&quot;' if q == '"' else '&apos;'
        out.append((c == ord(q), 6, lambda r, p, t=t: is_text(k, r, p, t)))
    return out


def width_of(k, c, wide, q):
    w = 1
    for cond, n, f in cases(k, c, wide, q):
        w = k.ite(cond, n, w)
    return w


def escaped_at(k, r, p, c, wide, q):
    """r has the escaped form of c at p"""
    out = k.And(p < len(r), lambda: k.code(r, p) == c)
    for cond, n, f in cases(k, c, wide, q):
        out = k.ite(cond, lambda f=f: f(r, p), lambda out=out: out)
    return out


def escaped(k, r, src, n, lens, wide, q=None, end=0):
    return k.And(len(r) == lens(n) + end, lambda: k.forall(
        0, n, lambda j: k.And(lens(j) >= 0, escaped_at(
            k, r, lens(j), k.code(src, j), wide, q))))


def setup(k, src, wide, q=None):
    start = 0 if q is None else 1
    lens, unfold = k.fold('lens', 'int', start, lambda prev, i: prev +
                          width_of(k, k.code(src, i), wide, q))
    k.put('x', (src, lens, unfold, wide, q))
    return lens


def inv(name):
    def f(k, L):
        src, lens, unfold, wide, q = k.get('x')
        i = L._i
        unfold(i)
        if wide:
            for n in range(6):
                k.expose('digit%i' % n, 'int', lambda k, c, n=n: digit(
                    k, c, n), k.code(src, i))
        r = k.joined(getattr(L, name))
        out = [("position", k.And(i >= 0, i <= len(src))),
               ("escaped so far", escaped(k, r, src, i, lens, wide, q))]
        if q is not None:
            out.append(("opening quote", k.And(len(r) >= 1, lambda: k.code(
                r, 0) == ord(q))))
        return out
    return f


PLAIN = LoopSpec('escape_char_data', inv=inv('data'), havoc={
    'data': 'joinstr', 'apos': 'int', 'quot': 'int'}, label='characters')
WIDE = LoopSpec('escape_char_data7', inv=inv('dst'), havoc={
    'dst': 'joinstr'}, label='characters')


@proof('escape_char_data without quotes', _loops=[PLAIN], src=SRC)
def plain(k, src):
    lens = setup(k, src, False)
    r = xml.escape_char_data(src)
    k.ensures("each character or its reference, nothing else", escaped(
        k, r, src, len(src), lens, False), r)


@proof('escape_char_data7 without quotes', _loops=[WIDE], src=SRC)
def ascii_only(k, src):
    lens = setup(k, src, True)
    r = xml.escape_char_data7(src)
    k.ensures("each character or its reference, nothing else", escaped(
        k, r, src, len(src), lens, True), r)


@proof('escape_char_data7 as an attribute value', _loops=[WIDE], src=SRC)
def ascii_quoted(k, src):
    q = '"' if "'" in src or '"' not in src else "'"
    lens = setup(k, src, True, q)
    r = xml.escape_char_data7(src, True)
    k.ensures("the quote ends it", k.And(len(r) >= 2, lambda: k.And(
        k.code(r, 0) == ord(q), k.code(r, len(r) - 1) == ord(q))), r)
    k.ensures("each character or its reference, nothing else", escaped(
        k, r, src, len(src), lens, True, q, 1), r)


@bounded('escape_char_data as an attribute value', 'texts up to 3 characters',
         src=StrN(maxlen=3, alphabet='&<>"\'\r\na;'), _symbolic=True)
def quoted(k, src):
    napos = nquot = 0
    for c in src:
        if c == "'":
            napos += 1
        elif c == '"':
            nquot += 1
    q = "'" if nquot > napos else '"'
    lens = setup(k, src, False, q)
    for i in range(len(src)):
        k.get('x')[2](i)
    r = xml.escape_char_data(src, True)
    k.ensures("the quote ends it", k.And(len(r) >= 2, lambda: k.And(
        k.code(r, 0) == ord(q), k.code(r, len(r) - 1) == ord(q))), r)
    k.ensures("each character or its reference, nothing else", escaped(
        k, r, src, len(src), lens, False, q, 1), r)


# -- independent of the form chosen -------------------------------------------

def decode(text):
    """the characters text denotes; None if it has markup or a bad
    reference"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c in '<>\r':
            return None
        if c == '&':
            m = re.compile(r'&(?:#x([0-9a-fA-F]+)|#([0-9]+)|(\w+));').match(
                text, i)
            if not m:
                return None
            out.append(chr(int(m.group(1), 16)) if m.group(1) else
                       chr(int(m.group(2))) if m.group(2) else
                       NAMED[m.group(3)])
            i = m.end()
        else:
            out.append(c)
            i += 1
    return ''.join(out)


SPECIAL = ['&', '<', '>', '"', "'", '\r', '\n', '\t', ' ', 'a', ']', ']]>',
           ']]', '&amp;', '&#x41;', ';', '<![CDATA[', '--', '\x7f', '\x80',
           '\xe9', '\xff', '\u0100', '\u20ac', '\ufffd', '\U00010000',
           '\U0010fffd', '\x85', '\u2028']


def gen_text(rng):
    pool = rng.choice([SPECIAL, SPECIAL[:6], [']', ']]>', '>', ']]', 'x'],
                       ['"', "'"]])
    return ''.join(rng.choice(pool) if rng.random() < .95 else
                   chr(rng.choice([rng.randint(32, 0xd7ff),
                                   rng.randint(0x10000, 0x10ffff)]))
                   for i in range(rng.randint(0, rng.choice([3, 8, 30]))))


@bounded('what the escaped forms denote', 'generated texts', src=Gen(
    gen_text, corners=['', ']]>', ']]]>', ']', '"', "'", '"\'', ']]>]]>',
                       '&', '&amp;', '\r\n', ']]']), _samples=12000)
def denote(k, src):
    for f in (xml.escape_char_data, xml.escape_char_data7):
        r = f(src)
        k.ensures("character data", decode(r) == src, f, r)
        v = f(src, True)
        k.ensures("quoted", len(v) >= 2 and v[0] == v[-1] and v[0] in '"\'' and
                  v[0] not in v[1:-1], f, v)
        k.ensures("attribute value", decode(v[1:-1]) == src, f, v)
        if f is xml.escape_char_data7:
            k.ensures("ASCII only", all(ord(c) < 128 for c in r + v), r, v)
        k.ensures("read by another parser", ET.fromstring(
            '<a b=%s>%s</a>' % (v, r)).text == (src or None), r, v)
        k.ensures("attribute read by another parser", ET.fromstring(
            '<a b=%s>%s</a>' % (v, r)).get('b') == src.replace(
                '\n', ' ').replace('\t', ' '), r, v)
    c = xml.escape_cdsect(src)
    # line ends are normalised in a CDATA section by any parser
    k.ensures("CDATA section", (ET.fromstring('<a>%s</a>' % c).text or '') ==
              src.replace('\r\n', '\n').replace('\r', '\n'), c)
    k.ensures("only sections", cdata(c) == src, c)


def cdata(text):
    """the characters of a series of CDATA sections and escaped data"""
    out, i = [], 0
    while i < len(text):
        if text.startswith('<![CDATA[', i):
            j = text.index(']]>', i)
            out.append(text[i + 9:j])
            i = j + 3
        else:
            j = text.find('<', i)
            j = len(text) if j < 0 else j
            d = decode(text[i:j].replace(']]&gt;', ']]&#62;'))
            if d is None:
                return None
            out.append(d)
            i = j
    return ''.join(out)


def words(text):
    return [w for w in re.split('[ \t\r\n]+', text) if w]


@bounded('in a document', 'generated texts', a=Gen(gen_text), b=Gen(gen_text),
         _samples=600)
def document(k, a, b):
    d = xml.Document(root=xml.Element)
    d.root.set_xmlname('e')
    d.root.set_attribute('x', a)
    d.root.add_data(b)
    for text in (str(d.root), str(d), bytes(d)):
        t = ET.fromstring(text)
        k.ensures("the attribute", t.get('x') == a.replace(
            '\n', ' ').replace('\t', ' '), text)
        # the text is laid out with collapsed white space
        k.ensures("the text", words(t.text or '') == words(b), text)
