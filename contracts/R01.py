"""R01: percent-encoding of URI data."""
from pyvc.kit import proof, bounded, Contract, Int, Choice, Bool, Str, Bytes, Union, \
    Const, Gen, Opt, Pred
from pyvc.interp import LoopSpec
from speclib.charclass import TEST
from pyslet import rfc2396 as uri

UPALPHA = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
ALPHA = UPALPHA | frozenset(c.lower() for c in UPALPHA)
DIGIT = frozenset('0123456789')
MARK = frozenset("-_.!~*'()")
RESERVED = frozenset(";/?:@&=+$,[]")
RESERVED_2396 = frozenset(";/?:@&=+$,")
RESERVED_1738 = frozenset(";/?:@&=")
UNRESERVED = ALPHA | DIGIT | MARK
UNRESERVED_1738 = ALPHA | DIGIT | frozenset("$-_.+!*'(),")
HEX = DIGIT | frozenset('abcdefABCDEF')
CLASSES = [
    ('is_upalpha', UPALPHA), ('is_lowalpha', ALPHA - UPALPHA),
    ('is_alpha', ALPHA), ('is_digit', DIGIT), ('is_alphanum', ALPHA | DIGIT),
    ('is_reserved', RESERVED), ('is_reserved_2396', RESERVED_2396),
    ('is_reserved_1738', RESERVED_1738), ('is_mark', MARK),
    ('is_unreserved', UNRESERVED), ('is_unreserved_1738', UNRESERVED_1738),
    ('is_allowed', RESERVED | UNRESERVED),
    ('is_allowed_2396', RESERVED_2396 | UNRESERVED),
    ('is_allowed_1738', RESERVED_1738 | UNRESERVED_1738), ('is_hex', HEX),
    ('is_control', frozenset(map(chr, range(32))) | {chr(127)}),
    ('is_space', frozenset(' ')), ('is_delims', frozenset('<>#%"')),
    ('is_unwise', frozenset("{}|\\^`")),
    ('is_unwise_2396', frozenset("{}|\\^[]`")),
    ('is_authority_reserved', frozenset(";:@?/")),
    ('is_path_segment_reserved', frozenset("/;=?")),
    ('is_query_reserved', frozenset(";/?:@&=+,$"))]


@proof('character classes of the specification', _symbolic=False,
       _exhaustive=True, which=Choice(CLASSES), _bounded='code points '
       'below 0x3000 and every 251st above, each class')
def classes(k, which):
    name, want = which
    f = getattr(uri, name)
    for c in list(range(0x3000)) + list(range(0x3000, 0x110000, 251)):
        if bool(f(chr(c))) != (chr(c) in want):
            k.fail("%s is the set of the specification" % name, c)
    k.ensures("no character is in no class", not f(None))


# -- well-formed text: one token per byte, the byte itself or an escape -------

def lit(k, res, ok, c):
    """escape_data leaves the byte as itself"""
    return k.And(k.Not(k.holds(res, c)), k.holds(ok, c))


def is_hexdigit(k, code, d, upper):
    """code is a hex digit of value d"""
    up = k.ite(d < 10, d + 48, d + 55)
    if upper:
        return code == up
    return k.Or(code == up, k.And(d >= 10, code == d + 87))


def token(k, r, p, c, is_lit, upper):
    """r has the encoded form of byte c at p"""
    return k.ite(is_lit, lambda: k.And(c != 37, c < 128, k.code(r, p) == c),
                 lambda: k.And(
        k.code(r, p) == 37, is_hexdigit(k, k.code(r, p + 1), c // 16, upper),
        is_hexdigit(k, k.code(r, p + 2), c % 16, upper)))


def token_at(k, r, src, lens, is_lit, j, upper=True):
    """r has byte j of src at lens(j)"""
    l = is_lit(j)
    return k.And(lens(j) >= 0, lambda: lens(j) + k.ite(l, 1, 3) <= len(r),
                 lambda: token(k, r, lens(j), k.code(src, j), l, upper))


def tokens(k, r, src, n, lens, is_lit, upper=True):
    """r encodes the first n bytes of src, byte j from lens(j) on"""
    return k.And(len(r) == lens(n), lambda: k.forall(
        0, n, lambda j: token_at(k, r, src, lens, is_lit, j, upper)))


def lengths(k, name, is_lit):
    return k.fold(name, 'int', 0, lambda prev, i: prev + k.ite(
        is_lit(i), 1, 3))


SOME = ''.join(map(chr, range(32, 127)))
FIXED = [''.join(c) for n, c in CLASSES]
RES = Pred(SOME, FIXED)
OKP = Pred(SOME, FIXED)
B = Bytes(alphabet=[0, 32, 37, 47, 48, 58, 65, 70, 97, 102, 103, 126, 127,
                    128, 233, 255], maxlen=12)


# -- escaping -----------------------------------------------------------------

def esc_inv(k, L):
    src, is_lit, lens, unfold = k.get('esc')
    i = L._i
    unfold(i)
    r = k.joined(L.result)
    return [("position", k.And(i >= 0, i <= len(src))),
            ("encoded so far", tokens(k, r, src, i, lens, is_lit))]


ESC = LoopSpec('escape_data', inv=esc_inv, havoc={'result': 'joinstr'},
               label='bytes')


@proof('escape_data encodes each byte', _loops=[ESC], src=Union(B, Str(
    alphabet='a%/ ~A5', ranges=[(0, 127)])), res=RES, ok=OKP)
def escape(k, src, res, ok):
    k.requires(k.Or(k.Not(k.holds(ok, 37)), k.holds(res, 37)))
    k.requires(k.forall(128, 256, lambda c: k.Not(k.holds(ok, c))))

    def is_lit(j):
        return lit(k, res, ok, k.code(src, j))
    lens, unfold = lengths(k, 'lens', is_lit)
    k.put('esc', (src, is_lit, lens, unfold))
    r = uri.escape_data(src, res, ok)
    k.ensures("each byte literally or as its escape", tokens(
        k, r, src, len(src), lens, is_lit), r)


# -- unescaping any well-formed text ------------------------------------------

def unesc_inv(k, L):
    src, is_lit, lens, unfold = k.get('unesc')
    data = k.joined(L.data, 'bytes')
    i = len(data)
    unfold(i)
    out = [("no more than there is", i <= len(src)),
           ("last byte", k.Or(i == 0, lambda: k.code(
               data, i - 1) == k.code(src, i - 1))),
           ("decoded so far", k.forall(
               0, i, lambda j: k.code(data, j) == k.code(src, j)))]
    if L.mode is None:
        out.append(("position", L.pos == lens(i)))
    else:
        c = k.code(src, i)
        m = k.code(L.mode, 0)
        out.append(("inside an escape", k.And(
            i < len(src), k.Not(is_lit(i)), k.Or(
                k.And(m == 37, L.pos == lens(i) + 1),
                k.And(is_hexdigit(k, m, c // 16, False),
                      L.pos == lens(i) + 2)))))
    return out


UNESC = LoopSpec('unescape_data', inv=unesc_inv, havoc={
    'pos': 'int', 'mode': 'optchar', 'data': 'codes'}, label='characters',
    variant=lambda k, L: len(L.source) - L.pos)


def wellformed(k, src, escs, low):
    """A text whose token j is an escape where escs says so, with hex
    digits in either case"""
    def is_lit(j):
        return k.Not(k.holds(escs, j))
    lens, unfold = lengths(k, 'lens', is_lit)
    if k.native:
        out = []
        for j, b in enumerate(src):
            if is_lit(j):
                k.requires(b != 37 and b < 128)
                out.append(chr(b))
            else:
                h = '%02x' % b
                out.append('%' + ''.join(
                    x if k.holds(low, 2 * j + t) else x.upper()
                    for t, x in enumerate(h)))
        s = ''.join(out)
    else:
        s = k.fresh('str', 's')
        k.assume(tokens(k, s, src, len(src), lens, is_lit, False))
        k.assume(k.all_codes(s, lambda c: c < 128))
    return s, is_lit, lens, unfold


WHERE = Pred(''.join(map(chr, range(26))), [map(chr, range(26)), ()])


@proof('unescape_data decodes well-formed text', _loops=[UNESC],
       _uses=[TEST], src=B, escs=WHERE, low=WHERE)
def unescape(k, src, escs, low):
    s, is_lit, lens, unfold = wellformed(k, src, escs, low)
    k.put('unesc', (src, is_lit, lens, unfold))
    out = uri.unescape_data(s)
    k.ensures("as many bytes", len(out) == len(src), s, out)
    k.ensures("the same bytes", k.forall(
        0, len(src), lambda j: k.code(out, j) == k.code(src, j)), s, out)


# -- canonical form -------------------------------------------------------------

def canon_inv(k, L):
    src, is_lit, lens, unfold, tok, keep, outs, unfold2 = k.get('canon')
    g = tok(L.pos)
    unfold(g)
    unfold2(g)
    r = k.joined(L.result)
    return [("position", k.And(g >= 0, g <= len(src), L.pos == lens(g))),
            ("the next token", k.Or(g == len(src), lambda: token_at(
                k, L.source, src, lens, is_lit, g, False))),
            ("length", len(r) == outs(g)),
            ("the last token", k.Or(g == 0, lambda: token_at(
                k, r, src, outs, keep, g - 1))),
            ("canonical so far", tokens(k, r, src, g, outs, keep))]


CANON = LoopSpec('canonicalize_data', inv=canon_inv, havoc={
    'pos': 'int', 'result': 'joinstr'}, label='tokens',
    variant=lambda k, L: len(L.source) - L.pos)


@proof('canonicalize_data keeps the bytes', _loops=[CANON], src=B,
       _symbolic=False, _samples=6000, _bounded='sampled texts',
       escs=WHERE, low=WHERE, unres=RES, ok=OKP)
def canonical(k, src, escs, low, unres, ok):
    k.requires(k.And(k.Not(k.holds(unres, 37)), k.forall(
        128, 256, lambda c: k.Not(k.holds(unres, c)))))
    s, is_lit, lens, unfold = wellformed(k, src, escs, low)

    def keep(j):
        """this byte is literal in the canonical form"""
        c = k.code(src, j)
        return k.Or(k.And(is_lit(j), k.holds(ok, c)),
                    k.And(k.Not(is_lit(j)), k.holds(unres, c)))
    outs, unfold2 = lengths(k, 'outs', keep)
    if not k.native:
        # the token at a position: the inverse of lens, which increases
        tok = k.inverse('tok', lens, 0, len(src) + 1)
        k.put('canon', (src, is_lit, lens, unfold, tok, keep, outs, unfold2))
    r = uri.canonicalize_data(s, unres, ok)
    k.ensures("the same bytes, unreserved ones literally", tokens(
        k, r, src, len(src), outs, keep), s, r)
    if k.native:
        k.ensures("denotes the same", uri.unescape_data(r) == src, s, r)
        if all(ok.holds(c) for c in unres.codes):
            k.ensures("idempotent", uri.canonicalize_data(
                r, unres, ok) == r, r)


# -- end to end, bounded --------------------------------------------------------

@bounded('escape, canonicalise, unescape', 'sampled byte strings and the '
         'tests of the module', src=Bytes(alphabet=[
             0, 32, 37, 47, 48, 58, 65, 70, 97, 102, 103, 126, 127, 128, 233,
             255], maxlen=14, words=[bytes(range(256)), b'%', b'%%', b'%41']),
         res=Choice([c for c in CLASSES]), ok=Choice([
             c for c in CLASSES if c[0].startswith('is_allowed')]))
def whole(k, src, res, ok):
    r = getattr(uri, res[0])
    a = getattr(uri, ok[0])
    e = uri.escape_data(src, reserved_test=r, allowed_test=a)
    k.ensures("lossless", uri.unescape_data(e) == src, e)
    want = ''.join(chr(b) if chr(b) in ok[1] and chr(b) not in res[1] else
                   '%%%02X' % b for b in src)
    k.ensures("escaped form", e == want, e, want)
    k.ensures("is all URI characters", uri.parse_uric(
        e, 0, a) == len(e), e)
    c = uri.canonicalize_data(e, allowed_test=a)
    k.ensures("canonical form denotes the same", uri.unescape_data(
        c) == src, c)
    k.ensures("idempotent", uri.canonicalize_data(
        c, allowed_test=a) == uri.canonicalize_data(
            c, allowed_test=a), c)
    d = uri.canonicalize_data(e)
    k.ensures("idempotent", uri.canonicalize_data(d) == d and
              uri.unescape_data(d) == src, d)
    want = ''.join(chr(b) if chr(b) in UNRESERVED or (
        chr(b) in RESERVED and chr(b) in ok[1] and chr(b) not in res[1])
        else '%%%02X' % b for b in src)
    k.ensures("canonical form", d == want, d, want)


@bounded('defaults', 'sampled byte strings', src=Bytes(maxlen=14))
def defaults(k, src):
    e = uri.escape_data(src)
    want = ''.join(chr(b) if chr(b) in UNRESERVED else '%%%02X' % b
                   for b in src)
    k.ensures("only unreserved characters and escapes", e == want, e, want)
    k.ensures("lossless", uri.unescape_data(e) == src)


@bounded('characters become escaped UTF-8', 'sampled texts', s=Str(
    alphabet='a/%\u00e9\u20ac\U0001f600 ~', maxlen=8))
def unicode_uri(k, s):
    k.requires(not any(0xd800 <= ord(c) < 0xe000 for c in s))
    u = uri.encode_unicode_uri(s)
    k.ensures("ASCII", all(ord(c) < 128 for c in u))
    want = ''.join(c if ord(c) < 128 else ''.join(
        '%%%02X' % b for b in c.encode('utf-8')) for c in s)
    k.ensures("UTF-8", u == want, u)
