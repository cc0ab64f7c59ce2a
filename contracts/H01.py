"""H01: HTTP tokens, quoted strings and parameters."""
from pyvc.kit import proof, bounded, Contract, Int, Choice, Bool, Str, Bytes, \
    Union, Const, Gen, Opt
from pyvc.interp import LoopSpec
from pyslet.http import grammar
from pyslet.http.grammar import OctetParser, WordParser, BadSyntax
from pyslet.unicode5 import ParserError

SEPS = b'()<>@,;:\\"/[]?={} \t'
CTL = bytes(range(32)) + b'\x7f'
UP = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIG = b'0123456789'
TOKEN = bytes(c for c in range(128) if c not in SEPS and c not in CTL)


def ranges(bs):
    """the ranges of byte values of a set"""
    out, codes = [], sorted(set(bs))
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


RANGES = {}


def among(k, c, bs):
    """c is one of the bytes"""
    if k.native:
        return c in bs
    return k.Or(*[k.And(c >= a, c <= b) for a, b in RANGES[bs]])


CLASSES = [('is_octet', bytes(range(256))), ('is_char', bytes(range(128))),
           ('is_upalpha', UP), ('is_loalpha', UP.lower()),
           ('is_alpha', UP + UP.lower()), ('is_digit', DIG),
           ('is_ctl', CTL), ('is_hex', DIG + b'abcdefABCDEF'),
           ('is_separator', SEPS)]
for BS in [c[1] for c in CLASSES] + [TOKEN]:
    RANGES[BS] = ranges(BS)


@proof('byte classes', which=Choice(CLASSES), b=Opt(Int(0, 255)))
def classes(k, which, b):
    name, want = which
    r = getattr(grammar, name)(b)
    if b is None:
        k.ensures("the end is in no class", k.Not(r))
    else:
        k.ensures("the class of the specification", k.Iff(
            r, among(k, b, want)))


ISDIGITS = LoopSpec('is_digits', inv=lambda k, L: [("digits so far", k.forall(
    0, L._i, lambda j: among(k, k.code(L.src, j), DIG)))], label='digits')
ISHEX = LoopSpec('is_hexdigits', inv=lambda k, L: [(
    "digits so far", k.forall(0, L._i, lambda j: among(
        k, k.code(L.src, j), DIG + b'abcdefABCDEF')))], label='digits')
DIGB = Bytes(alphabet=b'019afgAFG:/@` ', maxlen=5, words=[
    b'', b'0', b'12', b'1a', b'aF', b'0g'])


@proof('runs of digits', _loops=[ISDIGITS, ISHEX], src=DIGB)
def digits(k, src):
    n = len(src)
    k.ensures("is_digits", k.Iff(grammar.is_digits(src), k.And(
        n > 0, k.forall(0, n, lambda j: among(k, k.code(src, j), DIG)))))
    k.ensures("is_hexdigits", k.Iff(grammar.is_hexdigits(src), k.And(
        n > 0, k.forall(0, n, lambda j: among(
            k, k.code(src, j), DIG + b'abcdefABCDEF')))))


# -- tokens --------------------------------------------------------------------

CHECK = LoopSpec('check_token', inv=lambda k, L: [("token so far", k.forall(
    0, L._i, lambda j: among(k, k.code(L.t, j), TOKEN)))], label='bytes')
ANYB = Bytes(alphabet=b'aZ0!~-.+ \t()<>@,;:\\"/[]?={}\x00\x1f\x7f\x80\xe9\xff',
             maxlen=5, words=[b'', b'a', b'token', b'a b', b'a=b'])


@proof('check_token accepts exactly the tokens', _loops=[CHECK], t=ANYB)
def check_token(k, t):
    n = len(t)
    good = k.And(n > 0, k.forall(0, n, lambda j: among(
        k, k.code(t, j), TOKEN)))
    try:
        r = grammar.check_token(t)
    except ValueError:
        k.ensures("refused only when not a token", k.Not(good))
        return
    k.ensures("accepted only when a token", good)
    k.ensures("the same text", k.And(len(r) == n, k.forall(
        0, n, lambda j: k.code(r, j) == k.code(t, j))), r)


@proof('check_token of a single byte', b=Int(0, 255))
def check_byte(k, b):
    good = among(k, b, TOKEN)
    try:
        r = grammar.check_token(b)
    except ValueError:
        k.ensures("refused only when not a token", k.Not(good))
        return
    k.ensures("accepted only when a token", good)
    k.ensures("the same text", k.And(len(r) == 1, lambda: k.code(
        r, 0) == b), r)


# -- quoting ---------------------------------------------------------------------

def escaped(k, c):
    """this byte needs a backslash"""
    return k.Or(c == 34, c == 92, k.And(c != 9, among(k, c, CTL)))


def is_esc(k, s):
    return lambda j: escaped(k, k.code(s, j))


def lengths(k, esc):
    return k.fold('lens', 'int', 0, lambda prev, i: prev + k.ite(
        esc(i), 2, 1))


def pair_at(k, q, off, s, lens, esc, j):
    """q has byte j of s, with its backslash if it needs one"""
    p = off + lens(j)
    return k.And(lens(j) >= 0, lambda: p + k.ite(esc(j), 2, 1) <= len(q),
                 lambda: k.ite(esc(j), lambda: k.And(
                     k.code(q, p) == 92, k.code(q, p + 1) == k.code(s, j)),
        lambda: k.code(q, p) == k.code(s, j)))


def quote_inv(k, L):
    s, esc, lens, unfold, force = k.get('quote')
    i = L._i
    unfold(i)
    q = k.joined(L.qstring, 'bytes')
    return [("position", k.And(i >= 0, i <= len(s))),
            ("once forced", k.Implies(k.Or(force, len(s) == 0), L.force)),
            ("length", len(q) == 1 + lens(i)),
            ("opening quote", k.code(q, 0) == 34),
            ("the last byte", k.Or(i == 0, lambda: pair_at(
                k, q, 1, s, lens, esc, i - 1))),
            ("quoted so far", k.forall(0, i, lambda j: pair_at(
                k, q, 1, s, lens, esc, j))),
            ("not forced only for tokens", k.Or(L.force, k.And(
                k.forall(0, i, lambda j: among(k, k.code(s, j), TOKEN)),
                lens(i) == i, k.forall(0, i, lambda j: k.And(
                    lens(j) == j, k.code(q, 1 + j) == k.code(s, j))))))]


QUOTE = LoopSpec('quote_string', inv=quote_inv, havoc={
    'qstring': 'codes', 'force': 'bool'}, label='bytes')
QB = Bytes(alphabet=b'aZ0! \t"\\()=,;\x00\r\n\x7f\x80\xff', maxlen=7, words=[
    b'', b'a', b'"', b'\\', b'a b', b'\\"', b'\r\n a', b'"\\\\"'])


@proof('quote_string quotes each byte', _loops=[QUOTE], s=QB, force=Bool())
def quote(k, s, force):
    n = len(s)
    esc = is_esc(k, s)
    lens, unfold = lengths(k, esc)
    unfold(n)
    k.put('quote', (s, esc, lens, unfold, force))
    r = grammar.quote_string(s, force)
    if len(r) == n and not force and n > 0 and k.code(r, 0) != 34:
        k.ensures("unquoted only for a token", k.forall(
            0, n, lambda j: k.And(among(k, k.code(s, j), TOKEN), k.code(
                r, j) == k.code(s, j))), r)
    else:
        k.ensures("length", len(r) == 2 + lens(n), r)
        k.ensures("quotes", k.And(k.code(r, 0) == 34, k.code(
            r, len(r) - 1) == 34), r)
        k.ensures("each byte, with a backslash where needed", k.forall(
            0, n, lambda j: pair_at(k, r, 1, s, lens, esc, j)), r)


def decode_inv(k, L):
    s, esc, lens, unfold, q = k.get('decode')
    data = k.joined(L.qbuff, 'bytes')
    i = len(data)
    unfold(i)
    pos = L._i
    return [("no more than there is", i <= len(s)),
            ("the last byte", k.Or(i == 0, lambda: k.code(
                data, i - 1) == k.code(s, i - 1))),
            ("decoded so far", k.forall(
                0, i, lambda j: k.code(data, j) == k.code(s, j))),
            ("position", k.ite(L.escape, lambda: k.And(
                pos == lens(i) + 1, i < len(s), esc(i)),
                lambda: pos == lens(i)))]


def induct(n):
    i = 0
    while i < n:
        i += 1


def plain_inv(k, L):
    lens, unfold, n = k.get('plain')
    unfold(L.i)
    return [("position", k.And(L.i >= 0, L.i <= n)),
            ("one byte each", lens(L.i) == L.i),
            ("one byte each before", k.forall(
                0, L.i, lambda j: lens(j) == j))]


PLAIN = LoopSpec('induct', inv=plain_inv, havoc={'i': 'int'}, label='plain',
                 variant=lambda k, L: L.n - L.i)
DECODE = LoopSpec('decode_quoted_string', inv=decode_inv, havoc={
    'qbuff': 'codes', 'escape': 'bool'}, label='bytes')


@proof('decode_quoted_string gives back what was quoted', _loops=[DECODE, PLAIN],
       s=QB)
def decode(k, s):
    n = len(s)
    esc = is_esc(k, s)
    lens, unfold = lengths(k, esc)
    if k.native:
        q = grammar.quote_string(s)
    else:
        t = k.fresh('bytes', 't')
        k.assume(k.And(len(t) == lens(n), k.forall(
            0, n, lambda j: pair_at(k, t, 0, s, lens, esc, j))))
        q = k.cat(b'"', t, b'"')
        if k.forall(0, len(t), lambda j: k.code(t, j) != 92):
            k.put('plain', (lens, unfold, n))
            induct(n)
    k.put('decode', (s, esc, lens, unfold, q))
    r = grammar.decode_quoted_string(q)
    k.ensures("length", len(r) == n, r)
    k.ensures("the same bytes", k.forall(
        0, n, lambda j: k.code(r, j) == k.code(s, j)), r)


# -- parsing, native -------------------------------------------------------------

def lexed(data, pos=0):
    """Length of a quoted string at pos, or None when there is none"""
    if data[pos:pos + 1] != b'"':
        return None
    i = pos + 1
    while i < len(data):
        c = data[i]
        if c == 34:
            return i + 1 - pos
        if c == 92:
            if i + 1 >= len(data) or data[i + 1] > 127:
                return None
            i += 2
        elif c in b' \t':
            i += 1
        elif data[i:i + 2] == b'\r\n' and data[i + 2:i + 3] in (b' ', b'\t'):
            i += 3
        elif c in CTL:
            return None
        else:
            i += 1
    return None


@bounded('a quoted string never ends early', 'sampled byte strings',
         s=QB, rest=QB, _samples=6000)
def whole_string(k, s, rest):
    q = grammar.quote_string(s)
    k.ensures("a quoted string", lexed(q + rest) == len(q), q)
    p = OctetParser(q + rest)
    k.ensures("parsed to its end", p.parse_quoted_string() == q and
              p.pos == len(q), p.pos)
    k.ensures("decodes to the original", grammar.decode_quoted_string(
        q) == s, q)
    u = grammar.quote_string(s, force=False)
    if s and all(c in TOKEN for c in s):
        k.ensures("a token as it is", u == s, u)
    else:
        k.ensures("quoted unless a token", u == q, u)
    w = WordParser(q)
    k.ensures("a word", w.is_quoted_string() and
              w.parse_quoted_string() == s and w.match_end(), w.words)


@bounded('quoted strings are recognised', 'sampled byte strings', s=Bytes(
    alphabet=b'"""\\\\a\r\n \t\x00\xff', maxlen=8, words=[
        b'"', b'""', b'"a', b'"\\"', b'"\\', b'"a"b"']), _samples=8000)
def recognise(k, s):
    n = lexed(s)
    p = OctetParser(s)
    try:
        r = p.parse_quoted_string()
    except ParserError:
        k.ensures("refused only when malformed", n is None)
        return
    if r is None:
        k.ensures("none only without a quote", s[:1] != b'"' and p.pos == 0)
    else:
        k.ensures("up to the closing quote", n is not None and
                  r == s[:n] and p.pos == n, r)


@bounded('tokens are the longest runs', 'sampled byte strings', s=ANYB,
         _samples=6000)
def token_runs(k, s):
    k.requires(all(c < 128 for c in s))
    n = 0
    while n < len(s) and s[n] in TOKEN:
        n += 1
    p = OctetParser(s)
    r = p.parse_token()
    k.ensures("the longest run", (r or b'') == s[:n] and p.pos == n, r)
    k.ensures("none when empty", (r is None) == (n == 0))


def gen_params(rng):
    out = {}
    for i in range(rng.randint(0, 4)):
        name = ''.join(chr(rng.choice(TOKEN)) for j in range(
            rng.randint(1, 4)))
        if rng.random() < .4:
            val = bytes(rng.choice(TOKEN) for j in range(rng.randint(1, 4)))
        else:
            val = bytes(rng.choice(b'a"\\ \t;=,()\r\n\x00\x7f\x80\xff/')
                        if rng.random() < .8 else rng.randrange(256)
                        for j in range(rng.randint(0, 6)))
        out[name.lower()] = (name, val)
    return out


@bounded('parameters survive', 'generated dictionaries', params=Gen(
    gen_params, corners=[{}, {'a': ('A', b'')}, {'q': ('q', b'0')},
                         {'a': ('a', b'"')}, {'a': ('a', b'\\')},
                         {'a': ('a', b' ')}, {'a': ('a', b'(')},
                         {'b': ('b', b'x'), 'a': ('a', b'\xe9')}]),
    _samples=8000)
def params(k, params):
    text = grammar.format_parameters(params)
    for sp in (True, False):
        w = WordParser(text, ignore_sp=sp)
        got = w.parse_parameters({}, ignore_allsp=sp)
        k.ensures("the parameters", got == params, text, got)
        k.ensures("all of the text", w.match_end(), text)
    w = WordParser(text)
    got = w.parse_parameters({}, case_sensitive=True)
    k.ensures("case kept on request", got == dict(
        (p[0], p) for p in params.values()), text, got)
    got = WordParser(text).parse_parameters({}, qmode='m')
    keys = sorted(params)
    keep = keys[:keys.index('m')] if 'm' in params else keys
    k.ensures("stops before the named one", got == dict(
        (x, params[x]) for x in keep), got)


def gen_words(rng):
    """words and the text they are written as"""
    words, out = [], b''
    last = False
    for i in range(rng.randint(0, 6)):
        sp = rng.choice([b'', b'', b' ', b'\t', b'\r\n ', b' \r\n\t '])
        r = rng.random()
        if r < .5:
            w = bytes(rng.choice(TOKEN) for j in range(rng.randint(1, 4)))
            if last and not sp:
                sp = b' '
            words.append(('t', w))
            last = True
        elif r < .7:
            v = bytes(rng.choice(b'a"\\ ;,') for j in range(rng.randint(0, 4)))
            w = grammar.quote_string(v)
            words.append(('q', v))
            last = False
        else:
            c = rng.choice(b'<>@,;:/[]?={}\\)')
            w = bytes([c])
            words.append(('s', c))
            last = False
        out += sp + w
    return words, out + rng.choice([b'', b' '])


@bounded('words are read one by one', 'generated texts', case=Gen(gen_words),
         _samples=6000)
def words(k, case):
    want, text = case
    w = WordParser(text)
    for kind, v in want:
        k.ensures("not at the end", not w.match_end(), text)
        k.ensures("kind of word", w.is_token() == (kind == 't') and
                  w.is_quoted_string() == (kind == 'q'), text, w.the_word)
        pos = w.pos
        num = kind == 't' and all(c in DIG for c in v)
        hexa = kind == 't' and all(c in DIG + b'abcdefABCDEF' for c in v)
        k.ensures("integers", w.parse_integer() == (
            int(v) if num else None), text)
        w.setpos(pos)
        k.ensures("hexadecimal integers", w.parse_hexinteger() == (
            int(v, 16) if hexa else None), text)
        w.setpos(pos)
        if kind == 't':
            k.ensures("token", w.parse_separator(grammar.COMMA) is False and
                      w.parse_quoted_string() is None and
                      w.parse_token() == v, text)
        elif kind == 'q':
            k.ensures("quoted string", w.parse_token() is None and
                      w.parse_quoted_string() == v, text)
        else:
            k.ensures("separator", w.parse_token() is None and
                      w.parse_quoted_string() is None and
                      w.parse_separator(v), text)
        k.ensures("one word", w.pos == pos + 1)
    k.ensures("nothing left", w.match_end() and w.parse_token() is None)
