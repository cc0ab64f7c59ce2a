"""X02: XML Schema lexical forms."""
import re
from fractions import Fraction
import sys
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Int, Bool, Choice, Gen, Str, StrN, has
from speclib.charclass import TEST
from pyslet.xml import structures as xml
from pyslet.xml import xsdatatypes as xsi

TEXT = Str(alphabet='01+-. \t\r\na\xa0\u0660\u3000', maxlen=8)


# -- booleans -----------------------------------------------------------------

@proof('booleans', s=Str(alphabet='truefals01 TF', maxlen=6))
def booleans(k, s):
    want = None
    if s == 'true' or s == '1':
        want = True
    elif s == 'false' or s == '0':
        want = False
    try:
        r = xsi.boolean_from_str(s)
    except ValueError:
        r = None
    k.ensures("exactly the four forms", r is want, r)


@proof('boolean text', b=Bool())
def boolean_text(k, b):
    t = xsi.boolean_to_str(b)
    k.ensures("canonical", t == ('true' if b else 'false'), t)
    k.ensures("decodes to the value", xsi.boolean_from_str(t) is b)


TRUTHS = ['true', 'false', '1', '0', 'True', 'TRUE', 'False', ' true',
          'true ', '', '00', '01', '10', 'yes', 'no', 't', 'f', 'true\n',
          '\u0661', '-1', '+1', 'truefalse']


@bounded('booleans of any text', 'listed texts', s=Choice(TRUTHS))
def boolean_forms(k, s):
    try:
        r = xsi.boolean_from_str(s)
    except ValueError:
        r = None
    k.ensures("exactly the four forms", r is {
        'true': True, 'false': False, '1': True, '0': False}.get(s), r)


# -- integers and decimals ----------------------------------------------------

def gen_number(rng):
    if rng.random() < .5:
        return ''.join(rng.choice('0123456789') for i in range(rng.randint(
            1, 25)))
    return ''.join(rng.choice('00112345789+-.. _eE\u0660\xb2\n\t' if
                              rng.random() < .3 else '0123+-.')
                   for i in range(rng.randint(0, 7)))


def value_of(f, s):
    try:
        return f(s)
    except ValueError:
        return None


INTS = ['', '+', '-', '0', '-0', '+0', '00', '-00', '007', '1 ', ' 1', '1\n',
        '1_0', '+-1', '--1', '1-', '1+', '0x1', '1e3', '\u0661', '\xb2', '1.',
        '\uff11', '+1', '-1', '9' * 40]


@bounded('integers', 'generated texts', s=Gen(gen_number, corners=INTS),
         _samples=8000)
def integers(k, s):
    m = re.match('([-+]?)([0-9]+)\\Z', s)
    want = None
    if m:
        want = 0
        for c in m.group(2):
            want = 10 * want + ord(c) - 48
        if m.group(1) == '-':
            want = -want
    r = value_of(xsi.integer_from_str, s)
    k.ensures("exactly the lexical forms", r == want and type(r) is type(want),
              r, want)
    if r is not None:
        t = xsi.integer_to_str(r)
        k.ensures("canonical", re.match('(0|-?[1-9][0-9]*)\\Z', t), t)
        k.ensures("decodes to the value", xsi.integer_from_str(t) == r)


DECS = INTS + ['.', '+.', '1.', '.1', '-.1', '+.1', '1.1.1', '.-1', '.+1',
               '1e1', 'INF', 'NaN', 'inf', 'nan', '0.0', '-0.0', '00.00',
               '1.5', '-1.50', '1,5']


@bounded('decimals', 'generated texts', s=Gen(gen_number, corners=DECS),
         _samples=8000)
def decimals(k, s):
    ok = re.match('[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)\\Z', s)
    r = value_of(xsi.decimal_from_str, s)
    k.ensures("exactly the lexical forms", (r is not None) == bool(ok), r)
    if ok:
        k.ensures("the nearest float", r == float(s))


def gen_float(rng):
    d = rng.randint(1, 15)
    e = rng.randint(-20, 20) if rng.random() < .7 else rng.randint(-330, 292)
    v = float('%s%de%d' % (rng.choice(['', '-']), rng.randint(
        0, 10 ** d - rng.choice([0, 1])), e))
    return v


@bounded('decimal text', 'generated values of up to 15 significant digits',
         v=Gen(gen_float, corners=[0.0, -0.0, 1.0, 0.1, 0.5, 100.0, 1e15,
                                   1e16, 1e22, 1e23, 1e300, 1e-300, 0.001,
                                   999999999999999.0, 0.999999999999999,
                                   9.99999999999999, 1e-5, 123456.789]),
         _samples=12000)
def decimal_text(k, v):
    t = xsi.decimal_to_str(v)
    k.ensures("canonical", re.match(
        '-?(0|[1-9][0-9]*)\\.([0-9]*[1-9]|0)\\Z', t), t)
    k.ensures("decodes to the value", xsi.decimal_from_str(t) == v, t)


@bounded('decimal text to a number of places', 'generated values',
         v=Gen(gen_float), digits=Int(0, 20), strip=Bool(), _samples=4000)
def decimal_places(k, v, digits, strip):
    k.requires(abs(v) < 1e12)
    t = xsi.decimal_to_str(v, digits=digits, strip_zeros=strip)
    k.ensures("a lexical form", xsi.decimal_from_str(t) is not None, t)
    places = len(t.partition('.')[2])
    k.ensures("places", places <= max(digits, 1) if strip else
              places == digits, t)
    k.ensures("within half a place", abs(xsi.decimal_from_str(t) - v) <=
              0.50001 * 10.0 ** -digits + abs(v) * 1e-14, t)


def gen_double(rng):
    d = rng.randint(1, 14)
    e = rng.randint(-20, 20) if rng.random() < .7 else rng.randint(-330, 292)
    return float('%s%de%d' % (rng.choice(['', '-']), rng.randint(
        0, 10 ** d - rng.choice([0, 1])), e))


@bounded('double text', 'generated values of up to 14 significant digits',
         v=Gen(gen_double, corners=[0.0, 1.0, 0.1, 0.5, 100.0, 1e15, 1e-307,
                                    1e22, 1e23, 1e300, 1e-300, 0.001,
                                    99999999999999.0, 0.99999999999999,
                                    9.9999999999999, 1e-5, 123456.789,
                                    float('inf'), float('-inf')]),
         _samples=12000)
def double_text(k, v):
    k.requires(v == 0 or abs(v) > 1e-307)
    t = xsi.double_to_str(v)
    k.ensures("canonical", re.match(
        '-?(0|[1-9])\\.([0-9]*[1-9]|0)E(0|-?[1-9][0-9]*)\\Z|-?INF\\Z', t),
        t)
    k.ensures("decodes to the value", xsi.double_from_str(t) == v, t)


def gen_double_text(rng):
    m = gen_number(rng)
    if rng.random() < 0.6:
        m += rng.choice('eE') + rng.choice(['', '', '-', '+', '--']) + \
            rng.choice(['0', '1', '10', '007', '300', '', '1.0'])
    return m


@bounded('doubles', 'generated texts', s=Gen(gen_double_text, corners=DECS),
         _samples=8000)
def doubles(k, s):
    number = '[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)'
    ok = re.match(number + '([eE][-+]?[0-9]+)?\\Z', s) or \
        s.lower() in ('inf', '-inf', 'nan')
    r = value_of(xsi.double_from_str, s)
    k.ensures("exactly the lexical forms", (r is not None) == bool(ok), r)
    if ok and s.lower() != 'nan':
        k.ensures("the nearest float", r == float(s), r)


@bounded('double text to a number of digits', 'generated values',
         v=Gen(gen_double), digits=Int(0, 13), _samples=4000)
def double_digits(k, v, digits):
    k.requires(v != 0 and abs(v) > 1e-300)
    t = xsi.double_to_str(v, digits=digits, strip_zeros=False)
    m, e = t.split('E')
    k.ensures("digits", len(m.partition('.')[2]) == digits, t)
    unit = Fraction(10) ** (int(e) - digits)
    k.ensures("within half a digit",
              abs(Fraction(m) * Fraction(10) ** int(e) - Fraction(v)) * 2 <=
              unit, t)
    k.ensures("normal", 1 <= abs(Fraction(m)) < 10, t)


@proof('integers of up to 5 characters', _bounded='texts up to 5 characters',
       s=StrN(maxlen=5, alphabet='01+-9 .'))
def short_integers(k, s):
    n = len(s)
    ok = n > 0
    neg = False
    start = 0
    if n > 0 and (s[0] == '-' or s[0] == '+'):
        start = 1
        neg = s[0] == '-'
    if n == start:
        ok = False
    v = 0
    for i in range(start, n):
        c = ord(s[i])
        if c < 48 or c > 57:
            ok = False
        v = v * 10 + (c - 48)
    try:
        r = xsi.integer_from_str(s)
    except ValueError:
        r = None
    k.ensures("accepted when a lexical form", (r is not None) == ok, r)
    if ok and r is not None:
        k.ensures("the value", r == (-v if neg else v), r)


# -- names --------------------------------------------------------------------

START = [(58, 58), (65, 90), (95, 95), (97, 122), (0xc0, 0xd6), (0xd8, 0xf6),
         (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d),
         (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff),
         (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff)]
EXTRA = [(45, 46), (48, 57), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)]


def among(k, c, ranges):
    return k.Or(*[k.And(c >= a, c <= b) for a, b in ranges])


NAMES = Str(alphabet='a:-.0_ \xb7\xd7\u037e\u0300\u203f\u2000\ufdd0\ufffe'
            '\U00010000\U000f0000', maxlen=5)


def name_inv(k, L):
    name = k.get('name')
    i = L._i
    return [("position", k.And(i >= 0, i <= len(name) - 1)),
            ("name characters so far", k.forall(
                1, i + 1, lambda j: among(k, k.code(name, j),
                                          START + EXTRA)))]


@proof('names', _loops=[LoopSpec('is_valid_name', inv=name_inv,
                                 label='characters')],
       _uses=[TEST], s=NAMES)
def names(k, s):
    k.put('name', s)
    want = k.And(len(s) > 0, lambda: among(k, k.code(s, 0), START),
                 lambda: k.forall(1, len(s), lambda j: among(
                     k, k.code(s, j), START + EXTRA)))
    r = xml.is_valid_name(s)
    k.ensures("exactly the production Name", want if r else k.Not(want), r)


@proof('a name is returned', _loops=[LoopSpec(
    'is_valid_name', inv=name_inv, label='characters')], _uses=[TEST],
    s=NAMES)
def name_from(k, s):
    k.put('name', s)
    want = k.And(len(s) > 0, lambda: among(k, k.code(s, 0), START),
                 lambda: k.forall(1, len(s), lambda j: among(
                     k, k.code(s, j), START + EXTRA)))
    try:
        r = xsi.name_from_str(s)
    except ValueError:
        r = None
    if r is None:
        k.ensures("refused", k.Not(want))
    else:
        k.ensures("accepted", k.And(want, r == s), r)


@bounded('every character in a name', 'every 7th character in names',
         plane=Choice(list(range(17))), _samples=17)
def all_names(k, plane):
    def among(c, ranges):
        return any(a <= c <= b for a, b in ranges)
    for c in range(plane << 16, plane + 1 << 16):
        x = chr(c)
        if bool(xml.is_name_start_char(x)) != among(c, START):
            k.fail("name start character", c)
        if bool(xml.is_name_char(x)) != among(c, START + EXTRA):
            k.fail("name character", c)
        if c % 7 == 0 or c < 0x3100:
            if xml.is_valid_name('a' + x) != among(c, START + EXTRA):
                k.fail("in a name", c)
            if xml.is_valid_name(x) != among(c, START):
                k.fail("at the start of a name", c)


# -- white space --------------------------------------------------------------

def is_ws(k, c):
    return k.Or(c == 32, c == 9, c == 10, c == 13)


def replace_inv(k, L):
    s = k.get('s')
    out = k.joined(L.output)
    i = L._i
    return [("position", k.And(i >= 0, i <= len(s))),
            ("length", len(out) == i),
            ("replaced so far", k.forall(0, i, lambda j: k.code(
                out, j) == k.ite(is_ws(k, k.code(s, j)), 32,
                                 k.code(s, j))))]


@proof('white_space_replace', _loops=[LoopSpec(
    'white_space_replace', inv=replace_inv, havoc={'output': 'joinstr'},
    label='characters')], s=TEXT)
def replace(k, s):
    k.put('s', s)
    r = xsi.white_space_replace(s)
    k.ensures("each character", k.And(len(r) == len(s), lambda: k.forall(
        0, len(s), lambda j: k.code(r, j) == k.ite(
            is_ws(k, k.code(s, j)), 32, k.code(s, j)))), r)


def collapse_lens(k, s):
    """the length of the collapsed form of the first i characters, without
    a trailing space"""
    def step(prev, i):
        c = k.code(s, i)
        gap = k.And(prev > 0, i > 0, lambda: is_ws(k, k.code(s, i - 1)))
        return prev + k.ite(is_ws(k, c), 0, k.ite(gap, 2, 1))
    return k.fold('lens', 'int', 0, step)


def collapsed(k, out, s, n, lens):
    def place(j):
        c = k.code(s, j)
        l = lens(j)
        gap = k.And(l > 0, j > 0, lambda: is_ws(k, k.code(s, j - 1)))
        return k.Or(is_ws(k, c), lambda: k.ite(
            gap, lambda: k.And(l + 2 <= len(out), lambda: k.And(
                k.code(out, l) == 32, k.code(out, l + 1) == c)),
            lambda: k.And(l >= 0, l < len(out), lambda: k.code(
                out, l) == c)))
    return k.And(len(out) == lens(n), lambda: k.forall(0, n, place))


def collapse_inv(k, L):
    s, lens, unfold = k.get('s')
    i = L._i
    unfold(i)
    out = k.joined(L.output)
    l = len(out)
    return [("position", k.And(i >= 0, i <= len(s))),
            ("collapsed so far", collapsed(k, out, s, i, lens)),
            ("white space seen", k.Or(l == 0, k.cond(L.got_space) == k.And(
                i > 0, lambda: is_ws(k, k.code(s, i - 1))))),
            ("ends in a character", k.Or(l == 0, lambda: k.Not(is_ws(
                k, k.code(out, l - 1)))))]


@proof('white_space_collapse', _loops=[LoopSpec(
    'white_space_collapse', inv=collapse_inv, havoc={
        'output': 'chars', 'got_space': 'bool'}, label='characters')],
    s=TEXT)
def collapse(k, s):
    lens, unfold = collapse_lens(k, s)
    k.put('s', (s, lens, unfold))
    r = xsi.white_space_collapse(s)
    k.ensures("each character after at most one space", collapsed(
        k, r, s, len(s), lens), r)


def runs_lens(k, s, mode):
    """the length of the first i characters with runs of white space as one
    space, without those at the start when mode"""
    def step(prev, i):
        skip = k.And(is_ws(k, k.code(s, i)), k.ite(
            i > 0, lambda: is_ws(k, k.code(s, i - 1)), lambda: mode))
        return prev + k.ite(skip, 0, 1)
    return k.fold('runs', 'int', 0, step)


def runs(k, out, s, n, lens, mode):
    def place(j):
        c = k.code(s, j)
        skip = k.And(is_ws(k, c), k.ite(
            j > 0, lambda: is_ws(k, k.code(s, j - 1)), lambda: mode))
        return k.Or(skip, lambda: k.And(
            lens(j) >= 0, lens(j) < len(out), lambda: k.code(
                out, lens(j)) == k.ite(is_ws(k, c), 32, c)))
    return k.And(len(out) == lens(n), lambda: k.forall(0, n, place))


def runs_inv(k, L):
    s, lens, unfold, mode = k.get('s')
    i = L._i
    unfold(i)
    out = k.joined(L.result)
    return [("position", k.And(i >= 0, i <= len(s))),
            ("so far", runs(k, out, s, i, lens, mode)),
            ("white space seen", k.cond(L.smode) == k.ite(
                i > 0, lambda: is_ws(k, k.code(s, i - 1)), lambda: mode))]


@proof('collapse_space', _loops=[LoopSpec(
    'collapse_space', inv=runs_inv, havoc={
        'result': 'chars', 'smode': 'bool'}, label='characters')],
    s=TEXT, mode=Bool())
def collapse_runs(k, s, mode):
    lens, unfold = runs_lens(k, s, mode)
    k.put('s', (s, lens, unfold, mode))
    r = xml.collapse_space(s, mode)
    k.ensures("runs of white space are one space", k.ite(
        lens(len(s)) == 0, lambda: r == ' ',
        lambda: runs(k, r, s, len(s), lens, mode)), r)


@bounded('white space', 'generated texts', s=Str(
    alphabet=' \t\r\na\xa0\u3000', maxlen=12), _samples=6000)
def spaces(k, s):
    words = [w for w in re.split('[ \t\r\n]+', s) if w]
    r = xsi.white_space_collapse(s)
    k.ensures("collapsed", r == ' '.join(words), r)
    k.ensures("replaced", xsi.white_space_replace(s) == re.sub(
        '[\t\r\n]', ' ', s))
    for mode in (True, False):
        r = xml.collapse_space(s, mode)
        want = re.sub('[ \t\r\n]+', ' ', s)
        if mode:
            want = want.lstrip(' ')
        k.ensures("collapse_space", r == (want or ' '), mode, r)
