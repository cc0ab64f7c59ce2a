"""O01: typed data values."""
import decimal
import uuid
from pyvc.kit import proof, bounded, Int, Bool, Choice, Gen, Str, StrN, \
    Union, Const, Opt, Bytes, Contract, has
from pyslet.odata2 import csdl
from pyslet.odata2.csdl import EDMValue, SimpleType
from contracts.U02 import DIGITS_C, INSENS_C, ERROR_C, \
    at, at_digit, at_word, consistent, digit

RANGES = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767),
          'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}
DIGITS = {'Byte': None, 'SByte': None, 'Int16': None, 'Int32': 10,
          'Int64': 19}
TYPE = Choice(['Byte', 'SByte', 'Int16', 'Int32', 'Int64'])
EDGES = sorted(set(b + d for r in RANGES.values() for b in r
                   for d in (-1, 0, 1)))
OLD = Opt(Int(0, 100, corners=[0, 7]))


def fresh(name, old):
    v = EDMValue.from_type(getattr(SimpleType, name))
    v.set_from_value(old)
    return v


@proof('from an integer', t=TYPE, old=OLD, n=Int(None, None,
                                                    corners=EDGES))
def from_integer(k, t, old, n):
    v = fresh(t, old)
    k.ensures("starts with the old value", v.value == old)
    lo, hi = RANGES[t]
    try:
        v.set_from_value(n)
        k.ensures("in range", k.And(n >= lo, n <= hi))
        k.ensures("stores exactly it", v.value == n, v.value)
    except ValueError:
        k.ensures("out of range", k.Or(n < lo, n > hi))
        k.ensures("keeps the old value", v.value == old, v.value)
    v.set_from_value(None)
    k.ensures("null", v.is_null())


# -- numeric literals ---------------------------------------------------------

TEXT = Str(alphabet='0123456789-+.eEinfaINFA \u0660', maxlen=22, words=[
    '-12', '-1.5', '1e5', '-INF', 'nan', '1E-', '.', '-', '1.', '.5', '-0',
    '00012', '2147483648', '-2147483648', '9223372036854775808'])


def sign_end(k, src, pos):
    """where the digits start"""
    if pos < len(src) and k.code(src, pos) == 45:
        return pos + 1
    return pos


def is_at(k, src, i, codes):
    return k.And(i < len(src), lambda: k.Or(*[
        k.code(src, i) == c for c in codes]))


def starts_word(k, src, i):
    return k.Or(at_word(k, src, i, 'inf'), at_word(k, src, i, 'nan'))


def integer_form(k, r):
    return k.And(r.rdigits is None, r.edigits is None,
                 r.ldigits is not None)


def numeric_post(k, src, pos, p, r):
    """the parts in the integer form, that it is not one in the others"""
    start = sign_end(k, src, pos)
    if r is None:
        return [("it is left where it was", p.pos == pos),
                ("there are no digits", k.Not(at_digit(
                    k, src, start, digit)))]
    out = [("within the source", k.And(p.pos > pos, p.pos <= len(src)))]
    if r.rdigits is None and r.edigits is None:
        out.append(("the sign", r.sign == ('-' if start > pos else '')))
        if r.ldigits == 'inf' or r.ldigits == 'nan':
            out.append(("a word", k.And(k.Not(at_digit(
                k, src, start, digit)), p.pos == start + 3)))
        else:
            out.append(("digits", k.And(
                p.pos > start, r.ldigits == src[start:p.pos], k.forall(
                    start, p.pos, lambda i: digit(k, src, i)))))
            out.append(("each is a digit", k.all_codes(
                r.ldigits, lambda c: k.And(c >= 48, c <= 57))))
            out.append(("all of them", k.Not(at_digit(
                k, src, p.pos, digit))))
    else:
        out.append(("not just digits", k.Not(k.forall(
            start, p.pos, lambda i: digit(k, src, i)))))
    return out


@proof('parse_numeric_literal', _uses=[DIGITS_C, INSENS_C], _feas_ms=100, src=TEXT, pos=Int(
    0, None, corners=[0, 1, 2]))
def parse_numeric(k, src, pos):
    k.requires(pos <= len(src))
    p = csdl.Parser(src)
    p.setpos(pos)
    r = p.parse_numeric_literal()
    for name, c in numeric_post(k, src, pos, p, r):
        k.ensures(name, c, r)
    consistent(k, p, src)


def numeric_result(k, self):
    self.was = self.pos
    if k.split(k.fresh('bool', 'none')):
        return None
    n = k.fresh('int', 'end')
    k.assume(k.And(n > self.pos, n <= len(self.src)))
    start = sign_end(k, self.src, self.pos)
    sign = '-' if start > self.pos else ''
    if k.split(k.fresh('bool', 'plain')):
        if k.split(k.fresh('bool', 'word')):
            r = csdl.Numeric(sign, 'inf' if k.split(k.fresh('bool'))
                             else 'nan', None, '', None)
        else:
            r = csdl.Numeric(sign, k.sub(self.src, start, n), None, '', None)
    else:
        r = csdl.Numeric(
            sign, k.fresh('str', 'l'), k.fresh('str', 'r') if k.split(
                k.fresh('bool')) else None, '+', k.fresh('str', 'e'))
    self.setpos(n)
    return r


def numeric_holds(k, r, self):
    return k.And(*[c for name, c in numeric_post(
        k, self.src, self.was, self, r)])


NUMERIC_C = Contract('pyslet.odata2.csdl:Parser.parse_numeric_literal',
                     numeric_result, numeric_holds,
                     checked_by='O01 parse_numeric_literal')


OTHER = Opt(Str(alphabet='0123', maxlen=3))


def digits_only(k, s):
    return k.all_codes(s, lambda c: k.And(c >= 48, c <= 57))


def sign_fits(t, sign):
    return sign == '' or t != 'Byte'


@proof('from the parts of an integer literal', t=TYPE, old=OLD, sign=Choice(
    ['', '-']), digits=Str(alphabet='0123456789', ranges=[(48, 57)],
                           minlen=1, maxlen=22))
def from_parts(k, t, old, sign, digits):
    k.requires(k.And(len(digits) > 0, digits_only(k, digits)))
    v = fresh(t, old)
    lo, hi = RANGES[t]
    m = k.decval(digits)
    if sign:
        m = -m
    ok = k.And(sign_fits(t, sign), DIGITS[t] is None or
               len(digits) <= DIGITS[t], m >= lo, m <= hi)
    try:
        v.set_from_numeric_literal(csdl.Numeric(sign, digits, None, '', None))
        k.ensures("accepted when it fits", ok, m)
        k.ensures("stores exactly it", v.value == m, v.value)
    except ValueError:
        k.ensures("refused when it does not", k.Not(ok), m)
        k.ensures("keeps the old value", v.value == old, v.value)


@proof('from other parts', t=TYPE, old=OLD, sign=Choice(['', '-']),
       left=Union(Choice(['', 'inf', 'nan']), Str(
           alphabet='0123', maxlen=3)), right=OTHER, exp=OTHER)
def from_other_parts(k, t, old, sign, left, right, exp):
    k.requires(k.Or(right is not None, exp is not None, left == '',
                    left == 'inf', left == 'nan'))
    v = fresh(t, old)
    try:
        v.set_from_numeric_literal(csdl.Numeric(
            sign, left, right, '+', exp))
        k.fail("a literal that is not an integer is accepted")
    except ValueError:
        k.ensures("keeps the old value", v.value == old, v.value)


def parts_set(k, self, num):
    """what set_from_numeric_literal does, from the two above"""
    t = k.get('t')
    lo, hi = RANGES[t]
    if num.rdigits is not None or num.edigits is not None or \
            num.ldigits in ('', 'inf', 'nan'):
        raise ValueError
    m = k.decval(num.ldigits)
    if num.sign:
        m = -m
    if k.And(sign_fits(t, num.sign), DIGITS[t] is None or
             len(num.ldigits) <= DIGITS[t], m >= lo, m <= hi):
        self.value = m
    else:
        raise ValueError


def parts_pre(k, self, num):
    return k.Or(num.rdigits is not None, num.edigits is not None,
                num.ldigits == '', num.ldigits == 'inf',
                num.ldigits == 'nan', lambda: k.And(
                    len(num.ldigits) > 0, digits_only(k, num.ldigits)))


PARTS_C = [Contract('pyslet.odata2.csdl:%sValue.set_from_numeric_literal' % t,
                    'none', modifies=parts_set, pre=parts_pre,
                    checked_by='O01 from the parts of an integer literal, '
                    'from other parts') for t in RANGES]


@proof('from a numeric literal of any text', _uses=[NUMERIC_C, ERROR_C] +
       PARTS_C, _feas_ms=100, t=TYPE, old=OLD, s=TEXT)
def from_literal(k, t, old, s):
    k.put('t', t)
    v = fresh(t, old)
    lo, hi = RANGES[t]
    try:
        v.set_from_literal(s)
        ok = True
    except ValueError:
        ok = False
    n = len(s)
    start = 0
    if t != 'Byte' and n > 0 and s[0] == '-':
        start = 1
    form = k.And(n > start, k.forall(start, n, lambda i: digit(k, s, i)),
                 DIGITS[t] is None or n - start <= DIGITS[t])
    if not ok:
        k.ensures("keeps the old value", v.value == old, v.value)
    if form:
        m = k.decval(s[start:])
        if start:
            m = -m
        inside = k.And(m >= lo, m <= hi)
        k.ensures("accepted exactly when in range", inside if ok else
                  k.Not(inside), m)
        if ok:
            k.ensures("stores exactly it", v.value == m, v.value)
    else:
        k.ensures("any other form is refused", not ok, v.value)


# -- the text of a value ------------------------------------------------------

def again(v):
    w = EDMValue.from_type(v.type_code)
    w.set_from_literal(str(v))
    return w


@bounded('text of integers', 'all of the small types, generated others',
         t=TYPE, n=Int(None, None, corners=EDGES + list(range(-33, 257))),
         _samples=6000)
def integer_text(k, t, n):
    lo, hi = RANGES[t]
    k.requires(lo <= n <= hi)
    v = fresh(t, n)
    k.ensures("plain digits", str(v) == '%d' % n, str(v))
    w = again(v)
    k.ensures("parses back", w.value == n and w.type_code == v.type_code and
              type(w.value) is int, w.value)


def gen_number(rng):
    t = rng.choice(sorted(RANGES))
    lo, hi = RANGES[t]
    n = rng.choice([lo, hi, 0, rng.randint(lo, hi)]) + rng.choice(
        [0, 0, -1, 1, .25, -.25, .75, -.5, .999])
    kind = rng.choice('fdd')
    if rng.random() < .08:
        return t, rng.choice([float('nan'), float('inf'), -float('inf'),
                              decimal.Decimal('NaN'), decimal.Decimal('Inf'),
                              decimal.Decimal('-Inf'), 1e300, -1e300])
    return t, float(n) if kind == 'f' else decimal.Decimal(
        rng.randint(lo, hi)) + decimal.Decimal(rng.randint(-99, 99)) / 20


@bounded('from other numbers', 'generated numbers', case=Gen(gen_number),
         old=Int(0, 100), _samples=6000)
def from_number(k, case, old):
    t, x = case
    lo, hi = RANGES[t]
    v = fresh(t, old)
    try:
        v.set_from_value(x)
    except (ValueError, ArithmeticError):
        k.ensures("refused only outside the range", not (lo <= x <= hi) if
                  x == x else True, x)
        k.ensures("keeps the old value", v.value == old, v.value)
        return
    k.ensures("inside the range", type(v.value) is int and
              lo <= v.value <= hi, x, v.value)
    k.ensures("rounded towards zero", v.value == (
        x.__floor__() if x >= 0 else x.__ceil__()), x, v.value)


@proof('booleans', b=Bool(), old=Opt(Bool()), n=Int(None, None, corners=[
    0, 1, -1]))
def booleans(k, b, old, n):
    v = EDMValue.from_type(SimpleType.Boolean)
    v.set_from_value(old)
    v.set_from_value(b)
    k.ensures("stored", v.value is b, v.value)
    t = str(v)
    k.ensures("text", t == ('true' if b else 'false'), t)
    w = EDMValue.from_type(SimpleType.Boolean)
    w.set_from_literal(t)
    k.ensures("parses back", w.value is b, w.value)
    v.set_from_value(n)
    k.ensures("from a number", k.Iff(v.value, n != 0), v.value)


TRUTH = ['true', 'false', 'TRUE', 'False', 'tRue', '', 't', '1', '0', 'true ',
         ' true', 'truefalse', 'yes', 'fal\u017fe', 'none', 'null']


@proof('boolean literals', _bounded='texts up to 6 characters',
       s=Union(Choice(TRUTH), StrN(maxlen=6, alphabet='truefalsTRUEFALS 1')),
       old=Opt(Bool()))
def boolean_literals(k, s, old):
    v = EDMValue.from_type(SimpleType.Boolean)
    v.set_from_value(old)
    n = len(s)
    want = None
    for word in ('true', 'false'):
        if n == len(word):
            if k.And(*[k.Or(s[i] == word[i], s[i] == word[i].upper())
                       for i in range(n)]):
                want = word == 'true'
    try:
        v.set_from_literal(s)
        k.ensures("the two words in any case", v.value is want, v.value)
    except ValueError:
        k.ensures("any other is refused", want is None)
        k.ensures("keeps the old value", v.value is old, v.value)


def gen_binary(rng):
    r = rng.random()
    if r < .4:
        return ''.join(rng.choice('0123456789abcdefABCDEF') for i in range(
            rng.randint(0, 12)))
    return ''.join(rng.choice('0123aAfFgG xX\u0660\uff11') for i in range(
        rng.randint(0, 6)))


HEXD = '0123456789abcdefABCDEF'


@bounded('binary literals', 'generated texts', s=Gen(gen_binary, corners=[
    '', '0', '00', 'ff', 'Ff', '0x00', '\uff11\uff11']), _samples=5000)
def binary_literals(k, s):
    v = EDMValue.from_type(SimpleType.Binary)
    v.set_from_value(b'old')
    ok = len(s) % 2 == 0 and all(c in HEXD for c in s)
    try:
        v.set_from_literal(s)
    except ValueError:
        k.ensures("refused when not pairs of digits", not ok)
        k.ensures("keeps the old value", v.value == b'old')
        return
    k.ensures("accepted when pairs of digits", ok)
    k.ensures("the bytes", type(v.value) is bytes and
              v.value.hex() == s.lower(), v.value)


@bounded('text of binary, string and GUID values', 'generated values',
         b=Bytes(maxlen=20), s=Str(maxlen=12), g=Bytes(
             minlen=16, maxlen=16), _samples=4000)
def value_text(k, b, s, g):
    for kind, x in (('Binary', b), ('String', s), ('Guid', uuid.UUID(
            bytes=g) if len(g) == 16 else uuid.UUID(int=0))):
        v = EDMValue.from_type(getattr(SimpleType, kind))
        v.set_from_value(x)
        k.ensures("stored", v.value == x and type(v.value) is type(x), x)
        w = again(v)
        k.ensures("parses back", w.value == x and type(w.value) is type(
            x) and w == v, kind, x, str(v))
    v = EDMValue.from_type(SimpleType.Binary)
    src = bytearray(b)
    v.set_from_value(src)
    src.append(1)
    k.ensures("a copy of the bytes", type(v.value) is bytes and v.value == b)
    v = EDMValue.from_type(SimpleType.Guid)
    if len(g) == 16:
        v.set_from_value(g)
        k.ensures("from bytes", v.value == uuid.UUID(bytes=g))
        v.set_from_value(g.hex())
        k.ensures("from digits", v.value == uuid.UUID(bytes=g))


def gen_guid(rng):
    s = str(uuid.UUID(int=rng.getrandbits(128)))
    r = rng.random()
    if r < .3:
        return s.upper() if r < .15 else s
    i = rng.randrange(len(s) + 1)
    return s[:i] + rng.choice(['', '-', 'g', '0', '{', 'urn:uuid:', '\uff11']
                              ) + s[i + rng.choice([0, 1, 1, 2]):]


@bounded('GUID literals', 'generated texts', s=Gen(gen_guid), _samples=4000)
def guid_literals(k, s):
    parts = s.split('-')
    ok = [len(x) for x in parts] == [8, 4, 4, 4, 12] and all(
        c in HEXD for x in parts for c in x)
    v = EDMValue.from_type(SimpleType.Guid)
    old = uuid.UUID(int=7)
    v.set_from_value(old)
    try:
        v.set_from_literal(s)
    except ValueError:
        k.ensures("refused when not in the form", not ok, s)
        k.ensures("keeps the old value", v.value == old)
        return
    k.ensures("accepted when in the form", ok, s)
    k.ensures("the value", v.value.int == int(s.replace('-', ''), 16), s)
