"""O02: OData URI literals and keys."""
LEVEL = 'exploration'
import decimal
import uuid
from pyvc.kit import proof, bounded, Int, Bool, Choice, Gen, Str, StrN
from pyslet import iso8601 as iso
from pyslet.odata2 import core
from pyslet.odata2 import csdl as edm
from pyslet.odata2.csdl import EDMValue, SimpleType

RANGES = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767),
          'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}


def make(name, x):
    v = EDMValue.from_type(getattr(SimpleType, name))
    v.set_from_value(x)
    return v


def parse(text):
    p = core.Parser(text)
    return p.require_production_end(p.parse_uri_literal(), "uri literal")


# -- values -------------------------------------------------------------------

CHARS = ["'", "''", '%', '%25', '%27', '+', ' ', '&', '=', ',', '(', ')', '/',
         '?', '#', ':', 'a', 'Z', '0', '\xe9', '\u4e2d', '\U0001f600', '"',
         '\\', '\n', '\x00', '\x7f', 'null', '$', ';', '-']


def gen_string(rng):
    return ''.join(rng.choice(CHARS) for i in range(rng.randint(0, 8)))


def gen_float(rng, top):
    r = rng.random()
    if r < .08:
        return rng.choice([float('inf'), -float('inf'), 0.0, -0.0, 1.0, top,
                           -top, 5e-324, 1e22, 1e16, 123456789012345680.0])
    if r < .5:
        x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-44, 38)
    elif r < .7:
        x = float(rng.randint(-10 ** rng.randint(1, 25), 10 ** 18))
    elif r < .85:
        x = rng.randint(-99999, 99999) / 10 ** rng.randint(0, 12)
    else:
        x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-320, 308)
    return max(-top, min(top, x))


def gen_time(rng):
    return rng.choice([0, 23, rng.randint(0, 23)]), rng.choice(
        [0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)])


def gen_point(rng):
    y = rng.choice([1, 99, 100, 1999, 2000, 9999, rng.randint(1, 9999)])
    m = rng.randint(1, 12)
    return y, m, rng.choice([1, 28, rng.randint(1, 28)])


def value_of(rng):
    t = rng.choice(['Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Boolean',
                    'Binary', 'String', 'String', 'String', 'Guid', 'Decimal',
                    'Double', 'Single', 'DateTime', 'DateTimeOffset', 'Time'])
    if t in RANGES:
        lo, hi = RANGES[t]
        x = rng.choice([lo, hi, 0, -1 if lo else 1, rng.randint(lo, hi)])
    elif t == 'Boolean':
        x = rng.random() < .5
    elif t == 'Binary':
        x = bytes(rng.randint(0, 255) for i in range(rng.randint(0, 9)))
    elif t == 'String':
        x = gen_string(rng)
    elif t == 'Guid':
        x = uuid.UUID(int=rng.getrandbits(128))
    elif t == 'Decimal':
        x = decimal.Decimal(rng.randint(-10 ** 15, 10 ** rng.randint(1, 16))
                            ).scaleb(rng.choice([0, 0, -2, -10, -15, 5]))
    elif t in ('Double', 'Single'):
        x = gen_float(rng, getattr(edm, t + 'Value').Max)
    elif t == 'Time':
        h, m, s = gen_time(rng)
        x = iso.Time(hour=h, minute=m, second=s)
    else:
        y, mo, d = gen_point(rng)
        h, m, s = gen_time(rng)
        z = {}
        if t == 'DateTimeOffset':
            # compared in UTC, the years 1 to 9999
            y = min(max(y, 2), 9998)
            z = rng.choice([dict(zdirection=0), dict(
                zdirection=rng.choice([-1, 1]), zhour=rng.randint(0, 12),
                zminute=rng.choice([0, 30, 59]))])
        x = iso.TimePoint(
            date=iso.Date(century=y // 100, year=y % 100, month=mo, day=d),
            time=iso.Time(hour=h, minute=m, second=s, **z))
    return t, x


def same(k, t, v, w, where):
    # there is no literal form of the small integers, they are read as the
    # standard one
    want = SimpleType.Int32 if t in ('Byte', 'SByte', 'Int16') else \
        getattr(SimpleType, t)
    k.ensures("the type", w.type_code == want, where, w.type_code)
    a, b = v.value, w.value
    k.ensures("the kind of value", type(a) is type(b), where, type(b))
    k.ensures("the value", a == b, where, b)
    if t == 'DateTimeOffset':
        k.ensures("the zone", a.get_zone()[1] == b.get_zone()[1], where)
    if t in ('DateTime', 'DateTimeOffset', 'Time'):
        k.ensures("its text", str(w) == str(v), where, str(w))


@bounded('literals of values', 'generated values', case=Gen(value_of),
         query=Bool(), _samples=12000)
def literals(k, case, query):
    t, x = case
    v = make(t, x)
    text = core.ODataURI.format_literal(v)
    same(k, t, v, parse(text), text)
    text = core.uri_literal_to_str(v, query)
    k.ensures("escaped", all(33 <= ord(c) < 127 and c not in '"<>#' for c in
                             text) and (not query or not set(text) & set(
                                 '&+;#')), text)
    same(k, t, v, core.uri_literal_from_str(text), text)


@bounded('literals that are not numbers', 'listed values', t=Choice(
    ['Double', 'Single']))
def nan(k, t):
    v = make(t, float('nan'))
    w = parse(core.ODataURI.format_literal(v))
    k.ensures("not a number", w.type_code == v.type_code and
              w.value != w.value)
    n = parse(core.ODataURI.format_literal(make(t, None)))
    k.ensures("null", n.is_null())


# -- keys ---------------------------------------------------------------------

NAMES = ['ID', 'Name', 'a', '_x', 'D']


def gen_key(rng):
    return [(n, value_of(rng)) for n in rng.sample(NAMES, rng.choice(
        [1, 1, 2, 2, 3]))], rng.choice(['Products', 'A', ''])


@bounded('keys', 'generated keys', case=Gen(gen_key), _samples=6000)
def keys(k, case):
    key, name = case
    d = dict((n, make(t, x)) for n, (t, x) in key)
    text = core.ODataURI.format_key_dict(d)
    k.ensures("fit for a segment", all(33 <= ord(c) < 127 and c not in
                                       '/?#"<>' for c in text), text)
    got, e = core.ODataURI.split_segment(name + text)
    k.ensures("the name", got == name, text, got)
    if len(key) == 1:
        k.ensures("a single key", list(e) in ([''], [key[0][0]]), text)
        same(k, key[0][1][0], d[key[0][0]], list(e.values())[0], text)
    else:
        k.ensures("the names of the parts", set(e) == set(d), text, e)
        for n, (t, x) in key:
            same(k, t, d[n], e[n], text)


@bounded('segments without keys', 'generated names', s=Gen(gen_string))
def no_key(k, s):
    if '(' in s or s.startswith('$') or '%' in s:
        s = 'N'
    from pyslet import rfc2396 as uri
    seg = uri.escape_data(s.encode('utf-8'))
    k.ensures("the name alone", core.ODataURI.split_segment(seg) == (s, None))
    k.ensures("no key", core.ODataURI.split_segment(
        seg + '()') == (s, {}))


# -- for all short strings ----------------------------------------------------

@proof('string literals', _bounded='strings up to 4 characters',
       s=StrN(maxlen=4, alphabet="'a% "))
def strings(k, s):
    v = EDMValue.from_type(SimpleType.String)
    v.set_from_literal(s)
    text = core.ODataURI.format_literal(v)
    n = len(text)
    k.ensures("quoted", text[0] == "'" and text[n - 1] == "'")
    w = parse(text)
    k.ensures("the value", k.And(w.type_code == SimpleType.String,
                                 w.value == s), w.value)


@proof('integer literals', _bounded='from -99999 to 99999', t=Choice(
    ['Int32', 'Int64']), n=Int(-99999, 99999))
def integers(k, t, n):
    v = EDMValue.from_type(getattr(SimpleType, t))
    v.set_from_value(n)
    w = parse(core.ODataURI.format_literal(v))
    k.ensures("the value", k.And(w.type_code == v.type_code, w.value == n),
              w.value)
