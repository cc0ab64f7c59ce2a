"""H07: the values of HTTP headers, as text and compared."""
import itertools
import re
from pyvc.kit import proof, bounded, Choice, Gen, Int
from contracts.H01 import TOKEN, gen_params
from pyslet.http import grammar, messages, params

LEVEL = 'exploration'


def token(rng):
    return ''.join(chr(rng.choice(TOKEN if rng.random() < .3 else
                                  b'aAbB01-.wW*')) for i in range(
        rng.choice([1, 1, 2, 3, 6])))


def plain(rng):
    """a token that is not the wild card"""
    t = token(rng)
    return t if t.strip('*') else t + 'a'


def swap(rng, s):
    """the same text in other cases"""
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def subtag(rng):
    return ''.join(rng.choice('abEN1') for i in range(rng.choice(
        [1, 2, 2, 3, 8])))


def version(rng):
    return rng.choice(['.', '..', '.', '.']).join(rng.choice(['', 'a', 'rc', '-']) * (rng.random() < .3) +
                    str(rng.choice([0, 1, 2, 9, 10, 11, 100])) +
                    rng.choice(['', '', 'a', 'b', 'b2', 'b10', '~'])
                    for i in range(rng.randint(1, 3)))


def other_case(rng, p):
    """parameters whose names are in another case"""
    return dict((key, (swap(rng, n), v)) for key, (n, v) in p.items())


def gen_value(rng):
    """The kind of a value, and the arguments of two: the second is equal to
    the first when same is true"""
    kind = rng.choice(KINDS)
    if kind == 'HTTPVersion':
        a = (rng.choice([0, 1, 2, 10]), rng.choice([0, 1, 9, 10, 11]))
        b = a
    elif kind == 'TransferEncoding':
        p = gen_params(rng)
        t = plain(rng)
        if t.lower() == 'chunked':
            p = {}
        a = (t, p)
        b = (swap(rng, t), other_case(rng, p))
    elif kind == 'Chunk':
        a = (rng.choice([0, 1, 10, 15, 16, 255, 2 ** 40, rng.randrange(10 ** 6)
                         ]), gen_params(rng))
        b = (a[0], other_case(rng, a[1]))
    elif kind == 'MediaType':
        a = (token(rng), token(rng), gen_params(rng))
        b = (swap(rng, a[0]), swap(rng, a[1]), other_case(rng, a[2]))
    elif kind == 'MediaRange':
        p = gen_params(rng)
        # q separates the range from the parameters of the item
        p.pop('q', None)
        a = (rng.choice([token(rng), '*']), rng.choice([token(rng), '*']), p)
        b = (swap(rng, a[0]), swap(rng, a[1]), other_case(rng, p))
    elif kind == 'ProductToken':
        a = b = (token(rng), rng.choice([None, version(rng), token(rng)]))
    elif kind == 'LanguageTag':
        a = tuple(subtag(rng) for i in range(rng.randint(1, 4)))
        b = tuple(swap(rng, t) for t in a)
    elif kind == 'EntityTag':
        a = b = (bytes(rng.choice(b'aAb"\\ ,/Ww\xe9\xc9') for i in range(rng.randint(
            0, 4))), rng.random() < .5)
    elif kind == 'AcceptRanges':
        a = tuple(t for t in (token(rng) for i in range(rng.randrange(4)))
                  if t.lower() != 'none')
        b = [swap(rng, t) for t in a]
        rng.shuffle(b)
    else:
        a = tuple(token(rng) for i in range(rng.randrange(4)))
        b = [swap(rng, t) for t in a]
        rng.shuffle(b)
    return kind, a, tuple(b)


KINDS = ['HTTPVersion', 'TransferEncoding', 'Chunk', 'MediaType', 'MediaRange',
         'ProductToken', 'LanguageTag', 'EntityTag', 'AcceptRanges', 'Allow']


def make(kind, args):
    cls = getattr(params, kind, None) or getattr(messages, kind)
    return cls, cls(*args)


def detail(kind, x):
    """everything a value holds, as far as it is written"""
    if kind in ('HTTPVersion',):
        return x.major, x.minor
    if kind == 'TransferEncoding':
        return x.token, x.parameters
    if kind == 'Chunk':
        return x.size, x.extensions
    if kind in ('MediaType', 'MediaRange'):
        # read in lower case
        return x.type.lower(), x.subtype.lower(), x.parameters
    if kind == 'ProductToken':
        return x.token, x.version
    if kind == 'LanguageTag':
        return x.primary, x.subtags
    if kind == 'EntityTag':
        return x.tag, x.weak
    return list(x)


def equal(k, a, b, where):
    k.ensures("equal", a == b and b == a and not a != b and not b != a and
              not a < b and not a > b and a <= b and a >= b, where)
    k.ensures("equal hashes", hash(a) == hash(b), where)


@bounded('values written and read', 'tokens of up to six characters',
         _samples=9000, case=Gen(gen_value))
def written(k, case):
    kind, args, others = case
    cls, x = make(kind, args)
    text = str(x)
    k.ensures("the text is that of the bytes",
              text.encode('iso-8859-1') == x.to_bytes(), text)
    # text is read as ASCII
    for t in (text, x.to_bytes()) if text.isascii() else (x.to_bytes(),):
        y = cls.from_str(t)
        k.ensures("read as it was", detail(kind, y) == detail(kind, x),
                  (kind, t, detail(kind, x), detail(kind, y)))
        equal(k, x, y, (kind, t))
    y = make(kind, others)[1]
    equal(k, x, y, (kind, text, str(y)))
    k.ensures("compared with text", x == x.to_bytes() and not (
        x != x.to_bytes()), text)


def other_part(rng, x, new):
    """another part in place of x: new, or close to x"""
    how = rng.random()
    if how < .4 or x is None or isinstance(x, bool):
        return new
    if isinstance(x, dict):
        x = dict(x)
        if x:
            # one of the parameters has another value
            key = rng.choice(sorted(x))
            x[key] = (x[key][0], other_part(rng, x[key][1], b'z'))
        return x
    if isinstance(x, int):
        return max(0, x + rng.choice([-1, 1]))
    if how < .7:
        return x.swapcase()
    if isinstance(x, bytes):
        return x + rng.choice([b'a', b'Z', b'-'])
    i = rng.randint(0, len(x))
    return x[:i] + rng.choice('aZ-..010') + x[i:]


def gen_three(rng):
    kind = rng.choice(KINDS)
    out = []
    while len(out) < 3:
        case = gen_value(rng)
        if case[0] != kind:
            continue
        args = case[1]
        if out and rng.random() < .7:
            # one part differs
            args = list(out[-1])
            if kind in ('LanguageTag', 'AcceptRanges', 'Allow'):
                i = rng.randrange(len(args) + 1)
                args[i:i + rng.randrange(2)] = [subtag(rng)]
            else:
                i = rng.randrange(len(args))
                args[i] = other_part(rng, args[i], case[1][i])
            if kind == 'TransferEncoding' and args[0].lower() == 'chunked':
                continue
        out.append(tuple(args))
    return kind, out


def digits(t):
    return bool(t) and all(c in '0123456789' for c in t)


def exploded(version):
    """numbers and the marks between them, a missing first number is -1 and a
    missing last mark is ~"""
    items = (version or '').split('.')
    if not items[-1]:
        # nothing follows the last dot
        items.pop()
    out = []
    for item in items:
        parts = [int(t) if t.isdigit() else t for t in re.findall(
            '[0-9]+|[^0-9]+', item)]
        if parts and isinstance(parts[0], str):
            parts.insert(0, -1)
        if parts and isinstance(parts[-1], int):
            parts.append('~')
        out.append(tuple(parts))
    return out


def model(kind, args):
    """what decides equality"""
    def par(p):
        return sorted((n, v) for n, (name, v) in p.items())
    if kind in ('HTTPVersion', 'EntityTag'):
        return args
    if kind == 'TransferEncoding':
        return args[0].lower(), par(args[1])
    if kind == 'Chunk':
        return args[0], par(args[1])
    if kind in ('MediaType', 'MediaRange'):
        return args[0].lower(), args[1].lower(), par(args[2])
    if kind == 'ProductToken':
        return args[0], exploded(args[1])
    if kind == 'LanguageTag':
        return tuple(t.lower() for t in args)
    if kind == 'AcceptRanges':
        return sorted(t.lower() for t in args)
    if kind == 'Allow':
        return sorted(t.upper() for t in args)


@bounded('values are ordered', 'three values', _samples=9000,
         case=Gen(gen_three))
def ordered(k, case):
    kind, three = case
    xs = [make(kind, args)[1] for args in three]
    for i, j in itertools.product(range(3), range(3)):
        a, b = xs[i], xs[j]
        where = (kind, str(a), str(b))
        k.ensures("one of less, equal and greater",
                  (a < b) + (a == b) + (a > b) == 1, where)
        k.ensures("consistent", (a < b) == (b > a) and (a <= b) == (
            not a > b) and (a >= b) == (not a < b) and (a != b) == (
                not a == b), where)
        if a == b:
            k.ensures("equal hashes", hash(a) == hash(b), where)
        ma, mb = model(kind, three[i]), model(kind, three[j])
        k.ensures("equal when all parts are", (a == b) == (ma == mb), where)
        if kind in ('HTTPVersion', 'ProductToken', 'LanguageTag', 'Chunk'):
            k.ensures("in the order of the parts", (a < b) == (ma < mb), where)
    for i, j, m in itertools.permutations(range(3)):
        if xs[i] <= xs[j] and xs[j] <= xs[m]:
            k.ensures("transitive", xs[i] <= xs[m],
                      (kind, [str(x) for x in xs]))
    if kind == 'HTTPVersion':
        k.ensures("by number", (xs[0] < xs[1]) == (three[0] < three[1]))


def gen_versions(rng):
    def one():
        return [rng.choice([0, 1, 2, 9, 10, 11, 99, 100])
                for i in range(rng.randint(1, 3))]
    a = one()
    b = list(a) if rng.random() < .5 else one()
    if rng.random() < .5:
        b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 9, 10, 11, 100])
    return a, b, rng.choice(['', 'a', 'b', 'rc1'])


@bounded('product versions', 'up to three numbers', _samples=3000,
         case=Gen(gen_versions))
def versions(k, case):
    a, b, mark = case
    x = params.ProductToken('P', '.'.join(str(i) for i in a))
    y = params.ProductToken('P', '.'.join(str(i) for i in b))
    k.ensures("by number", (x < y) == (a < b) and (x == y) == (a == b),
              (str(x), str(y)))
    if mark:
        # 1.0a is before 1.0 and after any before 1.0
        z = params.ProductToken('P', str(x)[2:] + mark)
        k.ensures("before the release", z < x, (str(z), str(x)))
        if a[:-1] == b[:-1] and b[-1] < a[-1]:
            k.ensures("after the release before", y < z, (str(y), str(z)))
    k.ensures("no version first", params.ProductToken('P') < x)


def gen_cache(rng):
    out, names = [], set()
    for i in range(rng.randint(1, 4)):
        name = rng.choice(['no-cache', 'private', 'max-age', 'no-store',
                           token(rng)])
        if name.lower() in names:
            continue
        names.add(name.lower())
        if name in ('no-cache', 'private'):
            v = rng.choice([None, tuple(token(rng) for j in range(
                rng.randint(1, 3)))])
        else:
            v = rng.choice([None, rng.choice([0, 5, 10 ** 9]), plain(rng),
                            ''.join(rng.choice('a, "\\;=') for j in range(
                                rng.randint(0, 4)))])
            if v is not None and digits(v if isinstance(v, str) else 'x'):
                v = int(v)
        out.append(name if v is None else (name, v))
    return out


@bounded('cache directives', 'up to four', _samples=4000,
         case=Gen(gen_cache), seps=Choice([', ', ',', ' , ,']))
def cache(k, case, seps):
    x = messages.CacheControl(*case)
    want = [a.lower().encode() if not isinstance(a, tuple) else
            (a[0].lower().encode(), a[1]) for a in case]
    k.ensures("as constructed", list(x) == want, list(x))
    text = str(x)
    y = messages.CacheControl.from_str(text)
    k.ensures("read as it was", list(y) == want, (text, list(y)))
    for a in case:
        name, v = a if isinstance(a, tuple) else (a, None)
        k.ensures("by name", name in y and name.upper() in y and
                  y[name] == v, (text, name))
    k.ensures("all of them", len(y) == len(case))
    m = messages.Message()
    m.set_cache_control(x)
    k.ensures("in a message", list(m.get_cache_control()) == want)


# -- ranges of content, versions and sizes ------------------------------------

N = Int(0, None, corners=[0, 1, 9, 10, 99, 255, 256, 10 ** 12])
#: written and read back, the parser's loops are unrolled
W = Int(0, 99, corners=[0, 1, 9, 10, 99])
DIGITS2 = 'numbers of up to two digits'


@proof('content ranges', kind=Choice(['range', 'none']), first=N, last=N,
       total=N, known=Choice([True, False]))
def content_range(k, kind, first, last, total, known):
    if kind == 'none':
        first = last = None
    r = messages.ContentRange(first, last, total if known else None)
    valid = r.is_valid()
    if kind == 'none':
        k.ensures("not valid", k.Not(valid))
        try:
            r.__len__()
            k.ensures("no length", False)
        except ValueError:
            pass
        return
    inside = first <= last
    k.ensures("valid", k.Iff(valid, k.And(inside, last < total)
                             if known else inside))
    try:
        n = r.__len__()
        k.ensures("not empty", inside)
        k.ensures("length", n == last - first + 1)
    except ValueError:
        k.ensures("empty", k.Not(inside))


@proof('content ranges written and read', kind=Choice(['range', 'none']),
       first=W, last=W, total=W, known=Choice([True, False]),
       _bounded=DIGITS2)
def content_range_text(k, kind, first, last, total, known):
    if kind == 'none':
        first = last = None
    r = messages.ContentRange(first, last, total if known else None)
    got = messages.ContentRange.from_str(str(r))
    k.ensures("the bytes", got.first_byte == first and got.last_byte == last)
    k.ensures("the total", got.total_len == (total if known else None))


@proof('HTTP versions compared', major=N, minor=N, major2=N, minor2=N)
def http_version(k, major, minor, major2, minor2):
    v = params.HTTPVersion(major, minor)
    w = params.HTTPVersion(major2, minor2)
    k.ensures("by number", k.Iff(v < w, k.Or(major < major2, k.And(
        major == major2, minor < minor2))))
    k.ensures("equal", k.Iff(v == w, k.And(major == major2, minor == minor2)))
    k.ensures("not greater", k.Iff(v <= w, k.Not(w < v)))


@proof('HTTP versions written and read', major=W, minor=W, _bounded=DIGITS2)
def http_version_text(k, major, minor):
    v = params.HTTPVersion(major, minor)
    got = params.HTTPVersion.from_str(v.to_bytes())
    k.ensures("read as it was", got.major == major and got.minor == minor)


@proof('a message allows the methods listed', a=Choice([
    (), ('GET',), ('get', 'Put'), ('HEAD', 'GET', 'get')]),
    m=Choice(['GET', 'get', 'PUT', 'HEAD', 'X', b'put', b'Head']))
def allowed(k, a, m):
    text = m if isinstance(m, str) else m.decode()
    k.ensures("allowed", messages.Allow(*a).is_allowed(m) == (
        text.upper() in [x.upper() for x in a]))
