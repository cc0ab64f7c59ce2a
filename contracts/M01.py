"""M01: lengths, areas and colours."""
import random
from fractions import Fraction
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Gen, Int, Str
from pyslet.html401 import Length, MultiLength, Coords, Color, MultiLengths
from pyslet.py2 import to_text
from speclib.charclass import TEST


N = Int()
DIM = Int(0)
KIND = Choice([Length.PIXEL, Length.PERCENTAGE])


def pixels(k, v, kind, dim):
    """the nearest whole pixel, up from the middle"""
    return k.ite(kind == Length.PERCENTAGE, (v * dim + 50) // 100, v)


@proof('length', v=N, kind=KIND, dim=DIM)
def length(k, v, kind, dim):
    r = Length(v, kind).resolve_value(dim)
    if kind == Length.PIXEL:
        k.ensures("itself", r == v, r)
    else:
        # 100 r is no further from v * dim than half a pixel
        k.ensures("nearest", k.And(100 * r - v * dim <= 50,
                                   v * dim - 100 * r < 50), r)
    k.ensures("a copy", Length(Length(v, kind)).resolve_value(dim) == r)
    c = Coords([Length(v, kind), v])
    k.ensures("as a coordinate", k.And(c[0].resolve_value(dim) == r,
                                       c[1].resolve_value(dim) == v))


@proof('relative length', v=DIM, dim=DIM, total=DIM)
def relative(k, v, dim, total):
    r = MultiLength(v, MultiLength.RELATIVE).resolve_value(dim, total)
    if total <= v:
        k.ensures("all of it", r == dim, r)
    else:
        k.ensures("a share", k.And(r * total <= v * dim,
                                   v * dim < (r + 1) * total), r)


@proof('no dimension', v=N, kind=KIND)
def no_dimension(k, v, kind):
    try:
        r = Length(v, kind).resolve_value()
    except ValueError:
        k.ensures("percentages are relative", kind == Length.PERCENTAGE)
        return
    k.ensures("pixels are not", k.And(kind == Length.PIXEL, r == v))


@proof('adding', v=N, kind=KIND, w=N, kind2=KIND, plain=Choice([0, 1]))
def adding(k, v, kind, w, kind2, plain):
    a = Length(v, kind)
    try:
        a.add(w if plain else Length(w, kind2))
    except ValueError:
        k.ensures("different kinds", kind != (Length.PIXEL if plain
                                              else kind2))
        k.ensures("unchanged", k.And(a.value == v, a.type == kind))
        return
    k.ensures("same kind", kind == (Length.PIXEL if plain else kind2))
    k.ensures("sum", k.And(a.value == v + w, a.type == kind))


# -- areas ----------------------------------------------------------------------

@proof('rectangle', a=N, b=N, c=N, d=N, ka=KIND, kb=KIND, kc=KIND, kd=KIND,
       x=N, y=N, w=DIM, h=DIM)
def rectangle(k, a, b, c, d, ka, kb, kc, kd, x, y, w, h):
    area = Coords([Length(a, ka), Length(b, kb), Length(c, kc),
                   Length(d, kd)])
    got = area.test_rect(x, y, w, h)
    x0, x1 = pixels(k, a, ka, w), pixels(k, c, kc, w)
    y0, y1 = pixels(k, b, kb, h), pixels(k, d, kd, h)

    def between(p, q, v):
        # the lower edge belongs to it, the upper does not
        return k.Or(k.And(p <= v, v < q), k.And(q <= v, v < p))
    k.ensures("inside", k.Iff(got, k.And(between(x0, x1, x),
                                         between(y0, y1, y))))


@proof('circle', a=N, b=N, r=N, ka=KIND, kb=KIND, kr=KIND, x=N, y=N,
       w=DIM, h=DIM)
def circle(k, a, b, r, ka, kb, kr, x, y, w, h):
    area = Coords([Length(a, ka), Length(b, kb), Length(r, kr)])
    got = area.test_circle(x, y, w, h)
    dx, dy = x - pixels(k, a, ka, w), y - pixels(k, b, kb, h)
    rad = pixels(k, r, kr, k.ite(w < h, w, h))
    k.ensures("within the radius", k.Iff(
        got, dx * dx + dy * dy <= rad * rad))


SIDE = Choice(['width', 'height', 'neither'])


@proof('circle of one dimension', a=N, b=N, r=N, x=N, y=N, w=DIM, side=SIDE)
def circle_one(k, a, b, r, x, y, w, side):
    area = Coords([a, b, Length(r, Length.PIXEL if side == 'neither'
                                else Length.PERCENTAGE)])
    got = area.test_circle(x, y, w if side == 'width' else None,
                           w if side == 'height' else None)
    rad = r if side == 'neither' else pixels(k, r, Length.PERCENTAGE, w)
    k.ensures("within the radius", k.Iff(
        got, (x - a) * (x - a) + (y - b) * (y - b) <= rad * rad))


@proof('too few coordinates', n=Int(0, 9))
def too_few(k, n):
    c = Coords([i * i for i in range(n)])
    for test, ok in ((c.test_rect, n >= 4), (c.test_circle, n >= 3), (
            c.test_poly, n >= 6 and n % 2 == 0)):
        try:
            test(1, 1, 10, 10)
        except ValueError:
            k.ensures("enough", not ok)
            continue
        k.ensures("too few", ok)


# a polygon of any number of corners

def crosses(k, x, y, x0, y0, x1, y1):
    """the edge crosses the half line from the point to the left"""
    up = k.And(y0 <= y, y < y1, (y - y0) * (x1 - x0) <= (x - x0) * (y1 - y0))
    down = k.And(y1 <= y, y < y0, (y - y1) * (x0 - x1) <= (x - x1) * (
        y0 - y1))
    return k.Or(up, down)


class AnyCoords(Coords):
    def __init__(self, values):
        self.values = values


class Corner(object):
    """coordinate i of the corners"""

    def __init__(self, k, i):
        self.k = k
        self.i = i

    def resolve_value(self, dim):
        n, cx, cy, x, y = self.k.get('poly')
        return self.k.ite(self.i % 2 == 0, cx(self.i // 2), cy(self.i // 2))


def values_inv(k, L):
    n, cx, cy, x, y = k.get('poly')
    half = L._i // 2
    return [("counted", L.i == L._i),
            ("corners so far", len(L.vertex) == half),
            ("their places", k.forall(0, half, lambda j: k.And(
                k.item(L.vertex, j)[0] == cx(j),
                k.item(L.vertex, j)[1] == cy(j)))),
            ("an x coordinate to come", k.Implies(
                L._i % 2 == 1, lambda: L.last_x == cx(half)))]


def any_corners(k):
    vx, vy = k.fun('vx', 1), k.fun('vy', 1)
    m = k.fresh('int', 'm')
    k.assume(m >= 0)
    return k.many(m, lambda j: (vx(j), vy(j)))


def cross_inv(k, L):
    F, unfold = k.get('crossings')
    return [("crossings so far", k.Iff(L.n_crossings % 2 == 1, F(L._i)))]


def cross_step(k, L):
    F, unfold = k.get('crossings')
    unfold(L._i)


@proof('any polygon', _loops=[
    LoopSpec('Coords.test_poly', inv=values_inv, havoc={
        'vertex': any_corners, 'i': 'int', 'last_x': 'int'},
        requires=('last_x',), label='values'),
    LoopSpec('Coords.test_poly', inv=cross_inv, havoc={
        'n_crossings': 'int'}, step=cross_step, label='crossings')],
    seed=Int(0, 10 ** 9))
def any_polygon(k, seed):
    if k.native or k.concrete:
        rnd = random.Random(seed)
        pts, points = gen_poly(rnd)
        area = Coords([v for p in pts for v in p])
        for x, y in points:
            k.ensures("inside", area.test_poly(x, y, 9, 9) ==
                      poly_reference(x, y, pts))
        return
    n = k.fresh('int', 'n')
    k.assume(n >= 3)
    cx, cy = k.fun('cx', 1), k.fun('cy', 1)
    x, y = k.fresh('int', 'x'), k.fresh('int', 'y')
    k.put('poly', (n, cx, cy, x, y))

    def edge(before, i):
        j = k.ite(i + 1 == n, 0, i + 1)
        c = crosses(k, x, y, cx(i), cy(i), cx(j), cy(j))
        return k.Not(k.Iff(before, c))
    F, unfold = k.put('crossings', k.fold('odd', 'bool', False, edge))
    # when the last corner is the first one, the edge between is no edge
    unfold(n - 1)
    got = AnyCoords(k.many(2 * n, lambda i: Corner(k, i))).test_poly(
        x, y, 100, 100)
    k.ensures("an odd number of crossings", k.Iff(got, F(n)))


def poly_reference(x, y, pts):
    """the sum of the turns, with exact arithmetic"""
    inside = False
    for i, (x0, y0) in enumerate(pts):
        x1, y1 = pts[(i + 1) % len(pts)]
        if (y0 <= y) != (y1 <= y):
            hit = Fraction((y - y0) * (x1 - x0), y1 - y0) + x0
            if hit <= x:
                inside = not inside
    return inside


def gen_poly(rnd):
    m = rnd.choice([3, 10, 1000])
    n = rnd.randint(3, 6)
    pts = [(rnd.randint(0, m), rnd.randint(0, m)) for i in range(n)]
    if rnd.random() < 0.3:
        pts.append(pts[0])
    return pts, [(rnd.randint(-1, m + 1), rnd.randint(-1, m + 1))
                 for i in range(10)] + pts


@bounded('polygons', 'up to 6 corners', _samples=3000, case=Gen(gen_poly),
         w=DIM, h=DIM, seed=Int(0, 2 ** 20))
def polygons(k, case, w, h, seed):
    pts, points = case
    rnd = random.Random(seed)
    values, real = [], []
    for p in pts:
        corner = []
        for v, dim in zip(p, (w, h)):
            if seed % 3 == 0 and rnd.random() < 0.5:
                values.append(Length(v, Length.PERCENTAGE))
                corner.append((v * dim * 2 + 100) // 200)
            else:
                values.append(Length(v))
                corner.append(v)
        real.append(tuple(corner))
    area = Coords(values)
    for x, y in points + real:
        got = area.test_poly(x, y, w, h)
        k.ensures("inside", got == poly_reference(x, y, real), x, y, real)


# -- allocation -------------------------------------------------------------------

def gen_lengths(rnd):
    n = rnd.randint(0, 6)
    dim = rnd.choice([0, 1, 7, 100, 640, rnd.randint(0, 3000)])
    out = []
    for i in range(n):
        kind = rnd.choice([0, 1, 2, 2])
        out.append((rnd.randint(0, [dim // 4, 40, 9][kind]), kind))
    return dim, out


@bounded('allocation', 'up to 6 lengths', _samples=20000,
         case=Gen(gen_lengths))
def allocation(k, case):
    dim, pairs = case
    got = MultiLength.allocate_pixels(dim, [MultiLength(v, t)
                                            for v, t in pairs])
    k.ensures("one each", len(got) == len(pairs))
    left = dim
    total = sum(v for v, t in pairs if t == 2)
    for (v, t), g in zip(pairs, got):
        if t == 0:
            k.ensures("pixels", g == v)
        elif t == 1:
            k.ensures("percentage", abs(100 * g - v * dim) < 100, g)
        if t != 2:
            left -= g
    if left < 0:
        return
    for (v, t), g in zip(pairs, got):
        if t == 2 and total:
            k.ensures("share", abs(total * g - v * left) < total, g)
        elif t == 2:
            k.ensures("nothing to share", g == 0)
    if total:
        k.ensures("all space is used", sum(got) == dim, got)


# any number of lengths: kind(i) and size(i); share(i) is what length i is
# given, some(i) the sum of what the pixel and percentage lengths before i are
# given, others(i) that of the relative ones and parts(i) their sizes

PX, PC, REL = MultiLength.PIXEL, MultiLength.PERCENTAGE, MultiLength.RELATIVE


class World(object):
    def __init__(self, k, dim, n):
        self.k = k
        self.dim = dim
        self.n = n
        self.kind = k.fun('kind', 1)
        self.size = k.fun('size', 1)
        self.share = k.fun('share', 1)
        self.some, self.some_step = k.fold(
            'some', 'int', 0, lambda before, i: before + k.ite(
                self.kind(i) == REL, 0, self.share(i)))
        self.others, self.others_step = k.fold(
            'others', 'int', 0, lambda before, i: before + k.ite(
                self.kind(i) == REL, self.share(i), 0))
        self.parts, self.parts_step = k.fold(
            'parts', 'int', 0, lambda before, i: before + k.ite(
                self.kind(i) == REL, self.size(i), 0))

    def length(self, i):
        k = self.k
        k.assume(k.And(self.kind(i) >= PX, self.kind(i) <= REL,
                       self.size(i) >= 0))
        return AnyLength(self.kind(i), self.size(i))

    def fits(self, g, i):
        """rounded up or down"""
        return self.k.And(100 * g - self.size(i) * self.dim < 100,
                          self.size(i) * self.dim - 100 * g < 100)


class AnyLength(object):
    def __init__(self, kind, size):
        self.type = kind
        self.value = size


def first_inv(k, L):
    w = k.get('lengths')
    i = L._i
    return [
        ("a list of all", len(L.result) == w.n),
        ("space left", L.space_remaining == L.dim - w.some(i)),
        ("dimension", L.dim == w.dim),
        ("parts", L.relative_total == w.parts(i)),
        ("parts grow", k.forall(0, i + 1, lambda j: k.And(
            w.parts(j) >= 0, w.parts(j) <= w.parts(i)))),
        ("nothing carried over", k.Or(
            L.space_remaining < 0, L.pround <= 50,
            L.space_remaining == 0)),
        ("given", k.forall(0, i, lambda j: k.Implies(
            w.kind(j) != REL, k.item(L.result, j) == w.share(j)))),
        ("pixels", k.forall(0, i, lambda j: k.Implies(
            w.kind(j) == PX, w.share(j) == w.size(j)))),
        ("percentages", k.Or(L.space_remaining < 0, k.forall(
            0, i, lambda j: k.Implies(
                w.kind(j) == PC, w.fits(w.share(j), j)))))]


def first_after(k, L):
    w = k.get('lengths')
    j = L._i - 1
    k.assume(k.Implies(w.kind(j) != REL,
                       w.share(j) == k.item(L.result, j)))
    w.some_step(j)
    w.parts_step(j)


def second_inv(k, L):
    w = k.get('lengths')
    i = L._i
    total = L.relative_total
    w.parts_step(i)
    left = L.space_remaining
    return [
        ("a list of all", len(L.result) == w.n),
        ("space left", left == L.dim - w.others(i)),
        ("given", k.forall(0, w.n, lambda j: k.Implies(
            k.Or(w.kind(j) != REL, j < i),
            k.item(L.result, j) == w.share(j)))),
        ("in proportion", k.Or(L.dim < 0, total * (
            L.dim - left) + L.rround == L.dim * w.parts(i))),
        ("carried over", k.Or(L.dim < 0, k.And(
            L.rround > -total, L.rround <= total // 2))),
        ("shares", k.Or(L.dim < 0, k.forall(0, i, lambda j: k.Implies(
            w.kind(j) == REL, k.And(
                total * w.share(j) - w.size(j) * L.dim < total,
                w.size(j) * L.dim - total * w.share(j) < total)))))]


def second_after(k, L):
    w = k.get('lengths')
    j = L._i - 1
    k.assume(k.Implies(w.kind(j) == REL,
                       w.share(j) == k.item(L.result, j)))
    w.others_step(j)


def any_result(k):
    f = k.fun('result', 1)
    return k.many(k.get('lengths').n, f)


@proof('any lengths', _loops=[
    LoopSpec('allocate_pixels', inv=first_inv, after=first_after, havoc={
        'result': any_result, 'space_remaining': 'int', 'pround': 'int',
        'relative_total': 'int'}, label='first'),
    LoopSpec('allocate_pixels', inv=second_inv, after=second_after, havoc={
        'result': any_result, 'space_remaining': 'int', 'rround': 'int'},
        label='second')], seed=Int(0, 10 ** 9))
def any_lengths(k, seed):
    if k.native or k.concrete:
        dim, pairs = gen_lengths(random.Random(seed))
        got = MultiLength.allocate_pixels(dim, [
            MultiLength(v, t) for v, t in pairs])
        left = dim - sum(g for g, (v, t) in zip(got, pairs) if t != REL)
        if left >= 0 and any(v and t == REL for v, t in pairs):
            k.ensures("all space is used", sum(got) == dim)
        return
    n, dim = k.fresh('int', 'n'), k.fresh('int', 'dim')
    k.assume(k.And(n >= 0, dim >= 0))
    w = k.put('lengths', World(k, dim, n))
    got = MultiLength.allocate_pixels(dim, k.many(n, w.length))
    left = dim - w.some(n)
    j = k.fresh('int', 'j')
    k.assume(k.And(j >= 0, j < n))
    g = k.item(got, j)
    k.ensures("pixels", k.Implies(w.kind(j) == PX, g == w.size(j)))
    k.ensures("percentages", k.Implies(k.And(
        left >= 0, w.kind(j) == PC), w.fits(g, j)))
    total = w.parts(n)
    if k.split(k.And(left >= 0, total > 0)):
        k.ensures("all space is used", w.some(n) + w.others(n) == dim)
        k.ensures("shares", k.Implies(w.kind(j) == REL, k.And(
            g == w.share(j), total * g - w.size(j) * left < total,
            w.size(j) * left - total * g < total)))


# -- text ----------------------------------------------------------------------------

SPACE = Choice(['', ' ', '\t'])


@proof('length of text', _bounded='lengths below 100000', n=Int(0, 10 ** 9), kind=KIND, a=SPACE, b=SPACE)
def length_text(k, n, kind, a, b):
    if not k.native:
        k.assume(n < 100000)
    src = to_text(Length(n, kind))
    k.ensures("as written", src == '%d%s' % (
        n, '%' if kind == Length.PERCENTAGE else ''), src)
    r = Length.from_str(a + src + b)
    k.ensures("same", k.And(r.value == n, r.type == kind))
    k.ensures("equal to the text", r == src)


MKIND = Choice([MultiLength.PIXEL, MultiLength.PERCENTAGE,
                MultiLength.RELATIVE])


@proof('multilength of text', _bounded='lengths below 100000', n=Int(0, 10 ** 9), kind=MKIND, a=SPACE,
       b=SPACE)
def multi_text(k, n, kind, a, b):
    if not k.native:
        k.assume(n < 100000)
    src = to_text(MultiLength(n, kind))
    r = MultiLength.from_str(a + src + b)
    k.ensures("same", k.And(r.value == n, r.type == kind))
    k.ensures("marked", k.Iff(kind == MultiLength.RELATIVE,
                              src.endswith('*')))


@proof('one share', a=SPACE, b=SPACE)
def one_share(k, a, b):
    r = MultiLength.from_str(a + '*' + b)
    k.ensures("1*", k.And(r.value == 1, r.type == MultiLength.RELATIVE))


def gen_coords(rnd):
    return [(rnd.randint(0, 10 ** rnd.randint(1, 6)), rnd.randint(0, 1))
            for i in range(rnd.randint(0, 9))]


@bounded('coordinates', 'up to 9', _samples=3000, case=Gen(gen_coords),
         sep=Choice([',', ', ', ' ,\t']))
def coordinates(k, case, sep):
    c = Coords([Length(v, t) for v, t in case])
    text = to_text(c)
    r = Coords.from_str(text)
    k.ensures("same", [(l.value, l.type) for l in r] == case, text)
    k.ensures("equal", c == r and c == text and c == list(r))
    k.ensures("spaced", Coords.from_str(text.replace(',', sep)) == c)
    if case:
        m = MultiLengths([MultiLength(v, t * 2) for v, t in case])
        r = MultiLengths.from_str(to_text(m))
        k.ensures("multilengths", [(l.value, l.type) for l in r] == [
            (v, t * 2) for v, t in case], to_text(m))


HEX = Int(0, 255)
DIGIT = Int(0, 15)


@proof('digits of a colour', _uses=[TEST], h=DIGIT, i=DIGIT, j=DIGIT, l=DIGIT, m=DIGIT,
       n=DIGIT)
def colour_digits(k, h, i, j, l, m, n):
    text = '#' + k.text('str', *[
        k.ite(x < 10, 48 + x, 87 + x) for x in (h, i, j, l, m, n)])
    c = Color(text)
    k.ensures("components", k.And(c.r == 16 * h + i, c.g == 16 * j + l,
                                  c.b == 16 * m + n))


@proof('colour', r=HEX, g=HEX, b=HEX)
def colour(k, r, g, b):
    c = Color((r, g, b))
    src = to_text(c)
    k.ensures("six digits", len(src) == 7 and src[0] == '#')
    for i, v in enumerate((r, g, b)):
        for j, d in enumerate((v // 16, v % 16)):
            k.ensures("digits", k.code(src, 2 * i + j + 1) == k.ite(
                d < 10, 48 + d, 55 + d))


@bounded('equal colours', 'a colour and its text', _samples=2000, r=HEX,
         g=HEX, b=HEX)
def equal_colours(k, r, g, b):
    c = Color((r, g, b))
    src = to_text(c)
    d = Color(src)
    k.ensures("same", (d.r, d.g, d.b) == (r, g, b))
    k.ensures("equal", d == c and c == src and hash(c) == hash(d))
    k.ensures("any case", Color(src.lower()) == c)
    k.ensures("spaces around", Color(' ' + src + '\t') == c)
    k.ensures("different", c != Color((r, g, b ^ 1)))
