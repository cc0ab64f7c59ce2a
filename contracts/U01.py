"""U01: character classes are sets of characters."""
LEVEL = 'exploration'
import re
import warnings

from pyvc.kit import proof, bounded, Int, Choice, Bool, ListN, Tup, Gen, \
    Contract, has
from pyslet.unicode5 import CharClass

MAXC = 0x10ffff
C = Int(0, MAXC, corners=[0, 1, 0x2d, 0x5b, 0x5c, 0x5d, 0x5e, 0xff, 0x100,
                          0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000,
                          MAXC - 1, MAXC])
NEAR = Int(0, 40)


def inside(k, ranges, c):
    """c (a code) is in one of the stored ranges"""
    return k.Or(*[k.And(k.code(r[0], 0) <= c, c <= k.code(r[1], 0))
                  for r in ranges])


def normal(k, ranges):
    """sorted, disjoint and non-adjacent"""
    return k.And(*([k.code(r[0], 0) <= k.code(r[1], 0) for r in ranges] + [
        k.code(ranges[i][1], 0) + 1 < k.code(ranges[i + 1][0], 0)
        for i in range(len(ranges) - 1)]))


def ch(k, c):
    return k.text('str', c)


def make(k, spec):
    """a class holding the given pairs, which must be in normal form"""
    c = CharClass()
    ranges = [[ch(k, a), ch(k, b)] for a, b in spec]
    k.requires(normal(k, ranges))
    for r in ranges:
        c.ranges.append(r)
    return c


def snapshot(c):
    return [(r[0], r[1]) for r in c.ranges]


SPEC = ListN(Tup(C, C), 3)
SMALL = Gen(lambda rng: small_spec(rng))


def small_spec(rng):
    """ranges close together, so that operations meet them"""
    out, p = [], rng.randint(0, 5)
    for i in range(rng.randint(0, 4)):
        q = p + rng.choice([0, 0, 1, 2, 5])
        out.append((p, q))
        p = q + rng.choice([2, 2, 3, 6])
    return out


def check_op(k, spec, a, z, c, op, spec_op):
    cc = make(k, spec)
    before = snapshot(cc)
    op(cc, a, z)
    k.ensures("ranges stay in normal form", normal(k, cc.ranges),
              cc.ranges)
    lo, hi = k.ite(a <= z, a, z), k.ite(a <= z, z, a)
    k.ensures("the set of characters", k.Iff(
        inside(k, cc.ranges, c),
        spec_op(inside(k, before, c), k.And(lo <= c, c <= hi))),
        cc.ranges, c)


B3 = dict(_bounded='classes of at most 3 ranges; characters unbounded')


@proof('add_range is union', spec=SPEC, a=C, z=C, c=C, _budget=400, **B3)
def add_range(k, spec, a, z, c):
    check_op(k, spec, a, z, c,
             lambda cc, a, z: cc.add_range(ch(k, a), ch(k, z)),
             lambda x, y: k.Or(x, y))


@proof('subtract_range is difference', spec=SPEC, a=C, z=C, c=C,
       _budget=400, **B3)
def subtract_range(k, spec, a, z, c):
    check_op(k, spec, a, z, c,
             lambda cc, a, z: cc.subtract_range(ch(k, a), ch(k, z)),
             lambda x, y: k.And(x, k.Not(y)))


@proof('add_char is union with one character', spec=SPEC, a=C, c=C, **B3)
def add_char(k, spec, a, c):
    check_op(k, spec, a, a, c,
             lambda cc, a, z: cc.add_char(ch(k, a)),
             lambda x, y: k.Or(x, y))


@proof('subtract_char removes one character', spec=SPEC, a=C, c=C, **B3)
def subtract_char(k, spec, a, c):
    check_op(k, spec, a, a, c,
             lambda cc, a, z: cc.subtract_char(ch(k, a)),
             lambda x, y: k.And(x, k.Not(y)))


S2 = ListN(Tup(C, C), 2)
B2 = dict(_bounded='classes of at most 2 ranges; characters unbounded')


@proof('add_class is union and leaves the argument alone', s1=S2, s2=S2,
       c=C, _budget=400, **B2)
def add_class(k, s1, s2, c):
    x, y = make(k, s1), make(k, s2)
    bx, by = snapshot(x), snapshot(y)
    x.add_class(y)
    k.ensures("normal form", normal(k, x.ranges))
    k.ensures("union", k.Iff(inside(k, x.ranges, c), k.Or(
        inside(k, bx, c), inside(k, by, c))))
    k.ensures("argument unchanged", snapshot(y) == by)
    k.ensures("nothing is shared", not any(
        r is s for r in x.ranges for s in y.ranges))


@proof('subtract_class is difference and leaves the argument alone', s1=S2,
       s2=S2, c=C, _budget=400, **B2)
def subtract_class(k, s1, s2, c):
    x, y = make(k, s1), make(k, s2)
    bx, by = snapshot(x), snapshot(y)
    x.subtract_class(y)
    k.ensures("normal form", normal(k, x.ranges))
    k.ensures("difference", k.Iff(inside(k, x.ranges, c), k.And(
        inside(k, bx, c), k.Not(inside(k, by, c)))))
    k.ensures("argument unchanged", snapshot(y) == by)


@proof('negate is the complement', spec=SPEC, c=C, _budget=400, **B3)
def negate(k, spec, c):
    x = make(k, spec)
    b = snapshot(x)
    r = x.negate()
    k.ensures("returns the class", r is x)
    k.ensures("normal form", normal(k, x.ranges))
    k.ensures("complement", k.Iff(inside(k, x.ranges, c),
                                  k.Not(inside(k, b, c))))


@proof('a class with itself', spec=SPEC, c=C, _budget=400, **B3)
def itself(k, spec, c):
    x = make(k, spec)
    b = snapshot(x)
    x.add_class(x)
    k.ensures("adding itself changes nothing", snapshot(x) == b)
    x.subtract_class(x)
    k.ensures("subtracting itself leaves nothing", len(x.ranges) == 0)


@proof('test_slow is membership', spec=ListN(Tup(C, C), 5), c=C,
       _budget=400,
       _bounded='classes of at most 5 ranges; characters unbounded')
def test_slow(k, spec, c):
    x = make(k, spec)
    b = snapshot(x)
    k.ensures("member", k.Iff(x.test_slow(ch(k, c)), inside(k, b, c)))
    k.ensures("None is no member", not x.test_slow(None))


def regex_codes(ranges):
    s = {0, 1, MAXC, MAXC - 1}
    s.update(range(256))
    for a, z in ranges:
        for x in (ord(a), ord(z)):
            s.update((x - 2, x - 1, x, x + 1, x + 2, (x | 255) + 1,
                      (x & ~255) - 1, x & ~255, x | 255))
    return [x for x in s if 0 <= x <= MAXC]


SPECIAL = [ord(c) for c in "\x00\x07\x08\t\n\x0b\x0c\r-\\]^[_.$*+?{}|()ab&~"]


def pick(rng):
    if rng.random() < 0.5:
        return rng.choice(SPECIAL)
    if rng.random() < 0.7:
        return rng.randint(0, 40)
    return C.sample(rng)


def history(rng):
    ops = []
    for i in range(rng.randint(1, 12)):
        a = pick(rng)
        b = min(MAXC, max(0, a + rng.choice([0, 0, 1, 2, 3, 40, 300, -1,
                                             -2])))
        if rng.random() < 0.1:
            b = pick(rng)
        ops.append((rng.choice(['add', 'add', 'sub', 'addc', 'subc', 'neg',
                                'addk', 'subk', 'text', 'copy', 'test']),
                    a, b, pick(rng)))
    return ops


def in_set(s, x):
    return any(a <= x <= b for a, b in s)


class Model(object):
    """the set as a sorted list of boundaries, kept independently: x is in
    the set when an odd number of boundaries are <= x"""

    def __init__(self, cuts=()):
        self.cuts = frozenset(cuts)

    def has(self, x):
        return sum(1 for c in self.cuts if c <= x) % 2 == 1

    def combine(self, other, f):
        pts = sorted(self.cuts | other.cuts | {0})
        cuts, inside_ = [], False
        for p in pts:
            v = f(self.has(p), other.has(p))
            if v != inside_:
                cuts.append(p)
                inside_ = v
        return Model(cuts)


def span(a, b):
    a, b = min(a, b), max(a, b)
    return Model([a, b + 1])


def union(x, y):
    return x or y


def minus(x, y):
    return x and not y


@bounded('histories of operations on several classes',
         'random histories of up to 12 operations, all boundary characters '
         'checked after each', h=Gen(history), _samples=1500)
def histories(k, h):
    warnings.simplefilter('ignore')
    cc, m = CharClass(), Model()
    kept = []
    for op, a, b, e in h:
        ca, cb, ce = chr(a), chr(b), chr(e)
        if op == 'add':
            cc.add_range(ca, cb)
            m = m.combine(span(a, b), union)
        elif op == 'sub':
            cc.subtract_range(ca, cb)
            m = m.combine(span(a, b), minus)
        elif op == 'addc':
            cc.add_char(ca)
            m = m.combine(span(a, a), union)
        elif op == 'subc':
            cc.subtract_char(ca)
            m = m.combine(span(a, a), minus)
        elif op == 'neg':
            k.ensures("negate returns the class", cc.negate() is cc)
            m = m.combine(span(0, MAXC), lambda x, y: not x)
        elif op == 'addk':
            o = CharClass((ca, cb), ce)
            om = span(a, b).combine(span(e, e), union)
            cc.add_class(o)
            kept.append((o, om))
            m = m.combine(om, union)
        elif op == 'subk':
            o = CharClass((ca, cb), ce)
            om = span(a, b).combine(span(e, e), union)
            cc.subtract_class(o)
            kept.append((o, om))
            m = m.combine(om, minus)
        elif op == 'text':
            o = CharClass(ca + ce, [cb, ce])
            om = span(a, a).combine(span(e, b), union)
            k.ensures("constructor", all(
                o.test(chr(x)) == om.has(x) for x in (a, b, e)))
        elif op == 'copy':
            o = CharClass(cc)
            kept.append((cc, m))
            k.ensures("a copy is equal", o == cc)
            cc = o
        else:
            k.ensures("test", cc.test(ca) == m.has(a))
        ranges = [(ord(x), ord(y)) for x, y in cc.ranges]
        k.ensures("normal form", normal(k, cc.ranges), cc.ranges)
        for x, y in ranges:
            for q in (x - 1, x, x + 1, y - 1, y, y + 1, a, b, e):
                if 0 <= q <= MAXC:
                    k.ensures("membership", cc.test(chr(q)) == m.has(q) and
                              cc.test_slow(chr(q)) == m.has(q), q)
        for q in m.cuts:
            for q in (q - 1, q, q + 1):
                if 0 <= q <= MAXC:
                    k.ensures("membership", cc.test(chr(q)) == m.has(q), q)
    for o, om in kept:
        for q in om.cuts:
            for q in (q - 1, q, q + 1):
                if 0 <= q <= MAXC:
                    k.ensures("other classes are not changed",
                              o.test(chr(q)) == om.has(q) and
                              o.test_slow(chr(q)) == om.has(q), q)
    codes = regex_codes(cc.ranges) + [x for p in h for x in p[1:]]
    rx = re.compile(str(cc))
    for x in codes:
        k.ensures("the regular expression matches the class",
                  bool(rx.fullmatch(chr(x))) == m.has(x), str(cc), x)
    if cc.ranges:
        rx = re.compile('[' + cc.format_re() + ']')
        for x in codes:
            k.ensures("format_re matches the class",
                      bool(rx.fullmatch(chr(x))) == m.has(x), rx.pattern, x)
    k.ensures("test agrees with test_slow on whole blocks", all(
        cc.test(chr(x)) == m.has(x) for x in codes))


def one(rng):
    a, b = pick(rng), pick(rng)
    return (a, b, rng.random() < 0.5)


@bounded('regular expressions of single ranges and singletons',
         'sampled single ranges, and every special character', p=Gen(one),
         _samples=1500)
def regexes(k, p):
    warnings.simplefilter('ignore')
    a, b, neg = p
    cc, m = CharClass((chr(a), chr(b))), span(a, b)
    if neg:
        cc.negate()
        m = m.combine(span(0, MAXC), lambda x, y: not x)
    rx = re.compile(str(cc))
    for x in regex_codes(cc.ranges) + SPECIAL:
        k.ensures("matches the class",
                  bool(rx.fullmatch(chr(x))) == m.has(x), str(cc), x)


@bounded('special characters as regular expressions',
         'exhaustive over all pairs of special characters',
         i=Choice(SPECIAL), j=Choice(SPECIAL), neg=Bool(), _exhaustive=True)
def specials(k, i, j, neg):
    warnings.simplefilter('ignore')
    cc, m = CharClass(chr(i) + chr(j)), \
        span(i, i).combine(span(j, j), union)
    if neg:
        cc.negate()
        m = m.combine(span(0, MAXC), lambda x, y: not x)
    rx = re.compile(str(cc))
    r2 = re.compile('[' + cc.format_re() + ']')
    for x in list(range(130)) + SPECIAL + [MAXC]:
        k.ensures("matches the class", bool(rx.fullmatch(chr(x))) ==
                  m.has(x), str(cc), x)
        k.ensures("format_re matches the class",
                  bool(r2.fullmatch(chr(x))) == m.has(x), r2.pattern, x)
