"""H03: content negotiation."""
import itertools
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Contract, Int, Choice, Gen, Str, Union, Real
from pyslet.http import messages, params
from pyslet.http.params import MediaType, LanguageTag
from pyslet.http.messages import AcceptList, AcceptItem, MediaRange, \
    AcceptTokenList, AcceptToken, AcceptCharsetList, AcceptEncodingList, \
    AcceptLanguageList, AcceptCharsetItem, AcceptEncodingItem, \
    AcceptLanguageItem


# -- the rules of RFC 2616 section 14, independently ------------------------------

def pick(alternatives, qualities):
    """first of the highest positive quality"""
    best, at = 0, None
    for i, q in enumerate(qualities):
        if q > best:
            best, at = q, i
    return None if at is None else alternatives[at]


def qualities_of(matching):
    """possible qualities from [(specificity, identity, q)]: the most
    specific ranges; equal ranges count with the higher quality"""
    if not matching:
        return None
    top = max(m[0] for m in matching)
    ids = {}
    for s, ident, q in matching:
        if s == top:
            ids[ident] = max(q, ids.get(ident, 0))
    return sorted(set(ids.values()))


def media_match(r, m):
    (rt, rs, rp), (mt, ms, mp) = r, m
    return (rt == '*' or rt.lower() == mt.lower()) and (
        rs == '*' or rs.lower() == ms.lower()) and all(
            p in mp and mp[p] == v for p, v in rp.items())


def media_spec(r):
    return (r[0] != '*', r[1] != '*', len(r[2]))


def dic(p):
    return dict((n, (n, v)) for n, v in p.items())


PARAMS = [{}, {}, {'level': b'1'}, {'level': b'2'},
          {'level': b'1', 'v': b'x'}, {'v': b'x'}, {'v': b'X'}]


def gen_media(rng):
    ranges = []
    types, subs = ['text', 'image', 'TEXT', '~a'], ['plain', 'html', '~',
                                                   'Plain', 'x-y']
    for i in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .15:
            t = ('*', '*', {})
        elif r < .35:
            t = (rng.choice(types), '*', rng.choice(PARAMS[:3]))
        else:
            t = (rng.choice(types), rng.choice(subs), rng.choice(PARAMS))
        ranges.append((t, rng.choice([0, 0, 1.0, 1.0, .5, .5, .25, .001,
                                      .999])))
    alts = [(rng.choice(types), rng.choice(subs), rng.choice(PARAMS))
            for i in range(rng.randint(1, 4))]
    return ranges, alts, rng.random()


def answers(alts, quals):
    """every answer the rules permit"""
    out = []
    for qs in itertools.product(*quals):
        r = pick(alts, qs)
        if not any(r is x for x in out):
            out.append(r)
    return out


def mt(x, cls=MediaType):
    return cls(x[0], x[1], dic(x[2]))


@bounded('the best media type is selected', 'generated headers and '
         'alternatives', case=Gen(gen_media), _samples=8000)
def media(k, case):
    ranges, alts, how = case
    quals = [qualities_of([
        (media_spec(r), (r[0].lower(), r[1].lower(), tuple(sorted(
            r[2].items()))), q) for r, q in ranges if media_match(r, a)]) or
        [0] for a in alts]
    offered = [mt(a) for a in alts]
    want = answers(offered, quals)
    got = []
    orders = [ranges, ranges[::-1], sorted(ranges, key=lambda r: (
        r[1], r[0][:2]))]
    for order in orders:
        lst = AcceptList(*[AcceptItem(mt(r, MediaRange), q)
                           for r, q in order])
        got.append(lst.select_type(offered))
    k.ensures("an answer the rules permit", any(
        got[0] is w for w in want), str(got[0]), [str(w) for w in want])
    k.ensures("the order of the ranges does not matter", all(
        g is got[0] for g in got), [str(g) for g in got])
    # written as a header and read again
    text = ', '.join(str(AcceptItem(mt(r, MediaRange), q))
                     for r, q in ranges)
    lst = AcceptList.from_str(text)
    k.ensures("the written header selects the same",
              lst.select_type(offered) is got[0], text)
    if how < .3:
        again = AcceptList.from_str(str(lst))
        k.ensures("the list written out selects the same",
                  again.select_type(offered) is got[0], str(lst))
    for r, q in ranges:
        for a in alts:
            k.ensures("match_media_type", mt(r, MediaRange).match_media_type(
                mt(a)) == media_match(r, a), r, a)


TOKENS = ['gzip', 'identity', 'iso-8859-1', 'utf-8', 'UTF-8', 'Identity',
          '~x', 'ISO-8859-1', 'compress']
KINDS = [(AcceptTokenList, AcceptToken, None, None),
         (AcceptCharsetList, AcceptCharsetItem, 'iso-8859-1', 1.0),
         (AcceptEncodingList, AcceptEncodingItem, 'identity', 1e-9)]


def gen_tokens(rng):
    ranges = [(rng.choice(TOKENS + ['*', '*']), rng.choice(
        [0, 0, 1.0, .5, .5, .25, .75, .001])) for i in range(
            rng.randint(0, 6))]
    return rng.randrange(3), ranges, [rng.choice(TOKENS) for i in range(
        rng.randint(1, 4))]


@bounded('the best token is selected', 'generated headers and alternatives',
         case=Gen(gen_tokens, corners=[
             (1, [], ['utf-8', 'ISO-8859-1']), (1, [('*', 0)], ['iso-8859-1']),
             (2, [('*', 0)], ['identity']), (2, [], ['gzip', 'identity']),
             (2, [('identity', 0)], ['identity']),
             (2, [('gzip', 0.001)], ['identity', 'gzip'])]), _samples=8000)
def tokens(k, case):
    n, ranges, alts = case
    cls, item, default, q = KINDS[n]
    quals = []
    for a in alts:
        m = qualities_of([(r != '*', r.lower(), rq) for r, rq in ranges
                          if r == '*' or r.lower() == a.lower()])
        if m is None:
            m = [q if default is not None and a.lower() == default else 0]
        quals.append(m)
    want = answers(alts, quals)[0]
    for order in (ranges, ranges[::-1], sorted(ranges)):
        got = cls(*[item(r, rq) for r, rq in order]).select_token(alts)
        k.ensures("the first best alternative", got == want, got, want)
    text = ', '.join('%s;q=%.3f' % x if x[1] != 1 else x[0] for x in ranges)
    lst = cls.from_str(text)
    k.ensures("read from a header", lst.select_token(alts) == want, text)
    k.ensures("written and read again", cls.from_str(
        lst.to_bytes()).select_token(alts) == want, text)


LANGS = ['en', 'en-US', 'en-us', 'EN-GB', 'en-US-texas', 'fr', 'fr-CA',
         'e', 'en-u', 'x-klingon']


def gen_langs(rng):
    ranges = [(rng.choice(LANGS + ['*', '*']), rng.choice(
        [0, 0, 1.0, .5, .5, .25, .75, .001])) for i in range(
            rng.randint(0, 6))]
    return ranges, [rng.choice(LANGS) for i in range(rng.randint(1, 4))]


def lang_match(r, a):
    r, a = r.lower(), a.lower()
    return r == '*' or a == r or a.startswith(r + '-')


@bounded('the best language is selected', 'generated headers and '
         'alternatives', case=Gen(gen_langs, corners=[
             ([('en', .2), ('en', .8), ('fr', .5)], ['fr', 'en']),
             ([('*', .5), ('en', 0)], ['en-US', 'fr']),
             ([], ['en'])]), _samples=8000)
def languages(k, case):
    ranges, alts = case
    quals = [qualities_of([
        (0 if r == '*' else r.count('-') + 1, r.lower(), q)
        for r, q in ranges if lang_match(r, a)]) or [0] for a in alts]
    tags = [LanguageTag.from_str(a) for a in alts]
    want = answers(tags, quals)[0]
    for order in (ranges, ranges[::-1], sorted(ranges)):
        lst = AcceptLanguageList(*[AcceptLanguageItem(r, q)
                                   for r, q in order])
        got = lst.select_language(tags)
        k.ensures("the first best alternative", got is want, str(got),
                  str(want))
        got = lst.select_token(alts)
        k.ensures("by its name", got is None if want is None else
                  got == str(want), got)
    text = ', '.join('%s;q=%.3f' % x if x[1] != 1 else x[0] for x in ranges)
    k.ensures("read from a header", AcceptLanguageList.from_str(
        text).select_language(tags) is want, text)
    for r, q in ranges:
        for a, t in zip(alts, tags):
            k.ensures("partial_match", t.partial_match(
                AcceptLanguageItem(r)._range) == lang_match(r, a), r, a)


# -- any number of ranges, any number of alternatives ---------------------------------
#
# Alternatives and ranges are numbers; same(j, i): range i matches
# alternative j, star(i): it is the wild card.  The ranges are in order of precedence, so that the quality of
# an alternative is that of the first range that matches it.  `tiny` is less
# than every positive quality.

def no_star(i):
    return False


class World(object):
    def __init__(self, k, n, m, tokens):
        self.k = k
        self.n = n              # ranges
        self.m = m              # alternatives
        self.same = k.fun('same', 2, 'bool')
        # only tokens have a wild card apart from what matches them
        self.star = k.fun('star', 1, 'bool') if tokens else no_star
        self.special = k.fun('special', 1, 'bool') if tokens else no_star
        self.q = k.fun('q', 1, 'real')
        self.first = k.fun('first', 1)
        self.tiny = k.fresh('real', 'tiny')
        self.default = 0
        k.assume(k.And(self.tiny > 0, self.tiny < 1))

    def quality(self, j):
        """the quality of an alternative"""
        k = self.k
        f = self.first(j)
        k.assume(k.And(f >= 0, f <= self.n, k.Implies(
            f < self.n, k.Or(self.same(j, f), self.star(f)))))
        self.range(f)
        return k.ite(f < self.n, self.q(f), k.ite(
            self.special(j), self.default, 0))

    def range(self, i):
        k = self.k
        k.assume(k.And(self.q(i) >= 0, self.q(i) <= 1, k.Or(
            self.q(i) == 0, self.q(i) > self.tiny)))

    def facts(self, j, i):
        """none before the first matches"""
        self.quality(j)
        self.k.assume(self.k.Implies(self.k.Or(
            self.same(j, i), self.star(i)), self.first(j) <= i))

    def match(self, j, i):
        self.facts(j, i)
        return self.same(j, i)

    def wild(self, i):
        self.facts(self.k.get('at'), i)
        return self.star(i)


class Alternative(object):
    """a media type, token or language"""

    def __init__(self, w, j):
        self.w = w
        self.j = j

    def lower(self):
        return self

    def __eq__(self, other):
        if isinstance(other, RangeToken):
            return self.w.match(self.j, other.i)
        return self.w.special(self.j)

    def __ne__(self, other):
        return self.w.k.Not(self == other)

    def partial_match(self, range):
        return self.w.match(self.j, range.i)


class RangeToken(object):
    def __init__(self, w, i):
        self.w = w
        self.i = i

    def match_media_type(self, mtype):
        return self.w.match(mtype.j, self.i)

    def __eq__(self, other):
        if isinstance(other, Alternative):
            return self.w.match(other.j, self.i)
        return self.w.wild(self.i)

    def __ne__(self, other):
        return self.w.k.Not(self == other)


class Item(object):
    def __init__(self, w, i):
        self.range = self._range = self._token = RangeToken(w, i)
        self.q = w.q(i)
        w.range(i)


def ranges_inv(k, L):
    """none of the ranges so far matches"""
    w = k.get('world')
    return [("no match so far", L._i <= w.first(k.get('at'))),
            ("the best is still the same", k.And(
                L.bestq == k.get('bestq'), L.bestmatch is k.get('best')))]


def flag_inv(k, L):
    return ranges_inv(k, L) + [("no match", k.Not(L.match))]


def alternatives_inv(k, L):
    w = k.get('world')
    x = k.get('x')
    q = w.quality(x)
    if L.bestmatch is None:
        return [("nothing acceptable so far", k.And(
            L.bestq == 0, k.Implies(x < L._i, q == 0)))]
    b = L.bestmatch.j
    qb = w.quality(b)
    return [("the best so far", k.And(
        b >= 0, b < L._i, qb > 0, qb == k.ite(
            L.bestq > 0, L.bestq, w.tiny), L.bestq >= 0,
        k.Or(L.bestq == 0, L.bestq > w.tiny),
        k.Implies(x < L._i, q <= qb), k.Implies(x < b, q < qb)))]


def some_alternative(k):
    j = k.fresh('int', 'best')
    k.assume(j >= 0)
    return Alternative(k.get('world'), j) if k.fresh('bool', 'none') else None


def at(k, L):
    k.put('at', L._i)
    k.get('world').quality(L._i)
    k.put('best', L.bestmatch)
    k.put('bestq', L.bestq)


def selection(func):
    same = {'bestmatch': lambda k: k.get('best'),
            'bestq': lambda k: k.get('bestq')}
    return [
        LoopSpec(func, ordinal=0, strict=True, inv=alternatives_inv, havoc={
            'bestmatch': some_alternative, 'bestq': 'real'}, step=at),
        LoopSpec(func, ordinal=1, strict=True, inv=flag_inv, havoc=dict(
            same, match='bool')),
        LoopSpec(func, ordinal=1, strict=True, inv=ranges_inv, havoc=same)]


def chosen(k, cls, method, default=0, seed=0):
    if k.native or k.concrete:
        return
    n, m = k.fresh('int', 'ranges'), k.fresh('int', 'alternatives')
    k.assume(k.And(n >= 0, m >= 0))
    w = k.put('world', World(k, n, m, method == 'select_token'))
    w.default = w.tiny if default == 'tiny' else default
    x = k.put('x', k.fresh('int', 'x'))
    k.assume(k.And(x >= 0, x < m))
    lst = cls()
    lst._items = k.many(n, lambda i: Item(w, i))
    got = getattr(lst, method)(k.many(m, lambda j: Alternative(w, j)))
    if got is None:
        k.ensures("nothing is acceptable", w.quality(x) == 0)
        return
    k.ensures("one of the alternatives", k.And(got.j >= 0, got.j < m))
    q = w.quality(got.j)
    k.ensures("acceptable", q > 0)
    k.ensures("no other is better", w.quality(x) <= q)
    k.ensures("none before it is as good", k.Implies(
        x < got.j, w.quality(x) < q))


@proof('any ranges, any media types', _loops=selection(
    'AcceptList.select_type'), _native=False)
def any_type(k):
    chosen(k, AcceptList, 'select_type')


@proof('any ranges, any tokens', _loops=selection(
    'AcceptTokenList.select_token'), _native=False)
def any_token(k):
    chosen(k, AcceptTokenList, 'select_token')


@proof('any ranges, any charsets', _loops=selection(
    'AcceptCharsetList.select_token'), _native=False)
def any_charset(k):
    chosen(k, AcceptCharsetList, 'select_token', 1)


@proof('any ranges, any encodings', _loops=selection(
    'AcceptEncodingList.select_token'), _native=False)
def any_encoding(k):
    chosen(k, AcceptEncodingList, 'select_token', 'tiny')


@proof('any ranges, any languages', _loops=selection(
    'AcceptLanguageList.select_language'), _native=False)
def any_language(k):
    chosen(k, AcceptLanguageList, 'select_language')


# -- does a language match a range ---------------------------------------------------

def tags_inv(k, L):
    tag, rng, x = k.get('tag'), k.get('range'), k.get('x')
    return [("the same so far", k.Implies(x < L._i, tag(x) == rng(x)))]


def tags_step(k, L):
    k.assume(k.Implies(k.get('same'), k.get('tag')(L._i) == k.get(
        'range')(L._i)))


@proof('any tag, any range', _loops=[LoopSpec(
    'LanguageTag.partial_match', inv=tags_inv, havoc={}, step=tags_step)],
    _native=False)
def partial(k):
    """Subtags are numbers: they are only compared.  `same`: those of the
    range equal those of the tag, which is used one subtag at a time"""
    n, m = k.fresh('int', 'tags'), k.fresh('int', 'ranges')
    k.assume(k.And(n >= 1, m >= 0))
    tag, rng = k.put('tag', k.fun('tag', 1)), k.put('range', k.fun(
        'range', 1))
    same = k.put('same', k.fresh('bool', 'same'))
    x = k.put('x', k.fresh('int', 'x'))
    k.assume(k.And(x >= 0, x < m))
    t = LanguageTag('en')
    t._tag = k.many(n, tag)
    if t.partial_match(k.many(m, rng)):
        k.ensures("not longer", m <= n)
        k.ensures("each subtag is the same", tag(x) == rng(x))
    else:
        k.ensures("longer or different", k.Or(m > n, k.Not(same)))


# -- the order of precedence -----------------------------------------------------------

PARAM_SETS = [{}, {'p': b'1'}, {'p': b'2'}, {'p': b'1', 'r': b'2'}]


class Name(object):
    """a type or subtype that is no wild card, in some mix of cases: what is
    left of it in lower case is an integer, as it is only compared"""

    def __init__(self, n):
        self.n = n

    def lower(self):
        return self.n

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True


@proof('the more specific media range comes first', t=Int(0, 5), s=Int(0, 5),
       level1=Choice([0, 1, 2]), level2=Choice([0, 1, 2]),
       n1=Choice([0, 1, 2, 3]), n2=Choice([0, 1, 2, 3]),
       q1=Real([0, .5, 1.0, .001, .25]), q2=Real([0, .5, 1.0, .001, .25]))
def precedence(k, t, s, level1, level2, n1, n2, q1, q2):
    """Two ranges that match the same media type"""
    p1, p2 = PARAM_SETS[n1], PARAM_SETS[n2]
    a = AcceptItem(media_range(level1, t, s, p1), q1)
    b = AcceptItem(media_range(level2, t, s, p2), q2)
    spec1, spec2 = (level1, len(p1)), (level2, len(p2))
    if spec1 > spec2:
        k.ensures("before", a < b)
        k.ensures("not after", not b < a)
    elif spec1 < spec2:
        k.ensures("after", b < a)
    elif n1 == n2 and q1 > q2:
        k.ensures("the higher quality first", a < b)


def media_range(level, t, s, p):
    r = MediaRange()
    r.type = Name(t) if level else '*'
    r.subtype = Name(s) if level > 1 else '*'
    r.parameters = dict((x, (x, v)) for x, v in p.items())
    r._hp = [(n, p[n]) for n in sorted(p)]
    return r


@proof('the more specific token comes first', t=Int(0, 5), q1=Real([0, .5, 1.0, .001, .25]),
       q2=Real([0, .5, 1.0, .001, .25]), star1=Choice([False, True]),
       star2=Choice([False, True]))
def token_precedence(k, t, q1, q2, star1, star2):
    a, b = AcceptToken('*', q1), AcceptToken('*', q2)
    if not star1:
        a.token, a._token = Name(t), t
    if not star2:
        b.token, b._token = Name(t), t
    if star1 != star2:
        k.ensures("before", (a < b) == star2)
        k.ensures("not after", (b < a) == star1)
    elif q1 > q2:
        k.ensures("the higher quality first", a < b)


@proof('the more specific language comes first', _bounded='ranges of up to '
       'four subtags', n1=Choice([0, 1, 2, 3, 4]),
       n2=Choice([0, 1, 2, 3, 4]), q1=Real([0, .5, 1.0, .001, .25]), q2=Real([0, .5, 1.0, .001, .25]),
       a1=Int(0, 3), a2=Int(0, 3), a3=Int(0, 3), a4=Int(0, 3))
def language_precedence(k, n1, n2, q1, q2, a1, a2, a3, a4):
    """Two ranges that match the same tag: one is the start of the other"""
    tag = (a1, a2, a3, a4)
    a, b = AcceptLanguageItem('*', q1), AcceptLanguageItem('*', q2)
    a._range, b._range = tag[:n1], tag[:n2]
    if n1 != n2:
        k.ensures("before", (a < b) == (n1 > n2))
    elif q1 > q2:
        k.ensures("the higher quality first", a < b)


@proof('a media range matches', _bounded='up to three parameters',
       t1=Int(0, 2), t2=Int(0, 2), s1=Int(0, 2), s2=Int(0, 2),
       level=Choice([0, 1, 2]), has1=Choice(list(range(8))),
       has2=Choice(list(range(8))), a1=Int(0, 1), a2=Int(0, 1), a3=Int(0, 1),
       b1=Int(0, 1), b2=Int(0, 1), b3=Int(0, 1))
def matching(k, t1, t2, s1, s2, level, has1, has2, a1, a2, a3, b1, b2, b3):
    """The values of the parameters p, r and s are numbers: they are only
    compared; has1 and has2 tell which parameters are there"""
    p1 = dict((n, v) for i, (n, v) in enumerate(
        [('p', a1), ('r', a2), ('s', a3)]) if has1 & 1 << i)
    p2 = dict((n, v) for i, (n, v) in enumerate(
        [('p', b1), ('r', b2), ('s', b3)]) if has2 & 1 << i)
    r = media_range(level, t1, s1, p1)
    m = media_range(2, t2, s2, p2)
    if has1 & ~has2:
        want = False
    else:
        want = k.And(level == 0 or t1 == t2, level < 2 or s1 == s2,
                     *[p1[n] == p2[n] for n in p1])
    k.ensures("its type and parameters", r.match_media_type(m) == want)
