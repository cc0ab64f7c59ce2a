"""R02: relative references resolve as RFC 2396 says; relative() inverts."""
import itertools
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Int, Choice, Str, Gen, Opt, Const, has, \
    ListN
from pyslet import rfc2396 as uri
from pyslet.rfc2396 import URI, URIException, URIRelativeError


SEG = Str(alphabet='.:ab', maxlen=3, words=['.', '..', '..', '', 'a', 'b',
                                             ':', 'a:'])


# -- dot segments, RFC 2396 section 5.2 step 6 ---------------------------------

def dots_removed(k, segs):
    """the path walked from left to right, as a stack"""
    out = []
    n = len(segs)
    for i in range(n):
        s = segs[i]
        if s == '.':
            if i == n - 1:
                out.append('')
        elif s == '..' and out and out[-1] != '..':
            out.pop()
            if i == n - 1:
                out.append('')
        else:
            out.append(s)
    if out and out[-1] == '..':
        # the library writes "../" for a path that ends ".."
        out.append('')
    return out


def same_list(k, a, b):
    return k.And(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def is_normal(k, segs):
    """no removable dot segment: '..' only in front, '.' nowhere"""
    conds = []
    for i, s in enumerate(segs):
        conds.append(k.Not(s == '.'))
        if i:
            conds.append(k.Implies(s == '..', segs[i - 1] == '..'))
    if segs:
        conds.append(k.Not(segs[-1] == '..'))
    return k.And(*conds)


@proof('normalize_segments removes exactly the dot segments',
       _bounded='paths of at most 5 segments, each any text',
       n=Choice(range(6)), a=SEG, b=SEG, c=SEG, d=SEG, e=SEG)
def normalize(k, n, a, b, c, d, e):
    segs = [a, b, c, d, e][:n]
    want = dots_removed(k, segs)
    path = list(segs)
    uri.normalize_segments(path)
    k.ensures("the dot segments of the specification", same_list(
        k, path, want), path, want)
    k.ensures("no removable dot segment left", is_normal(k, path), path)
    again = list(path)
    uri.normalize_segments(again)
    k.ensures("idempotent", same_list(k, again, path), again)


@bounded('normalize_segments, long paths', 'all paths of at most 7 segments '
         'out of ".", "..", "a", ""', n=Choice(range(8)), _exhaustive=True)
def normalize_all(k, n):
    for segs in itertools.product(['.', '..', 'a', ''], repeat=n):
        path = list(segs)
        uri.normalize_segments(path)
        if path != dots_removed(k, segs):
            k.fail("the dot segments of the specification", segs, path)
        if not is_normal(k, path):
            k.fail("no removable dot segment left", segs, path)
        again = list(path)
        uri.normalize_segments(again)
        if again != path:
            k.fail("idempotent", segs, path, again)


def gen_long(rng):
    dots = rng.choice([.1, .4, .7])
    return [rng.choice(['.', '..', '..']) if rng.random() < dots else
            rng.choice(['a', 'b', '', '...', '.a'])
            for i in range(rng.randint(8, 120))]


@bounded('normalize_segments, longer paths', 'up to 120 segments',
         _samples=1500, segs=Gen(gen_long))
def normalize_long(k, segs):
    path = list(segs)
    uri.normalize_segments(path)
    k.ensures("the dot segments of the specification",
              path == dots_removed(k, segs), path)
    k.ensures("no removable dot segment left", is_normal(k, path), path)


# -- any number of segments ---------------------------------------------------
#
# The path is 'total' segments: kind(j) is the kind of segment j (EMPTY, CUR,
# PAR or NAME) and ident(j) says which name it is.  A stack is a number: 0 is
# empty, push(w, kind, ident) has one segment more and below(w), top(w),
# topid(w) take it apart.  stack(j) is what dots_removed() above holds after j
# segments.

EMPTY, CUR, PAR, NAME = 0, 1, 2, 3


class Stacks(object):
    def __init__(self, k, total):
        self.k = k
        self.total = total
        self.kind = k.fun('kind', 1)
        self.ident = k.fun('ident', 1)
        self.push_ = k.fun('push', 3)
        self.below = k.fun('below', 1)
        self.top = k.fun('top', 1)
        self.topid = k.fun('topid', 1)
        self.depth = k.fun('depth', 1)
        self.stack = k.fun('stack', 1)
        # '..' is at the start only
        self.normal = k.fun('normal', 1, 'bool')
        k.assume(k.And(total >= 0, self.depth(0) == 0, self.stack(0) == 0))

    def known(self, w):
        """the facts of a stack"""
        k = self.k
        k.assume(k.And(
            self.depth(w) >= 0, k.Iff(self.depth(w) == 0, w == 0),
            k.Implies(w != 0, k.And(
                self.top(w) >= EMPTY, self.top(w) <= NAME,
                self.top(w) != CUR,
                self.depth(self.below(w)) == self.depth(w) - 1,
                k.Iff(self.below(w) == 0, self.depth(w) == 1))),
            k.Iff(self.normal(w), k.Or(w == 0, k.And(
                self.normal(self.below(w)), k.Or(
                    self.top(w) != PAR, self.below(w) == 0,
                    self.top(self.below(w)) == PAR))))))

    def push(self, w, kind, ident):
        """one segment more, not CUR"""
        k = self.k
        r = self.push_(w, kind, k.ite(kind == NAME, ident, 0))
        k.assume(k.Implies(kind != CUR, k.And(
            self.below(r) == w, self.top(r) == kind, r != 0,
            self.topid(r) == k.ite(kind == NAME, ident, 0),
            self.depth(r) == self.depth(w) + 1)))
        k.assume(k.Implies(kind != CUR, k.Iff(self.normal(r), k.And(
            self.normal(w), k.Or(kind != PAR, w == 0,
                                 self.top(w) == PAR)))))
        return r

    def step(self, j):
        """the definition of stack(j + 1)"""
        k = self.k
        w, kind = self.stack(j), self.kind(j)
        k.assume(k.And(kind >= EMPTY, kind <= NAME))
        self.known(w)
        last = j == self.total - 1
        k.assume(self.stack(j + 1) == k.ite(
            kind == CUR, k.ite(last, self.push(w, EMPTY, 0), w), k.ite(
                k.And(kind == PAR, w != 0, self.top(w) != PAR),
                k.ite(last, self.push(self.below(w), EMPTY, 0),
                      self.below(w)),
                self.push(w, kind, self.ident(j)))))


class AnySegment(object):
    def __init__(self, stacks, kind, ident=0):
        self.stacks = stacks
        self.kind = kind
        self.ident = ident

    def __bool__(self):
        return self.kind != EMPTY

    def __eq__(self, other):
        return self.kind == {'': EMPTY, '.': CUR, '..': PAR}[other]

    def __ne__(self, other):
        return self.stacks.k.Not(self == other)


def single(i):
    if isinstance(i, slice):
        raise NotImplementedError


class AnySegments(object):
    """A list: the segments of a stack, perhaps an empty one, then the path
    from segment pos on; and more empty ones"""

    def __init__(self, stacks, state):
        self.stacks = stacks
        self.state = state
        self.more = 0

    def done(self):
        return self.stacks.depth(self.state[0])

    def __len__(self):
        w = self.stacks
        way, empty, pos = self.state
        return self.done() + w.k.ite(empty, 1, 0) + (
            w.total - pos) + self.more

    def __bool__(self):
        return self.__len__() > 0

    def __iter__(self):
        raise NotImplementedError

    def __getattr__(self, name):
        raise NotImplementedError

    def pop(self, i=-1):
        item = self[i]
        k = self.stacks.k
        del self[k.ite(i == -1, self.__len__() - 1, i)]
        return item

    def __getitem__(self, i):
        single(i)
        w = self.stacks
        k = w.k
        way, empty, pos = self.state
        n = self.done()
        w.known(way)
        if k.split(i == n):
            k.lemma("a segment", k.Or(empty, pos < w.total))
            return AnySegment(w, k.ite(empty, EMPTY, w.kind(pos)),
                              k.ite(empty, 0, w.ident(pos)))
        if k.split(i == -1):
            k.lemma("the last segment", k.And(
                pos == w.total, k.Not(empty), way != 0))
        else:
            k.lemma("the segment before", k.And(i == n - 1, i >= 0))
        return AnySegment(w, w.top(way), w.topid(way))

    def __setitem__(self, i, item):
        single(i)
        w = self.stacks
        k = w.k
        way, empty, pos = self.state
        k.lemma("becomes empty", item == '')
        k.lemma("a segment to replace", k.And(
            i == self.done(), k.Or(empty, pos < w.total)))
        self.state = (way, True, k.ite(empty, pos, pos + 1))

    def __delitem__(self, i):
        single(i)
        w = self.stacks
        k = w.k
        way, empty, pos = self.state
        n = self.done()
        w.known(way)
        if k.split(i == n):
            k.lemma("a segment to delete", k.Or(empty, pos < w.total))
            self.state = (way, False, k.ite(empty, pos, pos + 1))
        else:
            k.lemma("the segment before", k.And(i == n - 1, i >= 0))
            w.known(w.below(way))
            self.state = (w.below(way), empty, pos)

    def append(self, item):
        self.stacks.k.lemma("an empty segment", item == '')
        self.more = self.more + 1


def dots_inv(k, L):
    c = L.path_segments
    w = c.stacks
    way, empty, pos = c.state
    if k.split(L.i == c.done() + 1):
        # the next one was left as it is
        item = c[c.done()]
        k.lemma("'.' is never left", item.kind != CUR)
        way, empty, pos = w.push(way, item.kind, item.ident), False, k.ite(
            empty, pos, pos + 1)
    else:
        w.known(way)
    return [
        ("i segments are dealt with", L.i == w.depth(way)),
        ("they are what the specification keeps", k.ite(
            empty, w.push(way, EMPTY, 0), way) == w.stack(pos)),
        ("normal", w.normal(way)),
        ("one is replaced at the end only", k.Implies(
            empty, pos == w.total)),
        ("position", k.And(pos >= 0, pos <= w.total)),
        ("nothing appended", c.more == 0)]


def dots_state(k):
    way = k.fresh('int', 'way')
    k.put('i', k.get('stacks').depth(way))
    return way, k.fresh('bool', 'empty'), k.fresh('int', 'pos')


def dots_step(k, L):
    way, empty, pos = L.path_segments.state
    w = L.path_segments.stacks
    w.known(way)
    w.step(pos)


@proof('dot segments are removed from any path', _loops=[LoopSpec(
    'normalize_segments', inv=dots_inv, step=dots_step, havoc={
        'path_segments.state': dots_state, 'i': lambda k: k.get('i')})], _native=False)
def any_path(k):
    total = k.fresh('int', 'total')
    w = k.put('stacks', Stacks(k, total))
    path = AnySegments(w, (0, False, 0))
    w.known(0)
    uri.normalize_segments(path)
    way, empty, pos = path.state
    w.known(way)
    k.ensures("all segments", k.And(k.Not(empty), pos == total))
    k.ensures("those of the specification", way == w.stack(total))
    k.ensures("'..' at the start only", w.normal(way))
    k.ensures("a slash after a last '..'", path.more == k.ite(
        k.And(way != 0, w.top(way) == PAR), 1, 0))


# -- the relative form of one path against another -----------------------------

@proof('the relative path leads back to the path',
       _bounded='paths of at most 3 segments, each any text',
       n=Choice([1, 2, 3]), m=Choice([1, 2, 3]), a=SEG, b=SEG, c=SEG, x=SEG,
       y=SEG, z=SEG)
def relativize(k, n, m, a, b, c, x, y, z):
    if not has(uri, '_relativize_segments', 2):
        return
    path, base = [a, b, c][:n], [x, y, z][:m]
    for s in path + base:
        k.requires(k.And(k.Not(s == '.'), k.Not(s == '..')))
    r = uri._relativize_segments(list(path), list(base))
    if not r:
        k.ensures("nothing only for the base itself", same_list(
            k, path, base))
        return
    k.ensures("not like an absolute path", k.Not(r[0] == ''), r)
    back = base[:-1] + r
    want = dots_removed(k, back)
    k.ensures("leads back", same_list(k, want, path), r)


# -- whole URIs, native --------------------------------------------------------

def split(text):
    """RFC 2396 appendix B"""
    frag = query = auth = sch = None
    if '#' in text:
        text, frag = text.split('#', 1)
    i = text.find(':')
    if i > 0 and not set(text[:i]) & set('/?'):
        sch, text = text[:i], text[i + 1:]
    if '?' in text:
        text, query = text.split('?', 1)
    if text.startswith('//'):
        i = text.find('/', 2)
        if i < 0:
            i = len(text)
        auth, text = text[2:i], text[i:]
    return sch, auth, text, query, frag


def resolved(base, ref):
    """RFC 2396 section 5.2"""
    bs, ba, bp, bq, bf = split(base)
    s, a, p, q, f = split(ref)
    if p == '' and s is None and a is None and q is None:
        return base.split('#')[0] + ('' if f is None else '#' + f)
    if s is not None:
        return ref
    s = bs
    if a is None:
        a = ba
        if p[:1] != '/':
            segs = bp.split('/')[1:-1] + p.split('/')
            p = '/' + '/'.join(dots_removed(None, segs))
    out = s + ':'
    if a is not None:
        out += '//' + a
    out += p
    if q is not None:
        out += '?' + q
    if f is not None:
        out += '#' + f
    return out


REFSEGS = ['a', 'b', 'g', '', '.', '..', '..', 'x;p', '.a', 'a.', '..b',
           'a=1', '%2e', '...', 'b:c', 'i%41j']


def gen_path(rng, segs, lo, hi):
    return '/'.join(rng.choice(segs) for i in range(rng.randint(lo, hi)))


def gen_base(rng, segs=REFSEGS, frag=True):
    while True:
        s = rng.choice(['http:', 'http:', 'x:', 'FTP:'])
        a = rng.choice(['', '//h', '//h', '//u@h:1', '//', '//g'])
        p = '/' + gen_path(rng, segs, 0, 5)
        if p.startswith('//') and not a:
            continue
        return s + a + p + rng.choice(['', '', '?', '?q', '?a/../b']) + (
            rng.choice(['', '', '#', '#f/..']) if frag else '')


def gen_resolve(rng):
    base = gen_base(rng)
    r = rng.random()
    if r < .1:
        ref = rng.choice(['x:', 'x:a/../b', 'http:g', 'mailto:a', 'http://k',
                          'http:/a/./b'])
    elif r < .25:
        ref = '//' + rng.choice(['', 'h', 'k:80']) + rng.choice([
            '', '/', '/a/../b', '/.'])
    elif r < .4:
        ref = '/' + gen_path(rng, REFSEGS, 0, 4)
        if ref.startswith('//'):
            ref = '/a' + ref
    else:
        ref = gen_path(rng, REFSEGS, 0, 6)
        while ref.startswith('/') or ':' in ref.split('/')[0]:
            ref = ref[1:]
    ref += rng.choice(['', '', '?', '?y', '?y/./x'])
    ref += rng.choice(['', '', '#', '#s', '#s/../x'])
    return base, ref


RFC = [('http://a/b/c/d;p?q', r) for r in (
    'g:h g ./g g/ /g //g ?y g?y #s g#s g?y#s ;x g;x g;x?y#s . ./ .. ../ ../g '
    '../.. ../../ ../../g ../../../g ../../../../g /./g /../g g. .g g.. ..g '
    './../g ./g/. g/./h g/../h g;x=1/./y g;x=1/../y g?y/./x g?y/../x '
    'g#s/./x g#s/../x http:g').split() + ['']]


@bounded('resolve follows RFC 2396 section 5.2', 'generated URIs',
         case=Gen(gen_resolve, corners=RFC + [
             ('http://a', 'b'), ('x:/', '..'), ('x:/a/b', '../../..'),
             ('x:/a?q#f', ''), ('x:/a?q#f', '#g'), ('x:/a/b', './'),
             ('x:/a//b', '../c'), ('x:/a/..', 'c')]), _samples=12000)
def resolve(k, case):
    base, ref = case
    k.requires(split(base)[2][:1] == '/')
    want = resolved(base, ref)
    b = URI.from_octets(base)
    r = URI.from_octets(ref)
    k.ensures("relative", r.is_absolute() == (split(ref)[0] is not None))
    got = r.resolve(b)
    k.ensures("the URI of the specification", str(got) == want, str(got),
              want)
    k.ensures("absolute", got.is_absolute())
    k.ensures("a text base gives the same", str(r.resolve(base)) == want)
    k.ensures("arguments unchanged", str(b) == base and str(r) == ref)
    doc = URI.from_octets('http://doc/x')
    got = r.resolve(b, doc)
    if split(ref)[:4] == (None, None, '', None):
        f = split(ref)[4]
        want = 'http://doc/x' + ('' if f is None else '#' + f)
    k.ensures("the current document is the given one", str(got) == want,
              str(got), want)


PLAIN = [s for s in REFSEGS if s not in ('.', '..')]


def gen_pair(rng):
    u = gen_base(rng, PLAIN)
    if rng.random() < .3:
        return u, gen_base(rng, PLAIN)
    # share a front with the base
    s, a, p, q, f = split(u)
    segs = p.split('/')
    n = rng.randint(1, len(segs))
    base = segs[:n] + gen_path(rng, PLAIN, 0, 3).split('/')
    bp = '/'.join(base)
    if not bp.startswith('/') or bp.startswith('//') and a is None:
        bp = '/z' + bp
    b = s + ':' + ('' if a is None else '//' + a) + bp + rng.choice(
        ['', '', '?q', '?'])
    return u, b


@bounded('relative and resolve are inverse', 'generated pairs of URIs',
         case=Gen(gen_pair, corners=[
             ('http://h/a/b', 'http://h/a/b'), ('http://h/a/b', 'http://h/a'),
             ('http://h/a', 'http://h/a/b'), ('http://h/', 'http://h/a'),
             ('http://h/a/', 'http://h/a'), ('http://h/a', 'http://h/a/'),
             ('http://h/a?q', 'http://h/a'), ('http://h/a', 'http://h/a?q'),
             ('http://h/b:c', 'http://h/a'), ('http://h//a', 'http://h/b'),
             ('http://h//', 'http://h/'), ('x:/a/b', 'x:/c/d'),
             ('http://h/a#f', 'http://h/a'), ('http://h', 'http://h/'),
             ('HTTP://h/a', 'http://h/b')]), _samples=16000)
def inverse(k, case):
    u, b = case
    k.requires(split(b)[2][:1] == '/' and split(u)[2][:1] == '/')
    U, B = URI.from_octets(u), URI.from_octets(b)
    try:
        r = U.relative(B)
    except URIRelativeError:
        k.ensures("refused only when the base says more", split(
            u)[0].lower() == split(b)[0].lower() and split(
                u)[1] is None and split(b)[1] is not None)
        return
    back = r.resolve(B)
    want = u
    if split(u)[0].lower() == split(b)[0].lower():
        want = split(b)[0] + u[len(split(u)[0]):]
    k.ensures("resolves to the URI", str(back) in (u, want), str(r),
              str(back))
    # the written form is a reference that reads the same
    again = URI.from_octets(str(r)).resolve(URI.from_octets(b))
    k.ensures("as text too", str(again) == str(back), str(again))
    k.ensures("arguments unchanged", str(U) == u and str(B) == b)
