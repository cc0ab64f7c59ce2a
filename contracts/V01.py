"""V01: file paths of the in-memory file system."""
import posixpath
import random
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Gen, Int, Str
from pyslet.vfs import MemFilePath


def walk(path):
    """where a path leads: is it absolute, and the way from there"""
    way = []
    for s in path.split('/'):
        if s == '..':
            if way and way[-1] != '..':
                way.pop()
            elif not path.startswith('/'):
                way.append(s)
        elif s not in ('', '.'):
            way.append(s)
    return path.startswith('/'), way


def gen_path(rnd):
    names = rnd.choice([['', '.', '..', 'a'], ['..', 'a', 'b.c', '.h', ''],
                        ['..', 'a'], ['', 'a', 'x.y.z', '...', '..b', 'a.'],
                        ['\xe9', '..', '.\xe9', '']])
    return '/'.join(rnd.choice(names) for i in range(rnd.randint(0, 9)))


@bounded('paths', 'up to 9 segments', _samples=20000,
         path=Gen(gen_path), more=Gen(gen_path))
def paths(k, path, more):
    p = MemFilePath(path)
    norm = p.normpath()
    isabs, way = walk(path)
    want = '/'.join(way)
    want = '/' + want if isabs else want or '.'
    k.ensures("normal form", norm.path == want, norm.path)
    k.ensures("its own normal form", norm.normpath().path == norm.path)
    k.ensures("absolute", norm.isabs() == isabs and p.isabs() == isabs)
    head, tail = p.split()
    # a path that starts with two separators is not special
    k.ensures("split", (head.path, tail.path) == posixpath.split(path),
              head.path, tail.path)
    k.ensures("joined again", walk(head.join(tail).path) == (isabs, way) and
              walk(MemFilePath(head, tail).path) == (isabs, way))
    root, ext = p.splitext()
    k.ensures("extension", (root.path, ext) == posixpath.splitext(path),
              root.path, ext)
    k.ensures("appended again", root.path + ext == path)
    j = p.join(more)
    k.ensures("joined", j.path == posixpath.join(path, more), j.path)
    k.ensures("two joined", p.join(more, path).path ==
              posixpath.join(path, more, path))
    k.ensures("made of parts", walk(MemFilePath(path, more).path) ==
              walk(j.path), MemFilePath(path, more).path)
    k.ensures("bytes", MemFilePath(path.encode('utf-8')).path == path)
    k.ensures("absolute path", walk(p.abspath().path) == walk(
        p.getcwd().path + '/' + path if not isabs else path))


# -- splitting any text -------------------------------------------------------------

PATH = Str(alphabet='/.ab', maxlen=7)


SEP, DOT = ord('/'), ord('.')


def only(k, text, c, lo, hi):
    return k.forall(lo, hi, lambda i: k.code(text, i) == c)


@proof('head and tail', path=PATH)
def head_tail(k, path):
    head, tail = MemFilePath(path).split()
    h, t = head.path, tail.path
    n = len(path) - len(t)
    k.ensures("tail ends the path", t == path[n:])
    k.ensures("head starts the path", h == path[:len(h)])
    k.ensures("tail has no separator", k.forall(
        n, len(path), lambda i: k.code(path, i) != SEP))
    k.ensures("separators between", only(k, path, SEP, len(h), n))
    if n == 0:
        k.ensures("all tail", len(h) == 0)
        return
    k.ensures("split at a separator", k.code(path, n - 1) == SEP)
    k.ensures("some head", len(h) > 0)
    k.ensures("no separator at the end of the head", k.Or(
        k.code(path, len(h) - 1) != SEP,
        k.And(len(h) == n, only(k, path, SEP, 0, n))))


@proof('joining', path=PATH, more=PATH)
def joining(k, path, more):
    j = MemFilePath(path).join(more).path
    if more.startswith('/'):
        k.ensures("an absolute path", j == more)
    elif path == '' or path.endswith('/'):
        k.ensures("no separator needed", j == path + more)
    else:
        k.ensures("one separator", j == path + '/' + more)


@proof('parts of a new path', path=PATH, more=PATH)
def parts(k, path, more):
    j = MemFilePath(path, more).path
    if more.startswith('/'):
        k.ensures("an absolute path", j == more)
    elif path == '' or path.endswith('/'):
        k.ensures("no separator needed", j == path + more)
    else:
        k.ensures("one separator", j == path + '/' + more)


@proof('extension', path=PATH)
def extension(k, path):
    root, ext = MemFilePath(path).splitext()
    r = root.path
    n = len(r)
    k.ensures("root starts the path", r == path[:n])
    k.ensures("extension ends the path", ext == path[n:])
    # where the last component starts, and where its last dot is
    name = path.rfind('/') + 1
    dot = path.rfind('.')
    if k.And(dot > name, k.Not(only(k, path, DOT, name, dot))):
        if path.endswith('/.'):
            k.ensures("a directory", n == len(path))
        else:
            k.ensures("from the last dot", n == dot)
    else:
        k.ensures("no extension", n == len(path))


# -- normalising any path --------------------------------------------------------------
#
# The path is 'total' segments: kind(j) is the kind of segment j (EMPTY, CUR,
# PAR or NAME) and ident(j) says which name it is.  A way is a number: 0 is
# no way at all, push(w, kind, ident) is one segment more and below(w),
# top(w), topid(w) take it apart.  way(j) is where j segments of the path
# lead, as walk() above computes it.

EMPTY, CUR, PAR, NAME = 0, 1, 2, 3


class Ways(object):
    def __init__(self, k, total):
        self.k = k
        self.total = total
        self.kind = k.fun('kind', 1)
        self.ident = k.fun('ident', 1)
        self.push_ = k.fun('push', 3)
        self.below = k.fun('below', 1)
        self.top = k.fun('top', 1)
        self.topid = k.fun('topid', 1)
        self.depth = k.fun('depth', 1)
        self.way = k.fun('way', 1)
        # '..' is at the start only, and not in a way from the root
        self.normal = k.fun('normal', 1, 'bool')
        self.isabs = k.And(self.kind(0) == EMPTY, total > 1)
        # the empty path is not looked at
        k.assume(k.And(total >= 1, k.Or(total > 1, self.kind(0) != EMPTY)))
        k.assume(k.And(self.depth(0) == 0, self.way(0) == 0))

    def segment(self, j):
        self.k.assume(k_in(self.k, self.kind(j), EMPTY, NAME))

    def known(self, w):
        """the facts of a way"""
        k = self.k
        k.assume(k.And(self.depth(w) >= 0,
                       k.Iff(self.depth(w) == 0, w == 0),
                       k.Implies(w != 0, k.And(
                           k.Or(self.top(w) == PAR, self.top(w) == NAME),
                           self.depth(self.below(w)) == self.depth(w) - 1,
                           self.depth(self.below(w)) >= 0,
                           k.Iff(self.below(w) == 0, self.depth(w) == 1))),
                       k.Iff(self.normal(w), k.Or(w == 0, k.And(
                           self.normal(self.below(w)), k.Or(
                               self.top(w) == NAME, k.And(
                                   k.Not(self.isabs), k.Or(
                                       self.below(w) == 0,
                                       self.top(self.below(w)) == PAR))))))))

    def push(self, w, kind, ident):
        """one segment more: PAR or NAME"""
        k = self.k
        r = self.push_(w, kind, ident)
        k.assume(k.And(self.below(r) == w, self.top(r) == kind,
                       self.topid(r) == ident, r != 0,
                       self.depth(r) == self.depth(w) + 1))
        self.known(r)
        return r

    def step(self, j):
        """the definition of way(j + 1)"""
        k = self.k
        self.segment(j)
        self.known(self.way(j))
        w, kind = self.way(j), self.kind(j)
        up = k.ite(k.And(w != 0, self.top(w) == NAME), self.below(w), k.ite(
            self.isabs, w, self.push(w, PAR, 0)))
        k.assume(self.way(j + 1) == k.ite(kind == NAME, self.push(
            w, NAME, self.ident(j)), k.ite(kind == PAR, up, w)))


def k_in(k, x, a, b):
    return k.And(x >= a, x <= b)


class Segment(object):
    """a segment of a known kind"""

    def __init__(self, ways, kind, ident=0):
        self.ways = ways
        self.kind = kind
        self.ident = ways.k.ite(kind == NAME, ident, 0)

    def __bool__(self):
        return self.kind != EMPTY

    def __eq__(self, other):
        return self.kind == {'': EMPTY, '.': CUR, '..': PAR}[other]

    def __ne__(self, other):
        return self.ways.k.Not(self == other)


class Segments(object):
    """A list: some segments that are dealt with (perhaps a first one that is
    empty or '.', then a way), perhaps a '.', the path from segment pos on"""

    def __init__(self, ways, first, way, dot, pos):
        self.ways = ways
        self.state = (first, way, dot, pos)     # first: -1, EMPTY or CUR
        self.more = 0       # empty segments appended at the end
        self.finished = False

    def done(self):
        """how many are dealt with"""
        first, way, dot, pos = self.state
        return self.ways.k.ite(first >= 0, 1, 0) + self.ways.depth(way)

    def __len__(self):
        k = self.ways.k
        first, way, dot, pos = self.state
        return self.done() + k.ite(dot, 1, 0) + (
            self.ways.total - pos) + self.more

    def __getitem__(self, i):
        w = self.ways
        k = w.k
        first, way, dot, pos = self.state
        n = self.done()
        if k.split(i == n):
            k.lemma("a segment", k.Or(dot, pos < w.total))
            return Segment(w, k.ite(dot, CUR, w.kind(pos)), k.ite(
                dot, 0, w.ident(pos)))
        if k.split(i == n - 1):
            k.lemma("a segment dealt with", i >= 0)
            w.known(way)
            return Segment(w, k.ite(way != 0, w.top(way), first), k.ite(
                way != 0, w.topid(way), 0))
        if k.split(k.And(i == 0, first >= 0)):
            return Segment(w, first)
        k.lemma("first of a way", k.And(i == 0, n > 0))
        kind = k.fresh('int', 'kind')
        k.assume(k_in(k, kind, PAR, NAME))
        return Segment(w, kind)

    def __delitem__(self, i):
        w = self.ways
        k = w.k
        first, way, dot, pos = self.state
        n = self.done()
        if k.split(i == n):
            k.lemma("a segment to delete", k.Or(dot, pos < w.total))
            if k.split(dot):
                self.state = (first, way, False, pos)
            else:
                self.state = (first, way, False, pos + 1)
        else:
            k.lemma("the first segment", k.And(i == 0, first >= 0))
            self.state = (-1, way, dot, pos)

    def __setitem__(self, i, items):
        w = self.ways
        k = w.k
        first, way, dot, pos = self.state
        n = self.done()
        w.known(way)
        k.lemma("the last segment dealt with and the next one", k.And(
            i.start == n - 1, i.stop == n + 1, i.start >= 0, way != 0,
            k.Not(dot), pos < w.total, len(items) == 1))
        k.lemma("become a dot", items[0] == '.')
        w.known(w.below(way))
        self.state = (first, w.below(way), True, pos + 1)

    def append(self, item):
        self.ways.k.lemma("an empty segment", item.kind == EMPTY)
        self.more = self.more + 1


class PathText(object):
    def __init__(self, segments):
        self.segments = segments

    def split(self, sep):
        return self.segments

    def __bool__(self):
        return True


class NoText(object):
    def __add__(self, other):
        return other


class Separator(object):
    def join(self, segments):
        return PathText(segments)


class AnyPath(MemFilePath):
    sep = Separator()
    curdir = '.'
    pardir = '..'

    def __init__(self, path):
        self.path = path

    def splitdrive(self):
        return AnyPath(NoText()), self


def accepted(k, c, i):
    """the list at the head of the loop, where i segments are dealt with"""
    w = c.ways
    first, way, dot, pos = c.state
    if not k.split(i == c.done() + 1):
        return first, way, dot, pos
    # the next one was left as it is
    item = c[c.done()]
    if k.split(k.And(c.done() == 0, item.kind <= CUR)):
        return item.kind, way, False, k.ite(dot, pos, pos + 1)
    k.lemma("only names and .. are left", item.kind >= PAR)
    return first, w.push(way, item.kind, item.ident), False, k.ite(
        dot, pos, pos + 1)


def norm_inv(k, L):
    c = L.components
    w = c.ways
    first, way, dot, pos = accepted(k, c, L.i)
    w.known(way)
    n = k.ite(first >= 0, 1, 0) + w.depth(way)
    return [
        ("i segments are dealt with", L.i == n),
        ("they lead where those of the path lead", way == w.way(pos)),
        ("normal", w.normal(way)),
        ("position", k_in(k, pos, 0, w.total)),
        ("absolute", k.Iff(first == EMPTY, k.And(w.isabs, pos > 0))),
        ("first", k_in(k, first, -1, CUR)),
        ("something is dealt with", k.Or(n > 0, dot, pos == 0)),
        ("start", k.Implies(pos == 0, k.And(first == -1, way == 0,
                                            k.Not(dot)))),
        ("all lead somewhere", c.more == 0)]


def any_state(k):
    first, way = k.fresh('int', 'first'), k.fresh('int', 'way')
    k.put('i', k.ite(first >= 0, 1, 0) + k.get('ways').depth(way))
    return first, way, k.fresh('bool', 'dot'), k.fresh('int', 'pos')


def norm_step(k, L):
    first, way, dot, pos = L.components.state
    w = L.components.ways
    w.known(way)
    w.step(pos)


@proof('any path is normalised', _loops=[LoopSpec(
    'VirtualFilePath.normpath', inv=norm_inv, havoc={
        'components.state': any_state, 'i': lambda k: k.get('i')}, step=norm_step)],
    seed=Int(0, 10 ** 9))
def normalised(k, seed):
    if k.native or k.concrete:
        path = gen_path(random.Random(seed))
        isabs, way = walk(path)
        want = '/'.join(way)
        k.ensures("normal form", MemFilePath(path).normpath().path == (
            '/' + want if isabs else want or '.'))
        return
    total = k.fresh('int', 'total')
    w = k.put('ways', Ways(k, total))
    r = AnyPath(PathText(Segments(w, -1, 0, False, 0))).normpath()
    c = r.path.segments
    first, way, dot, pos = c.state
    w.known(way)
    k.ensures("all segments", k.And(k.Not(dot), pos == total))
    k.ensures("leads where the path leads", way == w.way(total))
    k.ensures("a normal way", w.normal(way))
    k.ensures("absolute or not", k.Iff(first == EMPTY, w.isabs))
    k.ensures("a dot only when there is nothing else", k.Iff(
        first == CUR, k.And(k.Not(w.isabs), way == 0)))
    k.ensures("a separator after the root", c.more == k.ite(
        k.And(w.isabs, way == 0), 1, 0))


@proof('a normal form is its own normal form', seed=Int(0, 10 ** 9))
def own_normal_form(k, seed):
    """One more segment of a normal way leads to that way: by induction the
    segments of a normal way, all PAR or NAME, lead to it"""
    if k.native or k.concrete:
        isabs, way = walk(gen_path(random.Random(seed)))
        path = ('/' if isabs else '') + '/'.join(way)
        k.ensures("same", walk(path) == (isabs, way))
        return
    w = Ways(k, k.fresh('int', 'total'))
    n, j = k.fresh('int', 'n'), k.fresh('int', 'j')
    k.assume(k.And(n != 0, w.normal(n), j >= 0))
    w.known(n)
    # segments up to j lead to all of it but the last
    k.assume(w.way(j) == w.below(n))
    k.assume(k.And(w.kind(j) == w.top(n), w.ident(j) == w.topid(n)))
    w.known(w.below(n))
    w.step(j)
    # ways are told apart by their parts
    r = w.way(j + 1)
    k.ensures("the way below", w.below(r) == w.below(n))
    k.ensures("the last segment", k.And(w.top(r) == w.top(n), k.Or(
        w.top(r) == PAR, w.topid(r) == w.topid(n))))
