"""W02: dispatching requests to pages."""
import random
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Gen, Int
from pyslet.wsgi import DispatchNode, WSGIApp, PageNotFound


class Context(object):
    def __init__(self, environ, start_response, canonical_root):
        self.environ = environ


class App(WSGIApp):
    ContextClass = Context
    settings = {'WSGIApp': {'canonical_root': None}}

    def __init__(self):
        DispatchNode.__init__(self)

    def error_page(self, context, code=500, msg=None):
        return code

    def internal_error(self, context, err):
        return 'internal error'


# -- sets of patterns -------------------------------------------------------------

def rank(pattern, path):
    """How specific a match is: the kind of match of each segment and of the
    end (0 by name, 1 by a star, 2 by a trailing star); None: no match"""
    best = None
    if len(pattern) == len(path) and all(
            p in ('*', s) for p, s in zip(pattern, path)):
        best = [int(p != s) for p, s in zip(pattern, path)] + [0]
    n = len(pattern) - 1
    if n and pattern[-1] == '*' and len(path) >= n and all(
            p in ('*', s) for p, s in zip(pattern[:-1], path)):
        r = [int(p != s) for p, s in zip(pattern[:-1], path)] + \
            [2] * (len(path) - n + 1)
        if best is None or r < best:
            best = r
    return best


def gen_patterns(rnd):
    names = rnd.choice([['a', 'b'], ['a', 'b', '*'], ['a', '', '*'],
                        ['a', '*', '*']])
    pats = ['/' + '/'.join(rnd.choice(names) for j in range(
        rnd.randint(0, 4))) for i in range(rnd.randint(1, 8))]
    if rnd.random() < 0.1:
        pats[0] = ''
    reqs = ['/' + '/'.join(rnd.choice(names) for j in range(
        rnd.randint(0, 5))) for i in range(6)] + ['', '/', pats[0]]
    return pats, reqs


@bounded('sets of patterns', 'up to 8 patterns of up to 4 segments',
         _samples=5000, case=Gen(gen_patterns))
def patterns(k, case):
    pats, reqs = case
    app = App()
    last = {}
    for n, p in enumerate(pats):
        app.set_method(p, handler(n))
        last[p] = n
    for r in reqs:
        got = app({'PATH_INFO': r}, None)
        path = r.split('/')
        ranked = sorted((m, n) for m, n in (
            (rank(p.split('/'), path), n) for p, n in last.items())
            if m is not None)
        if r in last:
            k.ensures("exactly that path", got == last[r], pats, r, got)
        if ranked:
            k.ensures("the most specific pattern", got == ranked[0][1], pats,
                      r, got, ranked[0][1])
        else:
            k.ensures("not found", got == 404, pats, r, got)


def handler(n):
    return lambda context: n


# -- any tree of patterns, any path -------------------------------------------------
#
# A node is a number; named(n, j) is the child of n named by segment j of the
# path and starred(n) the one named by a star (0: none), page(n) and rest(n)
# are the pages registered for it and for all that follows it (0: none).
# best(n, j) is the page for the path from segment j on at node n.

class World(object):
    def __init__(self, k, length):
        self.k = k
        self.length = length
        self.named = k.fun('named', 2)
        self.starred = k.fun('starred', 1)
        self.page = k.fun('page', 1)
        self.rest = k.fun('rest', 1)
        self.best = k.fun('best', 2)
        self.star = k.fun('star', 1, 'bool')

    def first(self, *values):
        """the first of them that is not 0"""
        r = 0
        for v in reversed(values):
            r = self.k.ite(v != 0, v, r)
        return r

    def child(self, n, j):
        """the child of a node named by a segment"""
        return self.k.ite(self.star(j), self.starred(n), self.named(n, j))

    def define(self, n, j):
        """the definition of best(n, j)"""
        k = self.k
        rest = k.ite(j > 0, self.rest(n), 0)
        deeper = self.first(self.best(self.child(n, j), j + 1),
                            self.best(self.starred(n), j + 1))
        k.assume(k.And(
            self.page(n) >= 0, self.rest(n) >= 0,
            self.child(n, j) >= 0, self.starred(n) >= 0, self.best(n, j) >= 0,
            self.best(0, j) == 0, self.best(0, j + 1) == 0,
            k.Implies(n != 0, self.best(n, j) == self.first(
                k.ite(j == self.length, self.page(n), deeper), rest))))


class Segment(object):
    def __init__(self, w, j):
        self.w = w
        self.j = j

    def __eq__(self, other):
        return self.w.star(self.j)

    def __ne__(self, other):
        return self.w.k.Not(self.w.star(self.j))


class Path(object):
    def __init__(self, w):
        self.w = w

    def split(self, sep):
        return self.w.k.many(self.w.length, lambda j: Segment(self.w, j))


class Page(object):
    def __init__(self, n):
        self.n = n

    def __call__(self, context):
        return self.n


class Node(object):
    def __init__(self, w, n):
        self.w = w
        self.n = n

    @property
    def _handler(self):
        n = self.w.page(self.n)
        return Page(n) if self.w.k.split(n != 0) else None

    @property
    def _wildcard(self):
        n = self.w.rest(self.n)
        return Page(n) if self.w.k.split(n != 0) else None

    @property
    def _nodes(self):
        return self

    def get(self, key, default=None):
        w = self.w
        if isinstance(key, Segment):
            n = w.child(self.n, key.j)
        else:
            n = w.starred(self.n)
        return Node(w, n) if w.k.split(n != 0) else default


class Stack(object):
    """some nodes of which the best page is known, and some above them"""

    def __init__(self, w):
        self.w = w
        self.below = w.k.fresh('int', 'below')
        self.some = w.k.fresh('bool', 'some')
        self.top = []
        w.k.assume(w.k.And(self.below >= 0, w.k.Or(
            self.some, self.below == 0)))

    def __bool__(self):
        return self.w.k.Or(self.some, len(self.top) > 0)

    def append(self, item):
        self.top = self.top + [item]

    def pop(self):
        if self.top:
            item = self.top[-1]
            self.top = self.top[:-1]
            return item
        # any item, and what is left below it
        w = self.w
        k = w.k
        n, j = k.fresh('int', 'n'), k.fresh('int', 'j')
        left, some = k.fresh('int', 'left'), k.fresh('bool', 'more')
        k.assume(k.And(n > 0, j >= 0, j <= w.length, left >= 0,
                       k.Or(some, left == 0), w.best(n, j) >= 0,
                       self.below == w.first(w.best(n, j), left)))
        self.below = left
        self.some = some
        return (j, Node(w, n))


def stack_best(w, stack):
    items, below = (stack.top, stack.below) if isinstance(stack, Stack) else (
        stack, 0)
    for j, node in items:
        below = w.first(w.best(node.n, j), below)
    return below


def dispatch_inv(k, L):
    w = k.get('world')
    items = L.stack.top if isinstance(L.stack, Stack) else L.stack
    return [("nodes of the path", k.And(*[k.And(
                j >= 0, j <= w.length, node.n > 0) for j, node in items])),
            ("nothing better is forgotten", w.best(1, 0) == w.first(
                stack_best(w, L.stack), 0 if L.wildcard is None else
                L.wildcard.n))]


def step(k, L):
    """the node looked at is the last of the stack"""
    w = k.get('world')
    items = L.stack.top if isinstance(L.stack, Stack) else L.stack
    if not items:
        item = L.stack.pop()
        L.stack.append(item)
        items = L.stack.top
    j, node = items[-1]
    w.define(node.n, j)


def some_page(k):
    n = k.fresh('int', 'page')
    k.assume(n >= 0)
    return Page(n) if k.split(n > 0) else None


class Whole(App):
    def __init__(self, w, n):
        self.w = w
        self.n = n
        self._handler = None
        self._wildcard = None
        self._nodes = Node(w, n)


@proof('any tree and path', _loops=[LoopSpec(
    'WSGIApp.__call__', inv=dispatch_inv, havoc={
        'stack': lambda k: Stack(k.get('world')), 'wildcard': some_page},
    step=step)], seed=Int(0, 10 ** 9))
def any_tree(k, seed):
    if k.native or k.concrete:
        rnd = random.Random(seed)
        share = rnd.choice([0.3, 0.5, 0.8])
        t = Tree(lambda: rnd.random() < share)
        path = '/' + '/'.join(rnd.choice(['x', 'y', '*', '']) for j in range(
            rnd.randint(0, 5)))
        got = Any(t)({'PATH_INFO': path}, None)
        want = best(Any(t), path.split('/'), 0)
        k.ensures("the page", got == 404 if want is None else got is want,
                  got)
        return
    n = k.fresh('int', 'length')
    k.assume(n >= 1)
    w = k.put('world', World(k, n))
    # the application itself holds no page
    k.assume(k.And(w.page(1) == 0, w.rest(1) == 0))
    got = Whole(w, 1)({'PATH_INFO': Path(w)}, None)
    want = w.best(1, 0)
    k.ensures("the page", k.Or(k.And(want == 0, got == 404), k.And(
        want != 0, got == want)))
# -- trees made at random ------------------------------------------------------------

class Tree(object):
    """a node of any tree: what it holds is chosen when it is looked at"""

    def __init__(self, chance):
        self.chance = chance
        self.nodes = {}
        self.parts = {}

    def look(self, part):
        if part not in self.parts:
            self.parts[part] = Here() if self.chance() else None
        return self.parts[part]

    @property
    def _handler(self):
        return self.look('handler')

    @property
    def _wildcard(self):
        return self.look('wildcard')

    @property
    def _nodes(self):
        return self

    def get(self, key, default=None):
        if key not in self.nodes:
            self.nodes[key] = Tree(self.chance) if self.chance() else None
        n = self.nodes[key]
        return default if n is None else n


class Here(object):
    def __call__(self, context):
        return self


class Any(App):
    def __init__(self, tree):
        self.tree = tree
        self._handler = None
        self._wildcard = None
        self._nodes = tree


def best(node, path, i):
    """the page for the rest of a path"""
    if i == len(path):
        if node._handler is not None:
            return node._handler
    else:
        for name in ([path[i], '*'] if path[i] != '*' else ['*']):
            n = node._nodes.get(name, None)
            if n is not None:
                r = best(n, path, i + 1)
                if r is not None:
                    return r
    return node._wildcard if i else None
