"""O04: links between the entities of an in-memory container."""
import os
import threading
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Contract, Gen
from pyslet.odata2 import csdl, memds
from pyslet.odata2 import metadata as edmx
from pyslet.odata2.memds import InMemoryAssociationIndex, \
    InMemoryEntityContainer, InMemoryEntityStore


# -- the index on its own -----------------------------------------------------

class Container(object):
    def __init__(self):
        self.lock = threading.RLock()


class Named(object):
    def __init__(self, name):
        self.name = name


def gen_history(rnd):
    same = rnd.random() < 0.4
    ops = []
    keys = rnd.choice([2, 3, 4])
    for i in range(rnd.randint(1, 25)):
        op = rnd.choice(['add', 'add', 'add', 'remove', 'delete from',
                         'delete to'])
        ops.append((op, rnd.randrange(2), rnd.randrange(keys),
                    rnd.randrange(keys)))
    return same, keys, ops


@bounded('histories of an index', 'up to 25 operations on two indexes and '
         'four keys', _samples=6000, h=Gen(gen_history))
def index_history(k, h):
    same, keys, ops = h
    c = Container()
    a = InMemoryEntityStore(c)
    b = a if same else InMemoryEntityStore(c)
    for s in (a, b):
        for i in range(keys):
            s.data[i] = ()
    indexes = [InMemoryAssociationIndex(c, Named(n), a, b)
               for n in ('one', 'two')]
    links = [set(), set()]

    def delete(store, key):
        if key not in store.data:
            return
        store.delete_entity(key)
        k.ensures("the entity is deleted", key not in store.data)
        for ls in links:
            for x, y in list(ls):
                if store is a and x == key or store is b and y == key:
                    ls.discard((x, y))
        # so that it can be linked again
        store.data[key] = ()
    for op, n, x, y in ops:
        if op == 'add':
            indexes[n].add_link(x, y)
            links[n].add((x, y))
        elif op == 'remove':
            indexes[n].remove_link(x, y)
            links[n].discard((x, y))
        elif op == 'delete from':
            delete(a, x)
        else:
            delete(b, y)
        for i, ls in zip(indexes, links):
            for x in range(keys):
                got = i.get_links_from(x)
                k.ensures("links from", sorted(got) == sorted(
                    q for p, q in ls if p == x), (op, x, got))
                got = i.get_links_to(x)
                k.ensures("links to", sorted(got) == sorted(
                    p for p, q in ls if q == x), (op, x, got))


# -- through the collections --------------------------------------------------

META = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'links.xml')


def container():
    doc = edmx.Document()
    with open(META, 'rb') as f:
        doc.read(f)
    cdef = doc.root.DataServices['L.C']
    InMemoryEntityContainer(cdef)
    return cdef


#: each association, its navigation properties both ways
NAVS = {'AB': ('As', 'Bs', 'Bs', 'As'), 'Own': ('As', 'Own', 'Bs', 'Owner'),
        'AD': ('As', 'Ds', 'Ds', 'A')}


def gen_service(rnd):
    ops = []
    for i in range(rnd.randint(1, 14)):
        ops.append((rnd.choice(['link', 'link', 'unlink', 'replace', 'insert',
                                'delete']),
                    rnd.choice(['AB', 'Own', 'AD']), rnd.random() < 0.5,
                    rnd.randrange(3), rnd.randrange(3)))
    return ops


@bounded('histories of a service', 'up to 14 operations on three entity sets '
         'and three associations', _samples=250, ops=Gen(gen_service))
def service_history(k, ops):
    cdef = container()
    links = {n: set() for n in NAVS}
    there = {'As': set(), 'Bs': set(), 'Ds': set()}

    def entity(es, key):
        with cdef[es].open() as c:
            return c[key]

    for i in range(2):
        for es in ('As', 'Bs'):
            with cdef[es].open() as c:
                e = c.new_entity()
                e.set_key(i)
                c.insert_entity(e)
                there[es].add(i)
    for op, name, reverse, x, y in ops:
        aset, aprop, bset, bprop = NAVS[name]
        if reverse:
            fset, prop, tset, back = bset, bprop, aset, aprop
            f, t = y, x
        else:
            fset, prop, tset, back = aset, aprop, bset, bprop
            f, t = x, y
        pair = (x, y)
        if op == 'insert':
            es, key = (aset, x) if reverse else (bset, y)
            if key in there[es]:
                continue
            with cdef[es].open() as c:
                e = c.new_entity()
                e.set_key(key)
                try:
                    if es == 'Ds':
                        e['A'].bind_entity(x)
                        c.insert_entity(e)
                        k.ensures("bound to an existing entity",
                                  x in there['As'])
                        links['AD'].add((x, key))
                    else:
                        c.insert_entity(e)
                    there[es].add(key)
                except (KeyError, csdl.ConstraintError):
                    k.ensures("nothing to bind to", es == 'Ds' and
                              x not in there['As'], es)
                    # the state after a refused insertion is not specified
                    return
        elif op == 'delete':
            es, key = (aset, x) if reverse else (bset, y)
            if key not in there[es]:
                continue
            with cdef[es].open() as c:
                del c[key]
            gone = [(es, key)]
            if es == 'As':
                gone += [('Ds', q) for p, q in links['AD'] if p == key]
            for s, q in gone:
                there[s].discard(q)
                for n in NAVS:
                    links[n] = {(u, v) for u, v in links[n] if not (
                        NAVS[n][0] == s and u == q or
                        NAVS[n][2] == s and v == q)}
        else:
            if f not in there[fset] or t not in there[tset]:
                continue
            e = entity(fset, f)
            target = entity(tset, t)
            try:
                with e[prop].open() as c:
                    if op == 'link':
                        c[t] = target
                        links[name].add(pair)
                    elif op == 'unlink':
                        if pair in links[name]:
                            del c[t]
                            links[name].discard(pair)
                        else:
                            continue
                    else:
                        c.replace(target)
                        links[name] = {(u, v) for u, v in links[name]
                                       if (v if reverse else u) != f}
                        links[name].add(pair)
            except csdl.NavigationConstraintError:
                k.ensures("only a constrained association refuses",
                          name != 'AB')
        for es in there:
            with cdef[es].open() as c:
                k.ensures("the entities", set(c.keys()) == there[es],
                          (op, es))
        for n, (p, pprop, q, qprop) in NAVS.items():
            for es, nav, side in ((p, pprop, 0), (q, qprop, 1)):
                for key in there[es]:
                    with entity(es, key)[nav].open() as c:
                        got = set(c.keys())
                    k.ensures("the links", got == {
                        l[1 - side] for l in links[n] if l[side] == key},
                        (op, es, nav, key, got))


# -- an index of any number of links ------------------------------------------
#
# One pair of keys (x, y), whichever, is followed.  Of each of the two
# dictionaries only the entry of the followed pair is known: `has` (there is
# one) and `m` (the other key is in it).  The sets of other keys are unknown.

class Lock(object):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Dict(object):
    """`index` (side 'f') or `reverseIndex` (side 'r')"""

    def __init__(self, k, side):
        self.k = k
        self.side = side
        self.key = k.get('x' if side == 'f' else 'y')
        self.other = k.get('y' if side == 'f' else 'x')
        self.has = k.fresh('bool', 'has')
        self.m = k.fresh('bool', 'member')
        self.seen = ()      # keys other than the followed one
        k.assume(k.Implies(self.m, self.has))

    def same(self, k):
        """a copy"""
        d = Dict(k, self.side)
        d.has, d.m = self.has, self.m
        return d

    def known(self, key):
        """must there be an entry (and the key deleted be in it)?"""
        k = self.k
        return k.get('walk') == self.side and k.split(key == k.get('element'))

    def __contains__(self, key):
        k = self.k
        if k.split(key == self.key):
            return k.split(self.has)
        for seen in self.seen:
            if k.split(key == seen[0]):
                return seen[1]
        there = self.known(key) or k.split(k.fresh('bool', 'there'))
        self.seen = ((key, there), ) + self.seen
        return there

    def note(self, key, there):
        k = self.k
        self.seen = ((key, there), ) + self.seen

    def same(self, k):
        """a copy"""
        d = Dict(k, self.side)
        d.has, d.m = self.has, self.m
        return d

    def known(self, key):
        """must there be an entry (and the key deleted be in it)?"""
        k = self.k
        return k.get('walk') == self.side and k.split(key == k.get('element'))

    def __contains__(self, key):
        k = self.k
        if k.split(key == self.key):
            return k.split(self.has)
        for seen in self.seen:
            if k.split(key == seen[0]):
                return seen[1]
        there = self.known(key) or k.split(k.fresh('bool', 'there'))
        self.seen = ((key, there), ) + self.seen
        return there

    def note(self, key, there):
        self.seen = ((key, there), ) + self.seen

    def __getitem__(self, key):
        if key in self:
            return Row(self, key)
        raise KeyError(key)

    def get(self, key, default=None):
        return Row(self, key) if key in self else default

    def setdefault(self, key, default=None):
        k = self.k
        k.ensures("a new entry is empty", len(default) == 0)
        if k.split(key == self.key):
            self.has = True
        else:
            self.note(key, True)
        return Row(self, key)

    def __setitem__(self, key, value):
        k = self.k
        if isinstance(value, Row):
            k.ensures("the entry itself", k.And(
                value.d is self, value.key == key))
        else:
            k.ensures("a new entry is empty", len(value) == 0)
            if k.split(key == self.key):
                self.has, self.m = True, False
            else:
                self.note(key, True)

    def pop(self, key, *default):
        if key in self or not default:
            r = Popped(self, key)
            del self[key]
            return r
        return default[0]

    def __delitem__(self, key):
        k = self.k
        if key not in self:
            raise KeyError(key)
        if k.split(key == self.key):
            self.has = self.m = False
        else:
            self.note(key, False)


class Row(object):
    """the keys linked to one key"""

    def __init__(self, d, key):
        self.d = d
        self.k = d.k
        self.key = key

    def mine(self, key):
        """is it the followed pair?"""
        return self.k.split(self.key == self.d.key) and self.k.split(
            key == self.d.other)

    def __contains__(self, key):
        if self.mine(key):
            return self.k.split(self.d.m)
        return self.known(key) or self.k.split(self.k.fresh('bool', 'in'))

    def known(self, key):
        k = self.k
        return self.d.known(self.key) and k.split(key == k.get('deleted'))

    def add(self, key):
        if self.mine(key):
            self.d.m = True

    def discard(self, key):
        if self.mine(key):
            self.d.m = False

    def remove(self, key):
        if key not in self:
            raise KeyError(key)
        self.discard(key)

    def __len__(self):
        k = self.k
        n = k.fresh('int', 'len')
        k.assume(n >= 0)
        if k.split(self.key == self.d.key):
            k.assume(k.Implies(self.d.m, n >= 1))
        return n

    def __iter__(self):
        """all keys of an entry, in an order, each once: the n-th elem(n),
        the other key of the pair is number p of them, if at all"""
        k = self.k
        n, p = k.get('n'), k.get('p')
        if k.split(self.key == self.d.key):
            k.assume(k.Iff(self.linked(), p < n))
        return k.many(n, k.get('elem'))

    def linked(self):
        return self.d.m


class Popped(Row):
    """one taken out of its dictionary"""

    def __init__(self, d, key):
        Row.__init__(self, d, key)
        self.m = d.m

    def linked(self):
        return self.m

    def mine(self, key):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError


class Index(InMemoryAssociationIndex):
    def __init__(self, k):
        self.container = Locked()
        self.index = Dict(k, 'f')
        self.reverseIndex = Dict(k, 'r')


class Locked(object):
    def __init__(self):
        self.lock = Lock()


def any_index(k):
    """an index and two keys, linked both ways or not at all"""
    k.put('x', k.fresh('int', 'x'))
    k.put('y', k.fresh('int', 'y'))
    k.put('walk', None)
    ix = Index(k)
    k.assume(k.Iff(ix.index.m, ix.reverseIndex.m))
    return ix, ix.index.m


def both(k, ix, want):
    k.ensures("linked from", k.Iff(ix.index.m, want))
    k.ensures("linked to", k.Iff(ix.reverseIndex.m, want))
    k.ensures("linked keys have an entry", k.And(
        k.Implies(ix.index.m, ix.index.has),
        k.Implies(ix.reverseIndex.m, ix.reverseIndex.has)))


def linked(k, a, b):
    return k.And(a == k.get('x'), b == k.get('y'))


@proof('adding a link to any index', _native=False)
def adding(k):
    ix, before = any_index(k)
    a, b = k.fresh('int', 'a'), k.fresh('int', 'b')
    ix.add_link(a, b)
    both(k, ix, k.Or(before, linked(k, a, b)))


@proof('removing a link from any index', _native=False)
def removing(k):
    ix, before = any_index(k)
    a, b = k.fresh('int', 'a'), k.fresh('int', 'b')
    ix.remove_link(a, b)
    both(k, ix, k.And(before, k.Not(linked(k, a, b))))


def walk(side):
    """deleting a key of `side`: the entries of the other"""
    attr, other = [('index', 'reverseIndex'), ('reverseIndex', 'index')][
        side == 'r']

    def inv(k, L):
        d = getattr(L.self, other)
        old = k.get('old')
        here = k.get('deleted') == k.get('x' if side == 'f' else 'y')
        return [("the pair is unlinked in its turn", k.Iff(d.m, k.And(
                    old.m, k.Not(k.And(here, k.get('p') < L._i))))),
                ("its entry stays until then", k.And(
                    k.Implies(d.m, d.has), k.Implies(
                        L._i <= k.get('p'), k.Iff(d.has, old.has))))]

    def step(k, L):
        e = k.get('elem')(L._i)
        d = getattr(L.self, other)
        k.put('element', e)
        # each key once
        k.assume(k.Iff(e == d.key, L._i == k.get('p')))
        # links are symmetric: the entry of e had the key deleted in it
        k.assume(k.Implies(L._i == k.get('p'), k.get('old').has))
    return LoopSpec('InMemoryAssociationIndex.%sdelete_hook' % (
        'r' if side == 'r' else ''), strict=True, inv=inv, step=step, havoc={
            'self.' + other: lambda k: Dict(k, 'r' if side == 'f' else 'f')})


def deleting(k, side):
    ix, before = any_index(k)
    a = k.put('deleted', k.fresh('int', 'a'))
    k.put('elem', k.fun('elem', 1))
    n, p = k.put('n', k.fresh('int', 'n')), k.put('p', k.fresh('int', 'p'))
    k.assume(k.And(n >= 0, p >= 0))
    k.put('walk', 'r' if side == 'f' else 'f')
    k.put('element', k.get('elem')(-1))
    k.put('old', (ix.reverseIndex if side == 'f' else ix.index).same(k))
    if side == 'f':
        ix.delete_hook(a)
    else:
        ix.rdelete_hook(a)
    both(k, ix, k.And(before, a != k.get('x' if side == 'f' else 'y')))


@proof('deleting an entity linked from', _native=False, _loops=[walk('f')])
def deleting_from(k):
    deleting(k, 'f')


@proof('deleting an entity linked to', _native=False, _loops=[walk('r')])
def deleting_to(k):
    deleting(k, 'r')


# -- deleting from a store with any number of associations ----------------------

class Hooks(object):
    """the associations from a store, or those to it, one followed"""

    def __init__(self, k, store, side):
        self.k = k
        self.store = store
        self.side = side

    def values(self):
        k = self.k
        n, p = k.get('n' + self.side), k.get('p' + self.side)
        return k.many(n, lambda i: Hook(
            self.k, self.store, self.side if k.split(i == p) else None))


class Hook(object):
    def __init__(self, k, store, side):
        self.k = k
        self.store = store
        self.side = side

    def delete_hook(self, key):
        if self.side == 'f':
            self.k.ensures("the key deleted", key == self.k.get('key'))
            self.store.from_done = True

    def rdelete_hook(self, key):
        if self.side == 'r':
            self.k.ensures("the key deleted", key == self.k.get('key'))
            self.store.to_done = True


class AnyStore(InMemoryEntityStore):
    def __init__(self, k):
        self.container = Locked()
        self.associations = Hooks(k, self, 'f')
        self.reverseAssociations = Hooks(k, self, 'r')
        self.data = {1: ()}
        self.streams = {}
        self.from_done = self.to_done = False


@proof('deleting from any store', _native=False, _loops=[
    LoopSpec('InMemoryEntityStore.delete_entity', ordinal=0, strict=True,
             havoc={'self.from_done': 'bool'}, inv=lambda k, L: [
                 ("the links from it", k.Implies(k.get('pf') < L._i,
                                                 L.self.from_done))]),
    LoopSpec('InMemoryEntityStore.delete_entity', ordinal=1, strict=True,
             havoc={'self.to_done': 'bool'}, inv=lambda k, L: [
                 ("the links to it", k.Implies(k.get('pr') < L._i,
                                               L.self.to_done))])])
def any_store(k):
    """each of its associations loses the links, whichever is followed"""
    k.put('key', 1)
    for side in 'fr':
        n, p = k.fresh('int', 'n'), k.fresh('int', 'p')
        k.assume(k.And(0 <= p, p < n))
        k.put('n' + side, n)
        k.put('p' + side, p)
    s = AnyStore(k)
    s.delete_entity(1)
    k.ensures("the links from it", s.from_done)
    k.ensures("the links to it", s.to_done)
    k.ensures("the entity", s.data == {})
