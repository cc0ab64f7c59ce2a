"""O05: what the collections of an in-memory container present."""
import os
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Bool, Choice, Contract, Gen, Int
from pyslet.odata2 import core as odata
from pyslet.odata2 import csdl, memds
from pyslet.odata2 import metadata as edmx

META = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'coll.xml')


def container():
    doc = edmx.Document()
    with open(META, 'rb') as f:
        doc.read(f)
    cdef = doc.root.DataServices['C.C']
    memds.InMemoryEntityContainer(cdef)
    return cdef


# an entity is a dictionary of its values: ID, N, S, B, D, City, Zip

def gt(v, n):
    return v is not None and v > n


def lt(v, n):
    return v is not None and v < n


#: the filters, and what they let through
FILTERS = [
    (None, lambda e: True),
    ('N gt 2', lambda e: gt(e['N'], 2)),
    ('N eq null', lambda e: e['N'] is None),
    ('N ne null', lambda e: e['N'] is not None),
    ("S eq 'b'", lambda e: e['S'] == 'b'),
    ('B', lambda e: e['B'] is True),
    ('not B', lambda e: e['B'] is False),
    ("N add 1 lt 4 or S eq 'b'", lambda e: lt(e['N'], 3) or e['S'] == 'b'),
    ("N gt 1 and N lt 4", lambda e: gt(e['N'], 1) and lt(e['N'], 4)),
    ("A/City eq 'x'", lambda e: e['City'] == 'x'),
    ('ID ge 3', lambda e: e['ID'] >= 3),
    ('ID lt 0', lambda e: False),
    ('true', lambda e: True),
]

#: what to order by
ORDERS = [
    ('N', lambda e: e['N']), ('S', lambda e: e['S']),
    ('B', lambda e: e['B']), ('A/City', lambda e: e['City']),
    ('ID', lambda e: e['ID']),
    ('N mod 2', lambda e: None if e['N'] is None else e['N'] % 2),
    ('ID div 3', lambda e: e['ID'] // 3),
]

SELECTS = [None, None, None, {'*': None}, {'S': None}, {'N': None, 'A': None},
           {'ID': None}, {'B': None, 'D': None}]


def gen_entity(rnd, key):
    return dict(ID=key, N=rnd.choice([None, 0, 1, 2, 3, 3, 4, 5]),
                S=rnd.choice([None, '', 'a', 'b', 'c']),
                B=rnd.choice([None, True, False]), D=rnd.randrange(9),
                City=rnd.choice([None, 'x', 'y']),
                Zip=rnd.choice([None, 0, 9]))


def gen_view(rnd):
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 9])
    keys = rnd.sample(range(12), n)
    return dict(
        entities=[gen_entity(rnd, key) for key in keys],
        kind=rnd.choice(['set', 'set', 'links', 'links', 'expanded']),
        linked=[key for key in keys if rnd.random() < 0.7],
        filter=rnd.randrange(len(FILTERS)) if rnd.random() < 0.8 else 0,
        orderby=[(i, rnd.choice([1, -1])) for i in rnd.sample(
            range(len(ORDERS)), rnd.choice([0, 1, 1, 2, 2, 3]))],
        select=rnd.choice(SELECTS), inline=rnd.random() < 0.2,
        top=rnd.choice([None, None, 0, 1, 2, 3, 5, 20]),
        topmax=rnd.choice([None, None, 1, 2, 3, 4, 20]),
        skip=rnd.choice([None, 0, 0, 1, 2, 5, 20]))


def set_values(e, values):
    for name in ('N', 'S', 'B', 'D'):
        e[name].set_from_value(values[name])
    e['A']['City'].set_from_value(values['City'])
    e['A']['Zip'].set_from_value(values['Zip'])


def get_values(e):
    return dict(ID=e['ID'].value, N=e['N'].value, S=e['S'].value,
                B=e['B'].value, D=e['D'].value, City=e['A']['City'].value,
                Zip=e['A']['Zip'].value)


def insert(coll, values):
    e = coll.new_entity()
    e.set_key(values['ID'])
    set_values(e, values)
    coll.insert_entity(e)
    return e


def selected(select, name):
    return select is None or '*' in select or name in select


def entity_ok(k, e, values, select):
    """the entity read has the values selected, and no others"""
    got = get_values(e)
    for name in values:
        prop = {'City': 'A', 'Zip': 'A'}.get(name, name)
        if name == 'ID' or selected(select, prop):
            k.ensures("the values stored", got[name] == values[name],
                      (name, got, values))
        else:
            k.ensures("no value is read that is not selected",
                      got[name] is None, (name, got))
        if name != 'ID':
            k.ensures("what is selected", e.is_selected(prop) == selected(
                select, prop), (name, select))
    k.ensures("it exists", e.exists)


def before(u, v):
    """may the value u come before v, in ascending order?"""
    return u is None or v is not None and u <= v


def in_order(es, orderby):
    for a, b in zip(es, es[1:]):
        for i, direction in orderby:
            u, v = ORDERS[i][1](a), ORDERS[i][1](b)
            if u == v:
                continue
            if not (before(u, v) if direction > 0 else before(v, u)):
                return False
            break
    return True


def pages(k, c, v, wanted):
    """reads it page by page"""
    byid = {e['ID']: e for e in wanted}
    c.set_topmax(None)
    c.set_page(None)
    whole = [e.key() for e in c.iterpage()]
    k.ensures("one page of everything", sorted(whole) == sorted(byid) and
              in_order([byid[i] for i in whole], v['orderby']), whole)
    k.ensures("no token without a page size", c.next_skiptoken() is None)
    k.ensures("no more, no less, again", [
        e.key() for e in c.iterpage()] == whole)
    c.set_topmax(v['topmax'])
    top, skip, topmax = v['top'], v['skip'], v['topmax']
    # one page
    rest = whole[skip or 0:]
    size = len(rest) if top is None else top
    if topmax and size > topmax:
        size = topmax
    c.set_page(top, skip)
    got = [e.key() for e in c.iterpage()]
    k.ensures("the page", got == rest[:size], (got, whole))
    token = c.next_skiptoken()
    forced = bool(topmax) and (top is None or top > topmax)
    if top != 0:
        k.ensures("a token if there is more", (token is not None) == (
            forced and len(rest) > size), (token, got, whole))
        # the same page again
        got = [e.key() for e in c.iterpage()]
        k.ensures("the same page", got == rest[:size], (got, whole))
    # following the tokens
    seen = list(got)
    while token is not None:
        c.set_page(top, None, token)
        page = [e.key() for e in c.iterpage()]
        k.ensures("a page of the size set", 0 < len(page) <= topmax)
        seen.extend(page)
        k.ensures("each entity in one page, in order",
                  seen == rest[:len(seen)], (seen, whole))
        token = c.next_skiptoken()
    if forced:
        k.ensures("the tokens lead to everything", seen == rest)
    # a token and a skip
    c.set_page(top, skip)
    if forced and len(rest) > topmax:
        list(c.iterpage())
        c.set_page(None, 1, c.next_skiptoken())
        page = [e.key() for e in c.iterpage()]
        k.ensures("skipping after a token",
                  page == rest[topmax + 1:][:topmax], (page, whole))
        # on from a token, by pages of one
        c.set_page(top, skip)
        list(c.iterpage())
        c.set_page(1, None, c.next_skiptoken())
        for i in range(3):
            page = [e.key() for e in c.iterpage(set_next=True)]
            k.ensures("the next after a token",
                      page == rest[topmax + i:][:1], (page, whole))
    # automatically
    c.set_page(top, skip)
    seen = []
    for i in range(len(whole) + 2):
        page = [e.key() for e in c.iterpage(set_next=True)]
        k.ensures("the next page", page == rest[len(seen):][:size],
                  (page, seen, whole))
        seen.extend(page)
        if not page:
            break
    else:
        k.ensures("paging ends", top is None and not topmax or size == 0)
    k.ensures("paged through everything", seen == rest or top == 0)
    c.set_topmax(None)
    c.set_page(None)


def view(k, c, v, inside, missing, select):
    """checks a collection of the entities `inside`"""
    text, through = FILTERS[v['filter']]
    wanted = [e for e in inside if through(e)]
    byid = {e['ID']: e for e in wanted}
    order = ','.join(ORDERS[i][0] + (' desc' if d < 0 else '')
                     for i, d in v['orderby'])
    if text is not None:
        c.set_filter(odata.CommonExpression.from_str(text))
    if order:
        c.set_orderby(odata.CommonExpression.orderby_from_str(order))
    if select is not None:
        c.set_expand(None, select)
    es = list(c.itervalues())
    keys = [e.key() for e in es]
    k.ensures("exactly the entities that match",
              sorted(keys) == sorted(byid), (text, keys))
    k.ensures("in the order asked for", in_order(
        [byid[i] for i in keys], v['orderby']), (order, keys))
    for e in es:
        entity_ok(k, e, byid[e.key()], select)
    k.ensures("how many", len(c) == len(wanted), (text, len(c)))
    k.ensures("their keys", list(c) == keys and list(c.keys()) == keys)
    k.ensures("their items", [(i, e.key()) for i, e in c.iteritems()] == [
        (i, i) for i in keys])
    for e in inside + missing:
        i = e['ID']
        k.ensures("only what matches is in it", (i in c) == (i in byid),
                  (text, i))
        try:
            found = c[i]
            k.ensures("only what matches is found", i in byid, (text, i))
            k.ensures("the one asked for", found.key() == i)
            if v['kind'] == 'set':
                entity_ok(k, found, byid[i], select)
            else:
                k.ensures("the values stored",
                          select is not None or get_values(found) == byid[i])
        except KeyError:
            k.ensures("what matches is found", i not in byid, (text, i))
    pages(k, c, v, wanted)


@bounded('views of a collection', 'up to nine entities, of 12 keys',
         _samples=1500, v=Gen(gen_view))
def views(k, v):
    cdef = container()
    entities = v['entities']
    missing = [dict(ID=i) for i in (0, 5, 11, 12)
               if i not in [e['ID'] for e in entities]]
    linked = [e for e in entities if e['ID'] in v['linked']]
    other = [e for e in entities if e['ID'] not in v['linked']]
    with cdef['Es'].open() as c:
        for e in entities:
            insert(c, e)
        if v['kind'] == 'set':
            view(k, c, v, entities, missing, v['select'])
    if v['kind'] == 'set':
        return
    with cdef['Ps'].open() as pc, cdef['Es'].open() as c:
        for i in (1, 2):
            p = pc.new_entity()
            p.set_key(i)
            pc.insert_entity(p)
            with p['Es'].open() as nav:
                for e in linked if i == 1 else other:
                    nav[e['ID']] = c[e['ID']]
        with pc[1]['Es'].open() as nav:
            if v['kind'] == 'links':
                view(k, nav, v, linked, missing + other, v['select'])
            else:
                view(k, nav.expand_collection(), v, linked, missing + other,
                     None)


# -- what is stored -----------------------------------------------------------

def gen_changes(rnd):
    ops = []
    for i in range(rnd.randint(1, 12)):
        ops.append((rnd.choice(['insert', 'insert', 'merge', 'merge',
                                'replace', 'delete', 'clear', 'mine']),
                    gen_entity(rnd, rnd.randrange(5)), rnd.choice(SELECTS),
                    rnd.choice(SELECTS)))
    return ops


DEFAULT = dict(N=None, S=None, B=None, D=7, City=None, Zip=5)


def stored(values, select, rest):
    """the values selected, the others taken from `rest`"""
    return {n: v if n == 'ID' or selected(
        select, {'City': 'A', 'Zip': 'A'}.get(n, n)) else rest[n]
        for n, v in values.items()}


@bounded('histories of a collection', 'up to 12 changes', _samples=1500,
         ops=Gen(gen_changes))
def history(k, ops):
    cdef = container()
    model = {}
    for op, values, select, reading in ops:
        key = values['ID']
        with cdef['Es'].open() as c:
            e = c.new_entity()
            if select is not None:
                e.expand(None, select)
            if op == 'insert':
                e.set_key(key)
                for n in values:
                    if n != 'ID' and selected(select, {
                            'City': 'A', 'Zip': 'A'}.get(n, n)):
                        (e['A'][n] if n in ('City', 'Zip') else e[n]
                         ).set_from_value(values[n])
                try:
                    c.insert_entity(e)
                    k.ensures("a key is used once", key not in model, key)
                    model[key] = stored(values, select, DEFAULT)
                    k.ensures("it exists", e.exists)
                except csdl.ConstraintError:
                    k.ensures("only a key in use is refused", key in model,
                              key)
            elif op in ('merge', 'replace'):
                if key not in model:
                    continue
                e = c[key]
                if select is not None:
                    e.expand(None, select)
                for n in values:
                    if n != 'ID' and selected(select, {
                            'City': 'A', 'Zip': 'A'}.get(n, n)):
                        (e['A'][n] if n in ('City', 'Zip') else e[n]
                         ).set_from_value(values[n])
                c.update_entity(e, merge=op == 'merge')
                model[key] = stored(
                    values, select, model[key] if op == 'merge' else DEFAULT)
            elif op == 'delete':
                try:
                    del c[key]
                    k.ensures("it was there", key in model, key)
                    del model[key]
                except KeyError:
                    k.ensures("it was not there", key not in model, key)
            elif op == 'clear' and values['N'] == 0:
                c.clear()
                model = {}
            elif op == 'mine' and key in model:
                # changing what was read changes nothing stored
                e = c[key]
                set_values(e, values)
        with cdef['Es'].open() as c:
            k.ensures("the entities", sorted(c) == sorted(model),
                      (op, sorted(c)))
            k.ensures("how many", len(c) == len(model))
            if reading is not None:
                c.set_expand(None, reading)
            for i in range(5):
                k.ensures("what is in it", (i in c) == (i in model))
                e = c.get(i)
                if i in model:
                    entity_ok(k, e, model[i], reading)
                else:
                    k.ensures("nothing", e is None)
            for e in c.itervalues():
                entity_ok(k, e, model[e.key()], reading)


# -- collections of any size --------------------------------------------------
#
# Entity number i is Ent(i); passes(i) tells if it matches the filter.

class Ent(object):
    def __init__(self, i):
        self.i = i

    def key(self):
        return self.i

    def expand(self, expand, select=None):
        self.expanded = (expand, select)


class EntitySet(object):
    name = 'Es'
    keys = ['ID']


def nothing(k):
    return None


class Listing(odata.EntityCollection):
    """A collection of the n entities values()"""

    def __init__(self, k):
        self.k = k
        self.entity_set = EntitySet()
        self.filter = self.orderby = self.expand = self.select = None
        self.paging = False
        self.lastEntity = None

    def __del__(self):
        pass

    def itervalues(self):
        self.k.ensures("pages are taken from a list in a fixed order",
                       self.paging)
        return self.k.many(self.k.get('n'), Ent)


def most(k, a, b):
    return k.ite(a > b, a, b)


def page_yields(k, L, n, e):
    k.ensures("the next entity of the page", e.i == k.get('first') + n)


def page_inv(k, L):
    return [("counted", L.i == L._i),
            ("yielded", L._yields == most(k, 0, L._i - k.get('first'))),
            ("within the page", True if k.get('last') is None else
             L._i <= k.get('last'))]


@proof('a page of any size', _native=False, _loops=[
    LoopSpec('EntityCollection.iterpage', ordinal=n, strict=True,
             inv=page_inv, havoc={'i': 'int', 'self.lastEntity': nothing},
             yields=page_yields) for n in (0, 1)],
    n=Int(), top=Int(), skip=Int(), base=Int(), topmax=Int(),
    have_top=Bool(), have_skip=Bool(), have_token=Bool(), have_topmax=Bool(),
    set_next=Bool())
def any_page(k, n, top, skip, base, topmax, have_top, have_skip, have_token,
             have_topmax, set_next):
    k.assume(k.And(n >= 0, top >= 0, skip >= 0, base >= 0, topmax >= 1))
    k.put('n', n)
    c = Listing(k)
    if not have_top:
        top = None
    if not have_skip:
        skip = None
    if not have_topmax:
        topmax = None
    token = "%X" % base if have_token else None
    c.set_topmax(topmax)
    c.set_page(top, skip, token)
    first = k.put('first', (skip if have_skip else 0) + (
        base if have_token else 0))
    size = top if have_top else None
    forced = have_topmax and (not have_top or top > topmax)
    if forced:
        size = topmax
    last = k.put('last', None if size is None else first + size)
    got = k.yielded(c.iterpage(set_next))
    rest = most(k, 0, n - first)
    k.ensures("no longer paging", not c.paging)
    k.ensures("the page size", c.topmax == topmax)
    if have_top and top == 0:
        k.ensures("an empty page", got == 0)
        k.ensures("still at the end", c.top == 0)
        return
    if last is None:
        more = False
        k.ensures("all the rest", got == rest)
    else:
        more = n > last
        k.ensures("as many as there are, at most a page", got == k.ite(
            rest < size, rest, size))
    after = c.next_skiptoken()
    if more and forced:
        k.ensures("a token for the rest", after is not None)
        k.ensures("leading to the next entity", int(after, 16) == last)
    else:
        k.ensures("no token", after is None)
    if not set_next:
        k.ensures("the page stays", c.top == top and c.skip == skip and
                  c.skiptoken == token)
    elif more:
        k.ensures("the size stays", c.top == top)
        k.ensures("the next page follows", (c.skip or 0) + (
            0 if c.skiptoken is None else int(c.skiptoken, 16)) == last)
    else:
        k.ensures("the end", c.top == 0)


# -- those that match ---------------------------------------------------------

def kept(k):
    """counts the entities that match"""
    passes = k.put('passes', k.fun('passes', 1, 'bool'))
    count, unfold = k.fold('kept', 'int', 0,
                           lambda c, i: k.ite(passes(i), c + 1, c))
    k.put('count', count)
    k.put('unfold', unfold)
    return passes


def match_inv(k, L):
    return [("yielded", L._yields == k.get('count')(L._i))]


def match_step(k, L):
    k.get('unfold')(L._i)


def match_yields(k, L, n, e):
    k.ensures("each entity in its turn", e.i == L._i)
    k.ensures("it matches", k.get('passes')(e.i))


CHECK = Contract(
    'pyslet.odata2.core:EntityCollection.check_filter',
    lambda k, self, entity: k.split(k.get('passes')(entity.i)),
    checked_by='a filter')


@proof('entities filtered', _native=False, _uses=[CHECK], _loops=[LoopSpec(
    'EntityCollection.filter_entities', inv=match_inv, step=match_step,
    yields=match_yields, havoc={})], n=Int())
def filtered(k, n):
    k.assume(n >= 0)
    kept(k)
    got = k.yielded(Listing(k).filter_entities(k.many(n, Ent)))
    k.ensures("all that match", got == k.get('count')(n))


class Filter(object):
    """A filter that gives `value`"""

    def __init__(self, value):
        self.value = value
        self.seen = None

    def evaluate(self, e):
        self.seen = e
        return self.value


def bool_value(v):
    b = csdl.BooleanValue()
    b.value = v
    return b


class Plain(odata.EntityCollection):
    def __init__(self, filter):
        self.filter = filter

    def __del__(self):
        pass


@proof('a filter', kind=Choice(['none', 'null', 'bool', 'other']), v=Bool())
def a_filter(k, kind, v):
    e = Ent(1)
    if kind == 'none':
        k.ensures("no filter, all match", Plain(None).check_filter(e))
        return
    c = Plain(Filter(bool_value(None if kind == 'null' else v)
                     if kind != 'other' else csdl.Int32Value()))
    try:
        r = c.check_filter(e)
        k.ensures("a boolean", kind != 'other')
        k.ensures("null does not match", k.Iff(
            True if r else False, v if kind == 'bool' else False))
        k.ensures("the entity itself is asked", c.filter.seen is e)
    except ValueError:
        k.ensures("not a boolean", kind == 'other')


class Lock(object):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Store(object):
    """The store of a collection, or the collection of linked entities"""

    def __init__(self, k):
        self.k = k

    def generate_entities(self, select=None):
        self.k.ensures("whole entities are filtered", select is None)
        return self.k.many(self.k.get('n'), Ent)

    def count_entities(self):
        return self.k.get('n')

    def read_entity(self, key, select=None):
        self.k.ensures("whole entities are filtered", select is None)
        return Ent(key) if self.k.get('there') else None

    def __getitem__(self, key):
        self.k.ensures("it is there", self.k.get('there'))
        return Ent(key)


class SetColl(memds.EntityCollection):
    def __init__(self, k, select):
        self.entity_store = Store(k)
        self.entity_set = EntitySet()
        self.orderby = self.expand = None
        self.filter = True
        self.select = select
        self.paging = False

    def __del__(self):
        pass


class Links(object):
    def __init__(self, k):
        self.k = k

    def __call__(self, key):
        self.k.ensures("of the entity it starts from", key == 'from')
        return self

    def __contains__(self, key):
        return self.k.split(self.k.get('there'))

    def __len__(self):
        return self.k.get('n')

    def __iter__(self):
        return self.k.many(self.k.get('n'), int)


class NavColl(memds.NavigationCollection):
    def __init__(self, k, select):
        self.lookupMethod = Links(k)
        self.key = 'from'
        self.collection = Store(k)
        self.orderby = self.expand = None
        self.filter = True
        self.select = select
        self.paging = False

    def __del__(self):
        pass

    def close(self):
        pass


FILTER = Contract(
    'pyslet.odata2.csdl:EntityCollection.filter_entities',
    lambda k, self, es: k.many(k.get('count')(k.get('n')), lambda i: es),
    checked_by='entities filtered')


@proof('looking up one entity', _native=False, _uses=[CHECK], key=Int(),
       there=Bool(), nav=Bool(), some=Bool())
def look_up(k, key, there, nav, some):
    passes = kept(k)
    k.put('there', there)
    k.put('n', 0)
    c = NavColl(k, None) if nav else SetColl(k, {'S': None} if some else None)
    try:
        e = c[key]
        k.ensures("it matches", k.And(there, passes(key)))
        k.ensures("the entity with that key", e.i == key)
        if not nav:
            k.ensures("what is selected", e.expanded == (None, c.select))
    except KeyError:
        k.ensures("there is none", k.Not(k.And(there, passes(key))))


def len_inv(k, L):
    return [("counted", L.result == L._i)]


@proof('how many match', _native=False, _uses=[CHECK, FILTER], _loops=[
    LoopSpec('EntityCollection.__len__', inv=len_inv,
             havoc={'result': 'int'}),
    LoopSpec('NavigationCollection.__len__', inv=len_inv,
             havoc={'result': 'int'})],
    n=Int(), nav=Bool(), some=Bool())
def how_many(k, n, nav, some):
    k.assume(n >= 0)
    kept(k)
    k.put('n', n)
    k.put('there', True)
    k.assume(k.And(k.get('count')(n) >= 0, k.get('count')(n) <= n))
    c = (NavColl if nav else SetColl)(k, None)
    if some:
        k.ensures("those that match", len(c) == k.get('count')(n))
    else:
        c.filter = None
        k.ensures("all of them", len(c) == n)


# -- as they are listed -------------------------------------------------------

def expand_yields(k, L, n, e):
    k.ensures("each entity in its turn", e.i == L._i)
    expand, select = k.get('rules')
    if expand or select is not None:
        k.ensures("expanded", e.expanded == (expand, select))


@proof('entities expanded', _native=False, _loops=[LoopSpec(
    'EntityCollection.expand_entities', havoc={}, yields=expand_yields,
    inv=lambda k, L: [("yielded", L._yields == L._i)])],
    n=Int(), expand=Choice([None, {}, {'Ps': None}]),
    select=Choice([None, {}, {'*': None}, {'S': None}]))
def expanded(k, n, expand, select):
    k.assume(n >= 0)
    c = Listing(k)
    k.put('rules', (expand, select))
    c.expand, c.select = expand, select
    k.ensures("all of them", k.yielded(
        c.expand_entities(k.many(n, Ent))) == n)


class Listed(Listing):
    def itervalues(self):
        return self.k.many(self.k.get('n'), Ent)


def keys_yields(k, L, n, v):
    k.ensures("each key in its turn", v == L._i)


def items_yields(k, L, n, v):
    k.ensures("each item in its turn", v[0] == L._i and v[1].i == L._i)


@proof('keys and items', _native=False, _loops=[
    LoopSpec('EntityCollection.__iter__', havoc={'self.lastEntity': nothing},
             inv=lambda k, L: [("yielded", L._yields == L._i)],
             yields=keys_yields),
    LoopSpec('EntityCollection.iteritems', havoc={'self.lastEntity': nothing},
             inv=lambda k, L: [("yielded", L._yields == L._i)],
             yields=items_yields)], n=Int())
def listed(k, n):
    k.assume(n >= 0)
    k.put('n', n)
    k.ensures("all the keys", k.yielded(Listed(k).__iter__()) == n)
    k.ensures("all the items", k.yielded(Listed(k).iteritems()) == n)
