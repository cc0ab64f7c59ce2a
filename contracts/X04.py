"""X04: trees of elements written as XML and read back."""
import io
import re
import xml.etree.ElementTree as ET
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Gen, Int
from pyslet.xml import namespace as xn
from pyslet.xml import structures as xs

LEVEL = 'exploration'

URIS = ['http://a/', 'http://b/', 'urn:c"<&']
DATA = [' ', '  ', 'a', 'b', '<', '&', '>', ']]>', '"', "'", '\r', '\n', '\t',
        '\r\n', '\xe9', '\u20ac', '\U0001f600', '&amp;', '<!--', '\x85',
        '\u2028', '\xa0']
#: white space in attributes is read as spaces
VALUE = [c for c in DATA if not set(c) & set('\t\n')]


def gen_node(rng, depth, ns):
    attrs = {}
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        name = rng.choice(['x', 'y', 'z-1'])
        if ns:
            name = (rng.choice([xn.NO_NAMESPACE] + URIS), name)
        attrs[name] = ''.join(rng.choice(VALUE) for j in range(
            rng.randint(0, 4)))
    prefixes = {}
    if ns and rng.random() < .3:
        for p in rng.sample(['', 'p', 'q', 'ns1'], rng.randint(1, 2)):
            u = rng.choice(URIS)
            if u not in prefixes.values():
                prefixes[p] = u
    children = []
    for i in range(rng.randint(0, 3) if depth else 0):
        if rng.random() < .4:
            children.append(''.join(rng.choice(DATA) for j in range(
                rng.randint(1, 4))))
        else:
            children.append(gen_node(rng, depth - 1, ns))
    return (rng.choice([None] + URIS) if ns else None,
            rng.choice(['a', 'b', 'c.d', '_e']), attrs, prefixes, children)


def gen_tree(rng):
    ns = rng.random() < .7
    return (ns, gen_node(rng, 3, ns), rng.random() < .6,
            rng.choice(['bytes', 'file', 'flat']))


def build(e, node, ns):
    """gives the element its content, and what should be read"""
    uri, name, attrs, prefixes, children = node
    e.set_xmlname((uri, name) if ns else name)
    for p, u in sorted(prefixes.items()):
        e.make_prefix(u, p)
    for a, v in sorted(attrs.items()):
        e.set_attribute(a, v)
    out = []
    for child in children:
        if isinstance(child, str):
            e.add_data(child)
            if out and isinstance(out[-1], str):
                out[-1] += child
            else:
                out.append(child)
        else:
            out.append(build(e.add_child(xn.NSElement if ns else xs.Element),
                             child, ns))
    return uri, name, dict(attrs), out


def tree(e):
    return (getattr(e, 'ns', None) or None, e.xmlname, dict(e._attrs),
            [c if isinstance(c, str) else tree(c) for c in e.get_children()])


def other(e):
    """the same of another parser's tree"""
    def name(n, attr):
        if n.startswith('{'):
            u, n = n[1:].split('}')
            return u, n
        return xn.NO_NAMESPACE if attr else None, n
    out = [e.text] if e.text else []
    for c in e:
        out.append(other(c))
        if c.tail:
            out.append(c.tail)
    uri, n = name(e.tag, False)
    return (uri, n, dict((name(a, True), v) for a, v in e.attrib.items()),
            out)


SPACES = re.compile('[ \t\r\n]+')


def collapsed(t):
    """with single spaces, and none first and last"""
    uri, name, attrs, children = t
    out = []
    for i, c in enumerate(children):
        if isinstance(c, str):
            c = SPACES.sub(' ', c)
            if not i:
                c = c.lstrip(' ')
            if i == len(children) - 1:
                c = c.rstrip(' ')
            if c:
                out.append(c)
        else:
            out.append(collapsed(c))
    return uri, name, attrs, out


def expand(t, ns):
    """attributes as pairs"""
    uri, name, attrs, children = t
    return (uri, name, dict(
        (a if ns else (xn.XML_NAMESPACE, a[4:]) if a.startswith('xml:') else
         (xn.NO_NAMESPACE, a), v) for a, v in attrs.items()),
        [c if isinstance(c, str) else expand(c, ns) for c in children])


@bounded('trees written and read', 'three levels, up to three children each',
         _samples=4000, case=Gen(gen_tree))
def trees(k, case):
    ns, node, preserve, how = case
    doc = xn.NSDocument() if ns else xs.Document()
    root = doc.add_child(xn.NSElement if ns else xs.Element)
    want = build(root, node, ns)
    if preserve:
        a = (xn.XML_NAMESPACE, 'space') if ns else 'xml:space'
        root.set_attribute(a, 'preserve')
        want[2][a] = 'preserve'
    if how == 'bytes':
        data = bytes(doc)
    else:
        f = io.BytesIO()
        doc.write_xml(f, tab='\t' if how == 'file' else '')
        data = f.getvalue()
    k.ensures("writing changes nothing", tree(root) == want, data)
    again = xn.NSDocument() if ns else xs.Document()
    again.read(io.BytesIO(data))
    got = tree(again.root)
    if not preserve:
        want, got = collapsed(want), collapsed(got)
    k.ensures("read as it was", got == want, (data, got))
    text = other(ET.fromstring(data))
    if not preserve:
        text = collapsed(text)
    k.ensures("so read by another parser", text == expand(want, ns),
              (data, text))
    # what was read is written and read the same
    data = bytes(again)
    last = xn.NSDocument() if ns else xs.Document()
    last.read(io.BytesIO(data))
    got = tree(last.root)
    k.ensures("written and read again", (
        got if preserve else collapsed(got)) == want, (data, got))
    # each element alone
    for e in elements(again.root) if how == 'flat' else ():
        data = bytes(e)
        last = xn.NSDocument() if ns else xs.Document()
        last.read(io.BytesIO(data))
        k.ensures("an element alone", collapsed(tree(last.root)) == collapsed(
            tree(e)), (bytes(again), data))
    last = xn.NSDocument() if ns else xs.Document()
    last.read(io.BytesIO(bytes(again)))
    for e, f in ((root, again.root), (again.root, last.root)):
        if preserve:
            k.ensures("the same text", list(texts(e)) == list(texts(f)))


def elements(e):
    yield e
    for c in e.get_children():
        if not isinstance(c, str):
            for d in elements(c):
                yield d


def texts(e):
    for c in e.get_children():
        if isinstance(c, str):
            yield c
        else:
            for t in texts(c):
                yield t


def gen_scope(rng):
    """declarations on a chain of elements"""
    out = []
    for i in range(rng.randint(1, 4)):
        d = {}
        for p in rng.sample(['', 'p', 'q', 'ns1'], rng.randint(0, 3)):
            u = rng.choice(URIS)
            if u not in d.values():
                d[p] = u
        out.append(d)
    return out


@bounded('prefixes in scope', 'chains of up to four elements',
         _samples=4000, chain=Gen(gen_scope))
def scope(k, chain):
    doc = xn.NSDocument()
    e, inner = doc, {}
    for d in chain:
        e = e.add_child(xn.NSElement)
        for p, u in sorted(d.items()):
            e.make_prefix(u, p)
        inner.update(d)
    k.ensures("the declarations in force", e.get_prefix_map() == inner)
    for p in ['', 'p', 'q', 'ns1', 'r']:
        k.ensures("the namespace of a prefix",
                  e.get_ns(p) == inner.get(p), (chain, p))
    for u in URIS:
        got = e.get_prefix(u)
        if got is None:
            k.ensures("none only when there is none",
                      u not in inner.values(), (chain, u))
        else:
            k.ensures("a prefix of the namespace", inner.get(got) == u,
                      (chain, u, got))
    p = e.new_prefix()
    k.ensures("a new one", p and p not in inner)
    k.ensures("always declared", e.get_prefix(xn.XML_NAMESPACE) == 'xml' and
              e.get_ns('xml') == xn.XML_NAMESPACE)



# -- the declaration in force --------------------------------------------------

class Scopes(object):
    """a chain of n elements, the innermost first: what each declares a
    prefix to be, 0 for nothing, 1 for no namespace"""

    def __init__(self, k, n):
        self.k = k
        self.n = n
        self.declared = k.fun('declared', 2)
        #: the prefix each has for the namespace looked for, 0 for none
        self.prefix = k.fun('prefix', 1)


class Uri(object):
    def __init__(self, u):
        self.u = u


class Prefix(object):
    def __init__(self, p, i):
        self.p = p
        self.i = i


class Declared(object):
    def __init__(self, node):
        self.node = node

    def get(self, prefix, default=None):
        w = self.node.w
        u = w.declared(self.node.i, prefix.p if isinstance(
            prefix, Prefix) else 7)
        if w.k.split(u == 0):
            return default
        return '' if w.k.split(u == 1) else Uri(u)


class Prefixes(object):
    def __init__(self, node):
        self.node = node

    def get(self, ns, default=None):
        w = self.node.w
        p = w.prefix(self.node.i)
        return default if w.k.split(p == 0) else Prefix(p, self.node.i)


class Scope(object):
    def __init__(self, w, i, parent=None):
        self.w = w
        self.i = i
        self.up = parent
        self._prefix_to_ns = Declared(self)
        self._ns_to_prefix = Prefixes(self)

    @property
    def parent(self):
        if self.up is not None or isinstance(self.w.n, str):
            return self.up
        return Scope(self.w, self.i + 1) if self.w.k.split(
            self.i + 1 < self.w.n) else None


def nothing(k, w, n):
    return k.forall(0, n, lambda j: w.declared(j, 7) == 0)


def scope_inv(k, L):
    w = k.get('w')
    return [("nothing found", L.ns is None),
            ("nothing declared so far", nothing(
                k, w, w.n if L.ei is None else L.ei.i)),
            ("one of the chain", True if L.ei is None else k.And(
                L.ei.i >= 0, L.ei.i < w.n))]


@proof('the namespace of a prefix', _native=False, n=Int(1, None),
       first=Int(0, None), _loops=[LoopSpec(
           'NSNode.get_ns', strict=True, inv=scope_inv, havoc={
               'ns': lambda k: None,
               'ei': lambda k: Scope(k.get('w'), k.fresh('int', 'i'))
               if k.split(k.fresh('bool', 'more')) else None})])
def namespace(k, n, first):
    w = k.put('w', Scopes(k, n))
    k.requires(k.And(first <= n, nothing(k, w, first), k.Or(
        first == n, w.declared(first, 7) != 0)))
    got = xn.NSNode.get_ns(Scope(w, 0), 'p')
    found = k.And(first < n, w.declared(first, 7) != 1)
    if not isinstance(got, Uri):
        k.ensures("none when undeclared, or declared to be none",
                  k.Not(found))
    else:
        k.ensures("that of the innermost declaration", k.And(
            found, got.u == w.declared(first, 7)))


@proof('the prefix of a namespace', _native=False, n=Choice([1, 2, 3, 4]),
       _bounded='chains of up to four elements')
def prefix_of(k, n):
    w = Scopes(k, 'listed')
    node = None
    for i in reversed(range(n)):
        node = Scope(w, i, node)
        # each of the two maps is the inverse of the other
        p = w.prefix(i)
        k.requires(k.Or(p == 0, w.declared(i, p) == 2))
    got = xn.NSNode.get_prefix(node, 'urn:x')
    if got is None:
        for i in range(n):
            p = w.prefix(i)
            k.ensures("none in force", k.Or(p == 0, *[
                w.declared(j, p) != 0 for j in range(i)]))
    else:
        k.ensures("declared to be the namespace",
                  w.declared(got.i, got.p) == 2)
        k.ensures("and not otherwise further in", k.And(*[
            w.declared(j, got.p) == 0 for j in range(n) if j < got.i]))
