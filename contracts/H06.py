"""H06: credentials."""
import base64
import re
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Contract, Choice, Gen, Str, ListN
from pyslet import rfc2396
from pyslet.http import auth
from pyslet.http import client as hclient
from pyslet.http.auth import BasicCredentials, BasicChallenge
from pyslet.rfc2396 import URI

ROOTS = ['http://example.com', 'https://example.com', 'HTTP://Example.COM:80',
         'http://example.com:8080', 'https://example.com:443',
         'http://www.example.com', 'http://example.com:443',
         'https://example.com:8080', 'http://ample.com', 'https://example.co']
SEGS = ['a', 'b', 'ab', '', '.', '..', 'a;x', '%61', 'A']


def gen_path(rng, dots=True):
    if rng.random() < .1:
        return rng.choice(['', '/'])
    segs = [rng.choice(SEGS) for i in range(rng.randint(1, 5))]
    if not dots:
        segs = [s for s in segs if '.' not in s]
    return '/' + '/'.join(segs)


def space(u):
    scheme, rest = u.lower().split('://')
    host = rest.split('/')[0].split('?')[0]
    host, _, port = host.partition(':')
    return scheme, host, int(port or dict(http=80, https=443)[scheme])


def walk(path):
    """the segments once dot segments are followed; None above the root"""
    out = []
    segs = (path or '/').split('/')[1:]
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if not out:
                return None
            out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return out


def inside(path, good):
    """path is in the directory of good"""
    p, g = walk(path), walk(good)
    if p is None or g is None:
        return None
    g = g[:-1]
    return len(p) > len(g) and p[:len(g)] == g


def gen_space(rng):
    good = [(gen_path(rng, False)) for i in range(rng.randint(0, 5))]
    path = gen_path(rng, rng.random() < .4)
    if good and rng.random() < .5:
        # near a successful one
        path = rng.choice(good)
        i = rng.randint(0, len(path))
        path = rng.choice([path + '/a', path[:i], path[:i] + 'b' + path[i:],
                           path + 'b', path + '/../b'])
        if re.search('%(?!61)', path):
            path = path.replace('%', '')
        if not path.startswith('/'):
            path = '/' + path
    return rng.choice(ROOTS), good, rng.choice(ROOTS + ROOTS[:1]), path, \
        rng.choice(['', '?x=/a/b'])


@bounded('the protection space', 'generated spaces, paths and URLs',
         case=Gen(gen_space), _samples=8000)
def protection(k, case):
    root, good, uroot, path, query = case
    c = BasicCredentials()
    c.protectionSpace = URI.from_octets(root)
    c.userid, c.password = 'u', 'p'
    for g in good:
        c.add_success_path(g)
    url = URI.from_octets(uroot + path + query)
    want = space(root) == space(uroot)
    within = [inside(path, g) for g in good]
    if walk(path) is None:
        # above the root: only inside the root
        within = [len(walk(g)) == 1 for g in good]
    # an empty path is in no protection space
    want = want and path != '' and any(within)
    k.ensures("scheme, host, port and a path prefix agree",
              c.test_url(url) == want, root, good, str(url), c.path_prefixes)
    k.ensures("no prefix is inside another", all(
        not c.is_prefix(p, q) for p in c.path_prefixes
        for q in c.path_prefixes if p is not q), c.path_prefixes)
    k.ensures("the answer for the same path again", all(
        c.test_path(g) for g in good if g), good, c.path_prefixes)
    # a request only carries credentials whose space it is in
    m = hclient.Client()
    other = BasicCredentials()
    other.userid, other.password = 'other', 'one'
    other.protectionSpace = URI.from_octets('http://other.com')
    other.add_success_path('/')
    m.add_credentials(other)
    m.add_credentials(c)
    k.ensures("found by the URL", (m.find_credentials_by_url(url) is c) ==
              want)
    ch = BasicChallenge()
    ch.protectionSpace = url.get_canonical_root()
    k.ensures("found by the challenge", (m.find_credentials(ch) is c) == (
        space(root) == space(uroot)))
    req = hclient.ClientRequest(str(url))
    req.set_client(m)
    req.start_sending()
    req.send_header()
    k.ensures("sent inside the space only", req.get_header(
        'Authorization') == (b'Basic dTpw' if want else None),
        req.get_header('Authorization'))
    m.remove_credentials(c)
    k.ensures("forgotten", m.find_credentials_by_url(url) is None)
    m.close()


class Queue(object):
    cookie_store = None

    def __init__(self):
        self.queue = []

    def queue_request(self, r):
        self.queue.append(r)


def gen_hop(rng):
    return rng.choice(ROOTS), gen_path(rng), rng.choice(ROOTS), gen_path(rng)


@bounded('moving to another URL', 'generated pairs of URLs',
         case=Gen(gen_hop), _samples=2000)
def moving(k, case):
    a, pa, b, pb = case
    req = hclient.ClientRequest(a + pa)
    q = Queue()
    req.set_client(q)
    c = BasicCredentials()
    c.userid, c.password = 'u', 'p'
    req.set_authorization(c)
    k.ensures("set", req.get_header('Authorization') == b'Basic dTpw')
    req.resend(URI.from_octets(b + pb))
    k.ensures("queued again", q.queue == [req])
    k.ensures("stripped when scheme, host or port differ", req.get_header(
        'Authorization') == (b'Basic dTpw' if space(a) == space(b) else
                             None), req.get_header('Authorization'))


def gen_basic(rng):
    chars = 'ab:/ =+\x00\xff\xe9~"\\,'
    return (''.join(rng.choice(chars.replace(':', '') if rng.random() < .99
                               else 'a')
                    for i in range(rng.randint(0, 8))),
            ''.join(rng.choice(chars) for i in range(rng.randint(0, 12))))


@bounded('basic credentials', 'generated user ids and passwords',
         case=Gen(gen_basic, corners=[('', ''), ('a', ''), ('', 'b'),
                                      ('Aladdin', 'open sesame'),
                                      ('u', ':'), ('u', 'a:b:c')]),
         _samples=3000)
def basic(k, case):
    user, password = case
    c = BasicCredentials()
    c.userid, c.password = user, password
    text = c.to_bytes()
    k.ensures("the text of RFC 2617", text == b'Basic ' + base64.b64encode(
        (user + ':' + password).encode('latin-1')), text)
    k.ensures("as characters", str(c) == text.decode('ascii'))
    c2 = BasicCredentials()
    c2.set_basic_credentials(text[6:])
    k.ensures("decoded", (c2.userid, c2.password) == case, c2.userid,
              c2.password)
    c3 = auth.Credentials.from_str(text)
    k.ensures("parsed", isinstance(c3, BasicCredentials) and (
        c3.userid, c3.password) == case)



# -- any prefix, any path -----------------------------------------------------------
#
# Segments are numbers, as they are only compared and tested for being empty
# (0).

class Segment(object):
    def __init__(self, k, n):
        self.k = k
        self.n = n

    def __eq__(self, other):
        return self.n == other.n

    def __ne__(self, other):
        return self.n != other.n

    def __bool__(self):
        return self.n != 0

    def __len__(self):
        return self.k.ite(self.n != 0, 1, 0)


def prefix_world(k):
    n, m = k.fresh('int', 'n'), k.fresh('int', 'm')
    k.assume(k.And(n >= 0, m >= 0))
    k.put('n', n)
    return n, m, k.put('f', k.fun('prefix', 1)), k.put('g', k.fun('path', 1))


def agree(k, i):
    """segment i of the prefix allows that of the path"""
    f, g, n = k.get('f'), k.get('g'), k.get('n')
    return k.Or(f(i) == g(i), k.And(f(i) == 0, i == n - 1))


def prefix_step(k, L):
    k.assume(k.Implies(k.get('all'), agree(k, L.i)))


@proof('any prefix of any path', _native=False, _loops=[LoopSpec(
    'BasicCredentials.is_prefix', havoc={'i': 'int'}, step=prefix_step,
    inv=lambda k, L: [("in the prefix", k.And(L.i >= 0, L.i <= k.get('n'))),
                      ("all so far agree", k.Implies(
                          k.get('x') < L.i, agree(k, k.get('x'))))])])
def any_prefix(k):
    """`all`: each segment agrees, used for one segment at a time"""
    n, m, f, g = prefix_world(k)
    every = k.put('all', k.fresh('bool', 'all'))
    x = k.put('x', k.fresh('int', 'x'))
    k.assume(k.And(x >= 0, x < n))
    if BasicCredentials().is_prefix(k.many(n, lambda i: Segment(k, f(i))),
                                    k.many(m, lambda i: Segment(k, g(i)))):
        k.ensures("not longer", n <= m)
        k.ensures("each segment agrees", agree(k, x))
    else:
        k.ensures("longer or different", k.Or(n > m, k.Not(every)))


def agrees(k, f, n, g, m, i):
    return k.And(n <= m, k.Implies(k.And(i >= 0, i < n), k.Or(
        f(i) == g(i), k.And(f(i) == 0, i == n - 1))))


@proof('being a prefix is a partial order', _native=False)
def order(k):
    """For each segment i, over the postcondition of is_prefix"""
    (f, n), (g, m), (h, l) = [(k.fun(x, 1), k.fresh('int', x)) for x in 'fgh']
    i = k.fresh('int', 'i')
    k.ensures("of itself", agrees(k, f, n, f, n, i))
    k.assume(agrees(k, f, n, g, m, i))
    k.assume(agrees(k, g, m, h, l, i))
    k.ensures("of what has a prefix of which it is one", agrees(
        k, f, n, h, l, i))


# -- prefixes and paths as numbers, within(p, q): q is in the space of p -----------

class Path(object):
    def __init__(self, n):
        self.n = n

    def __getitem__(self, i):
        return ''


def within(k, p, q):
    """a partial order (being a prefix is a partial order)"""
    w = k.get('within')
    z, new = k.get('z'), k.get('new')
    for a, b, c in [(p, new, z), (new, p, z), (p, q, z), (p, q, new)]:
        k.assume(k.Implies(k.And(w(a, b), w(b, c)), w(a, c)))
    k.assume(w(new, new))
    return w(p, q)


SPLIT_C = Contract('pyslet.rfc2396:split_path', lambda k, path, abs_path:
                   path, checked_by='R02, R03')
NORM_C = Contract('pyslet.rfc2396:normalize_segments', 'none',
                  checked_by='R02')
PREFIX_C = Contract('pyslet.http.auth:BasicCredentials.is_prefix',
                    lambda k, self, p, q: within(k, p.n, q.n),
                    checked_by='H06 any prefix of any path')


@proof('a successful path widens the space by itself only', _native=False,
       _bounded='up to three prefixes before', n=Choice([0, 1, 2, 3]),
       _uses=[SPLIT_C, NORM_C, PREFIX_C])
def widened(k, n):
    k.put('within', k.fun('within', 2, 'bool'))
    new, z = k.put('new', k.fresh('int', 'new')), k.put('z', k.fresh(
        'int', 'z'))
    c = BasicCredentials()
    old = [Path(k.fresh('int', 'old')) for i in range(n)]
    for p in old:
        for q in old:
            if p is not q:
                k.assume(k.Not(within(k, p.n, q.n)))
    c.path_prefixes = list(old)
    before = k.Or(*[within(k, p.n, z) for p in old])
    c.add_success_path(Path(new))
    k.ensures("what is in the space", k.Or(*[
        within(k, p.n, z) for p in c.path_prefixes]) == k.Or(
            before, within(k, new, z)))
    k.ensures("no prefix is inside another", k.And(*[k.Not(
        within(k, p.n, q.n)) for p in c.path_prefixes
        for q in c.path_prefixes if p is not q]))


@proof('a path is tested against every prefix', _native=False,
       _uses=[SPLIT_C, NORM_C, PREFIX_C], _loops=[LoopSpec(
           'BasicCredentials.test_path', havoc={},
           step=lambda k, L: k.assume(k.Implies(
               k.get('none'), k.Not(k.get('within')(
                   k.get('p')(L._i), k.get('z'))))),
           inv=lambda k, L: [("none so far", k.Implies(
               k.get('x') < L._i, k.Not(within(
                   k, k.get('p')(k.get('x')), k.get('z')))))])])
def tested(k):
    k.put('within', k.fun('within', 2, 'bool'))
    n = k.fresh('int', 'n')
    k.assume(n >= 0)
    p = k.put('p', k.fun('prefix', 1))
    x, z = k.put('x', k.fresh('int', 'x')), k.put('z', k.fresh('int', 'z'))
    k.put('new', z)
    none = k.put('none', k.fresh('bool', 'none'))
    k.assume(k.And(x >= 0, x < n))
    c = BasicCredentials()
    c.path_prefixes = k.many(n, lambda i: Path(p(i)))
    if c.test_path(Path(z)):
        k.ensures("one of them matches", k.Not(none))
    else:
        k.ensures("none of them matches", k.Not(within(k, p(x), z)))


class Url(object):
    def __init__(self, root, path):
        self.root = root
        self.abs_path = path

    def is_absolute(self):
        return True

    def get_canonical_root(self):
        return self.root


PATH_C = Contract('pyslet.http.auth:BasicCredentials.test_path',
                  lambda k, self, path: k.get('inside')(path),
                  checked_by='H06 a path is tested against every prefix')


@proof('root and path must agree', _native=False, _uses=[PATH_C])
def agreed(k):
    inside = k.put('inside', k.fun('inside', 1, 'bool'))
    c = BasicCredentials()
    c.protectionSpace = k.fresh('int', 'space')
    root, path = k.fresh('int', 'root'), k.fresh('int', 'path')
    k.ensures("both", k.Iff(c.test_url(Url(root, path)), k.And(
        c.protectionSpace == root, inside(path))))
