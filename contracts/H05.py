"""H05: cookies."""
import time
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Contract, Gen, Int, Str
from pyslet.http import cookie
from pyslet.http.cookie import Cookie, CookieStore, CookieError
import pyslet.http.params
from pyslet.http.params import FullDate
from pyslet.rfc2396 import URI

HOSTS = ['example.com', 'www.example.com', 'WWW.Example.COM', 'a.b.example.com',
         'badexample.com', 'com', 'localhost', 'example.co.uk',
         'www.example.co.uk', 'co.uk', '127.0.0.1', '[::1]', '0.1',
         'xn--85x722f.com.cn', 'com.example', 'ample.com', 'other.com']
DOMAINS = [None, None, None, 'example.com', '.example.com', 'Example.COM',
           'www.example.com', 'com', 'co.uk', 'example.co.uk', '0.1',
           '127.0.0.1', 'xample.com', 'b.example.com', '[::1]', '.com',
           'localhost']
PATHS = [None, None, '/', '/a', '/a/', '/a/b', '/ab', '/a/b/', '/A', '//',
         '/a%2Fb']
URLPATHS = ['', '/', '/a', '/a/', '/a/b', '/a/b/c', '/ab', '/abc/d', '/A',
            '//', '/a//b', '/a;x', '/a?q=/z', '/?q', '/a%2Fb', '/a/b/']
SUFFIXES = ['', '!example.com\n!example.co.uk', 'com\nuk\nco.uk\n',
            '*.uk\ncom\n!0.1\n!1', 'com']


ALL = HOSTS, PATHS, DOMAINS


def gen_case(rng):
    setup = rng.choice(SUFFIXES), rng.choice([1, 2, 255])
    if rng.random() < .2:
        setup = None
    ops = []
    HOSTS, PATHS, DOMAINS = ALL
    if rng.random() < .5:
        # more of the same, so that cookies meet
        host = rng.choice(HOSTS)
        HOSTS = [host, host, 'www.' + host if host[-1] > '9' else host,
                 rng.choice(HOSTS)]
        DOMAINS = [None, None, host, rng.choice(DOMAINS)]
        if rng.random() < .3 and host[-1].isalpha():
            # of many labels
            for i in range(rng.randint(2, 5)):
                host = rng.choice('ab') + '.' + host
                HOSTS.append(host)
                DOMAINS.append(host)
        PATHS = rng.sample(PATHS, 3)
        if rng.random() < .5:
            PATHS = ['/a', '/a/', rng.choice(PATHS)]
    for i in range(rng.randint(2, 10)):
        url = rng.choice(['http', 'http', 'https', 'HTTPS']) + '://' + \
            rng.choice(HOSTS) + rng.choice(['', '', ':80', ':8080']) + \
            rng.choice(URLPATHS)
        if rng.random() < .5 and i:
            ops.append(('get', url))
        else:
            ops.append(('set', url, rng.choice('nm'), rng.choice('vw'),
                        rng.choice(PATHS), rng.choice(DOMAINS),
                        rng.choice([None, None, None, 1000, 0, -1, 2, 3]),
                        rng.choice([None, None, None, None, -1, 2, 3, 500]),
                        rng.random() < .3, rng.random() < .3,
                        rng.random() < .5))
        if rng.random() < .3:
            # never a whole number of seconds altogether
            ops.append(('wait', rng.choice(
                [.01, .13, .41, .77, 1.03, 2.2]) + .00001))
        if rng.random() < .2:
            ops.append((rng.choice(['expire', 'end', 'age']), rng.randint(
                0, 9)))
    for i in range(4):
        ops.append(('get', rng.choice(['http', 'https']) + '://' + rng.choice(
            HOSTS) + rng.choice(URLPATHS)))
    return setup, ops


def is_address(host):
    return host.startswith('[') or all(
        x.isdigit() for x in host.split('.'))


def within(host, domain):
    """the same or a sub-domain"""
    host, domain = host.lower(), domain.lower()
    return host == domain or (host.endswith('.' + domain) and
                              not is_address(host))


def below(path, cpath):
    return path == cpath or (path.startswith(cpath) and (
        cpath.endswith('/') or path[len(cpath)] == '/'))


def parts(url):
    scheme, rest = url.split('://')
    i = min([j for j in (rest.find(c) for c in '/?') if j >= 0] or
            [len(rest)])
    host, rest = rest[:i], rest[i:].split('?')[0]
    for port in (':80', ':8080'):
        if host.endswith(port):
            host = host[:-len(port)]
    return scheme.lower(), host.lower(), rest or '/'


def default_path(path):
    return path[:path.rindex('/')] or '/'


@bounded('a cookie store', 'generated histories of a store',
         case=Gen(gen_case), _samples=6000)
def store(k, case):
    clock = Clock()
    with clock:
        history(k, case, clock)


class Clock(object):
    """the time, as the library sees it"""

    def __enter__(self):
        self.real = time.time
        self.now = 1.5e9
        time.time = lambda: self.now
        # a library that looks elsewhere is left alone
        self.ok = Cookie('n', 'v').creation_time == self.now
        if not self.ok:
            time.time = self.real
        return self

    def __exit__(self, *args):
        time.time = self.real

    def wait(self, seconds):
        if self.ok:
            self.now += seconds


def history(k, case, clock):
    setup, ops = case
    s = CookieStore()
    if setup:
        s.set_public_list(*setup)
    kept = {}       # (name, domain, path) -> (cookie, value, host only, secure)
    for op in ops:
        now = time.time()
        if op[0] == 'set':
            u, name, value, path, domain, age, exp, secure, http, text = \
                op[1:]
            if exp is not None:
                exp = FullDate.from_unix_time(int(now) + exp)
            scheme, host, upath = parts(u)
            url = URI.from_octets(u)
            if text:
                src = '%s=%s' % (name, value)
                if path is not None:
                    src += '; Path=' + path
                if domain is not None:
                    src += ';domain = ' + domain
                if age is not None:
                    src += '; Max-Age=%i' % age
                if exp is not None:
                    src += '; expires=%s' % exp
                if secure:
                    src += ';Secure'
                if http:
                    src += ';HttpOnly'
                c = Cookie.from_str(src.encode('ascii'))
                k.ensures("the attributes are read", (
                    c.secure, c.http_only, c.path, c.max_age) == (
                        secure, http, path, age), src)
                if path is None and domain is None and age is None and \
                        exp is None:
                    src = c.to_bytes()
                    k.ensures("and written", src == b'; '.join(
                        [name.encode() + b'=' + value.encode()] +
                        [b'Secure'] * secure + [b'HttpOnly'] * http), src)
            else:
                c = Cookie(name, value, path=path, domain=domain, max_age=age,
                           expires=exp, secure=secure, http_only=http)
            want = None if domain is None else domain.lower().lstrip('.')
            try:
                private = want and not is_address(want) and \
                    not s.test_public_domain(want)
                s.set_cookie(url, c)
            except CookieError:
                k.ensures("only a domain cookie is refused",
                          want is not None and (
                              not private or not within(host, want)), op)
                continue
            if want is not None:
                k.ensures("a server sets cookies for domains containing it",
                          within(host, want), op)
            only = want is None or c.domain is None
            if only:
                k.ensures("host only for the host itself",
                          want is None or (want == host and not private), op)
            key = (name, host if only else want,
                   default_path(upath) if path is None else path)
            k.ensures("the path", c.path == key[2], c.path, key)
            kept.pop(key, None)
            end = now + age if age is not None else None if exp is None \
                else exp.get_unixtime()
            if end is None or end > now:
                kept[key] = [c, value, only, secure, end]
        elif op[0] == 'get':
            scheme, host, path = parts(op[1])
            want = []
            for (name, domain, cpath), (c, value, only, secure, end) in \
                    kept.items():
                if (host == domain if only else within(host, domain)) and \
                        below(path, cpath) and (
                            not secure or scheme == 'https') and \
                        (end is None or end > now):
                    want.append((name, cpath, value, domain))
            got = s.search(URI.from_octets(op[1]))
            k.ensures("exactly the cookies that match", sorted(
                (c.name.decode(), c.path, c.value.decode()) for c in got) ==
                sorted(w[:3] for w in want), op, [str(c) for c in got], want)
            k.ensures("longer paths first, then older", all(
                len(a.path) > len(b.path) or (
                    len(a.path) == len(b.path) and
                    a.creation_time <= b.creation_time)
                for a, b in zip(got, got[1:])))
        elif op[0] == 'expire':
            s.expire_cookies()
        elif op[0] == 'end':
            s.end_session()
            for key in list(kept):
                if kept[key][4] is None:
                    del kept[key]
        elif op[0] == 'wait':
            clock.wait(op[1])
        elif op[0] == 'age' and kept:
            c = list(kept.values())[op[1] % len(kept)]
            if c[4] is None or c[4] > now:
                c[4] = c[0].expires_time = now + (
                    -10 if op[1] % 3 else 1000)



def _flags():
    """the flags of '; Secure; HttpOnly' are not read"""
    c = Cookie.from_str(b'n=v; Secure; HttpOnly')
    return not (c.secure and c.http_only)


FINDINGS = {'H05-flags': _flags}


# -- searching a store of any size --------------------------------------------------
#
# One cookie of the store, whichever, is followed: number `i` of the node of
# the last `t` labels of the host.  Nothing is known of the others.

class World(object):
    def __init__(self, k, path, own):
        self.k = k
        self.labels = k.fresh('int', 'labels')  # of the host
        self.depth = k.fresh('int', 'depth')    # nodes there are for them
        self.count = k.fun('count', 1)
        self.t, self.i = k.fresh('int', 't'), k.fresh('int', 'i')
        k.assume(k.And(self.labels >= 1, self.depth >= 0,
                       self.depth <= self.labels, self.t >= 1,
                       self.t <= self.depth, self.i >= 0,
                       self.i < self.count(self.t)))
        self.own = own

    def cookies(self, t):
        k = self.k
        k.assume(self.count(t) >= 0)
        return k.many(self.count(t), lambda i: self.own if k.split(k.And(
            t == self.t, i == self.i)) else Jar(k, k.fresh('str', 'path')))


class Jar(object):
    """a cookie"""

    def __init__(self, k, path):
        self.k = k
        self.gone = k.fresh('bool', 'expired')
        self.hostonly = k.fresh('bool', 'hostonly')
        self.secure = k.fresh('bool', 'secure')
        self.http_only = k.fresh('bool', 'http_only')
        self.path = path
        self.name = 'name'

    @property
    def domain(self):
        return None if self.k.split(self.hostonly) else 'domain'

    def expired(self, now=None):
        return self.gone

    def touch(self, now=None):
        pass


class DNode(object):
    def __init__(self, w, t):
        self.w = w
        self.t = t

    @property
    def nodes(self):
        return self

    def get(self, label, default=None):
        w = self.w
        return DNode(w, self.t + 1) if w.k.split(self.t < w.depth) else default

    @property
    def cookies(self):
        return Cookies(self.w, self.t)


class Cookies(object):
    def __init__(self, w, t):
        self.w = w
        self.t = t

    def values(self):
        return self.w.cookies(self.t)


class Bag(object):
    """a list of cookies: is the one that is followed among them?"""

    def __init__(self, k, own):
        self.k = k
        self.own = own
        self.has = k.fresh('bool', 'has')

    def append(self, c):
        if c is self.own:
            self.k.ensures("returned once", self.k.Not(self.has))
            self.has = True

    def sort(self, key=None):
        pass

    def __iter__(self):
        return iter([])


class Heap(Bag):
    def append(self, c):
        pass


class Lock(object):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Store(CookieStore):
    def __init__(self, w):
        self.lock = Lock()
        self.nodes = DNode(w, 0)


def has(k, bag):
    return k.get('own') in bag if isinstance(bag, list) else bag.has


def hosts_inv(k, L):
    w = k.get('world')
    return [("the node of the labels so far", k.And(
                L._i <= w.depth, L.dpos == L._i,
                True if isinstance(L.dnode, Store) else L.dnode.t == L._i,
                k.Not(isinstance(L.dnode, Store)) if not isinstance(
                    L._i, int) else True)),
            ("returned if in those nodes", k.Iff(has(k, L.matched), k.And(
                w.t <= L._i, k.get('wanted'))))]


def cookies_inv(k, L):
    w = k.get('world')
    return [("returned if among those seen", k.Iff(
        has(k, L.matched), k.And(k.get('wanted'), k.Or(
            w.t < L.dnode.t, k.And(w.t == L.dnode.t, w.i < L._i)))))]


def bag(k):
    return Bag(k, k.get('own'))


class PlainUrl(URI):
    def __init__(self, host, path):
        self.host = host
        self.abs_path = path


class HttpUrl(pyslet.http.params.HTTPURL):
    def __init__(self, host, path):
        self.host = host
        self.abs_path = path


class HttpsUrl(pyslet.http.params.HTTPSURL):
    def __init__(self, host, path):
        self.host = host
        self.abs_path = path


HOST_C = Contract('pyslet.http.cookie:CookieStore._split_host',
                  lambda k, host_str: k.many(
                      k.get('world').labels, lambda i: 'label'),
                  checked_by='the histories of cookies, by sampling')


@proof('a store of any size', _native=False, _uses=[HOST_C], _loops=[
    LoopSpec('CookieStore.search', ordinal=0, strict=True, inv=hosts_inv,
             havoc={'dpos': lambda k: k.put('dpos', k.fresh('int', 'dpos')),
                    'dnode': lambda k: DNode(k.get('world'), k.get('dpos')),
                    'matched': bag}),
    LoopSpec('CookieStore.search', ordinal=1, strict=True, inv=cookies_inv,
             havoc={'matched': bag, 'expired': lambda k: Heap(
                 k, k.get('own'))})],
    path=Str(), cpath=Str(), kind=Choice([0, 1, 2]))
def any_store(k, path, cpath, kind):
    own = k.put('own', Jar(k, cpath))
    w = k.put('world', World(k, path, own))
    url = [PlainUrl, HttpUrl, HttpsUrl][kind]('host', path)
    p, n = k.ite(path == '', '/', path), len(cpath)
    below = k.And(p.startswith(cpath), k.Or(
        len(p) == n, cpath[-1:] == '/', k.sub(p, n, n + 1) == '/'))
    wanted = k.put('wanted', k.And(
        k.Not(own.gone), k.Or(k.Not(own.hostonly), w.t == w.labels), below,
        k.Or(k.Not(own.secure), kind == 2),
        k.Or(k.Not(own.http_only), kind > 0)))
    k.ensures("returned when all conditions are met only", k.Iff(
        has(k, Store(w).search(url)), wanted))


# -- labels of any number, as numbers ---------------------------------------------

def same_step(k, L):
    """`all`: each label agrees, used for one label at a time"""
    f, g = k.get('f'), k.get('g')
    k.assume(k.Implies(k.get('all'), f(L.i) == g(L.i)))


@proof('the domain of a domain', _native=False, _loops=[LoopSpec(
    'domain_in_domain', havoc={'i': 'int'}, step=same_step,
    inv=lambda k, L: [
        ("in the domain", k.And(L.i == L._i, L.i >= 0, L.i <= k.get('n'))),
        ("all so far agree", k.Implies(k.get('x') < L.i, k.get('f')(
            k.get('x')) == k.get('g')(k.get('x'))))])])
def domains(k):
    f, g = k.put('f', k.fun('f', 1)), k.put('g', k.fun('g', 1))
    n, m = k.put('n', k.fresh('int', 'n')), k.fresh('int', 'm')
    every, x = k.put('all', k.fresh('bool', 'all')), k.put('x', k.fresh(
        'int', 'x'))
    k.assume(k.And(n >= 0, m >= 0, x >= 0, x < n))
    if cookie.domain_in_domain(k.many(n, f), k.many(m, g)):
        k.ensures("not longer", n <= m)
        k.ensures("each label agrees", f(x) == g(x))
    else:
        k.ensures("longer or different", k.Or(n > m, k.Not(every)))


# -- what is accepted from any host, for any domain -------------------------------

class Site(object):
    """`labels` and `domain` numbers of labels, the suffixes public(t)"""

    def __init__(self, k):
        self.k = k
        self.labels = k.fresh('int', 'labels')
        self.domain = k.fresh('int', 'domain')
        self.inside = k.fresh('bool', 'inside')
        self.public = k.fun('public', 1, 'bool')
        self.there = k.fun('there', 1, 'bool')
        self.box = Box(self)
        k.assume(k.And(self.labels >= 1, self.domain >= 1, k.Implies(
            self.inside, self.domain <= self.labels)))


class Label(object):
    def __init__(self, w, t):
        self.w = w
        self.t = t

    @property
    def nodes(self):
        return self

    @property
    def public(self):
        return self.w.public(self.t)

    @property
    def cookies(self):
        self.w.box.t = self.t
        return self.w.box

    def get(self, label, default=None):
        return Label(self.w, self.t + 1) if self.w.k.split(
            self.w.there(self.t + 1)) else default


class Box(object):
    """the cookies of one node, perhaps with one of the same name"""

    def __init__(self, w):
        self.w = w
        self.t = None
        self.log = []
        self.old = None

    def get(self, key, default=None):
        self.log.append(('get', key))
        return default if self.old is None else self.old

    def __delitem__(self, key):
        self.log.append(('del', key))

    def __setitem__(self, key, value):
        self.log.append(('set', key, value))


class Accepting(CookieStore):
    def __init__(self, w):
        self.lock = Lock()
        self.nodes = Label(w, 0)


def node_inv(k, L):
    return [("the node of the labels so far", k.And(
        L._i <= k.get('n'),
        True if isinstance(L.dnode, Accepting) else L.dnode.t == L._i,
        k.Not(isinstance(L.dnode, Accepting)) if not isinstance(
            L._i, int) else True))]


SPLIT_C = Contract('pyslet.http.cookie:CookieStore._split_host',
                   lambda k, host_str: k.many(
                       k.get('site').labels if host_str == 'host' else
                       k.get('site').domain, lambda i: 'label'),
                   checked_by='the histories of cookies, by sampling')
IN_C = Contract('pyslet.http.cookie:domain_in_domain',
                lambda k, subdomain, domain: k.get('site').inside,
                checked_by='H05 the domain of a domain')
EXPAND_C = Contract('pyslet.http.cookie:CookieStore._expand_node',
                    lambda k, self, from_node, label: Label(
                        k.get('site'), 1 if isinstance(
                            from_node, Accepting) else from_node.t + 1),
                    checked_by='the histories of cookies, by sampling')


@proof('accepted from any host', _native=False,
       _uses=[SPLIT_C, IN_C, EXPAND_C], _loops=[
           LoopSpec('CookieStore.set_cookie', strict=True, inv=node_inv,
                    havoc={'dnode': lambda k: Label(
                        k.get('site'), k.fresh('int', 't'))})],
       cpath=Str(minlen=1), kind=Choice([0, 1, 2]), given=Choice([0, 1]),
       old=Choice([0, 1]))
def accepted(k, cpath, kind, given, old):
    w = k.put('site', Site(k))
    n = k.put('n', w.domain if given else w.labels)
    url = [PlainUrl, HttpUrl, HttpsUrl][kind]('host', '/')
    url.scheme = 'x'
    c = Offered(k, cpath, 'domain' if given else None)
    if old:
        w.box.old = Offered(k, cpath, None)
    try:
        Accepting(w).set_cookie(url, c)
        done = True
    except CookieError:
        done = False
    wanted = k.And(k.Or(kind > 0, k.Not(c.http_only)),
                   k.Or(k.Not(given), w.inside),
                   k.Or(k.Not(w.public(n)), n == w.labels))
    k.ensures("refused exactly when it may not be set", k.Iff(done, wanted))
    if not done:
        k.ensures("nothing changed", w.box.log == [])
        return
    key = ('name', cpath)
    log = [x for x in w.box.log if x[0] != 'get']
    k.ensures("in the node of its domain", w.box.t == n)
    kept = [x for x in log if x[0] == 'set']
    k.ensures("stored unless expired", k.Or(c.gone, len(kept) == 1))
    k.ensures("itself, by name and path", k.And(*[
        k.And(x[1] == key, x[2] is c) for x in kept]))
    k.ensures("in place of the one before", k.Or(
        k.Not(old), len(kept) == 1, [x for x in log if x[0] == 'del'] != []))
    k.ensures("of the host only", k.Iff(c.domain is None, k.Or(
        k.Not(given), w.public(n))))


class Offered(object):
    def __init__(self, k, path, domain):
        self.gone = k.fresh('bool', 'gone')
        self.http_only = k.fresh('bool', 'http_only')
        self.creation_time = k.fresh('int', 'created')
        self.path = path
        self.domain = domain
        self.name = 'name'
        self.k = k

    def expired(self, now=None):
        return self.gone


@proof('expired or not', has=Choice([0, 1]), expires=Int(0, 2 ** 34),
       now=Int(0, 2 ** 34))
def is_expired(k, has, expires, now):
    c = Cookie('name', 'value')
    c.expires_time = expires if has else None
    k.ensures("after its time", k.Iff(c.expired(now), k.And(
        has == 1, now > expires)))
    k.ensures("kept over the session only with a time", k.Iff(
        c.is_persistent(), has == 1))
