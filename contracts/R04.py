"""R04: URIs compared by their canonical forms, file URLs and file paths."""
import posixpath
import re
from pyvc.kit import bounded, proof, Choice, Contract, Gen, Opt, Str
from pyslet import rfc2396 as uri
from pyslet import vfs
from pyslet.http import params

LEVEL = 'exploration'

assert params.HTTPURL
PORTS = {'http': 80, 'https': 443, 'file': None}
UNRESERVED = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
              "-_.!~*'()")


def swap(rng, s):
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def piece(rng, chars, n=3):
    return ''.join(rng.choice(chars) for i in range(rng.randint(0, n)))


PATH = ['a', 'A', 'b', '.', '..', '%7E', '~', '%2f', '%2F', '%41', '%e9', ';',
        '/', '//', '-']


def gen_parts(rng):
    scheme = rng.choice(['http', 'http', 'https', 'file', 'ftp', 'x-y', None])
    if scheme is not None and rng.random() < .3:
        scheme = swap(rng, scheme)
    if scheme is not None and scheme.lower() not in PORTS and \
            rng.random() < .4:
        return [scheme, None, None, None, 'o' + piece(rng, PATH), None,
                rng.choice([None, '', 'f', 'F'])]
    host = rng.choice(['a', 'A', 'a.b', 'A.b', 'c'])
    user = rng.choice([None, None, '', 'u', 'U:p', 'u:80'])
    port = rng.choice([None, None, '', '80', '080', '443', '8080', '1'])
    path = rng.choice(['', '/', '/']) and '/' + piece(rng, PATH)
    if path.startswith('//'):
        path = '/.' + path
    return [scheme, user, host, port, path,
            rng.choice([None, None, '', 'q', 'Q', 'q=%7e', 'q=%7E', 'q=~',
                        '%2f', '%2F']),
            rng.choice([None, None, '', 'f', 'F'])]


def close(rng, parts):
    """the same but for one part"""
    out = list(parts)
    i = rng.randrange(7)
    new = gen_parts(rng)
    if out[2] is None:
        i = rng.choice([0, 4, 6])
        if new[2] is not None:
            return out
    elif new[2] is None:
        return out
    if rng.random() < .4 and out[i]:
        out[i] = swap(rng, out[i])
    elif i or out[0] is not None:
        out[i] = new[i]
    if i == 0 and (out[2] is None) != (new[2] is None):
        return list(parts)
    return out


def gen_two(rng):
    a = gen_parts(rng)
    b = a
    for i in range(rng.choice([1, 1, 2, 3])):
        b = close(rng, b)
    if a[2] is None and b[0].lower() in PORTS:
        b = a
    return a, b


def text(parts):
    scheme, user, host, port, path, query, fragment = parts
    out = '' if scheme is None else scheme + ':'
    if host is not None:
        out += '//' + ('' if user is None else user + '@') + host + (
            '' if port is None else ':' + port)
    out += path
    if query is not None:
        out += '?' + query
    if fragment is not None:
        out += '#' + fragment
    return out


def unescaped(s):
    """with the escapes of unreserved characters removed, others in upper
    case"""
    def one(m):
        c = chr(int(m.group(1), 16))
        return c if c in UNRESERVED else m.group(0).upper()
    return re.sub('%([0-9A-Fa-f]{2})', one, s)


def key(parts):
    """what decides equality"""
    scheme, user, host, port, path, query, fragment = parts
    if scheme is None:
        return tuple(parts)
    s = scheme.lower()
    if host is not None and s in PORTS:
        host = host.lower()
        port = int(port) if port else None
        if port == PORTS[s]:
            port = None
    if s in ('http', 'https'):
        path = unescaped(path) or '/'
        query = None if query is None else unescaped(query)
    return (s, user, host, port, path, query, fragment)


@bounded('URIs compared', 'paths of up to four parts', _samples=9000,
         case=Gen(gen_two))
def compared(k, case):
    pa, pb = case
    ta, tb = text(pa), text(pb)
    a, b = uri.URI.from_octets(ta), uri.URI.from_octets(tb)
    k.ensures("the text", str(a) == ta and str(b) == tb, (ta, tb))
    same = key(pa) == key(pb)
    k.ensures("equal when all that matters is", (a == b) == same and
              (b == a) == same and (a != b) == (not same) and
              a.match(b) == same, (ta, tb))
    if same:
        k.ensures("equal hashes", hash(a) == hash(b), (ta, tb))
    k.ensures("compared with text", (a == tb) == same, (ta, tb))
    k.ensures("one of less, equal and greater",
              (a < b) + (a == b) + (a > b) == 1 and (a <= b) == (not b < a)
              and (a >= b) == (not a < b), (ta, tb))
    c = a.canonicalize()
    k.ensures("equal to the canonical form", c == a and
              str(c.canonicalize()) == str(c), (ta, str(c)))
    k.ensures("one canonical form", (str(c) == str(b.canonicalize())) == same,
              (ta, tb))
    if pa[0] is not None and pa[2] is not None and pa[0].lower() in PORTS:
        s = pa[0].lower()
        k.ensures("address", a.get_addr() == (
            pa[2], int(pa[3]) if pa[3] else PORTS[s]), ta)
        root = a.get_canonical_root()
        k.ensures("the root of the server", root == uri.URI.from_octets(text(
            [s, pa[1], pa[2], pa[3], '', None, None])) and
            root.get_canonical_root() == root, (ta, str(root)))


# -- paths and file URLs ------------------------------------------------------

NAMES = ['a', 'B', 'a b', 'c%41', '%', '#x', 'x?y', ';', '=', '\xe9', '\u20ac',
         '\U0001f600', 'a:b', '~', '@', '+', '&', '"', '<', '..a', '.b', '\\',
         'x\ty', '\x01']


def gen_path(rng):
    segs = [rng.choice(NAMES + ['.', '..', ''] * 2)
            if rng.random() < .6 else rng.choice('abc')
            for i in range(rng.randint(0, 4))]
    if segs and segs[0] == '':
        # two slashes at the start are kept apart by POSIX
        segs[0] = 'a'
    return rng.choice(['os', 'memory']), '/' + '/'.join(segs)


@bounded('a path as a URL', 'up to four segments', _samples=6000,
         case=Gen(gen_path))
def file_url(k, case):
    kind, p = case
    fs = vfs.OSFilePath if kind == 'os' else vfs.MemFilePath
    path = fs(p)
    url = uri.URI.from_virtual_path(path)
    want = posixpath.normpath(p)
    if p.endswith(('/', '/.')) and want != '/':
        want += '/'
    got = url.get_virtual_file_path()
    k.ensures("the same file system", type(got) is fs)
    k.ensures("the path it was made from", str(got) == want,
              (p, str(url), str(got)))
    again = uri.URI.from_octets(str(url))
    k.ensures("read from its text", again == url and type(
        again) is uri.FileURL and str(again.get_virtual_file_path()) == want)
    k.ensures("only characters of a URI", re.match(
        "^file://[a-z.]*/[A-Za-z0-9%/\\-_.!~*'():@&+$,]*$", str(url)),
        str(url))
    if kind == 'os':
        k.ensures("the local path", uri.URI.from_path(p) == url and
                  url.get_pathname(True) == want.encode() and str(
                      url.to_local_text()) == str(url))
    other = uri.URI.from_virtual_path(fs(want))
    k.ensures("one URL for one path", str(other) == str(url), (p, want))


# -- any parts ----------------------------------------------------------------

T = Str(alphabet='aA%~/.')


class AnyURI(uri.URI):
    """a URI with the given canonical form"""

    def __init__(self, canon, cached):
        self.canon = canon
        self._canonical_octets = canon if cached else None

    def canonicalize(self):
        return self.canon


@proof('equal when the canonical forms are', a=T, b=T, cached=Choice(
    [(False, False), (True, False), (False, True), (True, True)]))
def by_form(k, a, b, cached):
    x, y = AnyURI(a, cached[0]), AnyURI(b, cached[1])
    k.ensures("equal", k.Iff(x == y, a == b))
    k.ensures("match", k.Iff(x.match(y), a == b))
    k.ensures("again", k.Iff(y == x, a == b))


class AnyServerURL(uri.ServerBasedURL):
    """a URL of the given parts"""

    def __init__(self, usual, **parts):
        self.DEFAULT_PORT = usual
        self.__dict__.update(parts)


class AnyHTTPURL(params.HTTPURL):
    """a URL of the given parts"""

    def __init__(self, usual, **parts):
        self.DEFAULT_PORT = usual
        self.__dict__.update(parts)


OCTETS_C = Contract('pyslet.rfc2396:URI.from_octets',
                    lambda k, cls, octets, *rest: octets, checked_by='R03')


@proof('the canonical form of a server URL', _native=False, _uses=[OCTETS_C],
       _bounded='the schemes, hosts and ports listed', scheme=Choice([
           'file', 'x-Y']), user=Opt(T), host=Choice(['a.B', '', 'x']),
       port=Choice([None, '', '80', '080', '81']),
       default=Choice([None, 80]), path=Opt(T), rel=T, query=Opt(T),
       fragment=Opt(T))
def server_form(k, scheme, user, host, port, default, path, rel, query,
                fragment):
    got = AnyServerURL(
        default, scheme=scheme, authority='', userinfo=user, host=host,
        port=port, abs_path=path, rel_path=None if path is not None else rel,
        query=query, fragment=fragment).canonicalize()
    want = scheme.lower() + '://'
    if user is not None:
        want = want + user + '@'
    want = want + host.lower()
    if port and int(port) != default:
        want = want + ':' + str(int(port))
    want = want + (path if path is not None else rel)
    if query is not None:
        want = want + '?' + query
    if fragment is not None:
        want = want + '#' + fragment
    k.ensures("part by part", got == want)


#: the canonical form of escaped data, marked
CANON_C = Contract('pyslet.rfc2396:canonicalize_data',
                   lambda k, source, *rest: '<' + source + '>',
                   checked_by='R01')


@proof('the canonical form of an HTTP URL', _native=False, _uses=[
       OCTETS_C, CANON_C], _bounded='the schemes, hosts and ports listed',
       scheme=Choice(['http', 'hTTps']), user=Opt(T),
       host=Choice(['a.B', 'x']), port=Choice([None, '', '80', '080', '443']),
       default=Choice([443, 80]), path=Opt(T), query=Opt(T), fragment=Opt(T))
def http_form(k, scheme, user, host, port, default, path, query, fragment):
    got = AnyHTTPURL(
        default, scheme=scheme, authority='', userinfo=user, host=host,
        port=port, abs_path=path, rel_path=None, query=query,
        fragment=fragment).canonicalize()
    want = scheme.lower() + '://'
    if user is not None:
        want = want + user + '@'
    want = want + host.lower()
    if port and int(port) != default:
        want = want + ':' + str(int(port))
    if path is None or path == '':
        want = want + '/'
    else:
        want = want + '<' + path + '>'
    if query is not None:
        want = want + '?<' + query + '>'
    if fragment is not None:
        want = want + '#' + fragment
    k.ensures("part by part", got == want)
