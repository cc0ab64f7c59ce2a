"""R03: URI components recompose to the original text."""
import itertools
from pyvc.kit import proof, bounded, Contract, Int, Choice, Bool, Str, Bytes, \
    Union, Const, Gen, Opt, has
from pyvc.interp import LoopSpec
from speclib.charclass import TEST
from pyslet import rfc2396 as uri
from pyslet import urn
from pyslet.rfc2396 import URI, URIException

SRC = Str(alphabet='//??:ab.@%', maxlen=9, words=[
    '', '/', '//', '///', '?', '/?', '//?', '//a', '//a/', '//a?', '//a/b?c',
    '/a/b?c?d', 'a/b?c', 'a', '//a/?', '?q', 'a?', 'a?b/c'])


def none_of(k, src, a, b, chars):
    if k.native:
        return not any(c in src[a:b] for c in chars)
    return k.forall(a, b, lambda i: k.And(*[
        k.code(src, i) != ord(c) for c in chars]))


def is_at(k, src, i, c):
    return k.And(i < len(src), lambda: k.code(src, i) == ord(c))


def part(k, src, a, b):
    return k.sub(src, a, b)


def components(k, src, pos, authority, path, query, rel):
    """the components found in src[:pos], where the scan has arrived"""
    conds = []
    at = 0
    if authority is not None:
        conds += [is_at(k, src, 0, '/'), is_at(k, src, 1, '/')]
        at = 2 + len(authority)
        conds += [at <= pos, authority == part(k, src, 2, at),
                  none_of(k, src, 2, at, '/?')]
    if path is not None:
        end = at + len(path)
        conds += [end <= pos, path == part(k, src, at, end),
                  none_of(k, src, at, end, '?')]
        if not rel or authority is not None:
            conds += [len(path) >= 1, is_at(k, src, at, '/')]
            if authority is None:
                conds += [k.Not(is_at(k, src, 1, '/'))]
        else:
            conds += [k.Not(is_at(k, src, 0, '/'))]
        at = end
    if query is not None:
        conds += [is_at(k, src, at, '?'), at < pos,
                  query == part(k, src, at + 1, pos)]
        at = pos
    return k.And(*conds), at


def scan_inv(k, L, src, rel):
    s = L.self
    mode = L.mode
    pos = L.pos
    first = ':' if not rel else None
    out = [("position", k.And(pos >= 0, pos <= len(src))),
           ("no query yet", s.query is None)]
    if mode == first:
        out.append(("start", k.And(pos == 0, s.authority is None,
                                   s.abs_path is None, s.rel_path is None)))
    elif mode == '/':
        out.append(("slash", k.And(
            pos == 1, is_at(k, src, 0, '/'), s.authority is None,
            s.abs_path is None, s.rel_path is None)))
    elif mode == 'a':
        out.append(("authority", k.And(
            is_at(k, src, 0, '/'), is_at(k, src, 1, '/'), L.astart == 2,
            pos >= 2, s.authority is None, s.abs_path is None,
            s.rel_path is None, none_of(k, src, 2, pos, '/?'))))
    elif mode == 'p' or mode == 'r':
        start = L.pstart if mode == 'p' else L.rstart
        ok, at = components(k, src, pos, s.authority, None, None, rel)
        out.append(("before the path", k.And(
            ok, s.abs_path is None, s.rel_path is None, start == at,
            pos > start)))
        out.append(("path", k.And(
            none_of(k, src, start, pos, '?'),
            is_at(k, src, start, '/') if mode == 'p' else
            k.Not(is_at(k, src, 0, '/')),
            k.Implies(mode == 'p' and s.authority is None,
                      k.Not(is_at(k, src, 1, '/'))))))
        if mode == 'r':
            out.append(("relative", s.authority is None))
    elif mode == '?':
        path = s.abs_path
        if path is None:
            path = s.rel_path
        ok, at = components(k, src, L.qstart - 1, s.authority, path, None,
                            s.rel_path is not None)
        out.append(("before the query", k.And(
            ok, L.qstart - 1 == at, is_at(k, src, at, '?'),
            L.qstart <= pos)))
        out.append(("a path or an authority", k.Or(
            s.authority is not None, path is not None)))
    else:
        k.giveup("mode %r" % (mode,))
    out.append(("one path", k.Or(s.abs_path is None, s.rel_path is None)))
    return out


HAVOC = {'pos': 'int', 'self.authority': Opt(Str()),
         'self.abs_path': Opt(Str())}
HIER = LoopSpec('URI.parse_scheme_specific_part', inv=lambda k, L: scan_inv(
    k, L, L.self.scheme_specific_part, False), havoc=dict(
        HAVOC, mode=Choice([':', '/', 'a', 'p', '?'])), maybe={
            'astart': 'int', 'pstart': 'int', 'qstart': 'int'},
    label='scan', variant=lambda k, L: len(
        L.self.scheme_specific_part) + 1 - L.pos)
REL = LoopSpec('URI._parse_relative_uri', inv=lambda k, L: scan_inv(
    k, L, L.self.octets, True), havoc=dict(
        HAVOC, mode=Choice([None, '/', 'a', 'p', 'r', '?']), **{
            'self.rel_path': Opt(Str())}), maybe={
                'astart': 'int', 'pstart': 'int', 'qstart': 'int',
                'rstart': 'int'},
    label='scan', variant=lambda k, L: len(L.self.octets) + 1 - L.pos)


@proof('a hierarchical part splits without loss', _loops=[HIER], src=SRC)
def hier(k, src):
    u = k.new(URI, scheme='x', scheme_specific_part=src, octets=src,
              rel_path=None)
    k.root(u)
    u.parse_scheme_specific_part()
    n = len(src)
    if u.opaque_part is not None:
        k.ensures("opaque: everything", k.And(
            u.opaque_part == src, u.authority is None, u.abs_path is None,
            u.query is None, k.Not(is_at(k, src, 0, '/'))), u.opaque_part)
    elif u.authority is None and u.abs_path is None:
        k.ensures("nothing of nothing", k.And(n == 0, u.query is None))
    else:
        ok, at = components(k, src, n, u.authority, u.abs_path, u.query,
                            False)
        k.ensures("components in place", ok, u.authority, u.abs_path,
                  u.query)
        k.ensures("nothing left over", at == n)


@proof('a relative reference splits without loss', _loops=[REL], src=SRC)
def relative(k, src):
    if not has(URI, '_parse_relative_uri', 1):
        return
    u = k.new(URI, octets=src)
    k.root(u)
    u._parse_relative_uri()
    path = u.abs_path
    if path is None:
        path = u.rel_path
    k.ensures("a path or an authority", k.Or(
        path is not None, u.authority is not None))
    ok, at = components(k, src, len(src), u.authority, path, u.query,
                        u.rel_path is not None)
    k.ensures("components in place", ok, u.authority, path, u.query)
    k.ensures("nothing left over", at == len(src))


# -- authority -----------------------------------------------------------------

def isdigit(k, s, i):
    c = k.code(s, i)
    return k.And(c >= 48, c <= 57)


PORT = LoopSpec('split_server', inv=lambda k, L: [
    ("digits so far", k.forall(0, L._i, lambda j: isdigit(k, L.port, j))),
    ("still a port", k.And(L.plen >= 0, L.plen + 1 + len(L.port) == len(
        L.authority)))], havoc={'plen': 'int'}, label='port')


@proof('split_server loses nothing', _loops=[PORT], _uses=[TEST], a=Opt(Str(
    alphabet='::@@a.109[]', maxlen=9, words=[
        '', '@', ':', '@:', ':@', 'a@b:80', 'a:b@c', 'a:1@c', 'a@b:', 'a:b',
        '[::1]:80', '[::1]', 'a@b@c:1', ':80'])))
def server(k, a):
    user, host, port = uri.split_server(a)
    if a is None:
        k.ensures("nothing of nothing", k.And(
            user is None, host is None, port is None))
        return
    n = len(a)
    at = 0
    if user is not None:
        at = len(user) + 1
        k.ensures("user information", k.And(
            at <= n, user == a[0:at - 1], is_at(k, a, at - 1, '@'),
            none_of(k, a, 0, at - 1, '@')), user)
    else:
        k.ensures("no user information without an at sign",
                  none_of(k, a, 0, n, '@'))
    end = at + len(host)
    k.ensures("host", k.And(end <= n, host == a[at:end]), host)
    if port is not None:
        k.ensures("the port runs to the end",
                  end + 1 + len(port) == n, port)
        k.ensures("a colon before the port", is_at(k, a, end, ':'), port)
        k.ensures("port", port == a[end + 1:n], port)
        k.ensures("digits", k.forall(
            0, len(port), lambda i: isdigit(k, port, i)), port)
    else:
        k.ensures("nothing left over", end == n, host)
        if k.native:
            last = a.rfind(':', at)
            k.ensures("no port only when there is none", last < 0 or any(
                c not in '0123456789' for c in a[last + 1:]), host)


# -- scheme --------------------------------------------------------------------

def schemechar(k, s, i):
    c = k.code(s, i)
    return k.Or(k.And(c >= 97, c <= 122), k.And(c >= 65, c <= 90),
                k.And(i > 0, k.Or(k.And(c >= 48, c <= 57), c == 43, c == 45,
                                  c == 46)))


SCHEME = LoopSpec('_parse_scheme', inv=lambda k, L: [
    ("position", k.And(L.pos >= 0, L.pos <= len(L.octets))),
    ("scheme characters so far", k.forall(0, L.pos, lambda i: schemechar(
        k, L.octets, i))), ("none yet", L.scheme is None)],
    havoc={'pos': 'int', 'scheme': 'none'}, label='scheme',
    variant=lambda k, L: len(L.octets) - L.pos)


@proof('the scheme is what precedes the colon', _loops=[SCHEME],
       _uses=[TEST], src=Str(alphabet='aZz09+-.:/', maxlen=6, words=[
           'a:', ':', 'http:', 'a1+-.:b', '1a:', 'a', 'a/b:c']))
def scheme(k, src):
    if not has(uri, '_parse_scheme', 1):
        return
    r = uri._parse_scheme(src)
    if r is None:
        if k.native:
            i = src.find(':')
            k.ensures("none only when there is none", i < 1 or not all(
                schemechar(k, src, j) for j in range(i)))
    else:
        n = len(r)
        k.ensures("the text before a colon", k.And(
            r == src[0:n], is_at(k, src, n, ':')), r)
        k.ensures("scheme characters", k.forall(
            0, n, lambda i: schemechar(k, src, i)), r)


# -- whole URIs, bounded ----------------------------------------------------------

ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
URIC = set(ALPHA + "0123456789;/?:@&=+$,[]-_.!~*'()")
HEX = set('0123456789abcdefABCDEF')


def valid_run(s):
    i = 0
    while i < len(s):
        if s[i] == '%' and len(s) >= i + 3 and s[i + 1] in HEX and \
                s[i + 2] in HEX:
            i += 3
        elif s[i] in URIC:
            i += 1
        else:
            break
    return i


def split(text):
    """RFC 2396 appendix B, with a proper scheme"""
    frag = query = auth = sch = None
    rest = text
    if '#' in rest:
        rest, frag = rest.split('#', 1)
    i = rest.find(':')
    if i == 0 or i > 0 and rest[0] in ALPHA and all(
            c in ALPHA + '0123456789+-.' for c in rest[:i]):
        # the library reads a leading colon as an empty scheme
        sch, rest = rest[:i], rest[i + 1:]
        if rest[:1] != '/':
            return sch, None, None, None, frag, rest
    if '?' in rest:
        rest, query = rest.split('?', 1)
    if rest.startswith('//'):
        i = rest.find('/', 2)
        if i < 0:
            i = len(rest)
        auth, rest = rest[2:i], rest[i:]
        if not rest:
            rest = None
    return sch, auth, rest, query, frag, None


def gen_uri(rng):
    def run(n, extra=''):
        return ''.join(rng.choice('ab1.:@;=+$,-_~!' + extra + "'()&")
                       if rng.random() < .9 else rng.choice([
                           '%41', '%2f', '%zz', '%', ' ', '"', '\x7f', '<',
                           '[', ']', '^', '\xe9', '%4', '#'])
                       for i in range(rng.randint(0, n)))
    s = ''
    if rng.random() < .6:
        s += rng.choice(['http:', 'HTTPS:', 'x:', 'file:', 'x+1.-:', '1x:',
                         'urn:', 'ftp:', ':', 'x'])
    if rng.random() < .5:
        s += '//' + run(5)
    s += run(7, '//..')
    if rng.random() < .4:
        s += '?' + run(4, '/?')
    if rng.random() < .3:
        s += '#' + run(4, '/?')
    return s


@bounded('every accepted URI splits as RFC 2396 says', 'generated texts',
         text=Gen(gen_uri, corners=[
             '', '#', '#a', '?', '?#', 'x:', 'x:#f', 'x:/', 'x:?q', 'x://',
             'x:///', 'x:////', '//', 'http://a', 'http://a#', 'http:a',
             'a:b:c', 'a/b:c', './a:b', '%41:', 'http://a/b?c#d#e',
             'http://u:p@h:80/p;x?q#f', 'file:///a/b', 'http://h:/']),
         _samples=20000)
def whole(k, text):
    k.requires(not text.lower().startswith('urn:'))
    body, sep, frag = text.partition('#')
    fine = valid_run(body) == len(body) and valid_run(frag) == len(frag)
    sch, auth, path, query, fr, opaque = split(text)
    try:
        u = URI.from_octets(text, strict=True)
    except (URIException, UnicodeError):
        k.ensures("refused only when not all URI characters", not fine, text)
        return
    k.ensures("accepted only when all URI characters", fine)
    k.ensures("text kept", str(u) == text, str(u))
    k.ensures("scheme", u.scheme == sch, u.scheme, sch)
    k.ensures("fragment", u.fragment == fr, u.fragment, fr)
    k.ensures("authority", u.authority == auth, u.authority, auth)
    k.ensures("query", u.query == query, u.query, query)
    if sch is not None:
        k.ensures("scheme specific part", text.startswith(
            sch + ':' + u.scheme_specific_part) and
            u.octets == sch + ':' + u.scheme_specific_part)
    if opaque is not None:
        k.ensures("opaque part", (u.opaque_part or '') == opaque)
        k.ensures("no path", u.abs_path is None and u.rel_path is None)
    else:
        k.ensures("not opaque", u.opaque_part is None)
        p = u.abs_path if u.abs_path is not None else u.rel_path
        k.ensures("path", p == path, p, path)
        k.ensures("absolute path", (u.abs_path is not None) == (
            path is not None and path.startswith('/')))
    back = ''
    if u.scheme is not None:
        back += u.scheme + ':'
    if u.opaque_part is not None:
        back += u.opaque_part
    if u.authority is not None:
        back += '//' + u.authority
    for x in (u.abs_path, u.rel_path):
        if x is not None:
            back += x
    if u.query is not None:
        back += '?' + u.query
    if u.fragment is not None:
        back += '#' + u.fragment
    k.ensures("components concatenate to the text", back == text, back)
    if isinstance(u, uri.ServerBasedURL):
        a = u.authority
        if a is None:
            k.ensures("no server", u.host is None and u.port is None and
                      u.userinfo is None)
        else:
            b = '' if u.userinfo is None else u.userinfo + '@'
            b += u.host
            if u.port is not None:
                b += ':' + u.port
            k.ensures("server parts concatenate", b == a, b)


@bounded('splitting a path into segments', 'sampled paths', path=Opt(Str(
    alphabet='//ab.;', maxlen=8, words=['', '/', '//', 'a/', '/a', 'a//b'])))
def segments(k, path):
    rel = uri.split_rel_path(path)
    if path is None:
        k.ensures("none", rel == [''] and uri.split_abs_path(path) == [])
        return
    k.ensures("relative", '/'.join(rel) == path and all(
        '/' not in s for s in rel), rel)
    k.ensures("relative again", uri.split_path(path, False) == rel)
    try:
        a = uri.split_path(path)
    except ValueError:
        k.ensures("refused only when not absolute", path != '' and
                  path[0] != '/')
        return
    k.ensures("absolute", ''.join('/' + s for s in a) == path and all(
        '/' not in s for s in a), a)
    k.ensures("absolute again", uri.split_abs_path(path) == a)
    if a:
        s = a[-1]
        head, params = uri.split_path_segment(s)
        k.ensures("parameters of a segment", ';'.join(
            [head] + params) == s, head, params)


@bounded('the run of URI characters', 'sampled texts', src=Str(
    alphabet='ab%%41zZ /?#[]^', maxlen=8), pos=Int(0, 8))
def uric(k, src, pos):
    k.requires(pos <= len(src))
    n = uri.parse_uric(src, pos)
    k.ensures("as many as there are", n == valid_run(src[pos:]), n)


def gen_urn(rng):
    nid = ''.join(rng.choice('abZ09-') for i in range(rng.choice(
        [0, 1, 2, 5, 30, 31, 32, 33])))
    nss = ''.join(rng.choice(["a", "b", "%41", "/", ":", "(", "%00", "@",
                              "'", "-", "?", "#", "&", "~", "[", "="])
                  for i in range(rng.randint(0, 5)))
    return rng.choice(['urn:', 'URN:', 'urn:', 'urn']) + rng.choice(
        [nid, nid, 'urn', 'UrN', 'isbn']) + rng.choice(
        [':', ':', ':', '']) + nss


TRANS = set(ALPHA + "0123456789()+,-.:=@;$_!*'%/?#")


@bounded('URNs', 'generated texts', text=Gen(gen_urn, corners=[
    'urn:', 'urn:a', 'urn:a:', 'urn::b', 'urn:a:b', 'urn:/a', 'urn:a:b#c',
    'urn:-a:b', 'urn:a-b:c']))
def urns(k, text):
    k.requires(text.lower().startswith('urn:'))
    body, sep, frag = text.partition('#')
    nid, colon, nss = body[4:].partition(':')
    good = (valid_run(body) == len(body) and valid_run(frag) == len(frag)
            and colon and 1 <= len(nid) <= 32 and all(
                c in ALPHA + '0123456789-' for c in nid) and
            nid[0] != '-' and nid.lower() != 'urn' and
            all(c in TRANS for c in nss))
    try:
        u = URI.from_octets(text)
    except URIException:
        k.ensures("refused only when malformed", not good)
        return
    k.ensures("accepted only when well formed", good)
    k.ensures("URN", isinstance(u, urn.URN))
    k.ensures("name and string", u.nid == nid and u.nss == nss, u.nid, u.nss)
    k.ensures("concatenate to the text", '%s:%s:%s' % (
        u.scheme, u.nid, u.nss) == body and str(u) == text)


@bounded('URN strings are translated without loss', 'sampled texts', s=Str(
    alphabet="a%/?#()+,-.:=@;$_!*' &\u00e9\u20ac\U0001f600\"", maxlen=8))
def urnchar(k, s):
    k.requires(not any(0xd800 <= ord(c) < 0xe000 for c in s))
    try:
        t = urn.translate_to_urnchar(s)
    except ValueError:
        k.ensures("refused only for a zero", '\0' in s)
        return
    k.ensures("accepted without a zero", '\0' not in s)
    k.ensures("URN characters", all(c in TRANS for c in t) and
              urn.parse_urn(t) == t, t)
    k.ensures("translated back", urn.translate_from_urnchar(t) == s, t)
