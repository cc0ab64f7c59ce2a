"""W01: signed messages, encrypted data and static pages."""
import atexit
import base64
import binascii
import hashlib
import mimetypes
import os
import re
import shutil
import tempfile
import types
from pyvc.kit import proof, bounded, Contract, Int, Choice, Gen, Str, Opt, \
    Bytes, BytesN
from pyvc.interp import LoopSpec
from pyslet import wsgi, iso8601 as iso
from pyslet.http import cookie
from pyslet.odata2 import metadata as edmx
from pyslet.odata2.memds import InMemoryEntityContainer
from pyslet.wsgi import AppCipher, WSGIApp, PageNotFound


# -- the environment of the module under test ---------------------------------

NOW = [0]


def clock_now():
    return NOW[0]


class Digest(object):
    """stands for a digest, as one of the data that it was made from"""

    def __init__(self, data):
        self.data = data

    def digest(self):
        return self.data


def sha256(data):
    return hashlib.sha256(data)


def unhexlify(text):
    return binascii.unhexlify(text)


def hexlify(data):
    return binascii.hexlify(data)


def urandom(n):
    return os.urandom(n)


def b64decode(text):
    return binascii.a2b_base64(text)


def join(a, b):
    return os.path.join(a, b)


def isdir(path):
    return os.path.isdir(path)


def isfile(path):
    return os.path.isfile(path)


def stand_in(m, **kw):
    d = dict(vars(m))
    d.update(kw)
    return types.SimpleNamespace(**d)


wsgi.time = types.SimpleNamespace(time=clock_now)
wsgi.sha256 = sha256
wsgi.binascii = stand_in(binascii, unhexlify=unhexlify, hexlify=hexlify)
wsgi.base64 = stand_in(base64, b64decode=b64decode)
wsgi.os = stand_in(os, urandom=urandom, path=stand_in(
    os.path, join=join, isdir=isdir, isfile=isfile))

SHA_C = Contract('contracts.W01:sha256', lambda k, data: Digest(data))
SHA_C.name = 'sha256 (no two texts with one digest)'
CLOCK_C = Contract('contracts.W01:clock_now', lambda k: k.get('clock')[0],
                   checked_by='the environment of the harness')


class Lock(object):
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        pass


class NoKeys(object):
    def open(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        pass

    def __getitem__(self, key):
        raise KeyError(key)


class Cipher(AppCipher):
    """a cipher with keys 3 and 12, of which 12 is current after a time"""

    def __init__(self, until):
        self.lock = Lock()
        self.key_set = NoKeys()
        self.key_num = 12
        self.key = KEYS[12]
        self.ciphers = {3: self.new_cipher(KEYS[3]),
                        12: self.new_cipher(KEYS[12])}
        self.old_num = 3 if until else None
        self.old_key = KEYS[3] if until else None
        self.old_expires = until


KEYS = {3: b'sekrit', 12: b'hidden'}


# -- checking a signature ------------------------------------------------------

SPLIT_C = Contract(
    'pyslet.wsgi:AppCipher._split_signature',
    lambda k, self, signature: list(k.get('parts')),
    checked_by='W01 the parts of a signature')
UNHEX_C = Contract('contracts.W01:unhexlify', lambda k, text: unhex(k, text),
                   checked_by='nothing: the standard library')
UNESC_C = Contract('pyslet.rfc2396:unescape_data',
                   lambda k, source: k.get('message'),
                   checked_by='R01 unescape_data decodes well-formed text')


def unhex(k, text):
    if k.split(k.fresh('bool', 'malformed')):
        raise binascii.Error
    return k.get(text)


SALT = Bytes(alphabet='ab\x00', maxlen=6)
MSG = Bytes(alphabet='abc%\x00', maxlen=8)
NUM = Choice(['3', '12', '7', '-3', '', 'x'])


@proof('an accepted message is the signed one', _uses=[
    SHA_C, CLOCK_C, SPLIT_C, UNHEX_C, UNESC_C], num=NUM, n0=Choice([3, 12]),
    salt=SALT, salt0=BytesN(alphabet='ab\x00', maxlen=4, minlen=4), message=MSG, m0=MSG, 
    given=Opt(MSG), shown=Choice([False, True]))
def accepted(k, num, n0, salt, salt0, message, m0, given, shown):
    if k.native and m0[:1] == b'b':
        # move bytes between the parts
        whole = salt0 + m0
        i = len(salt)
        salt, message = whole[:i], whole[i:]
    elif k.native and m0[:1] == b'a':
        salt, message = salt0, m0
    h = wsgi.sha256(salt0 + m0 + KEYS[n0]).digest()
    if k.native:
        s = '-'.join([num, salt.hex(), h.hex(), wsgi.escape_data(message)
                      if shown else ''])
    else:
        k.put('parts', [num, 'salt', 'hash', 'text' if shown else ''])
        k.put('salt', salt)
        k.put('hash', h)
        k.put('message', message)
        s = 'signature'
    app = Cipher(None)
    clock = k.put('clock', [0])
    try:
        r = app.check_signature(s, given)
    except ValueError:
        if k.native:
            k.ensures("refused only when altered", not (
                num == str(n0) and salt == salt0 and (
                    given == m0 and (not shown or not message or
                                     message == m0) or
                    given is None and message == m0 and shown)), s)
        return
    k.ensures("the same key", num == str(n0))
    k.ensures("the same salt", salt == salt0)
    k.ensures("the same message", r == m0, r)
    k.ensures("the message shown", not shown or r == message, r)


@proof('the parts of a signature', sig=Str(alphabet='-3ab%', maxlen=12,
       words=['12-', '0badcafe-', '-%2D']))
def parts(k, sig):
    r = Cipher(None)._split_signature(sig)
    k.ensures("four parts", len(r) == 4, r)
    want = sig.split('-', 3)
    for i in range(4):
        k.ensures("a part", r[i] == (want[i] if i < len(want) else ''), r)


HEX_C = Contract(
    'contracts.W01:hexlify', lambda k, data: hexed(k, data),
    checked_by='nothing: the standard library')
RANDOM_C = Contract('contracts.W01:urandom', 'bytes',
                    lambda k, r, n: len(r) == n,
                    checked_by='nothing: the standard library')


def hexed(k, data):
    r = k.fresh('bytes', 'hex')
    k.assume(k.And(len(r) == 2 * len(data), k.all_codes(r, lambda c: k.Or(
        k.And(c >= 48, c <= 57), k.And(c >= 97, c <= 102)))))
    k.get('hexed').append((data, r))
    return r


@proof('sign', _uses=[SHA_C, CLOCK_C, HEX_C, RANDOM_C], m=MSG,
       until=Opt(Int(1, None, corners=[1000, 2000])),
       now=Int(0, None, corners=[1000, 1001, 2000]))
def sign(k, m, until, now):
    app = Cipher(until)
    clock = k.put('clock', [now])
    if k.native:
        NOW[0] = now
    hexes = k.put('hexed', [])
    s = app.sign(m)
    if until is not None and now <= until:
        num = 3
    else:
        num = 12
    if k.concrete:
        return
    if k.native:
        n, salt, h = s.split('-')
        k.ensures("number", n == str(num))
        k.ensures("salt", len(salt) == 8)
        k.ensures("hash", hashlib.sha256(
            bytes.fromhex(salt) + m + KEYS[num]).hexdigest() == h)
        return
    k.ensures("two values", len(hexes) == 2)
    salt, x = hexes[0]
    data, y = hexes[1]
    k.ensures("salt", len(salt) == 4)
    k.ensures("what is hashed", data == salt + m + KEYS[num])
    k.ensures("signature", s == str(num) + '-' + x.decode('ascii') + '-' +
              y.decode('ascii'))


# -- histories of keys ----------------------------------------------------------

def key_set():
    doc = edmx.Document()
    with open(os.path.join(os.path.dirname(wsgi.__file__),
                           'imsbltiv1p0_metadata.xml'), 'rb') as f:
        doc.read(src=f)
    cdef = doc.root.DataServices['LTISchema.LTIDatabase']
    InMemoryEntityContainer(cdef)
    return cdef['AppKeys']


ALTER = ['number', 'other number', 'salt', 'hash', 'message', 'shift',
         'unshift', 'swap', 'cut', 'case', 'text', 'byte', 'drop']


def gen_keys(rnd):
    ops = []
    for i in range(rnd.randint(2, 14)):
        op = rnd.choice(['sign', 'ascii', 'encrypt', 'change', 'restart',
                         'alter', 'alter', 'alter', 'wait'])
        msg = bytes(rnd.choice([97, 98, 37, 45, 0, 255, 49])
                    for j in range(rnd.choice([0, 1, 2, 5, 9])))
        ops.append((op, msg, rnd.choice(ALTER), rnd.randrange(1000),
                    rnd.choice([-5, 0, 1, 50, 1000])))
    return ops


def altered(how, sig, other, r):
    """an altered form of a signature"""
    p = sig.split('-', 3)
    q = other.split('-', 3)
    r, j = divmod(r, 10)
    if how == 'number':
        p[0] = str(int(p[0]) + 1)
    elif how == 'other number':
        p[0] = ['-1', '', 'x', '99999999999', '1'][r % 5]
    elif how in ('salt', 'hash'):
        i = 1 if how == 'salt' else 2
        c = r % len(p[i]) if p[i] else 0
        p[i] = p[i][:c] + '%x' % ((int(p[i][c:c + 1] or '0', 16) + 1) % 16) + \
            p[i][c + 1:]
    elif how == 'message':
        p[3:] = ['x' + (p + [''])[3]] if r % 2 else []
    elif how in ('shift', 'unshift'):
        m = wsgi.unescape_data((p + [''])[3])
        n = r % 3 + 1
        if how == 'shift':
            p[1] += m[:n].hex()
            m = m[n:]
        else:
            m = bytes.fromhex(p[1])[-n:] + m
            p[1] = p[1][:-2 * n]
        p[3:] = [wsgi.escape_data(m)]
    elif how == 'swap':
        i = r % 4
        p, q = (p + [''])[:4], (q + [''])[:4]
        p[i] = q[i]
    elif how == 'cut':
        return sig[:r % (len(sig) + 1)]
    elif how == 'case':
        p[2] = p[2].upper()
    elif how == 'text':
        return ''.join(chr((r * 7 + i * j) % 128) for i in range(r % 30))
    elif how == 'byte':
        c = r % len(sig)
        return sig[:c] + chr((ord(sig[c]) + 1 + j) % 127) + sig[c + 1:]
    elif how == 'drop':
        del p[r % len(p)]
    return '-'.join(p)


@bounded('a long chain of keys', 'as many changes as are supported (100)',
         _samples=25, n=Int(1, 100, corners=[1, 2, 99, 100]), msg=MSG,
         first=Choice([0, 1, 7]))
def long_chain(k, n, msg, first):
    ks = SETS[0] if SETS else key_set()
    SETS[:] = [ks]
    with ks.open() as c:
        for key in list(c.keys()):
            del c[key]
    NOW[0] = 1445385600
    app = AppCipher(first, b'k%i' % first, ks)
    e = app.encrypt(msg)
    s = app.ascii_sign(msg)
    for i in range(n):
        NOW[0] += 10
        app.change_key(first + i + 1, b'k%i' % (first + i + 1),
                       iso.TimePoint.from_unix_time(NOW[0] - 5))
    for a in (app, AppCipher(first + n, b'k%i' % (first + n), ks)):
        k.ensures("decrypted", a.decrypt(e) == msg)
        k.ensures("verifies", a.check_signature(s) == msg)
        k.ensures("a key of its own", a.encrypt(msg).startswith(
            '%i:' % (first + n)))


@bounded('histories of keys', 'up to 14 operations', _samples=1200,
         ops=Gen(gen_keys))
def keys(k, ops):
    ks = SETS[0] if SETS else key_set()
    SETS[:] = [ks]
    with ks.open() as c:
        for key in list(c.keys()):
            del c[key]
    NOW[0] = 1445385600
    num = 0
    key = b'key0'
    pending = None      # (key number, until)
    app = AppCipher(num, key, ks)
    signed = {}
    crypted = []
    first = '0-00000000-00-'
    for op, msg, how, r, delay in ops:
        current = num
        if pending is not None and NOW[0] <= pending[1]:
            current = pending[0]
        if op in ('sign', 'ascii'):
            s = app.sign(msg) if op == 'sign' else app.ascii_sign(msg)
            p = s.split('-', 3)
            k.ensures("signed with the current key", p[0] == str(current))
            salt, h = bytes.fromhex(p[1]), bytes.fromhex(p[2])
            signed[int(p[0]), salt, h] = msg
            first = s
            ok = app.check_signature(s, msg)
            k.ensures("verifies", ok == msg)
            if op == 'ascii':
                k.ensures("verifies without the message",
                          app.check_signature(s) == msg, s)
            try:
                app.check_signature(s, msg + b'x')
                k.fail("another message verifies")
            except ValueError:
                pass
            try:
                got = app.check_signature(s, b'')
                k.ensures("an empty message verifies", msg == b'' == got)
            except ValueError:
                k.ensures("an empty message is refused", msg != b'')
        elif op == 'encrypt':
            e = app.encrypt(msg)
            k.ensures("encrypted with the current key",
                      e.startswith('%i:' % current), e)
            crypted.append((e, msg))
        elif op == 'change':
            pending = (num, NOW[0] + delay)
            num += 1
            key = b'key%i' % num
            app.change_key(num, key, iso.TimePoint.from_unix_time(pending[1]))
        elif op == 'restart':
            if pending is not None and NOW[0] < pending[1]:
                app = AppCipher(num, key, ks, iso.TimePoint.from_unix_time(
                    pending[1]))
                if len([1 for o in ops if o[0] == 'change']) > 1:
                    # any of several keys that have not expired
                    pending = (app.old_num, pending[1])
            else:
                app = AppCipher(num, key, ks)
                pending = None
        elif op == 'wait':
            NOW[0] += abs(delay)
        elif op == 'alter':
            other = '%i-%s' % (num, '-'.join(first.split('-')[1:])) \
                if r % 2 else '0-00-00-00'
            s = altered(how, first, other, r)
            for given in (None, msg):
                try:
                    got = app.check_signature(s, given)
                except ValueError:
                    continue
                p = (s.split('-', 3) + [''])[:4]
                k.ensures("only a signed message verifies", signed.get((
                    int(p[0]), bytes.fromhex(p[1]), bytes.fromhex(p[2]))) ==
                    got, how, s, got)
                k.ensures("the given message", given is None or given == got)
        for e, m in crypted:
            k.ensures("decrypted exactly", app.decrypt(e) == m, e, m)


SETS = []


# -- the rest of the encryption -------------------------------------------------

@proof('the parts of encrypted data', sig=Str(alphabet=':3=Q', maxlen=12,
       words=['12:', 'UVE=', '+/']), _uses=[Contract(
           'contracts.W01:b64decode', lambda k, text: k.put('of', text),
           checked_by='nothing: the standard library')])
def data_parts(k, sig):
    try:
        n, data = Cipher(None)._split_data(sig)
    except ValueError:
        return
    c = sig.find(':')
    k.ensures("one colon", k.And(c > 0, lambda: k.forall(
        c + 1, len(sig), lambda i: k.code(sig, i) != 58)))
    k.ensures("number", n == int(sig[:c]), n)
    if k.concrete:
        return
    if k.native:
        k.ensures("data", data == binascii.a2b_base64(sig[c + 1:]))
    else:
        k.ensures("data", data == sig[c + 1:])


# -- static pages -----------------------------------------------------------------

class Place(object):
    """a path in the configured directory"""

    def __init__(self, n):
        self.n = n


def name(k, s):
    """a name that stays in its directory, on any system"""
    return k.And(len(s) > 0, lambda: k.all_codes(s, lambda c: k.Or(
        k.And(c >= 48, c <= 57), k.And(c >= 65, c <= 90),
        k.And(c >= 97, c <= 122), c == 45, c == 46)),
        lambda: k.code(s, 0) != 46)


JOIN_C = Contract('contracts.W01:join', lambda k, a, b: Place(a.n + 1),
                  pre=lambda k, a, b: k.And(isinstance(a, Place), name(k, b)),
                  checked_by='W01 requests for pages')
DIR_C = Contract('contracts.W01:isdir', 'bool', pre=lambda k, path: isinstance(
    path, Place), checked_by='nothing: the standard library')
FILE_C = Contract('contracts.W01:isfile', 'bool', pre=lambda k, path:
                  isinstance(path, Place), checked_by='nothing: the standard '
                  'library')


def label(k, s):
    n = len(s)
    return k.And(n > 0, n <= 63, lambda: k.code(s, 0) != 45,
                 lambda: k.code(s, n - 1) != 45,
                 lambda: k.all_codes(s, lambda c: k.Or(
                     k.And(c >= 48, c <= 57), k.And(c >= 65, c <= 90),
                     k.And(c >= 97, c <= 122), c == 45)))


LDH_C = Contract('pyslet.http.cookie:is_ldh_label', 'bool',
                 lambda k, r, label_: k.Iff(r, label(k, label_)),
                 checked_by='W01 labels')


def ldh_inv(k, L):
    s, i = L.label, L._i
    return [("so far", k.forall(0, i, lambda j: alnum_hyphen(
                k, k.code(s, j)))),
            ("the first", k.Or(i == 0, lambda: k.code(s, 0) != 45)),
            ("started", k.Iff(L.allow_hyphen, i > 0)),
            ("the last", k.Iff(L.trailing_hyphen, k.And(
                i > 0, lambda: k.code(s, i - 1) == 45)))]


def alnum_hyphen(k, c):
    return k.Or(k.And(c >= 48, c <= 57), k.And(c >= 65, c <= 90),
                k.And(c >= 97, c <= 122), c == 45)


@proof('labels', _loops=[LoopSpec('is_ldh_label', inv=ldh_inv, havoc={
    'allow_hyphen': 'bool', 'trailing_hyphen': 'bool'})], s=Bytes(
        alphabet='a-Z9./', maxlen=8, words=[b'a' * 61, b'-a', b'\n']))
def labels(k, s):
    r = cookie.is_ldh_label(s)
    k.ensures("a label", k.Iff(r, label(k, s)), r)
    k.ensures("a boolean", r is True or r is False or not k.native)


class Context(object):
    def __init__(self, path):
        self.environ = {'PATH_INFO': path}
        self.headers = []

    def set_status(self, code):
        self.status = code

    def add_header(self, name, value):
        self.headers.append((name, value))


class Pages(WSGIApp):
    content_type = {}

    def __init__(self, where):
        self.static_files = where
        self.opened = []

    def file_response(self, context, target_path):
        self.opened.append(target_path)
        return 'file'


def guess_type(name):
    return mimetypes.guess_type(name)


wsgi.mimetypes = stand_in(mimetypes, guess_type=guess_type)
GUESS_C = Contract('contracts.W01:guess_type', lambda k, name: (None, None),
                   checked_by='nothing: the standard library')
ROOT = []


def root():
    if not ROOT:
        d = tempfile.mkdtemp(prefix='w01')
        atexit.register(shutil.rmtree, d, True)
        ROOT.append(os.path.join(d, 'www'))
        os.makedirs(os.path.join(d, 'www', 'img', 'a-b'))
        os.makedirs(os.path.join(d, 'www2'))
        os.makedirs(os.path.join(d, 'www', '.git'))
        for p in ('secret.txt', 'www2/x.txt', 'www/x.txt', 'www/noext',
                  'www/img/x.png', 'www/img/a-b/y.tgz', 'www/.hidden',
                  'www/.git/x.txt', 'www/a.b.c', 'www/img/.x.txt',
                  'www/-x.txt', 'www/x-.txt'):
            with open(os.path.join(d, p), 'w') as f:
                f.write(p)
    return ROOT[0]


REQ = Str(alphabet='/.ax-', maxlen=10, words=[
    'x.txt', '/img', '/../', '..', '/www2', 'secret.txt', 'a-b', '//',
    'y.tgz', '\0', '\\', '.git', '\n', '\xe9', '%2e%2e', 'C:', '/img/x.png',
    '/img/a-b/y.tgz', '/x.txt'])


@proof('requests for pages', path=REQ, _uses=[
    LDH_C, JOIN_C, DIR_C, FILE_C, GUESS_C], _loops=[LoopSpec(
        'WSGIApp.static_page', inv=lambda k, L: [
            ("in the directory", isinstance(L.target_path, Place)),
            ("left", L.pleft == L._n - L._i)],
        havoc={'target_path': lambda k: Place(k.fresh('int', 'n')),
               'pleft': 'int', 'ext': 'str'}, maybe={
                   'filename': 'str'})], _feas_ms=100, _splits=1)
def pages(k, path):
    app = Pages(Place(0) if not k.native else root())
    try:
        r = app.static_page(Context(path))
    except (PageNotFound, UnicodeEncodeError):
        k.ensures("nothing opened", app.opened == [])
        return
    k.ensures("one file", len(app.opened) == 1)
    p = app.opened[0]
    if not k.native:
        k.ensures("in the directory", isinstance(p, Place))
        return
    base = os.path.realpath(root())
    real = os.path.realpath(p)
    k.ensures("in the directory", real.startswith(base + os.sep) and
              os.path.isfile(real), p)
    k.ensures("the file asked for", '/'.join(
        x for x in path.split('/') if x) == os.path.relpath(real, base), p)


@bounded('pages are served', 'the files of a directory', _samples=200,
         path=Choice(['/x.txt', '/img/x.png', '/img/a-b/y.tgz', 'x.txt',
                      '//img//x.png', '/nothing.txt', '/img', '/noext',
                      '/../secret.txt', '/.hidden', '/img/../../secret.txt']))
def served(k, path):
    class App(WSGIApp):
        static_files = root()
        settings = {'WSGIApp': {'canonical_root': 'http://localhost'}}
    app = App()
    app.set_method('/*', app.static_page)
    out = []
    body = b''.join(app({'PATH_INFO': path, 'wsgi.url_scheme': 'http'},
                        lambda status, headers, exc=None: out.append(
                            (status, dict(headers)))))
    names = [x for x in path.split('/') if x]
    real = os.path.join(root(), *names)
    if path[0] == '/' and os.path.isfile(real) and '..' not in names and re.match(
            '[a-z]+[.][a-z]+\\Z', names[-1]):
        with open(real, 'rb') as f:
            data = f.read()
        k.ensures("the data of the file", body == data, body)
        k.ensures("200", out[0][0].startswith('200'), out)
        k.ensures("length", out[0][1]['Content-Length'] == str(len(data)))
    else:
        k.ensures("404", out[0][0].startswith('404'), out)
