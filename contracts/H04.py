"""H04: request bodies."""
import io
from pyvc.kit import proof, bounded, Contract, Int, Choice, Gen, Bytes, \
    Union, Const, Opt, has
from pyvc.interp import LoopSpec
from speclib import iomodel
from pyslet.http import messages, params, grammar
from pyslet.unicode5 import ParserError
from pyslet.http.messages import WSGIInputWrapper, ChunkedReader

B = Bytes(alphabet=[0, 10, 13, 65, 66, 255], maxlen=30)


class Source(object):
    """the connection: a read returns at least one byte (unless at the end)
    and at most the number asked for, otherwise any number"""

    def __init__(self, body, cap):
        self.body = body
        self.at = 0
        self.cap = cap
        self.taken = 0          # the furthest a caller asked for

    def read(self, n=-1):
        rest = len(self.body) - self.at
        if n < 0:
            n = rest
            self.taken = len(self.body) + 1
        elif self.at + n > self.taken:
            self.taken = self.at + n
        if n > rest:
            n = rest
        if n > self.cap:
            n = self.cap
        r = self.body[self.at:self.at + n]
        self.at = self.at + n
        return r

    def readline(self):
        i = self.body.find(b'\n', self.at)
        i = len(self.body) if i < 0 else i + 1
        r = self.body[self.at:i]
        self.at = i
        return r


def arbitrary_read(k, self, n):
    """any such stream: the number of bytes is chosen anew by every call"""
    rest = len(self.body) - self.at
    if n < 0:
        n = rest
        self.taken = len(self.body) + 1
    elif self.at + n > self.taken:
        self.taken = self.at + n
    m = k.fresh('int', 'm')
    k.requires(k.And(m >= 0, m <= rest, m <= n, k.Implies(
        k.And(rest > 0, n > 0), m > 0)))
    self.was = self.at
    self.at = self.at + m


def what_was_read(k, self, n):
    return k.sub(self.body, self.was, self.at)


SOURCE = Contract(Source.read, what_was_read, modifies=arbitrary_read)

N = Int(0, None, corners=[0, 1, 2, 3, 5, 8, 20, 40])


def env(src, length):
    e = {'wsgi.input': src}
    if length is not None:
        e['CONTENT_LENGTH'] = length
    return e


def expect(k, n, size):
    """where the declared body ends"""
    if n is None:
        return size
    return k.ite(n < size, n, size)


def wrapper(k, body, cap, length, seek):
    src = Source(body, cap)
    w = WSGIInputWrapper(env(src, length), seek)
    return src, w


def filling(k, L):
    w = L.self
    src = w.input_stream
    return [
        ("the source is read as far as it is buffered",
         src.at == w.buffSize),
        ("the buffer holds it", w.buffer._data == k.sub(src.body, 0, src.at)),
        ("the buffer is at its end", w.buffer._at == w.buffSize),
        ("within the source", k.And(src.at >= 0, src.at <= len(src.body))),
        ("no more than is wanted", k.And(src.at <= L.seek_size,
                                         src.taken <= L.seek_size)),
    ]


def filled(k, L):
    src = L.self.input_stream
    if src is not None:
        k.adjacent(src.body, 0, src.was, src.at)


FILL = LoopSpec(
    'WSGIInputWrapper.__init__', kind='while',
    havoc={'self.buffSize': 'int', 'self.buffer._data': 'bytes',
           'self.buffer._at': 'int',
           'self.input_stream.at': 'int', 'self.input_stream.was': 'int',
           'self.input_stream.taken': 'int'}, inv=filling, after=filled)


@proof('construction', _uses=[SOURCE], _loops=[FILL],
       body=B, cap=Int(1, 9), length=Opt(Int(0, None, corners=[
           0, 1, 5, 30, 40])), seek=N)
def construct(k, body, cap, length, seek):
    src = Source(body, cap)
    w = WSGIInputWrapper(env(src, None if length is None else str(length)),
                         seek)
    k.ensures("at the start", w.tell() == 0)
    if length is not None:
        k.ensures("takes no more than is declared", src.taken <= length,
                  src.taken, length)


# -- any state of a wrapper -------------------------------------------------------

SAMPLE = WSGIInputWrapper({'wsgi.input': io.BytesIO(b'')})
SHAPE = set(vars(SAMPLE)) == set([
    'input_stream', 'inputLength', 'pos', 'buffer', 'buffSize'])  # noqa


def declared_end(k, src, w):
    n = len(src.body)
    if w.inputLength is None:
        return n
    return k.ite(w.inputLength < n, w.inputLength, n)


def valid(k, w, src):
    """the invariant of a wrapper around this source"""
    end = declared_end(k, src, w)
    r = [
        ("the source is within the declared length", k.And(
            src.at >= 0, src.at <= end)),
        ("the buffer is the start of the body", k.And(
            w.buffSize >= 0, w.buffSize <= src.at,
            w.buffer.getvalue() == src.body[:w.buffSize])),
        ("the position is not negative", w.pos >= 0),
        ("in the buffer they are aligned", k.Implies(
            w.pos <= w.buffSize, k.And(src.at == w.buffSize,
                                       w.buffer.tell() == w.pos))),
        ("after the buffer the source is at the position or all is read",
         k.Implies(w.pos > w.buffSize, k.And(
             w.buffer.tell() == w.buffSize,
             k.Or(src.at == w.pos, k.And(src.at == end, w.pos > end)))))]
    if w.input_stream is None:
        r.append(("the source is dropped at the end", src.at == end))
    else:
        r.append(("the source is kept", w.input_stream is src))
    if w.inputLength is not None:
        r.append(("never asked beyond", src.taken <= w.inputLength))
    return r


def state(k, body, cap, length, buffered, pos, beyond, gone):
    if not SHAPE:
        k.giveup("WSGIInputWrapper has other fields")
    src = Source(body, cap)
    n = len(body)
    k.requires(buffered <= n)
    end = n
    if length is not None:
        k.requires(buffered <= length)
        end = k.ite(length < n, length, n)
    if pos <= buffered:
        k.requires(k.Not(beyond))
        at = buffered
    elif beyond:
        k.requires(pos > end)
        at = end
    else:
        at = pos
    src.at = at
    src.taken = at
    b = io.BytesIO(body[:buffered])
    b.seek(k.ite(pos < buffered, pos, buffered))
    w = k.new(WSGIInputWrapper, input_stream=None if gone else src,
              inputLength=length, pos=pos, buffer=b, buffSize=buffered)
    w.source = src
    k.put('src', src)
    for name, c in valid(k, w, src):
        k.requires(c)
    return src, w


STATE = dict(body=B, cap=Int(1, 9), length=Opt(Int(0, None, corners=[
    0, 1, 5, 30, 40])), buffered=Int(0, None, corners=[0, 1, 5, 10]),
    pos=N, beyond=Choice([False, True]), gone=Choice([False, True]))


def still_valid(k, w, src):
    for name, c in valid(k, w, src):
        k.ensures("afterwards " + name, c)


def read_result(k, r, w, src, pos, n):
    end = declared_end(k, src, w)
    m = len(r)
    return [
        ("the next bytes of the body", r == src.body[pos:pos + m]),
        ("no more than asked for, none beyond the end", k.And(
            m <= n, k.Or(m == 0, pos + m <= end))),
        ("nothing only at the end", k.Implies(k.And(n > 0, pos < end),
                                              m > 0)),
        ("the position", w.pos == pos + m)]


@proof('read', _uses=[SOURCE], n=N, **STATE)
def read(k, body, cap, length, buffered, pos, beyond, gone, n):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    r = w.read(n)
    k.adjacent(body, pos, buffered, w.tell())
    for name, c in read_result(k, r, w, src, pos, n):
        k.ensures(name, c, r)
    k.ensures("tell", w.tell() == w.pos)
    still_valid(k, w, src)


def moved(k, self, n):
    src = k.get('src')
    self.was = self.pos
    self.pos = k.fresh('int', 'pos')
    k.requires(self.pos >= self.was)
    at = k.fresh('int', 'at')
    self.buffer.seek(k.ite(self.pos < self.buffSize, self.pos,
                           self.buffSize))
    k.requires(at >= src.at)
    src.at = at
    src.taken = k.fresh('int', 'taken')
    self.input_stream = src if k.split(k.fresh('bool', 'more')) else None


def read_post(k, r, self, n):
    src = k.get('src')
    cs = [c for name, c in read_result(k, r, self, src, self.was, n)]
    cs = cs + [c for name, c in valid(k, self, src)]
    return k.And(*cs)


def bytes_read(k, self, n):
    return k.sub(k.get('src').body, self.was, self.pos)


READ_C = Contract(WSGIInputWrapper.read, bytes_read, modifies=moved,
                  post=read_post, pre=lambda k, self, n: k.And(n >= 0, *[
                      c for name, c in valid(k, self, k.get('src'))]),
                  checked_by='H04 read')


def joins(k, L):
    k.adjacent(k.get('src').body, k.get('pos'), L.self.was, L.self.pos)


def reading(k, L):
    w = L.self
    src = k.get('src')
    pos = k.get('pos')
    return valid(k, w, src) + [
        ("so far", k.And(w.pos >= pos, k.joined(L.result, 'bytes') ==
                         k.sub(src.body, pos, w.pos))),
        ("not beyond", k.Or(w.pos == pos, w.pos <= declared_end(
            k, src, w)))]


def maybe_source(k):
    return k.get('src') if k.split(k.fresh('bool')) else None


STREAM = {'self.pos': 'int', 'self.buffer._at': 'int', 'self.was': 'int',
          'self.source.at': 'int', 'self.source.taken': 'int',
          'self.input_stream': maybe_source}


@proof('readall', _uses=[READ_C], _loops=[LoopSpec(
    'WSGIInputWrapper.readall', kind='while', inv=reading, after=joins,
    havoc=dict(STREAM, result='joinbytes'))], **STATE)
def readall(k, body, cap, length, buffered, pos, beyond, gone):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    k.put('pos', pos)
    r = w.readall()
    end = declared_end(k, src, w)
    k.ensures("the rest of the body", r == body[pos:k.ite(
        pos < end, end, pos)], r)
    k.ensures("tell", w.tell() == k.ite(pos < end, end, pos))
    still_valid(k, w, src)


def all_read(k, self):
    moved(k, self, 0)


def readall_post(k, r, self):
    src = k.get('src')
    end = declared_end(k, src, self)
    return k.And(
        self.pos == k.ite(self.was < end, end, self.was),
        *[c for name, c in valid(k, self, src)])


READALL_C = Contract(
    WSGIInputWrapper.readall, lambda k, self: bytes_read(k, self, 0),
    modifies=all_read, post=readall_post, checked_by='H04 readall',
    pre=lambda k, self: k.And(*[
        c for name, c in valid(k, self, k.get('src'))]))


@proof('read of a negative size or None', _uses=[READALL_C],
       n=Choice([-1, None, -2, -100]), **STATE)
def read_rest(k, body, cap, length, buffered, pos, beyond, gone, n):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    r = w.read(n)
    end = declared_end(k, src, w)
    k.ensures("the rest of the body", r == body[pos:k.ite(
        pos < end, end, pos)], r)
    k.ensures("tell", w.tell() == k.ite(pos < end, end, pos))
    still_valid(k, w, src)


@proof('readinto', _uses=[READ_C], n=Int(0, None, corners=[0, 1, 2, 5, 40]),
       **STATE)
def readinto(k, body, cap, length, buffered, pos, beyond, gone, n):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    k.requires(n < 10000)
    b = bytearray(n)
    m = w.readinto(b)
    got = iomodel.content(b)
    k.ensures("room is not exceeded", k.And(m >= 0, m <= n,
                                            len(got) == n), m)
    for name, c in read_result(k, got[:m], w, src, pos, n):
        k.ensures(name, c, got)
    still_valid(k, w, src)


def skipping(k, L):
    w = L.self
    src = k.get('src')
    pos = k.get('pos')
    return valid(k, w, src) + [
        ("forward, not beyond", k.And(w.pos >= pos, k.Or(
            w.pos == pos, w.pos <= declared_end(k, src, w)),
            w.pos <= L.new_pos))]


@proof('seek', _uses=[READ_C], _loops=[LoopSpec(
    'WSGIInputWrapper.seek', kind='while', inv=skipping,
    havoc=dict(STREAM))], offset=Int(None, None, corners=[
        -1, 0, 1, 3, 10, 45]), whence=Choice([0, 1, 2, 3]), **STATE)
def seek(k, body, cap, length, buffered, pos, beyond, gone, offset, whence):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    k.put('pos', pos)
    want = offset
    if whence == 1:
        want = pos + offset
    elif whence == 2 and length is not None:
        want = length + offset
    possible = k.And(
        pos <= buffered, want >= 0, whence < 3,
        k.Or(whence != 2, length is not None))
    try:
        w.seek(offset, whence)
    except IOError:
        k.ensures("refused only outside the buffered part, for an unknown "
                  "end or mode, or a negative position", k.Not(possible))
        k.ensures("a refused seek does not move", w.tell() == pos)
        still_valid(k, w, src)
        return
    k.ensures("moves there", k.And(w.tell() == want, want >= 0))
    still_valid(k, w, src)


def in_line(k, L):
    w = L.self
    src = k.get('src')
    pos = k.get('pos')
    line = k.joined(L.line, 'bytes')
    return valid(k, w, src) + [
        ("so far", k.And(w.pos >= pos, line == k.sub(
            src.body, pos, w.pos))),
        ("not beyond", k.Or(w.pos == pos, w.pos <= declared_end(
            k, src, w))),
        ("within the limit", k.Or(L.limit < 0, len(L.line) <= L.limit)),
        ("no line end yet", k.forall(
            pos, w.pos, lambda j: k.code(src.body, j) != 10))]


@proof('readline', _uses=[READ_C], _loops=[LoopSpec(
    'WSGIInputWrapper.readline', kind='while', inv=in_line, after=joins,
    havoc=dict(STREAM, line='bchars'))], limit=Int(-1, None, corners=[
        -1, 0, 1, 3, 10]), **STATE)
def readline(k, body, cap, length, buffered, pos, beyond, gone, limit):
    src, w = state(k, body, cap, length, buffered, pos, beyond, gone)
    k.put('pos', pos)
    r = w.readline(limit)
    k.adjacent(body, pos, getattr(w, 'was', pos), w.tell())
    end = declared_end(k, src, w)
    m = len(r)
    k.ensures("the next bytes", k.And(
        w.tell() == pos + m, r == k.sub(body, pos, w.tell()) if m > 0
        else True, k.Or(m == 0, pos + m <= end)), r)
    k.ensures("one line", k.forall(
        0, m - 1, lambda j: k.code(body, pos + j) != 10), r)
    k.ensures("within the limit", k.Or(limit < 0, m <= limit))
    if k.And(m != limit, pos + m < end):
        k.ensures("up to its end", k.And(m > 0, k.code(body, pos + m - 1) ==
                                         10))
    still_valid(k, w, src)


# -- chunks -----------------------------------------------------------------------

CSAMPLE = ChunkedReader(io.BytesIO(b''))
CSHAPE = has(ChunkedReader, '_read_chunksize', 1) and set(
    vars(CSAMPLE)) == set(['src', 'chunk_left', 'eof'])


def next_header(k, self):
    """the header of a chunk: its size and where its data starts.  That the
    text of the header is read so is checked to a bound only"""
    src = self.src
    at = k.fresh('int', 'at')
    k.requires(k.And(at >= src.at, at <= len(src.body)))
    src.at = at
    size = k.fresh('int', 'size')
    k.requires(size >= 0)
    self.chunk_left = size
    self.eof = k.split(size == 0)
    self.headed = at


HEADER_C = Contract('pyslet.http.messages:ChunkedReader._read_chunksize',
                    'none', modifies=next_header,
                    checked_by='H04 chunked bodies, bounded')


@proof('a chunk is read to its end', _uses=[SOURCE, HEADER_C], body=B,
       cap=Int(1, 9), at=Int(0, None, corners=[0, 1, 4]), left=Int(
           -1, None, corners=[-1, 0, 1, 3, 10, 100]), eof=Choice(
               [False, True]), n=Int(0, 10000, corners=[0, 1, 3, 20]))
def chunk(k, body, cap, at, left, eof, n):
    if not CSHAPE:
        k.giveup("ChunkedReader has other fields")
    k.requires(k.And(at <= len(body), k.Implies(eof, left == 0)))
    src = Source(body, cap)
    src.at = at
    src.taken = at
    r = k.new(ChunkedReader, src=src, chunk_left=left, eof=eof)
    k.root(r)
    b = bytearray(n)
    try:
        m = r.readinto(b)
    except (grammar.BadSyntax, ParserError):
        k.ensures("only a header is refused", k.And(left <= 0, k.Not(eof)))
        return
    if eof:
        k.ensures("nothing follows the last chunk", k.And(m == 0,
                                                          src.at == at))
        return
    got = iomodel.content(b)
    k.ensures("room is not exceeded", k.And(m >= 0, m <= n, len(got) == n))
    if left > 0:
        k.ensures("the next bytes of the chunk", k.And(
            got[:m] == body[at:at + m], src.at == at + m))
        k.ensures("within the chunk", k.And(
            m <= left, r.chunk_left == left - m, src.taken <= at + left))
        k.ensures("some unless the connection ended", k.Or(
            m > 0, n == 0, at == len(body)))
    else:
        k.ensures("after the header its data", k.Or(
            m == 0, got[:m] == body[src.at - m:src.at]))
        k.ensures("at the end nothing", k.Implies(r.eof, m == 0))


# -- against models, natively ------------------------------------------------------

class Trickle(object):
    """a connection handing out what it likes; taken counts what it gave"""

    def __init__(self, data, rng):
        self.data, self.at, self.rng, self.taken = data, 0, rng, 0

    def read(self, n=-1):
        rest = len(self.data) - self.at
        self.taken = max(self.taken, len(self.data) + 1 if n < 0
                         else self.at + n)
        n = rest if n < 0 else min(n, rest)
        if n and self.rng.random() < .5:
            n = self.rng.randint(1, n)
        self.at += n
        return self.data[self.at - n:self.at]

    def readline(self):
        i = self.data.find(b'\n', self.at)
        i = len(self.data) if i < 0 else i + 1
        r = self.data[self.at:i]
        self.at = i
        return r


def gen_body(rng):
    n = rng.choice([0, 1, 2, 3, 7, 20, 60, 9000])
    body = bytes(rng.choice(b'ab\n\r\x00') for i in range(n))
    extra = bytes(rng.choice(b'XY\n') for i in range(rng.randint(0, 20)))
    seek = rng.choice([0, 1, 2, 5, 16, 100, 8192])
    ops = []
    for i in range(rng.randint(1, 12)):
        op = rng.choice(['read', 'read', 'seek', 'line', 'into', 'cur',
                         'end'])
        ops.append((op, rng.choice([0, 1, 2, 3, 5, 10, 30, 8192, 10000])))
    ops.append((rng.choice(['rest', 'none', 'lines', 'iter', 'all',
                            'hint']), rng.choice([0, 1, 5, 20])))
    mode = rng.choice(['exact', 'exact', 'eof', 'short', 'chunked',
                       'identity'])
    return body, extra, seek, ops, mode, rng


def chunked(body, rng):
    out, i = [], 0
    while i < len(body):
        n = rng.randint(1, max(1, min(len(body) - i, rng.choice(
            [3, 17, 9000]))))
        head = ('%x' if rng.random() < .5 else '%X') % n
        if rng.random() < .3:
            head = '00' + head
        head += rng.choice(['', '', '; name=value', ' ;a="q;\\"z"', ';x=y;z=1'])
        out.append(head.encode() + b'\r\n' + body[i:i + n] + b'\r\n')
        i += n
    out.append(b'0' + rng.choice([b'', b';a=b', b'00']) + b'\r\n')
    if rng.random() < .4:
        out.append(b'Trailer: 1\r\nOther: x\r\n')
    out.append(b'\r\n')
    return b''.join(out)


@bounded('a body however it is read', 'generated bodies, connections and '
         'calls', case=Gen(gen_body), _samples=8000)
def bodies(k, case):
    body, extra, seek_size, ops, mode, rng = case
    e = {}
    data = body + extra
    end = len(body)
    if mode in ('exact', 'identity'):
        e['CONTENT_LENGTH'] = str(len(body))
        if mode == 'identity':
            e['HTTP_TRANSFER_ENCODING'] = 'Identity'
        if not body:
            mode = 'exact'
    elif mode == 'short':
        e['CONTENT_LENGTH'] = str(len(data) + 10)
        end = len(data)
    elif mode == 'eof':
        end = len(data)
    else:
        e['HTTP_TRANSFER_ENCODING'] = 'chunked'
        e['CONTENT_LENGTH'] = '3'
        wire = chunked(body, rng)
        data = wire + extra
    src = Trickle(data, rng)
    e['wsgi.input'] = src
    w = WSGIInputWrapper(e, seek_size)
    body = data[:end] if mode != 'chunked' else body
    buffered = min(seek_size, end if mode != 'short' else end + 10)
    pos, lost = 0, False
    for op, n in ops:
        if op in ('seek', 'cur', 'end'):
            want = {'seek': n, 'cur': pos + n - 10, 'end': (
                len(body) + (10 if mode == 'short' else 0)) - n}[op]
            arg = {'seek': (n,), 'cur': (n - 10, 1), 'end': (-n, 2)}[op]
            ok = w.seekable()
            k.ensures("seekable in the buffered part",
                      ok == (pos <= min(buffered, len(body))), pos)
            try:
                w.seek(*arg)
            except IOError:
                k.ensures("refused only when it may be", not ok or want < 0
                          or (op == 'end' and mode in ('eof', 'chunked')),
                          pos, want)
                want = pos
            pos = want
        elif op in ('read', 'into'):
            if op == 'read':
                r = w.read(n)
            else:
                b = bytearray(b'\xee' * n)
                m = w.readinto(b)
                r = bytes(b[:m])
            k.ensures("the next bytes", r == body[pos:pos + len(r)] and
                      len(r) <= n, op, n, r)
            k.ensures("some", len(r) > 0 or n == 0 or pos >= len(body))
            pos += len(r)
        elif op == 'line':
            limit = n if n % 2 else -1
            r = w.readline(limit)
            want = io.BytesIO(body[pos:]).readline(limit)
            k.ensures("the next line", r == want, r, want)
            pos += len(r)
        else:
            rest = body[pos:]
            lines = io.BytesIO(rest).readlines()
            if op == 'rest':
                k.ensures("the rest", w.read() == rest)
            elif op == 'none':
                k.ensures("the rest", w.read(None) == rest)
            elif op == 'all':
                k.ensures("the rest", w.readall() == rest)
            elif op == 'lines':
                k.ensures("all lines", w.readlines() == lines)
            elif op == 'iter':
                k.ensures("each line", [x for x in w] == lines)
            else:
                got = w.readlines(n)
                k.ensures("lines to the hint", got == lines[:len(got)] and (
                    got == lines or sum(map(len, got)) >= n), n, got)
                rest = b''.join(got)
            pos += len(rest)
        k.ensures("position", w.tell() == pos, w.tell(), pos)
    if mode in ('exact', 'identity') and 'CONTENT_LENGTH' in e:
        k.ensures("nothing beyond the declared end", src.taken <= end,
                  src.taken, end)
    if mode == 'chunked':
        k.ensures("stops at the last chunk", src.at <= len(wire), src.at)
        w.read()
        k.ensures("having read it", src.at == len(wire))


def gen_bad(rng):
    return rng.choice([b'', b'x\r\n', b'-5\r\nabcde\r\n0\r\n\r\n', b'\r\n',
                       b'+5\r\nabcde\r\n0\r\n\r\n', b'g\r\n', b'-\r\n',
                       b'0x5\r\nabcde\r\n0\r\n\r\n', b' ;a=b\r\n',
                       b'1_0\r\nabcde\r\n0\r\n\r\n'])


@bounded('a chunk header without a size is refused', 'ten texts',
         case=Gen(gen_bad), _samples=40)
def bad_header(k, case):
    r = ChunkedReader(io.BytesIO(case))
    try:
        got = r.read(10)
    except (grammar.BadSyntax, ParserError):
        return
    # a sign or prefix is no part of the number: what is read is that number
    k.ensures("refused", False, got)


class Blocking(io.RawIOBase):
    """a destination taking what it likes"""

    def __init__(self, rng):
        self.got, self.rng = [], rng

    def writable(self):
        return True

    def write(self, b):
        if self.rng.random() < .2:
            return None
        n = self.rng.randint(1, len(b)) if len(b) else 0
        self.got.append(bytes(b[:n]))
        return n


def gen_message(rng):
    n = rng.choice([0, 1, 2, 20, 500, 8192, 20000])
    body = bytes(rng.choice(b'ab\n\r\x000;') for i in range(n))
    return body, rng.choice(['chunked', 'gzip, chunked', None]), \
        rng.random() < .5, rng


class Seekless(io.RawIOBase):
    def __init__(self, data):
        self.src = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        return self.src.read(n)


@bounded('a message body sent is the body received', 'generated bodies and '
         'splits', case=Gen(gen_message), _samples=1500)
def message(k, case):
    body, encoding, own, rng = case
    m = messages.Request(entity_body=Seekless(body) if encoding else
                         io.BytesIO(body))
    m.set_method('POST')
    m.set_request_uri('/x')
    if encoding:
        m.set_transfer_encoding(encoding)
    else:
        m.set_content_length(len(body))
    m.start_sending()
    wire = [m.send_start(), m.send_header()]
    while True:
        data = m.send_body()
        if not data:
            break
        wire.append(data)
    wire = b''.join(wire)
    if encoding == 'chunked' and own:
        wire = wire[:wire.index(b'\r\n\r\n') + 4] + chunked(body, rng)
    extra = b'EXTRA\r\n\r\n'
    src = wire + extra
    dst = Blocking(rng)
    got = messages.Request(entity_body=dst)
    got.start_receiving()
    at = 0
    while True:
        mode = got.recv_mode()
        if mode is None:
            break
        if mode == got.RECV_LINE:
            i = src.index(b'\r\n', at) + 2
            got.recv(src[at:i])
            at = i
        elif mode == got.RECV_HEADERS:
            lines = []
            while True:
                i = src.index(b'\r\n', at) + 2
                lines.append(src[at:i])
                at = i
                if lines[-1] == b'\r\n':
                    break
            got.recv(lines)
        elif mode == 0:
            got.recv(None)
        else:
            k.ensures("a length is known", mode > 0, mode)
            n = rng.randint(1, mode)
            got.recv(src[at:at + n])
            at += n
    k.ensures("the body", b''.join(dst.got) == body)
    k.ensures("and no more", at == len(wire), at, len(wire))
