"""S02: pipes."""
import errno
import io
import random
import threading
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Contract, Gen, Int, Bytes
from pyslet.streams import Pipe


def gen_case(rng):
    cap = rng.choice([1, 2, 3, 5, 10, 64])
    ops = []
    for i in range(rng.randint(1, 30)):
        what = rng.choice('wwwwbbvrrriimmace')
        if what == 'e' and rng.random() < .7:
            what = 'w'
        n = rng.choice([0, 1, 2, cap - 1, cap, cap + 1, rng.randint(
            0, 2 * cap)])
        if what in 'wbv' and rng.random() < .01:
            # larger than any buffer of the library
            n = io.DEFAULT_BUFFER_SIZE * rng.choice([1, 2]) + rng.choice(
                [-1, 0, 0, 1])
            ops.append((what, (bytes(rng.choice(b'\r\n\r\nabcdef') for j in range(
                97)) * (n // 97 + 1))[:n]))
            if rng.random() < .7:
                ops += [('e',), ('a',)]
        elif what in 'wbv':
            ops.append((what, bytes(rng.choice(b'\r\n\r\nabcdef') for j in range(
                min(n, 40)))))
        elif what in 'ri':
            ops.append((what, n))
        elif what == 'm':
            ops.append((what, rng.choice([b'\r\n', b'\n', b'ab', b'a'])))
        else:
            ops.append((what,))
    return cap, ops


def observe(k, p, cap, data, eof, op):
    k.ensures("the amount buffered", p.buffered() == len(data), op,
              p.buffered(), len(data))
    k.ensures("empty", p.empty() == (not data), op)
    k.ensures("a read will not block", bool(p.canread()) == bool(
        data or eof), op)
    if not eof:
        k.ensures("the free space", p.canwrite() == max(0, cap - len(data)),
                  op, p.canwrite(), len(data))


def take(k, got, want, data, eof, op):
    """a read of up to want bytes"""
    if got is None:
        k.ensures("blocked only when empty", not data and not eof, op)
        return b''
    if not got and want:
        k.ensures("end of file only at the end", eof and not data, op, data)
    k.ensures("the next bytes", len(got) <= want and
              bytes(data[:len(got)]) == got, op, got, data)
    del data[:len(got)]


@bounded('a pipe', 'generated histories', case=Gen(gen_case), _samples=8000)
def pipe(k, case):
    cap, ops = case
    p = Pipe(bsize=cap, rblocking=False, wblocking=False)
    data = bytearray()
    eof = False
    for op in ops:
        what = op[0]
        if what in 'wbv':
            full = len(data) >= cap
            arg = op[1] if what == 'w' else bytearray(
                op[1]) if what == 'b' else memoryview(bytearray(op[1]))
            try:
                n = p.write(arg)
            except IOError as e:
                k.ensures("refused after end of file", eof and
                          e.errno == errno.EPIPE, op)
                continue
            k.ensures("accepted", not eof, op)
            if full:
                k.ensures("nothing is accepted when full", n is None, op, n)
                n = 0
            elif what == 'b':
                k.ensures("as much as there is room for", n == min(
                    len(op[1]), cap - len(data)), op, n)
            else:
                k.ensures("all of it", n == len(op[1]), op, n)
            if what == 'b':
                # the pipe keeps no reference to the caller's buffer
                arg[:] = b'?' * len(arg)
            data.extend(op[1][:n])
        elif what == 'r':
            take(k, p.read(op[1]), op[1], data, eof, op)
        elif what == 'i':
            b = bytearray(b'.' * op[1])
            n = p.readinto(b)
            if n is not None:
                k.ensures("the rest of the buffer is kept", len(b) == op[1] and
                          b[n:] == b'.' * (op[1] - n), op)
            take(k, None if n is None else bytes(b[:n]), op[1], data, eof, op)
        elif what == 'm':
            i = data.find(op[1])
            try:
                got = p.readmatch(op[1])
            except IOError as e:
                k.ensures("fails only when full", i < 0 and not eof and
                          e.errno == errno.ENOBUFS and len(data) >= cap, op)
                continue
            if i >= 0:
                i += len(op[1])
                k.ensures("up to the first match", got == bytes(data[:i]), op,
                          got)
                del data[:i]
            else:
                k.ensures("no match", got == b'' if eof else
                          got is None and len(data) < cap, op, got)
        elif what == 'a' and eof:
            got = p.readall()
            k.ensures("all that is left", got == bytes(data), op, got)
            data = bytearray()
            k.ensures("still does not block", not p.readblocking())
        elif what == 'e':
            p.write_eof()
            eof = True
        observe(k, p, cap, data, eof, op)


@bounded('a pipe between two threads', 'sampled sizes and schedules',
         seed=Int(0, 10 ** 9), _samples=400)
def threads(k, seed):
    rnd = random.Random(seed)
    cap = rnd.choice([1, 2, 5, 64])
    p = Pipe(bsize=cap, timeout=30)
    data = bytes(rnd.choice(b'\r\nabc') for i in range(rnd.randint(0, 200)))
    style = [rnd.random() for i in range(1000)]
    trouble = []

    def writer():
        try:
            left, i = data, 0
            while left:
                n = 1 + int(style[i] * 2 * cap)
                i += 1
                if style[i] < .5:
                    n = p.write(left[:n])
                else:
                    n = p.write(bytearray(left[:n]))
                if n is None or n < 1:
                    trouble.append(n)
                    break
                left = left[n:]
                # (a reader that looks for a match would wait for more)
                if style[i] < .1 and cap < 5:
                    p.flush()
                    if not p.empty():
                        trouble.append('flush')
            p.write_eof()
        except Exception as e:
            trouble.append(e)
            p.write_eof()
    t = threading.Thread(target=writer)
    t.daemon = True
    t.start()
    got, j = [], 500
    try:
        while True:
            j = 500 + (j + 1) % 500
            if style[j] < .1 and cap > 4:
                try:
                    x = p.readmatch(b'c')
                    if x:
                        got.append(x)
                    continue
                except IOError as e:
                    # nothing found in a full buffer
                    k.ensures("full", e.errno == errno.ENOBUFS, e)
            if style[j] > .98:
                got.append(p.readall())
                break
            x = p.read(1 + int(style[j] * 8))
            if not x:
                break
            got.append(x)
    except Exception as e:
        trouble.append(e)
    t.join(60)
    k.ensures("nothing goes wrong", not trouble and not t.is_alive(),
              str(trouble))
    k.ensures("every byte once and in order", b''.join(got) == data, got)
    k.ensures("all accounted for", p.buffered() == 0)


# -- each operation, in any state ---------------------------------------------------
#
# A pipe holds any number of non-empty strings: `head`, the first of them,
# and `tail`, all the others together.  What is in the pipe is head + tail
# from `rpos` on.

class Monitor(object):
    """its lock; while waiting for it the other side uses the pipe: it writes
    more, or it reads some, and leaves the pipe as the operations below do"""

    def __init__(self, k, p):
        self.k = k
        self.p = p

    def wait(self, timeout=None):
        k, p = self.k, self.p
        before, eof = contents(p), p._eof
        fill(k, p)
        if p.side == 'w':
            more = k.fresh('bytes', 'taken')
            p.taken = p.taken + more
            k.assume(before == more + contents(p))
            # the reader does not end the file
            return True
        more = k.fresh('bytes', 'arrived')
        k.assume(contents(p) == before + more)
        p.arrived = p.arrived + more
        p._eof = k.split(k.fresh('bool', 'eof'))
        k.assume(k.Implies(eof, k.And(p._eof, len(more) == 0)))
        p.wstate = k.fresh('int', 'wstate')
        return True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def notify_all(self):
        pass

    def notify(self, n=1):
        pass


class Chunks(object):
    """the list of the strings; `more`: are there others after the first?"""

    def __init__(self, k, head, tail, more):
        self.k = k
        self.head = head
        self.tail = tail
        self.more = more

    def __len__(self):
        # only whether it is empty is known
        n = self.k.fresh('int', 'strings')
        self.k.assume(n >= 1)
        self.k.assume(self.k.Iff(n > 1, self.more))
        return n

    def __bool__(self):
        return True

    def __getitem__(self, i):
        k = self.k
        if isinstance(i, slice):
            if i.start != 1 or i.stop is not None or i.step is not None:
                raise NotImplementedError
            if not k.split(self.more):
                return []
            first, rest = k.fresh('bytes', 'head'), k.fresh('bytes', 'tail')
            more = k.fresh('bool', 'more')
            k.assume(k.And(self.tail == first + rest, len(first) >= 1,
                           k.Iff(more, len(rest) >= 1)))
            return Chunks(k, first, rest, more)
        if i != 0:
            raise NotImplementedError
        return self.head

    def __setitem__(self, i, v):
        if i != 0:
            raise NotImplementedError
        self.head = v

    def append(self, b):
        self.k.ensures("no empty string in the buffer", len(b) >= 1)
        self.tail = self.tail + b
        self.more = True

    def __iter__(self):
        """for their concatenation"""
        return [self.head, self.tail]


class AnyPipe(Pipe):
    def __init__(self, k, size, eof, side='r', block=False):
        self.name = 'pipe'
        self.max = size
        self.timeout = None
        self.rblocking = self.wblocking = block
        self.side = side
        self.taken = self.arrived = b''     # by the other side, meanwhile
        self.lock = Monitor(k, self)
        self.rflag = None
        self.wstate = self.rstate = 0
        self._eof = eof
        fill(k, self)


def fill(k, p):
    """any contents"""
    if k.split(k.fresh('bool', 'empty')):
        p.buffer = []
        p.bsize = p.rpos = 0
    else:
        head, tail = k.fresh('bytes', 'head'), k.fresh('bytes', 'tail')
        more = k.fresh('bool', 'more')
        p.buffer = Chunks(k, head, tail, more)
        p.rpos = k.fresh('int', 'rpos')
        p.bsize = len(head) + len(tail)
        k.assume(k.And(p.rpos >= 0, p.rpos < len(head),
                       k.Iff(more, len(tail) >= 1)))


def contents(p):
    """the read position is within the first string, if there is one"""
    if isinstance(p.buffer, Chunks):
        return p.buffer.head[p.rpos:] + p.buffer.tail
    if not p.buffer:
        return b''
    return p.buffer[0][p.rpos:] + b''.join(p.buffer[1:])


def valid(k, p):
    """the invariant of a pipe"""
    if isinstance(p.buffer, Chunks):
        b = p.buffer
        size, first = len(b.head) + len(b.tail), len(b.head)
        k.ensures("what more there is", k.Iff(b.more, len(b.tail) >= 1))
    else:
        size = len(b''.join(p.buffer))
        first = len(p.buffer[0]) if p.buffer else 0
    k.ensures("the size of the buffer", p.bsize == size)
    k.ensures("the read position", k.And(p.rpos >= 0, k.Or(
        p.rpos < first, k.And(p.rpos == 0, size == 0))))


SIZE = Int(1, 2 ** 40)
BOOL = Choice([False, True])


def buffer(k):
    p = k.get('pipe')
    fill(k, p)
    return p.buffer


STATE = {'self.buffer': buffer, 'self.bsize': lambda k: k.get('pipe').bsize,
         'self.rpos': lambda k: k.get('pipe').rpos}


def invariant(k, p):
    """as `valid`"""
    if isinstance(p.buffer, Chunks):
        b = p.buffer
        return k.And(p.bsize == len(b.head) + len(b.tail), p.rpos >= 0,
                     p.rpos < len(b.head), k.Iff(b.more, len(b.tail) >= 1))
    if not p.buffer:
        return k.And(p.bsize == 0, p.rpos == 0)
    n = len(p.buffer[0])
    return k.And(p.bsize == len(b''.join(p.buffer)), p.rpos >= 0, p.rpos < n)


def full_inv(k, L):
    p = L.self
    return [("the pipe", invariant(k, p)),
            ("the free space", L.wlen == p.max - p.bsize + p.rpos),
            ("what was there is there or taken",
             k.get('before') == p.taken + contents(p)),
            ("not ended", k.Not(p._eof))]


def empty_inv(k, L):
    p = L.self
    return [("the pipe", invariant(k, p)),
            ("what is there was there or arrived",
             contents(p) == k.get('before') + p.arrived),
            ("nothing after the end of the file", k.Implies(
                k.get('eof'), k.And(p._eof, len(p.arrived) == 0)))]


@proof('writing a byte string to any pipe', _native=False, size=SIZE,
       b=Bytes(), block=BOOL, _loops=[LoopSpec(
           'Pipe.write', inv=full_inv, maybe={'twait': lambda k: None},
           havoc=dict(STATE, wlen='int', **{'self.taken': 'bytes'}))])
def write(k, size, b, block):
    p = k.put('pipe', AnyPipe(k, size, False, 'w', block))
    before = k.put('before', contents(p))
    n = p.write(b)
    if n is None:
        k.ensures("only a pipe that does not block", not block)
        k.ensures("nothing only when full", len(before) >= size)
        k.ensures("nothing is added", p.taken + contents(p) == before)
    else:
        k.ensures("there was room", len(contents(p)) - len(b) < size)
        k.ensures("all of it", n == len(b))
        k.ensures("it follows what was there",
                  p.taken + contents(p) == before + b)
    valid(k, p)
    k.ensures("the amount buffered", p.buffered() == len(contents(p)))


@proof('reading from any pipe', _native=False, size=SIZE, eof=BOOL,
       n=Int(0, 2 ** 40), block=BOOL, _loops=[LoopSpec(
           'Pipe.readinto', inv=empty_inv, maybe={'twait': lambda k: None},
           havoc=dict(STATE, **{'self.arrived': 'bytes', 'self._eof': 'bool',
                                'self.wstate': 'int'}))])
def read(k, size, eof, n, block):
    p = k.put('pipe', AnyPipe(k, size, eof, 'r', block))
    before = k.put('before', contents(p))
    k.put('eof', eof)
    got = p.read(n)
    if got is None:
        k.ensures("nothing yet only when empty", k.And(
            len(before) == 0, not eof, not block))
        k.ensures("nothing is taken", contents(p) == before + p.arrived)
    else:
        k.ensures("no more than asked for", len(got) <= n)
        k.ensures("what follows stays",
                  before + p.arrived == got + contents(p))
        k.ensures("end of file only at the end", k.Or(
            n == 0, len(got) > 0, k.And(p._eof, len(contents(p)) == 0)))
    valid(k, p)
    k.ensures("the amount buffered", p.buffered() == len(contents(p)))
    k.ensures("empty", p.empty() == (len(contents(p)) == 0))


# -- reading up to a match: strings as intervals of all that is ever written ---------
#
# match(i): the bytes from position i on are those looked for.  `x` is any
# one position, for "there is none before".

class Text(object):
    def __init__(self, k, start, end):
        self.k = k
        self.start = start
        self.end = end

    def __len__(self):
        return self.end - self.start

    def __getitem__(self, i):
        k = self.k
        if not isinstance(i, slice) or i.step is not None:
            raise NotImplementedError
        a = self.start + (0 if i.start is None else i.start)
        b = self.end if i.stop is None else self.start + i.stop
        k.ensures("a slice within the string", k.And(
            self.start <= a, a <= b, b <= self.end))
        return Text(k, a, b)

    def find(self, match, start=0):
        k = self.k
        a, n, x = self.start + start, len(match), k.get('x')
        here = k.get('match')
        r = k.fresh('int', 'found')
        if k.split(k.fresh('bool', 'any')):
            k.assume(k.And(r >= a, r + n <= self.end, here(r), k.Not(
                k.And(here(x), x >= a, x < r))))
            return r - self.start
        k.assume(k.Not(k.And(here(x), x >= a, x + n <= self.end)))
        return -1


class Texts(object):
    """consecutive strings, the first of them from start to first"""

    def __init__(self, k, start, first, end):
        self.k = k
        self.start = start
        self.first = first
        self.end = end

    def __len__(self):
        n = self.k.fresh('int', 'strings')
        self.k.assume(self.k.Iff(
            n > 1, self.first < self.end))
        self.k.assume(n >= 1)
        return n

    def __getitem__(self, i):
        k = self.k
        if isinstance(i, slice):
            if i.start != 1 or i.stop is not None or i.step is not None:
                raise NotImplementedError
            if not k.split(self.first < self.end):
                return []
            n = k.fresh('int', 'first')
            k.assume(k.And(n > self.first, n <= self.end))
            return Texts(k, self.first, n, self.end)
        if i != 0:
            raise NotImplementedError
        return Text(k, self.start, self.first)


def some_texts(k, p, start, end):
    """the bytes from start to end, anyhow stored"""
    if k.split(start == end):
        p.buffer = []
        p.rpos = p.bsize = 0
    else:
        a, b = k.fresh('int', 'a'), k.fresh('int', 'b')
        k.assume(k.And(a <= start, start < b, b <= end))
        p.buffer = Texts(k, a, b, end)
        p.rpos = start - a
        p.bsize = end - a


def position(p):
    """the position of the next byte read"""
    return p.buffer.start + p.rpos if isinstance(
        p.buffer, Texts) else p.end


class Lines(Pipe):
    def __init__(self, k, size, eof, block):
        self.name = 'pipe'
        self.max = size
        self.timeout = None
        self.rblocking = block
        self.wblocking = False
        self.lock = Writers(k, self)
        self.rflag = None
        self.wstate = k.fresh('int', 'wstate')
        self.rstate = 0
        self._eof = eof
        self.end = k.fresh('int', 'end')
        start = k.fresh('int', 'start')
        k.assume(start <= self.end)
        some_texts(k, self, start, self.end)


class Writers(Monitor):
    def wait(self, timeout=None):
        k, p = self.k, self.p
        start, end = position(p), p.end
        p.end = k.fresh('int', 'end')
        k.assume(k.And(p.end >= end, k.Implies(p._eof, p.end == end)))
        p._eof = k.Or(p._eof, k.fresh('bool', 'eof'))
        some_texts(k, p, start, p.end)
        p.wstate = p.wstate + 1
        return True


def joined(k, p):
    if isinstance(p.buffer, Texts):
        p.buffer = Texts(k, position(p), p.end, p.end)
        p.bsize = len(p.buffer[0])
        p.rpos = 0


def texts_ok(k, p):
    if isinstance(p.buffer, Texts):
        b = p.buffer
        return k.And(p.rpos >= 0, b.start + p.rpos < b.first, b.end == p.end,
                     b.first <= b.end, p.bsize == b.end - b.start)
    return k.And(p.buffer == [], p.rpos == 0, p.bsize == 0)


def lines_inv(k, L):
    p = L.self
    return [("the pipe", texts_ok(k, p)),
            ("nothing is taken", k.And(
                position(p) == k.get('start'), p.end >= k.get('start'))),
            ("not found", L.pos == -1)]


def some_lines(k):
    p = k.get('pipe')
    p.end = k.fresh('int', 'end')
    k.assume(p.end >= k.get('start'))
    some_texts(k, p, k.get('start'), p.end)
    return p.buffer


JOIN_C = Contract('pyslet.streams:Pipe._consolidate_buffer', 'none',
                  modifies=lambda k, self: joined(k, self),
                  checked_by='S02 joining the strings of any pipe')


@proof('joining the strings of any pipe', _native=False, size=SIZE)
def join(k, size):
    p = AnyPipe(k, size, False)
    before = contents(p)
    p._consolidate_buffer()
    k.ensures("the same", contents(p) == before)
    k.ensures("in one string from the start", k.And(
        p.rpos == 0, len(p.buffer) <= 1))
    valid(k, p)


@proof('reading up to a match from any pipe', _native=False, size=SIZE,
       eof=BOOL, block=BOOL, match=Choice([b'\r\n', b'\n', b'-----']),
       _uses=[JOIN_C], _loops=[LoopSpec(
           'Pipe.readmatch', inv=lines_inv, maybe={'cstate': 'int'},
           havoc={'self.buffer': some_lines, 'self.wstate': 'int',
                  'self.bsize': lambda k: k.get('pipe').bsize,
                  'self.rpos': lambda k: k.get('pipe').rpos,
                  'self.end': lambda k: k.get('pipe').end,
                  'pos': 'int', 'self._eof': 'bool'})])
def readmatch(k, size, eof, block, match):
    k.put('match', k.fun('match', 1, 'bool'))
    x = k.put('x', k.fresh('int', 'x'))
    n = len(match)
    p = k.put('pipe', Lines(k, size, eof, block))
    start = k.put('start', position(p))
    at = k.And(k.get('match')(x), x >= start)
    try:
        got = p.readmatch(match)
    except IOError:
        got = None
        k.ensures("refused when full only", k.And(
            k.Not(p._eof), p.end - start >= size))
    if isinstance(got, Text):
        k.ensures("from the next byte", got.start == start)
        k.ensures("what follows stays", position(p) == got.end)
        k.ensures("up to a match", k.And(
            k.get('match')(got.end - n), got.end - n >= start))
        k.ensures("the first", k.Not(k.And(at, x < got.end - n)))
    else:
        k.ensures("nothing only without one", k.Not(k.And(
            at, x + n <= p.end)))
        k.ensures("nothing is taken", position(p) == start)
        k.ensures("the end only at the end", k.Or(
            got is None, k.And(got == b'', p._eof)))
    k.ensures("the pipe", texts_ok(k, p))
    k.ensures("the amount buffered", p.buffered() == p.end - position(p))


@proof('the space in any pipe', _native=False, size=SIZE, eof=BOOL)
def space(k, size, eof):
    p = AnyPipe(k, size, eof)
    n = len(contents(p))
    k.ensures("the amount buffered", p.buffered() == n)
    k.ensures("empty", k.Iff(p.empty(), n == 0))
    k.ensures("a read will not block", k.Iff(p.canread(), k.Or(eof, n > 0)))
    try:
        room = p.canwrite()
        k.ensures("not after the end of file", not eof)
        k.ensures("the free space", room == k.ite(n < size, size - n, 0))
    except IOError:
        k.ensures("only after the end of file", eof)
    p.write_eof()
    try:
        p.write(b'x')
        k.ensures("nothing follows the end of file", False)
    except IOError:
        pass
    k.ensures("nothing is lost", len(contents(p)) == n)
