"""S01: block-structured streams."""
LEVEL = 'exploration'
import hashlib
import os
from pyvc.kit import bounded, Gen
from pyslet import blockstore
from pyslet.blockstore import BlockStream


# -- a store that only keeps blocks -------------------------------------------

class Value(object):
    def __init__(self, value=None):
        self.value = value

    def set_from_value(self, v):
        self.value = v

    def set_null(self):
        self.value = None


class Block(dict):
    exists = False


class Blocks(object):
    def open(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def new_entity(self):
        return Block(num=Value(), hash=Value())


class Stream(dict):
    """what is committed is kept apart from what is set"""

    def __init__(self):
        self['size'] = Value(0)
        self['modified'] = Value()
        self['md5'] = Value()
        self['Blocks'] = Blocks()
        self.commit()

    def commit(self):
        self.kept = (self['size'].value, self['md5'].value)


class Store(object):
    def __init__(self, block_size):
        self.bs = self
        self.max_block_size = block_size
        self.kept = []      # (num, bytes) by stored block

    def retrieve_blocklist(self, stream):
        out = []
        for num in sorted(self.blocks):
            b = Block(num=Value(num))
            b.exists = True
            out.append(b)
        return iter(out)

    def start(self):
        self.blocks = {}
        return self

    def retrieve_block(self, block):
        return self.blocks[block['num'].value]

    def store_block(self, stream, num, data):
        if num in self.blocks or len(data) > self.max_block_size:
            raise ValueError
        self.blocks[num] = bytes(data)
        b = Block(num=Value(num))
        b.exists = True
        return b

    def update_block(self, block, data):
        if block['num'].value not in self.blocks or \
                len(data) > self.max_block_size:
            raise ValueError
        self.blocks[block['num'].value] = bytes(data)

    def delete_blocks(self, stream, from_num=0):
        for num in list(self.blocks):
            if num >= from_num:
                del self.blocks[num]


# -- histories ----------------------------------------------------------------

def gen_case(rng):
    bs = rng.choice([1, 2, 3, 4, 7, 8, 16, 64])
    top = rng.choice([bs, 2 * bs + 1, 3 * bs, 5 * bs])
    sessions = []
    for i in range(rng.randint(1, 4)):
        mode = rng.choice(['w', 'w+', 'r+', 'r', 'a', 'r+', 'r+']) if i else \
            rng.choice(['w', 'w+', 'w+', 'r+'])
        ops = []
        for j in range(rng.randint(0, 12)):
            what = rng.choice('rrwwwsssfRz')
            if what == 'w':
                ops.append(('w', bytes(rng.randint(1, 255) for x in range(
                    rng.choice([0, 1, 2, bs - 1, bs, bs + 1, 2 * bs,
                                rng.randint(0, 3 * bs)])))))
            elif what == 'r':
                ops.append(('r', rng.choice([0, 1, bs, bs + 1, rng.randint(
                    0, 3 * bs), -1])))
            elif what == 's':
                ops.append(('s', rng.choice([rng.randint(-2, top), rng.randint(
                    0, top), bs, 2 * bs, 0]), 0) if rng.random() < .6 else (
                        's', rng.randint(-top, bs + 1), rng.choice([1, 2])))
            else:
                ops.append((what,))
        sessions.append((mode, ops))
    return bs, sessions


def history(k, case, open_stream, finish):
    bs, sessions = case
    data = bytearray()
    for mode, ops in sessions:
        f = open_stream(mode)
        if 'w' in mode:
            data = bytearray()
        pos = len(data) if mode == 'a' else 0
        can_w = mode != 'r'
        can_r = 'r' in mode or '+' in mode
        k.ensures("where it starts", f.tell() == pos, mode)
        k.ensures("what it can do", (f.readable(), f.writable(),
                                     f.seekable()) == (can_r, can_w, True))
        for op in ops:
            if op[0] == 'w' and can_w:
                n = f.write(op[1])
                k.ensures("some of it is written", n == 0 if not op[1] else
                          0 < n <= len(op[1]), op, n)
                if n:
                    if pos > len(data):
                        data.extend(bytes(pos - len(data)))
                    data[pos:pos + n] = op[1][:n]
                    pos += n
            elif op[0] == 'z' and can_w and mode != 'a':
                # until all of it is written
                left = b'0123456789' * 2
                while left:
                    n = f.write(left)
                    k.ensures("progress", 0 < n <= len(left))
                    if pos > len(data):
                        data.extend(bytes(pos - len(data)))
                    data[pos:pos + n] = left[:n]
                    pos += n
                    left = left[n:]
            elif op[0] in 'rR' and can_r:
                n = -1 if op[0] == 'R' else op[1]
                got = f.read(n)
                want = bytes(data[pos:] if n < 0 else data[pos:pos + n])
                k.ensures("the bytes of the flat file", got == want if
                          n < 0 or not want else
                          got and want.startswith(got), op, got, want)
                pos += len(got)
            elif op[0] == 's' and mode != 'a':
                new = op[1] + (0, pos, len(data))[op[2]]
                if new < 0:
                    try:
                        f.seek(op[1], op[2])
                        k.fail("seek before the start", op)
                    except (IOError, ValueError):
                        pass
                else:
                    k.ensures("seek", f.seek(op[1], op[2]) == new, op)
                    pos = new
            elif op[0] == 'f':
                f.flush()
            k.ensures("position", f.tell() == pos, op, f.tell(), pos)
        f.close()
        size, md5 = finish()
        k.ensures("final size", size == len(data), size, len(data))
        k.ensures("digest when there is one", md5 is None or
                  md5 == hashlib.md5(data).digest(), bytes(data))
    f = open_stream('r')
    got = f.read()
    k.ensures("final contents", got == bytes(data), got, bytes(data))
    f.close()


@bounded('a stream of any store of blocks', 'generated histories',
         case=Gen(gen_case), _samples=8000)
def any_store(k, case):
    s = Store(case[0]).start()
    stream = Stream()
    history(k, case, lambda mode: BlockStream(s, stream, mode),
            lambda: stream.kept)
    k.ensures("no block is larger", all(
        len(b) <= case[0] for b in s.blocks.values()))


class Digest(object):
    """a hash without collisions whose values hardly differ"""
    known = {}
    at = (0, 1)

    def __init__(self, data=b''):
        self.data = bytes(data)

    def update(self, data):
        self.data += bytes(data)

    def hexdigest(self):
        n = self.known.setdefault(self.data, len(self.known))
        h = ['5'] * 64
        for a, d in zip(self.at, '%02x' % (n % 256)):
            h[a] = d
        h[63 - self.at[0]] = '%x' % (n // 256 % 16)
        return ''.join(h)

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def digest_class(case):
    if len(case[1]) % 3 == 0:
        return hashlib.sha256
    Digest.known = {}
    Digest.at = [(0, 1), (2, 5), (7, 60), (30, 32), (61, 62)][
        (case[0] + len(case[1])) % 5]
    return Digest


CACHE = []


def container():
    if not CACHE:
        from pyslet.odata2.memds import InMemoryEntityContainer
        from pyslet.odata2 import metadata as edmx
        doc = edmx.Document()
        with open(META, 'rb') as f:
            doc.read(f)
        cdef = doc.root.DataServices['BlockSchema.BlockContainer']
        CACHE.append((doc, cdef, InMemoryEntityContainer(cdef)))
    return CACHE[0][1]


META = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'blockstore.xml')


@bounded('a stream of a block store', 'generated histories',
         case=Gen(gen_case), _samples=150)
def entity_store(k, case):
    cdef = container()
    with cdef['Blocks'].open() as c:
        before = len(c)
    bs = blockstore.EDMBlockStore(entity_set=cdef['Blocks'],
                                  max_block_size=case[0],
                                  hash_class=digest_class(case))
    ls = blockstore.LockStore(entity_set=cdef['BlockLocks'])
    ss = blockstore.StreamStore(bs=bs, ls=ls, entity_set=cdef['Streams'])
    key = ss.new_stream().key()

    def finish():
        s = ss.get_stream(key)
        return s['size'].value, s['md5'].value
    history(k, case, lambda mode: ss.open_stream(ss.get_stream(key), mode),
            finish)
    ss.delete_stream(ss.get_stream(key))
    with cdef['Blocks'].open() as c:
        k.ensures("no block is left", len(c) == before)


def gen_shared(rng):
    bs = rng.choice([2, 4, 8])
    ops = []
    for i in range(rng.randint(2, 10)):
        mode = rng.choice(['w', 'a', 'r+', 'del', 'w', 'r+'])
        ops.append((rng.randint(0, 2), mode, rng.randint(0, 4 * bs),
                    bytes(rng.choice(b'ab') for x in range(rng.choice(
                        [bs, bs, 2 * bs, 3 * bs, 1, rng.randint(0, 12)])))
                    if rng.random() < .6 else rng.choice(
                        [b'a', b'ab', b'b']) * rng.randint(0, 12)))
    return bs, ops


@bounded('streams that share blocks', 'generated histories',
         case=Gen(gen_shared), _samples=100)
def shared_store(k, case):
    cdef = container()
    with cdef['Blocks'].open() as c:
        before = len(c)
    bs = blockstore.EDMBlockStore(entity_set=cdef['Blocks'],
                                  max_block_size=case[0],
                                  hash_class=digest_class(case))
    ls = blockstore.LockStore(entity_set=cdef['BlockLocks'])
    ss = blockstore.StreamStore(bs=bs, ls=ls, entity_set=cdef['Streams'])
    keys = [ss.new_stream().key() for i in range(3)]
    data = [b'', b'', b'']
    for i, mode, pos, text in case[1]:
        if mode == 'del':
            ss.delete_stream(ss.get_stream(keys[i]))
            keys[i] = ss.new_stream().key()
            data[i] = b''
        else:
            with ss.open_stream(ss.get_stream(keys[i]), mode) as f:
                if mode == 'w':
                    data[i] = b''
                if mode == 'r+':
                    pos = min(pos, len(data[i]))
                    f.seek(pos)
                else:
                    pos = len(data[i])
                data[i] = data[i][:pos] + text + data[i][pos + len(text):]
                while text:
                    text = text[f.write(text):]
        for j in range(3):
            with ss.open_stream(ss.get_stream(keys[j]), 'r') as f:
                got = f.readall()
            k.ensures("each stream has its own contents", got == data[j],
                      j, got, data[j])
    for key in keys:
        ss.delete_stream(ss.get_stream(key))
    with cdef['Blocks'].open() as c:
        k.ensures("no block is left", len(c) == before)
