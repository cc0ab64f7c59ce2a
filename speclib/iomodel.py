"""Python text standing for the C classes of the io module when code under
contract uses them: an assumed contract on a dependency.  speclib/iocheck
compares each of them with the real class on every run of the checks that
use it."""
import io


class BytesIO(io.BytesIO):
    """io.BytesIO"""

    def __init__(self, initial_bytes=b''):
        self._data = initial_bytes
        self._at = 0

    def tell(self):
        return self._at

    def getvalue(self):
        return self._data

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def flush(self):
        pass

    def read(self, size=-1):
        n = len(self._data)
        a = self._at
        if size is None or size < 0 or a + size > n:
            b = n
        else:
            b = a + size
        if b <= a:
            return b''
        self._at = b
        return self._data[a:b]

    def seek(self, offset, whence=0):
        if whence == 0:
            if offset < 0:
                raise ValueError("negative seek value")
            self._at = offset
        elif whence == 1:
            self._at = max(0, self._at + offset)
        elif whence == 2:
            self._at = max(0, len(self._data) + offset)
        else:
            raise ValueError("invalid whence")
        return self._at

    def write(self, b):
        n = len(b)
        if n == 0:
            return 0
        a = self._at
        d = self._data
        if a == len(d):
            self._data = d + b
        elif a > len(d):
            self._data = d + b'\0' * (a - len(d)) + b
        elif a + n >= len(d):
            self._data = d[:a] + b
        else:
            self._data = d[:a] + b + d[a + n:]
        self._at = a + n
        return n

    def truncate(self, size=None):
        if size is None:
            size = self._at
        if size < len(self._data):
            self._data = self._data[:size]
        return size


class ByteArray(object):
    """a bytearray whose length is not known"""

    def __init__(self, data):
        self._data = data

    def __len__(self):
        return len(self._data)

    def __getitem__(self, i):
        return self._data[i]

    def __setitem__(self, i, v):
        d = self._data
        n = len(d)
        a = i.start
        b = i.stop
        if a is None:
            a = 0
        if b is None:
            b = n
        if a < 0 or b < 0:
            raise NotImplementedError
        if a > n:
            a = n
        if b > n:
            b = n
        if b < a:
            b = a
        self._data = d[:a] + v + d[b:]


def raw_read(self, size=-1):
    """RawIOBase.read"""
    if size is None or size < 0:
        return self.readall()
    b = bytearray(size)
    n = self.readinto(b)
    if n is None:
        return None
    if isinstance(b, bytearray):
        return bytes(b[:n])
    return b._data[:n]


def io_close(self):
    if not self.closed:
        self.flush()
        self._iobase_closed = True


def io_flush(self):
    if self.closed:
        raise ValueError("I/O operation on closed file.")


def content(b):
    """the bytes of a bytearray"""
    if isinstance(b, bytearray):
        return bytes(b)
    return b._data


METHODS = {'read': raw_read, 'close': io_close, 'flush': io_flush}
MODELS = {io.BytesIO: BytesIO}
