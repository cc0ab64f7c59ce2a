"""Symbolic values.

Concrete Python values stand for themselves.  Symbolic integers, booleans and
reals (standing for floats) are z3 expressions; symbolic character and byte
strings are SStr; objects created during symbolic execution are Obj.  Lists,
dicts, sets and tuples of known structure are the native Python containers
holding any of these.
"""
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset: no verdict."""


class PathEnd(Exception):
    """This path is finished (infeasible, or the end of a loop iteration)"""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


IntSeq = z3.SeqSort(z3.IntSort())


class Undef(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<undef %s>" % self.name


class Opaque(object):
    """A text value the engine does not track (error messages)"""

    def __init__(self, what='text'):
        self.what = what

    def __repr__(self):
        return "<opaque>"


class Obj(object):
    """An instance of a real class, created during symbolic execution"""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return "<Obj %s %r>" % (self.cls.__name__, self.attrs)


class BoundM(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class BuiltinM(object):
    """A method of a built-in or symbolic value"""

    def __init__(self, self_, name):
        self.self_ = self_
        self.name = name


class SuperProxy(object):
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Closure(object):
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node = node
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name


class JoinList(object):
    """A list of string pieces of unknown structure, known by its join.

    items='str'|'bytes' pieces, or items='codes' for a list of byte values
    (joined with bytes(list)).  Mutable: seq is replaced."""

    def __init__(self, kind, items, seq, nonempty=None):
        self.kind = kind
        self.items = items
        self.seq = seq


def choose(c, a, b):
    """a if c else b, for values of the same shape"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c) or a is b:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(choose(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(
            b, (bool, z3.BoolRef)):
        return z3.If(c, _term(a, z3.BoolVal), _term(b, z3.BoolVal))
    if isinstance(a, (int, z3.ArithRef)) and isinstance(
            b, (int, z3.ArithRef)) and not isinstance(
            a, bool) and not isinstance(b, bool):
        return z3.If(c, _term(a, z3.IntVal), _term(b, z3.IntVal))
    raise Unsupported("items of different shapes in a list of unknown length")


def _term(v, make):
    return v if isinstance(v, z3.ExprRef) else make(v)


class LongList(object):
    """A list of symbolic length (a z3 integer, at least the number of the
    known first items) whose item at a z3 index is given by a function of
    the index"""

    def __init__(self, items, length, elem):
        self.items = items
        self.length = length
        self.elem = elem
        self.memo = {}
        self.version = 0

    def put(self, n, v, length=None):
        """the item at n (within the list, or with its new length) is v"""
        old, items = self.elem, self.items
        self.version += 1
        self.memo = {}
        if length is not None:
            self.length = length
        if isinstance(n, int) and n < len(items):
            self.items = items[:n] + [v] + items[n + 1:]
            return
        if items and length is None:
            known = list(items)
            self.items = []

            def base(i):
                r = old(i)
                for j, x in enumerate(known):
                    r = choose(i == j, x, r)
                return r
        else:
            base = old
        n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.elem = lambda i: choose(i == n, v, base(i))

    def at(self, i):
        if isinstance(i, int):
            if i < len(self.items):
                return self.items[i]
            i = z3.IntVal(i)
        i = z3.simplify(i)
        key = i.get_id()
        if key not in self.memo:
            self.memo[key] = (i, self.elem(i))
        return self.memo[key][1]


class Rest(object):
    """the last arguments of a call, as many as a list of unknown length"""

    def __init__(self, items):
        self.items = items


class SStr(object):
    """Symbolic str or bytes: a known number of codes or a z3 sequence"""
    __slots__ = ('kind', 'chars', '_seq')

    def __init__(self, kind, chars=None, seq=None):
        self.kind = kind
        self.chars = chars
        self._seq = seq

    @property
    def seq(self):
        if self._seq is None:
            self._seq = codes_to_seq(self.chars)
        return self._seq

    def __repr__(self):
        return "<S%s %s>" % (self.kind,
                             self.chars if self.chars is not None
                             else self._seq)


class SymRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def codes_to_seq(codes):
    if not codes:
        return z3.Empty(IntSeq)
    units = [z3.Unit(z3.IntVal(c) if isinstance(c, int) else c)
             for c in codes]
    if len(units) == 1:
        return units[0]
    return z3.Concat(*units)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_sint(v):
    return isinstance(v, z3.ArithRef) and v.is_int()


def is_sreal(v):
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_sbool(v):
    return isinstance(v, z3.BoolRef)


def is_strlike(v):
    return isinstance(v, (str, bytes, SStr, bytearray))


def kind_of(v):
    if isinstance(v, SStr):
        return v.kind
    if isinstance(v, str):
        return 'str'
    return 'bytes'


def codes_of(v):
    """List of codes when the length is known, else None"""
    if isinstance(v, SStr):
        return v.chars
    if isinstance(v, str):
        return [ord(c) for c in v]
    return list(v)


def seq_of(v):
    if isinstance(v, SStr):
        return v.seq
    return codes_to_seq(codes_of(v))


def mk_str(kind, codes):
    """Build a string from codes, concrete when possible"""
    if all(isinstance(c, int) for c in codes):
        if kind == 'str':
            return ''.join(map(chr, codes))
        return bytes(codes)
    return SStr(kind, chars=list(codes))


def has_sym(v, depth=0):
    """True if v (deeply) contains anything symbolic"""
    if isinstance(v, (z3.ExprRef, SStr, Obj, Opaque, JoinList, LongList, Undef,
                      Closure, BoundM, BuiltinM, SymRange, SuperProxy)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x) or has_sym(y) for x, y in v.items())
    return False


class PredVal(object):
    """A caller's predicate on characters: a set of codes, or a z3
    function"""

    def __init__(self, codes=None, fun=None):
        self.codes = codes
        self.fun = fun

    def __call__(self, c):
        return ord(c) in self.codes

    def holds(self, code):
        if self.fun is not None:
            return self.fun(code if is_z3(code) else z3.IntVal(code))
        return code in self.codes

    def __repr__(self):
        if self.codes is None:
            return '<predicate>'
        return 'Pred(%r)' % bytes(c for c in sorted(self.codes) if c < 256)

    def __deepcopy__(self, memo):
        return self
