"""Built-in functions and methods on symbolic values.

Anything given only concrete arguments is run by CPython itself."""
import builtins
import copy
import functools
import io
import math
import types
import z3

from .values import *   # noqa
from . import interp as I

_MISSING = object()

WS_BYTES = (32, 9, 10, 11, 12, 13)
WS_STR = (32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 0x85, 0xa0, 0x1680, 0x2028,
          0x2029, 0x202f, 0x205f, 0x3000) + tuple(range(0x2000, 0x200b))


def pytype(ip, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, SStr):
        return str if v.kind == 'str' else bytes
    if isinstance(v, z3.BoolRef):
        return bool
    if isinstance(v, z3.ArithRef):
        return int if v.is_int() else float
    if isinstance(v, (JoinList, LongList)):
        return list
    if isinstance(v, Opaque):
        if v.what == 'text':
            return str
        raise Unsupported("type of an opaque value")
    if isinstance(v, (Closure,)):
        return types.FunctionType
    if isinstance(v, (BoundM, I.types.MethodType)):
        return types.MethodType
    if isinstance(v, BuiltinM):
        return types.BuiltinMethodType
    if isinstance(v, SymRange):
        return range
    if isinstance(v, Undef):
        raise Unsupported("use of %r" % v)
    return type(v)


def isinst(ip, v, cls):
    if isinstance(cls, tuple):
        return any(isinst(ip, v, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return isinst(ip, v, cls.__args__)
    t = pytype(ip, v)
    return issubclass(t, cls)


def all_digits(codes, ip):
    return ip.and_([ip.and_([ip.lt(47, c), ip.lt(c, 58)]) for c in codes])


def parse_int(ip, s, base=10):
    if isinstance(s, SStr) and s.chars is None:
        h = getattr(ip.kit, 'int_of_text', None)
        if h is not None:
            r = h(s, base)
            if r is not None:
                return r
        if base == 10:
            # an unknown value, or none
            if ip.truth(z3.Function('isint', IntSeq, z3.BoolSort())(s.seq)):
                return z3.Function('intval', IntSeq, z3.IntSort())(s.seq)
            ip.raise_(ValueError, "invalid literal for int()")
        if base == 16:
            if ip.truth(z3.Function('ishex', IntSeq, z3.BoolSort())(s.seq)):
                return z3.Function('hexval', IntSeq, z3.IntSort())(s.seq)
            ip.raise_(ValueError, "invalid literal for int()")
        raise Unsupported("int() of text of unknown length")
    codes = codes_of(s)
    if not any(is_z3(c) for c in codes):
        t = mk_str(kind_of(s), codes)
        try:
            return int(t, base)
        except ValueError as err:
            ip.raise_(ValueError, str(err))
    if len(codes) == 0:
        ip.raise_(ValueError, "int")
    body = codes
    sign = 1
    first = codes[0]
    if ip.truth(ip.or_([ip.eq(first, 43), ip.eq(first, 45)])):
        if ip.truth(ip.eq(first, 45)):
            sign = -1
        body = codes[1:]
        if not body:
            ip.raise_(ValueError, "int")
    # the digits of a number formatted
    digits = list(body)
    while len(digits) > 1 and not is_z3(digits[0]) and digits[0] == 48:
        digits = digits[1:]
    known = ip.e.digits.get((base, tuple(
        c.get_id() if is_z3(c) else c for c in digits)))
    if known is not None:
        return z3.simplify(known[0] * sign)
    val = z3.IntVal(0)
    if base == 10:
        ok = all_digits(body, ip)
        if ip.truth(ok):
            for c in body:
                val = val * 10 + (ip.z(c) - 48)
            return z3.simplify(val * sign)
    elif base == 16:
        def hexok(c):
            c = ip.z(c)
            return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70),
                         z3.And(c >= 97, c <= 102))
        ok = z3.And(*[hexok(c) for c in body])
        if ip.truth(ok):
            for c in body:
                c = ip.z(c)
                d = z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
                val = val * 16 + d
            return z3.simplify(val * sign)
    else:
        raise Unsupported("int() with base")
    # some character is not a plain digit: certainly wrong when one of them
    # is ASCII and neither space, underscore nor sign (nor, in base 16, x)

    def bad(c):
        c = ip.z(c)
        ex = [32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 95, 43, 45]
        if base == 16:
            ex += [120, 88]
        conds = [c < 128] + [c != x for x in ex] + [
            z3.Or(c < 48, c > 57)]
        if base == 16:
            conds += [z3.Or(c < 65, c > 70), z3.Or(c < 97, c > 102)]
        return z3.And(*conds)
    if ip.truth(z3.Or(*[bad(c) for c in body])):
        ip.raise_(ValueError, "invalid literal for int()")
    raise Unsupported("int() of unusual text")


def hash_(ip, v):
    if isinstance(v, (tuple, list)):
        hs = [ip.z(hash_(ip, x)) for x in v]
        f = z3.Function('hash_tuple%i' % len(hs),
                        *([z3.IntSort()] * (len(hs) + 1)))
        return f(*hs) if hs else z3.IntVal(0)
    n = ip.num(v)
    if n is not None:
        if ip._isreal(n):
            if isinstance(n, float) and n == int(n):
                n = int(n)
            else:
                n = ip.z(n)
                return z3.Function('hash_real', z3.RealSort(),
                                   z3.IntSort())(n)
        return z3.Function('hash_int', z3.IntSort(), z3.IntSort())(ip.z(n))
    if is_strlike(v):
        return z3.Function('hash_' + kind_of(v), IntSeq,
                           z3.IntSort())(seq_of(v))
    if v is None:
        return z3.IntVal(98765)
    if ip.is_instance_like(v):
        d = ip.class_lookup(ip.class_of(v), '__hash__')
        if isinstance(d, types.FunctionType):
            return ip.call(ip.bind(d, v, ip.class_of(v)), [], {})
        if d is None:
            ip.raise_(TypeError, "unhashable")
    raise Unsupported("hash of %r" % type(v))


def iterate(ip, v):
    return ip.iter_list(v)


def to_int_builtin(ip, args, kwargs):
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kwargs.get('base', 10)
    if is_strlike(v):
        return parse_int(ip, v, base)
    n = ip.num(v)
    if n is not None:
        return ip.to_int(n)
    if isinstance(v, Obj):
        for nm in ('__int__', '__index__'):
            d = ip.class_lookup(v.cls, nm)
            if isinstance(d, types.FunctionType):
                return ip.call(ip.bind(d, v, v.cls), [], {})
        ip.raise_(TypeError, "int() argument")
    if v is None or isinstance(v, (list, tuple, dict)):
        ip.raise_(TypeError, "int() argument")
    raise Unsupported("int of %r" % type(v))


def minmax(ip, args, kwargs, ismin):
    if len(args) == 1:
        items = iterate(ip, args[0])
    else:
        items = list(args)
    key = kwargs.get('key')
    if not items:
        if 'default' in kwargs:
            return kwargs['default']
        ip.raise_(ValueError, "empty")
    best = items[0]
    if key is None and all(ip.num(x) is not None for x in items) and any(
            is_z3(x) for x in items):
        r = ip.z(items[0])
        for x in items[1:]:
            x = ip.z(x)
            r = z3.If(x < r if ismin else x > r, x, r)
        return r
    kb = ip.call(key, [best], {}) if key else best
    for x in items[1:]:
        kx = ip.call(key, [x], {}) if key else x
        if ip.truth(ip.lt(kx, kb) if ismin else ip.lt(kb, kx)):
            best, kb = x, kx
    return best


def sort_items(ip, items, key=None, reverse=False):
    keyed = [(ip.call(key, [x], {}) if key else x, x) for x in items]
    out = []
    if reverse:
        keyed.reverse()
    for kx, x in keyed:
        i = len(out)
        while i > 0 and ip.truth(ip.lt(kx, out[i - 1][0])):
            i -= 1
        out.insert(i, (kx, x))
    if reverse:
        out.reverse()
    return [x for _, x in out]


def divmod_(ip, a, b):
    return (ip.floordiv(a, b), ip.mod(a, b))


def call_builtin(ip, f, args, kwargs):
    mod = getattr(f, '__module__', None) or ''
    if mod.startswith('pyvc'):
        return f(*args, **kwargs)
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    if h is not None:
        r = h(ip, args, kwargs)
        if r is not _MISSING:
            return r
    if isinstance(f, (types.MethodDescriptorType,
                      types.WrapperDescriptorType, types.BuiltinMethodType,
                      types.MethodWrapperType)):
        name = f.__name__
        if isinstance(f, (types.MethodDescriptorType,
                          types.WrapperDescriptorType)) and args:
            if name in ('__init__', '__setattr__') and \
                    isinstance(args[0], Obj):
                if name == '__init__':
                    if issubclass(args[0].cls, BaseException):
                        args[0].attrs['args'] = tuple(args[1:])
                    return None
                ip.setattr(args[0], args[1], args[2])
                return None
            if name == '__eq__' and isinstance(args[0], Obj):
                return args[0] is args[1] or NotImplemented
            if isinstance(args[0], Obj) and issubclass(args[0].cls,
                                                       io.IOBase):
                from speclib import iomodel
                if name in iomodel.METHODS:
                    return ip.call(iomodel.METHODS[name], args, kwargs)
            if is_strlike(args[0]) or isinstance(
                    args[0], (list, dict, set, tuple, JoinList)):
                return call_method(ip, args[0], name, list(args[1:]), kwargs)
        self_ = getattr(f, '__self__', None)
        if self_ is not None and isinstance(
                self_, (str, bytes, list, dict, set, tuple)):
            return call_method(ip, self_, name, args, kwargs)
        if isinstance(self_, type) and issubclass(self_, dict) and \
                name == 'fromkeys':
            items = iterate(ip, args[0])
            return dict.fromkeys(items, *args[1:])
    if ip.opaque_fmt and f in (repr, str, ascii):
        return Opaque()
    if has_sym(args) or has_sym(kwargs):
        raise Unsupported("call of %r with symbolic arguments" % (f,))
    if any(ip.is_pyslet_instance(a) for a in args) and f not in (id, object):
        if f is repr:
            return Opaque()
    try:
        return f(*args, **kwargs)
    except (Unsupported, PathEnd, PyRaise):
        raise
    except Exception as err:
        ip.raise_(type(err), *err.args)


def b_len(ip, args, kw):
    v = args[0]
    if is_strlike(v):
        return ip.strlen(v)
    if isinstance(v, (list, tuple, dict, set, frozenset, range)):
        return len(v)
    if isinstance(v, LongList):
        return v.length
    if isinstance(v, JoinList):
        if v.items in ('codes', 'chars'):
            return z3.Length(v.seq)
        raise Unsupported("len of a joined list")
    if isinstance(v, SymRange):
        raise Unsupported("len of symbolic range")
    if ip.is_instance_like(v):
        d = ip.class_lookup(ip.class_of(v), '__len__')
        if isinstance(d, types.FunctionType):
            return ip.call(ip.bind(d, v, ip.class_of(v)), [], {})
        ip.raise_(TypeError, "no len()")
    if v is None or ip.num(v) is not None:
        ip.raise_(TypeError, "no len()")
    return _MISSING


def b_ord(ip, args, kw):
    v = args[0]
    if not is_strlike(v):
        ip.raise_(TypeError, "ord() expected string")
    c = codes_of(v)
    if c is None:
        n = ip.strlen(v)
        if not ip.truth(n == 1):
            ip.raise_(TypeError, "ord() expected a character")
        return ip.nth(v, 0)
    if len(c) != 1:
        ip.raise_(TypeError, "ord() expected a character")
    return c[0]


def b_chr(ip, args, kw):
    n = ip.num(args[0])
    if n is None:
        ip.raise_(TypeError, "chr")
    if not is_z3(n):
        return _MISSING
    if not ip.truth(z3.And(n >= 0, n <= 0x10ffff)):
        ip.raise_(ValueError, "chr() arg not in range")
    return mk_str('str', [n])


def b_str(ip, args, kw):
    if not args:
        return ''
    if len(args) > 1 or kw:
        if isinstance(args[0], (bytes, SStr)):
            return call_method(ip, args[0], 'decode', list(args[1:]), kw)
        return _MISSING
    return ip.to_str(args[0])


def b_bytes(ip, args, kw):
    if not args:
        return b''
    v = args[0]
    if len(args) > 1:
        if is_strlike(v) and kind_of(v) == 'str':
            return call_method(ip, v, 'encode', list(args[1:]), kw)
        return _MISSING
    if is_strlike(v):
        if kind_of(v) == 'str':
            ip.raise_(TypeError, "string argument without an encoding")
        return v
    if isinstance(v, JoinList) and v.items == 'codes':
        return SStr('bytes', seq=v.seq)
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            n = ip.num(x)
            if n is None:
                ip.raise_(TypeError, "bytes")
            if not ip.truth(ip.and_([ip.lt(-1, n), ip.lt(n, 256)])):
                ip.raise_(ValueError, "bytes must be in range(0, 256)")
            out.append(n)
        return mk_str('bytes', out)
    return _MISSING


def b_list(ip, args, kw):
    if not args:
        return []
    if isinstance(args[0], JoinList):
        return JoinList(args[0].kind, args[0].items, args[0].seq)
    if isinstance(args[0], LongList):
        return LongList(list(args[0].items), args[0].length, args[0].at)
    return list(iterate(ip, args[0]))


def b_tuple(ip, args, kw):
    if not args:
        return ()
    return tuple(iterate(ip, args[0]))


def b_set(ip, args, kw):
    if not args:
        return set()
    items = iterate(ip, args[0])
    if has_sym(items):
        out = []
        for x in items:
            if not ip.truth(ip.contains(out, x)):
                out.append(x)
        return set(out)
    return set(items)


def b_dict(ip, args, kw):
    d = {}
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        else:
            for x in iterate(ip, args[0]):
                kx, vx = iterate(ip, x)
                ip.setitem(d, kx, vx)
    d.update(kw)
    return d


def b_range(ip, args, kw):
    if not has_sym(args):
        try:
            return range(*args)
        except TypeError as err:
            ip.raise_(TypeError, str(err))
    a = [ip.num(x) for x in args]
    if any(x is None or ip._isreal(x) for x in a):
        ip.raise_(TypeError, "range")
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)


def b_isinstance(ip, args, kw):
    return isinst(ip, args[0], args[1])


def b_type(ip, args, kw):
    if len(args) != 1:
        return _MISSING
    return pytype(ip, args[0])


def probe(ip, args):
    was, ip.probing = ip.probing, True
    try:
        return ip.getattr(args[0], args[1])
    finally:
        ip.probing = was


def b_hasattr(ip, args, kw):
    try:
        probe(ip, args)
    except PyRaise as err:
        if issubclass(err.exc.cls, AttributeError):
            return False
        raise
    return True


def b_getattr(ip, args, kw):
    if len(args) > 2:
        try:
            return probe(ip, args)
        except PyRaise as err:
            if issubclass(err.exc.cls, AttributeError):
                return args[2]
            raise
    return ip.getattr(args[0], args[1])


def b_abs(ip, args, kw):
    n = ip.num(args[0])
    if n is None:
        return _MISSING
    if not is_z3(n):
        return abs(n)
    return z3.If(n >= 0, n, -n)


def b_bool(ip, args, kw):
    if not args:
        return False
    return ip.truth_expr(args[0])


def b_float(ip, args, kw):
    if not args:
        return 0.0
    n = ip.num(args[0])
    if n is not None and is_z3(n):
        return z3.ToReal(n) if n.is_int() else n
    return _MISSING


def b_round(ip, args, kw):
    n = ip.num(args[0])
    if n is not None and is_z3(n) and len(args) == 1:
        if n.is_int():
            return n
        f = z3.ToInt(n)
        d = n - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return z3.If(d < half, f, z3.If(d > half, f + 1,
                                        z3.If(f % 2 == 0, f, f + 1)))
    return _MISSING


def b_sum(ip, args, kw):
    r = args[1] if len(args) > 1 else 0
    for x in iterate(ip, args[0]):
        r = ip.binop(I.ast.Add(), r, x)
    return r


def b_any(ip, args, kw):
    for x in iterate(ip, args[0]):
        if ip.truth(x):
            return True
    return False


def b_all(ip, args, kw):
    for x in iterate(ip, args[0]):
        if not ip.truth(x):
            return False
    return True


def b_sorted(ip, args, kw):
    return sort_items(ip, iterate(ip, args[0]), kw.get('key'),
                      kw.get('reverse', False))


def b_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    return [(i + start, x) for i, x in enumerate(iterate(ip, args[0]))]


def b_zip(ip, args, kw):
    return list(zip(*[iterate(ip, a) for a in args]))


def b_reversed(ip, args, kw):
    return list(reversed(iterate(ip, args[0])))


def b_map(ip, args, kw):
    return [ip.call(args[0], list(x), {}) for x in
            zip(*[iterate(ip, a) for a in args[1:]])]


def b_filter(ip, args, kw):
    return [x for x in iterate(ip, args[1])
            if ip.truth(ip.call(args[0], [x], {}) if args[0] else x)]


def b_reduce(ip, args, kw):
    items = list(iterate(ip, args[1]))
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            ip.raise_(TypeError, "reduce() of empty")
        acc = items.pop(0)
    for x in items:
        acc = ip.call(args[0], [acc, x], {})
    return acc


class ListIter(object):
    """An iterator over a list made by iter()"""

    def __init__(self, items):
        self.items = items
        self.i = 0


def b_iter(ip, args, kw):
    if len(args) == 1:
        if isinstance(args[0], ListIter):
            return args[0]
        return ListIter(iterate(ip, args[0]))
    return _MISSING


def b_next(ip, args, kw):
    it = args[0]
    if isinstance(it, ListIter):
        if it.i >= len(it.items):
            if len(args) > 1:
                return args[1]
            ip.raise_(StopIteration)
        it.i += 1
        return it.items[it.i - 1]
    if ip.is_instance_like(it):
        return ip.call(ip.getattr(it, '__next__'), [], {})
    return _MISSING


def b_hash(ip, args, kw):
    if isinstance(args[0], bool) or not has_sym(args[0]):
        pass
    return hash_(ip, args[0])


def b_callable(ip, args, kw):
    v = args[0]
    if isinstance(v, (Closure, BoundM, BuiltinM)):
        return True
    if isinstance(v, Obj):
        return ip.class_lookup(v.cls, '__call__') is not I._MISSING
    return _MISSING


def b_repr(ip, args, kw):
    if has_sym(args[0]) or ip.is_pyslet_instance(args[0]):
        return Opaque()
    return _MISSING


def b_modf(ip, args, kw):
    n = ip.num(args[0])
    if n is not None and is_z3(n):
        if n.is_int():
            return (z3.RealVal(0), z3.ToReal(n))
        t = z3.ToReal(ip.to_int(n))
        return (n - t, t)
    return _MISSING


def b_isinf(ip, args, kw):
    # a symbolic number is finite
    return False if is_z3(ip.num(args[0])) else _MISSING


def b_floor(ip, args, kw):
    n = ip.num(args[0])
    if n is not None and is_z3(n):
        return n if n.is_int() else z3.ToInt(n)
    return _MISSING


def b_ceil(ip, args, kw):
    n = ip.num(args[0])
    if n is not None and is_z3(n):
        return n if n.is_int() else -z3.ToInt(-n)
    return _MISSING


def b_issubclass(ip, args, kw):
    return _MISSING


def b_object(ip, args, kw):
    return _MISSING


def b_setattr(ip, args, kw):
    ip.setattr(*args)
    return None


def b_print(ip, args, kw):
    return None


def b_bytearray(ip, args, kw):
    if args and is_sint(args[0]):
        # its contents are left unspecified
        from speclib import iomodel
        if not ip.truth(args[0] >= 0):
            ip.raise_(ValueError, "negative count")
        v = ip.kit.havoc_value('bytes', 'bytearray')
        ip.e.add(z3.Length(v.seq) == args[0])
        return Obj(iomodel.ByteArray, {'_data': v})
    if args and has_sym(args[0]):
        raise Unsupported("bytearray of symbolic")
    return _MISSING


def b_deepcopy(ip, args, kw):
    """a copy of a value that cannot be changed is that value"""
    def dup(v):
        if isinstance(v, list):
            return [dup(x) for x in v]
        if isinstance(v, tuple):
            return tuple(dup(x) for x in v)
        if isinstance(v, (z3.ExprRef, SStr, int, float, str, bytes)) or \
                v is None:
            return v
        raise Unsupported("deepcopy of %r" % type(v))
    if len(args) == 1 and has_sym(args[0]):
        return dup(args[0])
    return _MISSING


TABLE = {
    copy.deepcopy: b_deepcopy,
    len: b_len, ord: b_ord, chr: b_chr, str: b_str, bytes: b_bytes,
    int: to_int_builtin, list: b_list, tuple: b_tuple, set: b_set,
    frozenset: b_set, dict: b_dict, range: b_range,
    isinstance: b_isinstance, type: b_type, hasattr: b_hasattr,
    getattr: b_getattr, abs: b_abs, bool: b_bool, float: b_float,
    round: b_round, sum: b_sum, any: b_any, all: b_all, sorted: b_sorted,
    enumerate: b_enumerate, zip: b_zip, reversed: b_reversed, map: b_map,
    filter: b_filter, functools.reduce: b_reduce, iter: b_iter,
    next: b_next, hash: b_hash, callable: b_callable, repr: b_repr,
    math.modf: b_modf, math.floor: b_floor, math.ceil: b_ceil,
    math.isinf: b_isinf, math.isnan: b_isinf,
    min: lambda ip, a, k: minmax(ip, a, k, True),
    max: lambda ip, a, k: minmax(ip, a, k, False),
    divmod: lambda ip, a, k: divmod_(ip, a[0], a[1]),
    setattr: b_setattr, print: b_print, bytearray: b_bytearray,
}


# ------------------------------------------------------------------------
# methods

def call_method(ip, v, name, args, kwargs):
    if isinstance(v, LongList) and name == 'append':
        v.put(v.length, args[0], z3.simplify(v.length + 1))
        return None
    if isinstance(v, JoinList):
        return joinlist_method(ip, v, name, args, kwargs)
    if is_strlike(v) and not isinstance(v, bytearray):
        return str_method(ip, v, name, args, kwargs)
    if isinstance(v, list):
        return list_method(ip, v, name, args, kwargs)
    if isinstance(v, dict):
        return dict_method(ip, v, name, args, kwargs)
    if isinstance(v, (set, frozenset)):
        return set_method(ip, v, name, args, kwargs)
    if isinstance(v, tuple):
        if name == 'index':
            return list_index_of(ip, v, args[0])
        if name == 'count':
            return sum(1 for x in v if ip.truth(ip.eq(x, args[0])))
        if name == '__getitem__':
            return ip.getitem(v, args[0])
    if isinstance(v, z3.ArithRef):
        if name == 'is_integer':
            return True if v.is_int() else z3.IsInt(v)
    if isinstance(v, Opaque) and v.what == 'text':
        if name in ('encode', 'decode', 'strip', 'lower', 'upper', 'join',
                    'format'):
            return Opaque()
    if has_sym(v) or has_sym(args):
        raise Unsupported("method %s of %r" % (name, type(v)))
    ip.check_mutable(v)
    try:
        return getattr(v, name)(*args, **kwargs)
    except Exception as err:
        ip.raise_(type(err), *err.args)


def joinlist_method(ip, v, name, args, kwargs):
    if name == 'append':
        v.seq = ip.joinlist_add(v, [args[0]]).seq
        return None
    if name == 'extend':
        x = args[0]
        if not isinstance(x, (list, tuple, JoinList)) and not (
                v.items == 'codes' and is_strlike(x)):
            x = iterate(ip, x)
        v.seq = ip.joinlist_add(v, x).seq
        return None
    raise Unsupported("method %s of a joined list" % name)


def list_index_of(ip, l, x):
    for i, y in enumerate(l):
        if ip.truth(ip.eq(x, y)):
            return i
    ip.raise_(ValueError, "not in list")


def list_method(ip, v, name, args, kw):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort',
                'reverse', 'clear', '__setitem__', '__delitem__'):
        ip.check_mutable(v)
    if name == 'append':
        v.append(args[0])
        return None
    if name == 'extend':
        if isinstance(args[0], JoinList):
            raise Unsupported("extend by a joined list")
        v.extend(iterate(ip, args[0]))
        return None
    if name == 'insert':
        i = args[0]
        if is_z3(i):
            for j in range(len(v)):
                if ip.truth(i == j):
                    i = j
                    break
            else:
                if ip.truth(i >= len(v)):
                    i = len(v)
                else:
                    raise Unsupported("negative symbolic insert")
        v.insert(i, args[1])
        return None
    if name == 'pop':
        if not args:
            if not v:
                ip.raise_(IndexError, "pop from empty list")
            return v.pop()
        if not v:
            ip.raise_(IndexError, "pop from empty list")
        return v.pop(ip.list_index(v, args[0]))
    if name == 'remove':
        del v[list_index_of(ip, v, args[0])]
        return None
    if name == 'sort':
        v[:] = sort_items(ip, v, kw.get('key'), kw.get('reverse', False))
        return None
    if name == 'reverse':
        v.reverse()
        return None
    if name == 'clear':
        v.clear()
        return None
    if name == 'index':
        return list_index_of(ip, v, args[0])
    if name == 'count':
        return sum(1 for x in v if ip.truth(ip.eq(x, args[0])))
    if name == 'copy':
        return list(v)
    if name == '__getitem__':
        return ip.getitem(v, args[0])
    if name == '__contains__':
        return ip.contains(v, args[0])
    if name == '__len__':
        return len(v)
    raise Unsupported("list method %s" % name)


def dict_method(ip, v, name, args, kw):
    if name in ('pop', 'setdefault', 'update', 'clear', 'popitem',
                '__setitem__', '__delitem__'):
        ip.check_mutable(v)
    if name == 'get':
        k = ip.dict_find(v, args[0])
        if k is I._MISSING:
            return args[1] if len(args) > 1 else None
        return v[k]
    if name == 'pop':
        k = ip.dict_find(v, args[0])
        if k is I._MISSING:
            if len(args) > 1:
                return args[1]
            ip.raise_(KeyError, args[0])
        return v.pop(k)
    if name == 'setdefault':
        k = ip.dict_find(v, args[0])
        if k is I._MISSING:
            v[args[0]] = args[1] if len(args) > 1 else None
            return v[args[0]]
        return v[k]
    if name == 'update':
        if args:
            other = args[0]
            if isinstance(other, dict):
                for k2, x in other.items():
                    ip.setitem(v, k2, x)
            else:
                for p in iterate(ip, other):
                    ip.setitem(v, p[0], p[1])
        for k2, x in kw.items():
            v[k2] = x
        return None
    if name == 'keys':
        return list(v.keys())
    if name == 'values':
        return list(v.values())
    if name == 'items':
        return list(v.items())
    if name == 'copy':
        return dict(v)
    if name == 'clear':
        v.clear()
        return None
    if name == '__getitem__':
        return ip.getitem(v, args[0])
    if name == '__setitem__':
        return ip.setitem(v, args[0], args[1])
    if name == '__contains__':
        return ip.contains(v, args[0])
    raise Unsupported("dict method %s" % name)


def set_method(ip, v, name, args, kw):
    if name in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
        ip.check_mutable(v)
    if name == 'add':
        x = args[0]
        if has_sym(x) or has_sym(v):
            if not ip.truth(ip.contains(v, x)):
                v.add(x)
            return None
        v.add(x)
        return None
    if name in ('discard', 'remove'):
        for y in list(v):
            if ip.truth(ip.eq(args[0], y)):
                v.discard(y)
                return None
        if name == 'remove':
            ip.raise_(KeyError, args[0])
        return None
    if name == 'update':
        for a in args:
            for x in iterate(ip, a):
                set_method(ip, v, 'add', [x], {})
        return None
    if name == 'copy':
        return set(v)
    if name == 'clear':
        v.clear()
        return None
    if not has_sym(v) and not has_sym(args):
        return getattr(v, name)(*args, **kw)
    raise Unsupported("set method %s" % name)


def lower_codes(ip, codes):
    """str.lower of a known number of characters"""
    sym = [c for c in codes if not isinstance(c, int)]
    out = []
    multi = bool(sym) and ip.truth(z3.Or(*[c == 0x130 for c in sym]))
    for c in codes:
        if multi and not isinstance(c, int) and ip.truth(c == 0x130):
            out.extend([105, 0x307])
        else:
            out.extend(lower_code(ip, c, 'str', False, True))
    return out


def lower_code(ip, c, kind, upper=False, simple=None):
    if isinstance(c, int):
        if kind == 'bytes':
            b = bytes([c])
            return list(b.upper() if upper else b.lower())
        s = chr(c)
        return [ord(x) for x in (s.upper() if upper else s.lower())]
    if kind == 'str' and (upper or simple is None) and \
            not ip.truth(c < 128):
        raise Unsupported("case mapping of a non-ASCII character")
    if kind == 'str' and not upper:
        # only two others have an ASCII character in their lower case form
        # and only 0x130 (see lower_codes) maps to more than one character
        r = ip.e.fresh(z3.IntSort(), 'lower')
        ip.e.add(z3.And(r >= 128, r < 0x110000))
        return [z3.If(c < 128, z3.If(z3.And(c >= 65, c <= 90), c + 32, c),
                      z3.If(c == 0x212a, 107, r))]
    if upper:
        return [z3.If(z3.And(c >= 97, c <= 122), c - 32, c)]
    return [z3.If(z3.And(c >= 65, c <= 90), c + 32, c)]


def char_class(ip, codes, kind, pred, name):
    """isdigit etc: every character satisfies pred, ASCII only"""
    if not codes:
        return False
    conds = []
    for c in codes:
        if isinstance(c, int):
            s = chr(c) if kind == 'str' else bytes([c])
            if not getattr(s, name)():
                return False
            continue
        if kind == 'str' and not ip.truth(c < 128):
            raise Unsupported("%s of a non-ASCII character" % name)
        conds.append(pred(c))
    return ip.and_(conds)


def class_unbounded(ip, v, name):
    """isdigit etc of text of unknown length"""
    kind = v.kind
    q = v.seq
    n = ip.z(ip.strlen(v))
    other = z3.Function('other_' + name, z3.IntSort(), z3.BoolSort())

    def pred(c):
        if kind == 'bytes':
            return PREDS[name](c)
        return z3.If(c < 128, PREDS[name](c), other(c))
    i = ip.e.fresh(z3.IntSort(), 'cc')
    if ip.truth(ip.e.fresh(z3.BoolSort(), name)):
        ip.e.assume(z3.And(n > 0, z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < n), pred(ip.seq_nth(q, i))))))
        # the first one is used most
        ip.e.assume(pred(ip.seq_nth(q, z3.IntVal(0))))
        return True
    w = ip.e.fresh(z3.IntSort(), 'cw')
    ip.e.assume(z3.Or(n == 0, z3.And(w >= 0, w < n, z3.Not(pred(
        ip.seq_nth(q, w))))))
    return False


PREDS = {
    'isdigit': lambda c: z3.And(c >= 48, c <= 57),
    'isdecimal': lambda c: z3.And(c >= 48, c <= 57),
    'isalpha': lambda c: z3.Or(z3.And(c >= 65, c <= 90),
                               z3.And(c >= 97, c <= 122)),
    'isalnum': lambda c: z3.Or(z3.And(c >= 48, c <= 57),
                               z3.And(c >= 65, c <= 90),
                               z3.And(c >= 97, c <= 122)),
}


def is_ws(ip, c, kind):
    return ip.or_([ip.eq(c, w) for w in
                   (WS_BYTES if kind == 'bytes' else WS_STR)])


def encode_code(ip, c, enc):
    if enc == 'utf-8':
        if ip.truth(ip.lt(c, 0x80)):
            return [c]
        if ip.truth(ip.lt(c, 0x800)):
            return [0xc0 + c / 64, 0x80 + c % 64]
        if ip.truth(ip.lt(c, 0x10000)):
            if ip.truth(z3.And(c >= 0xd800, c < 0xe000)):
                ip.raise_(UnicodeEncodeError, 'utf-8', '', 0, 1, 'surrogate')
            return [0xe0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
        return [0xf0 + c / 262144, 0x80 + (c / 4096) % 64,
                0x80 + (c / 64) % 64, 0x80 + c % 64]
    lim = 128 if enc == 'ascii' else 256
    if not ip.truth(ip.lt(c, lim)):
        ip.raise_(UnicodeEncodeError, enc, '', 0, 1, 'ordinal not in range')
    return [c]


def norm_enc(e):
    e = e.lower().replace('_', '-')
    if e in ('ascii', 'us-ascii'):
        return 'ascii'
    if e in ('latin-1', 'iso-8859-1', 'latin1', 'iso8859-1'):
        return 'latin-1'
    if e in ('utf-8', 'utf8'):
        return 'utf-8'
    raise Unsupported("encoding %s" % e)


def decode_codes(ip, codes, enc):
    if enc != 'utf-8':
        lim = 128 if enc == 'ascii' else 256
        for c in codes:
            if not ip.truth(ip.lt(c, lim)):
                ip.raise_(UnicodeDecodeError, enc, b'', 0, 1, 'not in range')
        return list(codes)
    out = []
    i = 0
    n = len(codes)

    def fail():
        ip.raise_(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')

    def cont(j, lo=0x80, hi=0xbf):
        if j >= n:
            fail()
        c = ip.z(codes[j])
        if not ip.truth(z3.And(c >= lo, c <= hi)):
            fail()
        return c
    while i < n:
        c = codes[i]
        if ip.truth(ip.lt(c, 0x80)):
            out.append(c)
            i += 1
            continue
        c = ip.z(c)
        if ip.truth(z3.And(c >= 0xc2, c <= 0xdf)):
            d = cont(i + 1)
            out.append(z3.simplify((c - 0xc0) * 64 + d - 0x80))
            i += 2
        elif ip.truth(z3.And(c >= 0xe0, c <= 0xef)):
            if ip.truth(c == 0xe0):
                d = cont(i + 1, 0xa0)
            elif ip.truth(c == 0xed):
                d = cont(i + 1, 0x80, 0x9f)
            else:
                d = cont(i + 1)
            f = cont(i + 2)
            out.append(z3.simplify((c - 0xe0) * 4096 + (d - 0x80) * 64 +
                                   f - 0x80))
            i += 3
        elif ip.truth(z3.And(c >= 0xf0, c <= 0xf4)):
            if ip.truth(c == 0xf0):
                d = cont(i + 1, 0x90)
            elif ip.truth(c == 0xf4):
                d = cont(i + 1, 0x80, 0x8f)
            else:
                d = cont(i + 1)
            f = cont(i + 2)
            g = cont(i + 3)
            out.append(z3.simplify((c - 0xf0) * 262144 + (d - 0x80) * 4096 +
                                   (f - 0x80) * 64 + g - 0x80))
            i += 4
        else:
            fail()
    return out


def match_at(ip, codes, sub, i):
    if i + len(sub) > len(codes) or i < 0:
        return False
    return ip.and_([ip.eq(codes[i + j], sub[j]) for j in range(len(sub))])


#: pieces that a split of text of unknown length is followed for


def first_index(ip, q, start, end, c):
    """The first index of c in q at or after start and before end, or -1.
    Asked twice it is the same term"""
    start = z3.simplify(start)
    key = ('first', q.get_id(), start.get_id(), end.get_id(), c.get_id())
    if key not in ip.e.cache:
        r = ip.e.fresh(z3.IntSort(), 'first')
        i = ip.e.fresh(z3.IntSort(), 'rf')
        ip.e.assume(z3.And(
            z3.Or(r == -1, z3.And(r >= start, r < end)),
            z3.Implies(r >= 0, ip.seq_nth(q, r) == c),
            z3.ForAll([i], z3.Implies(
                z3.And(i >= start, i < end, z3.Or(r < 0, i < r)),
                ip.seq_nth(q, i) != c))))
        ip.e.cache[key] = (r, q, start, end, c)
    return ip.e.cache[key][0]


def base_text(ip, v):
    """The text that this is a slice of, and where it starts and ends"""
    q = seq_of(v)
    n = ip.z(ip.strlen(v))
    start = z3.IntVal(0)
    while q.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        base, o, m = q.children()
        if not ip.e.entails(z3.And(o >= 0, m >= 0,
                                   o + m <= z3.Length(base))):
            break
        q, start, n = base, o + start, m
    return q, z3.simplify(start), z3.simplify(start + n)


def bound_index(ip, q, start, end, cs, last, among):
    """The first (last) index in start..end of a code that is (among) or is
    not one of cs; end (start - 1) when there is none. Cached"""
    key = ('bound', q.get_id(), start.get_id(), end.get_id(), last, among,
           tuple(c if isinstance(c, int) else c.get_id() for c in cs))
    if key not in ip.e.cache:
        r = ip.e.fresh(z3.IntSort(), 'last' if last else 'first')
        i = ip.e.fresh(z3.IntSort(), 'rf')

        def hit(j):
            x = ip.seq_nth(q, j)
            if among:
                return ip.or_([x == ip.z(y) for y in cs])
            return ip.and_([x != ip.z(y) for y in cs])

        def miss(j):
            x = ip.seq_nth(q, j)
            if among:
                return ip.and_([x != ip.z(y) for y in cs])
            return ip.or_([x == ip.z(y) for y in cs])
        if last:
            ip.e.assume(z3.And(
                r >= start - 1, r < end,
                z3.Implies(r >= start, hit(r)),
                z3.ForAll([i], z3.Implies(z3.And(i > r, i < end),
                                          miss(i)))))
        else:
            ip.e.assume(z3.And(
                r >= start, r <= end,
                z3.Implies(r < end, hit(r)),
                z3.ForAll([i], z3.Implies(z3.And(i >= start, i < r),
                                          miss(i)))))
        ip.e.cache[key] = (r, q, start, end, cs)
    return ip.e.cache[key][0]


def strip_unbounded(ip, v, name, args):
    """strip of known characters"""
    cs = codes_of(args[0]) if args and args[0] is not None else None
    if not cs:
        raise Unsupported("%s of text of unknown length" % name)
    q, start, end = base_text(ip, v)
    cs = tuple(cs)
    lo, hi = start, end
    if name != 'lstrip':
        hi = bound_index(ip, q, start, end, cs, True, False) + 1
        ip.e.assume(z3.And(hi >= start, hi <= end))
    if name != 'rstrip':
        lo = bound_index(ip, q, start, end, cs, False, False)
        if name == 'strip':
            # the same characters bound it from both sides
            lo = z3.If(hi > lo, lo, hi)
    return SStr(kind_of(v), seq=z3.SubSeq(q, lo, z3.simplify(hi - lo)))


def split_unbounded(ip, v, name, args, kw):
    """split or partition by a single character"""
    sep = args[0] if args else kw.get('sep')
    sc = None if sep is None else codes_of(sep)
    maxs = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
    if sc is None or len(sc) != 1 or is_z3(maxs):
        raise Unsupported("%s of text of unknown length" % name)
    kind = kind_of(v)
    q, start, end = base_text(ip, v)
    c = ip.z(sc[0])

    def piece(lo, hi):
        return SStr(kind, seq=z3.SubSeq(q, lo, z3.simplify(hi - lo)))
    out = []
    if name == 'partition':
        maxs = 1
    while True:
        start = z3.simplify(start)
        rest = piece(start, end)
        if 0 <= maxs <= len(out):
            break
        r = first_index(ip, q, start, end, c)
        if ip.truth(r < 0):
            break
        if len(out) >= ip.e.splits:
            m = ip.e.fresh(z3.IntSort(), 'pieces')
            ip.e.assume(m > len(out) + 1)
            i = ip.e.fresh(z3.IntSort(), 'rs')
            f = ip.e.fresh_fun('piece', z3.IntSort(), IntSeq)

            def elem(j):
                x = f(j)
                ip.e.add(z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < z3.Length(x)),
                    z3.And(ip.seq_nth(x, i) != c, ip.seq_nth(x, i) >= 0,
                           ip.seq_nth(x, i) <= (
                               255 if kind == 'bytes' else 0x10ffff)))))
                return SStr(kind, seq=x)
            return LongList(out, m, elem)
        out.append(piece(start, r))
        start = r + 1
    if name == 'partition':
        e = mk_str(kind, [])
        return (out[0], sep, rest) if out else (v, e, e)
    return out + [rest]


def str_method(ip, v, name, args, kw):
    kind = kind_of(v)
    if name == 'join':
        return join(ip, v, args[0])
    if not isinstance(v, SStr) and not has_sym(args) and not has_sym(kw):
        try:
            return getattr(v, name)(*args, **kw)
        except Exception as err:
            ip.raise_(type(err), *err.args)
    if name == 'format':
        return Opaque()
    for a in args:
        if isinstance(a, Opaque):
            raise Unsupported("opaque argument")
        if is_strlike(a) and name not in ('encode', 'decode') and \
                kind_of(a) != kind:
            ip.raise_(TypeError, "a bytes-like object is required")
    codes = codes_of(v)
    mk = lambda cs: mk_str(kind, cs)    # noqa
    if name in ('startswith', 'endswith'):
        if len(args) > 1:
            raise Unsupported("startswith with position")
        subs = args[0] if isinstance(args[0], tuple) else (args[0],)
        out = []
        for s in subs:
            sc = codes_of(s)
            if codes is not None and sc is not None:
                if name == 'startswith':
                    out.append(match_at(ip, codes, sc, 0))
                else:
                    out.append(match_at(ip, codes, sc,
                                        len(codes) - len(sc)))
            elif name == 'startswith':
                out.append(z3.PrefixOf(seq_of(s), seq_of(v)))
            else:
                out.append(z3.SuffixOf(seq_of(s), seq_of(v)))
        return ip.or_(out)
    if name in ('find', 'index', 'rfind', 'rindex'):
        sub = args[0]
        if ip.num(sub) is not None and kind == 'bytes':
            sub = mk_str('bytes', [sub])
        sc = codes_of(sub)
        if codes is not None and sc is not None:
            lo, hi = 0, len(codes)
            if len(args) > 1:
                if is_z3(args[1]):
                    raise Unsupported("find from a symbolic position")
                lo = args[1] or 0
                if lo < 0:
                    lo = max(0, len(codes) + lo)
            if len(args) > 2 and args[2] is not None:
                if is_z3(args[2]):
                    raise Unsupported("find to a symbolic position")
                hi = args[2] if args[2] >= 0 else len(codes) + args[2]
                hi = min(hi, len(codes))
            rng = range(lo, hi - len(sc) + 1)
            if name.startswith('r'):
                rng = reversed(rng)
            for i in rng:
                if ip.truth(match_at(ip, codes, sc, i)):
                    return i
            if name.endswith('index'):
                ip.raise_(ValueError, "substring not found")
            return -1
        if name in ('find', 'index') and len(args) == 1 and \
                sc is not None and len(sc) == 1:
            r = first_index(ip, seq_of(v), z3.IntVal(0),
                            z3.simplify(ip.z(ip.strlen(v))), ip.z(sc[0]))
            if name == 'index' and ip.truth(r < 0):
                ip.raise_(ValueError, "substring not found")
            return r
        if name in ('find', 'index') and len(args) <= 2:
            start = ip.z(args[1]) if len(args) > 1 else z3.IntVal(0)
            if sc is not None and len(sc) == 1 and \
                    ip.e.entails(start >= 0):
                r = first_index(ip, seq_of(v), start, z3.simplify(
                    ip.z(ip.strlen(v))), ip.z(sc[0]))
            else:
                r = z3.IndexOf(seq_of(v), seq_of(sub), start)
            if name == 'index' and ip.truth(r < 0):
                ip.raise_(ValueError, "substring not found")
            return r
        if name in ('rfind', 'rindex') and len(args) == 1 and \
                sc is not None and len(sc) == 1:
            q = seq_of(v)
            n = ip.z(ip.strlen(v))
            c = ip.z(sc[0])
            key = ('rfind', q.get_id(), c.get_id())
            if key not in ip.e.cache:
                r = ip.e.fresh(z3.IntSort(), 'rfind')
                i = ip.e.fresh(z3.IntSort(), 'rf')
                ip.e.assume(z3.And(
                    r >= -1, r < n,
                    z3.Implies(r >= 0, ip.seq_nth(q, r) == c),
                    z3.ForAll([i], z3.Implies(z3.And(i > r, i < n),
                                              ip.seq_nth(q, i) != c))))
                ip.e.cache[key] = (r, q, c)
            r = ip.e.cache[key][0]
            if name == 'rindex' and ip.truth(r < 0):
                ip.raise_(ValueError, "substring not found")
            return r
        raise Unsupported("%s in text of unknown length" % name)
    if name == '__contains__':
        return ip.contains(v, args[0])
    if name == '__getitem__':
        return ip.getitem(v, args[0])
    if name == '__len__':
        return ip.strlen(v)
    if name in ('encode', 'decode'):
        enc = norm_enc(args[0] if args else kw.get('encoding', 'utf-8'))
        if len(args) > 1 or kw.get('errors'):
            raise Unsupported("codec error handler")
        if (name == 'encode') != (kind == 'str'):
            ip.raise_(AttributeError, name)
        if codes is None:
            return codec_unbounded(ip, v, name, enc)
        if name == 'encode':
            out = []
            for c in codes:
                out.extend([c] if isinstance(c, int) and c < 128
                           else encode_code(ip, c if is_z3(c)
                                            else z3.IntVal(c), enc))
            return mk_str('bytes', [
                x if isinstance(x, int) else _simp(x) for x in out])
        return mk_str('str', [x if isinstance(x, int) else _simp(x)
                              for x in decode_codes(ip, codes, enc)])
    if codes is None:
        h = getattr(ip.kit, 'text_method', None)
        if h is not None:
            r = h(v, name, args, kw)
            if r is not None:
                return r
        if name in PREDS and not args:
            return class_unbounded(ip, v, name)
        if name in ('strip', 'lstrip', 'rstrip'):
            return strip_unbounded(ip, v, name, args)
        if name in ('split', 'partition'):
            return split_unbounded(ip, v, name, args, kw)
        if name in ('lower', 'upper', 'casefold', 'title'):
            # a short slice of a longer text
            n = ip.z(ip.strlen(v))
            if not ip.truth(n > 5):
                for i in range(6):
                    if i == 5 or ip.truth(n == i):
                        v = mk_str(kind, [_simp(ip.seq_nth(v.seq, z3.IntVal(
                            j))) for j in range(i)])
                        return str_method(ip, v, name, args, kw)
        raise Unsupported("method %s of text of unknown length" % name)
    # from here the length is known
    if name in ('lower', 'upper', 'casefold'):
        if name == 'lower' and kind == 'str':
            return mk(lower_codes(ip, codes))
        out = []
        for c in codes:
            out.extend(lower_code(ip, c, kind, name == 'upper'))
        return mk(out)
    if name in PREDS:
        return char_class(ip, codes, kind, PREDS[name], name)
    if name == 'isspace':
        if not codes:
            return False
        return ip.and_([is_ws(ip, c, kind) for c in codes])
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = args[0] if args and args[0] is not None else None
        if chars is not None:
            cc = codes_of(chars)
            test = lambda c: ip.or_([ip.eq(c, x) for x in cc])  # noqa
        else:
            test = lambda c: is_ws(ip, c, kind)     # noqa
        a, b = 0, len(codes)
        if name != 'rstrip':
            while a < b and ip.truth(test(codes[a])):
                a += 1
        if name != 'lstrip':
            while b > a and ip.truth(test(codes[b - 1])):
                b -= 1
        return mk(codes[a:b])
    if name in ('split', 'rsplit'):
        sep = args[0] if args else kw.get('sep')
        maxs = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if sep is None:
            if maxs != -1:
                raise Unsupported("split() with maxsplit")
            out, cur = [], None
            for c in codes:
                if ip.truth(is_ws(ip, c, kind)):
                    if cur is not None:
                        out.append(mk(cur))
                        cur = None
                else:
                    cur = (cur or []) + [c]
            if cur is not None:
                out.append(mk(cur))
            return out
        sc = codes_of(sep)
        if name == 'split':
            out = []
            start = i = 0
            while i <= len(codes) - len(sc):
                if maxs >= 0 and len(out) >= maxs:
                    break
                if ip.truth(match_at(ip, codes, sc, i)):
                    out.append(mk(codes[start:i]))
                    i += len(sc)
                    start = i
                else:
                    i += 1
            out.append(mk(codes[start:]))
            return out
        out = []
        end = len(codes)
        i = end - len(sc)
        while i >= 0:
            if maxs >= 0 and len(out) >= maxs:
                break
            if ip.truth(match_at(ip, codes, sc, i)):
                out.append(mk(codes[i + len(sc):end]))
                end = i
                i -= len(sc)
            else:
                i -= 1
        out.append(mk(codes[:end]))
        out.reverse()
        return out
    if name in ('partition', 'rpartition'):
        sc = codes_of(args[0])
        rng = range(len(codes) - len(sc) + 1)
        if name == 'rpartition':
            rng = reversed(rng)
        for i in rng:
            if ip.truth(match_at(ip, codes, sc, i)):
                return (mk(codes[:i]), args[0], mk(codes[i + len(sc):]))
        e = mk([])
        return (v, e, e) if name == 'partition' else (e, e, v)
    if name == 'replace':
        sc, rc = codes_of(args[0]), codes_of(args[1])
        if rc is None or not sc or len(args) > 2:
            raise Unsupported("replace")
        out = []
        i = 0
        while i < len(codes):
            if ip.truth(match_at(ip, codes, sc, i)):
                out.extend(rc)
                i += len(sc)
            else:
                out.append(codes[i])
                i += 1
        return mk(out)
    if name == 'count':
        sc = codes_of(args[0])
        n = i = 0
        while i <= len(codes) - len(sc):
            if ip.truth(match_at(ip, codes, sc, i)):
                n += 1
                i += len(sc)
            else:
                i += 1
        return n
    if name in ('zfill', 'rjust', 'ljust'):
        w = args[0]
        pad = max(0, w - len(codes))
        if name == 'zfill':
            if codes and ip.truth(ip.or_([ip.eq(codes[0], 43),
                                          ip.eq(codes[0], 45)])):
                return mk([codes[0]] + [48] * pad + codes[1:])
            return mk([48] * pad + codes)
        fill = codes_of(args[1])[0] if len(args) > 1 else 32
        if name == 'rjust':
            return mk([fill] * pad + codes)
        return mk(codes + [fill] * pad)
    raise Unsupported("string method %s" % name)


def _simp(x):
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    return x


def codec_unbounded(ip, v, name, enc):
    other = 'bytes' if name == 'encode' else 'str'
    if enc in ('ascii', 'latin-1'):
        if name == 'decode' and enc == 'latin-1':
            return SStr(other, seq=v.seq)
        lim = 128 if enc == 'ascii' else 256
        i = z3.Int('cdc!i')
        cond = z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < z3.Length(v.seq)), v.seq[i] < lim))
        if ip.e.entails(cond) or ip.truth(cond):
            return SStr(other, seq=v.seq)
        ip.raise_(UnicodeEncodeError if name == 'encode' else
                  UnicodeDecodeError)
    h = getattr(ip.kit, 'codec', None)
    if h is not None:
        r = h(v, name, enc)
        if r is not None:
            return r
    raise Unsupported("%s of text of unknown length as %s" % (name, enc))


def join(ip, sep, items):
    kind = kind_of(sep)
    if isinstance(items, JoinList):
        if items.items == 'codes':
            ip.raise_(TypeError, "expected str instance")
        if not isinstance(sep, SStr) and len(sep) == 0:
            if items.kind != kind:
                ip.raise_(TypeError, "expected str instance")
            return SStr(kind, seq=items.seq)
        raise Unsupported("join of an abstract list with a separator")
    if is_strlike(items):
        items = ip.iter_list(items)
    parts = ip.iter_list(items)
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, Opaque):
            return Opaque()
        if not is_strlike(p) or kind_of(p) != kind:
            ip.raise_(TypeError, "sequence item %i: expected %s instance" % (
                i, kind))
        if i:
            out.append(sep)
        out.append(p)
    return ip.concat(kind, out)
