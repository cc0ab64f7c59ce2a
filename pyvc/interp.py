"""Symbolic interpreter for the Python subset.

The functions interpreted are found from the real function objects of the
imported modules: the AST is read from the source file of the module, at the
line the code object says.  Nothing is transcribed by hand.
"""
import ast
import builtins
import copy as copymod
import decimal
import inspect
import math
import os
import types
import z3

from .values import *   # noqa
from .engine import Engine


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class Frame(object):
    def __init__(self, func_name, glob, locals_=None, free=None, cls=None,
                 parent=None):
        self.func_name = func_name
        self.glob = glob
        self.locals = locals_ if locals_ is not None else {}
        self.free = free or {}
        self.parent = parent        # enclosing interpreted frame (closures)
        self.cls = cls
        self.cur_exc = None
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.yields = None


_MISSING = object()


class NO_EFFECTS(object):
    allowed = frozenset()


# module prefixes whose functions are interpreted from source
INTERPRET = ('pyslet', 'contracts', 'speclib')


class SourceIndex(object):
    """Finds AST nodes of real functions"""

    def __init__(self):
        self.files = {}

    def _load(self, fname):
        if fname not in self.files:
            with open(fname, 'rb') as f:
                src = f.read()
            tree = ast.parse(src, fname)
            idx = {}
            parents = {}

            def walk(node, cls, qual):
                loops = [0]
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef,
                                       ast.AsyncFunctionDef)):
                        line = min([ch.lineno] + [d.lineno for d in
                                                  ch.decorator_list])
                        idx.setdefault(line, []).append((ch, cls))
                        walk(ch, cls, qual + [ch.name])
                    elif isinstance(ch, ast.Lambda):
                        idx.setdefault(ch.lineno, []).append((ch, cls))
                        walk(ch, cls, qual)
                    elif isinstance(ch, ast.ClassDef):
                        walk(ch, ch.name, qual + [ch.name])
                    else:
                        walk(ch, cls, qual)
            walk(tree, None, [])
            self.files[fname] = idx
        return self.files[fname]

    def find(self, func):
        code = func.__code__
        fname = code.co_filename
        if not os.path.exists(fname):
            raise Unsupported("no source for %s" % func)
        cands = self._load(fname).get(code.co_firstlineno, [])
        name = code.co_name
        for node, cls in cands:
            if isinstance(node, ast.Lambda):
                if name == '<lambda>' and \
                        [a.arg for a in node.args.args] == list(
                            code.co_varnames[:code.co_argcount]):
                    return node, cls
            elif node.name == name:
                return node, cls
        raise Unsupported("cannot locate the source of %s" % func)


SOURCES = SourceIndex()


def assigned_names(nodes):
    """Names bound by the statements (not nested functions)"""
    names = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            if not isinstance(n, ast.Lambda):
                names.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return names


def mutated_names(nodes):
    """Names of the containers that the statements may change in place"""
    names = set()
    for st in nodes:
        for n in ast.walk(st):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) or isinstance(
                    n, ast.Attribute) and n.attr in (
                    'append', 'extend', 'insert', 'pop', 'remove'):
                if isinstance(n.value, ast.Name):
                    names.add(n.value.id)
    return names


def _simple_pure(node):
    """Expression with no effects, no exceptions worth speaking of"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp,
                          ast.UnaryOp, ast.Load, ast.Not, ast.And, ast.Or,
                          ast.USub, ast.cmpop, ast.Add, ast.Sub, ast.Mult,
                          ast.Tuple)):
            continue
        if isinstance(n, ast.Attribute):
            continue
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                continue
            if isinstance(n.op, (ast.Mod, ast.FloorDiv)) and \
                    isinstance(n.right, ast.Constant) and \
                    isinstance(n.right.value, int) and n.right.value:
                continue
            return False
        if isinstance(n, (ast.Mod, ast.FloorDiv)):
            continue
        return False
    return True


class Interp(object):

    def __init__(self, engine):
        self.e = engine
        self.opaque_fmt = 0
        self.contracts = {}     # real function -> Contract (summaries)
        self.loopspecs = []     # LoopSpec objects usable in this proof
        self.kit = None
        self.depth = 0
        self.frozen = {}        # id -> object: containers of real modules
        self.loop_seen = {}
        self.effects = {}       # real function -> python callable handler
        self.no_interpret = set()
        self.pure_ctx = 0
        self.linear_div = True

    # ------------------------------------------------------------------
    # helpers
    probing = False     # within hasattr or getattr with a default

    def raise_(self, cls, *args):
        raise PyRaise(Obj(cls, {'args': args}))

    def freeze(self, v):
        """Mark containers that belong to the real modules"""
        if isinstance(v, (list, dict, set, bytearray)):
            self.frozen[id(v)] = v
        return v

    def check_mutable(self, v):
        if id(v) in self.frozen:
            raise Unsupported("mutation of module-level state")

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, z3.ArithRef):
            return v
        return None

    def z(self, v):
        """to z3 arith"""
        v = self.num(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported("non-finite float")
            return z3.RealVal(repr(v)) if False else z3.RealVal(
                str(decimal.Decimal(v)))
        return v

    def truth_expr(self, v):
        """Boolean (python or z3) of v; may interpret __bool__"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, SStr):
            if v.chars is not None:
                return len(v.chars) > 0
            return z3.Length(v.seq) != 0
        if isinstance(v, JoinList):
            if v.items in ('codes', 'chars'):
                return z3.Length(v.seq) != 0
            raise Unsupported("truth of a joined list")
        if isinstance(v, LongList):
            return z3.simplify(self.z(v.length) > 0) if not v.items else True
        if isinstance(v, (Closure, BoundM, BuiltinM)):
            return True
        if isinstance(v, Opaque):
            # either is considered
            return self.e.fresh(z3.BoolSort(), 'opaque')
        if isinstance(v, Undef):
            raise Unsupported("use of %r" % v)
        if isinstance(v, Obj):
            for name in ('__bool__', '__len__'):
                d = self.class_lookup(v.cls, name)
                if d is not _MISSING:
                    r = self.call(self.bind(d, v, v.cls), [], {})
                    return self.truth_expr(r)
            return True
        if isinstance(v, SymRange):
            raise Unsupported("truth of symbolic range")
        if self.is_pyslet_instance(v):
            for name in ('__bool__', '__len__'):
                d = self.class_lookup(type(v), name)
                if d is not _MISSING and isinstance(d, types.FunctionType):
                    r = self.call(self.bind(d, v, type(v)), [], {})
                    return self.truth_expr(r)
        return bool(v)

    def truth(self, v):
        t = self.truth_expr(v)
        if isinstance(t, bool):
            return t
        if self.pure_ctx:
            raise Unsupported("branching inside a quantified formula")
        return self.e.branch(t)

    # -- equality and order --------------------------------------------
    def eq(self, a, b):
        if a is b:
            if isinstance(a, float) and a != a:
                return False
            return True
        for x in (a, b):
            if isinstance(x, Undef):
                raise Unsupported("use of %r" % x)
            if isinstance(x, Opaque):
                raise Unsupported("comparison of opaque text")
        if a is None or b is None:
            return self._eq_obj(a, b) if isinstance(
                a if b is None else b, Obj) and False else False
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            if not is_z3(na) and not is_z3(nb):
                return na == nb
            if isinstance(na, float) or isinstance(nb, float):
                try:
                    return self.z(na) == self.z(nb)
                except Unsupported:
                    return False    # inf/nan never equal a modelled real
            return self.z(na) == self.z(nb)
        if is_strlike(a) and is_strlike(b):
            return self.str_eq(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Obj) or isinstance(b, Obj) or \
                self.is_pyslet_instance(a) or self.is_pyslet_instance(b):
            return self._eq_obj(a, b)
        if isinstance(a, JoinList) or isinstance(b, JoinList):
            raise Unsupported("equality of abstract lists")
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return self.and_([self.eq(a[k], b[k]) for k in a])
        if isinstance(a, BoundM) or isinstance(b, BoundM):
            return False
        if has_sym(a) or has_sym(b):
            if self.kind_group(a) != self.kind_group(b):
                return False
            raise Unsupported("equality of %r and %r" % (type(a), type(b)))
        return a == b

    def kind_group(self, v):
        if isinstance(v, (int, float, z3.ExprRef)):
            return 'num'
        if is_strlike(v):
            return 'str' + kind_of(v)
        if isinstance(v, (list, JoinList)):
            return 'list'
        return type(v).__name__

    def _eq_obj(self, a, b):
        if self.is_instance_like(a):
            d = self.class_lookup(self.class_of(a), '__eq__')
            if d is not _MISSING and isinstance(d, types.FunctionType):
                r = self.call(self.bind(d, a, self.class_of(a)), [b], {})
                if r is not NotImplemented:
                    return self.truth_expr(r)
        if self.is_instance_like(b):
            d = self.class_lookup(self.class_of(b), '__eq__')
            if d is not _MISSING and isinstance(d, types.FunctionType):
                r = self.call(self.bind(d, b, self.class_of(b)), [a], {})
                if r is not NotImplemented:
                    return self.truth_expr(r)
        return a is b

    def is_pyslet_instance(self, v):
        if isinstance(v, (type, types.FunctionType, types.ModuleType)):
            return False
        m = getattr(type(v), '__module__', '') or ''
        return m.split('.')[0] in INTERPRET

    def is_instance_like(self, v):
        return isinstance(v, Obj) or self.is_pyslet_instance(v)

    def class_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        return type(v)

    def str_eq(self, a, b):
        if kind_of(a) != kind_of(b):
            return False
        ca, cb = codes_of(a), codes_of(b)
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(ca, cb)])
        if ca is not None or cb is not None:
            # known length against unknown
            codes, other = (ca, b) if ca is not None else (cb, a)
            return other.seq == codes_to_seq(codes)
        return a.seq == b.seq

    def and_(self, l):
        l = [x for x in l if x is not True]
        if any(x is False for x in l):
            return False
        if not l:
            return True
        if len(l) == 1:
            return l[0]
        return z3.And(*l)

    def or_(self, l):
        l = [x for x in l if x is not False]
        if any(x is True for x in l):
            return True
        if not l:
            return False
        if len(l) == 1:
            return l[0]
        return z3.Or(*l)

    def not_(self, x):
        if isinstance(x, bool):
            return not x
        return z3.Not(x)

    def lt(self, a, b, strict=True):
        """a < b (or a <= b)"""
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            if not is_z3(na) and not is_z3(nb):
                return na < nb if strict else na <= nb
            for x, y, flip in ((na, nb, False), (nb, na, True)):
                if isinstance(x, float) and x in (float('inf'),
                                                  float('-inf')):
                    r = x < 0
                    return (not r) if flip else r
                if isinstance(x, float) and x != x:
                    return False
            za, zb = self.z(na), self.z(nb)
            return za < zb if strict else za <= zb
        if is_strlike(a) and is_strlike(b) and kind_of(a) == kind_of(b):
            ca, cb = codes_of(a), codes_of(b)
            if ca is not None and cb is not None:
                return self.lex(ca, cb, strict)
            raise Unsupported("ordering of symbolic strings")
        if isinstance(a, tuple) and isinstance(b, tuple) or \
                isinstance(a, list) and isinstance(b, list):
            return self.lex(a, b, strict)
        if self.is_instance_like(a) or self.is_instance_like(b):
            n1, n2 = ('__lt__', '__gt__') if strict else ('__le__', '__ge__')
            for x, y, n in ((a, b, n1), (b, a, n2)):
                if self.is_instance_like(x):
                    d = self.class_lookup(self.class_of(x), n)
                    if isinstance(d, types.FunctionType):
                        r = self.call(self.bind(d, x, self.class_of(x)),
                                      [y], {})
                        if r is not NotImplemented:
                            return self.truth_expr(r)
            self.raise_(TypeError, "unorderable")
        if has_sym(a) or has_sym(b):
            if a is None or b is None or \
                    self.kind_group(a) != self.kind_group(b):
                self.raise_(TypeError, "unorderable")
            raise Unsupported("ordering of %r and %r" % (a, b))
        try:
            return a < b if strict else a <= b
        except TypeError as err:
            self.raise_(TypeError, str(err))

    def lex(self, a, b, strict):
        # only the first items that differ are ordered
        eqs = []
        r = len(a) < len(b) if strict else len(a) <= len(b)
        for x, y in zip(a, b):
            eqs.append(self.eq(x, y))
            if eqs[-1] is False:
                break
        for i in range(len(eqs) - 1, -1, -1):
            e = eqs[i]
            if e is True:
                continue
            if e is False:
                r = self.lt(a[i], b[i])
                continue
            r = self.or_([self.lt(a[i], b[i]), self.and_([e, r])])
        return r

    # -- arithmetic -------------------------------------------------------
    def floordiv(self, a, b):
        a, b = self.num(a), self.num(b)
        if not is_z3(a) and not is_z3(b):
            try:
                return a // b
            except ZeroDivisionError:
                self.raise_(ZeroDivisionError)
        if self._isreal(a) or self._isreal(b):
            za, zb = self.z(a), self.z(b)
            if self.truth(zb == 0):
                self.raise_(ZeroDivisionError)
            return z3.ToReal(z3.ToInt(z3.ToReal(za) if za.is_int() else za /
                                      (z3.ToReal(zb) if zb.is_int() else zb))
                             ) if not za.is_int() else z3.ToReal(
                z3.ToInt(z3.ToReal(za) / (z3.ToReal(zb)
                                          if zb.is_int() else zb)))
        za = self.z(a)
        if isinstance(b, int):
            if b == 0:
                self.raise_(ZeroDivisionError)
            if b > 0:
                return self.quotient(za, b)
            return self.quotient(-za, -b)
        if self.truth(b == 0):
            self.raise_(ZeroDivisionError)
        if self.truth(b > 0):
            return za / b
        return (-za) / (-b)

    def quotient(self, za, b):
        """floor(za / b) for an integer constant b > 0"""
        if b == 1:
            return za
        za = z3.simplify(za)
        if z3.is_int_value(za):
            return z3.IntVal(za.as_long() // b)
        if self.pure_ctx or not self.linear_div:
            return za / b
        key = ('quo', za.get_id(), b)
        got = self.e.cache.get(key)
        if got is None:
            q = self.e.fresh(z3.IntSort(), 'q')
            self.e.add(z3.And(b * q <= za, za <= b * q + (b - 1)))
            # keep the term alive: ids are reused
            got = self.e.cache[key] = (q, za)
        return got[0]

    def mod(self, a, b):
        a, b = self.num(a), self.num(b)
        if not is_z3(a) and not is_z3(b):
            try:
                return a % b
            except ZeroDivisionError:
                self.raise_(ZeroDivisionError)
        if self._isreal(a) or self._isreal(b):
            q = self.floordiv(a, b)
            return self.z(a) - self.z(b) * q
        za = self.z(a)
        if isinstance(b, int):
            if b == 0:
                self.raise_(ZeroDivisionError)
            if b > 0:
                return za - b * self.quotient(za, b)
            return -((-za) - (-b) * self.quotient(-za, -b))
        if self.truth(b == 0):
            self.raise_(ZeroDivisionError)
        if self.truth(b > 0):
            return za % b
        return -((-za) % (-b))

    def _isreal(self, v):
        return isinstance(v, float) or is_sreal(v)

    def to_int(self, r):
        """truncation of a real"""
        if isinstance(r, (int, float)):
            return int(r)
        if r.is_int():
            return r
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Undef):
                raise Unsupported("use of %r" % x)
        if isinstance(op, ast.Mod) and is_strlike(a):
            return self.fmt_percent(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(op, ast.Add) and (is_strlike(a) or is_strlike(b) or
                                            isinstance(a, Opaque) and
                                            isinstance(b, Opaque)):
                return Opaque()
            raise Unsupported("operation on opaque text")
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            if not is_z3(na) and not is_z3(nb):
                return self.native_binop(op, a, b)
            if isinstance(op, ast.Add):
                return self.z(na) + self.z(nb)
            if isinstance(op, ast.Sub):
                return self.z(na) - self.z(nb)
            if isinstance(op, ast.Mult):
                return self.z(na) * self.z(nb)
            if isinstance(op, ast.FloorDiv):
                return self.floordiv(na, nb)
            if isinstance(op, ast.Mod):
                return self.mod(na, nb)
            if isinstance(op, ast.Div):
                za, zb = self.z(na), self.z(nb)
                if self.truth(zb == 0):
                    self.raise_(ZeroDivisionError)
                if za.is_int():
                    za = z3.ToReal(za)
                if zb.is_int():
                    zb = z3.ToReal(zb)
                return za / zb
            if isinstance(op, ast.Pow):
                if isinstance(nb, int) and 0 <= nb <= 8:
                    r = z3.IntVal(1)
                    for i in range(nb):
                        r = r * self.z(na)
                    return r
                raise Unsupported("symbolic power")
            if isinstance(op, ast.LShift) and isinstance(nb, int):
                return self.z(na) * (1 << nb)
            if isinstance(op, ast.RShift) and isinstance(nb, int):
                return self.z(na) / (1 << nb)
            if isinstance(op, ast.BitAnd):
                return self.bitand(na, nb)
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and \
                    is_sbool(a) and is_sbool(b):
                return {'BitAnd': z3.And, 'BitOr': z3.Or,
                        'BitXor': z3.Xor}[type(op).__name__](a, b)
            raise Unsupported("operator %s" % type(op).__name__)
        if isinstance(op, ast.Add):
            if is_strlike(a) and is_strlike(b):
                if kind_of(a) != kind_of(b):
                    self.raise_(TypeError, "can't concat")
                return self.concat(kind_of(a), [a, b])
            if isinstance(a, list) and isinstance(b, list) or \
                    isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, JoinList) or isinstance(b, JoinList):
                return self.joinlist_add(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple)) and isinstance(y, int):
                    return x * y
                if isinstance(x, list) and len(x) == 1 and is_sint(y):
                    return LongList([], z3.If(y > 0, y, z3.IntVal(0)),
                                    lambda i, x=x[0]: x)
                if isinstance(x, SStr) and isinstance(y, int):
                    return self.concat(x.kind, [x] * y)
        if self.is_instance_like(a) or self.is_instance_like(b):
            names = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
                     'Div': '__truediv__', 'BitOr': '__or__',
                     'BitAnd': '__and__'}
            n = names.get(type(op).__name__)
            if n and self.is_instance_like(a):
                d = self.class_lookup(self.class_of(a), n)
                if isinstance(d, types.FunctionType):
                    return self.call(self.bind(d, a, self.class_of(a)),
                                     [b], {})
            self.raise_(TypeError, "unsupported operand")
        if has_sym(a) or has_sym(b):
            if a is None or b is None or \
                    self.kind_group(a) != self.kind_group(b):
                self.raise_(TypeError, "unsupported operand types")
            raise Unsupported("operator %s on %r, %r" % (
                type(op).__name__, type(a), type(b)))
        return self.native_binop(op, a, b)

    _ops = {
        'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
        'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
        'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
        'Pow': lambda a, b: a ** b, 'LShift': lambda a, b: a << b,
        'RShift': lambda a, b: a >> b, 'BitAnd': lambda a, b: a & b,
        'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b}

    def native_binop(self, op, a, b):
        try:
            return self._ops[type(op).__name__](a, b)
        except Exception as err:
            self.raise_(type(err), *err.args)

    def bitand(self, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b >= 0:
            # mask: sum over contiguous runs of bits
            if is_z3(a):
                r = z3.IntVal(0)
                bit = 0
                while (1 << bit) <= b:
                    if b & (1 << bit):
                        lo = bit
                        while b & (1 << bit):
                            bit += 1
                        r = r + ((a / (1 << lo)) % (1 << (bit - lo))) * \
                            (1 << lo)
                    else:
                        bit += 1
                return z3.simplify(r)
        raise Unsupported("bitwise and")

    # -- strings ------------------------------------------------------------
    def concat(self, kind, parts):
        parts = [p for p in parts if not (isinstance(p, (str, bytes)) and
                                          len(p) == 0)]
        if not parts:
            return '' if kind == 'str' else b''
        if len(parts) == 1:
            return parts[0]
        cs = [codes_of(p) for p in parts]
        if all(c is not None for c in cs):
            out = []
            for c in cs:
                out.extend(c)
            return mk_str(kind, out)
        seqs = [seq_of(p) for p in parts]
        return SStr(kind, seq=z3.Concat(*seqs))

    def maxcode(self, kind):
        return 0x10FFFF if kind == 'str' else 255

    def nth(self, s, i):
        """code at index i (0 <= i < len known to hold)"""
        c = z3.simplify(s.seq[i]) if isinstance(i, int) else \
            self.seq_nth(s.seq, i)
        key = ('rng', c.get_id())
        if key not in self.e.cache:
            self.e.cache[key] = c
            self.e.add(z3.And(c >= 0, c <= self.maxcode(s.kind)))
        return c

    def seq_nth(self, t, i):
        """t[i], for i inside t: looks through concatenations"""
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_UNIT:
            return t.arg(0)
        if k == z3.Z3_OP_SEQ_CONCAT:
            parts = t.children()
            off = z3.Sum([z3.Length(p) for p in parts[:-1]]) \
                if len(parts) > 2 else z3.Length(parts[0])
            r = self.seq_nth(parts[-1], z3.simplify(i - off))
            for n in range(len(parts) - 2, -1, -1):
                end = z3.Sum([z3.Length(p) for p in parts[:n + 1]]) \
                    if n else z3.Length(parts[0])
                beg = i if n == 0 else z3.simplify(i - z3.Sum(
                    [z3.Length(p) for p in parts[:n]]))
                r = z3.If(i < end, self.seq_nth(parts[n], beg), r)
            return r
        if k == z3.Z3_OP_SEQ_EXTRACT:
            return self.seq_nth(t.arg(0), z3.simplify(t.arg(1) + i))
        return t[i]

    def strip_units(self, seq, lo, hi):
        """seq[lo:hi] when the ends cut off are single known places"""
        if seq.decl().kind() != z3.Z3_OP_SEQ_CONCAT or not (
                lo is None or isinstance(lo, int) and lo >= 0) or not (
                    hi is None or isinstance(hi, int) and hi < 0):
            return None
        parts = []
        todo = [seq]
        while todo:
            t = todo.pop()
            if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                todo.extend(reversed(t.children()))
            else:
                parts.append(t)
        for i in range(lo or 0):
            if not parts or parts[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
                return None
            del parts[0]
        for i in range(-(hi or 0)):
            if not parts or parts[-1].decl().kind() != z3.Z3_OP_SEQ_UNIT:
                return None
            del parts[-1]
        if not parts:
            return z3.Empty(IntSeq)
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def strlen(self, s):
        c = codes_of(s)
        if c is not None:
            return len(c)
        return z3.Length(s.seq)

    def str_index(self, s, i):
        kind = kind_of(s)
        codes = codes_of(s)
        if codes is not None and isinstance(i, int):
            try:
                c = codes[i]
            except IndexError:
                self.raise_(IndexError, "string index out of range")
        else:
            n = self.strlen(s)
            i = self.num(i)
            if codes is not None:
                # symbolic index into known characters: case split
                for j in range(len(codes)):
                    if self.truth(self.or_([self.eq(i, j),
                                            self.eq(i, j - len(codes))])):
                        c = codes[j]
                        break
                else:
                    self.raise_(IndexError, "string index out of range")
            else:
                if isinstance(i, int) and i < 0:
                    i = n + i
                    if not self.truth(i >= 0):
                        self.raise_(IndexError, "string index out of range")
                elif not isinstance(i, int):
                    if self.truth(i < 0):
                        i = n + i
                        if not self.truth(i >= 0):
                            self.raise_(IndexError, "index out of range")
                if not self.truth(self.z(i) < n):
                    self.raise_(IndexError, "string index out of range")
                c = self.nth(s, i)
        if kind == 'bytes':
            return c
        return mk_str('str', [c])

    def str_slice(self, s, lo, hi, step):
        kind = kind_of(s)
        codes = codes_of(s)
        if codes is not None and all(
                x is None or isinstance(x, int) for x in (lo, hi, step)):
            return mk_str(kind, codes[lo:hi:step])
        if step not in (None, 1):
            raise Unsupported("extended slice")
        n = self.strlen(s)
        seq = seq_of(s)
        t = self.strip_units(seq, lo, hi)
        if t is not None:
            return SStr(kind, seq=t)

        def norm(x, default):
            if x is None:
                return default
            x = self.num(x)
            if isinstance(x, int):
                if x >= 0:
                    return z3.IntVal(x)
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            if self.e.entails(x >= 0):
                return x
            return z3.If(x >= 0, x, z3.If(n + x < 0, z3.IntVal(0), n + x))
        a = norm(lo, z3.IntVal(0))
        b = norm(hi, n if is_z3(n) else z3.IntVal(n))
        ln = b - a
        # a short slice inside the text: its characters
        d = z3.simplify(ln) if is_z3(ln) else z3.IntVal(ln)
        if z3.is_int_value(d) and 0 < d.as_long() <= 8 and self.e.entails(
                z3.And(a >= 0, a + d.as_long() <= z3.Length(seq))):
            t = SStr(kind, seq=seq)
            return mk_str(kind, [self.nth(t, z3.simplify(a + j))
                                 for j in range(d.as_long())])
        # SubSeq(s, off, len): empty when off > len or len <= 0, truncated
        return SStr(kind, seq=z3.SubSeq(seq, a, ln))

    def str_contains(self, hay, needle):
        """needle in hay"""
        if kind_of(hay) == 'bytes' and self.num(needle) is not None:
            codes = codes_of(hay)
            if codes is not None:
                return self.or_([self.eq(c, needle) for c in codes])
            return z3.Contains(hay.seq, z3.Unit(self.z(needle)))
        if not is_strlike(needle) or kind_of(hay) != kind_of(needle):
            self.raise_(TypeError, "in <string> requires string")
        ch, cn = codes_of(hay), codes_of(needle)
        if ch is not None and cn is not None:
            return self.or_([
                self.and_([self.eq(ch[i + j], cn[j])
                           for j in range(len(cn))])
                for i in range(len(ch) - len(cn) + 1)])
        if ch is not None and len(ch) <= 1 and needle.chars is None:
            pass
        return z3.Contains(seq_of(hay), seq_of(needle))

    # -- formatting ---------------------------------------------------------
    def fmt_int(self, v, width=0, zero=False, base=10, upper=False,
                plus=False):
        v = self.num(v)
        if isinstance(v, float) or is_sreal(v):
            v = self.to_int(v)
        if isinstance(v, int):
            f = '%' + ('+' if plus else '') + ('0' if zero else '') + (
                str(width) if width else '') + \
                ('d' if base == 10 else ('X' if upper else 'x'))
            return f % v
        if self.truth(v < 0):
            neg = True
            v = -v
        else:
            neg = False
        if not width and not plus and not self.e.entails(v < base ** 20):
            # the digits of an integer of any size
            f = z3.Function('itoa%i%s' % (base, 'u' if upper else ''),
                            z3.IntSort(), IntSeq)
            t = f(v)
            self.e.add(z3.Length(t) >= 1)
            out = SStr('str', seq=t)
            self.e.add(self.kit.all_codes(out, lambda c: z3.Or(
                z3.And(c >= 48, c <= 57), *([z3.And(
                    c >= (65 if upper else 97),
                    c <= (70 if upper else 102))] if base > 10 else []))))
            if base == 10:
                self.e.add(self.kit.decval(out) == v)
                self.e.add((t[0] == 48) == (v == 0))
                self.e.add(z3.Implies(v < 10, z3.Length(t) == 1))
            else:
                # int(t, 16) gives it back
                self.e.add(z3.Function('ishex', IntSeq, z3.BoolSort())(t))
                self.e.add(z3.Function('hexval', IntSeq, z3.IntSort())(
                    t) == v)
            return self.concat('str', ['-', out]) if neg else out
        n = 1
        if zero and width > 1:
            # zero padding: the digits are the same whatever their number
            n = width - (1 if neg or plus else 0)
        lim = base ** n
        while not self.truth(v < lim):
            n += 1
            lim *= base
            if n > 24:
                raise Unsupported("formatting of an unbounded integer")
        codes = []
        for i in range(n):
            d = self.mod(self.floordiv(v, base ** (n - 1 - i)), base) \
                if i else self.floordiv(v, base ** (n - 1))
            if base == 10:
                codes.append(d + 48)
            else:
                codes.append(z3.If(d < 10, d + 48, d + (55 if upper
                                                        else 87)))
        # int() of these digits gives the number back
        self.e.digits[base, tuple(
            c.get_id() if z3.is_expr(c) else c for c in codes)] = v, codes
        pre = [45] if neg else ([43] if plus else [])
        pad = width - n - len(pre)
        if pad > 0:
            if zero:
                codes = pre + [48] * pad + codes
            else:
                codes = [32] * pad + pre + codes
        else:
            codes = pre + codes
        return mk_str('str', codes)

    def to_str(self, v):
        """str(v)"""
        if isinstance(v, str):
            return v
        if isinstance(v, SStr) and v.kind == 'str':
            return v
        if isinstance(v, Opaque):
            return v
        if self.opaque_fmt:
            return Opaque()
        if isinstance(v, z3.BoolRef):
            return "True" if self.truth(v) else "False"
        if is_sint(v):
            return self.fmt_int(v)
        if isinstance(v, Obj):
            d = self.class_lookup(v.cls, '__str__')
            if isinstance(d, types.FunctionType):
                return self.call(self.bind(d, v, v.cls), [], {})
            return Opaque()
        if self.is_pyslet_instance(v):
            d = self.class_lookup(type(v), '__str__')
            if isinstance(d, types.FunctionType):
                return self.call(self.bind(d, v, type(v)), [], {})
        if has_sym(v):
            return Opaque()
        return str(v)

    def fmt_percent(self, f, args):
        if self.opaque_fmt:
            return Opaque()
        if isinstance(f, SStr):
            raise Unsupported("symbolic format string")
        if not has_sym(args):
            if not isinstance(args, (tuple, dict)):
                args = (args,)
            if isinstance(args, tuple) and any(
                    self.is_pyslet_instance(a) for a in args):
                pass
            else:
                try:
                    return f % args
                except Exception as err:
                    self.raise_(type(err), *err.args)
        if not isinstance(args, tuple):
            args = (args,)
        kind = 'str' if isinstance(f, str) else 'bytes'
        if kind == 'bytes':
            f = f.decode('latin-1')
        out = []
        ai = 0
        i = 0
        while i < len(f):
            c = f[i]
            if c != '%':
                j = f.find('%', i)
                if j < 0:
                    j = len(f)
                out.append(f[i:j])
                i = j
                continue
            i += 1
            flags = ''
            while f[i] in '0+- #':
                flags += f[i]
                i += 1
            width = ''
            while f[i].isdigit():
                width += f[i]
                i += 1
            prec = None
            if f[i] == '.':
                i += 1
                prec = ''
                while f[i].isdigit():
                    prec += f[i]
                    i += 1
            conv = f[i]
            i += 1
            if conv == '%':
                out.append('%')
                continue
            if ai >= len(args):
                self.raise_(TypeError, "not enough arguments")
            a = args[ai]
            ai += 1
            w = int(width) if width else 0
            if conv in 'di':
                n = self.num(a)
                if n is None:
                    if isinstance(a, Opaque):
                        raise Unsupported("opaque in format")
                    self.raise_(TypeError, "%d format: a number is required")
                if '-' in flags:
                    raise Unsupported("format flags")
                if prec:
                    # precision = minimum digits
                    out.append(self.fmt_int(n, int(prec), True,
                                            plus='+' in flags))
                else:
                    out.append(self.fmt_int(n, w, '0' in flags,
                                            plus='+' in flags))
            elif conv in 'xX':
                n = self.num(a)
                if n is None or self._isreal(n):
                    self.raise_(TypeError, "%x format: an integer is required")
                out.append(self.fmt_int(n, w, '0' in flags, 16, conv == 'X'))
            elif conv == 's':
                s = self.to_str(a) if kind == 'str' else a
                if kind == 'bytes' and not (is_strlike(s) and
                                            kind_of(s) == 'bytes'):
                    raise Unsupported("%s of non-bytes")
                if isinstance(s, Opaque):
                    return Opaque()
                if w:
                    raise Unsupported("padded %s")
                out.append(s)
            elif conv == 'r':
                return Opaque()
            elif conv == 'c':
                if is_strlike(a):
                    out.append(a)
                else:
                    out.append(mk_str(kind, [self.num(a)]))
            elif conv in 'fFgGeE':
                if has_sym(a):
                    return Opaque()
                out.append(('%' + flags + width + (
                    '.' + prec if prec is not None else '') + conv) % a)
            else:
                raise Unsupported("format %%%s" % conv)
        if ai < len(args):
            self.raise_(TypeError, "not all arguments converted")
        if kind == 'bytes':
            out = [o.encode('latin-1') if isinstance(o, str) else
                   (SStr('bytes', chars=o.chars, seq=o._seq)
                    if isinstance(o, SStr) else o) for o in out]
        return self.concat(kind, out)

    # ------------------------------------------------------------------
    # attribute access
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return _MISSING

    def bind(self, d, inst, cls):
        if isinstance(d, types.FunctionType):
            return BoundM(d, inst)
        if isinstance(d, classmethod):
            return BoundM(d.__func__, cls)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, property):
            return self.call(d.fget, [inst], {})
        if isinstance(d, (types.MethodDescriptorType,
                          types.WrapperDescriptorType)):
            return BoundM(d, inst)
        return d

    def getattr(self, v, name, default=_MISSING):
        if isinstance(v, Undef):
            raise Unsupported("use of %r" % v)
        if isinstance(v, Obj):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return v.attrs
            d = self.class_lookup(v.cls, name)
            if name == 'closed' and isinstance(
                    d, types.GetSetDescriptorType):
                return v.attrs.get('_iobase_closed', False)
            if d is not _MISSING:
                if not isinstance(d, (types.FunctionType, classmethod,
                                      staticmethod, property)):
                    self.freeze(d)
                return self.bind(d, v, v.cls)
            if issubclass(v.cls, BaseException) and name == 'args':
                return ()
            d = self.class_lookup(v.cls, '__getattr__')
            if isinstance(d, types.FunctionType):
                return self.call(BoundM(d, v), [name], {})
            if default is not _MISSING:
                return default
            if v.cls.__module__.startswith('contracts.') and \
                    not self.probing:
                # which says nothing of the code
                raise Unsupported("the stand-in %s has no %s" % (
                    v.cls.__name__, name))
            self.raise_(AttributeError, name)
        if isinstance(v, SuperProxy):
            inst = v.self_
            if isinstance(inst, type):
                mro = inst.__mro__
            else:
                mro = self.class_of(inst).__mro__
            start = list(mro).index(v.cls) + 1
            for c in mro[start:]:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(inst, type) and isinstance(
                            d, types.FunctionType):
                        return d
                    if isinstance(inst, type):
                        return self.bind(d, None, inst)
                    return self.bind(d, inst, self.class_of(inst))
            self.raise_(AttributeError, name)
        if isinstance(v, LoopView):
            return v._get(name)
        if isinstance(v, (SStr, JoinList, LongList, z3.ExprRef, Opaque)):
            if isinstance(v, z3.ArithRef) and name in ('real', ):
                return v
            return BuiltinM(v, name)
        if isinstance(v, type):
            if name in ('__name__', '__module__', '__mro__', '__doc__'):
                return getattr(v, name)
            d = self.class_lookup(v, name)
            if d is _MISSING:
                d = self.class_lookup(type(v), name)
                if d is not _MISSING and isinstance(d, types.FunctionType):
                    return BoundM(d, v)
                if default is not _MISSING:
                    return default
                try:
                    return getattr(v, name)
                except AttributeError:
                    self.raise_(AttributeError, name)
            if isinstance(d, classmethod):
                return BoundM(d.__func__, v)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, (types.FunctionType, property)):
                return d
            try:
                return self.freeze(getattr(v, name))
            except AttributeError:
                self.raise_(AttributeError, name)
        if isinstance(v, types.ModuleType):
            try:
                return self.freeze(getattr(v, name))
            except AttributeError:
                if default is not _MISSING:
                    return default
                self.raise_(AttributeError, name)
        if isinstance(v, (str, bytes, bytearray, list, dict, set, tuple,
                          frozenset)) and \
                not hasattr(type(v), '_fields') and \
                type(v).__module__ == 'builtins':
            if not hasattr(v, name):
                if default is not _MISSING:
                    return default
                self.raise_(AttributeError, name)
            return BuiltinM(v, name)
        if self.is_pyslet_instance(v):
            dct = getattr(v, '__dict__', None)
            if dct is not None and name in dct:
                return self.freeze(dct[name])
            if name == '__class__':
                return type(v)
            d = self.class_lookup(type(v), name)
            if d is not _MISSING:
                if isinstance(d, (types.FunctionType, classmethod,
                                  staticmethod, property)):
                    return self.bind(d, v, type(v))
                try:
                    return self.freeze(getattr(v, name))
                except AttributeError:
                    self.raise_(AttributeError, name)
            if default is not _MISSING:
                return default
            d = self.class_lookup(type(v), '__getattr__')
            if isinstance(d, types.FunctionType):
                return self.call(BoundM(d, v), [name], {})
            self.raise_(AttributeError, name)
        try:
            return self.freeze(getattr(v, name))
        except AttributeError:
            if default is not _MISSING:
                return default
            self.raise_(AttributeError, name)

    def setattr(self, v, name, value):
        if isinstance(v, Obj):
            d = self.class_lookup(v.cls, '__setattr__')
            if isinstance(d, types.FunctionType):
                raise Unsupported("custom __setattr__")
            d = self.class_lookup(v.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.raise_(AttributeError, name)
                self.call(d.fset, [v, value], {})
                return
            v.attrs[name] = value
            return
        raise Unsupported("attribute assignment on a real object %r.%s" % (
            type(v), name))

    # ------------------------------------------------------------------
    # calls
    def call(self, f, args, kwargs):
        self.depth += 1
        try:
            if self.depth > 150:
                raise Unsupported("call depth")
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, BuiltinM):
            return self.call_method(f.self_, f.name, args, kwargs)
        if isinstance(f, Undef):
            raise Unsupported("use of %r" % f)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if args and isinstance(args[-1], Rest) and not isinstance(
                f, types.MethodType):
            raise Unsupported("arguments of unknown number")
        if isinstance(f, types.MethodType):
            # a bound method of a real object or class
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        if isinstance(f, Obj):
            d = self.class_lookup(f.cls, '__call__')
            if isinstance(d, types.FunctionType):
                return self.call(d, [f] + list(args), kwargs)
            raise Unsupported("call of %r" % f)
        if isinstance(f, PredVal):
            c = codes_of(args[0])
            if len(args) != 1 or c is None or len(c) != 1:
                raise Unsupported("predicate of no single character")
            return f.holds(c[0])
        return self.call_builtin(f, args, kwargs)

    def bind_args(self, node_args, args, kwargs, defaults, kwdefaults, name):
        a = node_args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        if args and isinstance(args[-1], Rest):
            rest = args.pop().items
            if len(args) < len(names) or a.vararg is None:
                raise Unsupported("arguments of unknown number")
            known = args[len(names):]
            loc[a.vararg.arg] = self.long_concat(known, rest)
            args = args[:len(names)]
        elif len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError, "%s() too many arguments" % name)
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        for n in names[len(args):]:
            if n in kwargs:
                loc[n] = kwargs.pop(n)
        for n in list(kwargs):
            if n in names and n in loc and n not in names[len(args):]:
                self.raise_(TypeError, "multiple values for %s" % n)
        defaults = defaults or ()
        for i, n in enumerate(names):
            if n not in loc:
                di = i - (len(names) - len(defaults))
                if di < 0:
                    self.raise_(TypeError, "%s() missing argument %s" % (
                        name, n))
                loc[n] = self.freeze(defaults[di])
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            elif kwdefaults and n in kwdefaults:
                loc[n] = kwdefaults[n]
            else:
                self.raise_(TypeError, "missing keyword %s" % n)
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            self.raise_(TypeError, "%s() unexpected keyword %s" % (
                name, list(kwargs)[0]))
        return loc

    def call_function(self, f, args, kwargs):
        h = self.effects.get(f)
        if h is not None:
            return h(self, args, kwargs)
        c = self.contracts.get(f)
        if c is not None:
            return c.apply(self, args, kwargs)
        mod = getattr(f, '__module__', '') or ''
        if mod.split('.')[0] not in INTERPRET:
            return self.call_builtin(f, args, kwargs)
        node, clsname = SOURCES.find(f)
        if mod.split('.')[0] == 'pyslet':
            self.e.functions.add("%s.%s" % (mod, f.__qualname__))
        free = {}
        if f.__closure__:
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    free[n] = cell.cell_contents
                except ValueError:
                    pass
        loc = self.bind_args(node.args, args, kwargs, f.__defaults__,
                             f.__kwdefaults__, f.__name__)
        frame = Frame(f.__qualname__, f.__globals__, loc, free)
        return self.run_body(node, frame)

    def call_closure(self, f, args, kwargs):
        node = f.node
        loc = self.bind_args(node.args, args, kwargs, f.defaults,
                             f.kwdefaults, f.name)
        frame = Frame(f.frame.func_name + '.' + f.name, f.frame.glob, loc,
                      parent=f.frame)
        return self.run_body(node, frame)

    def run_body(self, node, frame):
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, frame)
        frame.node = node
        isgen = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                isgen = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        if isgen:
            frame.yields = []
        try:
            self.exec_block(node.body, frame)
        except ReturnEx as r:
            if isgen:
                return frame.yields
            return r.value
        if isgen:
            return frame.yields
        return None

    def call_class(self, cls, args, kwargs):
        from speclib import iomodel
        cls = iomodel.MODELS.get(cls, cls)
        if issubclass(cls, BaseException):
            o = Obj(cls, {'args': tuple(args)})
            d = self.class_lookup(cls, '__init__')
            if isinstance(d, types.FunctionType) and \
                    (d.__module__ or '').split('.')[0] in INTERPRET:
                self.call(d, [o] + list(args), kwargs)
            return o
        if (cls.__module__ or '').split('.')[0] in INTERPRET:
            new = self.class_lookup(cls, '__new__')
            if isinstance(new, (staticmethod, types.FunctionType)):
                fn = new.__func__ if isinstance(new, staticmethod) else new
                if isinstance(fn, types.FunctionType):
                    if issubclass(cls, tuple):
                        # namedtuple
                        if has_sym(args) or has_sym(kwargs):
                            try:
                                return cls(*args, **kwargs)
                            except TypeError as err:
                                self.raise_(TypeError, str(err))
                        return cls(*args, **kwargs)
                    raise Unsupported("__new__ of %s" % cls)
            if issubclass(cls, (int, str, bytes, list, dict, tuple)):
                if issubclass(cls, tuple) or not has_sym(
                        list(args) + list(kwargs.values())):
                    return cls(*args, **kwargs)
                raise Unsupported("subclass of builtin %s" % cls)
            o = Obj(cls)
            d = self.class_lookup(cls, '__init__')
            if isinstance(d, types.FunctionType):
                self.call(d, [o] + list(args), kwargs)
            elif args or kwargs:
                self.raise_(TypeError, "object() takes no arguments")
            return o
        return self.call_builtin(cls, args, kwargs)

    # implemented in builtins_
    def call_builtin(self, f, args, kwargs):
        from . import builtins_
        return builtins_.call_builtin(self, f, args, kwargs)

    def call_method(self, v, name, args, kwargs):
        from . import builtins_
        return builtins_.call_method(self, v, name, args, kwargs)

    # ------------------------------------------------------------------
    # names
    def load_name(self, name, frame):
        fr = frame
        while fr is not None:
            if name in fr.locals and name not in fr.globals_decl:
                v = fr.locals[name]
                if isinstance(v, Undef):
                    raise Unsupported("use of %r" % v)
                return v
            if name in fr.free:
                return self.freeze(fr.free[name])
            fr = fr.parent
        if name in frame.glob:
            return self.freeze(frame.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        node = getattr(frame, 'node', None)
        if node is not None and name in assigned_names(node.body):
            self.raise_(UnboundLocalError, name)
        self.raise_(NameError, name)

    def store_name(self, name, value, frame):
        if name in frame.globals_decl:
            raise Unsupported("global assignment")
        if name in frame.nonlocal_decl:
            fr = frame.parent
            while fr is not None:
                if name in fr.locals:
                    fr.locals[name] = value
                    return
                fr = fr.parent
            raise Unsupported("nonlocal")
        frame.locals[name] = value

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, body, frame):
        for st in body:
            self.exec(st, frame)

    def exec(self, st, frame):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        try:
            m(st, frame)
        except Unsupported as err:
            if not hasattr(err, 'where'):
                err.where = "%s line %s" % (frame.func_name, st.lineno)
            raise

    def st_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, frame)

    def st_Pass(self, st, frame):
        pass

    def st_Import(self, st, frame):
        for a in st.names:
            m = __import__(a.name)
            frame.locals[a.asname or a.name.split('.')[0]] = m

    def st_ImportFrom(self, st, frame):
        import importlib
        pkg = frame.glob.get('__package__')
        m = importlib.import_module(('.' * st.level) + (st.module or ''), pkg)
        for a in st.names:
            frame.locals[a.asname or a.name] = getattr(m, a.name)

    def st_Global(self, st, frame):
        frame.globals_decl.update(st.names)

    def st_Nonlocal(self, st, frame):
        frame.nonlocal_decl.update(st.names)

    def st_Assert(self, st, frame):
        if not self.truth(self.ev(st.test, frame)):
            self.raise_(AssertionError)

    def st_Return(self, st, frame):
        raise ReturnEx(self.ev(st.value, frame) if st.value else None)

    def st_Break(self, st, frame):
        raise BreakEx()

    def st_Continue(self, st, frame):
        raise ContinueEx()

    def st_Raise(self, st, frame):
        if st.exc is None:
            fr = frame
            while fr is not None and fr.cur_exc is None:
                fr = fr.parent
            if fr is None or fr.cur_exc is None:
                self.raise_(RuntimeError, "No active exception")
            raise PyRaise(fr.cur_exc)
        self.opaque_fmt += 1
        try:
            e = self.ev(st.exc, frame)
        finally:
            self.opaque_fmt -= 1
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call_class(e, [], {})
        if isinstance(e, BaseException):
            e = Obj(type(e), {'args': e.args})
        if not isinstance(e, Obj) or not issubclass(e.cls, BaseException):
            self.raise_(TypeError, "exceptions must derive from "
                                   "BaseException")
        if e.cls is NotImplementedError and frame.glob.get(
                '__name__', '').startswith(('contracts.', 'speclib.')):
            raise Unsupported("a use of a stand-in that it does not know")
        raise PyRaise(e)

    def st_If(self, st, frame):
        if self.truth(self.ev(st.test, frame)):
            self.exec_block(st.body, frame)
        else:
            self.exec_block(st.orelse, frame)

    def st_FunctionDef(self, st, frame):
        if st.decorator_list:
            raise Unsupported("decorated nested function")
        defaults = tuple(self.ev(d, frame) for d in st.args.defaults)
        kwd = {a.arg: self.ev(d, frame) for a, d in zip(
            st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        frame.locals[st.name] = Closure(st, frame, defaults, kwd, st.name)

    def st_Delete(self, st, frame):
        for t in st.targets:
            if isinstance(t, ast.Name):
                frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, frame)
                if isinstance(t.slice, ast.Slice):
                    lo, hi, step = [
                        self.ev(x, frame) if x is not None else None
                        for x in (t.slice.lower, t.slice.upper,
                                  t.slice.step)]
                    if isinstance(o, list):
                        self.check_mutable(o)
                        if has_sym([lo, hi, step]):
                            raise Unsupported("symbolic slice deletion")
                        del o[lo:hi:step]
                        continue
                    raise Unsupported("del slice of %r" % type(o))
                i = self.ev(t.slice, frame)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, frame)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def delitem(self, o, i):
        self.check_mutable(o)
        if isinstance(o, JoinList) and o.items == 'codes' and i in (0, -1):
            n = z3.Length(o.seq)
            if not self.truth(n > 0):
                self.raise_(IndexError, "list assignment index out of range")
            o.seq = z3.SubSeq(o.seq, 1 if i == 0 else 0, n - 1)
        elif isinstance(o, list):
            i = self.list_index(o, i)
            del o[i]
        elif isinstance(o, dict):
            k = self.dict_find(o, i)
            if k is _MISSING:
                self.raise_(KeyError, i)
            del o[k]
        elif self.is_instance_like(o):
            self.call(self.getattr(o, '__delitem__'), [i], {})
        else:
            raise Unsupported("del item of %r" % type(o))

    def list_index(self, l, i):
        i = self.num(i)
        if i is None:
            self.raise_(TypeError, "list indices must be integers")
        if isinstance(i, int):
            if i < -len(l) or i >= len(l):
                self.raise_(IndexError, "list index out of range")
            return i
        for j in range(len(l)):
            if self.truth(self.or_([i == j, i == j - len(l)])):
                return j
        self.raise_(IndexError, "list index out of range")

    def dict_find(self, d, key):
        """The key of d equal to key, or _MISSING"""
        if not has_sym(key):
            if not any(has_sym(k) for k in d):
                try:
                    if key in d:
                        return key
                    return _MISSING
                except TypeError:
                    self.raise_(TypeError, "unhashable")
        for k in d:
            if self.truth(self.eq(k, key)):
                return k
        return _MISSING

    def st_Assign(self, st, frame):
        v = self.ev(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, st, frame):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, frame), frame)

    def st_AugAssign(self, st, frame):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, frame)
            v = self.ev(st.value, frame)
            self.assign(t, self.inplace(st.op, cur, v), frame)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, frame)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, frame)
            self.setattr(o, t.attr, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame)
            i = self.ev(t.slice, frame)
            cur = self.getitem(o, i)
            v = self.ev(st.value, frame)
            self.setitem(o, i, self.inplace(st.op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, list) and isinstance(op, ast.Add):
            self.check_mutable(cur)
            cur.extend(self.iter_list(v))
            return cur
        if isinstance(cur, JoinList) and isinstance(op, ast.Add):
            n = self.joinlist_add(cur, v)
            cur.seq = n.seq
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, frame), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iter_list(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            if len(vals) != len(t.elts):
                self.raise_(ValueError, "unpack")
            for x, y in zip(t.elts, vals):
                self.assign(x, y, frame)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame)
            if isinstance(t.slice, ast.Slice):
                lo, hi, step = [
                    self.ev(x, frame) if x is not None else None
                    for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                if isinstance(o, list):
                    self.check_mutable(o)
                    if has_sym([lo, hi, step]):
                        raise Unsupported("symbolic slice assignment")
                    o[lo:hi:step] = self.iter_list(v)
                    return
                if isinstance(o, Obj):
                    self.call(self.getattr(o, '__setitem__'),
                              [slice(lo, hi, step), v], {})
                    return
                raise Unsupported("slice assignment to %r" % type(o))
            self.setitem(o, self.ev(t.slice, frame), v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, i, v):
        self.check_mutable(o)
        if isinstance(o, list):
            o[self.list_index(o, i)] = v
        elif isinstance(o, LongList):
            o.put(self.long_index(o, i), v)
        elif isinstance(o, dict):
            k = self.dict_find(o, i)
            if k is _MISSING:
                if has_sym(i):
                    try:
                        hash(i)
                    except TypeError:
                        raise Unsupported("unhashable key")
                o[i] = v
            else:
                o[k] = v
        elif self.is_instance_like(o):
            self.call(self.getattr(o, '__setitem__'), [i, v], {})
        else:
            raise Unsupported("item assignment to %r" % type(o))

    def st_With(self, st, frame):
        mgrs = []
        for it in st.items:
            m = self.ev(it.context_expr, frame)
            enter = exit_ = None
            if self.is_lock(m):
                val = m
            elif self.is_instance_like(m):
                val = self.call(self.getattr(m, '__enter__'), [], {})
                exit_ = self.getattr(m, '__exit__')
            else:
                raise Unsupported("with %r" % type(m))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, frame)
            mgrs.append(exit_)
        try:
            self.exec_block(st.body, frame)
        except PyRaise as err:
            for x in reversed(mgrs):
                if x is not None:
                    if self.truth(self.call(x, [err.exc.cls, err.exc, None],
                                            {})):
                        return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            for x in reversed(mgrs):
                if x is not None:
                    self.call(x, [None, None, None], {})
            raise
        for x in reversed(mgrs):
            if x is not None:
                self.call(x, [None, None, None], {})

    def is_lock(self, m):
        if isinstance(m, Opaque) and m.what == 'lock':
            return True
        n = type(m).__module__ + '.' + type(m).__name__
        return n in ('_thread.lock', '_thread.RLock', 'threading.Condition',
                     'threading._RLock')

    def st_Try(self, st, frame):
        try:
            try:
                self.exec_block(st.body, frame)
            except PyRaise as err:
                exc = err.exc
                for h in st.handlers:
                    if self.handler_matches(h, exc, frame):
                        saved = frame.cur_exc
                        frame.cur_exc = exc
                        if h.name:
                            frame.locals[h.name] = exc
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            frame.cur_exc = saved
                            if h.name:
                                frame.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, frame)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            # a return in finally overrides, as in Python
            self.exec_block(st.finalbody, frame)
            raise
        else:
            self.exec_block(st.finalbody, frame)

    def handler_matches(self, h, exc, frame):
        if h.type is None:
            return True
        t = self.ev(h.type, frame)
        if not isinstance(t, tuple):
            t = (t,)
        return any(issubclass(exc.cls, c) for c in t)

    # -- loops --------------------------------------------------------------
    def st_While(self, st, frame):
        spec = self.find_loopspec(st, frame)
        if spec is not None:
            return self.cut_loop(st, frame, spec)
        n = 0
        while True:
            if not self.truth(self.ev(st.test, frame)):
                self.exec_block(st.orelse, frame)
                return
            n += 1
            if n > self.e.unroll:
                raise Unsupported("while loop without invariant runs past "
                                  "%i iterations" % self.e.unroll)
            try:
                self.exec_block(st.body, frame)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def st_For(self, st, frame):
        it = self.ev(st.iter, frame)
        if self.is_instance_like(it):
            # may stand for a list of unknown length
            d = self.class_lookup(self.class_of(it), '__iter__')
            if isinstance(d, types.FunctionType):
                r = self.call(self.bind(d, it, self.class_of(it)), [], {})
                if isinstance(r, LongList):
                    it = r
                else:
                    it = self.iter_list(r)
                    it = tuple(it) if isinstance(it, list) else it
        spec = self.find_loopspec(st, frame, it)
        if spec is not None:
            return self.cut_loop(st, frame, spec, it)
        if isinstance(it, LongList) and len(st.body) == 1 and \
                not st.orelse and frame.yields == [] and isinstance(
                    st.body[0], ast.Expr) and isinstance(
                        st.body[0].value, ast.Yield) and \
                st.body[0].value.value is not None:
            # for x in it: yield f(x)
            frame.yields = self.lazy_map(it, frame, st.target,
                                         st.body[0].value.value)
            return
        if isinstance(it, list):
            # Python re-reads the list each time round
            i = 0
            broke = False
            while i < len(it):
                self.assign(st.target, it[i], frame)
                i += 1
                if i > 5000:
                    raise Unsupported("for loop too long")
                try:
                    self.exec_block(st.body, frame)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.exec_block(st.orelse, frame)
            return
        items = self.iter_list(it, lazy_range=True)
        for x in items:
            self.assign(st.target, x, frame)
            try:
                self.exec_block(st.body, frame)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, frame)

    def iter_list(self, it, lazy_range=False):
        """A list of the items of an iterable of known length"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, (str, bytes, bytearray)):
            return list(it)
        if isinstance(it, SStr):
            if it.chars is None:
                raise Unsupported("iteration over a string of unknown length"
                                  " without invariant")
            if it.kind == 'bytes':
                return list(it.chars)
            return [mk_str('str', [c]) for c in it.chars]
        if isinstance(it, (dict, set, frozenset)):
            return list(it)
        if isinstance(it, range):
            if len(it) > 5000:
                raise Unsupported("range too long")
            return list(it)
        if isinstance(it, SymRange):
            return self.iter_symrange(it)
        if isinstance(it, (type({}.keys()), type({}.values()),
                           type({}.items()))):
            return list(it)
        if type(it).__name__ == 'ListIter':
            r = it.items[it.i:]
            it.i = len(it.items)
            return r
        if isinstance(it, (zip, map, filter, enumerate, reversed)) or \
                type(it).__name__ in ('list_iterator', 'generator',
                                      'list_reverseiterator',
                                      'dict_keyiterator', 'tuple_iterator'):
            return list(it)
        if self.is_instance_like(it):
            d = self.class_lookup(self.class_of(it), '__iter__')
            if isinstance(d, types.FunctionType):
                return self.iter_list(self.call(
                    self.bind(d, it, self.class_of(it)), [], {}))
        if it is None or self.num(it) is not None:
            self.raise_(TypeError, "not iterable")
        raise Unsupported("iteration over %r" % type(it))

    def iter_symrange(self, r):
        """Generator: unrolls a symbolic range, branch by branch"""
        i = r.start
        n = 0
        while True:
            if isinstance(r.step, int) and r.step > 0:
                c = self.lt(i, r.stop)
            elif isinstance(r.step, int):
                c = self.lt(r.stop, i)
            else:
                raise Unsupported("symbolic range step")
            if not self.truth(c):
                return
            n += 1
            if n > self.e.unroll:
                raise Unsupported("symbolic range without invariant runs "
                                  "past %i iterations" % self.e.unroll)
            yield i
            i = self.binop(ast.Add(), i, r.step)

    def find_loopspec(self, st, frame, it=_MISSING):
        if not self.loopspecs:
            return None
        fname = frame.func_name
        node = getattr(frame, 'node', None)
        ordinal = None
        if node is not None:
            loops = [n for n in ast.walk(node)
                     if isinstance(n, (ast.For, ast.While))]
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            for i, n in enumerate(loops):
                if n is st:
                    ordinal = i
        assigned = assigned_names(st.body)
        if isinstance(st, ast.For):
            # concretely iterable loops are unrolled unless forced
            assigned |= assigned_names([st.target])
            unrollable = not (isinstance(it, SStr) and it.chars is None or
                              isinstance(it, SymRange) or
                              isinstance(it, (JoinList, LongList)))
            if unrollable:
                return None
        best = None
        for sp in self.loopspecs:
            if sp.kind and sp.kind != type(st).__name__.lower():
                continue
            if not sp.fits(frame, assigned | mutated_names(st.body)):
                continue
            score = 0
            if sp.func is not None:
                if sp.func == fname or fname.endswith('.' + sp.func):
                    score += 2
                else:
                    continue
            if sp.ordinal is not None:
                if sp.ordinal == ordinal:
                    score += 1
                elif sp.strict:
                    continue
            if best is None or score > best[0]:
                best = (score, sp)
        return best[1] if best else None

    def cut_loop(self, st, frame, spec, it=_MISSING):
        e = self.e
        k = self.kit
        name = "%s loop %s" % (frame.func_name, spec.label)
        e.loops_cut.add(name)
        e.specs_used.add(id(spec))
        isfor = isinstance(st, ast.For)
        if isfor:
            if isinstance(it, SStr):
                length = z3.Length(it.seq)
            elif isinstance(it, LongList):
                length = it.length
            elif isinstance(it, SymRange):
                if it.step != 1:
                    raise Unsupported("range step in a cut loop")
                length = z3.If(self.z(it.stop) > self.z(it.start),
                               self.z(it.stop) - self.z(it.start),
                               z3.IntVal(0))
            else:
                raise Unsupported("cut loop over %r" % type(it))
        L = LoopView(self, frame, spec)
        L._set_i(0)
        L.__dict__['_n'] = length if isfor else None
        if isinstance(frame.yields, (LongList, Yielded)):
            raise Unsupported("two loops that yield")
        # establish
        spec.enter(self, L)
        for nm, c in self.inv_list(spec, L):
            e.oblige("%s: invariant holds on entry: %s" % (name, nm), c)
        # what is yielded
        if any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for s in st.body for n in ast.walk(s)):
            if spec.yields is None or L._frame is not frame:
                raise Unsupported("yield in a loop")
            frame.yields = Yielded(e.fresh(z3.IntSort(), 'yields'), k, spec,
                                   L)
            e.add(frame.yields.n >= 0)
        # arbitrary iteration
        assigned = assigned_names(st.body)
        if isfor:
            assigned |= assigned_names([st.target])
        keep = {}
        for n in assigned:
            if n in frame.locals and n not in spec.locals():
                if isinstance(frame.locals[n], JoinList):
                    raise Unsupported("loop variable %s not described" % n)
            if n not in spec.locals():
                frame.locals[n] = Undef(n)
        spec.do_havoc(self, frame, L)
        if isfor:
            i = e.fresh(z3.IntSort(), 'i')
            e.add(z3.And(i >= 0, i <= length))
            L._set_i(i)
        for nm, c in self.inv_list(spec, L):
            e.assume(c)
        e.require_feasible()
        snap = self.snapshot(frame, spec, L)
        if e.choose(2) == 0:
            # one iteration
            if isfor:
                e.assume(i < length)
                e.require_feasible()
                if isinstance(it, SStr):
                    c = self.nth(it, i)
                    x = c if it.kind == 'bytes' else mk_str('str', [c])
                elif isinstance(it, LongList):
                    x = it.at(i)
                else:
                    x = self.z(it.start) + i
                self.assign(st.target, x, frame)
            else:
                if not self.truth(self.ev(st.test, frame)):
                    raise PathEnd()
            dec0 = spec.variant_value(self, L)
            if spec.step is not None:
                self.call(spec.step, [k, L], {})
            try:
                self.exec_block(st.body, frame)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if isfor:
                L._set_i(i + 1)
            if spec.after is not None:
                self.call(spec.after, [k, L], {})
            for nm, c in self.inv_list(spec, L):
                e.oblige("%s: invariant preserved: %s" % (name, nm), c)
            if not isfor:
                dec1 = spec.variant_value(self, L)
                if dec0 is not None:
                    e.oblige("%s: variant decreases and is bounded below" %
                             name,
                             self.and_([self.lt(dec1, dec0),
                                        self.lt(0, dec0, strict=False)]))
            self.check_snapshot(snap, frame, spec)
            raise PathEnd()
        # exit
        if isfor:
            e.assume(i == length)
        else:
            if self.truth(self.ev(st.test, frame)):
                raise PathEnd()
        e.require_feasible()
        self.exec_block(st.orelse, frame)

    def inv_list(self, spec, L):
        r = self.call(spec.inv, [self.kit, L], {})
        out = []
        for nm, c in r:
            out.append((nm, self.truth_expr(c)))
        return out

    def snapshot(self, frame, spec, L):
        """Shallow copies of the containers reachable before the body"""
        seen = {}

        def visit(v):
            if id(v) in seen or id(v) in self.frozen:
                return
            if isinstance(v, list):
                seen[id(v)] = (v, list(v))
                for x in v:
                    visit(x)
            elif isinstance(v, dict):
                seen[id(v)] = (v, dict(v))
                for x in v.values():
                    visit(x)
            elif isinstance(v, Obj):
                seen[id(v)] = (v, dict(v.attrs))
                for x in v.attrs.values():
                    visit(x)
            elif isinstance(v, tuple):
                for x in v:
                    visit(x)
            elif isinstance(v, JoinList):
                seen[id(v)] = (v, v.seq)
            elif isinstance(v, LongList):
                seen[id(v)] = (v, v.version)
        fr = frame
        while fr is not None:
            for v in list(fr.locals.values()):
                visit(v)
            fr = fr.parent
        for v in self.kit.roots:
            visit(v)
        for v in self.kit.store.values():
            visit(v)
        return seen

    def check_snapshot(self, snap, frame, spec):
        allowed = spec.allowed
        for v, old in snap.values():
            if isinstance(v, JoinList):
                if (id(v), None) not in allowed and v.seq is not old:
                    raise Unsupported("loop changes an undeclared list")
                continue
            if isinstance(v, LongList):
                if (id(v), None) not in allowed and v.version != old:
                    raise Unsupported("loop changes an undeclared list")
                continue
            if isinstance(v, Obj):
                if (id(v), None) in allowed:
                    continue
                for a in set(v.attrs) | set(old):
                    x, y = v.attrs.get(a, _MISSING), old.get(a, _MISSING)
                    if x is not y and (id(v), a) not in allowed:
                        if not _same(x, y):
                            raise Unsupported(
                                "loop changes undeclared attribute %s.%s" % (
                                    v.cls.__name__, a))
                continue
            if (id(v), None) in allowed:
                continue
            if isinstance(v, list):
                if len(v) != len(old) or any(
                        x is not y and not _same(x, y)
                        for x, y in zip(v, old)):
                    raise Unsupported("loop changes an undeclared list")
            else:
                if set(v) != set(old) or any(
                        v[q] is not old[q] and not _same(v[q], old[q])
                        for q in v):
                    raise Unsupported("loop changes an undeclared dict")

    # ------------------------------------------------------------------
    # expressions
    def ev(self, node, frame):
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(node).__name__)
        return m(node, frame)

    def ex_Constant(self, node, frame):
        return node.value

    def ex_Name(self, node, frame):
        return self.load_name(node.id, frame)

    def ex_Attribute(self, node, frame):
        return self.getattr(self.ev(node.value, frame), node.attr)

    def ex_Tuple(self, node, frame):
        return tuple(self.ev_seq(node.elts, frame))

    def ex_List(self, node, frame):
        return self.ev_seq(node.elts, frame)

    def ex_Set(self, node, frame):
        return set(self.ev_seq(node.elts, frame))

    def ev_seq(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_list(self.ev(x.value, frame)))
            else:
                out.append(self.ev(x, frame))
        return out

    def ex_Dict(self, node, frame):
        d = {}
        for kx, vx in zip(node.keys, node.values):
            if kx is None:
                d.update(self.ev(vx, frame))
            else:
                d[self.ev(kx, frame)] = self.ev(vx, frame)
        return d

    def ex_JoinedStr(self, node, frame):
        if self.opaque_fmt:
            return Opaque()
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion != -1:
                    x = self.ev(v.value, frame)
                    if has_sym(x):
                        return Opaque()
                    return Opaque()
                s = self.to_str(self.ev(v.value, frame))
                if isinstance(s, Opaque):
                    return s
                parts.append(s)
        return self.concat('str', parts)

    def ex_Lambda(self, node, frame):
        defaults = tuple(self.ev(d, frame) for d in node.args.defaults)
        return Closure(node, frame, defaults, {}, '<lambda>')

    def ex_IfExp(self, node, frame):
        t = self.truth_expr(self.ev(node.test, frame))
        if not isinstance(t, bool) and _simple_pure(node.body) and \
                _simple_pure(node.orelse):
            a, b = self.ev(node.body, frame), self.ev(node.orelse, frame)
            if isinstance(a, (int, z3.ArithRef)) and \
                    isinstance(b, (int, z3.ArithRef)) and not (
                        isinstance(a, bool) or isinstance(b, bool)):
                return z3.If(t, self.z(a), self.z(b))
        if self.truth(t):
            return self.ev(node.body, frame)
        return self.ev(node.orelse, frame)

    def ex_BoolOp(self, node, frame):
        isand = isinstance(node.op, ast.And)
        acc = None
        for i, x in enumerate(node.values):
            v = self.ev(x, frame) if acc is None else None
            if acc is None:
                if i == len(node.values) - 1:
                    return v
                if isinstance(v, z3.BoolRef) and all(
                        _simple_pure(y) for y in node.values[i + 1:]):
                    # try to combine without forking
                    rest = self.try_pure(node.values[i + 1:], frame)
                    if rest is not None:
                        return (z3.And if isand else z3.Or)(v, *rest)
                t = self.truth(v)
                if isand and not t:
                    return v if not isinstance(v, z3.BoolRef) else False
                if not isand and t:
                    return v if not isinstance(v, z3.BoolRef) else True
        return v

    def try_pure(self, nodes, frame):
        """Evaluate as z3/python booleans without forking, or None"""
        out = []
        saved = self.pure_ctx
        self.pure_ctx += 1
        try:
            for n in nodes:
                v = self.ev(n, frame)
                if isinstance(v, bool):
                    out.append(z3.BoolVal(v))
                elif isinstance(v, z3.BoolRef):
                    out.append(v)
                else:
                    return None
        except (PyRaise, Unsupported):
            return None
        finally:
            self.pure_ctx = saved
        return out

    def ex_UnaryOp(self, node, frame):
        v = self.ev(node.operand, frame)
        if isinstance(node.op, ast.Not):
            t = self.truth_expr(v)
            return self.not_(t)
        n = self.num(v)
        if n is None:
            if isinstance(v, decimal.Decimal):
                return -v
            self.raise_(TypeError, "bad operand for unary")
        if isinstance(node.op, ast.USub):
            return -n
        if isinstance(node.op, ast.UAdd):
            return n
        if isinstance(node.op, ast.Invert):
            return -n - 1
        raise Unsupported("unary operator")

    def ex_BinOp(self, node, frame):
        a = self.ev(node.left, frame)
        b = self.ev(node.right, frame)
        return self.binop(node.op, a, b)

    def ex_Compare(self, node, frame):
        left = self.ev(node.left, frame)
        conds = []
        for i, (op, rx) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(rx, frame)
            c = self.compare(op, left, right)
            if len(node.ops) == 1:
                return c
            last = i == len(node.ops) - 1
            c = self.truth_expr(c)
            if c is False:
                return False
            conds.append(c)
            if not last and not _simple_pure(node.comparators[i + 1]):
                if not self.truth(c):
                    return False
                conds.pop()
            left = right
        return self.and_(conds)

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Undef):
                raise Unsupported("use of %r" % x)
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else self.not_(r)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Obj):
                d = self.class_lookup(a.cls, '__ne__')
                if isinstance(d, types.FunctionType):
                    r = self.call(self.bind(d, a, a.cls), [b], {})
                    if r is not NotImplemented:
                        return self.truth_expr(r)
                    return a is not b
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.LtE):
            return self.lt(a, b, strict=False)
        if isinstance(op, ast.Gt):
            if self.is_instance_like(a):
                d = self.class_lookup(self.class_of(a), '__gt__')
                if isinstance(d, types.FunctionType):
                    r = self.call(self.bind(d, a, self.class_of(a)), [b], {})
                    if r is not NotImplemented:
                        return self.truth_expr(r)
            return self.lt(b, a)
        if isinstance(op, ast.GtE):
            if self.is_instance_like(a):
                d = self.class_lookup(self.class_of(a), '__ge__')
                if isinstance(d, types.FunctionType):
                    r = self.call(self.bind(d, a, self.class_of(a)), [b], {})
                    if r is not NotImplemented:
                        return self.truth_expr(r)
            return self.lt(b, a, strict=False)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.not_(
                self.truth_expr(r))
        raise Unsupported("comparison")

    def is_(self, a, b):
        if a is b:
            return True
        # True/False/small constants compared by identity
        for x, y in ((a, b), (b, a)):
            if isinstance(y, bool) and isinstance(x, z3.BoolRef):
                return x if y else z3.Not(x)
        return False

    def contains(self, c, x):
        if is_strlike(c):
            return self.str_contains(c, x)
        if isinstance(c, (tuple, list)):
            return self.or_([self.eq(x, y) for y in c])
        if isinstance(c, (dict, set, frozenset, type({}.keys()))):
            if isinstance(c, (set, frozenset)) and not has_sym(x) and \
                    not has_sym(c):
                return x in c
            if isinstance(c, (set, frozenset)):
                return self.or_([self.eq(x, y) for y in c])
            if not isinstance(c, dict):
                c = dict.fromkeys(c)
            if has_sym(x) and not any(self.is_instance_like(q) for q in c):
                return self.or_([self.eq(x, y) for y in c])
            return self.dict_find(c, x) is not _MISSING
        if isinstance(c, range):
            if not has_sym(x):
                return x in c
            if c.step == 1:
                return z3.And(x >= c.start, x < c.stop)
        if self.is_instance_like(c):
            d = self.class_lookup(self.class_of(c), '__contains__')
            if isinstance(d, types.FunctionType):
                return self.truth_expr(self.call(
                    self.bind(d, c, self.class_of(c)), [x], {}))
            return self.or_([self.eq(x, y) for y in self.iter_list(c)])
        raise Unsupported("membership in %r" % type(c))

    def ex_Subscript(self, node, frame):
        o = self.ev(node.value, frame)
        if isinstance(node.slice, ast.Slice):
            lo, hi, step = [self.ev(x, frame) if x is not None else None
                            for x in (node.slice.lower, node.slice.upper,
                                      node.slice.step)]
            if is_strlike(o):
                return self.str_slice(o, lo, hi, step)
            if isinstance(o, (list, tuple)):
                if has_sym([lo, hi, step]):
                    return self.sym_list_slice(o, lo, hi, step)
                return o[lo:hi:step]
            if isinstance(o, Obj):
                return self.call(self.getattr(o, '__getitem__'),
                                 [slice(lo, hi, step)], {})
            raise Unsupported("slice of %r" % type(o))
        return self.getitem(o, self.ev(node.slice, frame))

    def sym_list_slice(self, o, lo, hi, step):
        if step not in (None, 1):
            raise Unsupported("extended slice")

        def conc(x):
            if x is None or isinstance(x, int):
                return x
            for j in range(len(o) + 1):
                if self.truth(x == j):
                    return j
            if self.truth(x > len(o)):
                return len(o)
            raise Unsupported("negative symbolic slice")
        return o[conc(lo):conc(hi)]

    def long_index(self, o, i):
        """an index of a list of unknown length, within its bounds"""
        n = self.num(i)
        if n is None:
            raise Unsupported("item of a list of unknown length")
        if isinstance(n, int) and 0 <= n < len(o.items):
            return n
        if self.truth(self.lt(n, 0)):
            n = self.z(n) + o.length
        if not self.truth(self.and_([
                self.lt(n, o.length), self.lt(0, n, strict=False)])):
            self.raise_(IndexError, "list index out of range")
        return n

    def getitem(self, o, i):
        if isinstance(o, Undef):
            raise Unsupported("use of %r" % o)
        if is_strlike(o):
            if isinstance(i, slice):
                return self.str_slice(o, i.start, i.stop, i.step)
            if self.num(i) is None:
                self.raise_(TypeError, "string indices must be integers")
            return self.str_index(o, i)
        if isinstance(o, LongList):
            return o.at(self.long_index(o, i))
        if isinstance(o, (list, tuple)):
            if isinstance(i, slice):
                return o[i]
            n = self.num(i)
            if n is not None and is_z3(n) and len(o) > 4 and \
                    all(isinstance(x, (int, z3.ArithRef)) and
                        not isinstance(x, bool) for x in o) and \
                    self.e.entails(z3.And(n >= 0, n < len(o))):
                # table lookup without forking
                r = self.z(o[-1])
                for j in range(len(o) - 2, -1, -1):
                    r = z3.If(n == j, self.z(o[j]), r)
                return r
            return o[self.list_index(o, i)]
        if isinstance(o, dict):
            k = self.dict_find(o, i)
            if k is _MISSING:
                if self.is_instance_like(o):
                    pass
                self.raise_(KeyError, i)
            return o[k]
        if isinstance(o, JoinList) and o.items in ('codes', 'chars'):
            c = self.str_index(SStr(o.kind, seq=o.seq), i)
            if o.items == 'chars' and o.kind == 'bytes':
                c = mk_str('bytes', [c])
            return c
        if self.is_instance_like(o):
            return self.call(self.getattr(o, '__getitem__'), [i], {})
        if o is None or self.num(o) is not None:
            self.raise_(TypeError, "not subscriptable")
        if not has_sym(o) and not has_sym(i):
            try:
                return o[i]
            except Exception as err:
                self.raise_(type(err), *err.args)
        raise Unsupported("subscript of %r" % type(o))

    def ex_Call(self, node, frame):
        fx = node.func
        # logging has no effect on the verified state
        if isinstance(fx, ast.Attribute) and isinstance(fx.value, ast.Name) \
                and fx.value.id in ('logging', 'logger'):
            return None
        if isinstance(fx, ast.Name) and fx.id == 'super':
            if node.args:
                a = [self.ev(x, frame) for x in node.args]
                return SuperProxy(a[0], a[1])
            cls = self.load_name('__class__', frame)
            first = list(frame.locals.values())[0]
            return SuperProxy(cls, first)
        f = self.ev(fx, frame)
        if node.args and isinstance(node.args[-1], ast.Starred):
            args = self.ev_seq(node.args[:-1], frame)
            last = self.ev(node.args[-1].value, frame)
            if isinstance(last, LongList):
                args.append(Rest(last))
            else:
                args.extend(self.iter_list(last))
        else:
            args = self.ev_seq(node.args, frame)
        kwargs = {}
        for kw in node.keywords:
            if kw.arg is None:
                kwargs.update(self.ev(kw.value, frame))
            else:
                kwargs[kw.arg] = self.ev(kw.value, frame)
        if f is builtins.locals:
            return dict(frame.locals)
        return self.call(f, args, kwargs)

    def comp(self, gens, frame, emit, i=0):
        if i == len(gens):
            emit(frame)
            return
        g = gens[i]
        for x in self.iter_list(self.ev(g.iter, frame)):
            self.assign(g.target, x, frame)
            if all(self.truth(self.ev(c, frame)) for c in g.ifs):
                self.comp(gens, frame, emit, i + 1)

    def sub_frame(self, frame):
        f = Frame(frame.func_name, frame.glob, {}, parent=frame)
        f.node = getattr(frame, 'node', None)
        return f

    def long_concat(self, known, rest):
        n = len(known)
        if not n:
            return LongList(list(rest.items), rest.length, rest.at)

        def elem(i):
            for j in range(n):
                if self.truth(self.eq(i, j)):
                    return known[j]
            return rest.at(i - n)
        return LongList(known + list(rest.items),
                        z3.simplify(rest.length + n), elem)

    def lazy_map(self, it, frame, target, elt):
        """[elt for target in it] over a list of unknown length"""
        e = self.e
        names = {}
        chain = []
        fr = frame
        while fr is not None:
            chain.append(fr)
            fr = fr.parent
        for fr in reversed(chain):
            names.update(fr.locals)
        base = Frame(frame.func_name, frame.glob, names, free=frame.free,
                     cls=frame.cls)
        base.node = getattr(frame, 'node', None)
        for fr in reversed(chain):
            base.free = dict(base.free, **fr.free)
        src = LongList(list(it.items), it.length, it.elem)

        def item(x):
            fr = self.sub_frame(base)
            self.assign(target, x, fr)
            return self.ev(elt, fr)
        if e.choose(2) == 0:
            # what evaluating it for any one item does, failure included
            j = e.fresh(z3.IntSort(), 'j')
            e.assume(z3.And(j >= 0, j < src.length))
            e.require_feasible()
            snap = self.snapshot(frame, None, None)
            item(src.at(j))
            self.check_snapshot(snap, frame, NO_EFFECTS)
            raise PathEnd()
        return LongList([item(x) for x in src.items], src.length,
                        lambda i: item(src.at(i)))

    def ex_ListComp(self, node, frame):
        if len(node.generators) == 1 and not node.generators[0].ifs:
            g = node.generators[0]
            it = self.ev(g.iter, frame)
            if isinstance(it, LongList):
                return self.lazy_map(it, frame, g.target, node.elt)
            out = []
            fr = self.sub_frame(frame)
            for x in self.iter_list(it):
                self.assign(g.target, x, fr)
                out.append(self.ev(node.elt, fr))
            return out
        out = []
        fr = self.sub_frame(frame)
        self.comp(node.generators, fr,
                  lambda f: out.append(self.ev(node.elt, f)))
        return out

    def ex_GeneratorExp(self, node, frame):
        return self.ex_ListComp(node, frame)

    def ex_SetComp(self, node, frame):
        return set(self.ex_ListComp(node, frame))

    def ex_DictComp(self, node, frame):
        out = {}
        fr = self.sub_frame(frame)

        def emit(f):
            out[self.ev(node.key, f)] = self.ev(node.value, f)
        self.comp(node.generators, fr, emit)
        return out

    def ex_Yield(self, node, frame):
        v = self.ev(node.value, frame) if node.value else None
        fr = frame
        if isinstance(fr.yields, LongList):
            raise Unsupported("yield after a list of unknown length")
        if isinstance(fr.yields, Yielded):
            y = fr.yields
            self.call(y.spec.yields, [self.kit, y.loop, y.n, v], {})
            fr.yields = Yielded(y.n + 1, y.kit, y.spec, y.loop)
            return None
        fr.yields.append(v)
        return None

    def ex_YieldFrom(self, node, frame):
        v = self.ev(node.value, frame)
        if isinstance(frame.yields, Yielded):
            raise Unsupported("yield from in a loop")
        elif isinstance(v, LongList) and frame.yields == []:
            frame.yields = LongList(list(v.items), v.length, v.at)
        elif isinstance(frame.yields, LongList):
            raise Unsupported("yield after a list of unknown length")
        else:
            frame.yields.extend(self.iter_list(v))
        return None

    def ex_Starred(self, node, frame):
        raise Unsupported("starred expression")

    # -- joined lists ---------------------------------------------------------
    def joinlist_add(self, a, b):
        jl = a if isinstance(a, JoinList) else b
        return JoinList(jl.kind, jl.items, z3.Concat(
            self.joined_seq(a, jl), self.joined_seq(b, jl)))

    def joined_seq(self, v, like):
        if isinstance(v, JoinList):
            return v.seq
        if like.items == 'codes':
            if isinstance(v, (list, tuple)):
                for x in v:
                    self.check_byte(x)
                return codes_to_seq([self.num(x) for x in v])
            if is_strlike(v):
                return seq_of(v)
        elif isinstance(v, (list, tuple)):
            parts = list(v)
            for p in parts:
                if not is_strlike(p):
                    raise Unsupported("joined list holds %r" % type(p))
                if like.items == 'chars':
                    n = self.strlen(p)
                    if not (n == 1 if isinstance(n, int)
                            else self.e.entails(n == 1)):
                        raise Unsupported("list of characters holds text")
            if not parts:
                return z3.Empty(IntSeq)
            return seq_of(self.concat(like.kind, parts))
        raise Unsupported("joined list with %r" % type(v))

    def check_byte(self, x):
        n = self.num(x)
        if n is None:
            raise Unsupported("byte list holds %r" % type(x))
        if isinstance(n, int):
            ok = 0 <= n <= 255
        else:
            ok = self.e.entails(z3.And(n >= 0, n <= 255))
        if not ok:
            raise Unsupported("byte list value may be out of range")


def _same(x, y):
    if x is y:
        return True
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        return x.eq(y)
    if type(x) in (int, str, bytes, bool, float) and type(x) is type(y):
        return x == y
    if isinstance(x, BoundM) and isinstance(y, BoundM):
        return x.func is y.func and x.self_ is y.self_
    return False


class LoopView(object):
    """The variables of a loop, as seen by its invariant"""

    def __init__(self, interp, frame, spec):
        self.__dict__['_interp'] = interp
        self.__dict__['_frame'] = frame
        self.__dict__['_spec'] = spec
        self.__dict__['_i'] = 0
        self.__dict__['_n'] = None

    def _set_i(self, v):
        self.__dict__['_i'] = v

    def _get(self, name):
        if name == '_i':
            return self.__dict__['_i']
        if name == '_n':
            return self.__dict__['_n']
        if name == '_yields':
            y = self._frame.yields
            return len(y) if isinstance(y, list) else y.n
        fr = self._frame
        while fr is not None:
            if name in fr.locals:
                return fr.locals[name]
            fr = fr.parent
        raise Unsupported("the loop has no variable %s" % name)


class Yielded(object):
    """What a generator has yielded, by a loop: only how many are known,
    each is described (as it is yielded) by LoopSpec.yields"""

    def __init__(self, n, kit, spec, loop):
        self.n = n
        self.kit = kit
        self.spec = spec
        self.loop = loop


class LoopSpec(object):
    """An invariant for a loop of a function.

    havoc maps a variable ('i'), or an attribute path ('self.pos'), to a
    kind: 'int', 'bool', 'str', 'bytes', 'joinstr', 'joinbytes', 'codes',
    'real', 'optint', or a callable(kit) giving a fresh value.
    inv(k, L) returns a list of (name, condition)."""

    def __init__(self, func=None, inv=None, havoc=None, ordinal=None,
                 kind=None, variant=None, label=None, step=None, after=None,
                 strict=False, requires=(), maybe=None, yields=None):
        self.yields = yields        # called with each value yielded
        self.maybe = maybe or {}    # variables perhaps unset before
        self.func = func
        self.inv = inv
        self.havoc = havoc or {}
        self.ordinal = ordinal
        self.kind = kind
        self.variant = variant
        self.step = step
        self.after = after
        self.strict = strict
        self.requires = requires
        self.label = label or (str(ordinal) if ordinal is not None else '0')
        self.allowed = set()

    def locals(self):
        return set(n for n in self.havoc if '.' not in n) | set(self.maybe)

    def fits(self, frame, assigned):
        for n in self.havoc:
            root = n.split('.')[0]
            if '.' in n:
                if root not in frame.locals:
                    return False
            elif root not in frame.locals:
                return False
            elif root not in assigned and self.havoc[n] not in (
                    'joinstr', 'joinbytes', 'codes', 'chars', 'bchars'):
                return False
        for n in self.requires:
            if n not in frame.locals:
                return False
        return True

    def enter(self, interp, L):
        """Convert lists to their joined view before the loop"""
        frame = L._frame
        for n, kd in self.havoc.items():
            if kd in ('joinstr', 'joinbytes', 'codes', 'chars', 'bchars'):
                cur = self._get(interp, frame, n)
                if isinstance(cur, JoinList):
                    continue
                kind = 'str' if kd in ('joinstr', 'chars') else 'bytes'
                items = 'chars' if kd == 'bchars' else kd if kd in (
                    'codes', 'chars') else kind
                if not isinstance(cur, list):
                    raise Unsupported("%s is not a list" % n)
                jl = JoinList(kind, items, None)
                jl.seq = interp.joined_seq(cur, jl)
                self._set(interp, frame, n, jl)
                # other references to the same list would go stale
                refs = [v for v in frame.locals.values() if v is cur]
                if refs:
                    raise Unsupported("aliased list in a loop")

    def _get(self, interp, frame, n):
        parts = n.split('.')
        v = frame.locals[parts[0]]
        for p in parts[1:]:
            v = interp.getattr(v, p)
        return v

    def _set(self, interp, frame, n, value):
        parts = n.split('.')
        if len(parts) == 1:
            frame.locals[n] = value
            return
        v = frame.locals[parts[0]]
        for p in parts[1:-1]:
            v = interp.getattr(v, p)
        if not isinstance(v, Obj):
            raise Unsupported("havoc of a real object")
        v.attrs[parts[-1]] = value

    def do_havoc(self, interp, frame, L):
        e = interp.e
        self.allowed = set()
        for n, kd in self.maybe.items():
            frame.locals[n] = interp.kit.havoc_value(kd, n)
        for n, kd in self.havoc.items():
            parts = n.split('.')
            if kd in ('joinstr', 'joinbytes', 'codes', 'chars', 'bchars'):
                jl = self._get(interp, frame, n)
                jl.seq = e.fresh(IntSeq, n)
                self.allowed.add((id(jl), None))
                continue
            val = interp.kit.havoc_value(kd, n)
            if len(parts) > 1:
                v = frame.locals[parts[0]]
                for p in parts[1:-1]:
                    v = interp.getattr(v, p)
                self.allowed.add((id(v), parts[-1]))
            self._set(interp, frame, n, val)
            if isinstance(val, (Obj, LongList)):
                # made for this iteration, the invariant describes it
                self.allowed.add((id(val), None))
                self.keep = val

    def variant_value(self, interp, L):
        if self.variant is None:
            return None
        return interp.call(self.variant, [interp.kit, L], {})
