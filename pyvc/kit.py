"""The kit handed to contract harnesses, symbolic and native."""
import types
import z3

from .values import *   # noqa
from . import interp as I
from .domains import *   # noqa


class Skip(Exception):
    """The concrete input is outside the precondition"""


class Failed(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name, detail)
        self.name = name
        self.detail = detail


class SymKit(object):
    native = False
    concrete = False

    def __init__(self, engine, interp, pname):
        self.e = engine
        self.ip = interp
        self.pname = pname
        self.roots = []
        self.observed = []
        self.union_pick = {}
        self.store = {}
        self.revealed = set()

    def put(self, name, v):
        self.store[name] = v
        return v

    def get(self, name):
        return self.store[name]

    # -- specification ----------------------------------------------------
    def requires(self, c):
        self.e.assume(self.ip.truth_expr(c))
        self.e.require_feasible()

    assume = requires

    def ensures(self, name, c, *detail):
        self.e.oblige("%s: %s" % (self.pname, name), self.ip.truth_expr(c))

    def lemma(self, name, c):
        """An intermediate assertion: proved, then available"""
        self.e.oblige("%s: lemma %s" % (self.pname, name),
                      self.ip.truth_expr(c))

    def observe(self, *v):
        self.observed.append(v)

    def fail(self, name, *detail):
        self.e.oblige("%s: %s" % (self.pname, name), False)

    # -- logic ---------------------------------------------------------------
    def cond(self, c):
        if isinstance(c, I.Closure):
            c = self.ip.call(c, [], {})
        return self.ip.truth_expr(c)

    def And(self, *cs):
        return self.ip.and_([self.cond(c) for c in cs])

    def Or(self, *cs):
        return self.ip.or_([self.cond(c) for c in cs])

    def Not(self, c):
        return self.ip.not_(self.ip.truth_expr(c))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        a, b = self.ip.truth_expr(a), self.ip.truth_expr(b)
        if isinstance(a, bool):
            return b if a else self.Not(b)
        if isinstance(b, bool):
            return a if b else self.Not(a)
        return a == b

    def ite(self, c, a, b):
        c = self.ip.truth_expr(c)
        if isinstance(a, I.Closure):
            # alternatives written as functions: natively only one runs
            if isinstance(c, bool):
                return self.ip.call(a if c else b, [], {})
            a = self.ip.call(a, [], {})
            b = self.ip.call(b, [], {})
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, z3.BoolRef)):
            return z3.If(c, self.to_sort(a, z3.BoolSort()),
                         self.to_sort(b, z3.BoolSort()))
        if is_strlike(a):
            return SStr(kind_of(a), seq=z3.If(c, seq_of(a), seq_of(b)))
        return z3.If(c, self.ip.z(a), self.ip.z(b))

    def forall(self, lo, hi, fn):
        """for all lo <= i < hi"""
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 300:
            return self.And(*[self.ip.call(fn, [i], {})
                              for i in range(lo, hi)])
        i = self.e.fresh(z3.IntSort(), 'q')
        self.ip.pure_ctx += 1
        try:
            body = self.ip.truth_expr(self.ip.call(fn, [i], {}))
        finally:
            self.ip.pure_ctx -= 1
        if isinstance(body, bool):
            return True if body else self.ip.not_(self.ip.lt(lo, hi))
        return z3.ForAll([i], z3.Implies(
            z3.And(i >= self.ip.z(lo), i < self.ip.z(hi)), body))

    # -- values ---------------------------------------------------------------
    def new(self, cls, **attrs):
        return Obj(cls, dict(attrs))

    def root(self, *v):
        self.roots.extend(v)

    def range_fact(self, s, ranges=None):
        i = z3.Int('rf!i')
        c = s.seq[i]
        hi = 0x10ffff if s.kind == 'str' else 255
        ok = z3.And(c >= 0, c <= hi) if ranges is None else z3.Or(
            *[z3.And(c >= a, c <= b) for a, b in ranges])
        self.e.add(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < z3.Length(s.seq)), ok)))

    def code(self, s, i):
        """the code at index i of text, no bounds check"""
        if isinstance(s, SStr) and s.chars is None:
            return self.ip.nth(s, i)
        codes = codes_of(s)
        if isinstance(i, int):
            return codes[i]
        return codes_to_seq(codes)[i]

    def text(self, kind, *codes):
        return mk_str(kind, [self.ip.num(c) for c in codes])

    def sub(self, s, a, b):
        """s[a:b] for 0 <= a <= b <= len(s)"""
        return SStr(kind_of(s), seq=z3.SubSeq(
            seq_of(s), self.ip.z(a), self.ip.z(b) - self.ip.z(a)))

    def adjacent(self, s, a, b, c):
        """instance of a theorem of sequences: adjacent slices join"""
        q, a, b, c = seq_of(s), self.ip.z(a), self.ip.z(b), self.ip.z(c)
        self.e.add(z3.Implies(
            z3.And(0 <= a, a <= b, b <= c, c <= z3.Length(q)),
            z3.Concat(z3.SubSeq(q, a, b - a), z3.SubSeq(q, b, c - b)) ==
            z3.SubSeq(q, a, c - a)))

    def cat(self, *parts):
        return self.ip.concat(kind_of(parts[0]), list(parts))

    def joined(self, v, kind='str'):
        """The join of a list (a loop variable) of pieces or byte codes"""
        if isinstance(v, JoinList):
            return SStr(v.kind, seq=v.seq)
        if isinstance(v, list):
            if all(self.ip.num(x) is not None for x in v) and v:
                return SStr('bytes', seq=codes_to_seq(
                    [self.ip.num(x) for x in v]))
            return self.ip.concat(kind, v)
        raise Unsupported("joined view of %r" % type(v))

    def to_sort(self, v, sort):
        if sort == IntSeq:
            return seq_of(v)
        if sort == z3.BoolSort():
            v = self.ip.truth_expr(v)
            return z3.BoolVal(v) if isinstance(v, bool) else v
        return self.ip.z(v)

    def many(self, n, elem):
        """A list of n items (a z3 integer), item i being elem(i)"""
        def item(i):
            return self.ip.call(elem, [i], {})
        return LongList([], n, item)

    def item(self, items, i):
        """item i of a list that has one, no bounds check"""
        if isinstance(items, LongList):
            return items.at(i)
        return self.ip.getitem(items, i)

    def yielded(self, result):
        """how many values the generator called has yielded"""
        from pyvc.interp import Yielded
        if isinstance(result, Yielded):
            return result.n
        return self.ip.call(len, [result], {})

    def fun(self, name, nargs, kind='int'):
        """An unknown function of integers"""
        f = self.e.fresh_fun(name, *([z3.IntSort()] * nargs + [
            {'bool': z3.BoolSort, 'real': z3.RealSort}.get(
                kind, z3.IntSort)()]))

        def F(*args):
            return f(*[self.ip.z(a) for a in args])
        F.__module__ = 'pyvc.kit'
        return F

    # ghost folds over text: F(i) describes the first i characters
    def fold(self, name, kind, init, step):
        """step(prev, i) -> next; returns (F, unfold)"""
        sort = {'str': IntSeq, 'bytes': IntSeq, 'int': z3.IntSort(),
                'bool': z3.BoolSort(), 'real': z3.RealSort()}[kind]
        f = self.e.fresh_fun(name, z3.IntSort(), sort)

        def wrap(t):
            if sort == IntSeq:
                return SStr(kind, seq=t)
            return t
        self.e.add(f(z3.IntVal(0)) == self.to_sort(init, sort))

        def F(i):
            return wrap(f(self.ip.z(i)))

        def unfold(i):
            i = self.ip.z(i)
            nxt = self.ip.call(step, [wrap(f(i)), i], {})
            self.e.add(f(i + 1) == self.to_sort(nxt, sort))
        F.__module__ = unfold.__module__ = 'pyvc.kit'
        return F, unfold

    def inverse(self, name, F, lo, hi):
        """a function G with G(F(j)) = j for lo <= j < hi, which exists
        when F is injective there (the caller's duty)"""
        g = self.e.fresh_fun(name, z3.IntSort(), z3.IntSort())
        j = self.e.fresh(z3.IntSort(), 'q')
        t = F(j)
        self.e.assumed.add("%s exists: the inverse of an injective "
                           "function" % name)
        self.e.add(z3.ForAll([j], z3.Implies(z3.And(
            j >= self.ip.z(lo), j < self.ip.z(hi)), g(t) == j),
            patterns=[t]))

        def G(x):
            return g(self.ip.z(x))
        G.__module__ = 'pyvc.kit'
        return G

    def holds(self, pred, code):
        """a Pred parameter at a character code"""
        return pred.holds(code)

    def all_codes(self, s, ok):
        """every character of text satisfies ok(code)"""
        if isinstance(s, SStr) and s.chars is None:
            i = self.e.fresh(z3.IntSort(), 'q')
            q, lo, hi = s.seq, z3.IntVal(0), z3.Length(s.seq)
            while q.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                # as a fact about the text that it is a slice of
                base, o, m = q.children()
                if not self.e.entails(z3.And(o >= 0, m >= 0, o + m <=
                                             z3.Length(base))):
                    break
                if q is s.seq:
                    hi = m
                q, lo, hi = base, z3.simplify(o + lo), z3.simplify(o + hi)
            c = self.ip.seq_nth(q, i)
            self.ip.pure_ctx += 1
            try:
                body = self.ip.truth_expr(self.ip.call(ok, [c], {}))
            finally:
                self.ip.pure_ctx -= 1
            if isinstance(body, bool):
                body = z3.BoolVal(body)
            return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), body))
        return self.And(*[self.ip.call(ok, [c], {}) for c in codes_of(s)])

    def decval(self, s):
        """the value of a run of decimal digits"""
        codes = codes_of(s)
        if codes is None:
            f = z3.Function('decval', IntSeq, z3.IntSort())
            self.e.add(f(s.seq) >= 0)
            return f(s.seq)
        v = 0
        for c in codes:
            v = v * 10 + (self.ip.z(c) - 48 if is_z3(c) else c - 48)
        return v

    def int_of_text(self, s, base):
        """int() of text of unknown length: only of plain digits"""
        if base != 10:
            return None
        q = s.seq
        if q.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_true(z3.simplify(
                q.arg(0) == z3.Unit(z3.IntVal(45)))):
            rest = q.children()[1:]
            rest = SStr(s.kind, seq=rest[0] if len(rest) == 1 else
                        z3.Concat(*rest))
            r = self.int_of_text(rest, base)
            return None if r is None else -r
        ok = self.And(z3.Length(s.seq) > 0, self.all_codes(
            s, lambda c: z3.And(c >= 48, c <= 57)))
        if not self.e.entails(ok, 4000):
            return None
        return self.decval(s)

    # opaque specification functions: name(args) until revealed
    def opaque(self, name, kind, fn, *args):
        if not any(isinstance(a, z3.ExprRef) for a in args):
            return self.ip.call(fn, [self] + list(args), {})
        sort = z3.BoolSort() if kind == 'bool' else z3.IntSort()
        zs = [self.ip.z(a) for a in args]
        f = z3.Function('opaque_' + name, *([z3.IntSort()] * len(zs) +
                                            [sort]))
        t = f(*zs)
        if name in self.revealed:
            key = ('rev', name) + tuple(z.get_id() for z in zs)
            if key not in self.e.cache:
                self.e.cache[key] = zs
                d = self.ip.call(fn, [self] + list(args), {})
                self.e.add(t == self.to_sort(d, sort))
        return t

    def expose(self, name, kind, fn, *args):
        """The definition of an opaque function at these arguments only"""
        had = name in self.revealed
        self.revealed.add(name)
        try:
            return self.opaque(name, kind, fn, *args)
        finally:
            if not had:
                self.revealed.discard(name)

    def reveal(self, *names):
        self.revealed.update(names)

    def use_lemma(self, name, c):
        """A lemma proved by another harness of the named property"""
        self.e.assumed.add("lemma '%s' (its own harness)" % name)
        self.e.assume(self.ip.truth_expr(c))

    def havoc_value(self, kd, name):
        e = self.e
        if callable(kd) and not isinstance(kd, str):
            if isinstance(kd, Domain):
                return kd.symbolic(self, name)
            return self.ip.call(kd, [self], {})
        if isinstance(kd, Domain):
            return kd.symbolic(self, name)
        if kd == 'int':
            return e.fresh(z3.IntSort(), name)
        if kd == 'bool':
            return e.fresh(z3.BoolSort(), name)
        if kd == 'real':
            return e.fresh(z3.RealSort(), name)
        if kd in ('str', 'bytes'):
            v = SStr(kd, seq=e.fresh(IntSeq, name))
            self.range_fact(v)
            return v
        if kd == 'char':
            c = e.fresh(z3.IntSort(), name)
            e.add(z3.And(c >= 0, c <= 0x10ffff))
            return mk_str('str', [c])
        if kd == 'optint':
            if e.choose(2):
                return None
            return e.fresh(z3.IntSort(), name)
        if kd == 'optchar':
            if e.choose(2):
                return None
            return self.havoc_value('char', name)
        if kd == 'none':
            return None
        raise Unsupported("havoc of kind %r" % (kd,))

    def giveup(self, why):
        """the code no longer has the shape this annotation describes"""
        raise Unsupported("annotation does not apply: %s" % why)

    def fresh(self, kd, name='v'):
        return self.havoc_value(kd, name)

    def split(self, c):
        """Consider the condition and its negation separately"""
        return self.ip.truth(c)


class PinKit(SymKit):
    """Concrete values through the interpreter (engine cross-check)"""
    concrete = True

    def opaque(self, name, kind, fn, *args):
        return self.ip.call(fn, [self] + list(args), {})

    def use_lemma(self, name, c):
        pass

    def requires(self, c):
        c = self.ip.truth_expr(c)
        if not isinstance(c, bool):
            raise Unsupported("symbolic in a concrete run")
        if not c:
            raise PathEnd()

    assume = requires

    def ensures(self, name, c, *detail):
        pass

    def lemma(self, name, c):
        pass

    def fail(self, name, *detail):
        pass


class NatKit(object):
    native = True
    concrete = True

    def __init__(self, pname):
        self.pname = pname
        self.observed = []
        self.reached = []
        self.active = True
        self.store = {}

    def put(self, name, v):
        self.store[name] = v
        return v

    def get(self, name):
        return self.store[name]

    def giveup(self, why):
        raise Skip()

    def requires(self, c):
        if not c:
            raise Skip()

    assume = requires

    def ensures(self, name, c, *detail):
        self.reached.append(name)
        if not c:
            raise Failed(name, ' '.join(repr(d) for d in detail))

    def lemma(self, name, c):
        if not c:
            raise Failed("lemma " + name)

    def fail(self, name, *detail):
        raise Failed(name, ' '.join(repr(d) for d in detail))

    def observe(self, *v):
        self.observed.append(v)

    def And(self, *cs):
        # conditions may be written as functions, evaluated in turn
        return all(c() if isinstance(c, types.FunctionType) else c
                   for c in cs)

    def Or(self, *cs):
        return any(c() if isinstance(c, types.FunctionType) else c
                   for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        r = a if c else b
        return r() if isinstance(r, types.FunctionType) else r

    def forall(self, lo, hi, fn):
        return all(fn(i) for i in range(lo, hi))

    def new(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def root(self, *v):
        pass

    def code(self, s, i):
        if isinstance(s, str):
            return ord(s[i])
        return s[i]

    def text(self, kind, *codes):
        if kind == 'str':
            return ''.join(map(chr, codes))
        return bytes(codes)

    def item(self, items, i):
        return items[i]

    def sub(self, s, a, b):
        return s[a:b]

    def adjacent(self, s, a, b, c):
        pass

    def cat(self, *parts):
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r

    def holds(self, pred, code):
        return pred.holds(code)

    def all_codes(self, s, ok):
        return all(ok(ord(c) if isinstance(c, str) else c) for c in s)

    def decval(self, s):
        return int(s)

    def joined(self, v, kind='str'):
        if kind == 'str':
            return ''.join(v)
        return bytes(v) if v and isinstance(v[0], int) else b''.join(v)

    def fold(self, name, kind, init, step):
        memo = [init]

        def F(i):
            while len(memo) <= i:
                memo.append(step(memo[-1], len(memo) - 1))
            return memo[i]

        def unfold(i):
            pass
        return F, unfold

    def split(self, c):
        return bool(c)

    def expose(self, name, kind, fn, *args):
        return self.opaque(name, kind, fn, *args)

    def opaque(self, name, kind, fn, *args):
        return fn(self, *args)

    def reveal(self, *names):
        pass

    def use_lemma(self, name, c):
        if not c:
            raise Failed("lemma " + name)


class Proof(object):
    def __init__(self, func, params, name, loops=(), uses=(), bounded=None,
                 clause='', budget=None, native=True, samples=None,
                 ob_ms=None, unroll=80, setup=None, symbolic=True,
                 thorough_only=False, effects=None, exhaustive=False,
                 feas_ms=None, max_paths=200000, splits=5):
        self.splits = splits
        self.func = func
        self.params = params
        self.name = name
        self.loops = list(loops)
        self.uses = list(uses)
        self.bounded = bounded      # text of the bound, or None
        self.clause = clause
        self.budget = budget
        self.native = native
        self.samples = samples
        self.ob_ms = ob_ms
        self.feas_ms = feas_ms
        self.unroll = unroll
        self.setup = setup
        self.symbolic = symbolic and not any(
            d.native_only for d in params.values())
        self.thorough_only = thorough_only
        self.effects = effects or {}
        self.exhaustive = exhaustive
        self.max_paths = max_paths


def proof(name, _loops=(), _uses=(), _bounded=None, _budget=None,
          _samples=None, _ob_ms=None, _unroll=80, _native=True,
          _symbolic=True, _thorough_only=False, _effects=None,
          _exhaustive=False, _feas_ms=None, _max_paths=200000,
          _splits=5, **params):
    """Decorator: registers a contract harness in its module's PROOFS"""
    def deco(f):
        p = Proof(f, params, name, loops=_loops, uses=_uses,
                  bounded=_bounded, budget=_budget, samples=_samples,
                  ob_ms=_ob_ms, unroll=_unroll, native=_native,
                  symbolic=_symbolic, thorough_only=_thorough_only,
                  effects=_effects, exhaustive=_exhaustive,
                  feas_ms=_feas_ms, max_paths=_max_paths, splits=_splits)
        f.__globals__.setdefault('PROOFS', []).append(p)
        return f
    return deco


def bounded(name, _bound, **params):
    """A bounded stand-in: run natively over samples only"""
    params.setdefault('_symbolic', False)
    return proof(name, _bounded=_bound, **params)


def resolve(path):
    """The function 'module:Class.name', or None when it is not there"""
    import importlib
    mod, names = path.split(':')
    try:
        o = importlib.import_module(mod)
        for n in names.split('.'):
            o = o.__dict__[n]
    except (ImportError, KeyError, AttributeError):
        return None
    if isinstance(o, (classmethod, staticmethod)):
        o = o.__func__
    return o if isinstance(o, types.FunctionType) else None


def has(cls, name, nargs):
    """cls (or module) still defines name with nargs positional arguments:
    harnesses of internal functions step aside when it does not"""
    f = getattr(cls, name, None)
    f = getattr(f, '__func__', f)
    return isinstance(f, types.FunctionType) and \
        f.__code__.co_argcount == nargs


class Contract(object):
    """A callee contract, used at call sites in place of the body.

    pre(k, *args) -> condition; post(k, result, *args) -> condition;
    result: a kind or Domain.  The proof harness `check` (registered
    separately) discharges it against the body."""

    def __init__(self, func, result, post=None, pre=None, name=None,
                 raises=None, checked_by=None, modifies=None):
        if isinstance(func, str):
            func = resolve(func)
        self.func = func
        self.result = result
        self.post = post
        self.pre = pre
        self.raises = raises        # (exc class, cond(k, *args))
        self.name = name or getattr(func, '__qualname__', '?')
        self.checked_by = checked_by
        self.modifies = modifies

    def apply(self, ip, args, kwargs):
        k = ip.kit
        node, cls = I.SOURCES.find(self.func)
        loc = ip.bind_args(node.args, args, kwargs, self.func.__defaults__,
                           self.func.__kwdefaults__, self.func.__name__)
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        a = [loc[n] for n in names]
        want = self.post or self.pre
        if want is not None and want.__code__.co_argcount != len(a) + (
                2 if want is self.post else 1):
            raise Unsupported("%s no longer has the signature of its "
                              "contract" % self.name)
        ip.e.assumed.add("contract of %s%s" % (
            self.name, " (discharged by %s)" % self.checked_by
            if self.checked_by else " (assumed)"))
        if self.pre is not None:
            ip.e.oblige("%s: precondition of %s at a call" % (
                k.pname, self.name),
                ip.truth_expr(ip.call(self.pre, [k] + a, {})))
        if self.raises is not None:
            exc, cond = self.raises
            if ip.truth(ip.call(cond, [k] + a, {})):
                ip.raise_(exc)
        if self.modifies is not None:
            ip.call(self.modifies, [k] + a, {})
        if isinstance(self.result, types.FunctionType):
            r = ip.call(self.result, [k] + a, {})
        else:
            r = k.havoc_value(self.result, self.func.__name__)
        if self.post is not None:
            ip.e.assume(ip.truth_expr(ip.call(self.post, [k, r] + a, {})))
            ip.e.require_feasible()
        return r
