"""Q01: the operators of the QTI expression language."""
import math
import random
from fractions import Fraction
from pyvc.interp import LoopSpec
from pyvc.kit import proof, bounded, Choice, Gen, Int, Real
from pyslet import html401 as html
from pyslet.qtiv2 import core, expressions, variables
from pyslet.qtiv2.variables import BaseType, Cardinality, BooleanValue, \
    FloatValue, IntegerValue, SingleValue, OrderedContainer, \
    MultipleContainer, StringValue, IdentifierValue, DurationValue, \
    PointValue, RecordContainer, Value


def _quiet():
    """the deprecated names only warn, the first time: not of interest"""
    for m in (variables, expressions):
        for c in vars(m).values():
            if isinstance(c, type):
                for f in vars(c).values():
                    f = getattr(f, '__func__', f)
                    for cell in getattr(f, '__closure__', None) or ():
                        try:
                            x = cell.cell_contents
                        except ValueError:
                            continue
                        if type(x).__name__ == 'DeprecatedMethod':
                            x.warned = True


_quiet()

LOW, HIGH = -2147483648, 2147483647
I32 = Int(LOW, HIGH)


class Given(object):

    """a sub-expression of known value"""

    def __init__(self, v):
        self.v = v

    def evaluate(self, state):
        return self.v


def operator(cls):
    class Op(cls):
        def __init__(self, *operands):
            self.Expression = list(operands)
    Op.__name__ = cls.__name__
    return Op


def unary(cls):
    class Op(cls):
        def __init__(self, operand):
            self.Expression = operand
    Op.__name__ = cls.__name__
    return Op


class AnyN(expressions.AnyN):
    def __init__(self, lo, hi, operands):
        self.min, self.max = lo, hi
        self.Expression = operands

    def integer_or_template_ref(self, state, value):
        return value


And, Or = operator(expressions.And), operator(expressions.Or)
Not = unary(expressions.Not)
Sum, Product = operator(expressions.Sum), operator(expressions.Product)
Subtract = operator(expressions.Subtract)
Divide, Power = operator(expressions.Divide), operator(expressions.Power)
IntegerDivide = operator(expressions.IntegerDivide)
IntegerModulus = operator(expressions.IntegerModulus)
Truncate, Round = unary(expressions.Truncate), unary(expressions.Round)
IntegerToFloat = unary(expressions.IntegerToFloat)
LT, LTE = operator(expressions.LT), operator(expressions.LTE)
GT, GTE = operator(expressions.GT), operator(expressions.GTE)
DurationLT = operator(expressions.DurationLT)
DurationGTE = operator(expressions.DurationGTE)
Match, Member = operator(expressions.Match), operator(expressions.Member)
Delete, Index = operator(expressions.Delete), unary(expressions.Index)
Multiple = operator(expressions.Multiple)
Ordered = operator(expressions.Ordered)
ContainerSize = unary(expressions.ContainerSize)
Contains = operator(expressions.Contains)
IsNull = unary(expressions.IsNull)


# -- three valued logic -------------------------------------------------------

FALSE, TRUE, NULL = 0, 1, 2


class Truth(object):

    """a sub-expression that is false, true, or not known"""

    def __init__(self, t):
        self.t = t

    def evaluate(self, state):
        if self.t == FALSE:
            return BooleanValue(False)
        elif self.t == TRUE:
            return BooleanValue(True)
        else:
            return BooleanValue()


class Some(object):

    """any number of operands"""

    def __init__(self, k, seed):
        self.k = k
        if k.native:
            r = random.Random(seed)
            self.n = r.choice([0, 1, 1, 2, 2, 3, 4, 9])
            ts = [r.choice([FALSE, TRUE, NULL][r.randrange(2):])
                  for i in range(self.n)]
            if r.random() < 0.3:
                ts = [r.choice([FALSE, NULL]) for i in ts]
            self.t = lambda i: ts[i]
        else:
            self.n = k.fresh('int', 'n')
            k.requires(self.n >= 0)
            self.t = k.fun('truth', 1)

    def operands(self):
        if self.k.native:
            return [Truth(self.t(i)) for i in range(self.n)]
        return self.k.many(self.n, lambda i: Truth(self.t(i)))

    def none(self, t, n=None):
        """none of (the first n) operands has this value"""
        n = self.n if n is None else n
        return self.k.forall(0, n, lambda j: self.t(j) != t)

    def all(self, t, n=None):
        n = self.n if n is None else n
        return self.k.forall(0, n, lambda j: self.t(j) == t)


SEED = Int(0, 10 ** 9)


def same(known):
    """of the values looked at none differs from the first"""
    return [
        LoopSpec(f, havoc={v: 'optint'}, inv=lambda k, L, v=v, x=x: [
            ("what they are", k.Or(k.And(L._i == 0, getattr(L, v) is None),
                                   k.And(L._i > 0, getattr(L, v) == x)))])
        for f, v, x in (
            ('check_cardinalities', 'creturn', Cardinality.single),
            ('check_base_types', 'breturn', known))]


def and_inv(k, L):
    w = k.get('some')
    return [("not false", w.none(FALSE, L._i)),
            ("known", k.Iff(L.result is True, w.all(TRUE, L._i))),
            ("or not", k.Or(L.result is True, L.result is None))]


def or_inv(k, L):
    w = k.get('some')
    return [("not true", w.none(TRUE, L._i)),
            ("known", k.Iff(L.result is False, w.all(FALSE, L._i))),
            ("or not", k.Or(L.result is False, L.result is None))]


@proof('and', seed=SEED, _splits=12, _loops=same(BaseType.boolean) + [
    LoopSpec('evaluate', havoc={'result': Choice([True, None])},
             inv=and_inv)])
def conjunction(k, seed):
    w = Some(k, seed)
    k.put('some', w)
    op = And()
    op.Expression = w.operands()
    r = op.evaluate(None)
    k.ensures("a boolean", k.And(r.baseType == BaseType.boolean,
                                 r.cardinality() == Cardinality.single))
    k.ensures("true if they all are", k.Iff(r.value is True, w.all(TRUE)))
    k.ensures("false if one is", k.Iff(r.value is False,
                                       k.Not(w.none(FALSE))))
    k.ensures("null otherwise", k.Iff(r.value is None, k.And(
        w.none(FALSE), k.Not(w.all(TRUE)))))


@proof('or', seed=SEED, _splits=12, _loops=same(BaseType.boolean) + [
    LoopSpec('evaluate', havoc={'result': Choice([False, None])},
             inv=or_inv)])
def disjunction(k, seed):
    w = Some(k, seed)
    k.put('some', w)
    op = Or()
    op.Expression = w.operands()
    r = op.evaluate(None)
    k.ensures("a boolean", k.And(r.baseType == BaseType.boolean,
                                 r.cardinality() == Cardinality.single))
    k.ensures("true if one is", k.Iff(r.value is True, k.Not(w.none(TRUE))))
    k.ensures("false if they all are", k.Iff(r.value is False,
                                             w.all(FALSE)))
    k.ensures("null otherwise", k.Iff(r.value is None, k.And(
        w.none(TRUE), k.Not(w.all(FALSE)))))


@proof('not', t=Int(0, 2))
def negation(k, t):
    r = Not(Truth(t)).evaluate(None)
    k.ensures("a boolean", r.baseType == BaseType.boolean)
    k.ensures("true", k.Iff(r.value is True, t == FALSE))
    k.ensures("false", k.Iff(r.value is False, t == TRUE))
    k.ensures("null", k.Iff(r.value is None, t == NULL))


def anyn_inv(k, L):
    w = k.get('some')
    return [("counted", k.And(L.ntrue == w.true(L._i),
                              L.nnull == w.null(L._i))),
            ("counts", k.And(L.ntrue >= 0, L.nnull >= 0))]


def anyn_after(k, L):
    w = k.get('some')
    w.unfold_true(L._i - 1)
    w.unfold_null(L._i - 1)


@proof('any of n', seed=SEED, lo=Int(-1, None), hi=Int(-1, None), _splits=12,
       _loops=same(BaseType.boolean) + [
           LoopSpec('evaluate', havoc={'ntrue': 'int', 'nnull': 'int'},
                    inv=anyn_inv, after=anyn_after)])
def any_n(k, seed, lo, hi):
    if k.native:
        lo, hi = lo % 6, hi % 8
    k.requires(lo <= hi)
    w = Some(k, seed)
    k.put('some', w)
    if k.native:
        trues = sum(w.t(i) == TRUE for i in range(w.n))
        nulls = sum(w.t(i) not in (TRUE, FALSE) for i in range(w.n))
    else:
        w.true, w.unfold_true = k.fold(
            'true', 'int', 0, lambda a, i: a + k.ite(w.t(i) == TRUE, 1, 0))
        w.null, w.unfold_null = k.fold(
            'null', 'int', 0, lambda a, i: a + k.ite(
                k.Or(w.t(i) == TRUE, w.t(i) == FALSE), 0, 1))
        trues, nulls = w.true(w.n), w.null(w.n)
    r = AnyN(lo, hi, w.operands()).evaluate(None)
    k.ensures("a boolean", r.baseType == BaseType.boolean)
    # whatever the unknown ones turn out to be
    k.ensures("true when sure", k.Iff(r.value is True, k.And(
        trues >= lo, trues + nulls <= hi)))
    k.ensures("false when sure", k.Iff(r.value is False, k.Or(
        trues > hi, trues + nulls < lo)))
    k.ensures("null when not", k.Iff(r.value is None, k.And(
        k.Or(trues < lo, trues + nulls > hi),
        trues <= hi, trues + nulls >= lo)))


# -- numbers --------------------------------------------------------------------

INT, FLT, NO_INT, NO_FLT, UNKNOWN, NOTHING = range(6)
KIND = Choice([INT, FLT, NO_INT, NO_FLT, UNKNOWN, NOTHING])
CORNERS = Real([0.0, -0.0, 0.5, -0.5, 1.0, 1.5, -1.5, 2.5, -2.5, 0.25, 1e-320,
                0.49999999999999994, -0.49999999999999994, 4194303.5,
                2147483646.5, -2147483648.5, -2147483648.0, 1e15,
                0.9999999999999999, -0.9999999999999999, 1.4999999999999998])


def number(kind, i, x):
    if kind == INT:
        return Given(IntegerValue(i))
    elif kind == FLT:
        return Given(FloatValue(x))
    elif kind == NO_INT:
        return Given(IntegerValue())
    elif kind == NO_FLT:
        return Given(FloatValue())
    elif kind == UNKNOWN:
        return Given(SingleValue())
    else:
        return Given(Value())


def of_type(*kinds):
    """the type of the result of adding, or None if there is no telling"""
    for kind in kinds:
        if kind in (FLT, NO_FLT):
            return BaseType.float
    for kind in kinds:
        if kind in (INT, NO_INT):
            return BaseType.integer
    return None


def given(kind):
    return kind in (INT, FLT)


def as_number(k, kind, i, x):
    """the real number itself"""
    if not k.native:
        return i * 1.0 if kind == INT else x
    return Fraction(i if kind == INT else x)


def exact(k, x):
    return Fraction(x) if k.native else x


@proof('subtract', ka=KIND, a=I32, xa=Real(), kb=KIND, b=I32, xb=Real())
def subtract(k, ka, a, xa, kb, b, xb):
    try:
        r = Subtract(number(ka, a, xa), number(kb, b, xb)).evaluate(None)
    except ValueError:
        k.ensures("only integers overflow", ka == INT and kb == INT)
        k.ensures("out of range", k.Or(a - b < LOW, a - b > HIGH))
        return
    k.ensures("type", r.baseType == of_type(ka, kb))
    if not (given(ka) and given(kb)):
        k.ensures("null", r.value is None)
    elif ka == INT and kb == INT:
        k.ensures("difference", r.value == a - b)
    else:
        k.ensures("difference", exact(k, r.value) == as_number(
            k, ka, a, xa) - as_number(k, kb, b, xb))


@proof('divide', ka=KIND, a=I32, xa=Real(), kb=KIND, b=I32, xb=Real())
def divide(k, ka, a, xa, kb, b, xb):
    r = Divide(number(ka, a, xa), number(kb, b, xb)).evaluate(None)
    k.ensures("type", r.baseType == BaseType.float)
    if not (given(ka) and given(kb)):
        k.ensures("null", r.value is None)
        return
    p, q = as_number(k, ka, a, xa), as_number(k, kb, b, xb)
    if r.value is None:
        k.ensures("division by zero", q == 0)
        return
    k.ensures("not by zero", q != 0)
    if k.native:
        k.ensures("quotient", r.value == float(p) / float(q))
    else:
        k.ensures("quotient", r.value * q == p)


@proof('integer division', ka=KIND, a=I32, kb=KIND, b=I32)
def integer_division(k, ka, a, kb, b):
    k.requires(ka not in (FLT, NO_FLT))
    k.requires(kb not in (FLT, NO_FLT))
    m = IntegerModulus(number(ka, a, 0.0), number(kb, b, 0.0)).evaluate(None)
    k.ensures("types", m.baseType == BaseType.integer)
    try:
        d = IntegerDivide(number(ka, a, 0.0),
                          number(kb, b, 0.0)).evaluate(None)
    except ValueError:
        # the one quotient that is no 32 bit integer
        k.ensures("out of range", k.And(a == LOW, b == -1))
        return
    k.ensures("type", d.baseType == BaseType.integer)
    if not (given(ka) and given(kb)):
        k.ensures("null", d.value is None and m.value is None)
        return
    if d.value is None:
        k.ensures("division by zero", k.And(b == 0, m.value is None))
        return
    k.ensures("not by zero", b != 0)
    q, r = d.value, m.value
    k.ensures("identity", a == q * b + r)
    # q is the greatest integer that is not above a / b
    k.ensures("rounded down", k.ite(
        b > 0, lambda: k.And(q * b <= a, a < (q + 1) * b),
        lambda: k.And(q * b >= a, a > (q + 1) * b)))


@proof('not integers', ka=KIND, a=I32, xa=Real(), kb=KIND, b=I32, xb=Real())
def not_integers(k, ka, a, xa, kb, b, xb):
    k.requires(ka in (FLT, NO_FLT) or kb in (FLT, NO_FLT))
    refused = 0
    for op in (IntegerModulus, IntegerDivide):
        try:
            op(number(ka, a, xa), number(kb, b, xb)).evaluate(None)
        except core.ProcessingError:
            refused += 1
    k.ensures("refused", refused == 2)


@proof('truncate', kind=KIND, x=CORNERS)
def truncate(k, kind, x):
    k.requires(kind not in (INT, NO_INT))
    try:
        r = Truncate(number(kind, 0, x)).evaluate(None)
    except ValueError:
        k.ensures("out of range", k.Or(x <= LOW - 1, x >= HIGH + 1))
        return
    k.ensures("type", r.baseType == BaseType.integer)
    if kind != FLT:
        k.ensures("null", r.value is None)
        return
    n, v = r.value, exact(k, x)
    k.ensures("towards zero", k.ite(
        x >= 0, lambda: k.And(n <= v, v < n + 1),
        lambda: k.And(v <= n, n < v + 1)))


@proof('round', kind=KIND, x=CORNERS)
def rounding(k, kind, x):
    k.requires(kind not in (INT, NO_INT))
    v = exact(k, x)
    try:
        r = Round(number(kind, 0, x)).evaluate(None)
    except ValueError:
        k.ensures("out of range", k.Or(2 * v < 2 * LOW - 1,
                                       2 * v >= 2 * HIGH + 1))
        return
    k.ensures("type", r.baseType == BaseType.integer)
    if kind != FLT:
        k.ensures("null", r.value is None)
        return
    n = r.value
    # n for all of [n - 0.5, n + 0.5)
    k.ensures("nearest", k.And(2 * n - 1 <= 2 * v, 2 * v < 2 * n + 1))


@proof('integer to float', kind=KIND, a=I32)
def integer_to_float(k, kind, a):
    k.requires(kind not in (FLT, NO_FLT))
    r = IntegerToFloat(number(kind, a, 0.0)).evaluate(None)
    k.ensures("type", r.baseType == BaseType.float)
    if kind == INT:
        k.ensures("same", r.value == a)
    else:
        k.ensures("null", r.value is None)


@proof('comparison', ka=KIND, a=I32, xa=Real(), kb=KIND, b=I32, xb=Real())
def comparison(k, ka, a, xa, kb, b, xb):
    p, q = as_number(k, ka, a, xa), as_number(k, kb, b, xb)
    for op, want in ((LT, p < q), (LTE, p <= q), (GT, p > q), (GTE, p >= q)):
        r = op(number(ka, a, xa), number(kb, b, xb)).evaluate(None)
        k.ensures("type", r.baseType == BaseType.boolean)
        if given(ka) and given(kb):
            k.ensures("order", k.Iff(r.value, want))
        else:
            k.ensures("null", r.value is None)


@proof('durations', na=Int(0, 1), xa=Real(), nb=Int(0, 1), xb=Real())
def durations(k, na, xa, nb, xb):
    a, b = DurationValue(), DurationValue()
    if na == 0:
        a.set_value(xa)
    if nb == 0:
        b.set_value(xb)
    lt = DurationLT(Given(a), Given(b)).evaluate(None)
    ge = DurationGTE(Given(a), Given(b)).evaluate(None)
    if na == 0 and nb == 0:
        k.ensures("order", k.And(k.Iff(lt.value, xa < xb),
                                 k.Iff(ge.value, k.Not(xa < xb))))
    else:
        k.ensures("null", lt.value is None and ge.value is None)


class Number(object):

    """one of any number of operands"""

    def __init__(self, w, i):
        self.w = w
        self.i = i

    def evaluate(self, state):
        n = self.w.ints(self.i)
        # as all of them are
        self.w.k.requires(self.w.k.And(n >= LOW, n <= HIGH))
        return number(self.w.kind(self.i), n, self.w.floats(self.i)).v


class Numbers(object):
    def __init__(self, k, seed):
        self.k = k
        if k.native:
            r = random.Random(seed)
            n = self.n = r.choice([1, 1, 2, 2, 3, 4, 6])
            among = r.choice([[INT], [INT, FLT], [FLT], [INT, FLT],
                              [INT, FLT, NO_INT], [INT, FLT, NO_FLT],
                              [INT, NO_INT, UNKNOWN],
                              [INT, FLT, UNKNOWN, NO_FLT], [UNKNOWN, NO_INT],
                              [UNKNOWN]])
            kinds = [r.choice(among) for i in range(n)]
            ints = [r.choice([0, 1, -1, r.randint(-99, 99), HIGH, LOW,
                              r.randint(-10 ** 6, 10 ** 6)])
                    if r.random() < 0.2 else r.randint(-9, 9)
                    for i in range(n)]
            floats = [r.randint(-100, 100) / 4.0 for i in range(n)]
            self.kind, self.ints = kinds.__getitem__, ints.__getitem__
            self.floats = floats.__getitem__
        else:
            self.n = k.fresh('int', 'n')
            k.requires(self.n >= 1)
            self.kind = k.fun('kind', 1)
            self.ints = k.fun('int', 1)
            self.floats = k.fun('float', 1, 'real')
            k.requires(k.forall(0, self.n, lambda i: k.And(
                self.kind(i) >= 0, self.kind(i) <= UNKNOWN)))

    def operands(self):
        if self.k.native:
            return [Number(self, i) for i in range(self.n)]
        return self.k.many(self.n, lambda i: Number(self, i))

    def real(self, i):
        if self.k.native:
            return Fraction(self.ints(i) if self.kind(i) == INT
                            else self.floats(i))
        return self.k.ite(self.kind(i) == INT,
                          lambda: self.ints(i) * 1.0,
                          lambda: self.floats(i))

    def is_(self, i, *kinds):
        return self.k.Or(*[self.kind(i) == t for t in kinds])

    def each(self, *kinds, **kws):
        n = kws.get('n', self.n)
        return self.k.forall(0, n, lambda i: self.is_(i, *kinds))


def numeric_inv(k, L):
    w = k.get('numbers')
    b = L.breturn
    whole = w.each(INT, NO_INT, UNKNOWN, n=L._i)
    unknown = w.each(UNKNOWN, n=L._i)
    return [("unknown", k.Iff(b is None, unknown)),
            ("integer", k.Iff(b == BaseType.integer,
                              k.And(whole, k.Not(unknown)))),
            ("float", k.Iff(b == BaseType.float, k.Not(whole)))]


NUMERIC = LoopSpec('check_numerical_types', havoc={
    'breturn': Choice([None, BaseType.integer, BaseType.float])},
    inv=numeric_inv)


def total_inv(name):
    def inv(k, L):
        w = k.get('numbers')
        t = getattr(L, name)
        if isinstance(t, float):
            right = t == w.total(L._i)
        else:
            right = k.And(t == w.int_total(L._i), w.total(L._i) == t * 1.0)
        return [("nothing missing", w.each(INT, FLT, n=L._i)),
                ("so far", right),
                ("whole", k.Iff(isinstance(t, int), w.each(INT, n=L._i)))]
    return inv


def total_step(k, L):
    w = k.get('numbers')
    w.unfold(L._i)
    w.int_unfold(L._i)


def total_kind(k):
    return k.fresh('real') if k.fresh(Choice([0, 1])) else k.fresh('int')


def total_of(k, seed, op, start, combine, name):
    w = Numbers(k, seed)
    k.put('numbers', w)
    w.total, w.unfold = k.fold('total', 'real', start * 1.0,
                               lambda a, i: combine(a, w.real(i)))
    w.int_total, w.int_unfold = k.fold(
        'whole', 'int', start, lambda a, i: combine(a, w.ints(i)))
    try:
        op.Expression = w.operands()
        r = op.evaluate(None)
    except ValueError:
        k.ensures("only integers overflow", w.each(INT))
        t = w.int_total(w.n)
        k.ensures("out of range", k.Or(t < LOW, t > HIGH))
        return
    all_known = w.each(INT, FLT)
    k.ensures("float", k.Iff(r.baseType == BaseType.float, k.Not(
        w.each(INT, NO_INT, UNKNOWN))))
    k.ensures("untyped", k.Iff(r.baseType is None, w.each(UNKNOWN)))
    k.ensures("or integer", r.baseType in (None, BaseType.float,
                                           BaseType.integer))
    k.ensures("null", k.Iff(r.value is None, k.Not(all_known)))
    if r.value is None:
        return
    if r.baseType == BaseType.integer:
        k.ensures(name, r.value == w.int_total(w.n))
    else:
        if k.native:
            k.ensures(name, math.isclose(r.value, w.total(w.n),
                                         rel_tol=1e-12, abs_tol=1e-9))
        else:
            k.ensures(name, r.value == w.total(w.n))


CARD = same(None)[:1]


@proof('sum', seed=SEED, _splits=12, _loops=CARD + [NUMERIC, LoopSpec(
    'evaluate', havoc={'sum': total_kind}, inv=total_inv('sum'),
    step=total_step)])
def sums(k, seed):
    total_of(k, seed, Sum(), 0, lambda a, b: a + b, "sum")


@proof('product', seed=SEED, _splits=12, _loops=CARD + [NUMERIC, LoopSpec(
    'evaluate', havoc={'product': total_kind}, inv=total_inv('product'),
    step=total_step)])
def products(k, seed):
    total_of(k, seed, Product(), 1, lambda a, b: a * b, "product")


class Equal(expressions.Equal):
    def __init__(self, a, b, mode, tolerance, lower, upper):
        self.Expression = [a, b]
        self.toleranceMode = mode
        self.tolerance = tolerance
        self.includeLowerBound, self.includeUpperBound = lower, upper

    def float_or_template_ref(self, state, value):
        return value


MODE = Choice([expressions.ToleranceMode.exact,
               expressions.ToleranceMode.absolute,
               expressions.ToleranceMode.relative])


@proof('equal', ka=KIND, a=I32, xa=Real(), kb=KIND, b=I32, xb=Real(),
       mode=MODE, t0=Real([0.0, 0.5, 50.0]), t1=Real([0.0, 0.25]),
       n=Int(1, 2), lower=Choice([True, False]), upper=Choice([True, False]))
def equal(k, ka, a, xa, kb, b, xb, mode, t0, t1, n, lower, upper):
    r = Equal(number(ka, a, xa), number(kb, b, xb), mode, [t0, t1][:n],
              lower, upper).evaluate(None)
    k.ensures("type", r.baseType == BaseType.boolean)
    if not (given(ka) and given(kb)):
        k.ensures("null", r.value is None)
        return
    if n == 1:
        t1 = t0
    p, q = as_number(k, ka, a, xa), as_number(k, kb, b, xb)
    t0, t1 = exact(k, t0), exact(k, t1)
    if mode == expressions.ToleranceMode.exact:
        k.ensures("the same number", k.Iff(r.value, p == q))
        return
    if mode == expressions.ToleranceMode.absolute:
        lo, hi = p - t0, p + t1
    else:
        lo, hi = p * (1 - t0 / 100), p * (1 + t1 / 100)
    if k.native and mode == expressions.ToleranceMode.relative and (
            abs(q - lo) <= abs(p) * 1e-12 or abs(q - hi) <= abs(p) * 1e-12):
        # the limits themselves are rounded
        return
    k.ensures("within the limits", k.Iff(r.value, k.And(
        (q >= lo) if lower else (q > lo),
        (q <= hi) if upper else (q < hi))))


@bounded('power', 'sampled operands',
         _samples=4000, ka=KIND, a=Int(-40, 40), xa=Gen(
    lambda r: r.choice([0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 1e200, 1e-200, -8.0,
                        r.uniform(-50, 50)])), kb=KIND, b=Int(-400, 400),
    xb=Gen(lambda r: r.choice([0.0, 0.5, -0.5, 1.0, 2.0, 1e3, -1e3, 1 / 3.0,
                               r.uniform(-9, 9)])))
def power(k, ka, a, xa, kb, b, xb):
    r = Power(number(ka, a, xa), number(kb, b, xb)).evaluate(None)
    k.ensures("type", r.baseType == BaseType.float)
    if not (given(ka) and given(kb)):
        k.ensures("null", r.value is None)
        return
    p, q = float(a if ka == INT else xa), float(b if kb == INT else xb)
    try:
        want = p ** q
        if isinstance(want, complex) or math.isinf(want):
            want = None
    except (OverflowError, ZeroDivisionError):
        want = None
    k.ensures("power", r.value == want, r.value, want)


@bounded('division out of range', 'sampled extreme floats',
         _samples=2000, a=Gen(
    lambda r: r.choice([1e308, -1e308, 1e-308, 1.0, 0.0, -3.5]), [1e308]),
    b=Gen(lambda r: r.choice([1e308, 1e-308, 0.5, 0.0, -1e-10]), [1e-308]))
def division_range(k, a, b):
    r = Divide(Given(FloatValue(a)), Given(FloatValue(b))).evaluate(None)
    want = None if b == 0 or math.isinf(a / b) else a / b
    k.ensures("quotient or null", r.value == want, r.value, want)


# any one of these against what the operator takes

OPERANDS = [
    ('boolean', lambda: BooleanValue(True)),
    ('boolean', lambda: BooleanValue(False)),
    ('boolean', lambda: BooleanValue()),
    ('integer', lambda: IntegerValue(3)),
    ('integer', lambda: IntegerValue()),
    ('float', lambda: FloatValue(1.5)),
    ('float', lambda: FloatValue()),
    ('string', lambda: StringValue('a')),
    ('string', lambda: StringValue()),
    ('duration', lambda: DurationValue(1.5)),
    ('identifier', lambda: IdentifierValue('a')),
    ('wild', lambda: SingleValue()),
    ('wild', lambda: Value()),
]


def containers():
    for name, t, v in (('boolean', BaseType.boolean, True),
                       ('integer', BaseType.integer, 2),
                       ('float', BaseType.float, 0.5)):
        for cls in (OrderedContainer, MultipleContainer):
            c = cls(t)
            c.set_value([v])
            yield c
            yield cls(t)
    r = RecordContainer()
    r['a'] = IntegerValue(1)
    yield r


@bounded('types', 'sampled operands of every type',
         _samples=6000,
         op=Choice(list(range(15))), a=Int(0, len(OPERANDS) + 12),
         b=Int(0, len(OPERANDS) + 12), n=Int(1, 3))
def types(k, op, a, b, n):
    other = list(containers())

    def operand(i):
        if i < len(OPERANDS):
            return OPERANDS[i][0], OPERANDS[i][1]()
        return 'container', other[i - len(OPERANDS)]
    (ta, va), (tb, vb) = operand(a), operand(b)
    numeric, logic = ('integer', 'float', 'wild'), ('boolean', 'wild')
    whole, exact_ = ('integer', 'wild'), ('float', 'wild')
    cls, takes, least, most = [
        (And, logic, 1, 9), (Or, logic, 1, 9), (Not, logic, 1, 1),
        (Sum, numeric, 1, 9), (Product, numeric, 1, 9),
        (Subtract, numeric, 2, 2), (Divide, numeric, 2, 2),
        (Power, numeric, 2, 2), (IntegerDivide, whole, 2, 2),
        (IntegerModulus, whole, 2, 2), (Truncate, exact_, 1, 1),
        (Round, exact_, 1, 1), (IntegerToFloat, whole, 1, 1),
        (LT, numeric, 2, 2), (GTE, numeric, 2, 2)][op]
    if most == 1:
        n = 1
    ts, vs = [ta, tb, ta][:n], [va, vb, va][:n]
    try:
        r = cls(*[Given(v) for v in vs]).evaluate(None)
    except core.ProcessingError:
        k.ensures("wrong operands", not all(t in takes for t in ts) or
                  n < least or n > most)
        return
    k.ensures("right operands", all(t in takes for t in ts) and
              least <= n <= most, ts, cls.__name__)
    k.ensures("single", r.cardinality() in (None, Cardinality.single))
    if cls not in (And, Or):
        k.ensures("null if any is", (r.value is None) == any(
            v.value is None for v in vs), r.value)


# -- containers -------------------------------------------------------------------

def base_value(r, t):
    if t == BaseType.integer:
        return r.randint(0, 3)
    elif t == BaseType.float:
        return r.randint(0, 3) / 2.0
    elif t == BaseType.boolean:
        return r.random() < 0.5
    elif t == BaseType.point:
        return (r.randint(0, 1), r.randint(0, 1))
    return r.choice(['a', 'b', 'c', 'd'])


TYPES = [BaseType.integer, BaseType.float, BaseType.boolean,
         BaseType.identifier, BaseType.string, BaseType.point]


class Values(object):

    """containers and single values of one type"""

    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.type = r.choice(TYPES)

    def list(self):
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        return [base_value(self.r, self.type) for i in range(n)]

    def container(self, cls, values):
        c = cls(self.type)
        c.set_value(values)
        return c

    def single(self, v):
        return SingleValue.new_value(self.type, v)


def contents(v):
    """as a list, sorted unless the order counts"""
    if v.value is None:
        return []
    if v.cardinality() == Cardinality.ordered:
        return list(v.value)
    return sorted(x for x, n in v.value.items() for i in range(n))


@bounded('containers', 'up to four operands of up to five values',
         _samples=3000, seed=SEED)
def made_of(k, seed):
    w = Values(seed)
    for cls, op in ((OrderedContainer, Ordered), (MultipleContainer,
                                                  Multiple)):
        want, parts = [], []
        for i in range(w.r.randrange(5)):
            x = w.r.random()
            if x < 0.4:
                v = w.single(base_value(w.r, w.type))
                want.append(v.value)
            elif x < 0.8:
                vs = w.list()
                v = w.container(cls, [None] + vs)
                want.extend(vs)
            elif x < 0.9:
                v = w.single(None)
            else:
                v = w.r.choice([Value(), SingleValue()])
            parts.append(v)
        r = op(*[Given(v) for v in parts]).evaluate(None)
        c = r.cardinality()
        k.ensures("cardinality", c == cls(w.type).cardinality())
        if cls is MultipleContainer:
            want.sort()
        k.ensures("values", contents(r) == want, contents(r), want)
        k.ensures("empty is null", (r.value is None) == (not want))
        k.ensures("read back", list(r.get_values()) == want)
        n = ContainerSize(Given(r)).evaluate(None)
        k.ensures("size", n.value == len(want), n.value)
        null = IsNull(Given(r)).evaluate(None)
        k.ensures("is null", null.value is (not want))
        copy = Value.copy_value(r)
        k.ensures("copied", contents(copy) == want and
                  copy.baseType == r.baseType and copy.cardinality() == c,
                  contents(copy), want)
        if want:
            other = list(want)
            w.r.shuffle(other)
            if w.r.random() < 0.5 and len(other) > 1:
                other[0] = other[-1]
            two = w.container(cls, other)
            m = Match(Given(r), Given(two)).evaluate(None)
            k.ensures("match", m.value is (contents(two) == want), m.value)
        one = base_value(w.r, w.type)
        m = Member(Given(w.single(one)), Given(r)).evaluate(None)
        if not want:
            k.ensures("member of null", m.value is None)
        else:
            k.ensures("member", m.value is (one in want), m.value)
        d = Delete(Given(w.single(one)), Given(r)).evaluate(None)
        if want:
            left = [x for x in want if x != one]
            k.ensures("deleted", contents(d) == left, contents(d), left)
        k.ensures("operand unchanged", contents(r) == want)


@bounded('index', 'up to five values',
         _samples=2000, seed=SEED, n=Int(-1, 7))
def index(k, seed, n):
    w = Values(seed)
    values = w.list()
    op = Index(Given(w.container(OrderedContainer, values)))
    op.n = n
    try:
        r = op.evaluate(None)
    except core.ProcessingError:
        k.ensures("counted from one", n < 1 and len(values) > 0)
        return
    k.ensures("type", r.baseType == w.type)
    if values and n >= 1 and n <= len(values):
        k.ensures("item", r.value == values[n - 1])
    else:
        k.ensures("null", r.value is None)


# -- mappings -----------------------------------------------------------------------

class Mapping(variables.Mapping):
    def __init__(self, entries, default, lower, upper):
        self.map = dict(entries)
        self.defaultValue = default
        self.lowerBound, self.upperBound = lower, upper


KEY = Int(0, 9)
LIMIT = Choice([0, 1])


def mapped_to(k, v, k1, x1, k2, x2, default):
    return k.ite(v == k1, lambda: x1, lambda: k.ite(
        v == k2, lambda: x2, lambda: default))


def limited(k, t, has_low, low, has_high, high):
    if has_low and has_high:
        return k.ite(t < low, lambda: low, lambda: k.ite(
            t > high, lambda: high, lambda: t))
    elif has_low:
        return k.ite(t < low, lambda: low, lambda: t)
    elif has_high:
        return k.ite(t > high, lambda: high, lambda: t)
    return t


@proof('mapping', n=Int(0, 3), single=LIMIT, v1=KEY, v2=KEY, v3=KEY, k1=KEY,
       x1=Real(), k2=KEY, x2=Real(), default=Real(), has_low=LIMIT,
       low=Real(), has_high=LIMIT, high=Real(), _splits=10,
       _bounded='at most three values, and two entries')
def mapping(k, n, single, v1, v2, v3, k1, x1, k2, x2, default, has_low, low,
            has_high, high):
    k.requires(k1 != k2)
    if has_low and has_high:
        k.requires(low <= high)
    m = Mapping([(k1, x1), (k2, x2)], default, low if has_low else None,
                high if has_high else None)
    values = [v1, v2, v3][:n]
    if single:
        k.requires(n <= 1)
        v = IntegerValue(*values)
    else:
        v = OrderedContainer(BaseType.integer)
        v.set_value(values)
    r = m.map_value(v)
    k.ensures("type", r.baseType == BaseType.float)
    if n == 0:
        k.ensures("nothing", r.value == 0.0)
        return
    total = mapped_to(k, v1, k1, x1, k2, x2, default)
    # each value counts once
    if n > 1:
        total = total + k.ite(
            v2 == v1, lambda: 0.0,
            lambda: mapped_to(k, v2, k1, x1, k2, x2, default))
    if n > 2:
        total = total + k.ite(
            k.Or(v3 == v1, v3 == v2), lambda: 0.0,
            lambda: mapped_to(k, v3, k1, x1, k2, x2, default))
    k.ensures("sum within the bounds", r.value == limited(
        k, total, has_low, low, has_high, high), r.value)


class Entry(object):
    def __init__(self, **kws):
        self.__dict__.update(kws)


@bounded('mappings', 'up to three entries and five values',
         _samples=3000, seed=SEED)
def mappings(k, seed):
    w = Values(seed)
    r = w.r
    d = variables.ResponseDeclaration(None)
    d.baseType = w.type
    m = variables.Mapping(d)
    table = {}
    for i in range(r.randrange(4)):
        v = w.single(base_value(r, w.type))
        if v.value in table:
            continue
        table[v.value] = r.randint(-8, 8) / 4.0
        m.MapEntry.append(Entry(mapKey=str(v), mappedValue=table[v.value]))
    m.content_changed()
    m.defaultValue = r.choice([0.0, 0.25, -1.0])
    m.lowerBound = r.choice([None, None, 0.0, -1.0])
    m.upperBound = r.choice([None, None, 0.0, 1.5])
    values = w.list()
    if r.random() < 0.3:
        values = values[:1]
        v = w.single(values[0] if values else None)
    else:
        v = w.container(r.choice([OrderedContainer, MultipleContainer]),
                        values)
    got = m.map_value(v)
    want = sum(table.get(x, m.defaultValue) for x in set(values))
    if values:
        if m.lowerBound is not None and want < m.lowerBound:
            want = m.lowerBound
        elif m.upperBound is not None and want > m.upperBound:
            want = m.upperBound
    k.ensures("type", got.baseType == BaseType.float)
    k.ensures("mapped", got.value == want, got.value, want)


@bounded('area mapping', 'up to three areas and five points',
         _samples=2000, seed=SEED)
def areas(k, seed):
    r = random.Random(seed)
    m = variables.AreaMapping(None)
    boxes = []
    for i in range(r.randrange(4)):
        x, y = r.randint(0, 3), r.randint(0, 3)
        e = m.add_child(variables.AreaMapEntry)
        e.shape = core.Shape.rect
        e.coords = variables.html.Coords([x, y, x + 3, y + 3])
        e.mappedValue = r.randint(-8, 8) / 4.0
        boxes.append((x, y, e.mappedValue))
    m.defaultValue = r.choice([0.0, 0.25, -1.0])
    m.lowerBound = r.choice([None, None, 0.0, -1.0])
    m.upperBound = r.choice([None, None, 0.0, 1.5])
    points = [(r.randint(0, 6), r.randint(0, 6))
              for i in range(r.randrange(6))]
    v = OrderedContainer(BaseType.point)
    v.set_value(points)
    got = m.map_value(v, 10, 10).value
    want, used = 0.0, set()
    for p in points:
        for i, (x, y, value) in enumerate(boxes):
            if x <= p[0] < x + 3 and y <= p[1] < y + 3:
                if i not in used:
                    used.add(i)
                    want += value
                break
        else:
            want += m.defaultValue
    if points:
        if m.lowerBound is not None and want < m.lowerBound:
            want = m.lowerBound
        elif m.upperBound is not None and want > m.upperBound:
            want = m.upperBound
    k.ensures("mapped", got == want, got, want)


@bounded('lookup tables', 'up to four entries',
         _samples=3000, seed=SEED)
def tables(k, seed):
    w = Values(seed)
    r = w.r
    w.type = r.choice(TYPES[:2] + TYPES[3:5])
    d = variables.OutcomeDeclaration(None)
    d.baseType = w.type
    exactly = r.random() < 0.5
    t = (variables.MatchTable if exactly else
         variables.InterpolationTable)(d)
    entries = []
    for i in range(r.randrange(5)):
        v = w.single(base_value(r, w.type))
        source = r.randint(-2, 3)
        boundary = r.random() < 0.5
        entries.append((source, boundary, v.value))
        if exactly:
            t.MatchTableEntry.append(Entry(sourceValue=source,
                                           targetValue=str(v)))
        else:
            t.InterpolationTableEntry.append(Entry(
                sourceValue=float(source), targetValue=str(v),
                includeBoundary=boundary))
    default = None
    if r.random() < 0.7:
        v = w.single(base_value(r, w.type))
        t.defaultValue, default = str(v), v.value
    t.content_changed()
    x = r.randint(-3, 4)
    got = t.lookup(IntegerValue(x))
    want = default
    for source, boundary, value in entries:
        if x == source and (exactly or boundary) or \
                not exactly and x > source:
            want = value
            break
    k.ensures("type", got.baseType == w.type)
    k.ensures("first that matches", got.value == want, got.value, want)
    if not exactly:
        got = t.lookup(FloatValue(x + 0.5))
        want = default
        for source, boundary, value in entries:
            if x >= source:
                want = value
                break
        k.ensures("between", got.value == want, got.value, want)
    k.ensures("null", t.lookup(IntegerValue()).value is None)


def some_float(rng):
    if rng.random() < 0.5:
        return rng.choice([0.0, 0.5, -1.25, 100.0, 1e300, 1e-300, 0.1])
    return float('%.*e' % (rng.randrange(14), rng.uniform(-10, 10) *
                           10.0 ** rng.randint(-30, 30)))


def sampled_value(seed):
    r = random.Random(seed)
    name = r.choice(['a', 'b1', '_x', 'E-mail', 'abc.d'])
    return r.choice([
        lambda: BooleanValue(r.random() < 0.5),
        lambda: IntegerValue(r.choice([LOW, HIGH, 0, r.randint(-99, 99)])),
        lambda: FloatValue(some_float(r)),
        lambda: DurationValue(abs(some_float(r))),
        lambda: IdentifierValue(name),
        lambda: StringValue(r.choice([' a b ', 'x', u'\u20ac', 'a\nb'])),
        lambda: variables.PairValue((name, r.choice(['a', 'Z']))),
        lambda: variables.DirectedPairValue((name, r.choice(['a', 'Z']))),
        lambda: PointValue((r.randint(-9, 9), r.choice([LOW, HIGH, 0]))),
        lambda: variables.URIValue('http://www.example.com/' + name),
        lambda: BooleanValue(), lambda: StringValue()])()


@bounded('text of a value', 'sampled values', _samples=3000, seed=SEED)
def text_of_value(k, seed):
    v = sampled_value(seed)
    again = type(v)()
    if not v:
        k.ensures("null is empty", str(v) == '')
        return
    again.set_value(str(v))
    k.ensures("set from its own text", again.value == v.value, str(v))
    c = Value.copy_value(v)
    k.ensures("copied", c.value == v.value and c.baseType == v.baseType)


class EqualRounded(expressions.EqualRounded):
    def __init__(self, a, b, mode, figures):
        self.Expression = [a, b]
        self.roundingMode = mode
        self.figures = figures

    def integer_or_template_ref(self, state, value):
        return value


def half_up(x, figures, significant):
    """x to this many figures, exactly"""
    if x < 0:
        return -half_up(-x, figures, significant)
    if significant:
        if x == 0:
            return x
        places, unit = figures, Fraction(x)
        while unit >= 1:
            places, unit = places - 1, unit / 10
        while unit * 10 < 1:
            places, unit = places + 1, unit * 10
    else:
        places = figures
    scale = Fraction(10) ** places
    return (2 * x * scale + 1) // 2 / scale


@bounded('equal rounded', 'sampled pairs of numbers that are close',
         _samples=4000, seed=SEED)
def equal_rounded(k, seed):
    r = random.Random(seed)
    mode = r.choice([expressions.RoundingMode.decimalPlaces,
                     expressions.RoundingMode.significantFigures])
    significant = mode == expressions.RoundingMode.significantFigures
    figures = r.randint(1 if significant else 0, 5)
    a = r.choice([r.randint(-4000, 4000) / 8.0, r.randint(-99, 99) / 1000.0,
                  r.uniform(-1, 1) * 10 ** r.randint(-3, 4), 0.0])
    b = a + r.choice([0.0, 0.125, -0.125, 0.5, 1e-3, -1e-4, 0.0625])
    kinds = [r.choice([FLT, FLT, FLT, FLT, NO_FLT, UNKNOWN])
             for i in range(2)]
    got = EqualRounded(number(kinds[0], 0, a), number(kinds[1], 0, b), mode,
                       figures).evaluate(None)
    k.ensures("type", got.baseType == BaseType.boolean)
    if not (given(kinds[0]) and given(kinds[1])):
        k.ensures("null", got.value is None)
        return
    x = half_up(Fraction(a), figures, significant)
    y = half_up(Fraction(b), figures, significant)
    k.ensures("equal once rounded", got.value is (x == y), a, b, figures,
              significant)


Contains = operator(expressions.Contains)
Random_ = unary(expressions.Random)
FieldValue = unary(expressions.FieldValue)
Inside = unary(expressions.Inside)
PatternMatch = unary(expressions.PatternMatch)


def occurs(few, many):
    return any(list(many[i:i + len(few)]) == list(few)
               for i in range(len(many) - len(few) + 1))


@bounded('contains', 'two containers of up to five values',
         _samples=4000, seed=SEED)
def contains(k, seed):
    w = Values(seed)
    ordered = w.r.random() < 0.5
    cls = OrderedContainer if ordered else MultipleContainer
    big, small = w.list(), w.list()
    if big and w.r.random() < 0.6:
        i = w.r.randrange(len(big))
        small = big[i:w.r.randint(i + 1, len(big))]
        if not ordered:
            w.r.shuffle(big)
        if w.r.random() < 0.2:
            small = small + [small[0]]
    a, b = w.container(cls, small), w.container(cls, big)
    # the one given first is looked for in the other (as the tests have it)
    r = Contains(Given(a), Given(b)).evaluate(None)
    k.ensures("a boolean", r.baseType == BaseType.boolean)
    if not (small and big):
        k.ensures("null", r.value is None, r.value)
        return
    if ordered:
        want = occurs(small, big)
    else:
        want = all(small.count(x) <= big.count(x) for x in small)
    k.ensures("contained", r.value is want, small, big, r.value)
    k.ensures("operands unchanged", contents(a) == (
        small if ordered else sorted(small)) and contents(b) == (
            big if ordered else sorted(big)))


@bounded('chosen at random', 'up to five values', _samples=2000, seed=SEED)
def chosen(k, seed):
    w = Values(seed)
    values = w.list()
    cls = w.r.choice([OrderedContainer, MultipleContainer])
    c = w.container(cls, values)
    r = Random_(Given(c)).evaluate(None)
    k.ensures("type", r.baseType == w.type and
              r.cardinality() == Cardinality.single)
    if values:
        k.ensures("one of them", r.value in values, r.value)
        k.ensures("no change", contents(c) == (
            values if cls is OrderedContainer else sorted(values)))
        if len(set(values)) > 1:
            got = set(Random_(Given(c)).evaluate(None).value
                      for i in range(200))
            k.ensures("each can be", got == set(values), got)
    else:
        k.ensures("null", r.value is None)


class RandomInteger(expressions.RandomInteger):
    def __init__(self, lo, hi, step):
        self.min, self.max, self.step = lo, hi, step


class RandomFloat(expressions.RandomFloat):
    def __init__(self, lo, hi):
        self.min, self.max = lo, hi


@bounded('random numbers', 'sampled ranges', _samples=500,
         lo=Int(-50, 50), n=Int(0, 20), step=Int(1, 4), extra=Int(0, 3))
def random_numbers(k, lo, n, step, extra):
    hi = lo + n * step + extra % step
    op = RandomInteger(str(lo), str(hi), str(step))
    got = set()
    for i in range(40 * (n + 1)):
        r = op.evaluate(None)
        got.add(r.value)
    k.ensures("integer", r.baseType == BaseType.integer)
    k.ensures("in range", all(lo <= x <= hi and (x - lo) % step == 0
                              for x in got), got, lo, hi, step)
    k.ensures("first and last", n > 4 or got == set(
        range(lo, hi + 1, step)), got)
    op = RandomFloat(str(float(lo)), str(float(hi)))
    r = op.evaluate(None)
    k.ensures("float", r.baseType == BaseType.float and lo <= r.value <= hi)


WORDS = [u'', u'a', u'A', u'ab', u'aB', u'b', u'abab', u'\xe9', u'\xc9', u'ba']


class Text(object):
    """a string operator, case sensitive or not"""

    @staticmethod
    def sub(a, b, case):
        class Op(expressions.SubString):
            def __init__(self):
                self.caseSensitive = case
                self.Expression = [Given(a), Given(b)]
        return Op()

    @staticmethod
    def match(a, b, case, part):
        class Op(expressions.StringMatch):
            def __init__(self):
                self.caseSensitive, self.substring = case, part
                self.Expression = [Given(a), Given(b)]
        return Op()


@bounded('strings', 'sampled short strings', _samples=2000,
         a=Choice(WORDS + [None]), b=Choice(WORDS + [None]),
         case=Choice([True, False]), part=Choice([True, False, None]))
def strings(k, a, b, case, part):
    # the empty string and null are the same
    va, vb = StringValue(a), StringValue(b)
    s = Text.sub(va, vb, case).evaluate(None)
    m = Text.match(va, vb, case, part).evaluate(None)
    k.ensures("booleans", s.baseType == m.baseType == BaseType.boolean)
    if va.value is None or vb.value is None:
        k.ensures("null", s.value is None and m.value is None and
                  not (a and b))
        return
    x, y = (a, b) if case else (a.lower(), b.lower())
    k.ensures("substring", s.value is (x in y), a, b)
    k.ensures("match", m.value is ((x in y) if part else (x == y)), a, b)


@bounded('pattern', 'sampled short strings', _samples=1000,
         a=Choice(WORDS + [None]), p=Choice(
             [(u'a|ab', [u'a', u'ab']), (u'(ab)+', [u'ab', u'abab']),
              (u'.', [u'a', u'A', u'b', u'\xe9', u'\xc9']), (u'a*b?', [
                  u'a', u'ab', u'b']), (u'[^a]+', [
                      u'A', u'b', u'\xe9', u'\xc9']), (u'(', None)]))
def pattern(k, a, p):
    text, words = p
    v = StringValue(a)
    op = PatternMatch(Given(v))
    op.pattern = text
    r = op.evaluate(None)
    k.ensures("a boolean", r.baseType == BaseType.boolean)
    if v.value is None or words is None:
        k.ensures("null", r.value is None)
    elif a:
        k.ensures("the whole string", r.value is (a in words), a, text)


@bounded('fields', 'records of up to three fields', _samples=1000,
         seed=SEED)
def fields(k, seed):
    w = Values(seed)
    r, have = RecordContainer(), {}
    for name in ('a', 'b', 'c'):
        if w.r.random() < 0.6:
            have[name] = base_value(w.r, w.type)
            r[name] = w.single(have[name])
    for name in ('a', 'b', 'c', 'd'):
        op = FieldValue(Given(r))
        op.fieldIdentifier = name
        v = op.evaluate(None)
        k.ensures("value of the field", v.value == have.get(name))
        if name in have:
            k.ensures("type", v.baseType == w.type)
    k.ensures("fields", set(f for f in have) ==
              set(f for f in 'abcd' if r.value and f in r.value))


@bounded('inside', 'up to three points', _samples=2000, seed=SEED)
def inside(k, seed):
    r = random.Random(seed)
    shape = r.choice(['rect', 'circle', 'ellipse', 'default'])
    c = [r.randint(0, 9) for i in range(3 if shape == 'circle' else 4)]
    coords = html.Coords.from_str(','.join(str(x) for x in c))

    def within(p):
        x, y = p
        if shape == 'default':
            return x >= 0 and y >= 0
        elif shape == 'circle':
            return (x - c[0]) ** 2 + (y - c[1]) ** 2 <= c[2] ** 2
        elif shape == 'ellipse':
            return ((x - c[0]) * c[3]) ** 2 + ((y - c[1]) * c[2]) ** 2 <= (
                c[2] * c[3]) ** 2
        return min(c[0], c[2]) <= x < max(c[0], c[2]) and \
            min(c[1], c[3]) <= y < max(c[1], c[3])
    points = [(r.randint(0, 9), r.randint(0, 9))
              for i in range(r.choice([0, 1, 1, 2, 3]))]
    kind = r.choice([OrderedContainer, MultipleContainer, None])
    if kind is None:
        points = points[:1]
        v = PointValue(points[0] if points else None)
    else:
        v = kind(BaseType.point)
        v.set_value(points)
    op = Inside(Given(v))
    op.shape = getattr(core.Shape, shape)
    op.coords = coords
    got = op.evaluate(None)
    k.ensures("a boolean", got.baseType == BaseType.boolean)
    if not points:
        k.ensures("null", got.value is None)
    else:
        k.ensures("any of them inside", got.value is any(
            within(p) for p in points), points, shape, c)
