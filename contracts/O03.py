"""O03: OData expressions: promotion, exact integer arithmetic, nulls."""
import datetime
import decimal
import math
import uuid
from pyvc.kit import proof, bounded, Int, Bool, Choice, Gen, Opt, has
from pyslet import iso8601 as iso
from pyslet.odata2 import core
from pyslet.odata2.core import BinaryExpression, EvaluationError, Operator, \
    UnaryExpression, promote_types
from pyslet.odata2.csdl import EDMValue, SimpleType

RANGES = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767),
          'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}
#: widest first: the order in which the specification tries the types
ORDER = ['Double', 'Single', 'Decimal', 'Int64', 'Int32', 'Int16', 'Byte']
#: the types that arithmetic and relations are defined for
NUMERIC = ['Double', 'Single', 'Decimal', 'Int64', 'Int32']
ORDERED = ['String', 'DateTime', 'DateTimeOffset', 'Guid']
TYPES = ORDER + ['SByte', 'String', 'DateTime', 'DateTimeOffset', 'Guid',
                 'Boolean', 'Binary', 'Time']
ARITHMETIC = ['mul', 'div', 'mod', 'add', 'sub']
RELATIONS = ['lt', 'gt', 'le', 'ge']
EDGES = sorted(set(b + d for t in ('Int32', 'Int64') for b in RANGES[t]
                   for d in (0, 1, -1)) | set(
    [0, 1, -1, 2, -2, 3, 7, 10 ** 9, 2 ** 53, 2 ** 53 + 1, 3 * 2 ** 60 + 1,
     46341, 3037000500, -3037000500]))


def promoted(a, b):
    """the common type, False when there is none (None: untyped null)"""
    if a == b or b is None:
        return a
    if a is None:
        return b
    if a in ORDER and b in ORDER:
        return ORDER[min(ORDER.index(a), ORDER.index(b))]
    return False


def code(t):
    return None if t is None else getattr(SimpleType, t)


def value(t, v):
    if t is None:
        return EDMValue.from_property(None)
    result = EDMValue.from_type(getattr(SimpleType, t))
    result.set_from_value(v)
    return result


def evaluate(op, a, b):
    e = BinaryExpression(getattr(Operator, op))
    return BinaryExpression.EvalMethod[e.operator](e, a, b)


@proof('common type', a=Choice(TYPES + [None]), b=Choice(TYPES + [None]))
def common(k, a, b):
    try:
        t = promote_types(code(a), code(b))
        k.ensures("the common type", t == code(promoted(a, b))
                  if promoted(a, b) is not False else False, t)
    except EvaluationError:
        k.ensures("there is none", promoted(a, b) is False)
    try:
        u = promote_types(code(b), code(a))
        k.ensures("independent of the order", u == t)
    except EvaluationError:
        k.ensures("none in either order", promoted(a, b) is False)


def tdiv(k, a, b):
    """division truncating towards zero"""
    q = k.ite(a < 0, lambda: -a, lambda: a) // k.ite(
        b < 0, lambda: -b, lambda: b)
    return k.ite(k.Iff(a < 0, b < 0), lambda: q, lambda: -q)


def tmod(k, a, b):
    r = k.ite(a < 0, lambda: -a, lambda: a) % k.ite(
        b < 0, lambda: -b, lambda: b)
    return k.ite(a < 0, lambda: -r, lambda: r)


WHOLE = Opt(Int(-2 ** 63, 2 ** 63 - 1, corners=EDGES))
INT_TYPE = Choice(['Int32', 'Int64'])


def operands(k, s, t, a, b):
    for u, v in ((s, a), (t, b)):
        if v is not None:
            k.requires(k.And(v >= RANGES[u][0], v <= RANGES[u][1]))
    return value(s, a), value(t, b)


def exact(k, op, s, t, a, b):
    left, right = operands(k, s, t, a, b)
    common = promoted(s, t)
    lo, hi = RANGES[common]
    null = a is None or b is None
    if not null:
        if op in ('div', 'mod') and b == 0:
            want = None
            fails = True
        else:
            want = {'mul': lambda: a * b, 'add': lambda: a + b,
                    'sub': lambda: a - b, 'div': lambda: tdiv(k, a, b),
                    'mod': lambda: tmod(k, a, b)}[op]()
            fails = k.Or(want < lo, want > hi)
    else:
        want = None
        fails = False
    try:
        r = evaluate(op, left, right)
        k.ensures("only where there is a result", k.Not(fails))
        k.ensures("the common type", r.type_code == code(common))
        if null:
            k.ensures("null", r.is_null())
        else:
            k.ensures("exactly", k.And(r.value is not None,
                                       lambda: r.value == want), r.value)
    except (EvaluationError, ValueError):
        k.ensures("fails only without a result", fails)
    k.ensures("the operands are unchanged", k.And(
        left.value == a, right.value == b))


for _op in ARITHMETIC:
    proof('integers ' + _op, s=INT_TYPE, t=INT_TYPE, a=WHOLE, b=WHOLE)(
        (lambda op: lambda k, s, t, a, b: exact(k, op, s, t, a, b))(_op))


@proof('untyped null', op=Choice(ARITHMETIC), t=Choice(
    ['Int32', 'Int64', None]), a=WHOLE, swap=Bool())
def untyped(k, op, t, a, swap):
    if a is not None and t is not None:
        k.requires(k.And(a >= RANGES[t][0], a <= RANGES[t][1]))
    x, y = value(t, a), value(None, None)
    if swap:
        x, y = y, x
    r = evaluate(op, x, y)
    k.ensures("null", r.is_null())
    k.ensures("type", r.type_code == code(t if t is not None else 'Int32'))


def relation(k, op, a, b):
    return {'lt': lambda: a < b, 'gt': lambda: a > b, 'le': lambda: a <= b,
            'ge': lambda: a >= b}[op]()


@proof('integer relations', op=Choice(RELATIONS), s=INT_TYPE, t=INT_TYPE,
       a=WHOLE, b=WHOLE)
def relations(k, op, s, t, a, b):
    left, right = operands(k, s, t, a, b)
    r = evaluate(op, left, right)
    k.ensures("Boolean", r.type_code == SimpleType.Boolean)
    if a is None or b is None:
        k.ensures("null compares false", r.value == False, r.value)
    else:
        k.ensures("order", k.Iff(r.value, relation(k, op, a, b)), r.value)


@proof('integer equality', op=Choice(['eq', 'ne']), s=INT_TYPE, t=INT_TYPE,
       a=WHOLE, b=WHOLE)
def equality(k, op, s, t, a, b):
    left, right = operands(k, s, t, a, b)
    r = evaluate(op, left, right)
    k.ensures("Boolean", r.type_code == SimpleType.Boolean)
    if a is None or b is None:
        same = a is None and b is None
    else:
        same = a == b
    k.ensures("equality", k.Iff(r.value, same if op == 'eq'
                                else k.Not(same)), r.value)


@proof('null relations', op=Choice(RELATIONS + ['eq', 'ne']), t=Choice(
    NUMERIC + ORDERED + [None]), swap=Bool())
def null_relations(k, op, t, swap):
    x = value(t, SAMPLE.get(t))
    y = value(None, None)
    if swap:
        x, y = y, x
    r = evaluate(op, x, y)
    same = t is None
    k.ensures("a null is equal to a null only", r.value == (
        same if op == 'eq' else not same if op == 'ne' else False), r.value)


SAMPLE = {'Double': 0.0, 'Single': 0.0, 'Decimal': decimal.Decimal(0),
          'Int64': 0, 'Int32': 0, 'String': '', 'Guid': uuid.UUID(int=0),
          'DateTime': iso.TimePoint.from_str('2020-01-01T00:00:00'),
          'DateTimeOffset': iso.TimePoint.from_str('2020-01-01T00:00:00Z')}




THREE = Choice([True, False, None, 'null'])


@proof('logic', op=Choice(['and', 'or']), a=THREE, b=THREE)
def logic(k, op, a, b):
    left = value(None, None) if a == 'null' else value('Boolean', a)
    right = value(None, None) if b == 'null' else value('Boolean', b)
    r = BinaryExpression.EvalMethod[Operator.from_str(op)](
        BinaryExpression(Operator.from_str(op)), left, right)
    k.ensures("Boolean", r.type_code == SimpleType.Boolean)
    if a in (None, 'null') or b in (None, 'null'):
        want = False
    elif op == 'and':
        want = a and b
    else:
        want = a or b
    k.ensures("truth table", r.value == want, r.value)
    r = UnaryExpression(Operator.boolNot).evaluate_not(left)
    k.ensures("not", r.type_code == SimpleType.Boolean and (
        r.is_null() if a in (None, 'null') else r.value == (not a)), r.value)


@proof('negate', t=INT_TYPE, a=WHOLE)
def negate(k, t, a):
    x = operands(k, t, t, a, None)[0]
    try:
        r = UnaryExpression(Operator.negate).evaluate_negate(x)
        k.ensures("type", r.type_code == code(t))
        if a is None:
            k.ensures("null", r.is_null())
        else:
            k.ensures("negated", k.And(a > RANGES[t][0],
                                       lambda: r.value == 0 - a), r.value)
    except ValueError:
        k.ensures("the one that overflows", k.And(
            a is not None, lambda: a == RANGES[t][0]))


# -- every pair of types, natively -------------------------------------------

def random_value(rnd, t):
    if rnd.random() < 0.12:
        return None
    if t in RANGES:
        lo, hi = RANGES[t]
        return rnd.choice([0, 1, -1 if lo else 2, 7, lo, hi, hi - 1,
                           rnd.randint(lo, hi), rnd.randint(lo, hi),
                           rnd.randint(0, min(hi, 99))])
    if t == 'Decimal':
        return decimal.Decimal(rnd.randint(-10 ** 6, 10 ** 6)) / (
            10 ** rnd.randint(0, 4))
    if t in ('Single', 'Double'):
        return rnd.choice([0.0, -0.5, 1.5, 2.0, 3.25, float(
            rnd.randint(-999, 999)) / 8])
    if t == 'String':
        return ''.join(rnd.choice('aAb\xe9\u4e00') for i in range(
            rnd.randint(0, 3)))
    if t in ('DateTime', 'DateTimeOffset'):
        s = '%04i-%02i-%02iT%02i:%02i:%02i' % (
            rnd.choice([1999, 2000, 2001]), rnd.randint(1, 3),
            rnd.randint(1, 3), rnd.randint(0, 23), rnd.choice([0, 59]),
            rnd.choice([0, 59]))
        if t == 'DateTimeOffset':
            s += rnd.choice(['Z', '+01:00', '-05:30'])
        return iso.TimePoint.from_str(s)
    if t == 'Guid':
        return uuid.UUID(int=rnd.choice([0, 1, 2 ** 127, rnd.getrandbits(
            128)]))
    if t == 'Boolean':
        return rnd.random() < 0.5
    if t == 'Binary':
        return bytes(rnd.randrange(3) for i in range(rnd.randint(0, 2)))
    if t == 'Time':
        return iso.Time.from_str('%02i:00:00' % rnd.randint(0, 23))
    return None


def pair(rnd):
    types = TYPES + NUMERIC * 3 + [None]
    a = rnd.choice(types)
    b = a if rnd.random() < 0.3 else rnd.choice(types)
    va = random_value(rnd, a)
    vb = va if a == b and rnd.random() < 0.3 else random_value(rnd, b)
    return a, va, b, vb


def ordinal(t, v):
    """something ordered as the values of the type are"""
    if t in ('DateTime', 'DateTimeOffset'):
        d = datetime.datetime.fromisoformat(str(v).replace('Z', '+00:00'))
        if d.tzinfo is not None:
            d = d.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        return d
    return v


def as_type(t, v):
    if t in ('Double', 'Single'):
        return float(v)
    if t == 'Decimal':
        return decimal.Decimal(v)
    return v


def arithmetic(op, t, x, y):
    """the value, or None when there is none"""
    if op == 'add':
        return x + y
    if op == 'sub':
        return x - y
    if op == 'mul':
        return x * y
    if y == 0:
        return None
    if t in ('Int32', 'Int64'):
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q if op == 'div' else x - q * y
    if op == 'div':
        return x / y
    return math.fmod(x, y) if t != 'Decimal' else x % y


@bounded('mixed types', 'sampled pairs of values of every pair of types',
         _samples=6000, op=Choice(ARITHMETIC + RELATIONS + ['eq', 'ne']),
         p=Gen(pair))
def mixed(k, op, p):
    a, va, b, vb = p
    common = promoted(a, b)
    allowed = list(NUMERIC)
    if op not in ARITHMETIC:
        allowed += ORDERED
        if op in ('eq', 'ne'):
            allowed.append('Binary')
    left, right = value(a, va), value(b, vb)
    try:
        r = evaluate(op, left, right)
    except (EvaluationError, ValueError):
        if common is None:
            k.fail("untyped nulls are refused")
        if common in allowed and va is not None and vb is not None:
            x, y = as_type(common, va), as_type(common, vb)
            if op in ARITHMETIC:
                want = arithmetic(op, common, x, y)
                k.ensures("there is no result", want is None or (
                    common in RANGES and not RANGES[common][0] <= want <=
                    RANGES[common][1]), want)
            else:
                k.fail("a comparison is refused")
        elif common in allowed:
            k.fail("a null operand is refused")
        return
    k.ensures("only for types that have a result", common is None or
              common in allowed, r.type_code)
    null = va is None or vb is None
    if op in ARITHMETIC:
        k.ensures("the common type", r.type_code == code(
            common or 'Int32'), r.type_code)
        if null:
            k.ensures("null", r.is_null(), r.value)
            return
        x, y = as_type(common, va), as_type(common, vb)
        want = arithmetic(op, common, x, y)
        k.ensures("there is a result", want is not None)
        k.ensures("the result", r.value == want, (r.value, want))
        return
    k.ensures("Boolean", r.type_code == SimpleType.Boolean)
    if null:
        same = va is None and vb is None
        want = {'eq': same, 'ne': not same}.get(op, False)
    else:
        x, y = (ordinal(common, as_type(common, v)) for v in (va, vb))
        if common == 'Guid' and op in RELATIONS:
            x, y = x.int, y.int
        want = {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y,
                'eq': x == y, 'ne': x != y}[op]
    k.ensures("the comparison", r.value is want or r.value == want,
              (r.value, want))


@bounded('other unary', 'sampled values of every type', _samples=800,
         t=Choice(TYPES), v=Gen(lambda rnd: rnd.randrange(10 ** 9)))
def unary(k, t, v):
    import random
    v = random_value(random.Random(v), t)
    x = value(t, v)
    kind = {'Byte': 'Int32', 'Int16': 'Int32', 'Single': 'Double'}.get(t, t)
    try:
        r = UnaryExpression(Operator.negate).evaluate_negate(x)
    except EvaluationError:
        k.ensures("not a number", kind not in ('Int32', 'Int64', 'Double',
                                               'Decimal'))
    except ValueError:
        k.ensures("overflow", v == RANGES[t][0])
    else:
        k.ensures("type", r.type_code == code(kind), r.type_code)
        k.ensures("value", r.value == (None if v is None else 0 - v), r.value)


# -- expressions as text ------------------------------------------------------

def tree(rnd, depth, logical):
    """a random expression as nested tuples"""
    if depth == 0 or rnd.random() < 0.15:
        if logical:
            return rnd.choice([('lit', 'Boolean', True),
                               ('lit', 'Boolean', False)])
        return rnd.choice([('lit', 'Int32', rnd.randint(-9, 9)),
                           ('lit', 'Int32', rnd.randint(-9, 9)),
                           ('lit', 'Int64', rnd.randint(-9, 9)),
                           ('lit', None, None)])
    d = depth - 1
    if logical:
        op = rnd.choice(['and', 'or', 'not'] + RELATIONS + ['eq', 'ne'])
        if op == 'not':
            return ('not', tree(rnd, d, True))
        sub = op in ('and', 'or')
        return (op, tree(rnd, d, sub), tree(rnd, d, sub))
    op = rnd.choice(ARITHMETIC + ['negate'])
    if op == 'negate':
        return ('negate', tree(rnd, d, False))
    return (op, tree(rnd, d, False), tree(rnd, d, False))


def build(t):
    if t[0] == 'lit':
        return core.LiteralExpression(value(t[1], t[2]))
    if t[0] in ('not', 'negate'):
        e = UnaryExpression(Operator.from_str(t[0]))
    else:
        e = BinaryExpression(Operator.from_str(t[0]))
    for x in t[1:]:
        e.add_operand(build(x))
    return e


def brackets(rnd, t):
    """text that brackets every operand"""
    if t[0] == 'lit':
        return str(build(t))
    xs = ['(%s)' % brackets(rnd, x) for x in t[1:]]
    if t[0] == 'not':
        return 'not ' + xs[0]
    if t[0] == 'negate':
        return '-' + xs[0]
    return '%s %s %s' % (xs[0], t[0], xs[1])


def outcome(f):
    try:
        return f().evaluate(None).value
    except (EvaluationError, ValueError) as err:
        return type(err)


@bounded('text of expressions', 'generated trees up to five levels deep',
         _samples=2500, t=Gen(lambda rnd: tree(
             rnd, rnd.randint(1, 4), rnd.random() < 0.5)))
def expression_text(k, t):
    want = outcome(lambda: build(t))
    text = str(build(t))
    got = outcome(lambda: core.CommonExpression.from_str(text))
    k.ensures("means the same", got == want, (text, got, want))
    text = brackets(None, t)
    got = outcome(lambda: core.CommonExpression.from_str(text))
    k.ensures("explicit brackets", got == want, (text, got, want))


PRECEDENCE = [['mul', 'div', 'mod'], ['add', 'sub'], RELATIONS,
              ['eq', 'ne'], ['and'], ['or']]


def flat(rnd):
    n = rnd.randint(2, 5)
    return [rnd.randint(-9, 9) for i in range(n)], [rnd.choice(
        ARITHMETIC) for i in range(n - 1)]


@bounded('precedence', 'generated chains of up to five operands',
         _samples=2500, c=Gen(flat))
def precedence(k, c):
    xs, ops = list(c[0]), list(c[1])
    text = ' '.join([str(xs[0])] + ['%s %i' % (o, x) for o, x in zip(
        ops, xs[1:])])
    got = outcome(lambda: core.CommonExpression.from_str(text))
    for level in PRECEDENCE[:2]:
        i = 0
        while i < len(ops):
            if ops[i] in level:
                r = arithmetic(ops[i], 'Int32', xs[i], xs[i + 1])
                if r is None:
                    k.ensures("no result", got is EvaluationError, got)
                    return
                xs[i:i + 2] = [r]
                del ops[i]
            else:
                i += 1
    k.ensures("binds in the right order", got == xs[0], (text, got, xs[0]))
