"""Parameter domains: symbolic value, concrete value of a model, samples."""
import z3

from .values import *   # noqa


class Domain(object):
    native_only = False

    def symbolic(self, kit, name):
        raise NotImplementedError

    def concretize(self, model, val):
        raise NotImplementedError

    def sample(self, rng):
        raise NotImplementedError

    def corners(self):
        return []


def zval(model, t):
    v = model.eval(t, model_completion=True)
    return v


class Int(Domain):
    def __init__(self, lo=None, hi=None, corners=()):
        self.lo, self.hi, self._c = lo, hi, list(corners)

    def symbolic(self, kit, name):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        v = kit.e.fresh(z3.IntSort(), name)
        if self.lo is not None:
            kit.e.add(v >= self.lo)
        if self.hi is not None:
            kit.e.add(v <= self.hi)
        return v

    def concretize(self, model, val):
        if isinstance(val, int):
            return val
        return zval(model, val).as_long()

    def sample(self, rng):
        lo = self.lo if self.lo is not None else -10 ** 6
        hi = self.hi if self.hi is not None else 10 ** 6
        r = rng.random()
        if r < 0.25 and self.corners():
            return rng.choice(self.corners())
        if r < 0.5:
            return rng.randint(max(lo, -20), min(hi, 20)) \
                if max(lo, -20) <= min(hi, 20) else rng.randint(
                    lo, min(hi, lo + 30))
        return rng.randint(lo, hi)

    def corners(self):
        out = list(self._c)
        for x in (self.lo, self.hi, 0, 1, -1):
            if x is not None and x not in out and (
                    self.lo is None or x >= self.lo) and (
                        self.hi is None or x <= self.hi):
                out.append(x)
        return out

    def small(self):
        if self.lo is not None and self.hi is not None and \
                self.hi - self.lo < 400:
            return range(self.lo, self.hi + 1)
        return None


class Real(Domain):
    """A float, taken for the real number it is: neither infinite nor NaN,
    and arithmetic on it is that of the real numbers"""

    def __init__(self, corners=(0.0, 0.5, -0.5, 1.0, -1.5, 2.5)):
        self._c = list(corners)

    def symbolic(self, kit, name):
        return kit.e.fresh(z3.RealSort(), name)

    def concretize(self, model, val):
        if isinstance(val, float):
            return val
        x = zval(model, val)
        if z3.is_algebraic_value(x):
            x = x.approx(40)
        return float(x.as_fraction())

    def sample(self, rng):
        r = rng.random()
        if r < 0.3 and self._c:
            return rng.choice(self._c)
        # sums and products of these are exact
        return rng.randint(-400, 400) / rng.choice([1.0, 2.0, 4.0])

    def corners(self):
        return list(self._c)


class Bool(Domain):
    def symbolic(self, kit, name):
        return kit.e.choose(2) == 1

    def concretize(self, model, val):
        return val

    def sample(self, rng):
        return rng.random() < 0.5

    def corners(self):
        return [False, True]

    def small(self):
        return [False, True]


class SBool(Bool):
    """A boolean kept symbolic"""

    def symbolic(self, kit, name):
        return kit.e.fresh(z3.BoolSort(), name)

    def concretize(self, model, val):
        return z3.is_true(zval(model, val))


class Choice(Domain):
    """One of a list of concrete values (forks)"""

    def __init__(self, items):
        self.items = list(items)

    def symbolic(self, kit, name):
        return self.items[kit.e.choose(len(self.items))]

    def concretize(self, model, val):
        return val

    def sample(self, rng):
        return rng.choice(self.items)

    def corners(self):
        return self.items[:3] + self.items[-1:]

    def small(self):
        return self.items if len(self.items) <= 400 else None


class Opt(Domain):
    """None or a value"""

    def __init__(self, dom, first_none=False):
        self.dom = dom

    def symbolic(self, kit, name):
        if kit.e.choose(2) == 0:
            return self.dom.symbolic(kit, name)
        return None

    def concretize(self, model, val):
        if val is None:
            return None
        return self.dom.concretize(model, val)

    def sample(self, rng):
        if rng.random() < 0.25:
            return None
        return self.dom.sample(rng)

    def corners(self):
        return [None] + self.dom.corners()

    def small(self):
        s = self.dom.small() if hasattr(self.dom, 'small') else None
        return None if s is None else [None] + list(s)


class _Text(Domain):
    kind = 'str'

    def __init__(self, alphabet=None, maxlen=8, ranges=None, words=(),
                 minlen=0):
        """alphabet: the codes sampled natively (and nothing more: the
        symbolic value ranges over all codes unless ranges is given)"""
        self.alphabet = alphabet
        self.maxlen = maxlen
        self.minlen = minlen
        self.ranges = ranges
        self.words = list(words)

    def conv(self, codes):
        if self.kind == 'str':
            return ''.join(map(chr, codes))
        return bytes(codes)

    def code_ok(self, c):
        hi = 0x10ffff if self.kind == 'str' else 255
        if self.ranges is None:
            return z3.And(c >= 0, c <= hi)
        return z3.Or(*[z3.And(c >= a, c <= b) for a, b in self.ranges])

    def concretize(self, model, val):
        if not isinstance(val, SStr):
            return val
        if val.chars is not None:
            return self.conv([c if isinstance(c, int) else
                              zval(model, c).as_long() for c in val.chars])
        n = zval(model, z3.Length(val.seq)).as_long()
        n = min(n, 400)
        codes = []
        for i in range(n):
            v = zval(model, val.seq[i])
            c = v.as_long() if z3.is_int_value(v) else 0
            hi = 0x10ffff if self.kind == 'str' else 255
            codes.append(min(max(c, 0), hi))
        return self.conv(codes)

    def pick(self, rng):
        if self.alphabet is not None and rng.random() < 0.9:
            a = self.alphabet
            c = a[rng.randrange(len(a))]
            return c if isinstance(c, int) else ord(c)
        if self.ranges is not None:
            a, b = rng.choice(self.ranges)
            return rng.randint(a, b)
        if self.alphabet is not None and self.kind == 'bytes':
            return rng.randint(0, 255)
        if self.alphabet is not None:
            c = rng.choice([rng.randint(0, 127), rng.randint(128, 0x7ff),
                            rng.randint(0x800, 0xd7ff),
                            rng.randint(0x10000, 0x10ffff)])
            return c
        if self.kind == 'bytes':
            return rng.randint(0, 255)
        return rng.choice([rng.randint(0, 127), rng.randint(0, 127),
                           rng.randint(128, 0xd7ff),
                           rng.randint(0xe000, 0x10ffff)])

    def sample(self, rng):
        if self.words and rng.random() < 0.3:
            return rng.choice(self.words)
        n = rng.randint(self.minlen, self.maxlen)
        return self.conv([self.pick(rng) for i in range(n)])

    def corners(self):
        out = list(self.words)
        if self.minlen == 0:
            out.append(self.conv([]))
        return out


class Str(_Text):
    """A character string of any length"""

    def symbolic(self, kit, name):
        v = SStr(self.kind, seq=kit.e.fresh(IntSeq, name))
        if self.minlen:
            kit.e.add(z3.Length(v.seq) >= self.minlen)
        kit.range_fact(v, self.ranges)
        return v


class Bytes(Str):
    kind = 'bytes'


class StrN(_Text):
    """A string whose length is enumerated up to maxlen; every character
    is symbolic.  Proofs over it are bounded in that length."""

    def symbolic(self, kit, name):
        n = self.minlen + kit.e.choose(self.maxlen - self.minlen + 1)
        codes = []
        for i in range(n):
            c = kit.e.fresh(z3.IntSort(), "%s_%i" % (name, i))
            kit.e.add(self.code_ok(c))
            codes.append(c)
        return mk_str(self.kind, codes)


class BytesN(StrN):
    kind = 'bytes'


class ListN(Domain):
    """A list of up to maxlen values"""

    def __init__(self, dom, maxlen, minlen=0):
        self.dom, self.maxlen, self.minlen = dom, maxlen, minlen

    def symbolic(self, kit, name):
        n = self.minlen + kit.e.choose(self.maxlen - self.minlen + 1)
        return [self.dom.symbolic(kit, "%s_%i" % (name, i))
                for i in range(n)]

    def concretize(self, model, val):
        return [self.dom.concretize(model, v) for v in val]

    def sample(self, rng):
        return [self.dom.sample(rng) for i in range(
            rng.randint(self.minlen, self.maxlen))]

    def corners(self):
        return [[]] if not self.minlen else []


class Tup(Domain):
    def __init__(self, *doms):
        self.doms = doms

    def symbolic(self, kit, name):
        return tuple(d.symbolic(kit, "%s_%i" % (name, i))
                     for i, d in enumerate(self.doms))

    def concretize(self, model, val):
        return tuple(d.concretize(model, v) for d, v in zip(self.doms, val))

    def sample(self, rng):
        return tuple(d.sample(rng) for d in self.doms)


class Union(Domain):
    """One of several domains"""

    def __init__(self, *doms):
        self.doms = doms

    def symbolic(self, kit, name):
        i = kit.e.choose(len(self.doms))
        v = self.doms[i].symbolic(kit, name)
        kit.union_pick[name] = i
        return v

    def concretize(self, model, val):
        for d in self.doms:
            try:
                return d.concretize(model, val)
            except Exception:   # noqa
                continue
        raise ValueError("no domain")

    def sample(self, rng):
        return rng.choice(self.doms).sample(rng)

    def corners(self):
        return [c for d in self.doms for c in d.corners()]


class Gen(Domain):
    """Native-only: gen(rng) gives a value; bounded checks only"""
    native_only = True

    def __init__(self, gen, corners=()):
        self.gen = gen
        self._c = list(corners)

    def sample(self, rng):
        return self.gen(rng)

    def corners(self):
        return self._c


class Const(Domain):
    def __init__(self, v):
        self.v = v

    def symbolic(self, kit, name):
        return self.v

    def concretize(self, model, val):
        return self.v

    def sample(self, rng):
        return self.v

    def corners(self):
        return [self.v]

    def small(self):
        return [self.v]


class Pred(Domain):
    """A predicate on characters, any set of them"""

    def __init__(self, alphabet, fixed=()):
        self.alphabet = [ord(c) for c in alphabet]
        self.fixed = [frozenset(map(ord, f)) for f in fixed]

    def symbolic(self, kit, name):
        return PredVal(fun=kit.e.fresh_fun(name, z3.IntSort(),
                                           z3.BoolSort()))

    def concretize(self, model, val):
        if val.fun is None:
            return val
        return PredVal(frozenset(c for c in range(0x180) if z3.is_true(
            model.eval(val.fun(z3.IntVal(c)), model_completion=True))))

    def sample(self, rng):
        if self.fixed and rng.random() < 0.5:
            return PredVal(rng.choice(self.fixed))
        d = rng.random()
        return PredVal(frozenset(c for c in self.alphabet
                                 if rng.random() < d))

    def corners(self):
        return [PredVal(f) for f in self.fixed]
