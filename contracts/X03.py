"""X03: regular expressions of XML Schema match exactly their language."""
import random
import unicodedata
from pyvc.kit import bounded, Choice, Gen, Int
from pyslet.xml.xsdatatypes import RegularExpression, RegularExpressionError

LEVEL = 'exploration'

SEED = Int(0, 10 ** 9)

LETTERS = u'ab'
CHARS = u'abcAB01 -_:.|^$\n\r\t\\[](){}?*+\xe9\u0416\u0663~,&'
META = u'\\|.-^?*+{}()[]'


# a reference matcher: sets of positions reached, on the structure of the
# expression and not on its text

def ends(e, s, i):
    """the positions at which a match of e from i can end"""
    kind = e[0]
    if kind == 'set':
        return {i + 1} if i < len(s) and e[1](s[i]) else set()
    elif kind == 'seq':
        got = {i}
        for x in e[1]:
            got = set().union(*[ends(x, s, j) for j in got])
        return got
    elif kind == 'alt':
        return set().union(*[ends(x, s, i) for x in e[1]])
    kind, x, lo, hi = e
    got, seen, n = {i}, set(), 0
    while n < lo:
        got = set().union(*[ends(x, s, j) for j in got])
        n += 1
    out = set(got)
    while got - seen and (hi is None or n < hi):
        seen |= got
        got = set().union(*[ends(x, s, j) for j in got])
        out |= got
        n += 1
    return out


def category(*names):
    def test(c):
        have = unicodedata.category(c)
        return any(have.startswith(n) for n in names)
    return test


def is_initial(c):
    return c in u'_:' or unicodedata.category(c)[0] == 'L'


def is_name(c):
    return is_initial(c) or c in u'-.' or unicodedata.category(c) == 'Nd'


ESCAPES = {
    u'\\d': category('Nd'), u'\\s': lambda c: c in u' \t\n\r',
    u'\\i': is_initial, u'\\c': is_name,
    u'\\w': lambda c: unicodedata.category(c)[0] not in 'PZC',
    u'\\p{L}': category('L'), u'\\p{Lu}': category('Lu'),
    u'\\p{N}': category('N'), u'\\p{Ll}': category('Ll'),
    u'\\p{P}': category('P'), u'\\p{Zs}': category('Zs'),
    u'\\p{Cc}': category('Cc'), u'\\p{IsBasicLatin}':
    lambda c: ord(c) < 0x80,
    u'\\p{IsLatin-1Supplement}': lambda c: 0x80 <= ord(c) < 0x100,
    u'\\p{IsCyrillic}': lambda c: 0x400 <= ord(c) < 0x500,
}


def inverse(f):
    return lambda c: not f(c)


for _x in list(ESCAPES):
    ESCAPES[_x[0] + _x[1].upper() + _x[2:]] = inverse(ESCAPES[_x])
for _x in META:
    ESCAPES[u'\\' + _x] = (lambda m: lambda c: c == m)(_x)
for _x, _y in (('n', u'\n'), ('r', u'\r'), ('t', u'\t')):
    ESCAPES[u'\\' + _x] = (lambda m: lambda c: c == m)(_y)
NAMES = sorted(ESCAPES)


class Writer(object):

    """makes expressions, as text and as structure"""

    def __init__(self, seed, plain):
        self.r = random.Random(seed)
        self.plain = plain

    def regexp(self, depth):
        branches = [self.branch(depth)
                    for i in range(self.r.choice([1, 1, 2, 3]))]
        return u'|'.join(b[0] for b in branches), (
            'alt', [b[1] for b in branches])

    def branch(self, depth):
        pieces = [self.piece(depth)
                  for i in range(self.r.choice([0, 1, 1, 2, 3]))]
        return u''.join(p[0] for p in pieces), ('seq', [p[1] for p in pieces])

    def piece(self, depth):
        text, e = self.atom(depth)
        x = self.r.random()
        if x < 0.6:
            return text, e
        n, m = self.r.randint(0, 3), self.r.randint(0, 2)
        q, lo, hi = self.r.choice([
            (u'?', 0, 1), (u'*', 0, None), (u'+', 1, None),
            (u'{%i}' % n, n, n), (u'{%i,}' % n, n, None),
            (u'{%i,%i}' % (n, n + m), n, n + m)])
        return text + q, ('rep', e, lo, hi)

    def atom(self, depth):
        x = self.r.random()
        if depth and x < 0.3:
            text, e = self.regexp(depth - 1)
            return u'(' + text + u')', e
        elif self.plain and x < 0.9:
            c = self.r.choice(LETTERS)
            return c, ('set', lambda d: d == c)
        elif x < 0.45:
            text, f = self.group(1)
            return u'[' + text + u']', ('set', f)
        elif x < 0.6:
            t = self.r.choice(NAMES)
            return t, ('set', ESCAPES[t])
        elif x < 0.65:
            return u'.', ('set', lambda d: d not in u'\n\r')
        c = self.r.choice([c for c in CHARS if c not in u'.\\?*+{}()[]|'])
        return c, ('set', lambda d: d == c)

    def group(self, depth):
        """the text between square brackets and its set"""
        text, tests = u'', []
        for i in range(self.r.choice([1, 1, 2, 3])):
            x = self.r.random()
            if x < 0.25:
                t = self.r.choice(NAMES)
                text += t
                tests.append(ESCAPES[t])
            elif x < 0.55:
                a, b = sorted(self.r.choice(u'abcAB01\xe9\u0416~')
                              for j in range(2))
                text += a + u'-' + b
                tests.append(lambda d, a=a, b=b: a <= d <= b)
            else:
                c = self.r.choice([c for c in CHARS if c not in u'-[]\\^'])
                text += c
                tests.append(lambda d, c=c: c == d)
        x = self.r.random()
        if x < 0.1:
            text += u'-'
            tests.append(lambda d: d == u'-')
        elif x < 0.2:
            text = u'-' + text
            tests.append(lambda d: d == u'-')

        def positive(d):
            return any(t(d) for t in tests)
        f = positive
        if self.r.random() < 0.25:
            text = u'^' + text
            f = inverse(positive)
        if depth and self.r.random() < 0.25:
            less, g = self.group(0)
            text += u'-[' + less + u']'
            return text, lambda d: f(d) and not g(d)
        return text, f


def check(k, w, depth, alphabet, most):
    text, e = w.regexp(depth)
    p = RegularExpression(text)
    for i in range(12):
        s = u''.join(w.r.choice(alphabet) for j in range(w.r.randint(0, most)))
        k.ensures("in the language", p.match(s) is (len(s) in ends(e, s, 0)),
                  text, s)
    k.ensures("the text", str(p) == text)
    # and again: nothing is left behind by the first time
    q = RegularExpression(text)
    for c in CHARS:
        k.ensures("same again", q.match(c) is p.match(c) and
                  p.match(c) is (1 in ends(e, c, 0)), text, c)


@bounded('structure', 'sampled expressions of up to three levels, texts of '
         'up to six letters', _samples=6000, seed=SEED)
def structure(k, seed):
    check(k, Writer(seed, True), 2, LETTERS, 6)


@bounded('classes', 'sampled expressions over all kinds of characters and '
         'classes, texts of up to three', _samples=4000, seed=SEED)
def classes(k, seed):
    check(k, Writer(seed, False), 1, CHARS, 3)


@bounded('every character', 'every class escape, characters below U+0180 whose category has not changed since Unicode 5',
         _samples=len(NAMES), t=Choice(NAMES))
def every_character(k, t):
    positive = RegularExpression(t)
    also = RegularExpression(u'[' + t + u']')
    negative = RegularExpression(u'[^' + t + u']')
    for c in range(0x180):
        c = chr(c)
        if c in u'\xaa\xb5\xba' or c in u'\xa7\xb6\xb7\xb8\xa8\xaf\xb4':
            continue
        if t[1] in 'iIcC' and ord(c) >= 0x80:
            continue
        want = ESCAPES[t](c)
        k.ensures("member", positive.match(c) is want, t, c)
        k.ensures("in brackets", also.match(c) is want, t, c)
        k.ensures("outside brackets", negative.match(c) is not want, t, c)


@bounded('malformed', 'sampled expressions with one mark too many or too few',
         _samples=3000, seed=SEED,
         what=Choice([u')', u'*', u'{', u'}', u'(', u'a**', u'a{2}{3}', u'[',
                      u']', u'a{2,1}', u'a{}', u'a{,2}', u'[]', u'[b-a]',
                      u'\\', u'\\q', u'\\p{Q}', u'\\p{Lu', u'?', u'a|*',
                      u'[a', u'(a']))
def malformed(k, seed, what):
    w = Writer(seed, True)
    text = w.regexp(1)[0]
    if what[0] in u'*?{':
        text = text + u'|'
    try:
        RegularExpression(text + what)
        k.ensures("refused", False, text + what)
    except RegularExpressionError:
        pass
