"""U02: the primitives of BasicParser."""
from pyvc.kit import proof, bounded, Contract, Int, Choice, Bool, Str, Bytes, Union, \
    Const, Gen, Opt
from pyvc.interp import LoopSpec
from pyslet.unicode5 import BasicParser, ParserError

ALPHA = '0129aAfFgGxyzXYZ ab\u00e9\u0130\u0660'
T = Str(alphabet=ALPHA, maxlen=10)
B = Bytes(alphabet=[ord(c) for c in '0129aAfFgGxyzXYZ ab'] + [0, 255],
          maxlen=10)
SRC = Union(T, B)
POS = Int(0, None, corners=[0, 1, 2, 3, 4, 5, 6])


def at(k, src, pos):
    k.requires(pos <= len(src))
    p = BasicParser(src)
    k.root(p)
    p.setpos(pos)
    return p


def empty(src):
    return src[0:0]


def consistent(k, p, src):
    """the current character is the source at the position, none outside"""
    n = len(src)
    k.ensures("source unchanged", p.src is src)
    if p.the_char is None:
        k.ensures("no character only outside the source",
                  k.Or(p.pos >= n, p.pos < 0), p.pos)
    else:
        k.ensures("position inside the source", k.And(p.pos >= 0,
                                                      p.pos < n), p.pos)
        k.ensures("current character is the source at the position",
                  p.the_char == src[p.pos], p.pos, p.the_char)


@proof('construction and setpos', src=SRC, pos=Int(-3, None, corners=[
    -1, 0, 1, 2, 30]))
def setpos(k, src, pos):
    p = BasicParser(src)
    k.ensures("starts at zero", p.pos == 0)
    consistent(k, p, src)
    p.setpos(pos)
    k.ensures("moves there", p.pos == pos)
    consistent(k, p, src)
    p.next_char()
    k.ensures("advances by one", p.pos == pos + 1)
    consistent(k, p, src)
    k.ensures("end only when there is no character",
              p.match_end() == (p.the_char is None))


def unmoved(k, p, src, pos, r):
    k.ensures("no match, nothing consumed", k.And(r is None, p.pos == pos),
              p.pos)
    consistent(k, p, src)


def same_kind(src, m):
    return isinstance(src, str) == isinstance(m, str)


@proof('match and parse of exact text', src=SRC, pos=POS, m=Union(
    Str(alphabet='012aAxX', maxlen=3, minlen=1),
    Bytes(alphabet=[48, 49, 50, 97, 65], maxlen=3, minlen=1)))
def parse(k, src, pos, m):
    k.requires(same_kind(src, m))
    p = at(k, src, pos)
    n = len(m)
    here = k.And(pos + n <= len(src), src[pos:pos + n] == m)
    k.ensures("match", k.Iff(p.match(m), here))
    k.ensures("match does not move", p.pos == pos)
    r = p.parse(m)
    if r is None:
        k.ensures("only when it is not there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("the text", k.And(here, r == m, p.pos == pos + n))
        consistent(k, p, src)


def error_fields(k, self, production, parser):
    self.production = production
    self.pos = parser.pos


# the text of the message and the excerpts left and right of the error
# are not described
ERROR_C = Contract('pyslet.unicode5:ParserError.__init__', 'none',
                   modifies=error_fields, checked_by='U02 parser errors')


@proof('require of exact text', _uses=[ERROR_C], src=SRC, pos=POS, m=Union(
    Str(alphabet='012aAxX', maxlen=3, minlen=1),
    Bytes(alphabet=[48, 49, 50, 97, 65], maxlen=3, minlen=1)))
def require(k, src, pos, m):
    k.requires(same_kind(src, m))
    p = at(k, src, pos)
    n = len(m)
    here = k.And(pos + n <= len(src), src[pos:pos + n] == m)
    try:
        r = p.require(m)
    except ParserError:
        k.ensures("only when it is not there", k.Not(here))
        k.ensures("nothing consumed", p.pos == pos)
        consistent(k, p, src)
        return
    k.ensures("the text", k.And(here, r == m, p.pos == pos + n))
    consistent(k, p, src)


@proof('peek', src=SRC, pos=POS, n=Int(0, None, corners=[0, 1, 2, 20]))
def peek(k, src, pos, n):
    p = at(k, src, pos)
    r = p.peek(n)
    k.ensures("the next characters", r == src[pos:pos + n])
    k.ensures("nothing consumed", p.pos == pos)


@proof('parse_until', src=SRC, pos=POS, m=Union(
    Const(None), Str(alphabet='01aA', maxlen=2, minlen=1),
    Bytes(alphabet=[48, 49, 97, 65], maxlen=2, minlen=1)))
def parse_until(k, src, pos, m):
    if m is not None:
        k.requires(same_kind(src, m))
    p = at(k, src, pos)
    r = p.parse_until(m)
    k.ensures("returns what it consumed", k.And(
        p.pos >= pos, p.pos <= len(src), r == src[pos:p.pos]), r, p.pos)
    consistent(k, p, src)
    if m is None:
        k.ensures("everything", p.pos == len(src))
    else:
        k.ensures("stops at the text or the end", k.Or(
            p.pos == len(src), src[p.pos:p.pos + len(m)] == m))
        k.ensures("stops at the first", k.Not(m in src[pos:k.ite(
            p.pos + len(m) - 1 <= len(src), p.pos + len(m) - 1,
            len(src))]) if k.native else True)
        if p.pos == len(src):
            k.ensures("the end only when it is not there",
                      k.Not(m in src[pos:]))


SETS = Choice(['+-', 'abc', '0', ''])


@proof('match_one and parse_one', src=SRC, pos=POS, chars=SETS)
def parse_one(k, src, pos, chars):
    if not isinstance(src, str):
        chars = chars.encode('ascii')
    p = at(k, src, pos)
    here = k.And(pos < len(src), k.Or(*[
        k.And(pos < len(src), k.code(src, pos) == k.code(chars, i))
        if not k.native else pos < len(src) and src[pos] == chars[i]
        for i in range(len(chars))]))
    k.ensures("match_one", k.Iff(p.match_one(chars), here))
    r = p.parse_one(chars)
    if r is None:
        k.ensures("only when none is there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("the character", k.And(here, r == src[pos],
                                         p.pos == pos + 1))
        consistent(k, p, src)


def digit(k, src, i):
    """src[i] is an ASCII digit (i inside src)"""
    c = k.code(src, i)
    return k.And(c >= 48, c <= 57)


def hexdigit(k, src, i):
    c = k.code(src, i)
    return k.Or(k.And(c >= 48, c <= 57), k.And(c >= 65, c <= 70),
                k.And(c >= 97, c <= 102))


def at_digit(k, src, pos, kind):
    if k.native:
        return pos < len(src) and kind(k, src, pos)
    return k.And(pos < len(src), kind(k, src, pos))


@proof('single digits and hex digits', src=SRC, pos=POS)
def single(k, src, pos):
    p = at(k, src, pos)
    here = at_digit(k, src, pos, digit)
    k.ensures("match_digit", k.Iff(p.match_digit(), here))
    k.ensures("match_hex_digit", k.Iff(p.match_hex_digit(), at_digit(
        k, src, pos, hexdigit)))
    k.ensures("matching does not move", p.pos == pos)
    r = p.parse_digit()
    if r is None:
        k.ensures("parse_digit: none there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("parse_digit", k.And(here, r == src[pos],
                                       p.pos == pos + 1))
        consistent(k, p, src)
    p.setpos(pos)
    r = p.parse_digit_value()
    if r is None:
        k.ensures("parse_digit_value: none there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("parse_digit_value", k.And(
            here, r == k.code(src, pos) - 48, p.pos == pos + 1))
        consistent(k, p, src)
    p.setpos(pos)
    r = p.parse_hex_digit()
    here = at_digit(k, src, pos, hexdigit)
    if r is None:
        k.ensures("parse_hex_digit: none there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("parse_hex_digit", k.And(here, r == src[pos],
                                           p.pos == pos + 1))
        consistent(k, p, src)


def same_char(k, c, src, i):
    if k.native:
        return c == src[i]
    return (k.code(c, 0) if isinstance(src, str) else c) == k.code(src, i)


def inv_common(k, p, start, n):
    """the parser stands n characters after start, consistently"""
    src = p.src
    if p.the_char is None:
        ok = p.pos >= len(src)
    else:
        ok = k.And(p.pos < len(src), same_char(k, p.the_char, src, p.pos))
    return [("position", k.And(start >= 0, p.pos == start + n, n >= 0,
                               p.pos <= len(src))),
            ("current character", ok)]


def inv_digits(k, L):
    p = L.self
    r = L.result
    n = len(r)
    out = inv_common(k, p, L.savepos, n)
    j = k.joined(r, 'str' if isinstance(p.src, str) else 'bytes')
    out.append(("collected", j == k.sub(p.src, L.savepos, p.pos)))
    out.append(("digits", k.forall(L.savepos, p.pos, lambda i: digit(
        k, p.src, i))))
    if L.max is not None:
        out.append(("limit", n <= L.max))
    return out


def inv_hex(k, L):
    p = L.self
    out = inv_common(k, p, L.savepos, L.rlen)
    out.append(("digits", k.forall(L.savepos, p.pos, lambda i: hexdigit(
        k, p.src, i))))
    if L.max is not None:
        out.append(("limit", L.rlen <= L.max))
    return out


DIGITS_T = LoopSpec('BasicParser.parse_digits', inv=inv_digits, havoc={
    'self.pos': 'int', 'self.the_char': 'optchar', 'result': 'chars'},
    variant=lambda k, L: len(L.self.src) - L.self.pos, label='digits')
DIGITS_B = LoopSpec('BasicParser.parse_digits', inv=inv_digits, havoc={
    'self.pos': 'int', 'self.the_char': 'optint', 'result': 'codes'},
    variant=lambda k, L: len(L.self.src) - L.self.pos, label='digits')
HEX_T = LoopSpec('BasicParser.parse_hex_digits', inv=inv_hex, havoc={
    'self.pos': 'int', 'self.the_char': 'optchar', 'rlen': 'int'},
    variant=lambda k, L: len(L.self.src) - L.self.pos, label='hex digits')
HEX_B = LoopSpec('BasicParser.parse_hex_digits', inv=inv_hex, havoc={
    'self.pos': 'int', 'self.the_char': 'optint', 'rlen': 'int'},
    variant=lambda k, L: len(L.self.src) - L.self.pos, label='hex digits')

MIN = Int(0, None, corners=[0, 1, 2, 3, 5])
MAX = Opt(Int(0, None, corners=[0, 1, 2, 3, 5]))


def run_post(k, p, src, pos, r, mn, mx, kind):
    """r is the longest run of the kind, of mn to mx characters"""
    if r is None:
        unmoved(k, p, src, pos, r)
        # a run of mn characters is not there
        if k.native:
            n = 0
            while pos + n < len(src) and kind(k, src, pos + n):
                n += 1
            k.ensures("only when the run is too short", n < mn)
        else:
            k.ensures("only when the run is too short", k.Or(
                pos + mn > len(src), k.Not(k.forall(
                    pos, pos + mn, lambda i: kind(k, src, i)))))
        return
    k.ensures("returns what it consumed", k.And(
        p.pos >= pos, p.pos <= len(src), r == src[pos:p.pos]), r, p.pos)
    consistent(k, p, src)
    n = p.pos - pos
    k.ensures("at least the minimum", n >= mn, n)
    k.ensures("all of the kind", k.forall(pos, p.pos, lambda i: kind(
        k, src, i)))
    if mx is not None:
        k.ensures("at most the maximum", n <= mx, n)
        k.ensures("maximal", k.Or(n == mx, k.Not(at_digit(
            k, src, p.pos, kind))), n)
    else:
        k.ensures("maximal", k.Not(at_digit(k, src, p.pos, kind)), n)


def digits_of(k, src, pos, mn, mx, name, kind):
    p = at(k, src, pos)
    try:
        r = getattr(p, name)(mn, mx)
    except ValueError:
        k.ensures("only impossible limits are refused", k.And(
            mx is not None, mn > (mx if mx is not None else mn)))
        return
    if mx is not None:
        k.ensures("impossible limits are refused", mn <= mx)
    run_post(k, p, src, pos, r, mn, mx, kind)


@proof('parse_digits', _loops=[DIGITS_T], src=T, pos=POS, mn=MIN, mx=MAX)
def digits_t(k, src, pos, mn, mx):
    digits_of(k, src, pos, mn, mx, 'parse_digits', digit)


@proof('parse_digits of bytes', _loops=[DIGITS_B], src=B, pos=POS, mn=MIN,
       mx=MAX)
def digits_b(k, src, pos, mn, mx):
    digits_of(k, src, pos, mn, mx, 'parse_digits', digit)


@proof('parse_hex_digits', _loops=[HEX_T], src=T, pos=POS, mn=MIN, mx=MAX)
def hex_t(k, src, pos, mn, mx):
    digits_of(k, src, pos, mn, mx, 'parse_hex_digits', hexdigit)


@proof('parse_hex_digits of bytes', _loops=[HEX_B], src=B, pos=POS, mn=MIN,
       mx=MAX)
def hex_b(k, src, pos, mn, mx):
    digits_of(k, src, pos, mn, mx, 'parse_hex_digits', hexdigit)


LIM = Opt(Int(0, None, corners=[0, 1, 2, 9, 10, 12, 99]))


def integer(k, src, pos, mn, mx, md):
    p = at(k, src, pos)
    low = 0 if mn is None else mn
    bad = k.Or(k.And(mx is not None, (mx if mx is not None else low) < low),
               False)
    if md is not None:
        k.requires(md >= 1)
    try:
        r = p.parse_integer(mn, mx, md)
    except ValueError:
        k.ensures("only impossible limits are refused", bad)
        return
    k.ensures("impossible limits are refused", k.Not(bad))
    if r is None:
        unmoved(k, p, src, pos, r)
        return
    k.ensures("consumed digits only", k.And(
        p.pos > pos, p.pos <= len(src), k.forall(
            pos, p.pos, lambda i: digit(k, src, i))))
    consistent(k, p, src)
    k.ensures("their value", r == k.decval(src[pos:p.pos]), r)
    k.ensures("in range", k.And(r >= low, r <= (
        r if mx is None else mx)), r)
    if md is not None:
        k.ensures("width", k.And(p.pos - pos <= md, k.Or(
            p.pos - pos == md, k.Not(at_digit(k, src, p.pos, digit)))))
    else:
        k.ensures("maximal", k.Not(at_digit(k, src, p.pos, digit)))


def pd_result(k, self, mn, mx):
    if k.split(k.fresh('bool')):
        return None
    n = k.fresh('int')
    k.assume(k.And(n >= 0, self.pos + n <= len(self.src)))
    r = k.sub(self.src, self.pos, self.pos + n)
    self.setpos(self.pos + n)
    return r


def pd_post(k, r, self, mn, mx):
    if r is None:
        # too few digits at the current position
        n = k.fresh('int')
        return k.And(n < mn, n >= 0, self.pos + n <= len(self.src),
                     k.Or(mx is not None and n == mx, k.Not(at_digit(
                         k, self.src, self.pos + n, digit))))
    n = len(r)
    return k.And(n >= mn, True if mx is None else n <= mx, k.all_codes(
        r, lambda c: k.And(c >= 48, c <= 57)), k.forall(
            self.pos - n, self.pos, lambda i: digit(k, self.src, i)),
        k.Or(mx is not None and n == mx, k.Not(at_digit(
            k, self.src, self.pos, digit))))


DIGITS_C = Contract('pyslet.unicode5:BasicParser.parse_digits', pd_result,
                    pd_post, pre=lambda k, self, mn, mx: k.And(
                        mn >= 0, True if mx is None else mn <= mx),
                    checked_by='U02 parse_digits')


@proof('parse_integer', _uses=[DIGITS_C], src=T, pos=POS, mn=LIM, mx=LIM,
       md=Opt(Int(1, None, corners=[1, 2, 3])))
def integer_t(k, src, pos, mn, mx, md):
    integer(k, src, pos, mn, mx, md)


@proof('parse_integer of bytes', _uses=[DIGITS_C], src=B, pos=POS, mn=LIM,
       mx=LIM, md=Opt(Int(1, None, corners=[1, 2, 3])))
def integer_b(k, src, pos, mn, mx, md):
    integer(k, src, pos, mn, mx, md)


@proof('parse_integer refuses exactly what is out of range', src=Str(
    alphabet='0123456789', ranges=[(48, 57)], maxlen=4, minlen=1), mn=LIM,
    mx=LIM, _symbolic=False, _samples=3000,
    _bounded='sampled digit strings')
def integer_none(k, src, mn, mx):
    low = 0 if mn is None else mn
    k.requires(mx is None or mx >= low)
    p = BasicParser(src)
    r = p.parse_integer(mn, mx)
    v = int(src)
    want = v if v >= low and (mx is None or v <= mx) else None
    k.ensures("value", r == want and p.pos == (
        0 if want is None else len(src)), r, want)


WORDS = Choice(['gmt', 'a', 'x-y', 'inf', 'true'])


def same_letter(k, c, m):
    """the code of the source character is that of the (lower case) letter"""
    return k.Or(c == m, c + 32 == m if 97 <= m <= 122 else False)


def at_word(k, src, pos, m):
    n = len(m)
    return k.And(pos + n <= len(src), lambda: k.And(*[
        same_letter(k, k.code(src, pos + i), ord(m[i])) for i in range(n)]))


@proof('match_insensitive and parse_insensitive', src=Union(
    Str(alphabet='gGmMtTaAxXyY-nN\u0130\u212a', maxlen=6,
        words=['GMT', 'xGmT', 'X-Y', 'iNF', 'TruE', '\u0130nf']),
    Bytes(alphabet=[ord(c) for c in 'gGmMtTaAxXyY-nN'], maxlen=6,
          words=[b'GMT', b'X-y', b'nAn'])), pos=POS, m=WORDS)
def insensitive(k, src, pos, m):
    word = m
    if not isinstance(src, str):
        m = m.encode('ascii')
    p = at(k, src, pos)
    n = len(m)
    here = at_word(k, src, pos, word)
    k.ensures("match", k.Iff(p.match_insensitive(m), here))
    r = p.parse_insensitive(m)
    if r is None:
        k.ensures("only when it is not there", k.Not(here))
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("the text", k.And(here, r == src[pos:pos + n],
                                    p.pos == pos + n))
        consistent(k, p, src)


@proof('parse_production backs out of failures', src=SRC, pos=POS,
       fail=Bool(), n=Int(0, None, corners=[0, 1, 2]))
def production(k, src, pos, fail, n):
    p = at(k, src, pos)
    k.requires(pos + n <= len(src))

    def req():
        p.setpos(pos + n)
        if fail:
            raise ValueError
        return 1
    r = p.parse_production(req)
    if fail:
        unmoved(k, p, src, pos, r)
    else:
        k.ensures("result passed on", k.And(r == 1, p.pos == pos + n))
        consistent(k, p, src)


@proof('require_production and the end', _uses=[ERROR_C], src=SRC, pos=POS, r=Opt(Int(0, 9)))
def req_production(k, src, pos, r):
    p = at(k, src, pos)
    try:
        x = p.require_production(r)
        k.ensures("passed on", k.And(r is not None, x == r))
    except ParserError:
        k.ensures("refused only when missing", r is None)
    k.ensures("nothing consumed", p.pos == pos)
    try:
        p.require_end()
        k.ensures("at the end", pos == len(src))
    except ParserError:
        k.ensures("refused only before the end", pos < len(src))
    k.ensures("nothing consumed", p.pos == pos)
    consistent(k, p, src)


@proof('parser errors', src=T, pos=POS, production=Choice(['', 'x']))
def errors(k, src, pos, production):
    p = at(k, src, pos)
    e = ParserError(production, p)
    k.ensures("describes the position", k.And(
        e.pos == p.pos, e.pos == pos, e.production == production))


@proof('the most advanced error is raised', _uses=[ERROR_C], src=T, a=POS,
       b=POS, c=POS)
def errors_kept(k, src, a, b, c):
    k.requires(k.And(a <= len(src), b <= len(src), c <= len(src)))
    p = BasicParser(src)
    k.root(p)
    for i in (a, b):
        p.setpos(i)
        try:
            p.parser_error('x')
            k.fail("always raises")
        except ParserError as e:
            k.ensures("at the position", e.pos == i)
    p.setpos(c)
    top = k.ite(a >= b, a, b)
    try:
        p.parser_error()
        k.fail("always raises")
    except ParserError as e:
        k.ensures("most advanced", e.pos == k.ite(c > top, c, top), e.pos)
        k.ensures("positioned there", p.pos == e.pos, p.pos)
        consistent(k, p, src)


def pi_result(k, self, m):
    if k.split(k.fresh('bool')):
        return None
    r = k.sub(self.src, self.pos, self.pos + len(m))
    k.assume(self.pos + len(m) <= len(self.src))
    self.setpos(self.pos + len(m))
    return r


def pi_post(k, r, self, m):
    word = m if isinstance(m, str) else m.decode('ascii')
    if r is None:
        return k.Not(at_word(k, self.src, self.pos, word))
    return at_word(k, self.src, self.pos - len(m), word)


INSENS_C = Contract('pyslet.unicode5:BasicParser.parse_insensitive',
                    pi_result, pi_post,
                    checked_by='U02 match_insensitive and parse_insensitive')
