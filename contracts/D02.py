"""D02: ordinal, week and calendar forms of a date."""
from pyvc.kit import proof, Int, Contract, has
from pyslet import iso8601 as iso
from speclib import cal
from contracts import D01

Y, M, D = D01.Y, D01.M, D01.D
mkdate = D01.mkdate


def J(k, y):
    """day count of 1st January (opaque in proofs unless revealed)"""
    return k.opaque('jan1', 'int', jan1_def, y)


def jan1_def(k, y):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + 1


def LEAP(k, y):
    return k.opaque('leap', 'bool', cal.leap, y)


def year_len(k, y):
    return k.ite(LEAP(k, y), 366, 365)


def mlen(k, y, m):
    r = 31
    for i in (2, 4, 6, 9, 11):
        r = k.ite(m == i, 30 if i != 2 else k.ite(LEAP(k, y), 29, 28), r)
    return r


def ordn(k, y, m, d):
    r = d
    for i in range(1, 12):
        r = r + k.ite(m > i, k.ite(LEAP(k, y), 29, 28) if i == 2
                      else cal.LENGTHS[i - 1], 0)
    return r


def vdate(k, y, m, d):
    return k.And(m >= 1, m <= 12, d >= 1, d <= mlen(k, y, m))


def count(k, y, m, d):
    return J(k, y) + ordn(k, y, m, d) - 1


def next_jan(k, y):
    """the lemma that consecutive years abut"""
    return J(k, y + 1) == J(k, y) + year_len(k, y)


@proof('lemma: consecutive years abut', y=Int(-1, 10001))
def lemma_years(k, y):
    k.reveal('jan1', 'leap')
    k.ensures("J(y + 1) = J(y) + length", next_jan(k, y))
    k.ensures("year 1 starts at 1", J(k, 1) == 1)
    k.ensures("year 10000 starts after day 3652059", J(k, 10000) == 3652060)


@proof('lemma: the opaque forms are the calendar of D01', y=Y, m=M, d=D)
def lemma_forms(k, y, m, d):
    k.reveal('jan1', 'leap')
    k.ensures("days", count(k, y, m, d) == cal.days(k, y, m, d))
    k.ensures("valid", k.Iff(vdate(k, y, m, d), cal.valid(k, y, m, d)))
    k.ensures("ordinal", ordn(k, y, m, d) == cal.ordinal(k, y, m, d))


def weeks_in(k, y):
    """53 exactly when the year has 53 Thursdays"""
    first = (3 - (J(k, y) - 1) % 7) % 7      # days before 1st Thursday
    return k.ite(first + 7 * 52 < year_len(k, y), 53, 52)


def post_leap(k, r, year):
    return k.Iff(r, LEAP(k, year))


LEAPC = Contract('pyslet.iso8601:leap_year', 'bool', post=post_leap,
                 checked_by='D02 leap_year contract')


@proof('leap_year contract', y=Int(-1, 10001))
def leap_contract(k, y):
    k.reveal('leap')
    k.ensures("rule", post_leap(k, iso.leap_year(y), y))


def pre_dleap(k, self):
    return k.And(self.year is not None, self.year >= 0, self.year <= 99)


def post_dleap(k, r, self):
    return k.Iff(r, LEAP(k, self.century * 100 + self.year))


DLEAP = Contract('pyslet.iso8601:Date.leap_year', 'bool', pre=pre_dleap,
                 post=post_dleap, checked_by='D02 Date.leap_year contract')


@proof('Date.leap_year contract', c=Int(0, 99), y=Int(0, 99))
def dleap_contract(k, c, y):
    k.reveal('leap')
    d = k.new(iso.Date, century=c, year=y, month=1, day=1, week=None)
    k.ensures("rule", post_dleap(k, d.leap_year(), d))


def post_dow(k, r, year, month, day):
    return r == (count(k, year, month, day) - 1) % 7 + 1


def pre_dow(k, year, month, day):
    # year 0 and year 10000 occur inside the week computation
    return k.And(year >= 0, year <= 10000, vdate(k, year, month, day))


DOW = Contract('pyslet.iso8601:day_of_week', Int(1, 7), pre=pre_dow,
               post=post_dow, checked_by='D02 day_of_week contract')


@proof('day_of_week contract', y=Int(0, 10000), m=M, d=D)
def dow(k, y, m, d):
    k.reveal('leap', 'jan1')
    k.requires(pre_dow(k, y, m, d))
    w = iso.day_of_week(y, m, d)
    k.observe(w)
    k.ensures("weekday of the day count", post_dow(k, w, y, m, d))


def post_wc(k, r, year):
    return r == weeks_in(k, year)


WC = Contract('pyslet.iso8601:week_count', Int(52, 53),
              pre=lambda k, year: k.And(year >= 0, year <= 10000),
              post=post_wc, checked_by='D02 week_count')
ALL = [DOW, WC, LEAPC, DLEAP]


@proof('week_count', y=Int(0, 10000), _uses=[DOW, LEAPC])
def week_count(k, y):
    n = iso.week_count(y)
    k.observe(n)
    k.ensures("number of Thursdays", post_wc(k, n, y))


@proof('get_ordinal_day is the position in the year', y=Y, m=M, d=D)
def get_ordinal(k, y, m, d):
    k.requires(cal.valid(k, y, m, d))
    c, yy, n = mkdate(y, m, d).get_ordinal_day()
    k.observe(c, yy, n)
    k.ensures("year kept", c * 100 + yy == y)
    k.ensures("position", n == cal.ordinal(k, y, m, d), n)


@proof('Date(ordinal_day=n) is the nth day of the year', y=Y,
       n=Int(-3, 400, corners=[0, 1, 59, 60, 61, 365, 366, 367]))
def from_ordinal(k, y, n):
    try:
        date = iso.Date(century=y // 100, year=y % 100, ordinal_day=n)
    except iso.DateTimeError:
        k.ensures("only out of range ordinals are refused", k.Or(
            n < 1, n > cal.year_length(k, y)), n)
        return
    k.ensures("out of range ordinals are refused", k.And(
        n >= 1, n <= cal.year_length(k, y)), n)
    c, yy, m, d = date.get_calendar_day()
    k.observe(c, yy, m, d)
    k.ensures("year kept", c * 100 + yy == y)
    k.ensures("valid", k.And(date.complete(), cal.valid(k, y, m, d)))
    k.ensures("nth day", cal.ordinal(k, y, m, d) == n)
    k.ensures("reads back", date.get_ordinal_day() == (c, yy, n))


@proof('calendar to ordinal and back', y=Y, m=M, d=D)
def ordinal_round(k, y, m, d):
    k.requires(cal.valid(k, y, m, d))
    a = mkdate(y, m, d)
    c, yy, n = a.get_ordinal_day()
    b = iso.Date(century=c, year=yy, ordinal_day=n)
    k.ensures("same date", a == b)


def week_start(k, y):
    """day count of the Monday of week 1 of week year y: the week with the
    first Thursday, so the Monday on or before 4th January"""
    j4 = J(k, y) + 3
    return j4 - (j4 - 1) % 7


def years_about(k, y):
    k.use_lemma('consecutive years abut', k.And(
        next_jan(k, y - 1), next_jan(k, y), next_jan(k, y + 1)))


@proof('get_week_day is the ISO week', y=Y, m=M, d=D, _uses=ALL,
       _budget=300)
def get_week(k, y, m, d):
    years_about(k, y)
    k.requires(vdate(k, y, m, d))
    # how dates are made is the business of D01
    date = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
                 week=None)
    c, dec, yy, w, wd = date.get_week_day()
    k.observe(c, dec, yy, w, wd)
    n = count(k, y, m, d)
    wy = c * 100 + dec * 10 + yy
    k.ensures("digits in range", k.And(dec >= 0, dec <= 9, yy >= 0,
                                       yy <= 9))
    k.ensures("week year is the year or a neighbour",
              k.Or(wy == y, wy == y - 1, wy == y + 1))
    k.ensures("weekday 1 to 7 from Monday",
              wd == (n - 1) % 7 + 1)
    k.ensures("the day lies in that week of that year",
              n == week_start(k, wy) + 7 * (w - 1) + wd - 1, wy, w, wd)
    k.ensures("week in range of its year", k.And(w >= 1,
                                                 w <= weeks_in(k, wy)))


@proof('Date(week form) is the day of the ISO week', wy=Int(1, 9999),
       w=Int(-1, 55, corners=[0, 1, 52, 53, 54]),
       wd=Int(-1, 9, corners=[0, 1, 7, 8]), _uses=ALL, _budget=300)
def from_week(k, wy, w, wd):
    years_about(k, wy)
    k.use_lemma('the calendar runs from day 1 to 3652059', k.And(
        k.Implies(wy == 1, J(k, wy) == 1),
        k.Implies(wy > 1, J(k, wy) > 300),
        k.Implies(wy == 9999, J(k, wy) + year_len(k, wy) == 3652060),
        k.Implies(wy < 9999, J(k, wy) + year_len(k, wy) < 3652000)))
    try:
        date = iso.Date(century=wy // 100, decade=(wy % 100) // 10,
                        year=wy % 10, week=w, weekday=wd)
    except iso.DateTimeError:
        n = week_start(k, wy) + 7 * (w - 1) + wd - 1
        k.ensures("only invalid week dates are refused", k.Or(
            w < 1, w > weeks_in(k, wy), wd < 1, wd > 7, n < 1,
            n > 3652059), wy, w, wd)
        return
    k.ensures("invalid week dates are refused", k.And(
        w >= 1, w <= weeks_in(k, wy), wd >= 1, wd <= 7), wy, w, wd)
    c, yy, m, d = date.get_calendar_day()
    k.observe(c, yy, m, d)
    k.ensures("complete calendar date", k.And(
        date.complete(), c >= 0, c <= 99, yy >= 0, yy <= 99))
    y = c * 100 + yy
    k.ensures("in or next to the week year", k.Or(y == wy, y == wy - 1,
                                                  y == wy + 1))
    k.ensures("a valid day", vdate(k, y, m, d))
    k.ensures("the day of that week", count(k, y, m, d) ==
              week_start(k, wy) + 7 * (w - 1) + wd - 1, c, yy, m, d)


@proof('lemma: the calendar runs from day 1 to 3652059', y=Y)
def lemma_ends(k, y):
    k.reveal('jan1', 'leap')
    k.ensures("ends", k.And(
        k.Implies(y == 1, J(k, y) == 1),
        k.Implies(y > 1, J(k, y) > 300),
        k.Implies(y == 9999, J(k, y) + year_len(k, y) == 3652060),
        k.Implies(y < 9999, J(k, y) + year_len(k, y) < 3652000)))


@proof('lemma: week dates name distinct days', wy=Y,
       w=Int(1, 53), w2=Int(1, 53), wd=Int(1, 7), wd2=Int(1, 7))
def week_unique(k, wy, w, w2, wd, wd2):
    """with the two contracts above: the week form determines the date"""
    years_about(k, wy)
    k.requires(w <= weeks_in(k, wy))
    k.requires(w2 <= weeks_in(k, wy))
    n1 = week_start(k, wy) + 7 * (w - 1) + wd - 1
    n2 = week_start(k, wy) + 7 * (w2 - 1) + wd2 - 1
    k.ensures("adjacent week years abut", week_start(k, wy + 1) ==
              week_start(k, wy) + 7 * weeks_in(k, wy))
    k.ensures("same year, same day, same week date", k.Implies(
        n1 == n2, k.And(w == w2, wd == wd2)))


@proof('calendar to week and back', y=Y, m=M, d=D, _symbolic=False,
       _bounded='sampled dates; follows from the contracts above')
def week_round(k, y, m, d):
    k.requires(cal.valid(k, y, m, d))
    a = mkdate(y, m, d)
    c, dec, yy, w, wd = a.get_week_day()
    k.requires(1 <= c * 100 + dec * 10 + yy <= 9999)
    b = iso.Date(century=c, decade=dec, year=yy, week=w, weekday=wd)
    k.ensures("same date", a == b)
