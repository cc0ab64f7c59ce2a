"""D01: calendar dates and absolute day numbers."""
import datetime

from pyvc.kit import proof, Int, Contract, has
from pyslet import iso8601 as iso
from speclib import cal

Y = Int(1, 9999, corners=[1, 4, 99, 100, 101, 399, 400, 401, 1600, 1900,
                          2000, 2015, 2016, 9996, 9999])
M = Int(1, 12)
D = Int(1, 31, corners=[28, 29, 30, 31])


def mkdate(y, m, d):
    return iso.Date(century=y // 100, year=y % 100, month=m, day=d)


@proof('day number model agrees with its recursive definition', y=Y, m=M,
       d=D)
def model(k, y, m, d):
    """the oracle itself: first day is 1, the next day is one more"""
    k.requires(cal.valid(k, y, m, d))
    n = cal.days(k, y, m, d)
    k.ensures("day one", k.Implies(k.And(y == 1, m == 1, d == 1), n == 1))
    last = d == cal.month_length(k, y, m)
    y2 = k.ite(k.And(last, m == 12), y + 1, y)
    m2 = k.ite(last, k.ite(m == 12, 1, m + 1), m)
    d2 = k.ite(last, 1, d + 1)
    k.ensures("successor", cal.days(k, y2, m2, d2) == n + 1)
    if k.native:
        k.ensures("CPython agrees",
                  datetime.date(y, m, d).toordinal() == n)


@proof('get_absolute_day is the true day count', y=Y, m=M, d=D)
def absolute(k, y, m, d):
    k.reveal('daynum', 'dvalid')
    k.requires(cal.valid(k, y, m, d))
    date = mkdate(y, m, d)
    n = date.get_absolute_day()
    k.observe(n)
    k.ensures("get_absolute_day equals the day count",
              k.And(n == cal.days(k, y, m, d), post_get_abs(k, n, date)), n)


@proof('Date(absolute_day=n) has day number n', n=Int(1, 3652059, corners=[
    1, 2, 365, 366, 367, 36524, 36525, 146096, 146097, 146098, 292194,
    3652059, 1461, 1460, 1462, 36889]))
def from_absolute(k, n):
    date = iso.Date(absolute_day=n)
    c, yy, m, d = date.get_calendar_day()
    k.observe(c, yy, m, d)
    y = c * 100 + yy
    k.ensures("fields in range", k.And(yy >= 0, yy <= 99,
                                       cal.valid(k, y, m, d)), c, yy, m, d)
    k.ensures("its day count is n", cal.days(k, y, m, d) == n, y, m, d)
    k.ensures("stored as a complete date", date.complete())


@proof('day counts of distinct dates differ', y=Y, m=M, d=D, y2=Y, m2=M,
       d2=D)
def injective(k, y, m, d, y2, m2, d2):
    k.requires(cal.valid(k, y, m, d))
    k.requires(cal.valid(k, y2, m2, d2))
    a, b = cal.days(k, y, m, d), cal.days(k, y2, m2, d2)
    k.ensures("earlier date, smaller count",
              k.Iff(a < b, k.Or(y < y2, k.And(y == y2, k.Or(
                  m < m2, k.And(m == m2, d < d2))))))


@proof('leap_year follows the 4/100/400 rule', y=Int(0, 9999))
def leap(k, y):
    k.ensures("module function", k.Iff(iso.leap_year(y), cal.leap(k, y)))
    if y >= 1:
        date = iso.Date(century=y // 100, year=y % 100)
        k.ensures("Date.leap_year", k.Iff(date.leap_year(),
                                          cal.leap(k, y)))


@proof('day_of_week agrees with the day count', y=Y, m=M, d=D)
def weekday(k, y, m, d):
    k.requires(cal.valid(k, y, m, d))
    w = iso.day_of_week(y, m, d)
    k.observe(w)
    # 0001-01-01 was a Monday
    k.ensures("day of week", w == (cal.days(k, y, m, d) - 1) % 7 + 1, w)


def DAYNUM(k, y, m, d):
    """the day count, opaque in the proofs of callers"""
    return k.opaque('daynum', 'int', cal.days, y, m, d)


def DVALID(k, y, m, d):
    return k.opaque('dvalid', 'bool', cal.valid, y, m, d)


def mod_set_abs(k, self, abs_day):
    self.century = k.fresh('int', 'century')
    self.year = k.fresh('int', 'year')
    self.month = k.fresh('int', 'month')
    self.day = k.fresh('int', 'day')
    self.week = None


def post_set_abs(k, result, self, abs_day):
    y = self.century * 100 + self.year
    inside = k.And(abs_day >= 1, abs_day <= 3652059)
    ok = k.And(self.year >= 0, self.year <= 99, self.century >= 0,
               self.century <= 99, DVALID(k, y, self.month, self.day))
    return k.And(self.week is None, k.Iff(inside, ok), k.Implies(
        inside, DAYNUM(k, y, self.month, self.day) == abs_day))


SET_ABS = Contract('pyslet.iso8601:Date._set_from_absolute_day', 'none',
                   post=post_set_abs, modifies=mod_set_abs,
                   checked_by='D01 _set_from_absolute_day')


@proof('_set_from_absolute_day', n=Int(corners=[
    0, 1, 3652059, 3652060]))
def set_abs(k, n):
    if not has(iso.Date, '_set_from_absolute_day', 2):
        return
    k.reveal('daynum', 'dvalid')
    d = k.new(iso.Date)
    r = d._set_from_absolute_day(n)
    k.ensures("contract", k.And(r is None, post_set_abs(k, r, d, n)))


def pre_get_abs(k, self):
    return k.And(
        self.century is not None, self.day is not None,
        self.year >= 0, self.year <= 99,
        DVALID(k, self.century * 100 + self.year, self.month, self.day))


def post_get_abs(k, result, self):
    return result == DAYNUM(k, self.century * 100 + self.year, self.month,
                            self.day)


GET_ABS = Contract('pyslet.iso8601:Date.get_absolute_day', 'int',
                   pre=pre_get_abs, post=post_get_abs,
                   checked_by='D01 get_absolute_day is the true day count')


def date_facts(k, y, m, d):
    """what validity means (lemma), used where dates are checked again"""
    k.use_lemma('what a valid date is', k.Implies(
        DVALID(k, y, m, d), k.And(
            y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
            DAYNUM(k, y, m, d) >= 1,
            DAYNUM(k, y, m, d) <= 3652059)))


@proof('lemma: what a valid date is', y=Y, m=M, d=D)
def lemma_valid(k, y, m, d):
    k.reveal('daynum', 'dvalid')
    date_facts(k, y, m, d) if k.native else k.ensures(
        "facts", k.Implies(DVALID(k, y, m, d), k.And(
            y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
            DAYNUM(k, y, m, d) >= 1,
            DAYNUM(k, y, m, d) <= 3652059)))


def pre_check(k, self):
    return True


# _check_date of a date known to be valid does nothing: proved in D01
# through the constructor; here its contract
def raises_check(k, self):
    return k.Not(k.And(
        self.century is not None, self.day is not None,
        self.century >= 0, self.century <= 99,
        self.year >= 0, self.year <= 99, DVALID(
            k, self.century * 100 + self.year, self.month, self.day)))


CHECK = Contract('pyslet.iso8601:Date._check_date', 'none', pre=pre_check,
                 raises=(iso.DateTimeError, raises_check),
                 checked_by='D01 _check_date contract')


@proof('_check_date contract', c=Int(-2, 101), y=Int(-2, 101),
       m=Int(-1, 14), d=Int(-1, 33))
def check_date(k, c, y, m, d):
    k.reveal('dvalid')
    date = k.new(iso.Date, century=c, year=y, month=m, day=d, week=None)
    try:
        date._check_date()
    except iso.DateTimeError:
        k.ensures("refuses invalid dates only", raises_check(k, date))
        return
    k.ensures("refuses every invalid date", k.Not(raises_check(k, date)))


# -- the Julian calendar ----------------------------------------------------------

def julian_length(k, y, m):
    r = 31
    for i in (4, 6, 9, 11):
        r = k.ite(m == i, 30, r)
    return k.ite(m == 2, k.ite(y % 4 == 0, 29, 28), r)


def julian_valid(k, y, m, d):
    return k.And(y >= 1, m >= 1, m <= 12, d >= 1, d <= julian_length(k, y, m))


def julian_days(k, y, m, d):
    """day number: 1 (0001-01-01) is the third of January"""
    p = y - 1
    r = 365 * p + p // 4 + d - 2
    for i in range(1, 12):
        r = r + k.ite(m > i, k.ite(y % 4 == 0, 29, 28) if i == 2
                      else cal.LENGTHS[i - 1], 0)
    return r


@proof('Julian day number model agrees with its recursive definition',
       y=Int(1, 10000, corners=[1, 4, 100, 1900]), m=M, d=D)
def julian_model(k, y, m, d):
    k.requires(julian_valid(k, y, m, d))
    n = julian_days(k, y, m, d)
    last = d == julian_length(k, y, m)
    end = k.And(last, m == 12)
    k.ensures("successor", julian_days(
        k, k.ite(end, y + 1, y), k.ite(last, k.ite(m == 12, 1, m + 1), m),
        k.ite(last, 1, d + 1)) == n + 1)
    # as the papal bull has it: 4 October was followed by the 15th
    k.ensures("the reform", julian_days(k, 1582, 10, 5) == cal.days(
        k, 1582, 10, 15))


@proof('a date from the Julian calendar', y=Int(1, 10000, corners=[
    1, 3, 4, 5, 8, 100, 104, 400, 1582, 1900, 1904, 9999]), m=M, d=D,
       _uses=[SET_ABS, CHECK])
def from_julian(k, y, m, d):
    k.requires(julian_valid(k, y, m, d))
    n = julian_days(k, y, m, d)
    inside = k.And(n >= 1, n <= 3652059)
    try:
        date = iso.Date.from_julian(y, m, d)
    except iso.DateTimeError:
        k.ensures("refused for a reason", k.Not(inside))
        return
    k.observe(date.century, date.year, date.month, date.day)
    k.ensures("inside the calendar", inside)
    k.ensures("the same day", post_set_abs(k, None, date, n))


@proof('a date in the Julian calendar', y=Y, m=M, d=D, _uses=[GET_ABS])
def get_julian(k, y, m, d):
    date = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
                 week=None)
    k.requires(DVALID(k, y, m, d))
    date_facts(k, y, m, d)
    jy, jm, jd = date.get_julian_day()
    k.observe(jy, jm, jd)
    k.ensures("a date", julian_valid(k, jy, jm, jd))
    k.ensures("the same day", julian_days(k, jy, jm, jd) == DAYNUM(
        k, y, m, d))


OFF = Int(-3652058, 3652058, corners=[-366, -365, -31, -7, 7, 28, 365, 366])


@proof('offset by days and weeks moves by exactly that many days', y=Y, m=M,
       d=D, days=OFF, weeks=Int(-521722, 521722, corners=[-52, 52, 53]),
       _uses=[SET_ABS, GET_ABS, CHECK])
def offset_days(k, y, m, d, days, weeks):
    k.requires(DVALID(k, y, m, d))
    date_facts(k, y, m, d)
    start = DAYNUM(k, y, m, d)
    k.requires(start + days + 7 * weeks >= 1)
    k.requires(start + days + 7 * weeks <= 3652059)
    date = mkdate(y, m, d)
    r = date.offset(days=days, weeks=weeks)
    c, yy, m2, d2 = r.get_calendar_day()
    k.observe(c, yy, m2, d2)
    k.ensures("lands that many days later", k.And(
        yy >= 0, yy <= 99, DVALID(k, c * 100 + yy, m2, d2),
        DAYNUM(k, c * 100 + yy, m2, d2) == start + days + 7 * weeks),
        c, yy, m2, d2)
    k.ensures("the original is unchanged", k.And(
        date.century == y // 100, date.year == y % 100, date.month == m,
        date.day == d))


@proof('offset out of the calendar is refused', y=Y, m=M, d=D, days=OFF,
       _uses=[SET_ABS, GET_ABS, CHECK])
def offset_out(k, y, m, d, days):
    k.requires(DVALID(k, y, m, d))
    start = DAYNUM(k, y, m, d)
    k.requires(k.Or(start + days < 1, start + days > 3652059))
    date = mkdate(y, m, d)
    try:
        r = date.offset(days=days)
        k.fail("a date outside the calendar was returned",
               r.get_calendar_day())
    except (iso.DateTimeError, ValueError):
        k.ensures("refused", True)


@proof('month, year and century offsets of reduced dates',
       y=Int(1, 9999), m=Int(1, 12), months=Int(-200, 200),
       years=Int(-300, 300), centuries=Int(-100, 100))
def offset_months(k, y, m, months, years, centuries):
    t = y * 12 + m - 1 + months + 12 * years + 1200 * centuries
    k.requires(k.And(t >= 12, t < 120000))
    d = iso.Date(century=y // 100, year=y % 100, month=m)
    r = d.offset(months=months, years=years, centuries=centuries)
    k.observe(r.century, r.year, r.month)
    k.ensures("month arithmetic", k.And(
        r.year >= 0, r.year <= 99, r.month >= 1, r.month <= 12,
        r.day is None,
        (r.century * 100 + r.year) * 12 + r.month - 1 == t))


@proof('year offsets of year precision dates', y=Int(1, 9999),
       years=Int(-300, 300), centuries=Int(-100, 100))
def offset_years(k, y, years, centuries):
    t = y + years + 100 * centuries
    k.requires(k.And(t >= 1, t <= 9999))
    r = iso.Date(century=y // 100, year=y % 100).offset(
        years=years, centuries=centuries)
    k.ensures("year arithmetic", k.And(
        r.year >= 0, r.year <= 99, r.month is None,
        r.century * 100 + r.year == t))
