"""D05: truncated dates are completed from a base date.

What is left out of a truncated date is taken from the base or, if that would
lie before the base, is one more.  Explicit dates are the subject of D01 to
D04; here a truncated date is compared with the explicit one."""
from pyvc.kit import proof, bounded, Int, Choice, Contract, Bool
from pyslet import iso8601 as iso
from contracts import D01, D02, D04
from contracts.D04 import text
from speclib import cal

Y, M, D = D01.Y, D01.M, D01.D
M_, D_ = Int(-1, 14, corners=[0, 1, 2, 12, 13]), Int(
    -1, 33, corners=[0, 1, 28, 29, 30, 31, 32])
Y_ = Int(-1, 101, corners=[0, 1, 96, 99, 100])
ERRORS = (iso.DateTimeError, ValueError)


def less(k, a, b):
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = k.Or(x < y, k.And(x == y, r))
    return r


def base_date(k, y, m, d):
    k.requires(cal.valid(k, y, m, d))
    return k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
                 week=None)


def outcome(f):
    try:
        return f()
    except ERRORS:
        return None


def wanted(k, r, ok, y, m, d):
    """a result of these fields if they are all right, or else none"""
    if r is None:
        k.ensures("refused for a reason", k.Not(ok))
        return
    k.observe(r.century, r.year, r.month, r.day)
    k.ensures("valid", ok)
    k.ensures("year", r.century * 100 + r.year == y, y)
    k.ensures("year in range", k.And(r.year >= 0, r.year <= 99))
    for got, want in ((r.month, m), (r.day, d)):
        if want is None:
            k.ensures("not given", got is None)
        else:
            k.ensures("given", got == want, want)
    k.ensures("no week", r.week is None)


@proof('a day of the century', by=Y, bm=M, bd=D, y=Y_, m=M_, d=D_)
def century(k, by, bm, bd, y, m, d):
    base = base_date(k, by, bm, bd)
    r = outcome(lambda: iso.Date(year=y, month=m, day=d, base=base))
    full = by // 100 * 100 + y + k.ite(
        less(k, [y, m, d], [by % 100, bm, bd]), 100, 0)
    wanted(k, r, k.And(y >= 0, y <= 99, full >= 1, full <= 9999,
                       cal.valid(k, full, m, d)), full, m, d)


@proof('a month or year of the century', by=Y, bm=M, bd=D, y=Y_, m=M_,
       month=Choice([True, False]))
def reduced_century(k, by, bm, bd, y, m, month):
    base = base_date(k, by, bm, bd)
    if month:
        r = outcome(lambda: iso.Date(year=y, month=m, base=base))
        full = by // 100 * 100 + y + k.ite(
            less(k, [y, m], [by % 100, bm]), 100, 0)
        wanted(k, r, k.And(y >= 0, y <= 99, full >= 1, full <= 9999, m >= 1,
                           m <= 12), full, m, None)
    else:
        r = outcome(lambda: iso.Date(year=y, base=base))
        full = by // 100 * 100 + y + k.ite(y < by % 100, 100, 0)
        wanted(k, r, k.And(y >= 0, y <= 99, full >= 1, full <= 9999), full,
               None, None)


@proof('a day of the year', by=Y, bm=M, bd=D, m=M_, d=D_)
def year(k, by, bm, bd, m, d):
    base = base_date(k, by, bm, bd)
    r = outcome(lambda: iso.Date(month=m, day=d, base=base))
    full = by + k.ite(less(k, [m, d], [bm, bd]), 1, 0)
    wanted(k, r, k.And(full <= 9999, cal.valid(k, full, m, d)), full, m, d)


@proof('a month of the year', by=Y, bm=M, bd=D, m=M_)
def month(k, by, bm, bd, m):
    base = base_date(k, by, bm, bd)
    r = outcome(lambda: iso.Date(month=m, base=base))
    full = by + k.ite(m < bm, 1, 0)
    wanted(k, r, k.And(full <= 9999, m >= 1, m <= 12), full, m, None)


@proof('a day of the month', by=Y, bm=M, bd=D, d=D_)
def day(k, by, bm, bd, d):
    base = base_date(k, by, bm, bd)
    r = outcome(lambda: iso.Date(day=d, base=base))
    late = d < bd
    full = by + k.ite(k.And(late, bm == 12), 1, 0)
    m = k.ite(late, k.ite(bm == 12, 1, bm + 1), bm)
    wanted(k, r, k.And(full <= 9999, cal.valid(k, full, m, d)), full, m, d)


def ordinal_valid(k, y, n):
    return k.And(y >= 1, y <= 9999, n >= 1, n <= cal.year_length(k, y))


def wanted_ordinal(k, r, y, n):
    ok = ordinal_valid(k, y, n)
    if r is None:
        k.ensures("refused for a reason", k.Not(ok))
        return
    k.observe(r.century, r.year, r.month, r.day)
    k.ensures("valid", ok)
    k.ensures("year", r.century * 100 + r.year == y, y)
    k.ensures("year in range", k.And(r.year >= 0, r.year <= 99))
    k.ensures("day", k.And(cal.valid(k, y, r.month, r.day), cal.ordinal(
        k, y, r.month, r.day) == n))


N_ = Int(-1, 368, corners=[0, 1, 59, 60, 61, 365, 366, 367])


def base_ordinal(k, by, bm, bd):
    return k.opaque('ordinal', 'int', D04.ord_def, by // 100, by % 100, bm,
                    bd)


@proof('an ordinal day of the century', by=Y, bm=M, bd=D, y=Y_, n=N_,
       _uses=[D04.GET_ORD])
def ordinal_century(k, by, bm, bd, y, n):
    base = base_date(k, by, bm, bd)
    k.requires(k.And(y >= 0, y <= 99))
    r = outcome(lambda: iso.Date(year=y, ordinal_day=n, base=base))
    full = by // 100 * 100 + y + k.ite(less(
        k, [y, n], [by % 100, base_ordinal(k, by, bm, bd)]), 100, 0)
    wanted_ordinal(k, r, full, n)


@proof('an ordinal day of the year', by=Y, bm=M, bd=D, n=N_,
       _uses=[D04.GET_ORD])
def ordinal_year(k, by, bm, bd, n):
    base = base_date(k, by, bm, bd)
    r = outcome(lambda: iso.Date(ordinal_day=n, base=base))
    full = by + k.ite(n < base_ordinal(k, by, bm, bd), 1, 0)
    wanted_ordinal(k, r, full, n)


# -- weeks ----------------------------------------------------------------------

def post_week(k, r, self):
    c, dec, y, w, wd = r
    full = c * 100 + dec * 10 + y
    return k.And(c >= 0, c <= 99, dec >= 0, dec <= 9, y >= 0, y <= 9,
                 full >= 1, w >= 1, w <= D02.weeks_in(k, full), wd >= 1,
                 wd <= 7)


def k_week(k, self):
    # the same each time: there is only the one date
    if k.get('week') is None:
        k.put('week', tuple([k.fresh('int', x) for x in (
            'c', 'dec', 'y', 'w', 'wd')]))
    return k.get('week')


WEEK_DAY = Contract(
    'pyslet.iso8601:Date.get_week_day', k_week, post=post_week,
    checked_by='D02 get_week_day is the ISO week')
ALL = D02.ALL + [WEEK_DAY]


def same(k, r, x):
    if r is None or x is None:
        k.ensures("both refused", r is None and x is None)
        return
    k.observe(r.century, r.year, r.month, r.week, r.day)
    for a in ('century', 'year', 'month', 'week', 'day'):
        p, q = getattr(r, a), getattr(x, a)
        if p is None or q is None:
            k.ensures(a, p is None and q is None)
        else:
            k.ensures(a, p == q)


def explicit(k, y, w, wd):
    if y > 9999:
        return None
    return outcome(lambda: iso.Date(
        century=y // 100, decade=y // 10 % 10, year=y % 10, week=w,
        weekday=wd))


W_ = Int(-1, 55, corners=[0, 1, 51, 52, 53, 54])
WD_ = Int(-1, 9, corners=[0, 1, 7, 8])


def week_base(k, by, bm, bd):
    base = base_date(k, by, bm, bd)
    k.put('week', None)
    # that it is the ISO week is the subject of D02
    c, dec, y, w, wd = base.get_week_day()
    k.ensures("week year", k.And(dec >= 0, dec <= 9, y >= 0, y <= 9))
    return base, c * 100 + dec * 10 + y, w, wd


@proof('a week of the century', by=Y, bm=M, bd=D, dec=Int(0, 9),
       y=Int(0, 9), w=W_, _uses=ALL)
def week_century(k, by, bm, bd, dec, y, w):
    base, wy, bw, bwd = week_base(k, by, bm, bd)
    r = outcome(lambda: iso.Date(decade=dec, year=y, week=w, base=base))
    yy = dec * 10 + y
    same(k, r, explicit(k, wy // 100 * 100 + yy + k.ite(
        less(k, [yy, w], [wy % 100, bw]), 100, 0), w, None))


@proof('a week of the decade', by=Y, bm=M, bd=D, y=Int(0, 9), w=W_,
       _uses=ALL)
def week_decade(k, by, bm, bd, y, w):
    base, wy, bw, bwd = week_base(k, by, bm, bd)
    r = outcome(lambda: iso.Date(year=y, week=w, base=base))
    same(k, r, explicit(k, wy // 10 * 10 + y + k.ite(
        less(k, [y, w], [wy % 10, bw]), 10, 0), w, None))


@proof('a week of the year', by=Y, bm=M, bd=D, w=W_, _uses=ALL)
def week_year(k, by, bm, bd, w):
    base, wy, bw, bwd = week_base(k, by, bm, bd)
    r = outcome(lambda: iso.Date(week=w, base=base))
    same(k, r, explicit(k, wy + k.ite(w < bw, 1, 0), w, None))


@bounded('a day of a week', 'sampled dates', _samples=9000, by=Y, bm=M, bd=D,
         dec=Int(0, 9), y=Int(0, 9), w=W_, wd=WD_)
def week_days(k, by, bm, bd, dec, y, w, wd):
    base, wy, bw, bwd = week_base(k, by, bm, bd)
    r = outcome(lambda: iso.Date(decade=dec, year=y, week=w, weekday=wd,
                                 base=base))
    yy = dec * 10 + y
    same(k, r, explicit(k, wy // 100 * 100 + yy + (
        100 if (yy, w, wd) < (wy % 100, bw, bwd) else 0), w, wd))
    r = outcome(lambda: iso.Date(year=y, week=w, weekday=wd, base=base))
    same(k, r, explicit(k, wy // 10 * 10 + y + (
        10 if (y, w, wd) < (wy % 10, bw, bwd) else 0), w, wd))
    r = outcome(lambda: iso.Date(week=w, weekday=wd, base=base))
    same(k, r, explicit(k, wy + (1 if (w, wd) < (bw, bwd) else 0), w, wd))
    r = outcome(lambda: iso.Date(weekday=wd, base=base))
    if wd < bwd:
        last = bw == D02.weeks_in(k, wy)
        bw, wy = 1 if last else bw + 1, wy + 1 if last else wy
    same(k, r, explicit(k, wy, bw, wd))


# -- as text ----------------------------------------------------------------------

T = iso.Truncation


@proof('truncated calendar text', by=Y, bm=M, bd=D, y=Y, m=M, d=D,
       form=Choice(list(range(11))))
def calendar_text(k, by, bm, bd, y, m, d, form):
    """written as the standard says, and read as the numbers are"""
    k.requires(cal.valid(k, y, m, d))
    date = base_date(k, y, m, d)
    base = base_date(k, by, bm, bd)
    month_ = k.new(iso.Date, century=y // 100, year=y % 100, month=m,
                   day=None, week=None)
    year_ = k.new(iso.Date, century=y // 100, year=y % 100, month=None,
                  day=None, week=None)
    yy = (y % 100, 2)
    of, basic, t, parts, kw = [
        (date, True, T.Century, [yy, (m, 2), (d, 2)], dict(
            year=y % 100, month=m, day=d)),
        (date, False, T.Century, [yy, '-', (m, 2), '-', (d, 2)], dict(
            year=y % 100, month=m, day=d)),
        (date, True, T.Year, ['--', (m, 2), (d, 2)], dict(month=m, day=d)),
        (date, False, T.Year, ['--', (m, 2), '-', (d, 2)], dict(
            month=m, day=d)),
        (date, True, T.Month, ['---', (d, 2)], dict(day=d)),
        (date, False, T.Month, ['---', (d, 2)], dict(day=d)),
        (month_, True, T.Century, ['-', yy, (m, 2)], dict(
            year=y % 100, month=m)),
        (month_, False, T.Century, ['-', yy, '-', (m, 2)], dict(
            year=y % 100, month=m)),
        (month_, False, T.Year, ['--', (m, 2)], dict(month=m)),
        (month_, True, T.Year, ['--', (m, 2)], dict(month=m)),
        (year_, False, T.Century, ['-', yy], dict(year=y % 100)),
    ][form]
    want = text(k, *parts)
    k.ensures("written", of.get_calendar_string(basic, t) == want, want)
    same(k, outcome(lambda: iso.Date.from_str(want, base)), outcome(
        lambda: iso.Date(base=base, **kw)))


@proof('truncated ordinal text', by=Y, bm=M, bd=D, y=Y, n=Int(1, 366),
       form=Choice(list(range(3))), _symbolic=False, _samples=6000,
       _bounded='sampled dates')
def ordinal_text(k, by, bm, bd, y, n, form):
    k.requires(n <= cal.year_length(k, y))
    date = iso.Date(century=y // 100, year=y % 100, ordinal_day=n)
    base = base_date(k, by, bm, bd)
    yy = (y % 100, 2)
    basic, t, parts, kw = [
        (True, T.Century, [yy, (n, 3)], dict(year=y % 100, ordinal_day=n)),
        (False, T.Century, [yy, '-', (n, 3)], dict(
            year=y % 100, ordinal_day=n)),
        (False, T.Year, ['-', (n, 3)], dict(ordinal_day=n))][form]
    want = text(k, *parts)
    k.ensures("written", date.get_ordinal_string(basic, t) == want, want)
    same(k, outcome(lambda: iso.Date.from_str(want, base)), outcome(
        lambda: iso.Date(base=base, **kw)))


@proof('truncated week text', by=Y, bm=M, bd=D, wy=Int(1, 9998),
       w=Int(1, 53), wd=Int(1, 7), form=Choice(list(range(12))),
       _symbolic=False, _samples=12000, _bounded='sampled dates')
def week_text(k, by, bm, bd, wy, w, wd, form):
    k.requires(w <= D02.weeks_in(k, wy))
    k.requires(wy > 1 or w > 1)
    base = base_date(k, by, bm, bd)
    dec, y = wy // 10 % 10, wy % 10
    date = iso.Date(century=wy // 100, decade=dec, year=y, week=w, weekday=wd)
    week_ = iso.Date(century=wy // 100, decade=dec, year=y, week=w)
    a, b = (dec, 1), (y, 1)
    d1 = dict(decade=dec, year=y, week=w, weekday=wd)
    d2 = dict(year=y, week=w, weekday=wd)
    d3 = dict(week=w, weekday=wd)
    w1, w2 = dict(decade=dec, year=y, week=w), dict(year=y, week=w)
    of, basic, t, parts, kw = [
        (date, True, T.Century, [a, b, 'W', (w, 2), (wd, 1)], d1),
        (date, False, T.Century, [a, b, '-W', (w, 2), '-', (wd, 1)], d1),
        (date, True, T.Decade, ['-', b, 'W', (w, 2), (wd, 1)], d2),
        (date, False, T.Decade, ['-', b, '-W', (w, 2), '-', (wd, 1)], d2),
        (date, True, T.Year, ['-W', (w, 2), (wd, 1)], d3),
        (date, False, T.Year, ['-W', (w, 2), '-', (wd, 1)], d3),
        (date, False, T.Week, ['-W-', (wd, 1)], dict(weekday=wd)),
        (week_, True, T.Century, [a, b, 'W', (w, 2)], w1),
        (week_, False, T.Century, [a, b, '-W', (w, 2)], w1),
        (week_, True, T.Decade, ['-', b, 'W', (w, 2)], w2),
        (week_, False, T.Decade, ['-', b, '-W', (w, 2)], w2),
        (week_, False, T.Year, ['-W', (w, 2)], dict(week=w))][form]
    want = text(k, *parts)
    k.ensures("written", of.get_week_string(basic, t) == want, want)
    same(k, outcome(lambda: iso.Date.from_str(want, base)), outcome(
        lambda: iso.Date(base=base, **kw)))


# -- times ------------------------------------------------------------------------

H, MI, S = Int(0, 23), Int(0, 59), Int(0, 59)
S_ = Int(-1, 61, corners=[0, 59, 60])


@proof('a time within the hour or the minute', bh=H, bmi=MI, bs=Int(0, 60),
       zd=Choice([None, -1, 0, 1]), zh=H, zm=MI, mi=Int(-1, 61, corners=[
           0, 59, 60]), s=S_, form=Choice([0, 1, 2]))
def times(k, bh, bmi, bs, zd, zh, zm, mi, s, form):
    base = iso.Time(hour=bh, minute=bmi, second=bs, zdirection=zd, zhour=zh,
                    zminute=zm)
    if form == 0:
        r = outcome(lambda: base.extend(minute=mi, second=s))
        late = less(k, [mi, s], [bmi, bs])
        ok = k.And(mi >= 0, mi <= 59, s >= 0, s <= 60)
    elif form == 1:
        r = outcome(lambda: base.extend(minute=mi))
        late = mi < bmi
        ok = k.And(mi >= 0, mi <= 59)
    else:
        r = outcome(lambda: base.extend(second=s))
        late = s < bs
        ok = k.And(s >= 0, s <= 60)
    if r is None:
        k.ensures("refused for a reason", k.Not(ok))
        return
    t, days = r
    k.observe(t.hour, t.minute, t.second, days)
    k.ensures("valid", ok)
    k.ensures("the second is as given", t.second is None if form == 1
              else t.second == s)
    unit = 1 if form == 2 else 60
    start = bh * 60 + (bmi if form == 2 else 0)
    minute = t.minute - (0 if form == 2 else mi)
    k.ensures("the rest is that of the base or the next", k.And(
        t.hour >= 0, t.hour <= 23, t.minute >= 0, t.minute <= 59,
        1440 * days + 60 * t.hour + minute == start + k.ite(late, unit, 0)))
    k.ensures("the zone is that of the base", k.And(
        t.zdirection == zd, t.get_zone_offset() == base.get_zone_offset()))


@proof('a time in full has nothing of the base but its zone', bh=H, bmi=MI,
       bs=Int(0, 60), zd=Choice([None, -1, 0, 1]), zh=H, zm=MI, h=H, mi=MI,
       s=S)
def times_full(k, bh, bmi, bs, zd, zh, zm, h, mi, s):
    base = iso.Time(hour=bh, minute=bmi, second=bs, zdirection=zd, zhour=zh,
                    zminute=zm)
    t, days = base.extend(hour=h, minute=mi, second=s)
    k.ensures("kept", k.And(days == 0, t.hour == h, t.minute == mi,
                            t.second == s, t.zdirection == zd,
                            t.get_zone_offset() == base.get_zone_offset()))
    t, days = base.extend(hour=h)
    k.ensures("hour", k.And(days == 0, t.hour == h, t.minute is None,
                            t.second is None))


@proof('truncated time text', bh=H, bmi=MI, bs=S, h=H, mi=MI,
       s=Int(0, 60), form=Choice(list(range(4))), basic=Bool())
def times_text(k, bh, bmi, bs, h, mi, s, form, basic):
    base = iso.Time(hour=bh, minute=bmi, second=bs)
    t = iso.Time(hour=h, minute=mi, second=s)
    parts, f, kw = [
        (['-', (mi, 2), '' if basic else ':', (s, 2)], T.Hour,
         dict(minute=mi, second=s)),
        (['--', (s, 2)], T.Minute, dict(second=s)),
        (['-', (mi, 2)], T.Hour, dict(minute=mi)),
        ([(h, 2)], T.No, dict(hour=h))][form]
    if form == 2:
        t = iso.Time(hour=h, minute=mi)
    if form == 3:
        t = iso.Time(hour=h)
    want = text(k, *parts)
    k.ensures("written", t.get_string(basic=basic, truncation=f) == want,
              want)
    r = iso.Time.from_string_format(want, base)
    x = base.extend(**kw)
    k.ensures("read", k.And(
        r[0].hour == x[0].hour, r[0].minute == x[0].minute,
        r[0].second == x[0].second, r[1] == x[1]), want)
