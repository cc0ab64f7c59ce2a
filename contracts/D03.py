"""D03: time arithmetic and zones."""
from pyvc.kit import proof, Int, Choice, Contract
from pyslet import iso8601 as iso
from contracts import D01

Y, M, D = D01.Y, D01.M, D01.D
H, MI, S = Int(0, 23), Int(0, 59), Int(0, 59)
ZD, ZH, ZM = Choice([-1, 0, 1]), Int(0, 23), Int(0, 59)


def off(zd, zh, zm):
    """minutes east of UTC"""
    return zd * (60 * zh + zm)


def secs(h, m, s):
    return 3600 * h + 60 * m + s


@proof('Time.offset by hours, minutes and seconds', h=H, m=MI, s=S,
       hours=Int(-10000, 10000), minutes=Int(-10 ** 6, 10 ** 6),
       seconds=Int(-10 ** 12, 10 ** 12, corners=[
           86400, -86400, 86399, 59, 60, 3599, 3600]), zd=ZD, zh=ZH, zm=ZM)
def offset(k, h, m, s, hours, minutes, seconds, zd, zh, zm):
    t = iso.Time(hour=h, minute=m, second=s, zdirection=zd, zhour=zh,
                 zminute=zm)
    r, days = t.offset(hours=hours, minutes=minutes, seconds=seconds)
    k.observe(r.hour, r.minute, r.second, days)
    k.ensures("fields in range", k.And(
        r.hour >= 0, r.hour <= 23, r.minute >= 0, r.minute <= 59,
        r.second >= 0, r.second <= 59))
    k.ensures("that many seconds later",
              86400 * days + secs(r.hour, r.minute, r.second) ==
              secs(h, m, s) + seconds + 60 * minutes + 3600 * hours,
              r.hour, r.minute, r.second, days)
    k.ensures("zone kept", k.And(r.zdirection == zd,
                                 r.get_zone_offset() == off(zd, zh, zm)))


@proof('Time.offset without bounds on the offset', h=H, m=MI, s=S,
       seconds=Int())
def offset_unbounded(k, h, m, s, seconds):
    r, days = iso.Time(hour=h, minute=m, second=s).offset(seconds=seconds)
    k.ensures("that many seconds later", k.And(
        r.hour >= 0, r.hour <= 23, r.minute >= 0, r.minute <= 59,
        r.second >= 0, r.second <= 59, r.zdirection is None,
        86400 * days + secs(r.hour, r.minute, r.second) ==
        secs(h, m, s) + seconds))


@proof('minute and hour precision offsets', h=H, m=MI, hours=Int(),
       minutes=Int())
def offset_precision(k, h, m, hours, minutes):
    r, days = iso.Time(hour=h, minute=m).offset(hours=hours, minutes=minutes)
    k.ensures("minute precision", k.And(
        r.second is None, r.hour >= 0, r.hour <= 23, r.minute >= 0,
        r.minute <= 59, 1440 * days + 60 * r.hour + r.minute ==
        60 * h + m + 60 * hours + minutes))
    r, days = iso.Time(hour=h).offset(hours=hours)
    k.ensures("hour precision", k.And(
        r.second is None, r.minute is None, r.hour >= 0, r.hour <= 23,
        24 * days + r.hour == h + hours))


@proof('total seconds of a time and back', n=Int(0, 86399))
def total(k, n):
    t = iso.Time(total_seconds=n)
    k.observe(t.hour, t.minute, t.second)
    k.ensures("fields in range", k.And(
        t.hour >= 0, t.hour <= 23, t.minute >= 0, t.minute <= 59,
        t.second >= 0, t.second <= 59))
    k.ensures("round trip", k.And(t.get_total_seconds() == n,
                                  secs(t.hour, t.minute, t.second) == n))


@proof('total seconds outside the day are refused', n=Int())
def total_bad(k, n):
    k.requires(k.Or(n < 0, n >= 86400))
    try:
        iso.Time(total_seconds=n)
        k.fail("accepted", n)
    except iso.DateTimeError:
        k.ensures("refused", True)


@proof('get_total_seconds', h=H, m=MI, s=Int(0, 60))
def get_total(k, h, m, s):
    t = iso.Time(hour=h, minute=m, second=s)
    k.ensures("seconds since midnight, a leap second is not counted",
              t.get_total_seconds() == secs(h, m, k.ite(s == 60, 59, s)))


@proof('out of range times are refused', h=Int(-5, 30), m=Int(-5, 70),
       s=Int(-5, 70))
def bad_time(k, h, m, s):
    ok = k.And(h >= 0, m >= 0, s >= 0, m <= 59, s <= 60, k.Or(
        h <= 23, k.And(h == 24, m == 0, s == 0)))
    try:
        t = iso.Time(hour=h, minute=m, second=s)
    except iso.DateTimeError:
        k.ensures("only out of range times are refused", k.Not(ok), h, m, s)
        return
    k.ensures("out of range times are refused", ok, h, m, s)
    k.ensures("kept", t.get_time() == (h, m, s))


@proof('out of range zones are refused', zd=Int(-3, 3), zh=Int(0, 40),
       zm=Int(0, 59))
def bad_zone(k, zd, zh, zm):
    ok = k.And(zd >= -1, zd <= 1, k.Or(zd == 0, zh <= 23))
    try:
        t = iso.Time(hour=1, minute=2, second=3, zdirection=zd, zhour=zh,
                     zminute=zm)
    except iso.DateTimeError:
        k.ensures("only out of range zones are refused", k.Not(ok))
        return
    k.ensures("out of range zones are refused", ok)
    k.ensures("offset in minutes", t.get_zone_offset() == off(zd, zh, zm))
    a, b, c = t.get_zone3()
    k.ensures("zone3", k.And(a == zd, off(a, b, c) == off(zd, zh, zm),
                             b >= 0, c >= 0, c <= 59))
    a, b, c = t.get_canonical_zone()
    k.ensures("canonical zone", k.And(
        off(a, b, c) == off(zd, zh, zm),
        k.Iff(a == 0, off(zd, zh, zm) == 0)))


@proof('Time.shift_zone keeps the instant', h=Int(0, 24), m=MI, s=S, zd=ZD,
       zh=ZH, zm=ZM, zd2=ZD, zh2=ZH, zm2=ZM)
def shift(k, h, m, s, zd, zh, zm, zd2, zh2, zm2):
    k.requires(k.Or(h < 24, k.And(m == 0, s == 0)))
    t = iso.Time(hour=h, minute=m, second=s, zdirection=zd, zhour=zh,
                 zminute=zm)
    r, days = t.shift_zone(zd2, zh2, zm2)
    k.observe(r.hour, r.minute, r.second, days)
    k.ensures("fields in range", k.And(
        r.hour >= 0, r.hour <= 23, r.minute >= 0, r.minute <= 59))
    k.ensures("zone requested", r.get_zone_offset() == off(zd2, zh2, zm2))
    k.ensures("same instant",
              86400 * days + secs(r.hour, r.minute, r.second) -
              60 * off(zd2, zh2, zm2) ==
              secs(h, m, s) - 60 * off(zd, zh, zm),
              r.hour, r.minute, r.second, days)
    k.ensures("original unchanged", k.And(
        t.hour == h, t.minute == m, t.second == s,
        t.get_zone_offset() == off(zd, zh, zm)))


@proof('Time.shift_zone at minute precision', h=H, m=MI, zd=ZD,
       zh=ZH, zm=ZM, zd2=ZD, zh2=ZH, zm2=ZM)
def shift_minute(k, h, m, zd, zh, zm, zd2, zh2, zm2):
    t = iso.Time(hour=h, minute=m, zdirection=zd, zhour=zh, zminute=zm)
    r, days = t.shift_zone(zd2, zh2, zm2)
    k.ensures("same instant", k.And(
        r.second is None, r.hour >= 0, r.hour <= 23, r.minute >= 0,
        r.minute <= 59, 1440 * days + 60 * r.hour + r.minute -
        off(zd2, zh2, zm2) == 60 * h + m - off(zd, zh, zm)))


def point(k, y, m, d, h, mi, s, zd, zh, zm):
    date = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
                 week=None)
    t = iso.Time(hour=h, minute=mi, second=s, zdirection=zd, zhour=zh,
                 zminute=zm)
    return k.new(iso.TimePoint, date=date, time=t)


def instant(k, tp):
    """seconds, counted from the start of day 0, UTC"""
    d = tp.date
    return (86400 * D01.DAYNUM(k, d.century * 100 + d.year, d.month, d.day) +
            secs(tp.time.hour, tp.time.minute, tp.time.second) -
            60 * tp.time.get_zone_offset())


TP = [D01.SET_ABS, D01.GET_ABS, D01.CHECK]
date_facts = D01.date_facts


@proof('TimePoint.shift_zone keeps the instant', y=Y, mo=M, d=D, h=H, m=MI,
       s=S, zd=ZD, zh=ZH, zm=ZM, zd2=ZD, zh2=ZH, zm2=ZM, _uses=TP)
def shift_tp(k, y, mo, d, h, m, s, zd, zh, zm, zd2, zh2, zm2):
    k.requires(D01.DVALID(k, y, mo, d))
    date_facts(k, y, mo, d)
    n = D01.DAYNUM(k, y, mo, d)
    k.requires(k.And(n > 3, n < 3652056))
    tp = point(k, y, mo, d, h, m, s, zd, zh, zm)
    r = tp.shift_zone(zd2, zh2, zm2)
    k.observe(r.time.hour, r.date.day)
    k.ensures("zone requested",
              r.time.get_zone_offset() == off(zd2, zh2, zm2))
    k.ensures("same instant", instant(k, r) == instant(k, tp))
    k.ensures("a valid date", D01.DVALID(
        k, r.date.century * 100 + r.date.year, r.date.month, r.date.day))
    k.ensures("fields in range", k.And(
        r.time.hour >= 0, r.time.hour <= 23, r.time.minute >= 0,
        r.time.minute <= 59))


def order_lemma(k, a, b):
    """earlier date, smaller day count (D01)"""
    ya, yb = a.century * 100 + a.year, b.century * 100 + b.year
    na = D01.DAYNUM(k, ya, a.month, a.day)
    nb = D01.DAYNUM(k, yb, b.month, b.day)
    k.use_lemma('day counts of distinct dates differ (D01)', k.Implies(
        k.And(D01.DVALID(k, ya, a.month, a.day),
              D01.DVALID(k, yb, b.month, b.day)),
        k.Iff(na < nb, k.Or(ya < yb, k.And(ya == yb, k.Or(
            a.month < b.month, k.And(a.month == b.month, a.day < b.day)))))))
    k.use_lemma('day counts of distinct dates differ (D01)', k.Implies(
        k.And(D01.DVALID(k, ya, a.month, a.day),
              D01.DVALID(k, yb, b.month, b.day)),
        k.Iff(nb < na, k.Or(yb < ya, k.And(ya == yb, k.Or(
            b.month < a.month, k.And(a.month == b.month, b.day < a.day)))))))


def utc(k, tp):
    return tp.shift_zone(zdirection=0)


@proof('zoned time points in UTC compare as their instants', y=Y, mo=M, d=D,
       h=H, m=MI, s=S, y2=Y, mo2=M, d2=D, h2=H, m2=MI, s2=S,
       z1=Choice([0, 1, -1]), z2=Choice([0, 1, -1]), _uses=TP)
def compare_utc(k, y, mo, d, h, m, s, y2, mo2, d2, h2, m2, s2, z1, z2):
    k.requires(k.And(D01.DVALID(k, y, mo, d), D01.DVALID(k, y2, mo2, d2)))
    a = point(k, y, mo, d, h, m, s, z1, 0, 0)
    b = point(k, y2, mo2, d2, h2, m2, s2, z2, 0, 0)
    order_lemma(k, a.date, b.date)
    i, j = instant(k, a), instant(k, b)
    k.ensures("equal", k.Iff(a == b, i == j))
    k.ensures("less", k.Iff(a < b, i < j))
    k.ensures("less or equal", k.Iff(a <= b, i <= j))
    k.ensures("greater", k.Iff(a > b, i > j))
    if a == b:
        k.ensures("equal values hash equally", hash(a) == hash(b))


@proof('the sort key of a zoned time point is that of its UTC form',
       y=Y, mo=M, d=D, h=H, m=MI, s=S, zd=ZD, zh=ZH, zm=ZM, _uses=TP)
def sortkey(k, y, mo, d, h, m, s, zd, zh, zm):
    k.requires(D01.DVALID(k, y, mo, d))
    date_facts(k, y, mo, d)
    n = D01.DAYNUM(k, y, mo, d)
    k.requires(k.And(n > 3, n < 3652056))
    a = point(k, y, mo, d, h, m, s, zd, zh, zm)
    key = a.sortkey()
    c, yy, mm, w, dd, hh, mi, ss, zz = key
    k.ensures("the instant of the key is the instant", k.And(
        w is None, zz == 0, hh >= 0, hh <= 23, mi >= 0, mi <= 59, ss == s,
        D01.DVALID(k, c * 100 + yy, mm, dd), yy >= 0, yy <= 99,
        86400 * D01.DAYNUM(k, c * 100 + yy, mm, dd) + secs(hh, mi, ss) ==
        instant(k, a)))


ZONES = [(-1, 23, 59), (-1, 12, 0), (-1, 5, 30), (-1, 0, 1), (0, 0, 0),
         (1, 0, 0), (1, 0, 30), (1, 5, 45), (1, 14, 0), (1, 23, 59)]


@proof('zoned time points compare as their instants', y=Y, mo=M, d=D, h=H,
       m=MI, s=S, delta=Int(-200000, 200000, corners=[
           0, 1, -1, 60, -60, 3600, -3600, 86400, -86400]),
       z1=Choice(ZONES), z2=Choice(ZONES), _symbolic=False, _samples=4000,
       _bounded='sampled pairs; follows from the two contracts above')
def compare(k, y, mo, d, h, m, s, delta, z1, z2):
    k.requires(D01.DVALID(k, y, mo, d))
    n = D01.DAYNUM(k, y, mo, d)
    k.requires(10 < n < 3652040)
    a = iso.TimePoint(
        date=iso.Date(century=y // 100, year=y % 100, month=mo, day=d),
        time=iso.Time(hour=h, minute=m, second=s, zdirection=z1[0],
                      zhour=z1[1], zminute=z1[2]))
    u = instant(k, a) + delta + 60 * off(*z2)
    b = iso.TimePoint(
        date=iso.Date(absolute_day=u // 86400),
        time=iso.Time(hour=u % 86400 // 3600, minute=u % 3600 // 60,
                      second=u % 60, zdirection=z2[0],
                      zhour=z2[1], zminute=z2[2]))
    k.ensures("order", ((a < b), (a == b), (a > b)) ==
              (delta > 0, delta == 0, delta < 0))
    if a == b:
        k.ensures("hash", hash(a) == hash(b))


@proof('from_unix_time then get_unixtime is the identity',
       n=Int(0, 253402300799, corners=[
           0, 1, 59, 60, 86399, 86400, 951782400, 1456704000, 4102444800,
           253402300799]), _uses=TP)
def unix(k, n):
    tp = iso.TimePoint.from_unix_time(n)
    k.observe(tp.time.hour, tp.time.second, tp.date.day)
    k.ensures("in UTC", tp.time.get_zone_offset() == 0)
    k.ensures("the instant", instant(k, tp) ==
              86400 * 719163 + n)
    k.ensures("identity", tp.get_unixtime() == n)


@proof('get_unixtime is the instant', y=Int(1970, 9999), mo=M, d=D, h=H,
       m=MI, s=S, zd=ZD, zh=ZH, zm=ZM, _uses=TP)
def get_unix(k, y, mo, d, h, m, s, zd, zh, zm):
    k.requires(D01.DVALID(k, y, mo, d))
    date_facts(k, y, mo, d)
    n = D01.DAYNUM(k, y, mo, d)
    k.requires(k.And(n > 3, n < 3652056))
    tp = point(k, y, mo, d, h, m, s, zd, zh, zm)
    k.ensures("seconds since the epoch",
              tp.get_unixtime() == instant(k, tp) - 86400 * 719163)
