"""D04: ISO 8601 text.

The text of every form is spelled out digit by digit here; formatting must
produce it and parsing it must give what the constructor gives for the same
numbers (what the constructor accepts is the subject of D01 to D03)."""
import random
import re

from pyvc.kit import proof, bounded, Int, Choice, Bool, Contract, Str, StrN, Tup
from pyslet import iso8601 as iso
from contracts import D01, D02

Y, M, D = D01.Y, D01.M, D01.D
H, MI, S = Int(0, 23), Int(0, 59), Int(0, 59)
CHECK = D01.CHECK


def digits(k, n, width):
    return [48 + n // 10 ** i % 10 for i in range(width - 1, -1, -1)]


def text(k, *parts):
    """text('2015-', (n, width), ...)"""
    codes = []
    for p in parts:
        if isinstance(p, str):
            codes = codes + [ord(c) for c in p]
        else:
            codes = codes + digits(k, p[0], p[1])
    return k.text('str', *codes)


def build(**kw):
    """the constructor, None when it refuses"""
    try:
        return iso.Date(**kw)
    except iso.DateTimeError:
        return None


def parse(s):
    try:
        return iso.Date.from_str(s)
    except (iso.DateTimeError, ValueError):
        return None


def same(k, a, b):
    if a is None or b is None:
        return a is None and b is None
    return k.And(a.century == b.century, a.year == b.year,
                 a.month == b.month, a.day == b.day, a.week == b.week)


@proof('calendar dates round trip', y=Y, m=M, d=D, basic=Bool(),
       _uses=[CHECK])
def calendar(k, y, m, d, basic):
    k.requires(D01.DVALID(k, y, m, d))
    D01.date_facts(k, y, m, d)
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
              week=None)
    h = '' if basic else '-'
    s = a.get_calendar_string(basic=basic)
    k.observe(s)
    k.ensures("text", s == text(k, (y, 4), h, (m, 2), h, (d, 2)), s)
    b, f = iso.Date.from_string_format(s)
    k.ensures("parses to the same date", same(k, a, b), b)
    k.ensures("format name", f == ('YYYYMMDD' if basic else 'YYYY-MM-DD'))
    k.ensures("equal", a == b)
    if not basic:
        k.ensures("str is the extended form", str(a) == s)


@proof('reduced calendar forms round trip', y=Y, m=M, c=Int(0, 99))
def reduced(k, y, m, c):
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=None,
              week=None)
    s = a.get_calendar_string()
    k.ensures("YYYY-MM", s == text(k, (y, 4), '-', (m, 2)))
    k.ensures("month", same(k, a, iso.Date.from_str(s)))
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=None, day=None,
              week=None)
    s = a.get_calendar_string()
    k.ensures("YYYY", s == text(k, (y, 4)))
    k.ensures("year", same(k, a, iso.Date.from_str(s)))
    a = k.new(iso.Date, century=c, year=None, month=None, day=None, week=None)
    s = a.get_calendar_string()
    k.ensures("YY", s == text(k, (c, 2)))
    k.ensures("century", same(k, a, iso.Date.from_str(s)))


@proof('digit text is read as the constructor reads the numbers',
       y=Int(0, 9999, corners=[0, 1, 1900, 2000]),
       m=Int(0, 99, corners=[0, 1, 2, 4, 12, 13]),
       d=Int(0, 99, corners=[0, 1, 28, 29, 30, 31, 32]), basic=Bool(),
       _uses=[CHECK])
def calendar_text(k, y, m, d, basic):
    h = '' if basic else '-'
    r = parse(text(k, (y, 4), h, (m, 2), h, (d, 2)))
    ok = D01.DVALID(k, y, m, d)
    D01.date_facts(k, y, m, d)
    if r is None:
        k.ensures("only bad dates are rejected", k.Not(ok), y, m, d)
    else:
        k.ensures("bad dates are rejected", ok, y, m, d)
        k.ensures("read as written", k.And(
            r.century * 100 + r.year == y, r.month == m, r.day == d))


@proof('month and year text', y=Int(0, 9999, corners=[0, 1, 1900, 2000]),
       m=Int(0, 99, corners=[0, 1, 2, 12, 13]))
def reduced_text(k, y, m):
    r = parse(text(k, (y, 4), '-', (m, 2)))
    if r is None:
        k.ensures("only bad months are rejected",
                  k.Or(y == 0, m < 1, m > 12))
    else:
        k.ensures("bad months are rejected", k.And(
            y >= 1, m >= 1, m <= 12, r.century * 100 + r.year == y,
            r.month == m, r.day is None))
    r = parse(text(k, (y, 4)))
    if r is None:
        k.ensures("only year zero is rejected", y == 0)
    else:
        k.ensures("year zero is rejected", k.And(
            y >= 1, r.century * 100 + r.year == y, r.month is None))


def post_ord(k, r, self):
    c, y, n = r
    return k.And(c == self.century, y == self.year, n == k.opaque(
        'ordinal', 'int', ord_def, self.century, self.year, self.month,
        self.day), n >= 1, n <= 366)


def ord_def(k, c, y, m, d):
    from speclib import cal
    return cal.ordinal(k, c * 100 + y, m, d)


GET_ORD = Contract('pyslet.iso8601:Date.get_ordinal_day',
                   Tup(Int(0, 99), Int(0, 99), Int(1, 366)),
                   post=post_ord, checked_by='D04 get_ordinal_day contract')


@proof('get_ordinal_day contract', y=Y, m=M, d=D)
def get_ord(k, y, m, d):
    from speclib import cal
    k.reveal('ordinal')
    k.requires(cal.valid(k, y, m, d))
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
              week=None)
    k.ensures("contract", post_ord(k, a.get_ordinal_day(), a))


@proof('ordinal dates are written as their ordinal', y=Y, m=M, d=D,
       basic=Bool(), _uses=[GET_ORD])
def ordinal(k, y, m, d, basic):
    k.requires(D01.DVALID(k, y, m, d))
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
              week=None)
    c, yy, n = a.get_ordinal_day()
    s = a.get_ordinal_string(basic=basic)
    k.observe(s)
    k.ensures("text", s == text(k, (y, 4), '' if basic else '-', (n, 3)), s)


@proof('ordinal text is read as the constructor reads the numbers',
       y=Int(0, 9999, corners=[0, 1, 1900, 2000]),
       n=Int(0, 999, corners=[0, 1, 59, 60, 61, 365, 366, 367]),
       basic=Bool())
def ordinal_text(k, y, n, basic):
    k.reveal('leap')
    s = text(k, (y, 4), '' if basic else '-', (n, 3))
    r = parse(s)
    e = build(century=y // 100, year=y % 100, ordinal_day=n)
    k.ensures("same as the constructor", same(k, r, e), s, r)
    if r is not None:
        k.ensures("bad ordinals are rejected", k.And(
            n >= 1, n <= k.ite(D02.LEAP(k, y), 366, 365)))


@proof('week dates are written as their week', y=Y, m=M, d=D,
       basic=Bool(), _uses=D02.ALL)
def week(k, y, m, d, basic):
    k.requires(D02.vdate(k, y, m, d))
    D02.years_about(k, y)
    a = k.new(iso.Date, century=y // 100, year=y % 100, month=m, day=d,
              week=None)
    c, dec, yy, w, wd = a.get_week_day()
    wy = c * 100 + dec * 10 + yy
    k.requires(k.And(wy >= 1, wy <= 9999))
    h = '' if basic else '-'
    s = a.get_week_string(basic=basic)
    k.observe(s)
    k.ensures("text", s == text(k, (wy, 4), h + 'W', (w, 2), h, (wd, 1)), s)


@proof('week text is read as the constructor reads the numbers',
       y=Int(0, 9999, corners=[0, 1, 1900, 2000, 9999]),
       w=Int(0, 99, corners=[0, 1, 52, 53, 54]),
       wd=Int(0, 9, corners=[0, 1, 7, 8]), basic=Bool(), full=Bool(),
       _uses=D02.ALL)
def week_text(k, y, w, wd, basic, full):
    h = '' if basic else '-'
    c, dec, yy = y // 100, y // 10 % 10, y % 10
    if full:
        s = text(k, (y, 4), h + 'W', (w, 2), h, (wd, 1))
        e = build(century=c, decade=dec, year=yy, week=w, weekday=wd)
    else:
        s = text(k, (y, 4), h + 'W', (w, 2))
        e = build(century=c, decade=dec, year=yy, week=w)
    r = parse(s)
    k.ensures("same as the constructor", same(k, r, e), s, r)
    if r is not None:
        k.ensures("bad weeks are rejected", k.And(
            w >= 1, w <= 53, k.Or(not full, k.And(wd >= 1, wd <= 7))))
        if not full:
            t = r.get_week_string(basic=basic)
            k.ensures("written back", t == s)


def mktime(h, m, s, zd, zh, zm):
    return iso.Time(hour=h, minute=m, second=s, zdirection=zd, zhour=zh,
                    zminute=zm)


def zone_text(k, basic, zd, zh, zm):
    if zd is None:
        return ''
    if zd == 0:
        return 'Z'
    return text(k, '+' if zd > 0 else '-', (zh, 2), '' if basic else ':',
                (zm, 2))


@proof('times round trip', h=H, m=MI, s=Int(0, 60), basic=Bool(),
       zd=Choice([None, -1, 0, 1]), zh=Int(0, 23), zm=Int(0, 59))
def times(k, h, m, s, basic, zd, zh, zm):
    t = mktime(h, m, s, zd, zh, zm)
    x = t.get_string(basic=basic)
    k.observe(x)
    c = '' if basic else ':'
    z = zone_text(k, basic, zd, zh, zm)
    k.ensures("text", x == k.cat(text(k, (h, 2), c, (m, 2), c, (s, 2)), z),
              x)
    r = iso.Time.from_str(x)
    k.ensures("same time", k.And(
        r.hour == h, r.minute == m, r.second == s, r.zdirection == zd,
        r.get_zone_offset() == t.get_zone_offset()))
    k.ensures("equal", r == t)


@proof('minute and hour precision times round trip', h=H, m=MI,
       basic=Bool(), zd=Choice([None, -1, 0, 1]), zh=Int(0, 23),
       zm=Int(0, 59))
def times_reduced(k, h, m, basic, zd, zh, zm):
    z = zone_text(k, basic, zd, zh, zm)
    t = mktime(h, m, None, zd, zh, zm)
    x = t.get_string(basic=basic)
    k.ensures("hh:mm", x == k.cat(text(
        k, (h, 2), '' if basic else ':', (m, 2)), z), x)
    r = iso.Time.from_str(x)
    k.ensures("same time", k.And(
        r.hour == h, r.minute == m, r.second is None, r.zdirection == zd,
        r.get_zone_offset() == t.get_zone_offset()))
    t = mktime(h, None, None, None, 0, 0)
    x = t.get_string(basic=basic)
    k.ensures("hh", x == text(k, (h, 2)))
    r = iso.Time.from_str(x)
    k.ensures("same hour", k.And(r.hour == h, r.minute is None,
                                 r.second is None, r.zdirection is None))


@proof('time text with components out of range is rejected',
       h=Int(0, 99, corners=[0, 23, 24, 25]),
       m=Int(0, 99, corners=[0, 59, 60]), s=Int(0, 99, corners=[
           0, 59, 60, 61]), basic=Bool())
def time_text(k, h, m, s, basic):
    c = '' if basic else ':'
    x = text(k, (h, 2), c, (m, 2), c, (s, 2))
    ok = k.Or(k.And(h <= 23, m <= 59, s <= 60), k.And(h == 24, m == 0,
                                                      s == 0))
    try:
        r = iso.Time.from_str(x)
    except (iso.DateTimeError, ValueError):
        k.ensures("only bad times are rejected", k.Not(ok), x)
        return
    k.ensures("bad times are rejected", ok, x)
    k.ensures("read as written", k.And(
        r.hour == h, r.minute == m, r.second == s, r.zdirection is None))


@proof('zone text with components out of range is rejected', h=H, m=MI,
       zd=Choice([-1, 1]), zh=Int(0, 99, corners=[0, 23, 24]),
       zm=Int(0, 99, corners=[0, 59, 60]), basic=Bool())
def zone_bad(k, h, m, zd, zh, zm, basic):
    c = '' if basic else ':'
    x = k.cat(text(k, (h, 2), c, (m, 2)), zone_text(k, basic, zd, zh, zm))
    ok = k.And(zh <= 23, zm <= 59)
    try:
        r = iso.Time.from_str(x)
    except (iso.DateTimeError, ValueError):
        k.ensures("only bad zones are rejected", k.Not(ok), x)
        return
    k.ensures("bad zones are rejected", ok, x)
    k.ensures("read as written", r.get_zone_offset() ==
              zd * (60 * zh + zm))


@proof('time points round trip', y=Y, mo=M, d=D, h=H, m=MI, s=S,
       basic=Bool(), zd=Choice([None, -1, 0, 1]), zh=Int(0, 23),
       zm=Int(0, 59), _uses=[CHECK])
def points(k, y, mo, d, h, m, s, basic, zd, zh, zm):
    k.requires(D01.DVALID(k, y, mo, d))
    D01.date_facts(k, y, mo, d)
    date = k.new(iso.Date, century=y // 100, year=y % 100, month=mo, day=d,
                 week=None)
    tp = k.new(iso.TimePoint, date=date, time=mktime(h, m, s, zd, zh, zm))
    x = tp.get_calendar_string(basic=basic)
    k.observe(x)
    g, c = ('', '') if basic else ('-', ':')
    k.ensures("text", x == k.cat(text(
        k, (y, 4), g, (mo, 2), g, (d, 2), 'T', (h, 2), c, (m, 2), c, (s, 2)),
        zone_text(k, basic, zd, zh, zm)), x)
    r = iso.TimePoint.from_str(x)
    k.ensures("same date", same(k, r.date, date))
    k.ensures("same time", k.And(
        r.time.hour == h, r.time.minute == m, r.time.second == s,
        r.time.zdirection == zd,
        r.time.get_zone_offset() == tp.time.get_zone_offset()))


@proof('time points in ordinal and week form', y=Y, m=M, d=D, h=H, mi=MI,
       s=S, basic=Bool(), _symbolic=False, _samples=3000,
       _bounded='sampled time points; the parts have their own contracts')
def points_other(k, y, m, d, h, mi, s, basic):
    k.requires(D01.DVALID(k, y, m, d))
    tp = iso.TimePoint(date=D01.mkdate(y, m, d),
                       time=mktime(h, mi, s, 0, 0, 0))
    x = tp.get_ordinal_string(basic=basic)
    k.ensures("ordinal form", iso.TimePoint.from_str(x) == tp, x)
    k.requires(1 < y < 9999)
    x = tp.get_week_string(basic=basic)
    k.ensures("week form", iso.TimePoint.from_str(x) == tp, x)


@proof('mixed basic and extended time points are rejected', y=Y, m=M, d=D,
       h=H, mi=MI, s=S, basic=Bool(), _uses=[CHECK])
def points_mixed(k, y, m, d, h, mi, s, basic):
    g, c = ('', ':') if basic else ('-', '')
    x = text(k, (y, 4), g, (m, 2), g, (d, 2), 'T', (h, 2), c, (mi, 2), c,
             (s, 2))
    try:
        iso.TimePoint.from_str(x)
        k.fail("accepted", x)
    except (iso.DateTimeError, ValueError):
        k.ensures("rejected", True)


@proof('a time point needs a complete date', c=Int(0, 99), y=Y, m=M,
       form=Choice([0, 1, 2]), h=H, mi=MI)
def points_incomplete(k, c, y, m, form, h, mi):
    x = text(k, (c, 2), 'T', (h, 2), ':', (mi, 2)) if form == 0 else \
        text(k, (y, 4), 'T', (h, 2), ':', (mi, 2)) if form == 1 else \
        text(k, (y, 4), '-', (m, 2), 'T', (h, 2), ':', (mi, 2))
    try:
        iso.TimePoint.from_str(x)
        k.fail("accepted", x)
    except (iso.DateTimeError, ValueError):
        k.ensures("rejected", True)
    date = iso.Date(century=y // 100, year=y % 100, month=m) if form \
        else iso.Date(century=y // 100)
    try:
        iso.TimePoint(date=date, time=iso.Time(hour=h, minute=mi))
        k.fail("made")
    except iso.DateTimeError:
        k.ensures("refused", True)


@proof('text of other characters never becomes a date', s=StrN(
    maxlen=7, alphabet='0123456789-WX'), _ob_ms=2000)
def garbage(k, s):
    """whatever is accepted was made of digits, hyphens and W"""
    try:
        r = iso.Date.from_str(s)
    except (iso.DateTimeError, ValueError):
        k.ensures("rejected", True)
        return
    k.ensures("starts with two digits and is not empty", k.And(
        len(s) >= 2, k.code(s, 0) >= 48, k.code(s, 0) <= 57,
        k.code(s, 1) >= 48, k.code(s, 1) <= 57), s)


# -- nothing else is read -----------------------------------------------------------

# the layouts that denote something by themselves
DATES = {
    'YYYYMMDD': r'(?P<century>\d\d)(?P<year>\d\d)(?P<month>\d\d)(?P<day>\d\d)',
    'YYYY-MM-DD':
        r'(?P<century>\d\d)(?P<year>\d\d)-(?P<month>\d\d)-(?P<day>\d\d)',
    'YYYY-MM': r'(?P<century>\d\d)(?P<year>\d\d)-(?P<month>\d\d)',
    'YYYY': r'(?P<century>\d\d)(?P<year>\d\d)',
    'YY': r'(?P<century>\d\d)',
    'YYYYDDD': r'(?P<century>\d\d)(?P<year>\d\d)(?P<ordinal_day>\d\d\d)',
    'YYYY-DDD': r'(?P<century>\d\d)(?P<year>\d\d)-(?P<ordinal_day>\d\d\d)',
    'YYYYWwwD': r'(?P<century>\d\d)(?P<decade>\d)(?P<year>\d)W'
        r'(?P<week>\d\d)(?P<weekday>\d)',
    'YYYY-Www-D': r'(?P<century>\d\d)(?P<decade>\d)(?P<year>\d)-W'
        r'(?P<week>\d\d)-(?P<weekday>\d)',
    'YYYYWww': r'(?P<century>\d\d)(?P<decade>\d)(?P<year>\d)W(?P<week>\d\d)',
    'YYYY-Www':
        r'(?P<century>\d\d)(?P<decade>\d)(?P<year>\d)-W(?P<week>\d\d)'}
TRUNCATED = {
    'YYMMDD': r'(?P<year>\d\d)(?P<month>\d\d)(?P<day>\d\d)',
    'YY-MM-DD': r'(?P<year>\d\d)-(?P<month>\d\d)-(?P<day>\d\d)',
    '-YYMM': r'-(?P<year>\d\d)(?P<month>\d\d)',
    '-YY-MM': r'-(?P<year>\d\d)-(?P<month>\d\d)',
    '-YY': r'-(?P<year>\d\d)',
    '--MMDD': r'--(?P<month>\d\d)(?P<day>\d\d)',
    '--MM-DD': r'--(?P<month>\d\d)-(?P<day>\d\d)',
    '--MM': r'--(?P<month>\d\d)',
    '---DD': r'---(?P<day>\d\d)',
    'YYDDD': r'(?P<year>\d\d)(?P<ordinal_day>\d\d\d)',
    'YY-DDD': r'(?P<year>\d\d)-(?P<ordinal_day>\d\d\d)',
    '-DDD': r'-(?P<ordinal_day>\d\d\d)',
    'YYWwwD': r'(?P<decade>\d)(?P<year>\d)W(?P<week>\d\d)(?P<weekday>\d)',
    'YY-Www-D': r'(?P<decade>\d)(?P<year>\d)-W(?P<week>\d\d)-(?P<weekday>\d)',
    'YYWww': r'(?P<decade>\d)(?P<year>\d)W(?P<week>\d\d)',
    'YY-Www': r'(?P<decade>\d)(?P<year>\d)-W(?P<week>\d\d)',
    '-YWwwD': r'-(?P<year>\d)W(?P<week>\d\d)(?P<weekday>\d)',
    '-Y-Www-D': r'-(?P<year>\d)-W(?P<week>\d\d)-(?P<weekday>\d)',
    '-YWww': r'-(?P<year>\d)W(?P<week>\d\d)',
    '-Y-Www': r'-(?P<year>\d)-W(?P<week>\d\d)',
    '-WwwD': r'-W(?P<week>\d\d)(?P<weekday>\d)',
    '-Www-D': r'-W(?P<week>\d\d)-(?P<weekday>\d)',
    '-Www': r'-W(?P<week>\d\d)',
    '-W-D': r'-W-(?P<weekday>\d)'}
TIMES = {
    'hhmmss': r'(?P<hour>\d\d)(?P<minute>\d\d)(?P<second>\d\d)',
    'hh:mm:ss': r'(?P<hour>\d\d):(?P<minute>\d\d):(?P<second>\d\d)',
    'hhmm': r'(?P<hour>\d\d)(?P<minute>\d\d)',
    'hh:mm': r'(?P<hour>\d\d):(?P<minute>\d\d)',
    'hh': r'(?P<hour>\d\d)'}
ZONES = {
    '': r'', 'Z': r'Z',
    '+hhmm': r'(?P<zdirection>[-+])(?P<zhour>\d\d)(?P<zminute>\d\d)',
    '+hh:mm': r'(?P<zdirection>[-+])(?P<zhour>\d\d):(?P<zminute>\d\d)',
    '+hh': r'(?P<zdirection>[-+])(?P<zhour>\d\d)'}


def example(rnd, layout):
    """text of the layout, often a date"""
    fill = dict(YY=lambda: rnd.choice(['%02d' % rnd.randint(0, 99), '20']),
                MM=lambda: '%02d' % rnd.randint(1, 12),
                DDD=lambda: '%03d' % rnd.randint(1, 365),
                DD=lambda: '%02d' % rnd.randint(1, 28),
                ww=lambda: '%02d' % rnd.randint(1, 52),
                D=lambda: str(rnd.randint(1, 7)),
                Y=lambda: str(rnd.randint(0, 9)),
                hh=lambda: '%02d' % rnd.randint(0, 23),
                mm=lambda: '%02d' % rnd.randint(0, 59),
                ss=lambda: '%02d' % rnd.randint(0, 59))
    fill['+'] = lambda: rnd.choice('+-')
    return re.sub(r'YY|MM|DDD|DD|ww|D|Y|hh|mm|ss|[+]',
                  lambda m: fill[m.group()](), layout)


def damage(rnd, s):
    """the text or something like it"""
    for i in range(rnd.choice([0, 0, 1, 1, 1, 2])):
        p = rnd.randint(0, len(s))
        q = rnd.choice([p, p, p + 1, p + 1, p + 2])
        s = s[:p] + rnd.choice(['', '', rnd.choice('0123456789'), '-', 'W',
                                ':', 'T', 'Z', ' ', 'x', '\u0663', '+', '\0',
                                '.', ',5', '99', '00']) + s[q:]
    return s


def reading(layouts, s):
    """[(layout, components)] of the text"""
    r = []
    for name, pattern in layouts.items():
        m = re.match(pattern.replace(r'\d', '[0-9]') + r'\Z', s)
        if m:
            r.append((name, {a: int(b) if b not in '+-' else
                             1 if b == '+' else -1
                             for a, b in m.groupdict().items()}))
    return r


def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except (iso.DateTimeError, ValueError):
        return None


@bounded('only the layouts of dates are read', 'sampled texts, damaged',
         _samples=30000, seed=Int(0, 10 ** 9))
def only_dates(k, seed):
    rnd = random.Random(seed)
    base = rnd.choice([None, iso.Date(century=20, year=12, month=2, day=29)])
    s = damage(rnd, example(rnd, rnd.choice(
        list(DATES) + (list(TRUNCATED) if base else []))))
    wanted = reading(DATES, s) + (reading(TRUNCATED, s) if base else [])
    k.ensures("one reading", len(wanted) < 2, wanted)
    made = attempt(iso.Date, base=base, **wanted[0][1]) if wanted else None
    got = attempt(iso.Date.from_string_format, s, base)
    k.ensures("refused if not a date", (got is None) == (made is None), s,
              got)
    also = attempt(iso.Date.from_str, s, base)
    k.ensures("however it is read", (also is None) == (got is None), s)
    if got is not None:
        for a in ('century', 'year', 'month', 'week', 'day'):
            k.ensures("the components", getattr(got[0], a) == getattr(
                made, a) == getattr(also, a), s, a)
        k.ensures("the layout", got[1] == wanted[0][0], s, got[1])


def time_readings(s):
    r = []
    for i in range(len(s) + 1):
        for name, t in reading(TIMES, s[:i]):
            for zone, z in reading(ZONES, s[i:]):
                basic = ':' not in name and ':' not in zone
                # the hour alone is basic and extended
                extended = (':' in name or name == 'hh') and zone != '+hhmm'
                if basic or extended:
                    t = dict(t, **z)
                    if zone == 'Z':
                        t['zdirection'] = 0
                    r.append((name + zone, t, basic, extended))
    return r


@bounded('only the layouts of times are read', 'sampled texts, damaged',
         _samples=30000, seed=Int(0, 10 ** 9))
def only_times(k, seed):
    rnd = random.Random(seed)
    s = damage(rnd, example(rnd, rnd.choice(list(TIMES)) + rnd.choice(
        list(ZONES))))
    if '.' in s or ',' in s:
        return
    t = s[1:] if s[:1] == 'T' else s
    wanted = time_readings(t)
    k.ensures("one reading", len(wanted) < 2, wanted)
    made = attempt(iso.Time, **wanted[0][1]) if wanted else None
    got = attempt(iso.Time.from_string_format, s)
    k.ensures("refused if not a time", (got is None) == (made is None), s,
              got)
    also = attempt(iso.Time.from_str, s)
    k.ensures("however it is read", (also is None) == (got is None), s)
    if got is not None:
        k.ensures("no overflow", got[1] == 0)
        k.ensures("the components", got[0].get_time_and_zone() ==
                  made.get_time_and_zone() == also.get_time_and_zone(), s)
        k.ensures("the layout", got[2] == wanted[0][0], s, got[2])


@bounded('only the layouts of time points are read',
         'sampled texts, damaged', _samples=30000, seed=Int(0, 10 ** 9))
def only_points(k, seed):
    rnd = random.Random(seed)
    date = rnd.choice(['YYYYMMDD', 'YYYY-MM-DD', 'YYYYDDD', 'YYYY-DDD',
                       'YYYYWwwD', 'YYYY-Www-D'])
    time, zone = rnd.choice(
        [(a, b) for a in TIMES for b in ZONES] if rnd.random() < 0.1 else
        [('hh:mm:ss', 'Z'), ('hh:mm', '+hh:mm'), ('hh:mm', '')]
        if '-' in date else
        [('hhmmss', 'Z'), ('hhmm', '+hhmm'), ('hhmm', '')])
    s = damage(rnd, example(rnd, date + 'T' + time + zone))
    if '.' in s or ',' in s:
        return
    d, sep, t = s.partition('T')
    # both basic or both extended
    wanted = [(a, b[0], x, b[1]) for a, x in reading(DATES, d)
              for b in time_readings(t) if sep and b[3 if '-' in a else 2]]
    made = None
    if wanted:
        a, b, x, y = wanted[0]
        x, y = attempt(iso.Date, **x), attempt(iso.Time, **y)
        if a in ('YY', 'YYYY', 'YYYY-MM', 'YYYY-Www', 'YYYYWww'):
            x = None
        if x is not None and y is not None:
            made = x, y
    got = attempt(iso.TimePoint.from_string_format, s)
    k.ensures("refused if not a time point", (got is None) == (made is None),
              s, got)
    also = attempt(iso.TimePoint.from_str, s)
    k.ensures("however it is read", (also is None) == (got is None), s)
    if got is not None:
        k.ensures("the components", got[0].date == made[0] and also.date ==
                  made[0] and got[0].time.get_time_and_zone() == made[
                      1].get_time_and_zone() ==
                  also.time.get_time_and_zone(), s)
        k.ensures("the layout", got[1] == a + 'T' + b, s, got[1])


TAIL_FORMS = [
    ('20150131', iso.Date), ('2015-01-31', iso.Date), ('2015-031', iso.Date),
    ('2015W053', iso.Date), ('2015-W05-3', iso.Date),
    ('20:17:40Z', iso.Time), ('201740+0530', iso.Time),
    ('2015-01-31T20:17:40Z', iso.TimePoint), ('20150131T2017Z', iso.TimePoint)]


@proof('nothing may follow a date or a time', tail=Str(),
       form=Choice(list(range(len(TAIL_FORMS)))))
def tails(k, tail, form):
    """text left over is never ignored, whatever it is"""
    k.requires(len(tail) > 0)
    x, read = TAIL_FORMS[form]
    x = k.cat(k.text('str', *[ord(c) for c in x]), tail)
    for f in (read.from_str, read.from_string_format):
        try:
            f(x)
            k.fail("accepted", x)
        except (iso.DateTimeError, ValueError):
            k.ensures("refused", True)
