"""H02: HTTP dates."""
import datetime
from pyvc.kit import proof, bounded, Contract, Int, Choice, Gen, Tup
from pyslet import iso8601 as iso
from pyslet.http.params import FullDate, ParameterParser
from pyslet.http.grammar import BadSyntax
from contracts import D01

WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']
Y, D = D01.Y, D01.D
H, MI, S = Int(0, 23), Int(0, 59), Int(0, 59)
H9, M9 = Int(0, 99, corners=[0, 9, 10, 23, 24, 25]), Int(
    0, 99, corners=[0, 9, 10, 58, 59, 60, 61])


def digits(k, n, width):
    return [48 + n // 10 ** i % 10 for i in range(width - 1, -1, -1)]


def text(k, *parts):
    codes = []
    for p in parts:
        if isinstance(p, str):
            codes = codes + [ord(c) for c in p]
        else:
            codes = codes + digits(k, p[0], p[1])
    return k.text('bytes', *codes)


def weekday(k, y, m, d):
    """0 for Monday; 1 January of year 1 was one"""
    return (D01.DAYNUM(k, y, m, d) - 1) % 7


def post_week(k, r, self):
    c, dec, yy, w, wd = r
    return wd == weekday(k, self.century * 100 + self.year, self.month,
                         self.day) + 1


def pre_week(k, self):
    return D01.DVALID(k, self.century * 100 + self.year, self.month,
                      self.day)


WEEK = Contract('pyslet.iso8601:Date.get_week_day', Tup(
    Int(0, 99), Int(0, 9), Int(0, 9), Int(1, 53), Int(1, 7)), pre=pre_week,
    post=post_week, checked_by='D02 get_week_day is the ISO week')
USES = [D01.SET_ABS, D01.GET_ABS, D01.CHECK, WEEK]


def point(k, y, m, d, h, mi, s):
    return k.new(FullDate, date=k.new(
        iso.Date, century=y // 100, year=y % 100, month=m, day=d, week=None),
        time=iso.Time(hour=h, minute=mi, second=s, zdirection=0))


@proof('a time point is formatted with its weekday and month', y=Y,
       m=Choice(range(1, 13)), d=D, h=H, mi=MI, s=S, _uses=USES)
def fmt(k, y, m, d, h, mi, s):
    k.requires(D01.DVALID(k, y, m, d))
    D01.date_facts(k, y, m, d)
    tp = point(k, y, m, d, h, mi, s)
    r = tp.to_bytes()
    w = weekday(k, y, m, d)
    for i in range(7):
        if w == i:
            k.ensures("the text of the specification", r == text(
                k, WD[i] + ', ', (d, 2), ' ' + MON[m - 1] + ' ', (y, 4), ' ',
                (h, 2), ':', (mi, 2), ':', (s, 2), ' GMT'), r)


def outcome(k, src, y, m, d, h, mi, s, w):
    """what reading the text must give"""
    try:
        tp = FullDate.from_http_str(src)
    except BadSyntax:
        tp = None
    good = k.And(D01.DVALID(k, y, m, d), h <= 23, mi <= 59, s <= 59)
    if tp is None:
        k.ensures("refused only when out of range or the wrong weekday",
                  k.Or(k.Not(good), weekday(k, y, m, d) != w))
        return
    k.ensures("out of range fields are refused", k.And(
        D01.DVALID(k, y, m, d), h <= 23, mi <= 59, s <= 60))
    k.ensures("the wrong weekday is refused", weekday(k, y, m, d) == w)
    k.ensures("the instant", k.And(
        tp.date.century * 100 + tp.date.year == y, tp.date.month == m,
        tp.date.day == d, tp.time.hour == h, tp.time.minute == mi,
        tp.time.second == s))
    k.ensures("in UTC", tp.time.zdirection == 0)


D9 = Int(0, 99, corners=[0, 1, 28, 29, 30, 31, 32])
Y9 = Int(0, 9999, corners=[0, 1, 1900, 1970, 2000, 9999])
CASES = [(m, (3 * m + j) % 7) for m in range(1, 13) for j in range(7)]


@proof('the preferred form is read exactly', y=Y9, mw=Choice(CASES), d=D9,
       h=H9, mi=M9, s=M9, _uses=[D01.CHECK, WEEK], _budget=600)
def rfc1123(k, y, mw, d, h, mi, s):
    m, w = mw
    D01.date_facts(k, y, m, d)
    outcome(k, text(k, WD[w] + ', ', (d, 2), ' ' + MON[m - 1] + ' ', (y, 4),
                    ' ', (h, 2), ':', (mi, 2), ':', (s, 2), ' GMT'),
            y, m, d, h, mi, s, w)


@proof('the two older forms are read exactly', y=Y9, yy=Int(0, 99, corners=[
    0, 89, 90, 99]), mw=Choice([(m, (5 * m) % 7) for m in range(1, 13)]),
    d=D9, h=H9, mi=M9, s=M9, _uses=[D01.CHECK, WEEK], _budget=600)
def older(k, y, yy, mw, d, h, mi, s):
    m, w = mw
    D01.date_facts(k, y, m, d)
    outcome(k, text(k, WD[w] + ' ' + MON[m - 1] + ' ', (d, 2), ' ', (h, 2),
                    ':', (mi, 2), ':', (s, 2), ' ', (y, 4)),
            y, m, d, h, mi, s, w)
    # two digits: the years 1990 to 2089
    full = k.ite(yy < 90, yy + 2000, yy + 1900)
    D01.date_facts(k, full, m, d)
    outcome(k, text(k, LONG[w] + ', ', (d, 2), '-' + MON[m - 1] + '-',
                    (yy, 2), ' ', (h, 2), ':', (mi, 2), ':', (s, 2), ' GMT'),
            full, m, d, h, mi, s, w)


# -- native: whole round trips, zones, malformed text --------------------------

def oracle(dt):
    """the text of a datetime"""
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        WD[dt.weekday()], dt.day, MON[dt.month - 1], dt.year, dt.hour,
        dt.minute, dt.second)


EPOCH = datetime.datetime(1970, 1, 1)


def gen_time(rng):
    r = rng.random()
    if r < .3:
        # the turn of a century, year or month
        y = rng.choice([2000, 2100, 2400, 9900, 1999, 2001, 1972,
                        rng.randint(1970, 9999)])
        m = rng.choice([1, 1, 12, 3, 2])
        dt = datetime.datetime(y, m, rng.choice([1, 2, 3, 27, 28]))
        n = int((dt - EPOCH).total_seconds()) + rng.choice(
            [0, 0, 86399, rng.randint(0, 86399)])
    else:
        n = rng.randint(0, 253402300799)
    return n, rng.choice([-1, 0, 0, 1]), rng.randint(0, 23), rng.randint(
        0, 59)


@bounded('time points and HTTP dates correspond', 'generated instants and '
         'zones', case=Gen(gen_time, corners=[
             (0, 0, 0, 0), (253402300799, 0, 0, 0), (946684800, 0, 0, 0),
             (951782400, 0, 0, 0), (784111777, 0, 0, 0),
             (946684800, 1, 5, 30), (946684799, -1, 12, 0)]), _samples=4000)
def whole(k, case):
    n, zd, zh, zm = case
    dt = EPOCH + datetime.timedelta(seconds=n)
    tp = iso.TimePoint.from_unix_time(n)
    if zd:
        k.requires(86400 < n < 253402300799 - 86400)
        tp = tp.shift_zone(zd, zh, zm)
    f = FullDate(tp)
    want = oracle(dt)
    k.ensures("formatted", str(f) == want and f.to_bytes() ==
              want.encode('ascii'), str(f), want)
    forms = [want, want.upper(), want.lower(), ' ' + want + ' ',
             '%s %s %2d %02d:%02d:%02d %04d' % (
                 WD[dt.weekday()], MON[dt.month - 1], dt.day, dt.hour,
                 dt.minute, dt.second, dt.year)]
    if 1990 <= dt.year < 2090:
        forms.append('%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
            LONG[dt.weekday()], dt.day, MON[dt.month - 1], dt.year % 100,
            dt.hour, dt.minute, dt.second))
    for s in forms:
        b = FullDate.from_http_str(s)
        k.ensures("reads back as the instant", b == f and b == tp and
                  b.get_unixtime() == n and str(b) == want, s, str(b))
    for i, c in ((0, WD[(dt.weekday() + 1) % 7]), (0, 'Foo')):
        try:
            FullDate.from_http_str(c + want[3:])
        except BadSyntax:
            continue
        k.fail("another weekday is refused", c + want[3:])


def gen_bad(rng):
    """a date with one thing wrong"""
    dt = EPOCH + datetime.timedelta(seconds=rng.randint(0, 253402300799))
    s = oracle(dt)
    r = rng.randint(0, 9)
    h, m = s.split(' ')[4], s.split(' ')
    if r == 0:
        m[4] = rng.choice(['24', '25', '99']) + h[2:]
    elif r == 1:
        m[4] = h[:3] + rng.choice(['60', '61', '99']) + h[5:]
    elif r == 2:
        m[4] = h[:6] + rng.choice(['61', '62', '99'])
    elif r == 3:
        m[1] = rng.choice(['00', '32', '99', '-1', '1x', 'x'])
    elif r == 4:
        m[2] = rng.choice(['Foo', '01', 'Janu', 'Ja', '13'])
    elif r == 5:
        m[3] = rng.choice(['0000', '10000', 'year', '-1', '20.5'])
    elif r == 6:
        m[5] = rng.choice(['EST', '+0000', 'GMT1', '2000'])
    elif r == 7:
        del m[rng.randrange(6)]
    elif r == 8:
        m.append(rng.choice(['x', 'GMT', ',', ';a=1']))
    else:
        m[4] = rng.choice([h[:5], h.replace(':', '.'), h + ':00', h[:6],
                           'x' + h])
    return ' '.join(m)


@bounded('malformed dates are refused', 'generated texts', s=Gen(
    gen_bad, corners=['', 'Sun', 'Sun,', 'Mon, 31 Feb 2000 00:00:00 GMT',
                      'Tue, 29 Feb 2100 00:00:00 GMT',
                      'Sun, 06-Nov-1994 08:49:37 GMT',
                      'Sun, 06 Nov 1994 24:00:00 GMT']), _samples=3000)
def malformed(k, s):
    try:
        r = FullDate.from_http_str(s)
    except BadSyntax:
        return
    k.fail("refused", s, str(r))
