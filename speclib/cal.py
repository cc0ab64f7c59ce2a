"""Independent calendar arithmetic (the proleptic Gregorian calendar)."""

LENGTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
BEFORE = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def leap(k, y):
    return k.And(y % 4 == 0, k.Or(y % 100 != 0, y % 400 == 0))


def month_length(k, y, m):
    """m is symbolic or not"""
    r = 31
    for i in (2, 4, 6, 9, 11):
        r = k.ite(m == i, 30 if i != 2 else k.ite(leap(k, y), 29, 28), r)
    return r


def valid(k, y, m, d):
    return k.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
                 d <= month_length(k, y, m))


def ordinal(k, y, m, d):
    """position in the year, from 1"""
    r = d
    for i in range(1, 12):
        r = r + k.ite(m > i, k.ite(leap(k, y), 29, 28) if i == 2
                      else LENGTHS[i - 1], 0)
    return r


def days(k, y, m, d):
    """day number, 1 for 0001-01-01"""
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + ordinal(k, y, m, d)


def year_length(k, y):
    return k.ite(leap(k, y), 366, 365)
