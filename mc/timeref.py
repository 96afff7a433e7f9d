"""Independent calendar arithmetic on integer nanoseconds since 1970-01-01 (proleptic Gregorian)."""
NS = 10**9
DAY = 86400


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def mdays(y, m):
    return 29 if m == 2 and leap(y) else MDAYS[m - 1]


def days(y, m, d):
    """days from 1970-01-01"""
    n = 0
    y0 = y - 1
    n = y0 * 365 + y0 // 4 - y0 // 100 + y0 // 400
    base = 1969 * 365 + 1969 // 4 - 1969 // 100 + 1969 // 400
    n -= base
    for k in range(1, m):
        n += mdays(y, k)
    return n + d - 1


def to_ns(y, mo, d, h=0, mi=0, s=0, ns=0):
    return (days(y, mo, d) * DAY + h * 3600 + mi * 60 + s) * NS + ns


def split(t):
    sec, ns = divmod(t, NS)
    dd, r = divmod(sec, DAY)
    y = 1970 + dd // 366 - 1
    while days(y + 1, 1, 1) <= dd:
        y += 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= dd:
        m += 1
    d = dd - days(y, m, 1) + 1
    return y, m, d, r // 3600, r % 3600 // 60, r % 60, ns


def stored(t):
    """sub-microsecond remainders above half a microsecond are rounded (documented)"""
    n = t % 1000
    return t - n + 1000 if n > 500 else t


def frac(ns):
    if ns == 0:
        return ""
    return ".%06d" % (ns // 1000) if ns % 1000 == 0 else ".%09d" % ns


def iso(t, sep="T", off_min=None, suffix=""):
    if off_min:
        t = t + off_min * 60 * NS
        suffix = "%s%02d:%02d" % ("+" if off_min > 0 else "-", abs(off_min) // 60, abs(off_min) % 60)
    y, m, d, h, mi, s, ns = split(t)
    return "%04d-%02d-%02d%s%02d:%02d:%02d%s%s" % (y, m, d, sep, h, mi, s, frac(ns), suffix)


YEARS = [1900, 1969, 1970, 1980, 1999, 2000, 2001, 2012, 2016, 2020, 2024, 2038, 2100, 2199]
MD = [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (7, 1), (12, 31)]
HMS = [(0, 0, 0), (0, 0, 1), (12, 34, 56), (23, 59, 59)]
FR = [0, 1, 100, 499, 500, 501, 999, 1000, 1001, 123456000, 123456789, 100000000, 123000000,
      999999000, 999999500, 999999999]


def lattice(years=YEARS, md=MD, hms=HMS, fr=FR):
    out = []
    for y in years:
        for m, d in md:
            if d > mdays(y, m):
                continue
            for h, mi, s in hms:
                for f in fr:
                    out.append(to_ns(y, m, d, h, mi, s, f))
    return out
