"""MTime arithmetic, calendar-part assignment and GPS -> UTC against integer arithmetic."""
import datetime as dt

from mc import timeref as tr
from mc.core import outcome

LEAPS = ["1981-07-01", "1982-07-01", "1983-07-01", "1985-07-01", "1988-01-01", "1990-01-01",
         "1991-01-01", "1992-07-01", "1993-07-01", "1994-07-01", "1996-01-01", "1997-07-01",
         "1999-01-01", "2006-01-01", "2009-01-01", "2012-07-01", "2015-07-01", "2017-01-01"]
LEAP_NS = [tr.to_ns(*map(int, s.split("-"))) for s in LEAPS]


def durations(quick):
    import numpy as np
    import pandas as pd

    secs = [0, 1, -1, 59, 60, 3600, 86399, 86400, -86400, 86400 * 31, 86400 * 366, 10**7]
    for s in secs:
        yield "int", s, s * tr.NS
        yield "float", float(s), s * tr.NS
        yield "timedelta", dt.timedelta(seconds=s), s * tr.NS
        yield "np[s]", np.timedelta64(s, "s"), s * tr.NS
        yield "np[ns]", np.timedelta64(s * tr.NS, "ns"), s * tr.NS
        yield "pandas", pd.Timedelta(seconds=s), s * tr.NS
    for us in (1, -1, 500000, 999999, 250000, 125000):
        yield "float frac", us / 1e6, us * 1000
        yield "timedelta frac", dt.timedelta(microseconds=us), us * 1000
        yield "np[us]", np.timedelta64(us, "us"), us * 1000
        yield "pandas frac", pd.Timedelta(microseconds=us), us * 1000
    for n in (1, 7, 100, -1000):
        yield "pandas ns", pd.Timedelta(n, unit="ns"), n
    for n in (1, 5, 999, -250, 1500, 1001):
        yield "float ns", n / 1e9, n
    yield "np[D]", np.timedelta64(3, "D"), 3 * tr.DAY * tr.NS
    yield "np[ms]", np.timedelta64(1500, "ms"), 1500 * 10**6


def job_arith(part, item, quick, others):
    import numpy as np
    import pandas as pd

    from mt_metadata.common.mttime import MDate, MTime

    for t in item:
        T = MTime(time_stamp=tr.iso(t))
        part.state(t)
        for lab, raw, ns in durations(quick):
            part.transitions += 1
            part.traces += 1
            a = outcome(lambda: T + raw)
            want = tr.iso(tr.stored(t + ns), suffix="+00:00")
            if a[0] != "ok" or type(a[1]) is not MTime or str(a[1]) != want:
                part.violation(f"add {lab}", f"{T} + {raw!r}: {a} expected {want}", {"t": str(T), "d": repr(raw)})
                continue
            b = outcome(lambda: T - raw)
            wantb = tr.iso(tr.stored(t - ns), suffix="+00:00")
            if b[0] != "ok" or str(b[1]) != wantb:
                part.violation(f"subtract {lab}", f"{T} - {raw!r}: {b} expected {wantb}", {"t": str(T), "d": repr(raw)})
            if (t + ns) % 1000 == 0 and str(a[1] - raw) != str(T):
                part.violation(f"add then subtract {lab}", f"{T} {raw!r}", {})
            if str(T) != tr.iso(t, suffix="+00:00"):
                part.violation("arithmetic changes its operand", str(T), {})
        for u in others:
            part.transitions += 1
            want = (t - u) / 1e9
            y = tr.split(u)
            for lab, raw in (
                ("MTime", MTime(time_stamp=tr.iso(u))),
                ("text", tr.iso(u)),
                ("text offset", tr.iso(u, off_min=330)),
                ("pandas", pd.Timestamp(u, tz="UTC")),
                ("numpy", np.datetime64(u, "ns")),
                ("datetime", dt.datetime(*y[:6], y[6] // 1000)),
            ):
                part.traces += 1
                got = outcome(lambda: T - raw)
                if got[0] != "ok" or not isinstance(got[1], float) or abs(got[1] - want) > 1e-9 + 4e-16 * abs(want):
                    part.violation(f"difference with {lab}", f"{T} - {raw!r}: {got} expected {want}", {})
        # date type counts days
        D = MDate(time_stamp=tr.iso(t)[:10])
        t0 = t - t % (tr.DAY * tr.NS)
        for n in (0, 1, -1, 28, 365, 366):
            part.transitions += 1
            w = tr.iso(t0 + n * tr.DAY * tr.NS)[:10]
            if str(D + n) != w or str((D + n) - n) != str(D) or str(D + dt.timedelta(days=n)) != w:
                part.violation("date add", f"{D} + {n} = {D + n} expected {w}", {})
            if abs((MDate(time_stamp=w) - D) - n) > 1e-9:
                part.violation("date difference", f"{w} - {D}", {})


PARTS = ["year", "month", "day", "hour", "minutes", "seconds", "microseconds", "nanoseconds"]
VALS = {
    "year": [1970, 1999, 2000, 2020, 2023],
    "month": [1, 2, 4, 12, 0, 13],
    "day": [1, 28, 29, 30, 31, 0, 32],
    "hour": [0, 12, 23, 24],
    "minutes": [0, 30, 59, 60],
    "seconds": [0, 59, 60],
    "microseconds": [0, 1, 999999, 1000000],
    "nanoseconds": [0, 1, 500],
}


def job_parts(part, item):
    from mt_metadata.common.mttime import MTime

    for t in item:
        y, m, d, h, mi, s, ns = tr.split(t)
        base = [y, m, d, h, mi, s, ns // 1000, ns % 1000]
        for k, name in enumerate(PARTS):
            for v in VALS[name]:
                part.transitions += 1
                part.traces += 1
                T = MTime(time_stamp=tr.iso(t))
                new = list(base)
                new[k] = v
                ok = (
                    1 <= new[1] <= 12
                    and 1 <= new[2] <= tr.mdays(new[0], min(max(new[1], 1), 12))
                    and new[3] < 24 and new[4] < 60 and new[5] < 60 and new[6] < 10**6
                )
                got = outcome(setattr, T, name, v)
                if ok:
                    want = tr.iso(tr.to_ns(*new[:6], new[6] * 1000 + new[7]), suffix="+00:00")
                    if got[0] != "ok":
                        part.violation(f"set {name} rejected", f"{tr.iso(t)} {v} {got}", {})
                        continue
                else:
                    want = tr.iso(t, suffix="+00:00")
                    if got[0] == "ok":
                        part.violation(f"set {name} to an impossible value accepted", f"{tr.iso(t)} {v}", {})
                        continue
                if str(T) != want:
                    part.violation(f"set {name}", f"{tr.iso(t)} {name}={v}: got {T} expected {want}", {})
                got = (T.year, T.month, T.day, T.hour, T.minutes, T.seconds, T.microseconds, T.nanoseconds)
                if ok and got != tuple(new):
                    part.violation(f"set {name}: parts", f"{got} expected {new}", {})
        for v in (0, 1, 1.5, 86400, 10**9, -1, t // tr.NS):
            T = MTime(time_stamp=tr.iso(t))
            T.epoch_seconds = v
            part.transitions += 1
            if str(T) != tr.iso(int(v * 2) * tr.NS // 2, suffix="+00:00") or T.epoch_seconds != v:
                part.violation("set epoch seconds", f"{v} -> {T}", {})


def job_gps(part, item):
    from mt_metadata.common.mttime import MTime, calculate_leap_seconds

    for dday in item:
        y, m, d = tr.split(dday)[:3]
        n = sum(1 for x in LEAP_NS if dday >= x)
        part.state(("gps", dday))
        got = outcome(calculate_leap_seconds, y, m, d)
        if got != ("ok", n):
            part.violation("leap seconds", f"{y}-{m}-{d}: {got} expected {n}", {"day": [y, m, d]})
        for off, f in ((0, 0), (86399 * tr.NS, 0), (43200 * tr.NS, 250000000)):
            part.transitions += 1
            part.traces += 1
            t = dday + off + f
            got = outcome(lambda: MTime(time_stamp=tr.iso(t), gps_time=True))
            want = tr.iso(t - n * tr.NS, suffix="+00:00")
            if got[0] != "ok" or str(got[1]) != want:
                part.violation("gps to utc", f"{tr.iso(t)}: {got} expected {want}", {"t": tr.iso(t)})
            elif off == 0:
                g2 = outcome(lambda: MTime(time_stamp=t // tr.NS, gps_time=True))
                g3 = outcome(lambda: MTime(time_stamp={"time_stamp": tr.iso(t), "gps_time": True}))
                for lab, g in (("epoch", g2), ("dict", g3)):
                    if g[0] != "ok" or str(g[1]) != want:
                        part.violation(f"gps to utc {lab}", f"{tr.iso(t)}: {g} expected {want}", {})
                c = got[1].copy()
                if str(c) != want or not (c == got[1]):
                    part.violation("gps copy", f"{c} {want}", {})
    part.sample(f"gps days from {tr.iso(item[0])[:10]}")


def run(ctx):
    q = ctx.quick
    lat = tr.lattice(
        years=[1970, 2000, 2020] if q else [1920, 1969, 1970, 1980, 1999, 2000, 2016, 2020, 2100],
        hms=[(0, 0, 0), (23, 59, 59)] if q else tr.HMS,
        fr=[0, 1, 1000, 250000000, 999999000],
    )
    others = [x for x in tr.lattice(years=[1970, 2020], md=[(1, 1), (12, 31)], hms=[(0, 0, 0), (23, 59, 59)],
                         fr=[0, 1000, 999999000])]
    ctx.pmap(job_arith, [lat[i : i + 6] for i in range(0, len(lat), 6)], quick=q, others=others)
    plat = tr.lattice(years=[1970, 2020] if q else [1970, 1999, 2000, 2020, 2021],
                      fr=[0, 1, 123456000, 123456100])
    ctx.pmap(job_parts, [plat[i : i + 8] for i in range(0, len(plat), 8)])
    first, last = tr.days(1980, 1, 6), tr.days(2026, 6, 30)
    dd = [n * tr.DAY * tr.NS for n in range(first, last + 1)]
    if q:
        near = set()
        for x in LEAP_NS:
            for k in range(-3, 4):
                near.add(x + k * tr.DAY * tr.NS)
        dd = [x for x in dd if x in near or (x // (tr.DAY * tr.NS)) % 7 == 0 or x in (dd[0], dd[-1])]
    ctx.pmap(job_gps, [dd[i : i + 200] for i in range(0, len(dd), 200)])
    ctx.bounds = {"instants": len(lat), "durations": len(list(durations(q))), "gps_days": len(dd),
                  "gps_range": "1980-01-06..2026-06-30", "part_instants": len(plat)}
    ctx.assumptions = ["leap second dates as published by IERS; the GPS calendar date selects the offset (documented)"]
