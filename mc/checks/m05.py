"""MTime: every representation of an instant, printing, total order, hash, null-likes, clamping."""
import datetime as dt
import operator as op

from mc import timeref as tr
from mc.core import outcome

OPS = {"==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}


def reps(t):
    """(label, raw value, expected ns or None when only microsecond accuracy is meaningful)"""
    import numpy as np
    import pandas as pd

    y, m, d, h, mi, s, ns = tr.split(t)
    ex = tr.stored(t)
    us = t % 1000 == 0
    yield "iso", tr.iso(t), ex
    yield "iso blank", tr.iso(t, sep=" "), ex
    yield "iso Z", tr.iso(t, suffix="Z"), ex
    yield "iso +00:00", tr.iso(t, suffix="+00:00"), ex
    for off in (120, -330, 840, -720):
        yield f"iso offset {off}", tr.iso(t, off_min=off), ex
        if us:
            tz = dt.timezone(dt.timedelta(minutes=off))
            z = tr.split(t + off * 60 * tr.NS)
            yield f"datetime offset {off}", dt.datetime(*z[:6], z[6] // 1000, tz), ex
    if ns == 0:
        yield "iso compact", "%04d%02d%02dT%02d%02d%02d" % (y, m, d, h, mi, s), ex
        yield "epoch int", t // tr.NS, ex
        yield "epoch np.int64", np.int64(t // tr.NS), ex
        yield "epoch float", float(t // tr.NS), ex
        yield "np datetime64[s]", np.datetime64(t // tr.NS, "s"), ex
    if (h, mi, s, ns) == (0, 0, 0, 0):
        yield "date only", "%04d-%02d-%02d" % (y, m, d), ex
        yield "date compact", "%04d%02d%02d" % (y, m, d), ex
        yield "date", dt.date(y, m, d), ex
        p = tr.split(t - tr.DAY * tr.NS)
        yield "hour 24", "%04d-%02d-%02dT24:00:00" % p[:3], ex
        yield "hour 24 utc", "%04d-%02d-%02dT24:00:00+00:00" % p[:3], ex
        yield "np datetime64[D]", np.datetime64("%04d-%02d-%02d" % (y, m, d)), ex
    if ns % 10**6 == 0:
        yield "np datetime64[ms]", np.datetime64(t // 10**6, "ms"), ex
        yield "epoch float ms", (t // 10**6) / 1e3, ex
    if us:
        yield "datetime", dt.datetime(y, m, d, h, mi, s, ns // 1000), ex
        yield "datetime utc", dt.datetime(y, m, d, h, mi, s, ns // 1000, dt.timezone.utc), ex
        yield "np datetime64[us]", np.datetime64(t // 1000, "us"), ex
        yield "pandas us", pd.Timestamp(t // 1000, unit="us"), ex
        try:
            from obspy import UTCDateTime

            yield "obspy", UTCDateTime(ns=t), ex
        except ImportError:
            pass
    if 400 * tr.NS < t < 4 * 10**9 * tr.NS and t % 10**6 == 0:
        yield "epoch ns", t, ex
        yield "epoch ns np", np.int64(t), ex
    yield "np datetime64[ns]", np.datetime64(t, "ns"), ex
    yield "pandas", pd.Timestamp(t), ex
    yield "pandas utc", pd.Timestamp(t, tz="UTC"), ex
    yield "pandas Tokyo", pd.Timestamp(t, tz="UTC").tz_convert("Asia/Tokyo"), ex
    yield "pandas Denver", pd.Timestamp(t, tz="UTC").tz_convert("America/Denver"), ex
    yield "dict", {"time_stamp": tr.iso(t), "gps_time": False}, ex


def job_rep(part, item):
    from mt_metadata.common import TimePeriod, TimePeriodDate
    from mt_metadata.common.mttime import MDate, MTime

    for t in item:
        base = None
        for lab, raw, ex in reps(t):
            part.transitions += 1
            part.traces += 1
            got = outcome(lambda: MTime(time_stamp=raw))
            if got[0] != "ok":
                part.violation(f"parse {lab}: rejected", f"{raw!r} {got}", {"raw": repr(raw)})
                continue
            m = got[1]
            want = tr.iso(ex, suffix="+00:00")
            y, mo, d, h, mi, s, ns = tr.split(ex)
            checks = [
                ("printed", m.isoformat(), want),
                ("str", str(m), want),
                ("no tz", m.iso_no_tz, want[:-6]),
                ("date", (m.date, m.isodate()), (want[:10],) * 2),
                ("to_dict", m.to_dict(), want),
                ("zone", m.time_stamp.utcoffset(), dt.timedelta(0)),
                ("zone name", str(m.time_stamp.tz), "UTC"),
                (
                    "parts",
                    (m.year, m.month, m.day, m.hour, m.minutes, m.seconds,
                     m.microseconds * 1000 + m.nanoseconds),
                    (y, mo, d, h, mi, s, ns),
                ),
                ("epoch", abs(m.epoch_seconds - ex / 1e9) < 2e-6, True),
                ("reparse", MTime(time_stamp=m.isoformat()).isoformat(), want),
                ("of itself", MTime(time_stamp=m).isoformat(), want),
                ("copy", (m.copy().isoformat(), m.copy() == m), (want, True)),
                ("default flag", m.is_default(), ex == tr.to_ns(1980, 1, 1)),
                ("date type", str(MDate(time_stamp=raw)), want[:10]),
            ]
            tp, other = TimePeriod(start=raw), TimePeriod(end=raw)
            at_default = ex == tr.to_ns(1980, 1, 1)
            checks += [
                ("period start", str(tp.start), want),
                ("period end", str(other.end), want),
                ("period default flags", (tp.start_is_default(), tp.end_is_default()), (at_default, True)),
                ("period default flags", (other.start_is_default(), other.end_is_default()), (True, at_default)),
            ]
            days, later = TimePeriodDate(start_date=raw), TimePeriodDate(end_date=raw)
            day_default = want[:10] == "1980-01-01"
            checks += [
                ("date period", (str(days.start_date), str(later.end_date)), (want[:10], want[:10])),
                ("date period default flags", (days.start_is_default(), days.end_is_default()), (day_default, True)),
                ("date period default flags", (later.start_is_default(), later.end_is_default()), (True, day_default)),
            ]
            q = MTime()
            q.from_dict(raw if not isinstance(raw, dict) else tr.iso(t))
            checks.append(("from_dict", q.isoformat(), want))
            for n, g, w in checks:
                if g != w:
                    part.violation(
                        f"parse {lab}: {n}", f"{raw!r}: got {g!r} expected {w!r}",
                        {"raw": repr(raw), "label": lab},
                    )
            if base is None:
                base = m
            elif not (m == base and base == m and hash(m) == hash(base)) or m != base:
                part.violation(
                    f"parse {lab}: not equal to the same instant", f"{raw!r} {m} {base}",
                    {"raw": repr(raw)},
                )
        part.state(ex)
    part.sample(f"instant {tr.iso(item[0])} in {len(list(reps(item[0])))} representations")


def job_numbers(part, item):
    import numpy as np

    from mt_metadata.common.mttime import MTime

    for n in item:
        want = tr.iso(n * tr.NS, suffix="+00:00")
        for lab, raw in (("int", n), ("float", float(n)), ("np.int64", np.int64(n)), ("np.float64", np.float64(n))):
            part.transitions += 1
            got = outcome(lambda: MTime(time_stamp=raw).isoformat())
            if got != ("ok", want):
                part.violation(f"seconds given as {lab}", f"{raw!r}: {got} expected {want}", {"raw": repr(raw)})
        part.state(n)


RAWKINDS = ["iso", "iso offset 120", "epoch int", "pandas", "pandas Tokyo", "datetime",
            "np datetime64[ns]", "obspy"]


def job_pairs(part, item, all_t):
    from mt_metadata.common.mttime import MDate, MTime

    for a in item:
        A = MTime(time_stamp=tr.iso(a))
        D = MDate(time_stamp=tr.iso(a))
        for b in all_t:
            B = MTime(time_stamp=tr.iso(b))
            part.transitions += 1
            raws = [("MTime", B)] + [(l, r) for l, r, _ in reps(b) if l in RAWKINDS]
            for lab, raw in raws:
                part.traces += 1
                for sym, f in OPS.items():
                    want = f(a, b)
                    got = outcome(f, A, raw)
                    if got != ("ok", want):
                        part.violation(
                            f"compare with {lab}: {sym}",
                            f"{A} {sym} {raw!r}: got {got} expected {want}",
                            {"a": tr.iso(a), "b": tr.iso(b), "op": sym, "kind": lab},
                        )
            if (a == b) and hash(A) != hash(B):
                part.violation("equal times hash differently", f"{A} {B}", {"a": str(A)})
            DB = MDate(time_stamp=tr.iso(b))
            if (D == DB) != (a == b):
                part.violation("date type equality", f"{D.time_stamp} {DB.time_stamp}", {})
            if D == DB and hash(D) != hash(DB):
                part.violation("equal dates hash differently", f"{D} {DB}", {})
            if (len({A, B}) == 1) != (a == b):
                part.violation("set of times", f"{A} {B}", {})


def run(ctx):
    import numpy as np
    import pandas as pd

    from mt_metadata.common.mttime import MDate, MTime

    lat = tr.lattice() if not ctx.quick else tr.lattice(
        years=[1900, 1969, 1970, 1980, 2000, 2016, 2020, 2100, 2199],
        hms=[(0, 0, 0), (12, 34, 56), (23, 59, 59)],
        fr=[0, 1, 500, 501, 1000, 123456000, 123456789, 100000000, 999999000, 999999999],
    )
    # every midnight of two years: the hour 24 of every day
    days = [tr.to_ns(y, 1, 1) + i * tr.DAY * tr.NS for y in (2023, 2024) for i in range(0, 366, 1 if y == 2024 else 6)]
    lat = sorted(set(lat) | set(days))
    ctx.pmap(job_rep, [lat[i : i + 24] for i in range(0, len(lat), 24)])
    pl = sorted(
        set(
            tr.lattice(
                years=[1969, 1970, 2020] if ctx.quick else [1900, 1969, 1970, 1980, 2020, 2199],
                md=[(1, 1), (12, 31)],
                hms=[(0, 0, 0), (23, 59, 59)],
                fr=[0, 1, 1000, 500000000, 999999000],
            )
        )
    )
    ctx.pmap(job_pairs, [pl[i : i + 4] for i in range(0, len(pl), 4)], all_t=pl)
    # numbers of seconds that look round in one base or the other
    rounds = sorted({x + o for x in [i * 10**8 for i in range(-20, 43)] + [sg * 2**k for k in range(33) for sg in (1, -1)]
                     + [sg * m * 10**k for k in range(10) for m in (1, 3, 6) for sg in (1, -1)] + [i * 86400 * 365 for i in range(-60, 100, 8)]
                     for o in (-1, 0, 1) if -2.2e9 < x + o < 4.2e9} | {0})
    ctx.pmap(job_numbers, [rounds[i::16] for i in range(16)])
    before, after = pd.Timestamp.now(tz="UTC"), None
    from mt_metadata.common.mttime import get_now_utc

    for what, f in (("get_now_utc", get_now_utc), ("MTime.now", lambda: MTime().now())):
        ctx.transitions += 1
        got = outcome(lambda: MTime(time_stamp=f()).time_stamp)
        after = pd.Timestamp.now(tz="UTC")
        if got[0] != "ok" or not before - pd.Timedelta(seconds=1) <= got[1] <= after + pd.Timedelta(seconds=1):
            ctx.violation(f"{what} is not the time now", f"{before} {got} {after}", {"now": what})
    # null-likes
    default = "1980-01-01T00:00:00+00:00"
    for raw in (None, "", "none", "None", "NONE", "Na", {}, "null", "Null", "NULL", pd.NaT,
                np.datetime64("NaT")):
        ctx.transitions += 1
        got = outcome(lambda: MTime(time_stamp=raw))
        if got[0] != "ok" or got[1].isoformat() != default or not got[1].is_default():
            ctx.violation(f"null-like {raw!r}", str(got), {"raw": repr(raw)})
        got = outcome(lambda: MDate(time_stamp=raw))
        if got[0] != "ok" or str(got[1]) != default[:10] or not got[1].is_default():
            ctx.violation(f"null-like date {raw!r}", str(got), {"raw": repr(raw)})
    lo, hi = "1677-09-21T00:12:43.145224193+00:00", "2262-04-11T23:47:16.854775807+00:00"
    for y in (1, 2, 100, 999, 1000, 1582, 1600, 1676, 2263, 2400, 3000, 9998, 9999):
        want = lo if y < 1900 else hi
        for md in ("01-01", "12-31"):
            m, d = map(int, md.split("-"))
            for lab, raw in (
                ("iso", f"{y:04d}-{md}T12:00:00"),
                ("iso utc", f"{y:04d}-{md}T12:00:00+00:00"),
                ("date", dt.date(y, m, d)),
                ("datetime", dt.datetime(y, m, d, 5)),
                ("np", np.datetime64(f"{y:04d}-{md}T12:00:00", "us")),
            ):
                ctx.transitions += 1
                got = outcome(lambda: MTime(time_stamp=raw))
                if got[0] != "ok" or got[1].isoformat() != want:
                    ctx.violation(f"clamp {lab}", f"{raw!r}: {got} expected {want}", {"raw": repr(raw)})
                elif MTime(time_stamp=got[1].isoformat()).isoformat() != want:
                    ctx.violation(f"clamped value reparse {lab}", f"{raw!r}", {"raw": repr(raw)})
    for raw in ("not a time", "2020-13-45", "2020-02-30T00:00:00", object(), [1, 2]):
        got = outcome(lambda: MTime(time_stamp=raw))
        ctx.transitions += 1
        if got[0] == "ok":
            ctx.violation(f"impossible time accepted {type(raw).__name__}", f"{raw!r} -> {got[1]}", {})
        if outcome(lambda: MTime() == raw) != ("ok", False):
            ctx.violation("equality with a non-time", f"{raw!r}", {})
    ctx.bounds = {
        "instants": len(lat), "representations_per_instant": "up to 33",
        "pair_instants": len(pl), "comparison_kinds": len(RAWKINDS) + 1,
    }
    ctx.assumptions = [
        "sub-microsecond remainders above 500 ns round to the next microsecond (documented)",
        "float epochs are compared at millisecond values",
    ]
