"""Positions: degrees/minutes/seconds text against integer arithmetic, ranges, every way of setting."""
import itertools
import math
from fractions import Fraction

from mc.core import outcome

U = 10**4  # the text form keeps 1e-4 seconds
SECS = [Fraction(0), Fraction(1, 10**4), Fraction(3, 10**5), Fraction(295, 10), Fraction(59), Fraction(599999, 10**4),
        Fraction(5999996, 10**5), Fraction(59999999, 10**6), Fraction(5999993, 10**5), Fraction(123456, 10**4)]


def parse(text):
    """(sign, units of 1e-4 s) of a D:M:S text, or None"""
    p = text.strip().split(":")
    if len(p) != 3:
        return None
    neg = p[0].strip().startswith("-")
    d, m, s = int(p[0].strip().lstrip("+-")), Fraction(p[1]), Fraction(p[2])
    if m.denominator != 1 or not 0 <= m < 60 or not 0 <= s < 60:
        return None
    return (-1 if neg else 1), (d * 3600 + m * 60 + s) * U


def one(part, pos, case):
    from mt_metadata.utils.location_helpers import convert_position_float2str as f2s
    from mt_metadata.utils.location_helpers import convert_position_str2float as s2f

    part.traces += 1
    part.transitions += 3
    got = outcome(f2s, pos)
    if got[0] != "ok" or not isinstance(got[1], str):
        return part.violation("a position is not written", f"{case}: {got}", case)
    r = parse(got[1])
    if r is None:
        return part.violation("a position is written with impossible minutes or seconds", f"{case}: {got}", case)
    exact = Fraction(pos) * 3600 * U
    sign, units = r
    if abs(sign * units - exact) > Fraction(1, 2) + Fraction(1, 1000) * (1 + abs(exact) / 10**8):
        return part.violation("a position is written wrong", f"{case}: {pos!r} -> {got[1]}", case)
    back = outcome(s2f, got[1])
    if back[0] != "ok" or abs(Fraction(back[1]) * 3600 * U - sign * units) > Fraction(1, 1000):
        return part.violation("a written position is read wrong", f"{case}: {got[1]} -> {back}", case)
    again = outcome(f2s, back[1])
    if again[0] != "ok" or parse(again[1]) is None or (
            parse(again[1]) != r and not (parse(again[1])[1] == 0 == units)):
        part.violation("writing a read position again changes it", f"{case}: {got[1]} -> {back[1]!r} -> {again}", case)


def job_grid(part, item, secs):
    for minute in item:
        for s in secs:
            for sign in (1, -1):
                pos = sign * float(Fraction(minute, 60) + s / 3600)
                part.state(pos)
                one(part, pos, {"position": pos})
        if minute % 60 == 0:
            one(part, minute // 60, {"position": minute // 60})
            for sign in (1, -1):
                for to in (math.inf, -math.inf):
                    p = math.nextafter(sign * minute / 60, to)
                    one(part, p, {"position": p})
    part.sample(f"arc minutes from {item[0]}")


LIM = {"latitude": 90, "longitude": 180}


def classes():
    """(class, latitude names, longitude names)"""
    from mt_metadata.common.location import BasicLocation, BasicLocationNoDatum, Location, StationLocation
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement, Header
    from mt_metadata.transfer_functions.io.zonge.metadata import GPS

    full = (["latitude", "lat"], ["longitude", "lon", "long"])
    return [(c, *full) for c in (BasicLocationNoDatum, BasicLocation, Location, StationLocation)] + [
        (Header, ["latitude"], ["longitude"]), (DefineMeasurement, ["reflat"], ["reflon"]), (GPS, ["lat"], ["lon"])]


def cases(field, quick):
    """(raw, exact value or None when it must be refused)"""
    lim = LIM[field]
    base = [0, 1, 0.5, 45.25, 1 / 3, 0.001, 1e-9, 89.999999, lim - 1e-9, lim, math.nextafter(lim, 0),
            math.nextafter(lim, math.inf), lim + 1e-9, lim + 1, 2 * lim, 1e6, 90.5, 179.75, 0.25 / 3600]
    for b in base:
        for v in (b, -b):
            want = v if abs(v) <= lim else None
            yield v, want
            yield repr(v), want
            yield f" {v!r} ", want
    for v in (math.nan, math.inf, -math.inf):
        yield v, None
        yield str(v), None
    for raw in ("abc", "", "12:30", "1:2:3:4", "a:b:c", "12:xx:00"):
        yield raw, None
    degs = [0, 1, 9, 10, 89, 90, 91, 179, 180, 181]
    for d, m, s in itertools.product(degs, (0, 1, 30, 59), ("00", "01", "30.25", "59.9999", "59.999999")):
        v = Fraction(d) + Fraction(m, 60) + Fraction(s) / 3600
        for sg in ("", "-", "+") if not quick or m in (0, 59) else ("", "-"):
            x = -v if sg == "-" else v
            for fmt in ("{}{}:{}:{}", "{}{:02d}:{:02d}:{}", "{}{:03d}:{:02d}:{}"):
                if fmt != "{}{}:{}:{}" and quick and sg == "+":
                    continue
                yield fmt.format(sg, d, m, s), float(x) if abs(x) <= lim else None


def same(a, b):
    return isinstance(a, float) and (a == b or abs(a - b) <= 4e-16 * max(1.0, abs(b)) * 4)


def job_set(part, item, quick):
    (cls, la, lo), kind = item
    al = la if kind == "latitude" else lo
    field, other = al[0], (lo if kind == "latitude" else la)[0]
    for raw, want in cases(kind, quick):
        case = {"class": cls.__name__, "field": kind, "value": repr(raw)}
        part.state((cls.__name__, field, repr(raw)))
        part.traces += 1

        def construct(name):
            return lambda: cls(**{name: raw, other: 12.5})

        def assign():
            o = cls(**{field: 7.25, other: 12.5})
            try:
                setattr(o, field, raw)
            except Exception:
                if getattr(o, field) != 7.25 or getattr(o, other) != 12.5:
                    return "a refused value changes the object"
                raise
            return o

        def load():
            o = cls(**{field: 7.25, other: 12.5})
            o.from_dict({cls.__name__: {field: raw}})
            return o

        ways = [("construct", construct(al[0])), ("assign", assign), ("from dict", load)]
        ways += [(f"construct {n}", construct(n)) for n in al[1:]]
        for name, f in ways:
            part.transitions += 1
            got = outcome(f)
            if got[0] == "ok" and isinstance(got[1], str):
                part.violation(f"{name}: {got[1]}", f"{case}", case)
            elif want is None:
                if got[0] == "ok":
                    part.violation(f"{field} impossible value accepted: {name}", f"{case}: {getattr(got[1], field)}", case)
            elif got[0] != "ok":
                part.violation(f"{field} refused: {name}", f"{case}: {got}", case)
            elif not same(getattr(got[1], field), float(want)):
                part.violation(f"{field} changed: {name}", f"{case}: {getattr(got[1], field)!r} expected {want!r}", case)
            elif getattr(got[1], other) != 12.5:
                part.violation(f"setting {field} changes {other}: {name}", f"{case}", case)
    part.sample(f"{cls.__name__}.{field}")


def job_hist(part, item, depth):
    """sequences of assignments on one object: each field keeps the last accepted value"""
    from mt_metadata.timeseries import Station

    vals = {"latitude": [0.0, "-0:30:00", 90, "90:00:00.1", -91.0, "45:30:15"],
            "longitude": ["-180:00:00", 180.5, "-0:00:36", 179.999]}
    num = {"-0:30:00": -0.5, "45:30:15": 45.504166666666667, "-180:00:00": -180.0, "-0:00:36": -0.01, "90:00:00.1": 99}
    ops = [(f, v) for f in vals for v in vals[f]]
    for first in item:
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = (first,) + rest
            part.state(seq)
            part.traces += 1
            st = Station(id="mt01")
            want = {"latitude": st.location.latitude, "longitude": st.location.longitude}
            for f, v in seq:
                part.transitions += 1
                x = num.get(v, v)
                ok = abs(x) <= LIM[f]
                got = outcome(setattr, st.location, f, v)
                if ok:
                    want[f] = float(x)
                case = {"history": [list(o) for o in seq]}
                if (got[0] == "ok") != ok:
                    part.violation(f"history: {f} {'refused' if ok else 'accepted'}", f"{seq}: {got}", case)
                for g in want:
                    if abs(getattr(st.location, g) - want[g]) > 1e-12:
                        part.violation(f"history: {g} after setting {f}", f"{seq}: {getattr(st.location, g)} {want}", case)


def run(ctx):
    q = ctx.quick
    secs = SECS[:8] if q else SECS + [Fraction(k) for k in range(1, 59, 4)]
    mins = list(range(0, 180 * 60 + 1))
    if q:  # every arc minute, the full second lattice on degree boundaries
        near = [m for m in mins if m % 60 in (0, 1, 30, 59)]
        rest = [m for m in mins if m % 60 not in (0, 1, 30, 59)]
        ctx.pmap(job_grid, [rest[i : i + 300] for i in range(0, len(rest), 300)], secs=[SECS[0], SECS[6]])
        mins = near
    ctx.pmap(job_grid, [mins[i : i + 200] for i in range(0, len(mins), 200)], secs=secs)
    ctx.pmap(job_set, [(c, f) for c in classes() for f in LIM], quick=q)
    depth = 3 if q else 4
    ops = [("latitude", v) for v in (0.0, "-0:30:00", 90, "90:00:00.1", -91.0, "45:30:15")] + \
          [("longitude", v) for v in ("-180:00:00", 180.5, "-0:00:36", 179.999)]
    ctx.pmap(job_hist, [[o] for o in ops], depth=depth)
    ctx.bounds = {"arc_minutes": 180 * 60 + 1, "signs": 2, "seconds_per_minute": len(secs),
                  "classes": len(classes()), "history_depth": depth}
    ctx.assumptions = ["the text form keeps 1e-4 seconds; None means position 0"]


def replay(data):
    from mc.core import Part

    p = Part()
    if "position" in data:
        one(p, data["position"], data)
    elif "class" in data:
        job_set(p, [(c, data["field"]) for c in classes() if c[0].__name__ == data["class"]][0], False)
    else:
        job_hist(p, [tuple(data["history"][0])], len(data["history"]))
    return p
