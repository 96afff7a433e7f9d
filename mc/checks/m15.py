"""M15: FDSN channel codes encode rate, kind and direction consistently.

Reference: the FDSN band, instrument and orientation tables written down here.
"""
import math

from mc.core import Mismatch

BANDS = {"F": (1000, 5000), "G": (1000, 5000), "D": (250, 1000), "C": (250, 1000), "E": (80, 250), "H": (80, 250),
         "S": (10, 80), "B": (10, 80), "M": (1, 10), "L": (0.95, 1.05), "V": (0.095, 0.105), "U": (0.0095, 0.0105),
         "R": (1e-4, 1e-3), "P": (1e-5, 1e-4), "T": (1e-6, 1e-5), "Q": (0, 1e-6)}
KINDS = {"tilt": "A", "creep": "B", "calibration": "C", "pressure": "D", "magnetic": "F", "gravity": "G", "humidity": "I",
         "temperature": "K", "water_current": "O", "electric": "Q", "rain_fall": "R", "linear_strain": "S", "tide": "T", "wind": "W"}
SECTOR = {"N": (0, 15), "1": (15, 45), "2": (45, 75), "E": (75, 90)}
AXIS = {"N": "x", "1": "x", "E": "y", "2": "y", "Z": "z", "3": "z"}
PRE = {"electric": "e", "magnetic": "h"}


def fold(az):
    """angle from the north-south line, 0..90"""
    a = az % 180.0
    return min(a, 180.0 - a)


def near_edge(az):
    return any(abs(fold(az) - e) < 1e-9 for e in (15, 45, 75))


def direction(az, vertical):
    a = fold(az)
    if vertical:
        ok = {"Z"} if a < 15 else {"3"}
        return ok if abs(a - 15) > 1e-9 else {"Z", "3"}
    return {k for k, (lo, hi) in SECTOR.items() if lo - 1e-9 <= a <= hi + 1e-9}


def rates(quick):
    out = {0.0, 1e-7, 5e-7, 3e-6, 3e-5, 5e-4, 0.01, 0.1, 1.0, 2.0, 4.0, 5.0, 8.0, 15.0, 16.0, 24.0, 32.0, 64.0, 100.0, 128.0,
           150.0, 256.0, 512.0, 640.0, 2000.0, 2400.0, 4096.0, 5000.0}
    for lo, hi in BANDS.values():
        for x in (lo, hi):
            out |= {x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x * 1.001, x * 0.999, x * 1.2, x * 0.8}
    if not quick:
        out |= {float(i) for i in range(1, 5001)} | {10 ** (-7 + i / 50) for i in range(530)}
    return sorted(r for r in out if r >= 0)


def azimuths(quick):
    out = {float(a) for a in range(-540, 541)} | {a for a in range(-360, 361, 5)}
    for k in range(-4, 5):
        for e in (15, 45, 75):
            for s in (1, -1):
                for d in (1e-6, -1e-6, 0.25, -0.25):
                    out.add(180.0 * k + s * e + d)
    if not quick:
        out |= {a / 10 for a in range(-3600, 3601)}
    return sorted(out)


def one_rate(part, rs):
    from mt_metadata.timeseries.stationxml import fdsn_tools as F

    for r in rs:
        part.traces += 1
        part.transitions += 1
        ok = {k for k, (lo, hi) in BANDS.items() if lo <= r <= hi}
        got = F.get_period_code(r)
        part.state(("rate", r, got))
        if ok and got not in ok:
            part.violation("band letter does not contain the sample rate", f"{r} -> {got}, containing: {sorted(ok)}", {"rate": r})
        if not ok and got in BANDS:
            part.violation("a sample rate outside every band gets a band letter", f"{r} -> {got}", {"rate": r})


def one_azimuth(part, azs):
    from mt_metadata.timeseries.stationxml import fdsn_tools as F

    for az in azs:
        for vert in (False, True):
            o = "vertical" if vert else "horizontal"
            part.traces += 1
            part.transitions += 7
            got = F.get_orientation_code(az, orientation=o)
            part.state(("azimuth", az, vert, got))
            rep = {"azimuth": az, "vertical": vert}
            if got not in direction(az, vert):
                part.violation(f"{o} direction letter of an azimuth", f"{az} -> {got}, expected {sorted(direction(az, vert))}", rep)
            if not near_edge(az):
                for k in (-2, -1, 1, 2):
                    g2 = F.get_orientation_code(az + 360 * k, orientation=o)
                    if g2 != got:
                        part.violation("direction letter depends on whole turns", f"{az} -> {got}, {az + 360 * k} -> {g2}", rep)
                for other in (-az, 180 - az):
                    g2 = F.get_orientation_code(other, orientation=o)
                    if g2 != got:
                        part.violation("direction letter of the mirrored azimuth", f"{az} -> {got}, {other} -> {g2}", rep)


def code_round(part, item):
    from mt_metadata.timeseries.stationxml import fdsn_tools as F

    for rate, kind, az, vert in item:
        part.traces += 1
        part.transitions += 3
        rep = {"rate": rate, "kind": kind, "azimuth": az, "vertical": vert}
        try:
            o = "vertical" if vert else "horizontal"
            code = F.make_channel_code(rate, kind, az, orientation=o)
            part.state(("code", code, rate, az))
            if len(code) != 3:
                raise Mismatch("length of a channel code", f"{rep} -> {code}")
            low = kind.lower()
            if code[1] != KINDS.get(low, "Y"):
                raise Mismatch(f"instrument letter of {low}", f"{code}")
            if low not in KINDS:
                try:
                    F.read_channel_code(code)
                    raise Mismatch("a code of unknown kind is read", code)
                except ValueError:
                    continue
            back = F.read_channel_code(code)
            if code[0] in BANDS:
                lo, hi = back["period"]["min"], back["period"]["max"]
                if not lo <= rate <= hi or (lo, hi) != BANDS[code[0]]:
                    raise Mismatch("range read from a code", f"{rep} {code} {back['period']}")
            want = "magnetic" if low == "tide" else low
            if back["measurement"] != want:
                raise Mismatch(f"kind read from the code of {low}", f"{code} {back['measurement']}")
            if isinstance(az, str):
                letter = {"x": "N", "y": "E", "z": "Z"}[az.lower()]
                if code[2] != letter:
                    raise Mismatch("direction letter of a named axis", f"{az} -> {code}")
            elif not vert:
                a, v = back["orientation"]["angle"], back["orientation"]["variance"]
                if not a - v - 1e-9 <= fold(az) <= a + v + 1e-9:
                    raise Mismatch("direction read from a code", f"{rep} {code} {back['orientation']}")
            if want in PRE:
                comp = F.create_mt_component(code)
                axis = AXIS[code[2]]
                if comp != PRE[want] + axis:
                    raise Mismatch("component read from a code", f"{code} -> {comp}")
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            part.violation(f"{type(e).__name__} for a channel code", f"{rep} {e}", rep)


def codes_bad(part, item):
    """every three letter code over the alphabet: read exactly when its letters are known"""
    from mt_metadata.timeseries.stationxml import fdsn_tools as F

    letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for a in item:
        for b in letters:
            for c in letters + "123456":
                part.traces += 1
                code = a + b + c
                ok = b in KINDS.values() and c in "NEZ123"
                try:
                    r = F.read_channel_code(code)
                    got = True
                except ValueError:
                    got = False
                part.state(("read", code))
                if got != ok:
                    part.violation("a channel code is read although it is unknown" if got else "a valid channel code is refused", code, {"code": code})
                elif ok:
                    kind = next(k for k, v in KINDS.items() if v == b)
                    if r["measurement"] != ("magnetic" if kind == "tide" else kind):
                        part.violation("kind read from a code", f"{code} {r}", {"code": code})
                    if a in BANDS and (r["period"]["min"], r["period"]["max"]) != BANDS[a]:
                        part.violation("range read from a code", f"{code} {r}", {"code": code})


def location_codes(part, item):
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic
    from mt_metadata.timeseries.stationxml import fdsn_tools as F

    for comp, n in item:
        cls = Electric if comp[0] == "e" else Magnetic if comp[0] == "h" else Auxiliary
        ch = cls(component=comp, channel_number=n)
        part.traces += 1
        got = F.create_location_code(ch)
        if got != f"{comp[0].upper()}{n % 10}":
            part.violation("location code", f"{comp} {n} -> {got}", {"location": [comp, n]})
        part.state(("loc", comp, n))


def run(ctx):
    rs, azs = rates(ctx.quick), azimuths(ctx.quick)
    ctx.pmap(one_rate, [rs[i::4] for i in range(4)])
    ctx.pmap(one_azimuth, [azs[i::8] for i in range(8)])
    kinds = list(KINDS) + [k.upper() for k in KINDS] + [k.capitalize() for k in KINDS] + ["auxiliary"]
    few_az = [0.0, 10.0, 20, 30.5, 44.0, 46.0, 60.0, 76.0, 90, 104.0, 106.0, 140.0, 179.0, 181.0, 200.0, 271.0, 359.0, -7.0, -91.0,
              "x", "y", "z", "X", "Y", "Z"]
    some = [r for i, r in enumerate(rates(True)) if i % (3 if ctx.quick else 1) == 0]
    jobs = [(r, k, a, v) for r in some for k in kinds for a in few_az for v in (False, True)]
    ctx.pmap(code_round, [jobs[i::32] for i in range(32)])
    ctx.pmap(codes_bad, ["ABCDEFGH", "IJKLMNOP", "QRSTUVW", "XYZ"])
    ctx.pmap(location_codes, [[(c, n) for c in ("ex", "hy", "temperature", "bx") for n in range(0, 131)]])
    ctx.bounds = {"rates": len(rs), "azimuths": len(azs), "codes": len(jobs), "three_letter_codes": 26 * 26 * 32}
    ctx.assumptions = ["rates in the gaps between the tabulated bands get the administrative letter, which is outside the claim",
                       "instrument letter T is read as magnetic (documented)"]


def replay(data):
    from mc.core import Part

    p = Part()
    if set(data) == {"rate"}:
        one_rate(p, [data["rate"]])
    elif "code" in data:
        codes_bad(p, [data["code"][0]])
    elif "location" in data:
        location_codes(p, [data["location"]])
    elif "kind" in data:
        code_round(p, [(data["rate"], data["kind"], data["azimuth"], data["vertical"])])
    else:
        one_azimuth(p, [data["azimuth"]])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
