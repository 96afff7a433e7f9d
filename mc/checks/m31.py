"""Zonge AVG files: generated files read and written again, against the numbers written in them."""
import cmath
import itertools
import math
import tempfile
from pathlib import Path

from mc.core import outcome

Z = {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1)}
T = {"tzx": (0, 0), "tzy": (0, 1)}
COMPS = list(Z) + list(T)
SMOOTH = ["Robust", "Normal", "None", "Minimal"]
FREQS = [["7.3242E-4", "2.3438E-2", "0.1875"], ["0.25", "1", "96"], ["1.5", "1024", "10240"]]
LOCS = [("32.83331167", "-107.08305667"), ("-0.5", "179.9"), ("0", "0"), ("66.25", "10.125")]
MAGS = ["1.3930E+00", "3.0425E+01", "1.0000E-03", "9.9999E+04", "4.8156E+00", "7.0000E-01", "0.0000E+00"]
PHASES = ["-2228.9", "1231.8", "0", "-3141.5", "3044.6", "785.4", "-0.1", "1570.8"]
ERRS = ["98.4", "22.6", "168", "0.5", "0.0", "11.9"]
RES = ["1.6558E+01", "5.9243E+03", "6.3787E+00", "6.9053E-01"]
HPR = ["0", "12.5", "-30"]
# what a row of a component can be
CELLS = ["value", "gone", "star"]


def text_of(case):
    lat, lon = LOCS[case["loc"]]
    smooth = SMOOTH[case["smooth"]]
    st = case["station"]
    col = "Skp,Freq,      E.mag,      B.mag,      Z.mag,      Z.phz,   ARes.mag,   ARes.%err,Z.perr,  Coher,   FC.NUse,FC.NTry"
    lines = [" ", f"$Survey.Type={case['type']}", "$Survey.Array=Tensor", "$Tx.Type=Natural ",
             "$MTEdit:Version=3.10m applied 2021/01/27", "$MTEdit:Auto.PhaseFlip=Yes",
             f"$MTEdit:PhaseSlope.Smooth={smooth}", "$MTEdit:PhaseSlope.toZmag=No", "$MTEdit:DPlus.Use=No"]
    if case["new"]:
        lines += ["$GDP.Date=05/16/2022", "$GDP.Time=23:46:18.000", "$GDP.Type=Zen", "$GDP.ProgVer=4457:ZenACQv5.22",
                  "$Unit.Length=m", f"$GPS.Lat={lat}", f"$GPS.Lon={lon}", "$GPS.Datum=WGS84", f"$Rx.GdpStn= {st}",
                  f"$Stn.Name= {st}", "$Rx.HPR=11,0,180", " "]
    else:
        lines += [f"$Rx.GdpStn= {st}", "$Rx.Length=100 M", f"$Rx.HPR={HPR[case['off'] % 3]},0,180", f"$GPS.Lat={lat}", f"$GPS.Lon={lon}",
                  "$Unit.Length=m", col]
    says = {}
    for c, cells in case["blocks"]:
        i = COMPS.index(c)
        lines.append(f"$Rx.Cmp = {c.capitalize()}{case['ref']}{' ' if case['new'] else ''}")
        if case["new"]:
            lines += [f"$Rx.Length={50 + i} m", "$Rx.Center=311288:4281879:1548.1 m", "$Ch.ADCardSN=7A07B42B,5EE2EE6B",
                      "$Ch.GdpBox=17,17", f"$Ch.Stn={st},{st}", f"$Ch.Number={21 + i},{2374 + i}",
                      f"$Ch.Cmp={'E' if c in Z else 'H'}{c[1] if c in Z else 'z'},H{c[2]}",
                      f"$Ch.Azimuth={11.5 + i},{101.5 + i}", f"$Ch.Incl={i},{i - 7}", col]
        for j, (f, cell) in enumerate(zip(FREQS[case["freqs"]], cells)):
            if cell == "gone":
                continue
            mag = MAGS[(2 * i + 3 * j + case["off"]) % len(MAGS)]
            ph = PHASES[(3 * i + 5 * j + case["off"]) % len(PHASES)]
            res, err = RES[(i + j) % len(RES)], ERRS[(i + 2 * j) % len(ERRS)]
            coh = "*" if cell == "star" else "0.971"
            lines.append(f"2,  {f}, 7.8081E-01, 2.9611E-01, {mag}, {ph}, {res}, {err}, 514.3, {coh}, 8, 16")
            z = cmath.rect(float(mag), float(ph) / 1000)
            says.setdefault(c, {})[float(f)] = (z, math.sqrt(float(err) / 100 * float(res) * 5 * float(f)))
    return "\n".join(lines) + "\n", says


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def compare(bad, where, freq, z, ze, t, says, up):
    """z and t against what the file says"""
    want = sorted({f for c in says.values() for f in c})
    got = [float(f) for f in freq]
    if len(got) != len(want) or any(not close(a, b) for a, b in zip(got, want)):
        bad(f"frequencies {where}", f"{got} expected {want}")
        return
    has_t = "tzx" in says and says["tzx"]
    if (t is not None) != bool(has_t):
        bad(f"whether there is tipper {where}", f"{t is not None}")
        return
    for k, f in enumerate(want):
        for c, (i, m) in Z.items():
            v, e = says.get(c, {}).get(f, (0, 1.0))
            if up:
                i, m = 1 - i, 1 - m
            if not close(complex(z[k, i, m]), v):
                bad(f"impedance {where}", f"{c} {f}: {z[k, i, m]} expected {v}")
            if not close(float(ze[k, i, m]), e):
                bad(f"impedance error {where}", f"{c} {f}: {ze[k, i, m]} expected {e}")
        if t is not None:
            for c, (i, m) in T.items():
                v = says.get(c, {}).get(f, (0, 1.0))[0]
                if up:
                    m, v = 1 - m, -v
                if not close(complex(t[k, i, m]), v):
                    bad(f"tipper {where}", f"{c} {f}: {t[k, i, m]} expected {v}")


def job(part, item):
    from mt_metadata.transfer_functions import TF
    from mt_metadata.transfer_functions.io.zonge import ZongeMTAvg

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            part.transitions += 4

            def bad(kind, detail):
                part.violation(kind, f"{case}: {detail}", case)

            text, says = text_of(case)
            fn = Path(d) / "in.avg"
            fn.write_text(text)
            up = case["up"]
            if case["ref"] and any(c in T for c in says):
                raise AssertionError("reference names only with impedance")
            objs = {}
            for name, make in (("read", lambda: ZongeMTAvg(z_positive="up" if up else "down")),):
                a = make()
                objs[name] = a
                r = outcome(a.read, fn)
                if r[0] != "ok":
                    bad("an AVG file is refused", str(r))
                    break
                compare(bad, "of an AVG file", a.frequency, a.z, a.z_err, a.t, says, up)
            if r[0] != "ok":
                continue
            if fn.read_text() != text:
                bad("reading changes the file", "")
            lat, lon = (float(x) for x in LOCS[case["loc"]])
            h = a.header
            if [h.station, h.latitude, h.longitude] != [case["station"].lower(), lat, lon]:
                bad("station and location of an AVG file", f"{h.station} {h.latitude} {h.longitude}")
            tf = TF(fn)
            r = outcome(tf.read, z_positive="up" if up else "down")
            if r[0] != "ok":
                bad("an AVG file is refused by a transfer function", str(r))
                continue
            zz = tf.impedance.data if tf.impedance is not None else None
            if zz is None:
                if any(abs(v[0]) for c in Z for v in says.get(c, {}).values()):
                    bad("no impedance in the transfer function", "")
            else:
                compare(bad, "of the transfer function", 1 / tf.period, zz, tf.impedance_error.data,
                        tf.tipper.data if tf.has_tipper() else (None if a.t is None else a.t), says, up)
            got = [tf.station, tf.tf_id, tf.latitude, tf.longitude, str(getattr(tf.station_metadata.data_type, "value",
                                                                                tf.station_metadata.data_type))]
            if got != [case["station"].lower()] * 2 + [lat, lon, case["type"]]:
                bad("station and location of the transfer function", f"{got}")
            run = {c.component: c for c in tf.run_metadata.channels}
            if case["new"] and not case["ref"] and {"zxy", "zyx"} <= set(says):
                for e, c in (("ex", "zxy"), ("ey", "zyx")):
                    i = COMPS.index(c)
                    g = [run[e].dipole_length, run[e].measurement_azimuth, run[e].channel_id, run[e].translated_azimuth,
                         run[e].measurement_tilt, run[e].translated_tilt]
                    if g != [50.0 + i, 11.5 + i, str(21 + i), 11.5 + i, i, i]:
                        bad(f"channel {e}", f"{g}")
                for b, c in (("hx", "zyx"), ("hy", "zxy")):
                    i = COMPS.index(c)
                    g = [run[b].measurement_azimuth, run[b].sensor.id, run[b].translated_azimuth, run[b].measurement_tilt,
                         run[b].translated_tilt]
                    if g != [101.5 + i, str(2374 + i), 101.5 + i, i - 7, i - 7]:
                        bad(f"channel {b}", f"{g}")
                if "tzx" in says:
                    i = COMPS.index("tzx")
                    g = [run["hz"].sensor.id, run["hz"].measurement_azimuth, run["hz"].measurement_tilt]
                    if g != [str(2374 + i), 101.5 + i, i - 7]:
                        bad("channel hz", f"{g}")
                lg = tf.run_metadata.data_logger
                if (str(lg.type).lower(), lg.manufacturer, lg.firmware.version) != ("zen", "Zonge International", "4457"):
                    bad("data logger", f"{lg}")
                if "zxx" in says and lg.id != "17":
                    bad("data logger id", f"{lg}")
                if {str(c.time_period.start) for n, c in run.items() if n != "hz"} != {"2022-05-16T23:46:18+00:00"}:
                    bad("start of the channels", f"{[(n, str(c.time_period.start)) for n, c in run.items()]}")
                if tf.run_metadata.time_period.start != "2022-05-16T23:46:18+00:00":
                    bad("start of the run", f"{tf.run_metadata.time_period.start}")
            elif not case["new"] and "zxy" in says:
                g = [run["ex"].dipole_length, run["ey"].dipole_length] + [run[c].measurement_azimuth for c in ("ex", "ey", "hx", "hy")]
                x = float(HPR[case["off"] % 3])
                if g != [100.0, 100.0, x, x + 90, x, x + 90]:
                    bad("channels of a file without channel headers", f"{g}")
            if ("hz" in run) != ("tzx" in says):
                bad("vertical channel", f"{sorted(run)}")
            # written again
            out = Path(d) / "out.avg"
            w = outcome(a.write, out)
            b = ZongeMTAvg(z_positive="up" if up else "down")
            r = outcome(b.read, out) if w[0] == "ok" else None
            if w[0] != "ok" or r[0] != "ok":
                bad("an AVG file cannot be written and read back", f"{w} {r}")
                continue
            compare(bad, "of a written file", b.frequency, b.z, b.z_err, b.t, says, up)
            if [b.header.station, b.header.latitude, b.header.longitude] != [h.station] + [round(x, 7) for x in (lat, lon)]:
                bad("station and location of a written file", f"{b.header.station} {b.header.latitude}")
            if [b.header.rx.length, b.header.rx.h_p_r, str(b.header.m_t_edit.phase_slope.smooth)] != [
                    h.rx.length, h.rx.h_p_r, str(h.m_t_edit.phase_slope.smooth)]:
                bad("header of a written file", f"{b.header.rx} {b.header.m_t_edit}")
            # arrays without a table of the file
            x = ZongeMTAvg(z_positive="up" if up else "down")
            x.header, x.frequency, x.z, x.z_err = a.header, a.frequency, a.z, a.z_err * 0
            w = outcome(x.write, out)
            y = ZongeMTAvg(z_positive="up" if up else "down")
            r = outcome(y.read, out) if w[0] == "ok" else None
            if w[0] != "ok" or r[0] != "ok":
                bad("arrays cannot be written and read back", f"{w} {r}")
                continue
            tol = abs(a.z) * 2e-4 + 1e-12
            if y.z.shape != a.z.shape or (abs(y.z - a.z) > tol).any():
                bad("impedance written from arrays", f"{y.z} expected {a.z}")
    part.sample(str(item[0])[:300])


def cases(q):
    full = ("value",) * 3

    def case(blocks, k, **kw):
        d = {"blocks": blocks, "freqs": k % len(FREQS), "loc": k % len(LOCS), "smooth": k // 2 % len(SMOOTH),
             "station": ("24", "2813", "mt01")[k % 3], "type": ("NSAMT", "MT")[k % 2], "new": k % 2 == 0,
             "off": k % 7, "up": k % 4 == 3, "ref": ""}
        d.update(kw)
        return d

    k = 0
    for c in COMPS:
        for cells in itertools.product(CELLS, repeat=3):
            k += 1
            yield case([(x, cells if x == c else full) for x in COMPS], k)
    for n in range(1, 7):
        for some in itertools.combinations(COMPS, n):
            if not set(some) & set(Z) or "tzy" in some and "tzx" not in some:
                continue
            for alt in (full, ("gone", "value", "value")):
                k += 1
                b = [(c, full if i % 2 else alt) for i, c in enumerate(some)]
                yield case(b, k)
                if not set(some) & set(T):
                    yield case(b, k, ref="r", new=True)
    for j, some in enumerate(itertools.permutations(COMPS)):
        if q and j % 6:
            continue
        k += 1
        yield case([(c, full if i % 2 else ("value", "gone", "value")) for i, c in enumerate(some)], k)
    for f, l, s, t, new, off, up in itertools.product(range(3), range(4), range(4), ("NSAMT", "MT"), (True, False),
                                                      range(7), (True, False)):
        k += 1
        if q and (f + l + s + off) % 4:
            continue
        yield case([(c, full) for c in COMPS], k, freqs=f, loc=l, smooth=s, type=t, new=new, off=off, up=up)


def run(ctx):
    items = list(cases(ctx.quick))
    ctx.pmap(job, [items[i : i + 8] for i in range(0, len(items), 8)])
    ctx.bounds = {"frequencies": 3, "rows": "3 kinds of rows in one component, or any subset of components",
                  "files": len(items)}
    ctx.assumptions = ["the tipper error is not looked at", "names of stations are in lower case"]


def replay(data):
    from mc.core import Part

    p = Part()
    data = dict(data)
    data["blocks"] = [tuple(b) for b in data["blocks"]]
    job(p, [data])
    return p
