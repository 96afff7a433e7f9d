"""M21: EMTF Z-files written and read back; files with every orientation of the channels read against a reference."""
import itertools
import math
import tempfile
from pathlib import Path

from mc.checks.m19 import same
from mc.core import Mismatch

VALUES = [1.2345678, -3.3e-9, 4.4444444e8, 0.0, -7.0, 0.0123456, 12345.6789, -1e-12]
LAYOUTS = {"ztc": [("hx", "hy", "hz", "ex", "ey"), ("hx", "hy", "ex", "ey", "hz")],
           "zc": [("hx", "hy", "ex", "ey")], "tc": [("hx", "hy", "hz")]}
LATS = [0.0, 0.5, -0.999, 45.123, -90.0, 90.0]
LONS = [0.0, -0.25, 118.765, -118.765, 180.0, 200.5, 359.75]
NAMES = ["mt01", "MT01", "300", "s1"]
NOMENCLATURES = [None, dict(ex="e1", ey="e2", hx="bx", hy="by", hz="bz")]


def r5(x):
    return float(f"{x:.4E}")


def rc(a):
    import numpy as np

    return np.array([complex(r5(x.real), r5(x.imag)) for x in a.ravel()]).reshape(a.shape)


def periods(n, order):
    p = [round(0.01 * 2.7 ** i, 5) for i in range(n)]
    return p if order == "ascending" else p[::-1]


def cells(n, shape, off):
    import numpy as np

    m = n * shape[0] * shape[1]
    v = [VALUES[(off + 5 * i + i // 7) % len(VALUES)] for i in range(2 * m)]
    return (np.array(v[:m]) + 1j * np.array(v[m:])).reshape((n,) + shape)


def covs(n, size, off):
    """positive hermitian matrices with entries of the file's precision"""
    import numpy as np

    out = []
    for k in range(n):
        a = np.array([[complex(((off + 3 * i + 5 * j + k) % 7) - 2.5, ((off + i + 2 * j * k) % 5) - 1.5)
                       for j in range(size)] for i in range(size)]) * 10.0 ** ((off + k) % 5 - 2)
        a = a @ a.conj().T + np.eye(size) * 0.37
        low = np.tril(rc(a), -1)
        out.append(low + low.conj().T + np.diag([r5(x) for x in np.diag(a).real]))
    return np.array(out)


def errors(isp, res):
    import numpy as np

    s = np.abs(np.diagonal(isp, axis1=1, axis2=2))
    e = np.abs(np.diagonal(res, axis1=1, axis2=2))
    return np.sqrt(e[:, :, None] * s[:, None, :])


def near(what, got, want, rel):
    """equal up to a fraction of the largest entry of each matrix"""
    import numpy as np

    got, want = np.nan_to_num(np.asarray(got)), np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape", f"{got.shape} expected {want.shape}")
    for k in range(len(want)):
        d = np.abs(got[k] - want[k]).max()
        if d > rel * np.abs(want[k]).max() + 1e-300:
            raise Mismatch(what, f"at {k}: {got[k].tolist()} expected {want[k].tolist()}")


def check(what, tf, n, per, tfs, isp, res, outs, rel):
    """tfs: rows in the order of outs, outs within ex, ey, hz"""
    import numpy as np

    same(f"{what}: periods", tf.period, per, 1e-9)
    err = errors(isp, res)
    for q, rows in (("impedance", ["ex", "ey"]), ("tipper", ["hz"])):
        x, xe = getattr(tf, q), getattr(tf, q + "_error")
        if rows[0] not in outs:
            if x is not None and np.any(np.nan_to_num(x.data) != 0):
                raise Mismatch(f"{what}: {q} invented", str(x.data))
            continue
        i = [outs.index(r) for r in rows]
        if x is None:
            if np.any(tfs[:, i] != 0):
                raise Mismatch(f"{what}: {q} lost")
            continue
        near(f"{what}: {q}", x.data, tfs[:, i], rel)
        if np.any(err[:, i]):
            near(f"{what}: {q}_error", xe.data, err[:, i], max(rel, 1e-6) * 10)
    want = np.zeros((n, 3, 3), complex)
    for a, b in itertools.product(range(len(outs)), repeat=2):
        i, j = (["ex", "ey", "hz"].index(outs[k]) for k in (a, b))
        want[:, i, j] = res[:, a, b]
    for q, w in (("inverse_signal_power", isp), ("residual_covariance", want)):
        x = getattr(tf, q)
        if x is None:
            if np.any(w != 0):
                raise Mismatch(f"{what}: {q} lost")
            continue
        near(f"{what}: {q}", x.data, w, max(rel, 1e-6))


def head(what, tf, name, lat, lon, decl, proc):
    lon = lon - 360 if lon > 180 else lon
    got = (tf.station, tf.latitude, tf.longitude, tf.station_metadata.location.declination.value,
           tf.station_metadata.transfer_function.processing_type)
    want = (name, lat, lon, decl, proc)
    if got[0] != want[0] or any(abs(a - b) > 1e-9 for a, b in zip(got[1:4], want[1:4])) or (got[4] or "") != proc:
        raise Mismatch(f"{what}: header", f"{got} expected {want}")


def text(name, lat, lon, decl, layout, az, per, tfs, isp, res, blocks):
    """a Z-file written independently of the package"""
    out = [" TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES", " ********* WITH FULL ERROR COVARIANCE ********",
           "Robust Single station", f"station    :{name}", f"coordinate {lat:9.3f} {lon:9.3f}  declination {decl:8.2f}",
           f"number of channels {len(layout):3d}   number of frequencies {len(per):4d}",
           " orientations and tilts of each channel"]
    for i, c in enumerate(layout):
        out.append(f"{i + 1:5d} {az[c]:8.2f} {0:8.2f} {name}  {c.capitalize()}")
    out.append("")

    def line(xs):
        return "".join(f"{x.real:12.4E}{x.imag:12.4E}" for x in xs)

    for k, p in enumerate(per):
        lev, lo, hi, npts, rate = blocks[k]
        out += [f"period :{p:14.5f}    decimation level {lev:3d}    freq. band from {lo:4d} to {hi:4d}",
                f"number of data point {npts:6d} sampling freq. {rate:12.5f} Hz", " Transfer Functions"]
        out += [line(r) for r in tfs[k]]
        out.append(" Inverse Coherent Signal Power Matrix")
        out += [line(isp[k][i][: i + 1]) for i in range(2)]
        out.append(" Residual Covariance")
        out += [line(res[k][i][: i + 1]) for i in range(len(layout) - 2)]
    return "\n".join(out) + "\n"


def axes(a, b):
    """columns: unit vectors of two channels"""
    import numpy as np

    return np.array([[math.cos(math.radians(a)), math.cos(math.radians(b))],
                     [math.sin(math.radians(a)), math.sin(math.radians(b))]])


def rotated(tfs, isp, res, outs, az, angle):
    """fields are the sums of the components along the axes of the channels"""
    import numpy as np

    h = axes(az["hx"] - angle, az["hy"] - angle)
    v = np.eye(len(outs))
    if "ex" in outs:
        i = [outs.index("ex"), outs.index("ey")]
        v[np.ix_(i, i)] = axes(az["ex"] - angle, az["ey"] - angle)
    hi = np.linalg.inv(h)
    # E = v e = v Z h_m, h_m = inv(h) H; <H H*> = h <h_m h_m*> h'
    return v @ tfs @ hi, hi.T @ isp @ hi, v @ res @ v.T


def read_item(d, n, parts, layout, az, decl, mode, off, name, lat, lon):
    from mt_metadata.transfer_functions.core import TF

    import numpy as np

    outs = layout[2:]
    az = dict(zip(("hx", "hy", "ex", "ey", "hz"), tuple(az) + (0.0,)))
    per = periods(n, ("ascending", "descending")[off % 2])
    tfs, isp, res = rc(cells(n, (len(outs), 2), off)), covs(n, 2, off), covs(n, len(outs), off + 1)
    blocks = [(k % 3 + 1, 5 + k, 9 + 2 * k, 1000 + k, 8.0 / (k % 3 + 1)) for k in range(n)]
    fn = Path(d) / ("r.zmm" if "z" in parts else "r.zss")
    fn.write_text(text(name, lat, lon, decl, layout, az, per, tfs, isp, res, blocks))
    kw = {"plain": dict(rotate_to_measurement_coordinates=False), "axes": {}, "declination": dict(use_declination=True)}[mode]
    angle = -decl if mode == "declination" else 0.0
    want = (tfs, isp, res) if mode == "plain" else rotated(tfs, isp, res, list(outs), az, angle)
    tf = TF()
    tf.read(fn, **kw)
    check(f"reading ({mode})", tf, n, per, *want, list(outs), 3e-6)
    head("reading", tf, name, lat, lon, decl, "Robust Single station")
    run = tf.station_metadata.runs[0]
    for c in layout:
        ch = run.get_channel(c)
        if abs(ch.measurement_azimuth - az[c]) > 1e-9:
            raise Mismatch("reading: azimuth", f"{c} {ch.measurement_azimuth} expected {az[c]}")
    # written again, the file is one of the data as they are
    f2 = fn.with_name("w" + fn.suffix)
    tf.write(f2)
    got = TF()
    got.read(f2, **kw)
    check(f"written again ({mode})", got, n, per, *want, list(outs), 3e-4)
    head("written again", got, name, lat, lon, decl, "Robust Single station")
    for p, b in zip(per, blocks):
        g = got.decimation_dict[f"{p:.10g}"]
        if (g["level"], tuple(g["bands"]), g["npts"]) != (b[0], b[1:3], b[3]) or abs(g["sample_rate"] - b[4]) > 1e-5:
            raise Mismatch("written again: decimation", f"{g} expected {b}")
    return n, parts, mode


def tf_item(d, n, order, parts, meta, nom, off, name, lat, lon):
    import numpy as np

    from mt_metadata.timeseries import Electric, Magnetic, Run
    from mt_metadata.transfer_functions.core import TF

    per = periods(n, order)
    kw = {} if nom is None else {"channel_nomenclature": dict(nom)}
    tf = TF(period=np.array(per), **kw)
    outs = (["ex", "ey"] if "z" in parts else []) + (["hz"] if "t" in parts else [])
    vals, isp, res = cells(n, (len(outs), 2), off), np.zeros((n, 2, 2), complex), np.zeros((n, len(outs), len(outs)), complex)
    if "c" in parts:
        isp, res = covs(n, 2, off), covs(n, len(outs), off + 1)
        full = np.zeros((n, 3, 3), complex)
        i = [["ex", "ey", "hz"].index(o) for o in outs]
        for a, b in itertools.product(range(len(outs)), repeat=2):
            full[:, i[a], i[b]] = res[:, a, b]
        tf.inverse_signal_power, tf.residual_covariance = isp, full
    if "z" in parts:
        tf.impedance = vals[:, :2]
    if "t" in parts:
        tf.tipper = vals[:, -1:]
    tf.station, tf.latitude, tf.longitude = name, lat, lon
    names = nom or {c: c for c in ("ex", "ey", "hx", "hy", "hz")}
    if meta:
        run = Run(id="a", sample_rate=8.0)
        for c in ["hx", "hy"] + outs:
            cls = Electric if c[0] == "e" else Magnetic
            run.add_channel(cls(component=names[c], measurement_azimuth=90 if c[1] == "y" else 0))
        tf.station_metadata.runs = [run]
    fns = [Path(d) / f"t{i}.zmm" for i in range(3)]
    tf.write(fns[0])
    q = {k: None if getattr(tf, k) is None else getattr(tf, k).data.copy() for k in ("impedance", "tipper")}
    for k, x in q.items():
        w = {"impedance": vals[:, :2] if "z" in parts else None, "tipper": vals[:, -1:] if "t" in parts else None}[k]
        if (x is not None and np.any(x)) != (w is not None and np.any(w)) or x is not None and w is not None and not (x == w).all():
            raise Mismatch("writing changes the transfer function", k)
    src = tf
    for i in range(3):
        cur = TF()
        cur.read(fns[i])
        what = "reading" if i == 0 else "reading again"
        check(what, cur, n, per, rc(vals), isp, res, outs, 3e-7)
        lo = lon - 360 if lon > 180 else lon
        if cur.station != name or abs(cur.latitude - lat) > 6e-4 or abs(cur.longitude - lo) > 6e-4:
            raise Mismatch(f"{what}: site", f"{cur.station} {cur.latitude} {cur.longitude}")
        run = cur.station_metadata.runs[0]
        seen = [(c, run.get_channel(c).measurement_azimuth, run.get_channel(c).type) for c in run.channels_recorded_all]
        want = [(c, 90.0 if c[1] == "y" else 0.0, "electric" if c[0] == "e" else "magnetic") for c in sorted(["hx", "hy"] + outs)]
        if sorted(seen) != want:
            raise Mismatch(f"{what}: channels", f"{seen} expected {want}")
        order = [x.split()[-1].lower() for x in fns[i].read_text().split("\n")
                 if x.split() and x.split()[0].isdigit() and x.split()[-1].lower() in ("ex", "ey", "hx", "hy", "hz")]
        if order != ["hx", "hy"] + [c for c in ("hz", "ex", "ey") if c in outs]:
            raise Mismatch(f"{what}: order of the channels in the file", str(order))
        if i < 2:
            cur.write(fns[i + 1])
    a, b = ([x for x in f.read_text().split("\n") if "E+" not in x and "E-" not in x] for f in fns[1:])
    if a != b:
        raise Mismatch("file changes when read and written again", str([x for x in zip(a, b) if x[0] != x[1]][:1]))
    return n, order, parts


def bundled_item(d, fn):
    from mt_metadata.transfer_functions.core import TF

    import numpy as np

    tf = TF()
    tf.read(fn)
    out = Path(d) / ("b" + fn.suffix)
    tf.write(out)
    got = TF()
    got.read(out)
    same("bundled: periods", got.period, tf.period, 1e-9)
    for q in ("impedance", "tipper", "impedance_error", "tipper_error", "inverse_signal_power", "residual_covariance"):
        a, b = getattr(tf, q), getattr(got, q)
        if (a is None) != (b is None):
            raise Mismatch(f"bundled: {q}", f"{a} became {b}")
        if a is not None:
            same(f"bundled: {q}", np.nan_to_num(b.data), np.nan_to_num(a.data), 1e-6)
    if got.station != tf.station or abs(got.latitude - tf.latitude) > 1e-9 or abs(got.longitude - tf.longitude) > 1e-9:
        raise Mismatch("bundled: site", f"{got.station} {got.latitude} {got.longitude}")
    return fn.name


KINDS = {"read": read_item, "tf": tf_item, "bundled": bundled_item}


def job(part, items):
    with tempfile.TemporaryDirectory() as d:
        for kind, args in items:
            part.traces += 1
            part.transitions += 3
            rep = {"item": [kind, [str(a) if isinstance(a, Path) else a for a in args]]}
            try:
                KINDS[kind](d, *args)
                part.state((kind, str(args)))
                part.sample(f"{kind} {args}")
            except Mismatch as e:
                part.violation(f"{kind}: {e.sig}", f"{args} {e.detail}", rep)
            except Exception as e:
                import traceback

                part.violation(f"{kind}: raises {type(e).__name__}", f"{args} {traceback.format_exc()[-700:]}", rep)


def bundled():
    import mt_metadata

    base = Path(mt_metadata.__file__).parent / "data/transfer_functions"
    return sorted(f for f in base.iterdir() if f.suffix in (".zmm", ".zrr", ".zss"))


def cases(quick):
    out = []
    i = 0
    # hx, hy, ex, ey: aligned, turned together, turned apart, turned over, oblique
    turns = [(0, 90, 0, 90), (20, 110, 20, 110), (-33.25, 56.75, 0, 90), (0, 90, 13.5, 103.5), (90, 0, 0, 90), (0, -90, 90, 0),
             (350, 80, 170, 260), (10, 85, -5, 97), (180, 270, 45, 135)]
    if not quick:
        turns += [(a, a + s, b, b + t) for a in (0, 45, 130, -77.5) for b in (0, 60, 200) for s in (90, -90, 80) for t in (90, -90, 95)]
    for n in (1, 2, 5) if quick else (1, 2, 3, 5, 12):
        for az, mode in itertools.product(turns, ("plain", "axes", "declination")):
            for parts, lays in LAYOUTS.items():
                for lay in lays:
                    if quick and n != 2 and lay != lays[0]:
                        continue
                    out.append(("read", (n, parts, lay, az, (0.0, 13.1, -7.25)[i % 3], mode, i % 8, NAMES[i % len(NAMES)],
                                         LATS[i % len(LATS)], LONS[i % len(LONS)])))
                    i += 1
    for n in (1, 2, 3) if quick else (1, 2, 3, 7, 20):
        for order, parts, meta, nom in itertools.product(("ascending", "descending"), ("ztc", "zc", "tc", "zt", "z", "t"),
                                                         (False, True), NOMENCLATURES):
            for off in (i % 8,) if quick else range(8):
                out.append(("tf", (n, order, parts, meta, nom, off, NAMES[i % len(NAMES)],
                                   LATS[i % len(LATS)], LONS[i % len(LONS)] if LONS[i % len(LONS)] <= 180 else 7.5)))
                i += 1
    out += [("bundled", (f,)) for f in bundled()]
    return out


def run(ctx):
    work = cases(ctx.quick)
    ctx.pmap(job, [work[i : i + 6] for i in range(0, len(work), 6)])
    ctx.bounds = {"cases": len(work), "periods": "1 to 5" if ctx.quick else "1 to 20", "values": VALUES, "layouts": LAYOUTS,
                  "generations_of_files": 3}
    ctx.assumptions = ["the file holds 5 digits, periods and coordinates with fixed decimals; errors follow from the covariances",
                       "oblique channels are components whose vector sum is the field; horizontal channels are recorded in pairs",
                       "station names are not rewritten for files without a 'station' label"]


def replay(data):
    from mc.core import Part

    p = Part()
    kind, args = data["item"]
    args = [Path(args[0])] if kind == "bundled" else [tuple(a) if isinstance(a, list) else a for a in args]
    job(p, [(kind, args)])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, d)
