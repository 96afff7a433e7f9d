"""M19: EDI files written and read back, against the values as the file format rounds them."""
import itertools
import re
import tempfile
from pathlib import Path

from mc.core import Mismatch

VALUES = [0.0, 1.2345678, -3.3e-9, 4.4444444e12, 9.9999996, -1e-30, -7.0, 123456.789]
LATS = [0.0, 1e-4, -1e-4, 0.5, -0.5, -0.999999, 1.0, -1.0, 45.123456, -45.999999, 59.99999999, 90.0, -90.0]
LONS = [0.0, -0.25, 0.25, -1.0, 118.7654321, -118.7654321, -179.999999, 180.0, -180.0]
FORMATS = [dict(longitude_format=a, latlon_format=b) for a in ("LON", "LONG") for b in ("dms", "dd")]
LABELS = "zxx zxy zyx zyy tx ty".split()


def r6(x):
    return float(f"{x:.6e}")


def periods(n, order):
    p = [0.01 * 2.7 ** i for i in range(n)]
    return {"descending": p[::-1], "ascending": p, "shuffled": p[1::2][::-1] + p[::2]}[order]


def data(n, off, q):
    """cells cycle through the values, so that every component meets every value at some offset"""
    import numpy as np

    shape = {"z": (n, 2, 2), "t": (n, 1, 2)}[q[0]]
    m = int(np.prod(shape))
    v = [VALUES[(off + i * (3 if "e" in q else 5) + len(q)) % len(VALUES)] for i in range(2 * m)]
    if "e" in q:
        return np.abs(np.array(v[:m])).reshape(shape)
    return (np.array(v[:m]) + 1j * np.array(v[m:])).reshape(shape)


def rounded(a, err):
    import numpy as np

    a = np.nan_to_num(a)
    if err:
        return np.array([abs(r6(x ** 2)) ** 0.5 for x in a.ravel()]).reshape(a.shape)
    return np.array([complex(r6(x.real), r6(x.imag)) for x in a.ravel()]).reshape(a.shape)


def same(what, got, want, rtol=0.0):
    import numpy as np

    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape", f"{got.shape} expected {want.shape}")
    bad = np.abs(got - want) > rtol * np.abs(want)
    if bad.any() or np.isnan(got).any():
        i = tuple(int(k[0]) for k in np.nonzero(bad | np.isnan(got)))
        raise Mismatch(what, f"at {i}: {got[i]} expected {want[i]}")


def place(what, got, lat, lon, elev, fmt):
    tol = 6e-7 if fmt["latlon_format"] == "dd" else 2e-8
    for k, g, w, t in (("latitude", got[0], lat, tol), ("longitude", got[1], lon, tol), ("elevation", got[2], elev, 6e-4)):
        if g is None or abs(g - w) > t:
            raise Mismatch(f"{what}: {k}", f"{g} expected {w}")


def written(text, fmt):
    """every position of the file, of the site and of the reference, is written in the asked format"""
    kv = [x.strip().split("=", 1) for x in text.splitlines() if re.match(r"\s*(REF)?(LAT|LON|LONG)=", x)]
    lab = fmt["longitude_format"]
    if sorted(k for k, _ in kv) != sorted(["LAT", lab, "REFLAT", "REF" + lab]):
        raise Mismatch("labels of the positions", f"{kv} {fmt}")
    for k, v in kv:
        if (v.count(":") == 2) != (fmt["latlon_format"] == "dms"):
            raise Mismatch(f"format of {k}", f"{v} {fmt}")


def order_of(f):
    """positions of the given frequencies in the order in which they are read: from high to low"""
    import numpy as np

    return np.arange(len(f)) if not f[0] < f[-1] else np.arange(len(f))[::-1]


def edi_item(d, n, order, parts, off, fmt, rot):
    import numpy as np

    from mt_metadata.transfer_functions.io.edi import EDI

    e = EDI()
    f = 1 / np.array(periods(n, order))
    e.frequency = f.copy()
    z, t = data(n, off, "z"), data(n, off, "t")
    ze, te = data(n, off, "ze"), data(n, off, "te")
    if "n" in parts:
        z[0, 0, 1] = np.nan
        ze[-1, 1, 0] = np.nan
    if "z" in parts:
        e.z, e.z_err = z.copy(), ze.copy()
    if "t" in parts:
        e.t, e.t_err = t.copy(), te.copy()
    angles = np.zeros(n)
    if rot == "one":
        e.rotation_angle = 12.5
        angles += 12.5
    elif rot == "each":
        angles = np.array([-30 + 7.25 * i for i in range(n)])
        e.rotation_angle = angles.copy()
    e.station, e.lat, e.lon, e.elev = "mt01", -0.25, 120.5, 10.5
    fn = Path(d) / "e.edi"
    e.write(fn, **fmt)
    g = EDI()
    g.read(fn)
    k = order_of(f)
    same("frequency", g.frequency, [r6(x) for x in f[k]])
    same("impedance", g.z, rounded(z, 0)[k] if "z" in parts else np.zeros((n, 2, 2)))
    same("impedance error", g.z_err, rounded(ze, 1)[k] if "z" in parts else np.zeros((n, 2, 2)), 1e-12)
    has_t = "t" in parts and np.any(t != 0)
    same("tipper", g.t, rounded(t, 0)[k] if has_t else np.zeros((n, 1, 2)))
    same("tipper error", g.t_err, rounded(te, 1)[k] if has_t else np.zeros((n, 1, 2)), 1e-12)
    same("rotation", g.rotation_angle, [r6(x) for x in angles[k]])
    if g.station != "mt01":
        raise Mismatch("station", str(g.station))
    place("site", (g.lat, g.lon, g.elev), -0.25, 120.5, 10.5, fmt)
    h = EDI()
    g2 = Path(d) / "g.edi"
    g.write(g2, **fmt)
    h.read(g2)
    for what, a, b in (("frequency", h.frequency, g.frequency), ("impedance", h.z, g.z), ("tipper", h.t, g.t), ("rotation", h.rotation_angle, g.rotation_angle)):
        same(f"second writing: {what}", a, b)
    same("second writing: impedance error", h.z_err, g.z_err, 1e-12)
    same("second writing: tipper error", h.t_err, g.t_err, 1e-12)
    return n, order, parts, off


def edi_place(d, lat, lon, elev, fmt, name):
    import numpy as np

    from mt_metadata.transfer_functions.io.edi import EDI

    e = EDI()
    e.frequency, e.z, e.z_err = np.array([3.0, 2.0]), np.ones((2, 2, 2), complex), np.ones((2, 2, 2))
    e.station, e.lat, e.lon, e.elev = name, lat, lon, elev
    e.Measurement.reflat, e.Measurement.reflon, e.Measurement.refelev = lat, lon, elev
    for turn in (1, 2):
        fn = Path(d) / f"p{turn}.edi"
        e.write(fn, **fmt)
        e = EDI()
        e.read(fn)
        written(fn.read_text(), fmt)
        place("site", (e.lat, e.lon, e.elev), lat, lon, elev, fmt)
        place("reference", (e.Measurement.reflat, e.Measurement.reflon, e.Measurement.refelev), lat, lon, elev, fmt)
        if e.station != name:
            raise Mismatch("station", f"{e.station} expected {name}")
    return round(e.lat, 6), round(e.lon, 6), name


def clean(fn):
    return [x for x in Path(fn).read_text().splitlines() if not re.search("filedate|processed_date|file.date|original_|progvers|creation_time", x, re.I)]


def rho_item(d, n, order, comps, phase, errors):
    """a file that gives apparent resistivity and phase instead of impedance"""
    import numpy as np

    from mt_metadata.transfer_functions.io.edi import EDI

    f = 1 / np.array(periods(n, order))
    block = lambda name, v: [f">{name} ROT=RHOROT //{len(v)}"] + [" ".join(f"{x: .10e}" for x in v[i : i + 5]) for i in range(0, len(v), 5)]
    lines = [">HEAD", "DATAID=mt01", "LAT=10:00:00", "LONG=20:00:00", "ELEV=5", "EMPTY=1.0E+32", "", ">INFO", "", ">=DEFINEMEAS", "MAXCHAN=4",
             ">HMEAS ID=101.001 CHTYPE=HX X=0.0 Y=0.0 Z=0.0 AZM=0.0", ">HMEAS ID=102.001 CHTYPE=HY X=0.0 Y=0.0 Z=0.0 AZM=90.0",
             ">EMEAS ID=103.001 CHTYPE=EX X=-5.0 Y=0.0 Z=0.0 X2=5.0 Y2=0.0 Z2=0.0", ">EMEAS ID=104.001 CHTYPE=EY X=0.0 Y=-5.0 Z=0.0 X2=0.0 Y2=5.0 Z2=0.0",
             "", ">=MTSECT", 'SECTID="mt01"', f"NFREQ={n}", "HX=101.001", "HY=102.001", "EX=103.001", "EY=104.001", ""]
    lines += block("FREQ", f)
    angles = np.arange(n) * 5.0
    lines += block("RHOROT", angles)
    want, werr = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2))
    for c in comps:
        i, j = "xy".index(c[0]), "xy".index(c[1])
        k = 1 + 2 * i + j
        rho, ph = 100.0 * k + np.arange(n), phase + np.linspace(-1, 1, n) * k
        lines += block("RHO" + c.upper(), rho) + block("PHS" + c.upper(), ph)
        if errors:
            lines += block(f"RHO{c.upper()}.ERR", rho / 10) + block(f"PHS{c.upper()}.ERR", 1 + ph * 0)
            werr[:, i, j] = np.deg2rad(1) * np.sqrt(5 * f * rho)
        want[:, i, j] = np.sqrt(5 * f * rho) * np.exp(1j * np.deg2rad(ph))
        if c == "yx" and 0 < phase < 90:
            want[:, i, j] *= -1
    fn = Path(d) / "r.edi"
    fn.write_text("\n".join(lines + [">END", ""]))
    e = EDI()
    e.read(fn)
    k = order_of(f)
    same("resistivity and phase: frequency", e.frequency, f[k], 1e-9)
    if (abs(e.z - want[k]) > 1e-8 * abs(want[k]) + 1e-300).any():
        raise Mismatch("impedance from resistivity and phase", f"{e.z.tolist()} expected {want[k].tolist()}")
    same("error from resistivity and phase", e.z_err, werr[k], 1e-8)
    same("resistivity and phase: rotation", e.rotation_angle, angles[k], 1e-9)
    return n, order, comps, phase, errors


def tf_data(tf):
    return {q: getattr(tf, q) for q in ("impedance", "tipper", "impedance_error", "tipper_error")}


def compare_tf(what, a, b, rtol):
    """the periods and data of two transfer functions, in order of the period"""
    import numpy as np

    ka = np.argsort(a.period)
    same(f"{what}: periods", b.period, a.period[ka], rtol)
    for q, x in tf_data(a).items():
        y = getattr(b, q)
        if (x is None) != (y is None):
            raise Mismatch(f"{what}: {q} present", f"{x is not None} then {y is not None}")
        if x is not None:
            same(f"{what}: {q}", y.data, np.nan_to_num(x.data[ka]), rtol)


def tf_item(d, n, order, parts, off, lat, lon, elev, fmt, name):
    import numpy as np

    from mt_metadata.transfer_functions.core import TF

    tf = TF(period=np.array(periods(n, order)))
    if "z" in parts:
        tf.impedance, tf.impedance_error = data(n, off, "z"), data(n, off, "ze")
    if "t" in parts:
        tf.tipper, tf.tipper_error = data(n, off, "t"), data(n, off, "te")
    tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation = name, "zz9", lat, lon, elev
    before = tf.copy()
    fns = [Path(d) / f"t{i}.edi" for i in range(4)]
    tf.write(fns[0], **fmt)
    for q in ("impedance", "tipper"):
        x, y = getattr(before, q), getattr(tf, q)
        if (x is None) != (y is None) or x is not None and not (x.data == y.data).all():
            raise Mismatch("writing changes the transfer function", q)
    prev = before
    for i in (1, 2, 3):
        cur = TF()
        cur.read(fns[i - 1])
        compare_tf("first reading" if i == 1 else "reading again", prev, cur, 1e-6 if i == 1 else 1e-12)
        place("site", (cur.latitude, cur.longitude, cur.elevation), lat, lon, elev, fmt)
        if (cur.station, cur.survey) != (name, "zz9"):
            raise Mismatch("site: name", f"{cur.station} {cur.survey} expected {name} zz9")
        if i < 3:
            cur.write(fns[i], **fmt)
        prev = cur
    a, b = clean(fns[1]), clean(fns[2])
    if a != b:
        x = [p for p in zip(a, b) if p[0] != p[1]] or [(len(a), len(b))]
        raise Mismatch("file changes when read and written again", str(x[0]))
    return n, order, parts, name


def bundled_item(d, fn):
    from mt_metadata.transfer_functions.core import TF

    cur = TF()
    cur.read(fn)
    texts = []
    for i in range(3):
        out = Path(d) / f"b{i}.edi"
        cur.write(out)
        texts.append(clean(out))
        nxt = TF()
        nxt.read(out)
        compare_tf("bundled", cur, nxt, 2e-6 if i == 0 else 1e-12)
        place("bundled site", (nxt.latitude, nxt.longitude, nxt.elevation), cur.latitude, cur.longitude, cur.elevation, FORMATS[0])
        if nxt.station != cur.station:
            raise Mismatch("bundled site: name", f"{nxt.station} expected {cur.station}")
        cur = nxt
    if texts[2] != texts[1] and len(texts[2]) != len(texts[1]):
        raise Mismatch("bundled file does not settle", f"{len(texts[1])} {len(texts[2])} lines")
    return fn.name


KINDS = {"edi": edi_item, "place": edi_place, "rho": rho_item, "tf": tf_item, "bundled": bundled_item}


def job(part, items):
    with tempfile.TemporaryDirectory() as d:
        for kind, args in items:
            part.traces += 1
            part.transitions += 2
            try:
                s = KINDS[kind](d, *args)
                part.state((kind, str(s)))
                part.sample(f"{kind} {args}")
            except Mismatch as e:
                part.violation(f"{kind}: {e.sig}", f"{args} {e.detail}", {"item": [kind, [str(a) if isinstance(a, Path) else a for a in args]]})
            except Exception as e:
                import traceback

                part.violation(f"{kind}: raises {type(e).__name__}", f"{args} {traceback.format_exc()[-600:]}",
                               {"item": [kind, [str(a) if isinstance(a, Path) else a for a in args]]})


def bundled():
    import mt_metadata

    return sorted(Path(mt_metadata.__file__).parent.glob("data/transfer_functions/*.edi"))


def cases(quick):
    out = []
    for n in range(1, 14 if quick else 26):
        for order in ("descending", "ascending"):
            for parts in ("z", "t", "zt", "ztn"):
                for off in range(len(VALUES)) if not quick else (n % 8, (n + 3) % 8):
                    out.append(("edi", (n, order, parts, off, FORMATS[(n + off) % 4], ("none", "one", "each")[(n + off + len(parts)) % 3])))
    for off in range(len(VALUES)):
        for rot in ("none", "one", "each"):
            for order in ("descending", "ascending"):
                for n in (2, 6):
                    out.append(("edi", (n, order, "zt", off, FORMATS[off % 4], rot)))
    for order in ("descending", "ascending"):
        for comps in (("xy", "yx"), ("xx", "xy", "yx", "yy"), ("yx",)):
            for phase in (-170.0, -135.0, -91.5, -45.0, 10.0, 45.0, 80.0, 120.0, 170.0):
                for n in (1, 3, 7):
                    out.append(("rho", (n, order, comps, phase, (n + len(comps)) % 2)))
    names = ["mt01", "MT01", "a_b", "01", "s1"]
    elevs = [0.0, 0.5, -12.345, 8848.0]
    for i, (lat, lon) in enumerate(itertools.product(LATS, LONS)):
        for fmt in FORMATS if not quick else (FORMATS[i % 2 * 2], FORMATS[1 + i % 2 * 2]):
            out.append(("place", (lat, lon, elevs[i % 4], fmt, names[i % len(names)])))
    for i, (n, order, parts, lat) in enumerate(itertools.product((1, 2, 7), ("descending", "ascending"), ("z", "t", "zt"), (-0.5, 40.25) if quick else LATS[::2])):
        for fmt in FORMATS if not quick else FORMATS[i % 4 : i % 4 + 1]:
            out.append(("tf", (n, order, parts, i % 8, lat, LONS[i % len(LONS)], elevs[i % 4], fmt, names[i % len(names)])))
    out += [("bundled", (f,)) for f in bundled()]
    return out


def run(ctx):
    work = cases(ctx.quick)
    slow = [w for w in work if w[0] in ("tf", "bundled")]
    fast = [w for w in work if w[0] not in ("tf", "bundled")]
    ctx.pmap(job, [[w] for w in slow] + [fast[i : i + 10] for i in range(0, len(fast), 10)])
    ctx.bounds = {"periods": "1 to 13" if ctx.quick else "1 to 25", "values": VALUES, "latitudes": LATS, "longitudes": LONS, "formats": FORMATS,
                  "bundled_files": len(bundled()), "generations_of_files": 3}
    ctx.assumptions = ["7 significant digits in the file, the value 1e32 stands for an empty cell, which is read as zero like a zero and a NaN",
                       "frequencies are monotonic; dates and program names written into the file are not compared"]


def replay(data):
    from mc.core import Part

    p = Part()
    kind, args = data["item"]
    if kind == "bundled":
        args = [Path(args[0])]
    job(p, [(kind, args)])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, d)
