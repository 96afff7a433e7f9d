"""M20: EMTF XML files written and read back, against the values as the file format rounds them."""
import itertools
import tempfile
from pathlib import Path

from mc.checks.m19 import LATS, LONS, VALUES, data, periods, r6, same
from mc.core import Mismatch

ELEV = [0.0, 0.5, -12.345, 8848.0]
NAMES = ["mt01", "MT01", "a1b", "01", "s1"]
SURVEYS = [("zz9", ""), ("zz9", "Yukon"), ("CONUS", "South"), ("a1", "R&D <1>")]
QUANT = ("impedance", "tipper", "impedance_error", "tipper_error", "inverse_signal_power", "residual_covariance")


def cov(n, off, size, real_diag=False):
    """complex cells that cycle through the values"""
    import numpy as np

    m = n * size * size
    v = [VALUES[(off + 3 * i) % len(VALUES)] for i in range(2 * m)]
    return (np.array(v[:m]) + 1j * np.array(v[m:])).reshape(n, size, size)


def rc(a):
    import numpy as np

    return np.array([complex(r6(x.real), r6(x.imag)) for x in a.ravel()]).reshape(a.shape)


def rv(a):
    import numpy as np

    return np.array([r6(x) for x in a.ravel()]).reshape(a.shape)


def tf_of(n, order, parts, off):
    import numpy as np

    from mt_metadata.transfer_functions.core import TF

    tf = TF(period=np.array(periods(n, order)))
    if "c" in parts:
        r = np.zeros((n, 3, 3), complex)
        if "z" in parts:
            r[:, :2, :2] = cov(n, off + 1, 2)
        if "t" in parts:
            r[:, 2, 2] = cov(n, off + 2, 1)[:, 0, 0]
        tf.inverse_signal_power, tf.residual_covariance = cov(n, off, 2), r
    if "z" in parts:
        tf.impedance, tf.impedance_error = data(n, off, "z"), data(n, off, "ze")
    if "t" in parts:
        tf.tipper, tf.tipper_error = data(n, off, "t"), data(n, off, "te")
    return tf


def plain(a):
    """cells without a value: zero or the marker of the format, 1e32 (1e16 as an error)"""
    import numpy as np

    a = np.array(a)
    return np.where(np.abs(a.real) >= 9.9e15, 0, a)


def expect(tf):
    """what the file keeps of a transfer function"""
    import numpy as np

    out = {"periods": np.array([float(f"{p:.12e}") for p in tf.period])}
    for q in QUANT:
        x = getattr(tf, q)
        if x is None:
            out[q] = None
        elif "error" in q:
            out[q] = plain(np.sqrt(rv(np.nan_to_num(x.data) ** 2)))
        else:
            out[q] = plain(rc(np.nan_to_num(x.data)))
    return out


def compare(what, tf, want, rtol=1e-12):
    import numpy as np

    same(f"{what}: periods", tf.period, want["periods"], 1e-12)
    for q in QUANT:
        x = getattr(tf, q)
        if want[q] is None:
            # an estimate that is not in the file is absent or zero
            if x is not None and np.any(np.nan_to_num(x.data) != 0):
                raise Mismatch(f"{what}: {q} invented", str(x.data.ravel()[:4]))
            continue
        if x is None:
            if np.any(want[q] != 0):
                raise Mismatch(f"{what}: {q} lost")
            continue
        same(f"{what}: {q}", plain(x.data), want[q], rtol)


def clean(fn):
    return [x for x in Path(fn).read_text(encoding="utf-8").splitlines()
            if "CreateTime" not in x and "CreatingApplication" not in x]


def place(what, tf, lat, lon, elev):
    for k, g, w, t in (("latitude", tf.latitude, lat, 6e-7), ("longitude", tf.longitude, lon, 6e-7),
                       ("elevation", tf.elevation, elev, 6e-4)):
        if g is None or abs(g - w) > t:
            raise Mismatch(f"{what}: {k}", f"{g} expected {w}")


def tf_item(d, n, order, parts, off, lat, lon, elev, name, survey):
    from mt_metadata.transfer_functions.core import TF

    tf = tf_of(n, order, parts, off)
    tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation = name, survey[0], lat, lon, elev
    if survey[1]:
        tf.survey_metadata.geographic_name = survey[1]
    want = expect(tf)
    fns = [Path(d) / f"t{i}.xml" for i in range(3)]
    tf.write(fns[0])
    now = expect(tf)
    for q in want:
        a, b = want[q], now[q]
        if (a is None) != (b is None) or a is not None and not (a == b).all():
            raise Mismatch("writing changes the transfer function", q)
    for i in (0, 1, 2):
        cur = TF()
        cur.read(fns[i])
        compare("reading" if i == 0 else "reading again", cur, want)
        place("site", cur, lat, lon, elev)
        if cur.station != name:
            raise Mismatch("site: name", f"{cur.station} expected {name}")
        label = cur.survey_metadata.geographic_name
        if label != (survey[1] or survey[0]):
            raise Mismatch("site: survey", f"{label!r} expected {survey}")
        if i < 2:
            cur.write(fns[i + 1])
    a, b = clean(fns[1]), clean(fns[2])
    if a != b:
        x = [p for p in zip(a, b) if p[0] != p[1]] or [(len(a), len(b))]
        raise Mismatch("file changes when read and written again", str(x[0]))
    return n, order, parts, name


DATA = {"z": (2, 2), "z_var": (2, 2), "z_invsigcov": (2, 2), "z_residcov": (2, 2),
        "t": (1, 2), "t_var": (1, 2), "t_invsigcov": (2, 2), "t_residcov": (1, 1)}


def obj_item(d, n, order, keys, off):
    """the file object itself, with any set of estimates"""
    import numpy as np

    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.emtfxml import EMTFXML

    e = EMTFXML()
    p = np.array(periods(n, order))
    e.data.period = p
    want = {}
    for j, k in enumerate(keys):
        m = n * DATA[k][0] * DATA[k][1]
        v = [VALUES[(off + 5 * i + 3 * j) % len(VALUES)] for i in range(2 * m)]
        a = np.array(v[:m]) + 1j * np.array(v[m:])
        a = a.reshape((n,) + DATA[k])
        if "var" in k:
            a = np.abs(a.real)
        setattr(e.data, k, a.copy())
        want[k] = rv(a) if "var" in k else rc(a)
    e.site.id, e.site.survey = "mt01", "zz9"
    e.site.location.latitude, e.site.location.longitude, e.site.location.elevation = -0.5, 120.25, 10.5
    fn = Path(d) / "o.xml"
    e.write(fn)
    for k in keys:
        if not (getattr(e.data, k) != 0).tolist() == (want[k] != 0).tolist():
            raise Mismatch("writing changes the data of the file object", k)
    g = EMTFXML()
    g.read(fn)
    for turn in ("reading", "reading again"):
        same(f"{turn}: periods", g.data.period, [float(f"{x:.12e}") for x in p])
        for k, s in DATA.items():
            x = getattr(g.data, k)
            same(f"{turn}: {k}", plain(x) if x is not None else np.zeros((n,) + s), want.get(k, np.zeros((n,) + s)))
        loc = g.site.location
        if (g.site.id, g.site.survey, loc.latitude, loc.longitude, loc.elevation) != ("mt01", "zz9", -0.5, 120.25, 10.5):
            raise Mismatch(f"{turn}: site", f"{g.site}")
        if turn == "reading":
            out = Path(d) / "o2.xml"
            g.write(out)
            g = EMTFXML()
            g.read(out)
    tf = TF()
    tf.read(fn)
    exp = {q: None for q in QUANT}
    exp["periods"] = [float(f"{x:.12e}") for x in p]
    for a, b in (("z", "impedance"), ("t", "tipper")):
        if a in keys:
            exp[b] = want[a]
        if a + "_var" in keys:
            exp[b + "_error"] = np.sqrt(want[a + "_var"])
    s = want.get("z_invsigcov", want.get("t_invsigcov"))
    if "z_invsigcov" not in keys or "t_invsigcov" not in keys:
        exp["inverse_signal_power"] = s
    else:
        x = tf.inverse_signal_power
        exp["inverse_signal_power"] = s if x is not None and (plain(x.data) == s).all() else want["t_invsigcov"]
    r = np.zeros((n, 3, 3), complex)
    if "z_residcov" in keys:
        r[:, :2, :2] = want["z_residcov"]
    if "t_residcov" in keys:
        r[:, 2, 2] = want["t_residcov"][:, 0, 0]
    if r.any():
        exp["residual_covariance"] = r
    # errors that follow from the covariances are not part of the file
    for q in ("impedance_error", "tipper_error"):
        if exp[q] is None and getattr(tf, q) is not None:
            exp[q] = plain(getattr(tf, q).data) if (exp["inverse_signal_power"] is not None and r.any()) else None
    compare("transfer function of a file object", tf, exp)
    return n, order, keys


def bundled_item(d, fn):
    from mt_metadata.transfer_functions.core import TF

    cur = TF()
    cur.read(fn)
    texts = []
    for i in range(3):
        out = Path(d) / f"b{i}.xml"
        want = expect(cur)
        cur.write(out)
        texts.append(clean(out))
        nxt = TF()
        nxt.read(out)
        if i:
            compare("bundled", nxt, want)
        else:
            for q in QUANT:  # the file keeps only parts of the covariances
                if "covariance" in q or want[q] is None:
                    continue
                same(f"bundled: {q}", plain(getattr(nxt, q).data), want[q], 1e-9)
            same("bundled: periods", nxt.period, want["periods"], 1e-12)
        place("bundled site", nxt, cur.latitude, cur.longitude, cur.elevation)
        if nxt.station != cur.station:
            raise Mismatch("bundled site: name", f"{nxt.station} expected {cur.station}")
        cur = nxt
    if texts[2] != texts[1]:
        x = [p for p in zip(texts[1], texts[2]) if p[0] != p[1]] or [(len(texts[1]), len(texts[2]))]
        raise Mismatch("bundled file does not settle", str(x[:2]))
    return fn.name


KINDS = {"tf": tf_item, "obj": obj_item, "bundled": bundled_item}


def job(part, items):
    with tempfile.TemporaryDirectory() as d:
        for kind, args in items:
            part.traces += 1
            part.transitions += 3
            rep = {"item": [kind, [str(a) if isinstance(a, Path) else a for a in args]]}
            try:
                s = KINDS[kind](d, *args)
                part.state((kind, str(args)))
                part.sample(f"{kind} {args}")
            except Mismatch as e:
                part.violation(f"{kind}: {e.sig}", f"{args} {e.detail}", rep)
            except Exception as e:
                import traceback

                part.violation(f"{kind}: raises {type(e).__name__}", f"{args} {traceback.format_exc()[-700:]}", rep)


def bundled():
    import mt_metadata

    out = []
    for f in sorted(Path(mt_metadata.__file__).parent.glob("data/transfer_functions/*.xml")):
        text = f.read_text(encoding="utf-8")
        # the address in example.xml is not a valid one, the file is refused
        if "EM_TF" in text[:400] and "<Url>fake.data.test</Url>" not in text:
            out.append(f)
    return out


def keysets():
    z, t = ["z", "z_var", "z_invsigcov", "z_residcov"], ["t", "t_var", "t_invsigcov", "t_residcov"]
    for a in range(len(z) + 1):
        for b in range(len(t) + 1):
            if a + b:
                yield tuple(z[:a] + t[:b])
    yield ("z", "z_invsigcov", "z_residcov")
    yield ("t", "t_residcov")
    yield ("z", "z_residcov")


def cases(quick):
    out = []
    i = 0
    for n in (1, 2, 3) if quick else (1, 2, 3, 7, 20):
        for order in ("ascending", "descending"):
            for parts in ("z", "t", "zt", "zc", "tc", "ztc"):
                for off in (range(len(VALUES)) if not quick else ((n + i) % 8, (n + i + 4) % 8)):
                    out.append(("tf", (n, order, parts, off, LATS[i % len(LATS)], LONS[i % len(LONS)], ELEV[i % 4],
                                       NAMES[i % len(NAMES)], SURVEYS[i % 3])))
                    i += 1
    for lat, lon in itertools.product(LATS[:: 4 if quick else 1], LONS[:: 3 if quick else 1]):
        for s in SURVEYS:
            out.append(("tf", (2, "ascending", "zt", i % 8, lat, lon, ELEV[i % 4], NAMES[i % len(NAMES)], s)))
            i += 1
    for k, keys in enumerate(keysets()):
        for n in (1, 3) if quick else (1, 2, 3, 7):
            for off in (((k + n) % 8,) if quick else range(8)):
                out.append(("obj", (n, ("ascending", "descending")[k % 2], keys, off)))
    out += [("bundled", (f,)) for f in bundled()]
    return out


def run(ctx):
    work = cases(ctx.quick)
    ctx.pmap(job, [work[i : i + 4] for i in range(0, len(work), 4)])
    ctx.bounds = {"cases": len(work), "periods": "1 to 3" if ctx.quick else "1 to 20", "values": VALUES, "latitudes": LATS,
                  "longitudes": LONS, "estimate_sets": len(list(keysets())), "bundled_files": len(bundled()),
                  "generations_of_files": 3}
    ctx.assumptions = ["7 significant digits in the file; the file has one place for the survey name: the geographic name "
                       "where there is one, otherwise the id",
                       "of the residual covariance the file keeps the electric block and the variance of hz",
                       "creation time and program name are not compared; channels have their usual names"]


def replay(data):
    from mc.core import Part

    p = Part()
    kind, args = data["item"]
    if kind == "bundled":
        args = [Path(args[0])]
    else:
        args = [tuple(a) if isinstance(a, list) else a for a in args]
    job(p, [(kind, args)])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, d)
