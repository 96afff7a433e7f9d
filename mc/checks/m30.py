"""BIRRP J-files: generated files read, against the numbers written in them."""
import itertools
import math
import tempfile
from pathlib import Path

from mc.core import outcome

Z = {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1)}
T = {"tzx": (0, 0), "tzy": (0, 1)}
COMPS = list(Z) + list(T)
# what a row of a component can be
CELLS = ["value", "gone", "masked", "real", "imag", "error", "nan", "stars", "infinite"]
PERIODS = [["1.333333", "2.000000", "10.75000"], ["0.1250000E-02", "0.2500000", "1000.000"], ["4.5", "16", "3.0e+04"]]
LOCS = [("", "", ""), ("40.5", "-115.25", "1234.5"), (" -0.125 ", "179.999", "-12"), ("45:30:00", "", "7")]
DELTAT = [("0.1000000", 10.0), ("-4.000000", 4.0), ("1.000000", 1.0), ("0.2500000E-01", 40.0)]
HEAD = ["#BIRRP Version 5 basic mode output", "#outputs=       2 inputs=       2 references=       2",
        "#tbw=   2.000000     deltat=  {dt}    ", "#nfft=    5164 nsctinc=       2 nsctmax=       7",
        "#nf1=       4 nfinc=       2 nfsect=       2", "#uin=   0.000000     ainlin=  -999.0000     ainuin=  0.9990000    ",
        "#c2threshe=  0.7000000    ", "#nz=       0", "#c2threshe1=   0.000000    ", "# npcs=       1 nar=       3",
        "#imode=       2 jmode=       0"]
# what follows the processing settings: data blocks (filters, components, file, samples left out and read) and pairs of angles
BLOCKS = [[(0, 4, "/data/latest/elev_1/lon.txt", 0, 38750)], [(0, 3, "a.dat", 5, 100), (2, 4, "/b/c.txt", 0, 7)],
          [(1, 1, "x_1.bin", 3, 3), (0, 5, "/q", 11, 12345), (0, 2, "r.s.t", 0, 1)], []]
ANGLES = [[(0.0, 90.0, 0.0)], [(0.0, 90.0, 0.0), (10.5, 100.5, -5.0)], [(-30.0, 60.0, 12.25), (1.0, 2.0, 3.0), (4.0, 5.0, 6.0)], []]
AZIMUTHS = ["0.000000", "12.5", "-33.25"]
PARAMS = {"outputs": 2, "inputs": 2, "references": 2, "tbw": 2.0, "nfft": 5164, "nsctinc": 2, "nsctmax": 7, "nf1": 4, "nfinc": 2,
          "nfsect": 2, "uin": 0.0, "ainlin": -999.0, "ainuin": 0.999, "c2threshe": 0.7, "nz": 0, "c2threshe1": 0.0, "npcs": 1,
          "nar": 3, "imode": 2, "jmode": 0}
VALS = ["8.260304", "-27.24741", "0.9625573", "-0.1234567E-01", "1970.297", "0.000000", "-999.5", "33.0", "1e-5", "-7"]


def number(k, sign=True):
    v = VALS[k % len(VALS)]
    return v if sign else v.lstrip("-")


def text_of(case):
    """the file and what it says: {component: {period: (real, imag, error)}}"""
    per = PERIODS[case["periods"]]
    lat, lon, elev = LOCS[case["loc"]]
    lines = [h.format(dt=DELTAT[case["dt"]][0]) for h in HEAD]
    for b in BLOCKS[case["head"] // 3 % 4]:
        lines += [f"#nfil=       {b[0]}", f"#ncomp=       {b[1]}", "#indices=       1       2       3       4",
                  f"#filnam={b[2]}                  ", f"#nskip=       {b[3]} nread=   {b[4]}"]
    for a in ANGLES[case["head"] // 12 % 4]:
        lines.append("#theta1=   %f     theta2=   %f     phi=   %f    " % a)
    lines += [f">LATITUDE  ={lat}", f">LONGITUDE ={lon}", f">ELEVATION ={elev}", f">AZIMUTH   =    {AZIMUTHS[case['head'] % 3]}    ",
              f"{case['station']}      "]
    says = {}
    for c, cells in case["blocks"]:
        i = COMPS.index(c)
        lines += [f"{c.upper() if case['upper'] else c} {'S.I.' if c in Z else ''}", str(len(per))]
        says[c] = {}
        for j, (p, cell) in enumerate(zip(per, cells)):
            a, b, e = number(3 * i + 5 * j + 1), number(i + 2 * j), number(i + 3 * j, False)
            if cell == "gone":
                continue
            row = [p, a, b, e, "0.5", "0.4"]
            if cell == "masked":
                row = ["-999.0000"] * 6
            elif cell in ("real", "imag", "error"):
                row[1 + ("real", "imag", "error").index(cell)] = "-999.0000"
            elif cell == "nan":
                row[2] = "NaN"
            elif cell == "stars":
                row[1] = "**********"
            elif cell == "infinite":
                row[3] = "Infinity"
            lines.append("    " + "       ".join(row))
            if cell == "masked":
                continue
            v = [0.0 if x in ("-999.0000", "NaN") or "*" in x else float(x) for x in row[1:4]]
            says[c][float(p)] = v
    return "\n".join(lines) + "\n", says


def job(part, item):
    import numpy as np

    from mt_metadata.transfer_functions import TF
    from mt_metadata.transfer_functions.io.jfiles import JFile

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            part.transitions += 2

            def bad(kind, detail):
                part.violation(kind, f"{case}: {detail}", case)

            text, says = text_of(case)
            fn = Path(d) / f"{case['station']}.j"
            fn.write_text(text)
            j = JFile()
            r = outcome(j.read, fn)
            tf = TF(fn)
            r2 = outcome(tf.read)
            if r[0] != "ok" or r2[0] != "ok":
                bad("a J-file is refused", f"{r} {r2}")
                continue
            if fn.read_text() != text:
                bad("reading changes the file", "")
            want = sorted({p for c in says.values() for p in c})
            got = [float(x) for x in 1 / j.frequency]
            if len(got) != len(want) or not np.allclose(sorted(got), want, rtol=1e-12, atol=0):
                bad("periods of a J-file", f"{got} expected {want}")
                continue
            if not np.allclose(list(tf.period), got, rtol=1e-12, atol=0):
                bad("periods of the transfer function", f"{list(tf.period)} expected {got}")
                continue
            for k, p in enumerate(got):
                p = min(want, key=lambda w: abs(w - p))
                for c in COMPS:
                    a, e = (j.z, j.z_err) if c in Z else (j.t, j.t_err)
                    i = (k,) + (Z | T)[c]
                    re, im, er = says.get(c, {}).get(p, (0.0, 0.0, 0.0))
                    er = 1e6 if math.isinf(er) else er
                    if complex(a[i]) != complex(re, im) or float(e[i]) != er:
                        bad(f"value of {c} in a J-file", f"period {p}: {a[i]} {e[i]} expected {re} {im} {er}")
                    if c in Z:
                        q, qe = tf.impedance, tf.impedance_error
                    else:
                        q, qe = tf.tipper, tf.tipper_error
                    any_of = any(v[0] or v[1] for cc in (Z if c in Z else T) for v in says.get(cc, {}).values())
                    if q is None or qe is None:
                        if any_of:
                            bad(f"no {c} in the transfer function", f"{says}")
                    elif complex(q.data[i]) != complex(re, im) or float(qe.data[i]) != er:
                        bad(f"value of {c} in the transfer function", f"period {p}: {q.data[i]} expected {re} {im}")
            for what, some in (("impedance", Z), ("tipper", T)):
                any_of = any(v[0] or v[1] for cc in some for v in says.get(cc, {}).values())
                if bool(getattr(tf, f"has_{what}")()) != any_of:
                    bad(f"whether there is {what}", f"expected {any_of}")
            loc = []
            for x in LOCS[case["loc"]]:
                try:
                    loc.append(float(x))
                except ValueError:
                    loc.append(0.0)
            got = [j.header.station, j.header.latitude, j.header.longitude, j.header.elevation]
            if got != [case["station"]] + loc:
                bad("station and location of a J-file", f"{got} expected {loc}")
            got = [tf.station, tf.tf_id, tf.latitude, tf.longitude, tf.elevation]
            if got != [case["station"]] * 2 + loc:
                bad("station and location of the transfer function", f"{got} expected {loc}")
            if abs(tf.run_metadata.sample_rate - DELTAT[case["dt"]][1]) > 1e-9:
                bad("sample rate", f"{tf.run_metadata.sample_rate} expected {DELTAT[case['dt']][1]}")
            has = [bool(v[0] or v[1]) for c in says for v in says[c].values()]
            chans = sorted(c.component for c in tf.run_metadata.channels)
            exp = (["ex", "ey", "hx", "hy"] if tf.has_impedance() else []) + (["hz"] if tf.has_tipper() else [])
            if any(has) and chans != exp:
                bad("channels of the run", f"{chans} expected {exp}")
            h = j.header
            want = dict(PARAMS, deltat=float(DELTAT[case["dt"]][0]))
            got = {k: getattr(h.birrp_parameters, k) for k in want}
            if any(got[k] is None or float(got[k]) != w for k, w in want.items()):
                bad("parameters", f"{[(k, got[k], w) for k, w in want.items() if got[k] is None or float(got[k]) != w]}")
            blocks = [(b.filnam, b.ncomp, b.nskip, b.nread) for b in h.data_blocks]
            if blocks != [(b[2], b[1], b[3], b[4]) for b in BLOCKS[case["head"] // 3 % 4]]:
                bad("data blocks of a J-file", f"{blocks}")
            if [(a.theta1, a.theta2, a.phi) for a in h.angles] != ANGLES[case["head"] // 12 % 4]:
                bad("angles of a J-file", f"{h.angles}")
            if (h.title, h.azimuth) != (HEAD[0][1:], float(AZIMUTHS[case["head"] % 3])):
                bad("title and azimuth of a J-file", f"{h.title} {h.azimuth}")
            said = sorted(f"{k} = {getattr(h.birrp_parameters, k)}" for k in want)
            kept = tf.station_metadata.transfer_function.processing_parameters
            if [x for x in said if x not in kept]:
                bad("processing parameters of the transfer function", f"{[x for x in said if x not in kept]} not in {kept}")
    part.sample(str(item[0])[:300])


def cases(q):
    full = ("value",) * 3

    def case(blocks, k, **kw):
        d = {"blocks": blocks, "periods": k % len(PERIODS), "loc": k % len(LOCS), "dt": k % len(DELTAT),
             "head": k % 48, "station": ("BP05", "mt01", "S1_2")[k % 3], "upper": k % 5 != 0}
        d.update(kw)
        return d

    k = 0
    # one component with every pattern of rows, the others complete
    for c in COMPS:
        for cells in itertools.product(CELLS if not q else CELLS[:4] + CELLS[6:8], repeat=3):
            if q and sum(x != "value" for x in cells) == 3 and len(set(cells)) == 3:
                continue
            k += 1
            yield case([(x, cells if x == c else full) for x in COMPS], k)
    # every subset of the components, complete, with a row less, or of masked rows only
    for n in range(1, 7):
        for some in itertools.combinations(COMPS, n):
            if not set(some) & set(Z):
                continue
            for alt in (full, ("gone", "value", "value"), ("value", "value", "masked")):
                k += 1
                yield case([(c, full if i % 2 else alt) for i, c in enumerate(some)], k)
    # every order of the components
    for some in itertools.permutations(COMPS):
        if q and COMPS.index(some[0]) > 1:
            continue
        k += 1
        yield case([(c, full if i % 2 else ("value", "error", "value")) for i, c in enumerate(some)], k)
    for p, l, t, u in itertools.product(range(len(PERIODS)), range(len(LOCS)), range(len(DELTAT)), (True, False)):
        k += 1
        yield case([(c, full) for c in COMPS], k, periods=p, loc=l, dt=t, upper=u)


def run(ctx):
    items = list(cases(ctx.quick))
    ctx.pmap(job, [items[i : i + 12] for i in range(0, len(items), 12)])
    ctx.bounds = {"periods": 3, "rows": "9 kinds of rows in one component, or any subset and order of components",
                  "files": len(items)}
    ctx.assumptions = ["the order in which periods are held is not looked at"]


def replay(data):
    from mc.core import Part

    p = Part()
    data = dict(data)
    data["blocks"] = [tuple(b) for b in data["blocks"]]
    job(p, [data])
    return p
