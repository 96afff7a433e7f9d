"""M22: cross spectra in EDI files against the least-squares estimates they define, and against the transfer functions they were built from."""
import itertools
import tempfile
from pathlib import Path

from mc.core import Mismatch

SETS = {4: ["hx", "hy", "ex", "ey"], 5: ["hx", "hy", "hz", "ex", "ey"], 6: ["hx", "hy", "ex", "ey", "rhx", "rhy"],
        7: ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"]}
# Zxx, Zxy, Zyx, Zyy, Tx, Ty
TFS = [(0.1 + 0.05j, 1 + 1j, -1 - 1j, -0.2 + 0.1j, 0.1 + 0.02j, -0.3j),
       (12.5 - 3j, 0.001 + 0.002j, -450 + 2j, 7 + 7j, -0.5 + 0.25j, 0.0004 + 0.3j),
       (0.0, 3 - 4j, 3 + 4j, 0.0, 0.2, 0.1j),
       (-1 + 2j, 2 - 1j, 1j, -1, 1 + 1j, -1 - 2j)]
# powers and coherence of the two sources
SOURCES = [(1.0, 1.0, 0.3 + 0.2j), (1e-7, 3e-8, -1e-8 + 2e-8j), (5.0, 0.02, 0.1 - 0.1j), (400.0, 350.0, -200j)]
NOISES = [0.0, 0.01, 0.6]
WRAPS = [None, 3, 100]


def waves(k, m):
    """m deterministic complex series of length k, none the sum of the others"""
    import numpy as np

    t = np.arange(1, k + 1)[:, None] * np.arange(1, m + 1)[None, :]
    return np.exp(2j * np.pi * (t * 0.6180339887 + (t ** 2) * 0.4142135623)) * (1 + 0.3 * np.cos(t * 1.7))


def spectra(nchan, z, src, noise, shift):
    """<a b*> of every pair of channels of a set of waves, and the waves of each channel"""
    import numpy as np

    p, q, c = src
    k = 24
    w = waves(k + shift, 9)[shift:]
    h = w[:, :2].T.copy()
    low = np.linalg.cholesky(np.array([[p, c], [np.conj(c), q]]))
    have = np.linalg.cholesky(h @ h.conj().T / k)
    h = low @ np.linalg.inv(have) @ h
    zz = np.array([[z[0], z[1]], [z[2], z[3]], [z[4], z[5]]])
    e = zz @ h
    e = e + noise * np.abs(e).mean(axis=1, keepdims=True) * w[:, 2:5].T
    r = h + noise * 0.3 * np.abs(h).mean(axis=1, keepdims=True) * w[:, 5:7].T
    series = dict(hx=h[0], hy=h[1], ex=e[0], ey=e[1], hz=e[2], rhx=r[0], rhy=r[1])
    rows = np.array([series[c] for c in SETS[nchan]])
    return rows @ rows.conj().T / k


def estimate(nchan, s, avgt):
    """least squares: Z = <E R*> / <H R*>, residual variances, inverse signal power, errors"""
    import numpy as np

    names = SETS[nchan]
    at = {c: i for i, c in enumerate(names)}
    H = [at["hx"], at["hy"]]
    R = [at["rhx"], at["rhy"]] if "rhx" in at else H
    E = [at["ex"], at["ey"]] + ([at["hz"]] if "hz" in at else [])

    def m(a, b):
        return s[np.ix_(a, b)]

    hr = np.linalg.inv(m(H, R))
    z = m(E, R) @ hr
    res = (m(E, E) - z @ m(H, E) - m(E, H) @ z.conj().T + z @ m(H, H) @ z.conj().T) / avgt
    # error of Z = <dE R*> / <H R*>
    sig = hr.conj().T @ m(R, R) @ hr
    err = np.sqrt(np.abs(np.diag(res)[:, None] * np.diag(sig)[None, :]))
    return z, res, sig, err


def text(nchan, freqs, arrays, avgts, wrap, name):
    names = SETS[nchan]
    ids = [f"{111 + i}.011" for i in range(nchan)]
    out = [">HEAD", f'    DATAID="{name}"', "    LAT=10:07:22.1", "    LONG=-10:06:45.8", "    ELEV=2918", "    EMPTY=1.0E+32", "",
           ">INFO", "    one line", "", ">=DEFINEMEAS", f"    MAXCHAN={nchan}", "    REFLAT=10:07:22.1", "    REFLONG=-10:06:45.8",
           "    REFELEV=2918", ""]
    for i, c in zip(ids, names):
        if "e" in c:
            y = c == "ey"
            out.append(f">EMEAS ID={i} CHTYPE={c.upper()} X={0 if y else -25.0} Y={-25.0 if y else 0} X2={0 if y else 25.0} Y2={25.0 if y else 0}")
        else:
            kind = c.replace("r", "").upper()
            out.append(f">HMEAS ID={i} CHTYPE={kind} X=8.5 Y={45008.5 if 'r' in c else 8.5} AZM={90 if c[-1] == 'y' else 0}")
    out += ["", ">=SPECTRASECT", f'    SECTID="{name}"', f"    NCHAN={nchan}", f"    NFREQ={len(freqs)}", f"    MAXBLKS={len(freqs)}",
            f"    // {nchan}"] + [f"     {i}" for i in ids] + [""]
    for f, s, a in zip(freqs, arrays, avgts):
        out.append(f">SPECTRA  FREQ={f:.6E} ROTSPEC=0 BW={f / 4:.4E} AVGT={a:.4E} // {nchan * nchan}")
        # real parts on and below the diagonal, imaginary parts of <a b*>, a after b, above it
        cells = [[s[i][j].real if i >= j else s[j][i].imag for j in range(nchan)] for i in range(nchan)]
        if wrap is None:
            out += ["  " + " ".join(f"{x: .9E}" for x in row) for row in cells]
        else:
            flat = [x for row in cells for x in row]
            out += ["  " + " ".join(f"{x: .9E}" for x in flat[k : k + wrap]) for k in range(0, len(flat), wrap)]
    out += [">END", ""]
    return "\n".join(out)


def rounded(s):
    """the matrix as the file holds it"""
    import numpy as np

    n = len(s)
    low = np.array([[complex(float(f"{s[i][j].real:.9E}"), float(f"{s[i][j].imag:.9E}")) if i > j else 0 for j in range(n)]
                    for i in range(n)])
    return low + low.conj().T + np.diag([float(f"{s[i][i].real:.9E}") for i in range(n)])


def near(what, got, want, tol, info=""):
    import numpy as np

    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape", f"{got.shape} expected {want.shape}")
    if np.isnan(got).any() or (np.abs(got - want) > tol).any():
        raise Mismatch(what, f"{info} {got.tolist()} expected {want.tolist()} within {np.max(tol)}")


def item(d, nchan, zs, srcs, noise, order, wrap, avgt, name):
    import numpy as np

    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.edi import EDI

    n = len(zs)
    freqs = [320.0 / 2.5 ** i for i in range(n)]
    if order == "ascending":
        freqs = freqs[::-1]
    elif order == "shuffled":
        freqs = freqs[1::2] + freqs[::2]
    avgts = [avgt * (1 + i) for i in range(n)]
    full = [spectra(nchan, TFS[z], SOURCES[s], noise, i) for i, (z, s) in enumerate(zip(zs, srcs))]
    fn = Path(d) / "s.edi"
    fn.write_text(text(nchan, freqs, full, avgts, wrap, name))
    # the package orders by falling frequency, that is rising period
    rank = sorted(range(n), key=lambda i: -freqs[i])
    edi = EDI()
    edi.read(fn)
    tf = TF()
    tf.read(fn)
    near("periods", tf.period, [1 / float(f"{freqs[i]:.6E}") for i in rank], 1e-12)
    near("frequencies", edi.frequency, [float(f"{freqs[i]:.6E}") for i in rank], 1e-9)
    tip = "hz" in SETS[nchan]
    if (tf.impedance is None) or (tf.tipper is None) == tip:
        raise Mismatch("impedance or tipper missing or invented", f"{tf.impedance is None} {tf.tipper is None}")
    for k, i in enumerate(rank):
        z, res, sig, err = estimate(nchan, rounded(full[i]), float(f"{avgts[i]:.4E}"))
        scale = np.abs(z).max(axis=1, keepdims=True)
        tol = 1e-9 * scale
        info = f"frequency {k}"
        near("impedance is not the least-squares estimate", tf.impedance.data[k], z[:2], tol[:2], info)
        near("impedance of the EDI object", edi.z[k], z[:2], tol[:2], info)
        true = np.array([[TFS[zs[i]][0], TFS[zs[i]][1]], [TFS[zs[i]][2], TFS[zs[i]][3]]])
        if noise == 0:
            near("noise-free spectra do not give back the impedance", tf.impedance.data[k], true,
                 1e-5 * np.abs(true).max(axis=1, keepdims=True), info)
        if tip:
            near("tipper is not the least-squares estimate", tf.tipper.data[k], z[2:], tol[2:], info)
            near("tipper of the EDI object", edi.t[k], z[2:], tol[2:], info)
            if noise == 0:
                t = np.array([TFS[zs[i]][4:]])
                near("noise-free spectra do not give back the tipper", tf.tipper.data[k], t, 1e-5 * np.abs(t).max(), info)
        if noise:
            near("impedance error", tf.impedance_error.data[k], err[:2], 1e-6 * err[:2].max(), info)
            if tip:
                near("tipper error", tf.tipper_error.data[k], err[2:], 1e-6 * err[2:].max(), info)
            for q, w in (("signal_inverse_power", sig), ("residual_covariance", res)):
                near(f"{q} of the EDI object", np.abs(getattr(edi, q)[k]), np.abs(w), 1e-6 * np.abs(w).max(), info)
    if tf.station != name or abs(tf.latitude - 10.1228056) > 1e-6 or abs(tf.longitude + 10.1127222) > 1e-6:
        raise Mismatch("site", f"{tf.station} {tf.latitude} {tf.longitude}")
    # the result can be written as impedance and read again
    out = Path(d) / "w.edi"
    tf.write(out)
    got = TF()
    got.read(out)
    near("periods after writing", got.period, tf.period, 1e-6 * np.array(tf.period))
    for q in ("impedance", "tipper") if tip else ("impedance",):
        a, b = getattr(tf, q).data, getattr(got, q).data
        near(f"{q} after writing", b, a, 1e-6 * np.abs(a) + 1e-12)
    return nchan, zs, noise


COMPS = ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy", "rhz"]


def locate(part, items):
    """the columns that every list of components gives: hx, hy and any others, in two orders"""
    from mt_metadata.transfer_functions.io.tools import index_locator

    for names in items:
        part.traces += 1
        part.transitions += 1
        at = {c: i for i, c in enumerate(names)}
        want = {c: at.get(c) for c in COMPS}
        want["rhx"], want["rhy"] = at.get("rhx", at["hx"]), at.get("rhy", at["hy"])
        x = index_locator(list(names))
        got = {c: getattr(x, c) for c in COMPS}
        if got != want:
            part.violation("columns of the channels", f"{names}: {got} expected {want}", {"names": names})
            continue
        if not ("ex" in at) == ("ey" in at):
            continue
        outs = [at[c] for c in ("hz", "ex", "ey") if c in at]
        facts = (x.has_tipper, x.has_electric, x.input_channels, x.output_channels if outs else outs, x.n_inputs, x.n_channels)
        expect = ("hz" in at, "ex" in at, [at["hx"], at["hy"]], outs, 2, len([c for c in names if "r" not in c]))
        if facts != expect:
            part.violation("roles of the channels", f"{names}: {facts} expected {expect}", {"names": names})
        part.state(names)


def component_lists(quick):
    rest = [c for c in COMPS if c not in ("hx", "hy")]
    out = []
    for n in range(len(rest) + 1):
        for extra in itertools.combinations(rest, n):
            out.append(("hx", "hy") + extra)
            out.append(extra[::-1] + ("hy", "hx"))
            if not quick and n <= 4:
                out += itertools.permutations(("hx", "hy") + extra)
    return out


def job(part, items):
    with tempfile.TemporaryDirectory() as d:
        for args in items:
            part.traces += 1
            part.transitions += len(args[1])
            rep = {"item": args}
            try:
                item(d, *args)
                part.state(str(args))
                part.sample(str(args))
            except Mismatch as e:
                part.violation(f"{args[0]} channels: {e.sig}", f"{args} {e.detail}", rep)
            except Exception as e:
                import traceback

                part.violation(f"{args[0]} channels: raises {type(e).__name__}", f"{args} {traceback.format_exc()[-700:]}", rep)


def cases(quick):
    out = []
    i = 0
    orders = ["descending", "ascending", "shuffled"]
    for nchan in SETS:
        for z, s, noise in itertools.product(range(len(TFS)), range(len(SOURCES)), NOISES):
            for order in ([orders[i % 3]] if quick else orders):
                zs = [z, (z + 1) % 4, (z + 3) % 4][: 1 + i % 3]
                srcs = [s, (s + 1) % 4, (s + 2) % 4][: 1 + i % 3]
                out.append((nchan, zs, srcs, noise, order, WRAPS[i % 3], (1.0, 31.0, 18333.0)[(i // 2) % 3], ("mt01", "S12")[i % 2]))
                i += 1
        if not quick:
            for zs in itertools.product(range(4), repeat=3):
                for ss in itertools.product(range(4), repeat=2):
                    out.append((nchan, list(zs), [ss[0], ss[1], ss[0]], NOISES[i % 3], orders[i % 3], WRAPS[i % 3], 31.0, "mt01"))
                    i += 1
    return out


def run(ctx):
    work = cases(ctx.quick)
    ctx.pmap(job, [work[i : i + 4] for i in range(0, len(work), 4)])
    lists = component_lists(ctx.quick)
    ctx.pmap(locate, [lists[i::8] for i in range(8)])
    ctx.bounds = {"cases": len(work), "component_lists": len(lists), "channel_sets": SETS, "transfer_functions": len(TFS), "sources": len(SOURCES), "noises": NOISES}
    ctx.assumptions = ["channels in the order of the set; no cross power is exactly zero; the number of averages divides the residual variance",
                       "rotation of the spectra (ROTSPEC) is zero"]


def replay(data):
    from mc.core import Part

    p = Part()
    if "names" in data:
        locate(p, [tuple(data["names"])])
    else:
        job(p, [tuple(data["item"])])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, d)
