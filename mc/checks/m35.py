"""Coherence features: stations of a pair, coherence against an independent estimate, striding windows."""
import itertools
import math

from mc.core import outcome

ARGS = {"kaiser": {"beta": 3.0}, "gaussian": {"std": 2.5}, "general_gaussian": {"p": 1.5, "sig": 3.0},
        "chebwin": {"at": 80.0}, "dpss": {"NW": 2.0}}
TYPES = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman", "blackmanharris",
         "nuttall", "barthann", *ARGS]
CHANNELS = ["ex", "hy", "Hz", "rrhx", "rhy", "RRhx", "r", "", "e_r"]
TOL = 1e-8


# ---------------------------------------------------------------- stations of the pair
def want_station(ch, given, local, remote):
    if given and given in [local, remote] and (given == local or remote):
        return given
    return remote if ch[:1] in ("r", "R") else local


def job_stations(part, item):
    from mt_metadata.features.coherence import Coherence
    from mt_metadata.features.fc_coherence import FCCoherence
    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence

    for cls, c1, c2 in item:
        cls = {"c": Coherence, "f": FCCoherence, "s": StridingWindowCoherence}[cls]
        part.state((cls.__name__, c1, c2))
        for s1, s2 in itertools.product([None, "", "mt1", "mt2", "mt9", "MT1"], repeat=2):
            for local, remote in itertools.product(["mt1", "mt2"], [None, "", "mt2", "rr3", "mt1"]):
                part.transitions += 1
                case = [cls.__name__, c1, c2, s1, s2, local, remote]
                f = outcome(lambda: cls(channel_1=c1, channel_2=c2, station_1=s1, station_2=s2))
                if f[0] != "ok":
                    part.violation("a feature is refused", f"{case}: {f}", case)
                    continue
                f = f[1]
                r = outcome(f.validate_station_ids, local, remote)
                want = [want_station(c1, s1, local, remote), want_station(c2, s2, local, remote)]
                got = [f.station_1, f.station_2]
                if r[0] != "ok" or [g or None for g in got] != [w or None for w in want]:
                    part.violation("stations of a pair", f"{case}: {r} {got} expected {want}", case)
                if (f.channel_1, f.channel_2) != (c1, c2) or f.channel_pair_str != f"{c1}, {c2}":
                    part.violation("channels of a pair", f"{case}: {f.channel_1} {f.channel_2} {f.channel_pair_str}", case)
                r = outcome(f.validate_station_ids, local, remote)
                if r[0] != "ok" or [f.station_1, f.station_2] != got:
                    part.violation("stations change when validated again", f"{case}: {f.station_1} {f.station_2}", case)
                part.traces += 1


# ---------------------------------------------------------------- Fourier coefficients
ALPHABET = [0, 1, -1, 1j, 2 - 1j]


def job_fc(part, item):
    import numpy as np

    from mt_metadata.features.fc_coherence import FCCoherence

    n, heads = item
    rows = [tuple(h) + t for h in heads for t in itertools.product(ALPHABET, repeat=n - 1)]
    cols = list(itertools.product(rows, itertools.product(ALPHABET, repeat=n)))
    a = np.array([c[0] for c in cols], dtype=complex).T
    b = np.array([c[1] for c in cols], dtype=complex).T
    f = FCCoherence(channel_1="ex", channel_2="hy")
    for c in cols:
        part.state(("coefficients", c))
    part.transitions += len(cols)
    part.traces += 1

    def bad(kind, i, detail):
        part.violation(kind, f"{cols[i]}: {detail}", [repr(cols[i])])

    want = []
    for x, y in cols:
        s = abs(sum(p * complex(q).conjugate() for p, q in zip(x, y))) ** 2
        d = sum(abs(p) ** 2 for p in x) * sum(abs(q) ** 2 for q in y)
        want.append(s / d if d else 0.0)
    ca, cb = a.copy(), b.copy()
    r = outcome(f.compute, a, b)
    if r[0] != "ok":
        bad("compute fails", 0, r)
        return
    got = r[1][1]
    if got.shape != (len(cols),):
        bad("shape", 0, got.shape)
        return
    if not (np.array_equal(a, ca) and np.array_equal(b, cb)):
        bad("the coefficients are changed", 0, "")
    variants = {
        "coherence": got,
        "swapped channels": f.compute(b, a)[1],
        "scaled by a complex number": f.compute(a * (3 - 4j), b * 1e-3j)[1],
        "windows in another order": f.compute(a[::-1], b[::-1])[1],
        "windows repeated": f.compute(np.vstack([a, a]), np.vstack([b, b]))[1],
        "two axes": f.compute(a.reshape(n, 5, -1), b.reshape(n, 5, -1))[1].ravel(),
    }
    for name, v in variants.items():
        wrong = np.nonzero(~(np.abs(v - np.array(want)) <= 1e-9))[0]
        for i in wrong[:3]:
            bad(f"coherence of coefficients: {name}", i, f"{v[i]} expected {want[i]}")
    for i in range(0, len(cols), 97):
        v = f.compute(a[:, i : i + 1], b[:, i : i + 1])[1]
        if v.shape != (1,) or abs(v[0] - want[i]) > 1e-9:
            bad("coherence depends on the other frequencies", i, v)


# ---------------------------------------------------------------- time series
def signals(n):
    import numpy as np

    t = np.arange(n)
    out, x = [], 7
    noise = []
    for _ in range(2 * n):
        x = (x * 1103515245 + 12345) % 2**31
        noise.append(x / 2**30 - 1)
    a, b = np.array(noise[:n]), np.array(noise[n:])
    return {
        "noise": a,
        "sine": np.sin(0.7 * t) + 0.1 * a + 5,
        "trend": 0.5 * t + b - 3,
        "mixed": a + 0.5 * b,
        "steps": np.where(t % 5 < 2, 1.0, -1.0) + 0.01 * t,
    }


def window(kind, n):
    import scipy.signal as ss

    return ss.get_window((kind, *ARGS[kind].values()) if kind in ARGS else kind, n)


def detrended(seg, how):
    import numpy as np

    if how == "constant":
        return seg - seg.mean()
    t = np.arange(len(seg))
    return seg - np.polyval(np.polyfit(t, seg, 1), t)


def welch(x, y, kind, n, overlap, how):
    """coherence by definition and the frequencies at which it is well defined"""
    import numpy as np

    w = window(kind, n)
    sxx = syy = sxy = 0
    for s in range(0, len(x) - n + 1, n - overlap):
        fx = np.fft.rfft(w * detrended(x[s : s + n], how))
        fy = np.fft.rfft(w * detrended(y[s : s + n], how))
        sxx = sxx + np.abs(fx) ** 2
        syy = syy + np.abs(fy) ** 2
        sxy = sxy + fx.conj() * fy
    ok = (sxx > 1e-12 * sxx.max()) & (syy > 1e-12 * syy.max())
    with np.errstate(all="ignore"):
        return np.fft.rfftfreq(n), np.abs(sxy) ** 2 / (sxx * syy), ok


def job_ts(part, item):
    import numpy as np

    from mt_metadata.features.coherence import Coherence
    from mt_metadata.processing.window import Window

    for kind, n, overlap, how in item:
        part.state(("ts", kind, n, overlap, how))
        sig = signals(4 * n + 3)
        for a, b in itertools.product(sig, repeat=2):
            part.transitions += 1
            case = ["time series", kind, n, overlap, how, a, b]
            x, y = sig[a].copy(), sig[b].copy()
            f = Coherence(channel_1="ex", channel_2="hy", detrend=how,
                          window=Window(type=kind, num_samples=n, overlap=overlap, additional_args=ARGS.get(kind, {})))
            r = outcome(f.compute, x, y)
            if r[0] != "ok":
                part.violation(f"coherence fails: {kind}", f"{case}: {r}", case)
                break
            fr, co = r[1]
            wf, wc, ok = welch(sig[a], sig[b], kind, n, overlap, how)
            if fr.shape != wf.shape or not np.allclose(fr, wf) or co.shape != wc.shape:
                part.violation("frequencies of the coherence", f"{case}: {fr} expected {wf}", case)
            elif not np.all(np.abs(co - wc)[ok] < TOL):
                part.violation("coherence of two series", f"{case}: {co} expected {wc}", case)
            elif a == b and not np.all(np.abs(co - 1)[ok] < TOL):
                part.violation("coherence of a series with itself", f"{case}: {co}", case)
            if not (np.array_equal(x, sig[a]) and np.array_equal(y, sig[b])):
                part.violation("the series are changed", f"{case}", case)
            part.traces += 1


def striding(case, parallel=False):
    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
    from mt_metadata.processing.window import Window

    kind, n, overlap, sub, sub_overlap, how, length, a, b, nan = case
    sig = signals(length)
    x, y = sig[a].copy(), sig[b].copy()
    if nan:
        x[3] = float("nan")
    f = StridingWindowCoherence(
        channel_1="ex", channel_2="hy", detrend=how, window=Window(num_samples=n, overlap=overlap, type="hann"),
        subwindow=Window(type=kind, num_samples=sub, overlap=sub_overlap, additional_args=ARGS.get(kind, {})))
    cx, cy = x.copy(), y.copy()
    r = outcome(f.compute, x, y, parallel)
    return x, y, cx, cy, r


def judge(part, case, res):
    import numpy as np

    kind, n, overlap, sub, sub_overlap, how, length, a, b, nan = case
    x, y, cx, cy, r = res
    if r[0] != "ok":
        part.violation(f"striding coherence fails: {kind}", f"{case}: {r}", list(case))
        return
    if not (np.array_equal(x, cx, equal_nan=True) and np.array_equal(y, cy)):
        part.violation("the series are changed", f"{case}", list(case))
    fr, co = r[1]
    x = np.where(np.isnan(x), 0.0, x)
    starts = list(range(0, length - n + 1, n - overlap))
    want = [welch(x[s : s + n], y[s : s + n], kind, sub, sub_overlap, how) for s in starts]
    if co.shape != (len(starts), len(want[0][0])) or not np.allclose(fr, want[0][0]):
        part.violation("shape of a striding coherence", f"{case}: {co.shape} expected {len(starts)} windows", list(case))
        return
    for i, (_, c, ok) in enumerate(want):
        if not np.all(np.abs(co[i] - c)[ok] < TOL):
            part.violation("coherence of a striding window", f"{case} window {i}: {co[i]} expected {c}", list(case))
            return


def job_striding(part, item):
    for case in item:
        part.state(("striding", *map(str, case)))
        part.transitions += 1
        part.traces += 1
        judge(part, case, striding(case))


def job_window(part, item):
    """tapers, harmonics and the window derived from another one"""
    import numpy as np

    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
    from mt_metadata.processing.window import Window

    for kind, n, overlap in item:
        case = ["window", kind, n, overlap]
        part.state(("window", kind, n, overlap))
        part.traces += 1

        def bad(k, d):
            part.violation(k, f"{case}: {d}", case)

        w = Window(type=kind, num_samples=n, overlap=overlap, additional_args=ARGS.get(kind, {}))
        raw = window(kind, n)
        for norm in (True, False, True):
            part.transitions += 1
            w.normalized = norm
            t = outcome(w.taper)
            if t[0] != "ok" or not np.allclose(t[1], raw / raw.sum() if norm else raw):
                bad("taper", f"normalized {norm}: {t}")
        if w.num_samples_advance != n - overlap:
            bad("advance", w.num_samples_advance)
        for rate in (1.0, 8.0, 0.25):
            h = w.fft_harmonics(rate)
            want = [k * rate / n for k in range(n // 2)]
            if len(h) != len(want) or not np.allclose(h, want):
                bad("harmonics", f"{h} expected {want}")
        # other settings: the taper follows
        w.type, w.num_samples, w.additional_args = "hamming", n + 3, {}
        raw = window("hamming", n + 3)
        if not np.allclose(w.taper(), raw / raw.sum()):
            bad("taper after a change of settings", w.taper())
        for fraction in (0.2, 0.5, 1.0, 0.26):
            part.transitions += 1
            f = StridingWindowCoherence(
                window=Window(type=kind, num_samples=n, overlap=overlap, additional_args=ARGS.get(kind, {})))
            f.set_subwindow_from_window(fraction)
            m = int(n * fraction)
            got = (f.subwindow.type, f.subwindow.num_samples, f.subwindow.overlap, f.subwindow.additional_args)
            if got != (kind, m, m // 2, ARGS.get(kind, {})):
                bad("window derived from another", f"{fraction}: {got}")
            if (f.window.type, f.window.num_samples, f.window.overlap) != (kind, n, overlap):
                bad("deriving a window changes the other", f"{f.window}")


def run(ctx):
    q = ctx.quick
    jobs = []
    pairs = list(itertools.product(CHANNELS, repeat=2))
    ctx.pmap(job_stations, [[(c, a, b) for b in CHANNELS] for c in "cfs" for a in CHANNELS])
    ctx.pmap(job_fc, [(n, [[h]]) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for h in ALPHABET])
    sizes = [(8, 0), (8, 4), (16, 12), (15, 5)] if q else [(8, 0), (8, 4), (8, 7), (16, 12), (16, 8), (15, 5), (32, 1), (33, 16)]
    cells = list(itertools.product(TYPES, sizes, ("linear", "constant")))
    ctx.pmap(job_ts, [[(k, n, o, d)] for k, (n, o), d in cells])
    lengths = [40, 41, 63] if q else [32, 40, 41, 63, 64, 65, 100]
    st = [
        (k, n, o, s, so, d, length, a, b, nan)
        for k in TYPES
        for n, o, s, so in [(32, 16, 8, 4), (32, 0, 16, 8), (20, 13, 5, 0), (16, 15, 8, 4)]
        for d in ("linear", "constant")
        for length in lengths
        for a, b in [("noise", "mixed"), ("trend", "noise"), ("sine", "steps")]
        for nan in (False, True)
    ]
    ctx.pmap(job_striding, [st[i : i + 60] for i in range(0, len(st), 60)])
    wins = [(k, n, o) for k in TYPES for n in (8, 15, 16, 64) for o in (0, 3, n // 2, n - 1)]
    ctx.pmap(job_window, [wins[i : i + 16] for i in range(0, len(wins), 16)])
    # several processes: only outside of the workers
    from mc.core import Part

    p = Part()
    some = [c for c in st if c[-1]][:: len(st) // (16 if q else 64)]
    for case in some:
        p.state(("parallel", *map(str, case)))
        p.transitions += 1
        p.traces += 1
        judge(p, case, striding(case, True))
    ctx.merge(p)
    ctx.bounds = {"channel pairs": len(pairs), "windows of coefficients": 3 if q else 4, "coefficient values": len(ALPHABET),
                  "window types": len(TYPES), "settings": len(cells), "striding cases": len(st), "parallel runs": len(some)}
    ctx.assumptions = ["scipy.signal.get_window defines the tapers", "series with sixty to a hundred samples of five kinds"]
