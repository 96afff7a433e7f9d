"""Frequency bands and collections of bands against interval arithmetic."""
import itertools
import math

from mc.core import outcome

CLOSED = ["left", "right", "both"]
AVG = ["geometric", "arithmetic"]


def inside(f, lo, hi, closed):
    a = f >= lo if closed in ("left", "both") else f > lo
    b = f <= hi if closed in ("right", "both") else f < hi
    return a and b


def grids():
    yield "uniform", [k * 0.25 for k in range(1, 8)]
    yield "from zero", [k * 0.25 for k in range(0, 7)]
    yield "logarithmic", [2.0**k for k in range(-4, 3)]
    yield "tenths", [k * 0.1 for k in range(1, 9)]
    yield "decreasing", [2.0**-k for k in range(-2, 5)]
    yield "single", [0.5]


def limits(grid, quick):
    out = set()
    for a in grid:
        out |= {a, math.nextafter(a, 1e9), math.nextafter(a, -1.0)}
    g = sorted(grid)
    for a, b in zip(g, g[1:]):
        out.add((a + b) / 2)
    out |= {g[-1] * 2, g[0] / 2}
    out = sorted(x for x in out if x >= 0)
    return out[:: 2] if quick and len(out) > 40 else out


def mk(lo, hi, closed, avg, how):
    from mt_metadata.common.band import Band

    if how == "construct":
        return Band(frequency_min=lo, frequency_max=hi, closed=closed, center_averaging_type=avg)
    b = Band()
    if how == "assign":
        b.frequency_max = hi
        b.frequency_min = lo
        b.closed = closed
        b.center_averaging_type = avg
        return b
    if how == "reassign":
        b = Band(frequency_min=lo / 2 + 0.01, frequency_max=hi * 3 + 1, closed="both")
        b.set_indices_from_frequencies(__import__("numpy").array([lo / 2 + 0.01, hi * 3 + 1]))
        b.center_frequency, b.width, b.lower_closed, b.upper_closed
        b.frequency_min, b.frequency_max, b.closed, b.center_averaging_type = lo, hi, closed, avg
        return b
    b.from_dict({"band": {"frequency_min": lo, "frequency_max": hi, "closed": closed,
                          "center_averaging_type": avg}})
    return b


HOW = ["construct", "assign", "reassign", "dict"]


def close(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def job_band(part, item):
    import numpy as np

    for name, grid, lo, hi, closed, avg, how in item:
        case = {"grid": name, "lo": lo, "hi": hi, "closed": closed, "average": avg, "how": how}
        part.state((lo, hi, closed, avg))
        part.traces += 1
        arr = np.array(grid)
        want = [k for k, f in enumerate(grid) if inside(f, lo, hi, closed)]
        got = outcome(mk, lo, hi, closed, avg, how)
        if got[0] != "ok":
            part.violation("a valid band is refused", f"{case}: {got}", case)
            continue
        b = got[1]
        part.transitions += 4

        def bad(kind, detail):
            part.violation(kind, f"{case}: {detail}", case)

        for lab, x, w in (("lower bound", b.lower_bound, lo), ("upper bound", b.upper_bound, hi),
                          ("minimum", b.frequency_min, lo), ("maximum", b.frequency_max, hi)):
            if x != w:
                bad(f"{lab} of a band", f"{x} expected {w}")
        if bool(b.lower_closed) != (closed != "right") or bool(b.upper_closed) != (closed != "left"):
            bad("closed ends of a band", f"{b.lower_closed} {b.upper_closed}")
        h = outcome(b.in_band_harmonics, arr)
        if h[0] != "ok" or list(h[1]) != [grid[k] for k in want]:
            bad("frequencies in a band", f"{h} expected {[grid[k] for k in want]}")
        s = outcome(b.set_indices_from_frequencies, arr)
        if want:
            if s[0] != "ok" or (b.index_min, b.index_max) != (want[0], want[-1]) \
                    or list(b.harmonic_indices) != want:
                bad("harmonic indices of a band", f"{s} {b.index_min}..{b.index_max} expected {want}")
        elif s[0] == "ok" and list(b.harmonic_indices):
            bad("harmonic indices of a band without frequencies", f"{list(b.harmonic_indices)}")
        if list(arr) != grid:
            bad("selecting changes the frequencies", f"{list(arr)}")
        c = math.sqrt(lo * hi) if avg == "geometric" else (lo + hi) / 2
        if not close(b.center_frequency, c):
            bad("band centre", f"{b.center_frequency} expected {c}")
        if not close(b.width, hi - lo):
            bad("band width", f"{b.width} expected {hi - lo}")
        if c > 0:
            if not close(b.center_period, 1 / c):
                bad("band centre period", f"{b.center_period}")
            fb = (hi - lo) / c
            if not close(b.fractional_bandwidth, fb):
                bad("fractional bandwidth", f"{b.fractional_bandwidth} expected {fb}")
            q = math.inf if fb == 0 else 1 / fb
            if not (b.Q == q or close(b.Q, q)):
                bad("quality factor", f"{b.Q} expected {q}")
    part.sample(str(item[0]))


def job_pairs(part, item, ivs):
    for lo, hi, closed in item:
        a = mk(lo, hi, closed, "geometric", "construct")
        for l2, h2, c2 in ivs:
            part.transitions += 2
            part.traces += 1
            case = {"a": [lo, hi, closed], "b": [l2, h2, c2]}
            b = mk(l2, h2, c2, "geometric", "assign")
            # two intervals share a point: the larger lower end and the smaller upper end
            low, high = max(lo, l2), min(hi, h2)
            if low < high:
                share = True
            elif low == high:
                share = inside(low, lo, hi, closed) and inside(low, l2, h2, c2)
            else:
                share = False
            got = outcome(a.overlaps, b)
            if got[0] != "ok" or bool(got[1]) != share:
                part.violation("overlap of two bands", f"{case}: {got} expected {share}", case)
            w = inside(l2, lo, hi, closed) and inside(h2, lo, hi, closed)
            got = outcome(a.contains, b)
            if got[0] != "ok" or bool(got[1]) != w:
                part.violation("containment of a band", f"{case}: {got} expected {w}", case)
    part.sample(str(item[0]))


BANDS = [(1.0, 2.0), (2.0, 4.0), (1.5, 3.0), (0.1, 100.0), (4.0, 5.0), (0.25, 0.5)]
OPS = [("sort", by, asc) for by in ("lower_bound", "upper_bound", "center_frequency") for asc in (True, False)]
OPS += [("validate",), ("iterate",), ("again", "array"), ("again", "frame"), ("copy",)]


def fb(bands, how):
    import numpy as np
    import pandas as pd

    from mt_metadata.processing.aurora.frequency_bands import FrequencyBands

    if how == "array":
        src = np.array(bands, dtype=float).reshape(-1, 2)
        out = FrequencyBands(src)
    elif how == "frame":
        src = pd.DataFrame({"upper_bound": [x[1] for x in bands], "lower_bound": [x[0] for x in bands],
                            "name": ["n"] * len(bands)}, index=[7 - k for k in range(len(bands))])
        out = FrequencyBands(src)
    else:
        src = np.array(bands, dtype=float).reshape(-1, 2)
        out = FrequencyBands()
        out.band_edges = src
    return out, src


def key(by):
    return {"lower_bound": lambda b: b[0], "upper_bound": lambda b: b[1],
            "center_frequency": lambda b: math.sqrt(b[0] * b[1])}[by]


def pairs_of(arr):
    return [tuple(float(x) for x in r) for r in arr]


def ordered(bands, by, asc):
    k = [key(by)(b) for b in bands]
    return all((x <= y * (1 + 1e-15)) if asc else (x * (1 + 1e-15) >= y) for x, y in zip(k, k[1:]))


def look(x, ref, bad):
    """every view of the collection shows the same bands in the same order"""
    got = pairs_of(x.array)
    if got != ref:
        return bad("the edges of the collection", f"{got} expected {ref}")
    if x.number_of_bands != len(ref):
        bad("the number of bands", f"{x.number_of_bands}")
    e = x.band_edges
    if list(zip(e["lower_bound"], e["upper_bound"])) != ref:
        bad("the band edge table", f"{e}")
    one = [(x.band(k).lower_bound, x.band(k).upper_bound) for k in range(len(ref))]
    if one != ref:
        bad("a band by its number", f"{one} expected {ref}")
    c = [math.sqrt(a * b) for a, b in ref]
    if not all(close(float(p), q) for p, q in zip(x.band_centers(), c)) or len(x.band_centers()) != len(c):
        bad("band centres", f"{x.band_centers()} expected {c}")
    if not all(close(float(p), 1 / q) for p, q in zip(x.band_centers("period"), c)):
        bad("band centre periods", f"{x.band_centers('period')}")


def iterate(x, ref, bad):
    for direction in ("increasing_frequency", "increasing_period"):
        for by in (None, "lower_bound", "upper_bound", "center_frequency"):
            for rtype in ("list", "generator"):
                got = outcome(lambda: [(b.lower_bound, b.upper_bound) for b in
                                       x.bands(direction=direction, sortby=by, rtype=rtype)])
                lab = f"{direction} {by} {rtype}"
                if got[0] != "ok":
                    bad("iterating the bands", f"{lab} {got}")
                    continue
                if sorted(got[1]) != sorted(ref):
                    bad("bands lost or invented in iteration", f"{lab} {got[1]} expected {ref}")
                elif by is None and direction == "increasing_frequency":
                    if got[1] != ref:
                        bad("iteration order as kept", f"{lab} {got[1]} expected {ref}")
                elif not ordered(got[1], by or "center_frequency", direction == "increasing_frequency"):
                    bad("iteration order", f"{lab} {got[1]}")
                if pairs_of(x.array) != ref:
                    bad("iterating reorders the collection", f"{lab} {pairs_of(x.array)}")


def job_coll(part, item, depth, small):
    import numpy as np

    for bands in item:
        bands = list(bands)
        for how in ("array", "frame", "assign"):
            for ops in itertools.chain.from_iterable(
                    itertools.product(OPS, repeat=n) for n in range(depth + 1)):
                if how != "array" and len(ops) > 1:
                    continue
                part.traces += 1
                part.state((tuple(bands), how, ops))
                case = {"bands": bands, "how": how, "ops": ops}

                def bad(kind, detail):
                    part.violation(kind, f"{case}: {detail}", case)

                got = outcome(fb, bands, how)
                if got[0] != "ok":
                    bad("a collection is refused", str(got))
                    break
                x, src = got[1]
                ref = list(bands)
                for o in ops:
                    part.transitions += 1
                    if o[0] == "sort":
                        r = outcome(x.sort, by=o[1], ascending=o[2])
                        new = pairs_of(x.array)
                        if r[0] != "ok" or sorted(new) != sorted(ref) or not ordered(new, o[1], o[2]):
                            bad("sorting the bands", f"{o} {r} {new}")
                        ref = new
                    elif o[0] == "validate":
                        c = [key("center_frequency")(b) for b in ref]
                        r = outcome(x.validate)
                        new = pairs_of(x.array)
                        if r[0] != "ok" or sorted(new) != sorted(ref):
                            bad("validating the bands", f"{r} {new}")
                        elif all(p < q for p, q in zip(c, c[1:])):
                            if new != ref:
                                bad("validating reorders bands in order", f"{new}")
                        elif not ordered(new, "center_frequency", True):
                            bad("validating leaves bands out of order", f"{new}")
                        ref = new
                    elif o[0] == "iterate":
                        iterate(x, ref, bad)
                    elif o[0] == "again":
                        x.band_edges = x.array if o[1] == "array" else x.band_edges
                    elif o[0] == "copy":
                        y, _ = fb(ref, "array")
                        y.sort(by="upper_bound", ascending=False)
                    look(x, ref, bad)
                if not ops:
                    look(x, ref, bad)
                iterate(x, ref, bad)
                s = pairs_of(src) if isinstance(src, np.ndarray) else list(
                    zip(src["lower_bound"], src["upper_bound"]))
                if s != list(bands):
                    bad("the table given in is changed", f"{s}")
    part.sample(str(item[0]))


def run(ctx):
    q = ctx.quick
    cases = []
    for name, grid in grids():
        ls = limits(grid, q)
        if q and name not in ("uniform", "tenths"):
            ls = ls[::3]
        for k, (lo, hi) in enumerate(itertools.combinations_with_replacement(ls, 2)):
            for closed in CLOSED:
                if q:
                    cases.append((name, grid, lo, hi, closed, AVG[k % 2], HOW[k // 2 % 4]))
                else:
                    for avg in AVG:
                        for how in HOW:
                            cases.append((name, grid, lo, hi, closed, avg, how))
    n = 200
    ctx.pmap(job_band, [cases[i : i + n] for i in range(0, len(cases), n)])
    pts = [1.0, 2.0, math.nextafter(2.0, 3), 3.0, 4.0] if q else \
        [0.5, 1.0, math.nextafter(1.0, 0), 2.0, math.nextafter(2.0, 3), 2.5, 3.0, 4.0]
    ivs = [(a, b, c) for a, b in itertools.combinations(sorted(pts), 2) for c in CLOSED]
    ctx.pmap(job_pairs, [ivs[i : i + 4] for i in range(0, len(ivs), 4)], ivs=ivs)
    colls = [c for r in range(0, 4) for c in itertools.product(BANDS[: 4 if q else 6], repeat=r)]
    ctx.pmap(job_coll, [[c] for c in colls if len(c) > 0], depth=1 if q else 2, small=q)
    ctx.bounds = {"band_cases": len(cases), "pairs": len(ivs) ** 2, "collections": len(colls) - 1,
                  "history_depth": 1 if q else 2, "operations": len(OPS)}
    ctx.assumptions = ["a band contains another when both limits of the other lie inside it",
                       "bands with equal sort keys may come in either order"]


def replay(data):
    from mc.core import Part

    p = Part()
    c = data["case"] if "case" in data else data
    if "grid" in c:
        g = dict(grids())[c["grid"]]
        job_band(p, [(c["grid"], g, c["lo"], c["hi"], c["closed"], c["average"], c["how"])])
    elif "a" in c:
        job_pairs(p, [tuple(c["a"])], [tuple(c["b"])])
    else:
        job_coll(p, [[tuple(b) for b in c["bands"]]], 1, True)
    return p
