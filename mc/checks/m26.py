"""Weight kernels: bounds, direction, half-window values, composites and assignment histories."""
import itertools
import math

from mc.core import outcome

TAPERS = ["rectangle", "hann", "hamming", "blackman"]
ACTS = ["sigmoid", "hard_sigmoid", "tanh", "hard_tanh"]
CUTS = ["low cut", "high cut"]
STEEP = [0.5, 1.0, 10.0, 100.0]
BOUNDS = [(0.3, 0.8), (0.0, 1.0), (-2.0, 3.0), (0.1, 0.1000001), (1e-6, 1e6), (-5.0, -1.0), (0.9, 0.99),
          (100.0, 1000.0)]
EPS = 1e-12


def half(style, x):
    return {
        "hann": lambda: 0.5 * (1 - math.cos(math.pi * x)),
        "hamming": lambda: 0.54 - 0.46 * math.cos(math.pi * x),
        "blackman": lambda: 0.42 - 0.5 * math.cos(math.pi * x) + 0.08 * math.cos(2 * math.pi * x),
    }[style]()


def act(style, x, s):
    if style == "sigmoid":
        return 1 / (1 + math.exp(-s * (x - 0.5)))
    if style == "tanh":
        return 0.5 * (math.tanh(s * (x - 0.5)) + 1)
    return x  # hard_tanh


def values(lb, ub, n):
    w = ub - lb
    out = {lb - k * w for k in (0.5, 1, 10)} | {ub + k * w for k in (0.5, 1, 10)}
    for b in (lb, ub):
        out |= {b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf)}
    out |= {lb + w * k / n for k in range(n + 1)}
    return sorted(out)


def build(kind, style, cut, lb, ub, steep, how):
    from mt_metadata.features.weights.activation_monotonic_weight_kernel import (
        ActivationMonotonicWeightKernel as A,
    )
    from mt_metadata.features.weights.taper_monotonic_weight_kernel import (
        TaperMonotonicWeightKernel as T,
    )

    if kind == "taper":
        cls, kw = T, dict(half_window_style=style)
    else:
        cls, kw = A, dict(activation_style=style, steepness=steep)
    kw.update(threshold=cut, transition_lower_bound=lb, transition_upper_bound=ub, style=kind)
    if how == "construct":
        return cls(**kw)
    if how == "dict":
        k = cls()
        k.from_dict({k._class_name if hasattr(k, "_class_name") else cls.__name__: kw})
        return k
    if how == "round trip":
        k = cls()
        k.from_dict(cls(**kw).to_dict())
        return k
    # a kernel that was used with other settings before
    import numpy as np

    k = cls(threshold=CUTS[1 - CUTS.index(cut)], transition_lower_bound=-7.0, transition_upper_bound=11.0)
    k.evaluate(np.array([0.0, 1.0, lb, ub]))
    for a, v in kw.items():
        setattr(k, a, v)
        k.evaluate(np.array([0.5]))
    return k


HOW = ["construct", "round trip", "reassign"]


def job_single(part, item, n):
    import numpy as np

    for kind, style, (lb, ub), steep in item:
        vals = values(lb, ub, n)
        seen = {}
        for cut, how in itertools.product(CUTS, HOW):
            case = {"kind": kind, "style": style, "cut": cut, "bounds": [lb, ub], "steepness": steep, "how": how}
            part.state((kind, style, cut, lb, ub, steep))
            part.traces += 1
            part.transitions += len(vals)

            def bad(what, detail):
                part.violation(f"{what}: {kind} {style} {cut}", f"{case}: {detail}", case)

            k = outcome(build, kind, style, cut, lb, ub, steep, how)
            if k[0] != "ok":
                bad("a kernel is refused", str(k))
                continue
            arr = np.array(vals)
            got = outcome(k[1].evaluate, arr)
            if got[0] != "ok":
                bad("evaluation fails", str(got))
                continue
            w = [float(x) for x in got[1]]
            if list(arr) != vals:
                bad("evaluation changes the values", "")
            if len(w) != len(vals) or not all(math.isfinite(x) and -EPS <= x <= 1 + EPS for x in w):
                bad("weights outside zero and one", f"{w}")
                continue
            if cut == "low cut":
                pairs = zip(w, w[1:])
            else:
                pairs = zip(w[1:], w)
            if any(a > b + EPS for a, b in pairs):
                bad("weights are not monotone", f"{list(zip(vals, w))}")
            low = [x for v, x in zip(vals, w) if v <= (lb if style != "rectangle" or cut != "low cut" else
                                                       math.nextafter(lb, -math.inf))]
            high = [x for v, x in zip(vals, w) if v >= (ub if style != "rectangle" or cut != "high cut" else
                                                        math.nextafter(ub, math.inf))]
            if max(low) - min(low) > EPS or max(high) - min(high) > EPS:
                bad("weights change outside the transition", f"{low} {high}")
            rej, acc = (low[0], high[-1]) if cut == "low cut" else (high[-1], low[0])
            if kind == "taper":
                wr = 0.08 if style == "hamming" else 0.0
                wa = 1.0
            elif style == "hard_tanh":
                wr, wa = 0.0, 1.0
            elif style == "hard_sigmoid":
                wr, wa = rej, 1 - rej
                if not 0 <= rej < 0.5:
                    bad("floor", f"{rej}")
            else:
                wr, wa = act(style, 0.0, steep), act(style, 1.0, steep)
            if abs(rej - wr) > EPS or abs(acc - wa) > EPS:
                bad("weight on the rejected or accepted side", f"{rej} {acc} expected {wr} {wa}")
            seen[cut] = w
            if style != "hard_sigmoid":
                for v, x in zip(vals, w):
                    t = min(1.0, max(0.0, (v - lb) / (ub - lb)))
                    if cut == "high cut":
                        t = 1 - t
                    if style == "rectangle":
                        want = float(v >= lb if cut == "low cut" else v <= ub)
                    elif kind == "taper":
                        want = half(style, t)
                    else:
                        want = act(style, t, steep)
                    if abs(want - x) > 1e-9:
                        bad("weight at a value", f"value {v}: {x} expected {want}")
                        break
            # one value at a time and in any shape gives the same weights
            one = outcome(lambda: [float(k[1].evaluate(np.array([v]))[0]) for v in vals[::4]])
            if one[0] != "ok" or any(abs(a - b) > EPS for a, b in zip(one[1], w[::4])):
                bad("weight depends on the other values", f"{one}")
            m = len(vals) // 2 * 2
            two = outcome(lambda: np.asarray(k[1].evaluate(np.array(vals[:m]).reshape(2, -1))).ravel().tolist())
            if two[0] != "ok" or any(abs(a - b) > EPS for a, b in zip(two[1], w[:m])):
                bad("weights of a table of values", f"{two}")
            sc = outcome(lambda: float(k[1].evaluate(vals[3])))
            if sc[0] != "ok" or abs(sc[1] - w[3]) > EPS:
                bad("weight of a single number", f"{sc} expected {w[3]}")
    part.sample(str(item[0]))


COMP = [((0.1, 0.3), (0.7, 0.9)), ((0.0, 0.5), (0.5, 1.0)), ((0.2, 0.6), (0.4, 0.8)), ((-3.0, -1.0), (2.0, 5.0))]


def weight(style, cut, lb, ub, v):
    if style == "rectangle":
        return float(v >= lb if cut == "low cut" else v <= ub)
    t = min(1.0, max(0.0, (v - lb) / (ub - lb)))
    return half(style, t if cut == "low cut" else 1 - t)


def job_composite(part, item):
    import numpy as np

    from mt_metadata.features.weights.taper_weight_kernel import TaperWeightKernel

    for style, (lo, hi), how in item:
        case = {"composite": style, "low": list(lo), "high": list(hi), "how": how}
        part.state(("composite", style, lo, hi))
        part.traces += 1

        def make():
            if how == "construct":
                return TaperWeightKernel(low_cut=lo, high_cut=hi, style=style)
            k = TaperWeightKernel(low_cut=(-9.0, -8.0), high_cut=(8.0, 9.0), style="blackman")
            k.evaluate(np.array([0.0]))
            k.low_kernel, k.high_kernel
            k.style, k.high_cut, k.low_cut = style, hi, lo
            return k

        k = outcome(make)
        vals = sorted(set(values(*lo, 10) + values(*hi, 10)))
        part.transitions += len(vals)
        got = outcome(lambda: [float(x) for x in k[1].evaluate(np.array(vals))])
        want = [weight(style, "low cut", *lo, v) * weight(style, "high cut", *hi, v) for v in vals]
        if got[0] != "ok" or any(abs(a - b) > 1e-9 for a, b in zip(got[1], want)):
            part.violation(f"composite kernel {style}", f"{case}: {got} expected {want}", case)


KERNELS = [("hann", "low cut", 0.2, 0.6), ("rectangle", "high cut", 0.4, 0.7), ("hamming", "high cut", 0.5, 0.9),
           ("blackman", "low cut", 0.1, 0.3), ("sigmoid", "low cut", 0.2, 0.6), ("hard_tanh", "high cut", 0.3, 0.8)]


def kdict(k):
    style, cut, lb, ub = k
    d = dict(threshold=cut, transition_lower_bound=lb, transition_upper_bound=ub)
    if style in TAPERS:
        d.update(style="taper", half_window_style=style)
    else:
        d.update(style="activation", activation_style=style, steepness=4.0)
    return d


def kweight(k, v):
    style, cut, lb, ub = k
    if style in TAPERS:
        return weight(style, cut, lb, ub, v)
    t = min(1.0, max(0.0, (v - lb) / (ub - lb)))
    if cut == "high cut":
        t = 1 - t
    return act(style, t, 4.0)


VALS = [0.0, 0.1, 0.2, 0.25, 0.4, 0.45, 0.55, 0.6, 0.7, 0.75, 0.9, 1.0]


def spec(kernels, active, how, feature):
    from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec

    ks = []
    for k, a in zip(kernels, active):
        d = kdict(k)
        if a is not None:
            d["active"] = a
        if how == "object" or (how == "mixed" and len(ks) % 2):
            obj = build("taper" if k[0] in TAPERS else "activation", k[0], k[1], k[2], k[3], 4.0, "construct")
            if a is not None:
                obj.active = a
            ks.append(obj)
        elif how == "wrapped":
            ks.append({"weight_kernel": d})
        else:
            ks.append(d)
    if how == "assign":
        s = FeatureWeightSpec(feature_name="coherence", feature={"name": feature, "ch1": "ex", "ch2": "hy"})
        s.weight_kernels = ks
        return s
    return FeatureWeightSpec(feature_name="coherence", feature={"name": feature, "ch1": "ex", "ch2": "hy"},
                             weight_kernels=ks)


def job_spec(part, item):
    import numpy as np

    for kernels, active, how in item:
        case = {"kernels": [list(k) for k in kernels], "active": list(active), "how": how}
        part.state(("spec", kernels, active))
        part.traces += 1
        part.transitions += len(VALS)
        s = outcome(spec, kernels, active, how, "coherence")
        if s[0] != "ok":
            part.violation(f"a list of kernels is refused ({how})", f"{case}: {s}", case)
            continue
        s = s[1]
        if len(s.weight_kernels) != len(kernels):
            part.violation(f"kernels lost ({how})", f"{case}: {s.weight_kernels}", case)
            continue
        on = [k for k, a in zip(kernels, active) if a is not False]
        want = [math.prod(kweight(k, v) for k in on) for v in VALS]
        got = outcome(lambda: (np.zeros(len(VALS)) + s.evaluate(np.array(VALS))).tolist())
        if got[0] != "ok" or any(abs(a - b) > 1e-9 for a, b in zip(got[1], want)):
            what = "product of the kernels" if None in active or all(active) else "inactive kernel"
            part.violation(f"weight of a feature: {what}", f"{case}: {got} expected {want}", case)
    part.sample(str(item[0]))


STYLES = {"multiplication": math.prod, "minimum": min, "maximum": max, "mean": lambda x: sum(x) / len(x)}


def job_channel(part, item):
    import numpy as np

    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec

    for names, style, shuffle in item:
        case = {"features": [[f, [list(k) for k in ks]] for f, ks in names], "combination": style, "extra": shuffle}
        part.state(("channel", names, style))
        part.traces += 1
        part.transitions += 1
        vals = {"coherence": np.array(VALS), "striding_window_coherence": np.array(VALS[::-1]),
                "fc_coherence": np.array([0.5] * len(VALS))}

        def make():
            c = ChannelWeightSpec(output_channels=["ex"])
            c.combination_style = style
            c.feature_weight_specs = [spec(ks, [None] * len(ks), "dict", f) for f, ks in names]
            given = dict(vals) if shuffle else {f: vals[f] for f, _ in names}
            return (np.zeros(len(VALS)) + c.evaluate(given)).tolist()

        got = outcome(make)
        parts = [[math.prod(kweight(k, float(v)) for k in ks) for v in vals[f]] for f, ks in names]
        want = [STYLES[style](x) for x in zip(*parts)] if parts else [1.0] * len(VALS)
        if got[0] != "ok" or any(abs(a - b) > 1e-9 for a, b in zip(got[1], want)):
            part.violation(f"weight of a channel by {style}", f"{case}: {got} expected {want}", case)
        if names:
            def miss():
                c = ChannelWeightSpec(output_channels=["ex"])
                c.feature_weight_specs = [spec(ks, [None] * len(ks), "dict", f) for f, ks in names]
                return c.evaluate({f: vals[f] for f, _ in names[1:] if f != names[0][0]})

            r = outcome(miss)
            if r[0] == "ok":
                part.violation("a feature without values is ignored", f"{case}: {r}", case)


def job_band(part, item):
    """the weights given for a band are those at the frequency nearest to its centre"""
    import numpy as np
    import xarray as xr

    from mt_metadata.common.band import Band
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec

    for freqs, lo, hi, avg, dims in item:
        case = {"frequencies": list(freqs), "band": [lo, hi, avg], "dims": list(dims)}
        part.state(("band", freqs, lo, hi, avg))
        part.traces += 1
        part.transitions += 1
        f = np.array(freqs)
        data = np.arange(len(f) * 3, dtype=float).reshape(len(f), 3) / 100
        da = xr.DataArray(data, dims=["frequency", "time"], coords={"frequency": f}).transpose(*dims)
        c = math.sqrt(lo * hi) if avg == "geometric" else (lo + hi) / 2
        d = [abs(x - c) for x in freqs]
        near = {k for k, x in enumerate(d) if x <= min(d) * (1 + 1e-9) + 1e-15}
        b = Band(frequency_min=lo, frequency_max=hi, center_averaging_type=avg)

        def get():
            spec = ChannelWeightSpec(output_channels=["ex"])
            spec.weights = da
            return np.asarray(spec.get_weights_for_band(b)).tolist()

        got = outcome(get)
        if got[0] != "ok" or got[1] not in [data[k].tolist() for k in near]:
            part.violation("weights for a band", f"{case}: {got} expected {[data[k].tolist() for k in near]}", case)


def run(ctx):
    q = ctx.quick
    n = 16 if q else 200
    cases = [("taper", s, b, 1.0) for s in TAPERS for b in BOUNDS]
    cases += [("activation", s, b, p) for s in ACTS for b in BOUNDS for p in (STEEP if "hard" not in s else [1.0])]
    if not q:
        ends = [-1e3, -10.0, -0.5, 0.0, 1e-3, 0.5, 0.75, 1.0, 20.0, 1e4]
        extra = list(itertools.combinations(ends, 2))
        cases += [("taper", s, b, 1.0) for s in TAPERS for b in extra]
        cases += [("activation", s, b, 10.0) for s in ACTS for b in extra]
    ctx.pmap(job_single, [[c] for c in cases], n=n)
    comp = list(itertools.product(TAPERS[1:] , COMP, ["construct", "reassign"]))
    comp = [c for c in comp if c[0] in ("hann", "hamming", "blackman")]
    ctx.pmap(job_composite, [comp])
    specs = []
    for r in range(0, 3 if q else 4):
        for ks in itertools.product(KERNELS, repeat=r):
            for how in ("dict", "object", "mixed", "wrapped", "assign"):
                if r < 3 or how == "dict":
                    specs.append((ks, (None,) * r, how))
            if r < 3:
                for active in itertools.product((True, False), repeat=r):
                    specs.append((ks, active, "dict"))
                    specs.append((ks, active, "object"))
    ctx.pmap(job_spec, [specs[i : i + 20] for i in range(0, len(specs), 20)])
    fs = ["coherence", "striding_window_coherence", "fc_coherence"]
    ch = []
    for r in range(0, 3):
        for names in itertools.permutations(fs, r):
            for ks in itertools.product([(KERNELS[0],), (KERNELS[1], KERNELS[4]), (KERNELS[5],)], repeat=r):
                for style in STYLES:
                    ch.append((tuple(zip(names, ks)), style, bool(len(ch) % 2)))
    ctx.pmap(job_channel, [ch[i : i + 20] for i in range(0, len(ch), 20)])
    fr = [(0.1, 0.2, 0.3, 0.4), (4.0, 2.0, 1.0, 0.5), (0.01, 0.1, 1.0, 10.0)]
    lim = [0.05, 0.1, 0.2, 0.21, 0.5, 1.0, 3.0, 4.0, 20.0]
    bd = [(f, lo, hi, avg, dims) for f in fr for lo, hi in itertools.combinations_with_replacement(lim, 2)
          for avg in ("geometric", "arithmetic") for dims in (("frequency", "time"), ("time", "frequency"))]
    ctx.pmap(job_band, [bd[i : i + 40] for i in range(0, len(bd), 40)])
    ctx.bounds = {"kernels": len(cases), "values_per_kernel": n + 13, "composites": len(comp),
                  "kernel_lists": len(specs), "channel_specs": len(ch), "band_lookups": len(bd)}
    ctx.assumptions = ["the floor of a Hamming half window is 0.08; sigmoid and tanh reach their own value at the bounds",
                       "bounds are finite and the lower one is the smaller"]


def replay(data):
    from mc.core import Part

    p = Part()
    c = data
    tup = lambda x: tuple(tup(y) for y in x) if isinstance(x, list) else x  # noqa
    if "kind" in c:
        job_single(p, [(c["kind"], c["style"], tuple(c["bounds"]), c["steepness"])], 16)
    elif "composite" in c:
        job_composite(p, [(c["composite"], tup(c["low"]) and (tup(c["low"]), tup(c["high"])), c["how"])])
    elif "kernels" in c:
        job_spec(p, [(tup(c["kernels"]), tup(c["active"]), c["how"])])
    elif "features" in c:
        job_channel(p, [(tup(c["features"]), c["combination"], c["extra"])])
    else:
        job_band(p, [(tup(c["frequencies"]), *c["band"], tup(c["dims"]))])
    return p
