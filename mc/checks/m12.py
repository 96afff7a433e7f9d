"""M12: complex response of every filter kind equals its defining formula; stage conversion keeps the filter.

Reference: closed formulas evaluated with cmath, one frequency at a time, straight
from the parameters the check itself chose (never read back from the filter).
"""
import cmath
import io
import itertools
import math

import numpy as np

from mc.core import Mismatch, Spec, bfs, bfs_replay

FREQS = [1e-4, 0.05, 0.7, 1.0, 2.0, 3.3, 7.9, 130.0]
UNITS = [("volt", "volt"), ("digital counts", "digital counts"), ("millivolt", "digital counts"), ("nanotesla", "millivolt")]


def C(x):
    return complex(*x) if isinstance(x, (list, tuple)) else complex(x)


def classes():
    from mt_metadata.timeseries import filters as F

    return {
        "coefficient": F.CoefficientFilter, "zpk": F.PoleZeroFilter, "delay": F.TimeDelayFilter,
        "fap": F.FrequencyResponseTableFilter, "fir": F.FIRFilter,
    }


def interp(x, xs, ys):
    pts = sorted(zip(xs, ys))
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    i = 0
    while i < len(xs) - 2 and x > xs[i + 1]:
        i += 1
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] + t * (ys[i + 1] - ys[i])


def taps(kind, c, odd_as_stored=False):
    if kind == "EVEN":
        return list(c) + list(reversed(c))
    if kind == "ODD":
        if odd_as_stored:
            return list(c) + list(reversed(c[1:]))
        return list(c) + list(reversed(c[:-1]))
    return list(c)


def fir_h(t, f, fs):
    return sum(a * cmath.exp(-2j * math.pi * f / fs * k) for k, a in enumerate(t))


def ref(kind, p, f, odd_as_stored=False):
    g = p.get("gain", 1.0)
    if kind == "coefficient":
        return complex(g)
    if kind == "delay":
        return g * cmath.exp(-2j * math.pi * f * p.get("delay", 0.0))
    if kind == "zpk":
        s = 2j * math.pi * f
        h = complex(g * p.get("normalization_factor", 1.0))
        for z in p.get("zeros", []):
            h *= s - C(z)
        for q in p.get("poles", []):
            h /= s - C(q)
        return h
    if kind == "fap":
        return g * interp(f, p["frequencies"], p["amplitudes"]) * cmath.exp(1j * interp(f, p["frequencies"], p["phases"]))
    if kind == "fir":
        fs = p.get("decimation_input_sample_rate", 1.0)
        t = taps(p.get("symmetry", "NONE"), p["coefficients"], odd_as_stored)
        gf = p.get("gain_frequency", 0.0)
        cg = sum(t) if gf == 0 else abs(fir_h(t, gf, fs))
        return g * fir_h(t, f, fs) / cg
    raise KeyError(kind)


def kw(kind, p):
    out = {}
    for k, v in p.items():
        if k in ("poles", "zeros"):
            v = [C(x) for x in v]
        out[k] = list(v) if isinstance(v, (list, tuple)) else v
    return out


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(b), 1e-300) or abs(a - b) < 1e-12 * max(1.0, abs(b))


def fir_tol(kind):
    return 1e-7 if kind == "fir" else 1e-9


def scale(kind, p, f):
    """magnitude against which rounding is judged (cancellation in sums of taps)"""
    if kind == "fir":
        t = taps(p.get("symmetry", "NONE"), p["coefficients"])
        gf = p.get("gain_frequency", 0.0)
        fs = p.get("decimation_input_sample_rate", 1.0)
        cg = sum(t) if gf == 0 else abs(fir_h(t, gf, fs))
        return abs(p.get("gain", 1.0)) * sum(abs(x) for x in t) / abs(cg)
    return 0.0


def compare(label, kind, p, flt, freqs=FREQS):
    fr = np.array(freqs)
    keep = fr.copy()
    h = np.asarray(flt.complex_response(fr))
    if not np.array_equal(fr, keep):
        raise Mismatch(f"{label}: complex_response changes the frequencies it is given", "")
    if h.shape != fr.shape:
        raise Mismatch(f"{label}: {kind} response has the wrong shape", f"{h.shape} for {fr.shape}")
    known = None
    for f, v in zip(freqs, h):
        r = ref(kind, p, f)
        if not (close(complex(v), r, fir_tol(kind)) or abs(v - r) <= 1e-9 * scale(kind, p, f)):
            if kind == "fir" and p.get("symmetry") == "ODD" and len(p["coefficients"]) > 1:
                r2 = ref(kind, p, f, True)
                if close(complex(v), r2, 1e-7) or abs(v - r2) <= 1e-8 * max(abs(r2), scale(kind, p, f)):
                    known = Mismatch("fir with ODD symmetry mirrors the wrong end of its coefficients", f"{p} f={f} {v} != {r}")
                    continue
            raise Mismatch(f"{label}: {kind} response is not its formula", f"{p} f={f} got {v} expected {r}")
    if known:
        raise known
    return h


def fields(flt, kind):
    names = {"coefficient": [], "delay": ["delay"], "zpk": ["poles", "zeros", "normalization_factor"],
             "fap": ["frequencies", "amplitudes", "phases"],
             "fir": ["coefficients", "symmetry", "gain_frequency", "decimation_factor", "decimation_input_sample_rate"]}[kind]
    out = {"class": type(flt).__name__, "type": flt.type, "name": flt.name, "gain": flt.gain,
           "units_in": flt.units_in, "units_out": flt.units_out}
    for n in names:
        v = getattr(flt, n)
        out[n] = [complex(x) for x in np.asarray(v)] if isinstance(v, (np.ndarray, list)) else v
    return out


def expected_fields(kind, p, units):
    cls = classes()[kind].__name__
    t = {"coefficient": "coefficient", "delay": "time delay", "zpk": "zpk", "fap": "fap", "fir": "fir"}[kind]
    d = {"class": cls, "type": t, "name": p.get("name", ""), "gain": p.get("gain", 1.0), "units_in": units[0], "units_out": units[1]}
    for k, v in kw(kind, p).items():
        if k in ("name", "gain"):
            continue
        d[k] = [complex(x) for x in v] if isinstance(v, list) else v
    return d


def same_fields(a, b, skip=()):
    for k, v in b.items():
        if k in skip:
            continue
        w = a.get(k)
        if isinstance(v, list):
            if len(w) != len(v) or any(abs(x - y) > 1e-9 * abs(y) for x, y in zip(w, v)):
                return k, w, v
        elif isinstance(v, float) and isinstance(w, (int, float)):
            if abs(w - v) > 1e-9 * abs(v):
                return k, w, v
        elif w != v:
            return k, w, v
    return None


def degenerate(kind, p):
    """stages whose kind is not recorded in a stage: no poles/zeros, or no delay"""
    return (kind == "zpk" and not p.get("poles") and not p.get("zeros")) or (kind == "delay" and p.get("delay", 0) == 0)


def through_xml(stages):
    """write the stages into StationXML text and read them back (obspy does both)"""
    from obspy.core import inventory as I, UTCDateTime

    chans = []
    for i, s in enumerate(stages):
        r = I.Response(response_stages=[s])
        chans.append(I.Channel(code="LFE", location_code=f"{i:02d}"[-2:], latitude=0, longitude=0, elevation=0, depth=0,
                               sample_rate=1.0, start_date=UTCDateTime(1980 + i // 100, 1, 1), response=r))
    net = I.Network(code="ZU", stations=[I.Station(code="X", latitude=0, longitude=0, elevation=0, channels=chans)])
    inv = I.Inventory(networks=[net], source="m12")
    b = io.BytesIO()
    inv.write(b, format="STATIONXML")
    b.seek(0)
    from obspy import read_inventory

    back = read_inventory(b, format="STATIONXML")
    return [c.response.response_stages[0] for c in back[0][0].channels]


def after_stage(label, kind, p, units, flt, stage, comment):
    from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage

    back = create_filter_from_stage(stage)
    skip = {"class", "type"} | ({"poles", "zeros", "normalization_factor", "delay"} if degenerate(kind, p) else set())
    if not degenerate(kind, p):
        skip = set()
    if kind == "delay" and p.get("gain", 1.0) != 1.0 and p.get("delay"):
        if type(back).__name__ == "CoefficientFilter":
            raise Mismatch("a time delay stage with a gain other than one is read back as a coefficient filter", f"{p}")
    d = same_fields(fields(back, {"CoefficientFilter": "coefficient"}.get(type(back).__name__, kind) if degenerate(kind, p) else kind),
                    expected_fields(kind, p, units), skip)
    if d:
        raise Mismatch(f"{label}: {kind} {d[0]} changes through a stage", f"{p} {units}: {d[1]} != {d[2]}")
    for f, v in zip(FREQS, np.asarray(back.complex_response(np.array(FREQS)))):
        r = np.asarray(flt.complex_response(np.array([f])))[0]
        if not (close(complex(v), complex(r), 1e-7) or abs(v - r) <= 1e-7 * scale(kind, p, f)):
            raise Mismatch(f"{label}: {kind} response changes through a stage", f"{p} f={f}: {v} != {r}")
    if comment and back.comments.value != comment:
        raise Mismatch(f"{label}: {kind} comment changes through a stage", f"{back.comments.value!r} != {comment!r}")
    return back


def in_hertz(p, stage):
    """the same poles and zeros stated in Hz"""
    import copy

    from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage

    st = copy.deepcopy(stage)
    st.pz_transfer_function_type = "LAPLACE (HERTZ)"
    back = create_filter_from_stage(st)
    for f, v in zip(FREQS, np.asarray(back.complex_response(np.array(FREQS)))):
        r = complex(p.get("gain", 1.0) * p.get("normalization_factor", 1.0))
        for z in p["zeros"]:
            r *= 1j * f - C(z)
        for q in p["poles"]:
            r /= 1j * f - C(q)
        if not close(complex(v), r, 1e-7) and abs(v - r) > 1e-9 * abs(r) + 1e-300:
            raise Mismatch("response of a stage whose poles are in Hz", f"{p} f={f}: {v} != {r}")


# ---------------------------------------------------------------- parameter grid
def multisets(items, n):
    return [list(c) for k in range(n + 1) for c in itertools.combinations_with_replacement(items, k)]


def grid(quick):
    gains = [1.0, 2.5, -3.0, 1e-6] + ([] if quick else [1e9, 0.0])
    out = [("coefficient", {"gain": g}) for g in gains]
    delays = [0.0, 0.25, -0.201, 1e-3] + ([] if quick else [100.0])
    out += [("delay", {"gain": g, "delay": d}) for g in gains for d in delays]
    poles = [[-1.0, 0.0], [-0.5, 2.0], [-0.5, -2.0], [-3000.0, 0.0]] + ([] if quick else [[0.0, 0.0], [-6.28, 10.0]])
    zeros = [[0.0, 0.0], [-2.0, 0.0], [0.0, 3.0]] + ([] if quick else [[5.0, -1.0]])
    for ps in multisets(poles, 2 if quick else 3):
        for zs in multisets(zeros, 2):
            for nf in (1.0, 7.0) if quick else (1.0, 7.0, 1e-3, -2.0):
                for g in (1.0, 2.5) if quick else gains[:4]:
                    out.append(("zpk", {"gain": g, "normalization_factor": nf, "poles": ps, "zeros": zs}))
    fsets = [[0.5, 3.0], [0.1, 1.0, 4.0], [4.0, 1.0, 0.1]] + ([] if quick else [[0.1, 0.2, 1.0, 50.0], [1.0, 0.1, 4.0]])
    for fs in fsets:
        amps = list(itertools.product([0.5, 2.0], repeat=len(fs)))
        phs = list(itertools.product([-2.0, 0.0, 1.0] if not quick or len(fs) < 3 else [-2.0, 1.0], repeat=len(fs)))
        for a in amps:
            for ph in phs:
                for g in (1.0, -3.0):
                    out.append(("fap", {"gain": g, "frequencies": fs, "amplitudes": list(a), "phases": list(ph)}))
    vals = [1.0, 0.25, -0.5]
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for c in itertools.product(vals, repeat=n):
            for sym in ("NONE", "EVEN", "ODD"):
                for gf in (0.0, 2.0):
                    for g in (1.0, 2.5):
                        for fs, dec in ((1000.0, 1.0), (16.0, 4.0)):
                            if quick and n == 3 and (g == 1.0) != (dec == 1.0):
                                continue
                            t = taps(sym, c)
                            t2 = taps(sym, c, True)
                            if any(abs(sum(x) if gf == 0 else fir_h(x, gf, fs)) < 1e-3 for x in (t, t2)):
                                continue
                            out.append(("fir", {"gain": g, "coefficients": list(c), "symmetry": sym, "gain_frequency": gf,
                                                "decimation_input_sample_rate": fs, "decimation_factor": dec}))
    return out


def judge(part, kind, p, units, comment, xml=None):
    part.evaluations += len(FREQS)
    part.traces += 1
    rep = {"kind": kind, "p": p, "units": units, "comment": comment}
    ok = None

    def guard(fn):
        nonlocal ok
        try:
            return fn()
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            import traceback

            part.violation(f"{kind}: {type(e).__name__} {str(e)[:80]}", traceback.format_exc(), rep)
        return None

    cls = classes()[kind]
    p = dict(p, name="flt")
    flt = guard(lambda: cls(units_in=units[0], units_out=units[1], **({"comments": comment} if comment else {}), **kw(kind, p)))
    if flt is None:
        return None
    units = (flt.units_in, flt.units_out)
    before = fields(flt, kind)
    guard(lambda: compare("constructor", kind, p, flt))

    def assigned():
        g = cls()
        for k, v in list(kw(kind, p).items())[::-1]:
            setattr(g, k, v)
        g.units_in, g.units_out = units
        compare("assignment", kind, p, g)
        for f in FREQS[1:4]:
            compare("single frequency", kind, p, flt, [f])
        compare("reversed frequencies", kind, p, flt, FREQS[::-1])
        if kind != "fap":  # a table ends at its first frequency
            compare("negative frequencies", kind, p, flt, [-f for f in FREQS] + [0.3])
            if kind != "zpk" or not any(C(q) == 0 for q in p.get("poles", [])):
                compare("frequency zero", kind, p, flt, [0.0, 0.3])

    guard(assigned)

    def loaded():
        d = flt.to_dict(single=True)
        g = cls()
        g.from_dict(d)
        compare("dictionary", kind, p, g)

    guard(loaded)
    part.state((kind, str(sorted(p.items(), key=str)), units))
    stage = guard(lambda: flt.to_obspy(stage_number=1))
    if stage is not None:
        guard(lambda: after_stage("stage", kind, p, units, flt, stage, comment))
        if kind == "zpk" and not degenerate(kind, p) and not any(C(q) == 0 for q in p["poles"]):
            guard(lambda: in_hertz(p, stage))
    if same_fields(fields(flt, kind), before) is not None:
        part.violation(f"{kind}: using a filter changes it", str(p), rep)
    part.transitions += 4
    return (kind, p, units, flt, stage, comment)


def chunk(part, item):
    rows = []
    for kind, p, units, comment in item:
        r = judge(part, kind, p, tuple(units), comment)
        if r and r[4] is not None:
            rows.append(r)
    try:
        back = through_xml([r[4] for r in rows])
    except Exception as e:
        import traceback

        part.violation(f"StationXML text: {type(e).__name__}", traceback.format_exc(), {"kind": item[0][0], "p": item[0][1]})
        return
    for (kind, p, units, flt, _, comment), st in zip(rows, back):
        try:
            after_stage("StationXML text", kind, p, units, flt, st, comment)
        except Mismatch as m:
            part.violation(m.sig, m.detail, {"kind": kind, "p": p, "units": units, "comment": comment, "xml": True})
        except Exception as e:
            import traceback

            part.violation(f"StationXML text {kind}: {type(e).__name__} {str(e)[:80]}", traceback.format_exc(),
                           {"kind": kind, "p": p, "units": units, "comment": comment, "xml": True})
        part.transitions += 1


# ---------------------------------------------------------------- edit histories
EDITS = {
    "coefficient": [("gain", 2.0), ("gain", -5.0)],
    "delay": [("gain", 2.0), ("delay", 0.3), ("delay", -1.0)],
    "zpk": [("gain", 2.0), ("normalization_factor", 3.0), ("poles", [[-1.0, 0.0]]), ("poles", []), ("zeros", [[0.0, 0.0]]), ("zeros", [[-2.0, 0.0], [-2.0, 0.0]])],
    "fap": [("gain", 2.0), ("amplitudes", [3.0, 1.0]), ("phases", [1.0, -1.0]), ("frequencies", [0.2, 5.0])],
    "fir": [("gain", 2.0), ("coefficients", [0.5, 1.0]), ("symmetry", "EVEN"), ("symmetry", "NONE"), ("gain_frequency", 2.0),
            ("gain_frequency", 0.0), ("decimation_input_sample_rate", 64.0), ("decimation_factor", 2.0)],
}
START = {
    "coefficient": {}, "delay": {}, "zpk": {},
    "fap": {"frequencies": [0.1, 10.0], "amplitudes": [1.0, 2.0], "phases": [0.0, 0.5]},
    "fir": {"coefficients": [1.0, 0.25], "decimation_input_sample_rate": 16.0},
}
OPS = ["evaluate", "to_obspy", "copy", "total_gain", "pass_band", "to_dict"]


class Edits(Spec):
    def __init__(self, kind):
        self.kind = kind
        self.name = f"edits of {kind}"

    def new(self):
        p = dict(START[self.kind])
        return classes()[self.kind](name="e", units_in="volt", units_out="volt", **kw(self.kind, p)), p

    def ops(self, model):
        return [["set", k, v] for k, v in EDITS[self.kind]] + [[o] for o in OPS]

    def apply(self, pair, op):
        r, m = pair
        if op[0] == "set":
            v = kw(self.kind, {op[1]: op[2]})[op[1]]
            setattr(r, op[1], v)
            return r, dict(m, **{op[1]: op[2]})
        if op[0] == "evaluate":
            r.complex_response(np.array(FREQS))
        elif op[0] == "to_obspy":
            r.to_obspy(stage_number=2, normalization_frequency=0.5, sample_rate=4)
        elif op[0] == "copy":
            r2 = r.copy()
            r.gain = 77.0
            return r2, m
        elif op[0] == "pass_band":
            r.pass_band(np.array(FREQS))
        elif op[0] == "to_dict":
            r.to_dict(single=True, required=False)
        elif op[0] == "total_gain":
            g = r.total_gain
            e = m.get("gain", 1.0) * m.get("normalization_factor", 1.0)
            if abs(g - e) > 1e-12 * abs(e):
                raise Mismatch("total gain", f"{g} != {e}")
        return r, m

    def observe(self, pair):
        r, m = pair
        compare("after edits", self.kind, m, r)
        return str(sorted(m.items()))


def make(kind):
    return Edits(kind)


def run(ctx):
    g = grid(ctx.quick)
    jobs = []
    for i, (k, p) in enumerate(g):
        us = UNITS if k in ("coefficient", "delay") else [UNITS[i % len(UNITS)]]
        for j, u in enumerate(us):
            jobs.append((k, p, list(u), [None, "a comment"][(i + j) % 2]))
    n = 60
    ctx.pmap(chunk, [jobs[i:i + n] for i in range(0, len(jobs), n)])
    depth = 3 if ctx.quick else 4
    bfs(ctx, make, list(EDITS), depth, merge_from=2)
    ctx.bounds = {"parameter_points": len(g), "frequencies": FREQS, "units": UNITS, "edit_depth": depth,
                  "kinds": list(EDITS), "paths": "constructor, assignment, dictionary, stage object, StationXML text, edit histories"}
    ctx.assumptions = ["a stage without poles and zeros, or with zero delay, carries no kind: only its response is compared",
                       "frequency tables have at least two entries and phases within 6 pi (larger ones are documented to be degrees)"]


def replay(data):
    if "history" in data:
        return bfs_replay(make, data)
    from mc.core import Part

    p = Part()
    if data.get("xml"):
        chunk(p, [(data["kind"], data["p"], data["units"], data["comment"])])
    else:
        judge(p, data["kind"], data["p"], tuple(data["units"]), data["comment"])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
