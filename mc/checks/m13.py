"""M13: channel response = product of its stages, for every selection and order; unit chaining."""
import cmath
import itertools
import math

import numpy as np

from mc.core import Mismatch
from mc.checks import m12

FREQS = [0.05, 0.7, 1.0, 3.3]


ALPHABET = {
    "gain": ("coefficient", {"gain": 2.5}),
    "minus": ("coefficient", {"gain": -0.5}),
    "low": ("zpk", {"gain": 3.0, "normalization_factor": 2.0, "poles": [[-1.0, 0.0]], "zeros": []}),
    "diff": ("zpk", {"gain": 1.0, "normalization_factor": 1.0, "poles": [[-30.0, 5.0], [-30.0, -5.0]], "zeros": [[0.0, 0.0]]}),
    "late": ("delay", {"gain": 1.0, "delay": 0.25}),
    "early": ("delay", {"gain": 1.0, "delay": -0.1}),
    "table": ("fap", {"gain": 2.0, "frequencies": [0.01, 1.0, 10.0], "amplitudes": [1.0, 2.0, 0.5], "phases": [0.0, 1.0, -1.0]}),
    "fir": ("fir", {"gain": 1.0, "coefficients": [1.0, 0.25], "symmetry": "EVEN", "gain_frequency": 0.0,
                    "decimation_input_sample_rate": 64.0, "decimation_factor": 1.0}),
    "fir4": ("fir", {"gain": 2.0, "coefficients": [1.0, 0.25, 0.5], "symmetry": "NONE", "gain_frequency": 2.0,
                     "decimation_input_sample_rate": 64.0, "decimation_factor": 4.0}),
}


def build(name, units=("Volt", "Volt"), suffix=""):
    kind, p = ALPHABET[name]
    return m12.classes()[kind](name=name + suffix, units_in=units[0], units_out=units[1], **m12.kw(kind, p))


def product(names, f):
    h = 1.0 + 0j
    for n in names:
        h *= m12.ref(ALPHABET[n][0], ALPHABET[n][1], f)
    return h


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(abs(b), 1e-12)


def selected(names, delay, dec):
    return [n for n in names if (delay or ALPHABET[n][0] != "delay")
            and (dec or ALPHABET[n][1].get("decimation_factor", 1.0) == 1.0)]


def sig6(x, digits=6):
    return 0.0 if x == 0 else round(x, digits - int(math.floor(math.log10(abs(x)))))


def judge(part, names):
    from mt_metadata.timeseries.filters import ChannelResponse

    rep = {"names": list(names)}
    part.traces += 1
    part.transitions += 6
    part.state(names)
    try:
        flts = [build(n) for n in names]
        before = [str(m12.fields(f, ALPHABET[n][0])) for f, n in zip(flts, names)]
        cr = ChannelResponse(filters_list=list(flts))
        other = ChannelResponse()
        other.filters_list = list(flts)
        if [f.name for f in cr.filters_list] != list(names) or [f.name for f in other.filters_list] != list(names):
            raise Mismatch("the list of filters is not the one given", f"{names}")
        if list(cr.names) != list(names):
            raise Mismatch("names", f"{cr.names} {names}")
        for flags in itertools.product((False, True), repeat=2):
            delay, dec = flags
            fr = np.array(FREQS)
            for obj in (cr, other):
                h = np.asarray(obj.complex_response(fr, include_delay=delay, include_decimation=dec))
                if not np.array_equal(fr, FREQS):
                    raise Mismatch("complex_response changes its frequencies", "")
                sel = selected(names, delay, dec)
                if h.shape != fr.shape:
                    raise Mismatch("shape of the total response", f"{names} {flags} {h.shape}")
                for f, v in zip(FREQS, h):
                    if not near(v, product(sel, f)):
                        raise Mismatch(f"total response is not the product of its stages (delay={delay}, decimation={dec})",
                                       f"{names} f={f}: {v} != {product(sel, f)}")
                part.evaluations += len(FREQS)
            got = [f.name for f in cr.get_list_of_filters_to_remove(include_delay=delay, include_decimation=dec)]
            if got != sel:
                raise Mismatch("list of filters to remove", f"{names} {flags}: {got} != {sel}")
            h = np.asarray(cr.complex_response(np.array(FREQS), include_delay=delay, include_decimation=dec, normalize=True))
            e = np.array([product(sel, f) for f in FREQS])
            if not all(near(a, b) for a, b in zip(h, e / np.abs(e).max())):
                raise Mismatch("normalized response", f"{names} {flags}")
        for k in range(len(names)):
            sub = flts[k:]
            h = np.asarray(cr.complex_response(np.array(FREQS), filters_list=sub))
            if not all(near(v, product(names[k:], f)) for f, v in zip(FREQS, h)):
                raise Mismatch("response of a given list of filters", f"{names[k:]}")
        if abs(cr.total_delay - sum(ALPHABET[n][1].get("delay", 0.0) for n in names)) > 1e-12:
            raise Mismatch("total delay", f"{names} {cr.total_delay}")
        if [f.name for f in cr.delay_filters] != [n for n in names if ALPHABET[n][0] == "delay"]:
            raise Mismatch("delay filters", f"{names}")
        if [f.name for f in cr.non_delay_filters] != [n for n in names if ALPHABET[n][0] != "delay"]:
            raise Mismatch("non delay filters", f"{names}")
        if names:
            tg = math.prod(ALPHABET[n][1].get("gain", 1.0) for n in names)
            if not near(cr.compute_total_gain(), tg, 1e-12):
                raise Mismatch("total gain", f"{names} {cr.compute_total_gain()} != {tg}")
            for nf in (1.0, 3.3):
                s = cr.compute_instrument_sensitivity(nf)
                e = sig6(abs(product(names, nf)))
                if not near(s, e, 2e-6):
                    raise Mismatch("instrument sensitivity", f"{names} at {nf}: {s} != {e}")
            r = cr.to_obspy(sample_rate=1)
            stages_back(cr, names, r, tg)
        after = [str(m12.fields(f, ALPHABET[n][0])) for f, n in zip(flts, names)]
        if before != after:
            raise Mismatch("evaluating the response changes a filter", f"{names}")
    except Mismatch as m:
        part.violation(m.sig, m.detail, rep)
    except Exception as e:
        import traceback

        part.violation(f"{type(e).__name__}: {str(e)[:80]}", traceback.format_exc(), rep)


def stages_back(cr, names, r, tg):
    from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage

    if [s.stage_sequence_number for s in r.response_stages] != list(range(1, len(names) + 1)):
        raise Mismatch("stage numbers", f"{names} {[s.stage_sequence_number for s in r.response_stages]}")
    if not near(r.instrument_sensitivity.value, tg, 1e-12):
        raise Mismatch("sensitivity of the StationXML response", f"{names} {r.instrument_sensitivity.value} {tg}")
    if [s.name for s in r.response_stages] != list(names):
        raise Mismatch("stage names", f"{[s.name for s in r.response_stages]}")
    back = [create_filter_from_stage(s) for s in r.response_stages]
    for n, b in zip(names, back):
        if type(b) is not m12.classes()[ALPHABET[n][0]]:
            raise Mismatch(f"{ALPHABET[n][0]} stage of a response comes back as another kind", f"{names} {type(b).__name__}")
        for f in FREQS:
            v = np.asarray(b.complex_response(np.array([f])))[0]
            if not near(v, product([n], f)):
                raise Mismatch(f"{ALPHABET[n][0]} stage of a response", f"{names} {f}: {v} != {product([n], f)}")


def chunk(part, item):
    for names in item:
        judge(part, tuple(names))


# ------------------------------------------------------------- unit chains
U = ["Volt", "nanoTesla", "digital counts"]


def chain_judge(part, links):
    """links: list of (in, out) unit indices; accepted exactly when they chain"""
    from mt_metadata.timeseries.filters import ChannelResponse

    rep = {"links": [list(x) for x in links]}
    part.traces += 1
    part.transitions += 2
    part.state(("chain", links))
    kinds = ["gain", "low", "late", "table", "fir"]
    ok = all(links[i][1] == links[i + 1][0] for i in range(len(links) - 1))
    try:
        flts = [build(kinds[(i + a + 2 * b) % 5], (U[a], U[b]), str(i)) for i, (a, b) in enumerate(links)]
        try:
            cr = ChannelResponse(filters_list=list(flts))
            acc = True
        except ValueError:
            acc = False
        base = build("gain", ("Volt", "Volt"), "base")
        asg = ChannelResponse(filters_list=[base])
        try:
            asg.filters_list = list(flts)
            acc2 = True
        except ValueError:
            acc2 = False
        if acc != ok or acc2 != ok:
            raise Mismatch(f"a list of filters whose units {'chain' if ok else 'do not chain'} is {'refused' if ok else 'accepted'}",
                           f"{[(U[a], U[b]) for a, b in links]} constructor={acc} assignment={acc2}")
        if ok:
            for obj in (cr, asg):
                if links and (obj.units_in, obj.units_out) != (U[links[0][0]], U[links[-1][1]]):
                    raise Mismatch("units of the response", f"{links}: {obj.units_in} {obj.units_out}")
                if len(obj.filters_list) != len(links):
                    raise Mismatch("length of the list", f"{links}")
        else:
            if [f.name for f in asg.filters_list] != ["gainbase"] or asg.units_in != "Volt" or asg.units_out != "Volt":
                raise Mismatch("a refused list of filters changes the response", f"{links}")
    except Mismatch as m:
        part.violation(m.sig, m.detail, rep)
    except Exception as e:
        import traceback

        part.violation(f"{type(e).__name__}: {str(e)[:80]}", traceback.format_exc(), rep)


def chain_chunk(part, item):
    for links in item:
        chain_judge(part, tuple(tuple(x) for x in links))


# ------------------------------------------------------------- channels of a survey
def channel_judge(part, item):
    """a channel finds its filters by name: every applied list x every filter dictionary"""
    from mt_metadata.timeseries import Electric
    from mt_metadata.timeseries import AppliedFilter

    for applied, have in item:
        rep = {"applied": list(applied), "have": list(have)}
        part.traces += 1
        part.transitions += 1
        part.state(("channel", tuple(applied), tuple(have)))
        try:
            ch = Electric(component="ex")
            for i, n in enumerate(applied, 1):
                ch.add_filter(AppliedFilter(name=n, applied=True, stage=i))
            cr = ch.channel_response({n: build(n) for n in have})
            want = [n for n in applied if n in have]
            if [f.name for f in cr.filters_list] != want:
                raise Mismatch("filters of a channel response", f"{applied} {have}: {[f.name for f in cr.filters_list]} != {want}")
            h = np.asarray(cr.complex_response(np.array(FREQS), include_delay=True, include_decimation=True))
            if not all(near(v, product(want, f)) for f, v in zip(FREQS, h)):
                raise Mismatch("response of a channel", f"{applied} {have}")
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            import traceback

            part.violation(f"channel: {type(e).__name__}: {str(e)[:80]}", traceback.format_exc(), rep)


# ------------------------------------------------------------- stages of the StationXML response
KIND_OF_STAGE = {"zpk": "PolesZerosResponseStage", "delay": "CoefficientsTypeResponseStage",
                 "fap": "ResponseListResponseStage", "fir": "FIRResponseStage"}
SYMBOL = {"Volt": "V", "nanoTesla": "nT", "digital counts": "count"}


def stage_judge(part, item):
    """every filter kind between every pair of units, described or not: what its stage states"""
    from mt_metadata.timeseries.filters import ChannelResponse
    from mt_metadata.timeseries.filters.obspy_stages import create_filter_from_stage

    for names, units, about, rate in item:
        rep = {"stages": list(names), "units": list(units), "about": about, "rate": rate}
        part.traces += 1
        part.transitions += 1
        part.state(("stages", names, units, about, rate))
        try:
            flts = [build(n, (U[units[i]], U[units[i + 1]]), f"_{i}") for i, n in enumerate(names)]
            for i, f in enumerate(flts):
                if about:
                    f.comments = f"{about} {i}"
            cr = ChannelResponse(filters_list=flts)
            r = cr.to_obspy(sample_rate=rate)
            sens = r.instrument_sensitivity
            e = (SYMBOL[U[units[0]]], SYMBOL[U[units[-1]]])
            if (sens.input_units, sens.output_units) != e:
                raise Mismatch("units of the sensitivity", f"{(sens.input_units, sens.output_units)} {e}")
            nf = cr.normalization_frequency
            if sens.frequency != nf:
                raise Mismatch("frequency of the sensitivity", f"{sens.frequency} {nf}")
            if len(r.response_stages) != len(names):
                raise Mismatch("number of stages", f"{len(r.response_stages)}")
            for i, (n, f, s) in enumerate(zip(names, flts, r.response_stages)):
                kind, p = ALPHABET[n]
                out = U[units[i + 1]]
                cls = KIND_OF_STAGE.get(kind) or ("CoefficientsTypeResponseStage" if out == "digital counts" else "PolesZerosResponseStage")
                want = {
                    "stage_sequence_number": i + 1,
                    "name": f"{n}_{i}",
                    "stage_gain": p.get("gain", 1.0),
                    "stage_gain_frequency": p["gain_frequency"] if kind == "fir" else nf,
                    "input_units": SYMBOL[U[units[i]]],
                    "output_units": SYMBOL[out],
                }
                if about:
                    want["description"] = f"{about} {i}"
                if cls == "CoefficientsTypeResponseStage":
                    want.update({"decimation_input_sample_rate": rate, "decimation_factor": 1, "decimation_offset": 0,
                                 "decimation_delay": p.get("delay", 0), "decimation_correction": 0,
                                 "numerator": [1], "denominator": [], "cf_transfer_function_type": "DIGITAL"})
                elif cls == "PolesZerosResponseStage":
                    want.update({"poles": [complex(*x) for x in p.get("poles", [])],
                                 "zeros": [complex(*x) for x in p.get("zeros", [])],
                                 "normalization_factor": p.get("normalization_factor", 1.0),
                                 "normalization_frequency": nf,
                                 "pz_transfer_function_type": "LAPLACE (RADIANS/SECOND)"})
                elif kind == "fir":
                    want.update({"coefficients": p["coefficients"], "symmetry": p["symmetry"],
                                 "decimation_input_sample_rate": p["decimation_input_sample_rate"],
                                 "decimation_factor": int(p["decimation_factor"])})
                elif kind == "fap":
                    want["response_list_elements"] = list(zip(p["frequencies"], p["amplitudes"], p["phases"]))
                if type(s).__name__ != cls:
                    raise Mismatch(f"{kind} filter becomes another kind of stage", f"{type(s).__name__} {cls}")
                for k, v in want.items():
                    g = getattr(s, k)
                    if k == "response_list_elements":
                        g = [(float(x.frequency), float(x.amplitude), float(x.phase)) for x in g]
                    if k in ("coefficients", "poles", "zeros"):
                        g = [complex(x) for x in g]
                        v = [complex(x) for x in v]
                    if g is None or g != v:
                        raise Mismatch(f"{kind} filter: {k} of its stage", f"{names} {units}: {g!r} {v!r}")
                b = create_filter_from_stage(s)
                if (b.name, b.units_in, b.units_out) != (f"{n}_{i}", U[units[i]], out):
                    raise Mismatch(f"{kind} filter: name and units of its stage read back", f"{(b.name, b.units_in, b.units_out)}")
                if about and b.comments.value != f"{about} {i}":
                    raise Mismatch(f"{kind} filter: comment of its stage read back", f"{b.comments.value!r}")
                if abs(b.gain - p.get("gain", 1.0)) > 1e-12:
                    raise Mismatch(f"{kind} filter: gain of its stage read back", f"{b.gain}")
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as e:
            import traceback

            part.violation(f"stages: {type(e).__name__}: {str(e)[:80]}", traceback.format_exc(), rep)


def run(ctx):
    n = 2 if ctx.quick else 3
    lists = [c for k in range(n + 1) for c in itertools.product(ALPHABET, repeat=k)]
    if ctx.quick:
        few = ["minus", "low", "late", "table", "fir4"]
        lists += [c for c in itertools.product(few, repeat=3)]
    else:
        few = ["minus", "low", "late", "fir4"]
        lists += [c for c in itertools.product(few, repeat=4)]
    ctx.pmap(chunk, [lists[i::48] for i in range(48)])
    pairs = list(itertools.product(range(len(U)), repeat=2))
    m = 3 if ctx.quick else 4
    chains = [c for k in range(m + 1) for c in itertools.product(pairs, repeat=k)]
    ctx.pmap(chain_chunk, [chains[i::48] for i in range(48)])
    names = ["minus", "low", "late", "fir"]
    jobs = [(a, h) for k in range(4 if ctx.quick else 5) for a in itertools.permutations(names, k)
            for j in range(5) for h in itertools.combinations(names, j)]
    ctx.pmap(channel_judge, [jobs[i::24] for i in range(24)])
    deep = 2 if ctx.quick else 3
    stages = [(c, u, about, rate) for k in range(1, deep + 1) for c in itertools.product(ALPHABET, repeat=k)
              for u in itertools.product(range(len(U)), repeat=k + 1)
              for about, rate in ([("", 1), ("about", 64.0)] if k == 1 else [("about", 4.0)] if k == 2 else [("", 1)])]
    ctx.pmap(stage_judge, [stages[i::48] for i in range(48)])
    ctx.bounds = {"stage_cases": len(stages), "filter_lists": len(lists), "unit_chains": len(chains), "channel_cases": len(jobs), "frequencies": FREQS,
                  "filters": {k: v for k, v in ALPHABET.items()}}


def replay(data):
    from mc.core import Part

    p = Part()
    if "links" in data:
        chain_judge(p, tuple(tuple(x) for x in data["links"]))
    elif "stages" in data:
        stage_judge(p, [(tuple(data["stages"]), tuple(data["units"]), data["about"], data["rate"])])
    elif "applied" in data:
        channel_judge(p, [(data["applied"], data["have"])])
    else:
        judge(p, tuple(data["names"]))
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
