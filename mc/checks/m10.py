"""Experiment trees through every format."""
import itertools
import json
import tempfile
from pathlib import Path

from mc.core import Mismatch

FORMATS = ["dict", "dict_nested", "dict_all", "json", "json_nested", "json_file", "json_file_str", "xml", "xml_file", "xml_nosort"]
KINDS = ["zpk", "zpk1", "coefficient", "delay", "fap", "fir", "zpk0"]
T = [f"2020-0{m}-1{d}T0{d}:00:00+00:00" for m in range(1, 5) for d in range(0, 5)]


def mkfilter(kind, name):
    import numpy as np
    import mt_metadata.timeseries.filters as F

    u = dict(name=name, units_in="volt", units_out="count", comments=f"about {name}")
    if kind == "zpk":
        return F.PoleZeroFilter(poles=np.array([-1.5 + 2.25j, -1.5 - 2.25j]), zeros=np.array([0.0]), normalization_factor=1984.31, gain=2.0, **u)
    if kind == "zpk1":
        return F.PoleZeroFilter(poles=np.array([-12.566371 + 0j]), zeros=np.array([0, 3e-5j]), gain=0.5, **u)
    if kind == "zpk0":
        return F.PoleZeroFilter(poles=np.array([0j, 1e-12 - 4e7j]), gain=-1.0, calibration_date="2020-02-29", **u)
    if kind == "coefficient":
        return F.CoefficientFilter(gain=1e-3, **u)
    if kind == "delay":
        return F.TimeDelayFilter(delay=-0.201, **u)
    if kind == "fap":
        return F.FrequencyResponseTableFilter(frequencies=[0.01, 0.1, 1.0], amplitudes=[0.5, 1.0, 0.0], phases=[0.0, 0.5, -0.25],
                                              gain=3.0, instrument_type="coil", **u)
    return F.FIRFilter(coefficients=[0.25, 0.0, -0.25], decimation_factor=2, decimation_input_sample_rate=8.0, gain=1.5,
                       symmetry="ODD", gain_frequency=0.5, **u)


def mkchannel(comp, filters, seq, pos=None):
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic

    cls = Electric if comp[0] == "e" else Magnetic if comp[0] in "hb" else Auxiliary
    c = cls(component=comp)
    c.sample_rate = 4.0 + seq
    c.measurement_azimuth = 12.5 * seq
    c.channel_number = seq
    c.time_period.start, c.time_period.end = T[seq % 5], T[10 + seq % 5]
    c.units = {"e": "mV/km", "h": "nT", "b": "nT"}.get(comp[0], "celsius")
    if comp[0] == "e":
        c.dipole_length = 55.25 + seq
        c.positive.latitude, c.negative.longitude = 10.5 + seq, -7.25
        c.positive.id = "77"
    else:
        c.location.latitude = 20.5 - seq
        c.sensor.id = f"sn{seq}"
    if pos is not None:
        place = c.positive if comp[0] == "e" else c.location
        # every pattern of zero and non-zero coordinates but all zero: the equator and the prime meridian are places
        place.latitude, place.longitude, place.elevation = (v if pos >> b & 1 else 0.0 for b, v in enumerate((-12.5, 77.25, 310.5)))
    c.comments = f"channel <{comp}> & more"
    for i, f in enumerate(filters):
        c.add_filter(name=f, applied=bool(i % 2))
    return c


def named(spec, k):
    """names of filters in lower case or as users write them"""
    return {None: f"f {k}", "title": f"Filter {k.upper()}", "slash": f"F/{k}", "under": f"F_{k}-2312"}[spec.get("naming")]


def tree(spec):
    """spec: [[station run-shapes], ...] see shapes(); returns the experiment"""
    from mt_metadata.timeseries import Experiment, Run, Station, Survey

    e, seq = Experiment(), 0
    for si, sv in enumerate(spec["surveys"]):
        s = Survey(id=f"survey_{si}")
        s.project, s.name, s.country, s.summary = "proj é", f"name {si}", ["USA", "Canada"], "some <text>"
        s.fdsn.network = "ZU"
        for k in sv["filters"]:
            n = named(spec, k)
            s.filters[n] = mkfilter(k, n)
        for ti, st in enumerate(sv["stations"]):
            t = Station(id=f"mt{si}{ti}")
            t.location.latitude, t.location.longitude, t.location.elevation = 40.125 - ti, -115.5 + 3 * si, 1200.5
            t.geographic_name = "Whitehorse, YK"
            t.acquired_by.author = "A & B"
            for ri, comps in enumerate(st):
                r = Run(id=f"{t.id}{'ab'[ri]}")
                r.sample_rate = 1.0 + ri
                r.data_logger.id = "ZEN01"
                r.comments = "run comment"
                for c in comps:
                    seq += 1
                    names = [named(spec, k) for k in sv["filters"]][: spec.get("applied", 2)]
                    r.add_channel(mkchannel(c, names, seq, spec.get("pos")))
                if not comps:
                    r.time_period.start, r.time_period.end = T[1], T[12]
                t.add_run(r)
            s.add_station(t)
        e.add_survey(s)
    return e


SKIP = ("survey.northwest", "x")
# what an XML file is documented to refresh or fill while it is written
FILLED = ("location.latitude", "location.longitude", "location.elevation", "positive.latitude", "positive.longitude", "positive.elevation")


def plain(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, complex):
        return repr(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return "" if v is None else v
    return str(v)


def facts(o):
    """every set field of a metadata object as plain data, without trusting __eq__"""
    out = {}
    for k, v in o.to_dict(single=True, required=False).items():
        p = plain(v)
        if p in ("", [], {}):
            continue
        out[k] = p
    return out


def response(c, filters):
    try:
        names = c.channel_response(filters).names
    except ValueError:
        return "units do not chain"
    if len(names) != len(c.filters):
        raise Mismatch("a filter of a channel is not found in its survey", f"{[f.name for f in c.filters]} {names}")
    return names


def snapshot(e):
    t = {}
    for s in e.surveys:
        node = t[("survey", s.id)] = {"meta": facts(s), "filters": {}, "stations": {}}
        for k, f in s.filters.items():
            node["filters"][f.name] = (type(f).__name__, facts(f))
            if k.lower() != f.name.lower():
                raise Mismatch("a filter is kept under another name", f"{k} {f.name}")
        for st in s.stations:
            sn = node["stations"][st.id] = {"meta": facts(st), "runs": {}}
            for r in st.runs:
                rn = sn["runs"][r.id] = {"meta": facts(r), "channels": {}}
                for c in r.channels:
                    rn["channels"][c.component] = (type(c).__name__, facts(c))
                    if c.filters and s.filters.keys():  # each is found in the survey
                        rn["channels"][c.component] += (response(c, s.filters),)
    return t


def diff(a, b, path=""):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {a!r} -> {b!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            miss, extra = sorted(map(str, set(a) - set(b))), sorted(map(str, set(b) - set(a)))
            return f"{path}: missing {miss} extra {extra}"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {a!r} -> {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} -> {b!r}"


def cross(fmt, e, tmp):
    from mt_metadata.timeseries import Experiment

    q = Experiment()
    if fmt == "dict":
        d = e.to_dict()
        keep = json.dumps(plain(d), default=str)
        q.from_dict(d)
        if json.dumps(plain(d), default=str) != keep:
            raise Mismatch("reading a dictionary changes it", "")
    elif fmt == "dict_nested":
        q.from_dict(e.to_dict(nested=True))
    elif fmt == "dict_all":
        q.from_dict(e.to_dict(required=False))
    elif fmt == "json":
        q.from_json(e.to_json())
    elif fmt == "json_nested":
        q.from_json(e.to_json(nested=True))
    elif fmt.startswith("json_file"):
        p = Path(tmp) / "e.json"
        e.to_json(p)
        q.from_json(str(p) if fmt.endswith("str") else p)
    elif fmt == "xml":
        el = e.to_xml()
        from mt_metadata.base.helpers import element_to_string

        before = element_to_string(el)
        q.from_xml(element=el)
        if element_to_string(el) != before:
            raise Mismatch("reading XML changes the element", "")
    elif fmt == "xml_file":
        p = Path(tmp) / "e.xml"
        e.to_xml(str(p))
        q.from_xml(str(p))
    elif fmt == "xml_nosort":
        q.from_xml(element=e.to_xml(sort=False), sort=False)
    return q


def sig_of(d):
    """drop names of particular surveys/stations so that one cause is one signature"""
    import re

    d = re.sub(r"survey_\d", "survey", d)
    d = re.sub(r"mt\d\d[ab]?", "id", d)
    return re.sub(r"(-?\d+\.?\d*(e-?\d+)?)", "#", d.split(" -> ")[0])[:160]


def judge(part, spec, fmt, tmp):
    e = tree(spec)
    before = snapshot(e)
    rep = {"spec": spec, "format": fmt}
    part.evaluations += 1
    part.traces += 1
    part.transitions += 2
    try:
        q = cross(fmt, e, tmp)
        d = diff(before, snapshot(e))
        if d:
            raise Mismatch(f"{fmt}: writing changes the experiment at {sig_of(d)}", d)
        got = snapshot(q)
        d = diff(before, got)
        if d:
            raise Mismatch(f"{fmt}: tree differs at {sig_of(d)}", d)
        if not fmt.startswith("xml") and [s.id for s in q.surveys] != [s.id for s in e.surveys]:
            raise Mismatch(f"{fmt}: order of surveys", "")
        q2 = cross(fmt, q, tmp)
        d = diff(got, snapshot(q2))
        if d:
            raise Mismatch(f"{fmt}: second round trip differs at {sig_of(d)}", d)
        part.state((fmt, json.dumps(plain({str(k): v for k, v in got.items()}), default=str, sort_keys=True)))
    except Mismatch as m:
        part.violation(m.sig, m.detail, rep)
    except Exception as ex:
        import traceback

        part.violation(f"{fmt}: {type(ex).__name__}: {str(ex)[:80]}", traceback.format_exc(), rep)


def chunk(part, item):
    with tempfile.TemporaryDirectory(prefix="m10_") as tmp:
        for spec, fmt in item:
            judge(part, spec, fmt, tmp)


def run_shapes():
    return [[], ["ex"], ["hx"], ["temperature"], ["ex", "hy"], ["hx", "hy"]]


def specs(quick):
    runs = run_shapes()
    stations = [[]] + [[r] for r in runs] + [[a, b] for a in runs for b in runs]
    if quick:
        stations = [[]] + [[r] for r in runs] + [[a, b] for a in runs[:5] for b in runs[1:5]]
    none = {"stations": [], "filters": []}
    places = [{"surveys": [{"stations": [[[c] for c in cs]], "filters": []}], "pos": p}
              for p in range(1, 8) for cs in ((("ex", "hx"), ("ey", "temperature")) if not quick else (("ex", "hx"),))]
    out = [{"surveys": []}, {"surveys": [none]}, {"surveys": [none, none]}]
    for st in stations:
        out.append({"surveys": [{"stations": [st], "filters": []}]})
    few = [[], [[]], [["ex"]], [["ex", "hy"], ["temperature"]]]
    if quick:
        few = few[::3] + few[1:2]
    for a, b in itertools.product(few, few):
        out.append({"surveys": [{"stations": [a, b], "filters": ["coefficient"]}]})
        out.append({"surveys": [{"stations": [a], "filters": []}, {"stations": [b], "filters": ["delay"]}]})
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for ks in itertools.combinations(KINDS, n):
            if quick and n == 3 and ks[0] != "zpk":
                continue
            for ap in ((0, 1, 2) if n < 2 or not quick else (2,)) if n < 3 else (3,):
                out.append({"surveys": [{"stations": [[["ex"]]], "filters": list(ks)}], "applied": ap})
    out += places
    for style in ("title", "slash", "under"):
        for n in (1, 2) if quick else (1, 2, 3):
            for ks in itertools.combinations(KINDS, n):
                if n == 2 and quick and ks[0] != "zpk":
                    continue
                out.append({"surveys": [{"stations": [[["ex"]]], "filters": list(ks)}], "naming": style})
    if not quick:
        for a, b, c in itertools.product(few, few, few):
            out.append({"surveys": [{"stations": [a, b], "filters": ["fir"]}, {"stations": [c, a], "filters": ["zpk1", "fap"]}]})
    return out


def run(ctx):
    sp = specs(ctx.quick)
    jobs = [(s, f) for s in sp for f in FORMATS]
    ctx.bounds = {"trees": len(sp), "formats": FORMATS, "filter_kinds": KINDS, "run_shapes": run_shapes(),
                  "rule": "every tree through every format, then once more"}
    ctx.assumptions = ["sorting and refreshing time spans and bounding boxes while writing XML is documented behaviour; "
                       "the trees explored are already in that state"]
    n = 12
    ctx.pmap(chunk, [jobs[i::len(jobs) // n] for i in range(len(jobs) // n)])
    ctx.sample({"tree": sp[-1], "format": "xml"})


def replay(data):
    from mc.core import Part

    p = Part()
    with tempfile.TemporaryDirectory(prefix="m10_") as tmp:
        judge(p, data["spec"], data["format"], tmp)
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
