"""M16: experiments survive conversion to StationXML and back.

The check builds each experiment from a small description; the expectation is the
description itself (never what the converter produced).
"""
import io
import itertools
import pathlib
import tempfile

import numpy as np

from mc.core import Mismatch
from mc.checks import m12, m13

FREQS = [0.05, 0.7, 3.3]
START = ["2020-01-01T00:00:00+00:00", "2020-01-03T00:00:00+00:00", "2020-01-05T12:00:00+00:00"]
END = ["2020-01-02T00:00:00+00:00", "2020-01-04T06:30:00+00:00", "2020-01-06T00:00:00.250000+00:00"]
RUNS = ["a", "b", "c"]
VOLT, MV, CNT = "Volt", "milliVolt", "digital counts"

# filters of the survey: name -> (kind, parameters, units)
FILTERS = {
    "coil": ("zpk", {"gain": 3.0, "normalization_factor": 2.0, "poles": [[-1.0, 0.0], [-5.0, 2.0], [-5.0, -2.0]], "zeros": [[0.0, 0.0]]}, ("nanoTesla", VOLT)),
    "coil table": ("fap", {"gain": 2.0, "frequencies": [0.01, 1.0, 10.0], "amplitudes": [1.0, 2.0, 0.5], "phases": [0.0, 1.0, -1.0]}, ("nanoTesla", VOLT)),
    "dipole": ("coefficient", {"gain": 0.1}, ("milliVolt per kilometer", VOLT)),
    "amplifier": ("coefficient", {"gain": 10.0}, (VOLT, VOLT)),
    "delay": ("delay", {"gain": 1.0, "delay": -0.25}, (VOLT, VOLT)),
    "digitizer": ("coefficient", {"gain": 4.0e5}, (VOLT, CNT)),
    "fir": ("fir", {"gain": 1.0, "coefficients": [1.0, 0.25, 0.5], "symmetry": "EVEN", "gain_frequency": 2.0,
                    "decimation_input_sample_rate": 64.0, "decimation_factor": 1.0}, (CNT, CNT)),
    "fir4": ("fir", {"gain": 2.0, "coefficients": [1.0, 0.25], "symmetry": "NONE", "gain_frequency": 0.0,
                     "decimation_input_sample_rate": 64.0, "decimation_factor": 4.0}, (CNT, CNT)),
}
CHAINS = {"e": ["dipole", "digitizer"], "h": ["coil", "digitizer"]}


# ways the names of filters are written; applied filters hold the normalized form
STYLES = {None: str, "upper": str.upper, "title": str.title, "slash": lambda n: n.title() + "/X"}


def normal(n, style):
    return STYLES[style](n).replace("/", " per ").lower()


def variant(comp, kind, v):
    """content of one channel: base content, changed in one aspect when v == 'B'"""
    e = comp[0] == "e"
    d = {"rate": 8.0, "azimuth": {"x": 0.0, "y": 90.0, "z": 0.0}[comp[1]], "tilt": 90.0 if comp[1] == "z" else 0.0,
         "lat": 40.5, "lon": -115.25, "elev": 1200.0,
         "sensor": "2284" if not e else ("P1", "N1"), "length": 100.0, "maker": "Acme", "type": "induction coil", "chain": list(CHAINS[comp[0]])}
    if v == "B":
        if kind == "azimuth":
            d["azimuth"] = {"x": 12.5, "y": 103.0, "z": 5.0}[comp[1]]
        elif kind == "tilt":
            d["tilt"] = 80.0 if comp[1] == "z" else 4.0
        elif kind == "location":
            d["lat"], d["lon"] = 40.61, -115.47
        elif kind == "elevation":
            d["elev"] = 1316.5
        elif kind == "sensor":
            d["sensor"] = "9917" if not e else ("P7", "N8")
        elif kind == "maker":
            d["maker"] = "Zenith"
        elif kind == "length":
            d["length"] = 83.5
        elif kind == "rate":
            d["rate"] = 4.0
        elif kind == "band":
            d["rate"] = 256.0
        elif kind.startswith("type "):
            d["type"] = kind[5:]
        elif kind == "filters":
            d["chain"] = d["chain"][:1] + ["amplifier"] + d["chain"][1:]
        elif kind == "filter":
            d["chain"] = (["coil table"] if not e else ["dipole"]) + (["digitizer"] if not e else ["delay", "digitizer"])
        else:
            raise KeyError(kind)
    return d


MODEL = {"hx": "LEMI-120", "hy": "MFS 06e", "hz": "Narod fluxgate 2"}
KINDS = ["azimuth", "tilt", "location", "elevation", "sensor", "maker", "length", "rate", "band", "filters", "filter"]


def build_channel(comp, d, r, style=None):
    from mt_metadata.timeseries import AppliedFilter, Electric, Magnetic

    if comp[0] == "e":
        ch = Electric(component=comp)
        ch.dipole_length = d["length"]
        for n, s in (("positive", 0), ("negative", 1)):
            el = getattr(ch, n)
            el.id, el.manufacturer, el.model, el.type = d["sensor"][s], d["maker"], "EL-3", "electrode"
            el.latitude, el.longitude, el.elevation = d["lat"], d["lon"], d["elev"]
    else:
        ch = Magnetic(component=comp)
        ch.sensor.id, ch.sensor.manufacturer, ch.sensor.model, ch.sensor.type = d["sensor"], d["maker"], MODEL[comp], d["type"]
        ch.location.latitude, ch.location.longitude, ch.location.elevation = d["lat"], d["lon"], d["elev"]
    ch.sample_rate = d["rate"]
    ch.measurement_azimuth, ch.measurement_tilt = d["azimuth"], d["tilt"]
    ch.time_period.start, ch.time_period.end = START[r], END[r]
    ch.units = "digital counts"
    for i, n in enumerate(d["chain"], 1):
        ch.add_filter(AppliedFilter(name=STYLES[style](n), applied=True, stage=i))
    return ch


def build(spec):
    """spec: {surveys: [{id, stations: [{id, lat, lon, elev, runs: [[run index, [(comp, kind, variant)...]]]}]}]}"""
    from mt_metadata.timeseries import Experiment, Run, Station, Survey

    e = Experiment()
    for s in spec["surveys"]:
        sv = Survey(id=s["id"])
        sv.fdsn.network = "ZU"
        used = set()
        for st in s["stations"]:
            x = Station(id=st["id"])
            x.fdsn.id = st["id"]
            x.location.latitude, x.location.longitude, x.location.elevation = st["lat"], st["lon"], st["elev"]
            for r, chans in st["runs"]:
                run = Run(id=st.get("prefix", "") + RUNS[r])
                run.time_period.start, run.time_period.end = START[r], END[r]
                run.data_logger.id, run.data_logger.manufacturer, run.data_logger.model = f"L{r}", "Acme", "ZEN"
                for comp, kind, v in chans:
                    d = variant(comp, kind, v)
                    used |= set(d["chain"])
                    run.add_channel(build_channel(comp, d, r, spec.get("naming")))
                    run.sample_rate = d["rate"]
                x.add_run(run)
            sv.add_station(x)
        for n in sorted(used):
            k, p, u = FILTERS[n]
            n = STYLES[spec.get("naming")](n)
            sv.filters[n] = m12.classes()[k](name=n, units_in=u[0], units_out=u[1], **m12.kw(k, p))
        e.add_survey(sv)
    for level, key, value in spec.get("fields", []):
        target(e, level).update_attribute(key, value)
    if "remark" in spec:
        for c in channels_of(e):
            c.comments.value = spec["remark"]
    return e


def channels_of(e):
    return [c for sv in e.surveys for x in sv.stations for r in x.runs for c in r.channels]


def target(e, level):
    """the object of a field: 'survey', 'station' or 'run N' of the first station"""
    o = e.surveys[0]
    if level == "survey":
        return o
    o = o.stations[0]
    if level == "station":
        return o
    return o.runs[int(level.split(" ")[1])]


def plain(v):
    v = getattr(v, "value", v)
    if isinstance(v, (list, tuple)):
        return [str(i) for i in v]
    return float(v) if isinstance(v, (int, float)) else str(v)


def through(e, text):
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment

    if text in ("path", "name"):
        with tempfile.TemporaryDirectory() as d:
            fn = pathlib.Path(d) / "station one.xml"
            fn = fn if text == "path" else str(fn)
            XMLInventoryMTExperiment().mt_to_xml(e, stationxml_fn=fn)
            return XMLInventoryMTExperiment().xml_to_mt(stationxml_fn=fn)
    inv = XMLInventoryMTExperiment().mt_to_xml(e)
    if text:
        from obspy import read_inventory

        b = io.BytesIO()
        inv.write(b, format="STATIONXML")
        b.seek(0)
        inv = read_inventory(b, format="STATIONXML")
    return XMLInventoryMTExperiment().xml_to_mt(inventory_object=inv)


def same(what, got, want, tol=1e-6):
    if isinstance(want, float):
        if got is None or abs(float(got) - want) > tol:
            raise Mismatch(what, f"{got!r} != {want!r}")
    elif got != want:
        raise Mismatch(what, f"{got!r} != {want!r}")


def compare(spec, q, suffix=True):
    from mt_metadata.common.mttime import MTime

    same("surveys", sorted(s.id for s in q.surveys), sorted(s["id"] for s in spec["surveys"]))
    for level, key, value in spec.get("fields", []):
        same(f"{level.split(' ')[0]} {key}", plain(target(q, level).get_attr_from_name(key)), plain(value))
    if "remark" in spec:
        for c in channels_of(q):  # the runs of a channel are listed after its text
            same("comment of a channel", c.comments.value.split(", run_ids: [")[0], spec["remark"])
    for s in spec["surveys"]:
        sv = q.get_survey(s["id"])
        same("stations of a survey", sorted(x.id for x in sv.stations), sorted(x["id"] for x in s["stations"]))
        for st in s["stations"]:
            x = sv.get_station(st["id"])
            for a, k in (("latitude", "lat"), ("longitude", "lon"), ("elevation", "elev")):
                same(f"station {a}", getattr(x.location, a), float(st[k]))
            names = [st.get("prefix", "") + RUNS[r] for r, _ in st["runs"]]
            same("runs of a station", sorted(r.id for r in x.runs), sorted(names))
            for r, chans in st["runs"]:
                run = x.get_run(st.get("prefix", "") + RUNS[r])
                same("start of a run", run.time_period.start, MTime(time_stamp=START[r]))
                same("end of a run", run.time_period.end, MTime(time_stamp=END[r]))
                same("data logger", (run.data_logger.id, run.data_logger.manufacturer, run.data_logger.model), (f"L{r}", "Acme", "ZEN"))
                same("channels of a run", sorted(c.component for c in run.channels), sorted(c[0] for c in chans))
                if len({variant(*c)["rate"] for c in chans}) == 1:
                    same("sample rate of a run", run.sample_rate, variant(*chans[0])["rate"])
                for c in chans:
                    if "angles" in c[1]:
                        angles(run.get_channel(c[0]), c)
                        continue
                    channel(run.get_channel(c[0]), c[0], variant(*c), r, sv, suffix, spec.get("naming"))


def angles(ch, c):
    """an azimuth is an angle modulo 360 degrees, a tilt is between -90 and 90"""
    d = variant(*c)
    same("sample rate of a channel", ch.sample_rate, d["rate"])
    if ch.measurement_azimuth is None or abs((ch.measurement_azimuth - d["azimuth"] + 180) % 360 - 180) > 1e-6:
        raise Mismatch("azimuth of a channel", f"{ch.measurement_azimuth} is not the direction {d['azimuth']}")
    same("tilt of a channel", ch.measurement_tilt, d["tilt"])


def channel(ch, comp, d, r, sv, suffix, style=None):
    from mt_metadata.common.mttime import MTime

    same("kind of a channel", type(ch).__name__, "Electric" if comp[0] == "e" else "Magnetic")
    same("sample rate of a channel", ch.sample_rate, d["rate"])
    same("azimuth of a channel", ch.measurement_azimuth, d["azimuth"])
    same("tilt of a channel", ch.measurement_tilt, d["tilt"])
    same("start of a channel", ch.time_period.start, MTime(time_stamp=START[r]))
    same("end of a channel", ch.time_period.end, MTime(time_stamp=END[r]))
    same("units of a channel", ch.units, "digital counts")
    if comp[0] == "e":
        same("dipole length", ch.dipole_length, d["length"])
        same("electrodes", (ch.positive.id, ch.negative.id), tuple(d["sensor"]))
        same("electrode maker", (ch.positive.manufacturer, ch.negative.manufacturer), (d["maker"],) * 2)
        same("electrode model", (ch.positive.model, ch.negative.model), ("EL-3",) * 2)
        locs = [ch.positive]
    else:
        same("sensor", (ch.sensor.id, ch.sensor.manufacturer, ch.sensor.type), (d["sensor"], d["maker"], d["type"]))
        same("sensor model", ch.sensor.model, MODEL[ch.component])
        locs = [ch.location]
    for l in locs:
        for a, k in (("latitude", "lat"), ("longitude", "lon"), ("elevation", "elev")):
            same(f"channel {a}", getattr(l, a), d[k])
    applied = sorted(ch.filters, key=lambda f: f.stage)
    want = [normal(n, style) + (f"_{FILTERS[n][1]['decimation_input_sample_rate']}" if suffix and FILTERS[n][1].get("decimation_factor", 1) != 1 else "") for n in d["chain"]]
    same("filters applied to a channel", [f.name for f in applied], want)
    same("filters of the response of a channel", len(ch.channel_response(sv.filters).filters_list), len(d["chain"]))
    for f, n in zip(applied, d["chain"]):
        keys = {x.replace("/", " per ").lower(): x for x in sv.filters.keys()}
        if f.name not in keys:
            raise Mismatch("a filter applied to a channel is not in the survey", f"{f.name} {list(sv.filters.keys())}")
        flt = sv.filters[keys[f.name]]
        k, p, u = FILTERS[n]
        same(f"units of a {k} filter", (flt.units_in, flt.units_out), u)
        # a coefficient may be carried by a pole zero stage; its response is what counts
        for fr, v in zip(FREQS, np.asarray(flt.complex_response(np.array(FREQS)))):
            ref = m12.ref(k, p, fr)
            if abs(v - ref) > 1e-7 * abs(ref):
                raise Mismatch(f"response of a {k} filter", f"{n} at {fr}: {v} != {ref}")


def essence(q):
    """what must not change any more once it went through the format"""
    out = []
    for s in q.surveys:
        for x in s.stations:
            for r in x.runs:
                for c in r.channels:
                    out.append((s.id, x.id, r.id, c.component, str(c.time_period.start), c.sample_rate, c.measurement_azimuth,
                                tuple(f.name.split("_64")[0] for f in c.filters)))
    return sorted(out)


def judge(part, spec, text):
    rep = {"spec": spec, "text": text}
    part.traces += 1
    part.transitions += 2
    try:
        e = build(spec)
        q = through(e, text)
        compare(spec, e, False)  # writing must leave the source as described
    except Mismatch as m:
        part.violation(f"writing changes the experiment: {m.sig}", m.detail, rep)
        return
    except Exception as ex:
        import traceback

        part.violation(f"{type(ex).__name__}: {str(ex)[:80]}", traceback.format_exc(), rep)
        return
    try:
        compare(spec, q)
        part.state((str(spec), text))
        q2 = through(q, text)
        if essence(q2) != essence(q):
            raise Mismatch("a second conversion changes the experiment", f"{essence(q)} {essence(q2)}")
    except Mismatch as m:
        part.violation(f"{'text' if text else 'objects'}: {m.sig}", m.detail, rep)
    except Exception as ex:
        import traceback

        part.violation(f"{type(ex).__name__}: {str(ex)[:80]}", traceback.format_exc(), rep)


def chunk(part, item):
    for spec, text in item:
        judge(part, spec, text)


def station(runs, id="MT01", lat=40.0, lon=-115.0, elev=1000.0):
    return {"id": id, "lat": lat, "lon": lon, "elev": elev, "runs": runs}


def patterns(comps, nruns, kind):
    """every (run, component) is absent, of content A or of content B"""
    cells = [(r, c) for r in range(nruns) for c in comps]
    for vals in itertools.product(("", "A", "B"), repeat=len(cells)):
        runs = [[r, []] for r in range(nruns)]
        for (r, c), v in zip(cells, vals):
            if v:
                runs[r][1].append([c, kind, v])
        yield runs


def specs(quick):
    out = []
    one = lambda st: {"surveys": [{"id": "SV1", "stations": [st]}]}
    for kind in KINDS:
        for comp in ("ex", "hy", "hz"):
            if kind == "length" and comp[0] != "e":
                continue
            n = 3 if (comp != "hz" or not quick) else 2
            for runs in patterns([comp], n, kind):
                out.append((one(station(runs)), True))
    for kind in ("sensor",) if quick else KINDS:
        for runs in patterns(["ex", "hx"], 2 if quick else 3, kind):
            out.append((one(station(runs)), False))
            if not quick:
                out.append((one(station(runs)), True))
    # all sets of components
    for k in range(6):
        for cs in itertools.combinations(["ex", "ey", "hx", "hy", "hz"], k):
            out.append((one(station([[0, [[c, "sensor", "A"] for c in cs]]])), k % 2 == 0))
    # tree shapes and places
    r1 = [[0, [["ex", "sensor", "A"]]]]
    r2 = [[0, [["ex", "sensor", "A"], ["hy", "sensor", "A"]]], [1, [["hy", "sensor", "B"]]]]
    shapes = [[], r1, r2]
    places = [(40.0, -115.0, 1000.0), (-33.25, 151.5, 0.0), (0.0, 0.0, -20.5), (89.5, 179.9, 10.0)]
    for a, b in itertools.product(shapes, repeat=2):
        for i, pl in enumerate(places):
            st = [station(a, "MT01", *pl), station(b, "MT02", *places[(i + 1) % 4])]
            out.append(({"surveys": [{"id": "SV1", "stations": st}]}, True))
            out.append(({"surveys": [{"id": "SV1", "stations": st[:1]}, {"id": "SV2", "stations": st[1:]}]}, True))
    out.append(({"surveys": [{"id": "SV1", "stations": []}]}, True))
    out.append(({"surveys": [{"id": "SV1", "stations": []}, {"id": "SV2", "stations": []}]}, True))
    return out


def chains_specs(quick):
    """every selection of further stages after a coil or dipole"""
    pool = ["amplifier", "delay"]
    tails = ["fir", "fir4"]
    out = []
    for first in ("coil", "coil table", "dipole"):
        for a in [()] + [(x,) for x in pool] + list(itertools.permutations(pool, 2)):
            for t in [()] + [(x,) for x in tails] + list(itertools.permutations(tails, 2)):
                out.append([first, *a, "digitizer", *t])
    return out


TEXTS = ["plain", "two words", "a: b", "a: b, c: d", "x, y", "http://x.y/z", "R\u00fcck & <Sohn>"]
LOGGER = {"firmware.author": ["Ann B", "A, B"], "firmware.name": ["fw", "fw, new"], "firmware.version": ["2.0", "2.0, b"],
          "power_source.comments.value": ["cell"], "power_source.id": ["12"], "power_source.type": ["solar", "solar, car"],
          "power_source.voltage.end": [11.5], "power_source.voltage.start": [12.5], "timing_system.comments.value": ["nice", "x: y", "http://x.y"],
          "timing_system.drift": [0.5, -1e-3], "timing_system.type": ["GPS"], "timing_system.uncertainty": [0.25], "type": ["broad band"]}
FIELDS = {
    "survey": {"geographic_name": TEXTS, "country": [["Peru"], ["Canada", "USA"]], "project": TEXTS, "summary": TEXTS,
               "acquired_by.author": TEXTS, "acquired_by.comments.value": TEXTS, "comments.value": TEXTS,
               "citation_journal.doi": ["https://doi.org/10.1/2"], "citation_dataset.doi": ["https://doi.org/10.17611/DP/MT"],
               "project_lead.author": ["L. M."], "project_lead.organization": ["Org"], "fdsn.network": ["XX"],
               "time_period.start_date": ["1999-01-02"], "time_period.end_date": ["2022-12-31"]},
    "station": {"geographic_name": TEXTS, "orientation.method": ["compass", "GPS", "theodolite"],
                "orientation.reference_frame": ["geographic", "geomagnetic"], "location.declination.value": [-12.3, 0.0, 14.25],
                "location.declination.model": ["IGRF", "WMM"], "location.declination.comments.value": TEXTS,
                "provenance.software.author": TEXTS, "provenance.software.name": TEXTS, "provenance.software.version": ["1.2"],
                "data_type": ["BBMT", "LPMT"], "comments.value": TEXTS, "acquired_by.author": ["A. B."]},
    "run": {"data_type": ["BBMT", "LPMT"], "acquired_by.author": TEXTS, "acquired_by.comments.value": TEXTS,
            "metadata_by.author": TEXTS, "metadata_by.comments.value": TEXTS, "comments.value": TEXTS,
            **{f"data_logger.{k}": v for k, v in LOGGER.items()}},
}
REMARKS = ["noisy", "restarted at 10:20:30", "gain: low, noise: 50 Hz", "wet, then dry", "state: ok", "[sic] 5 < 6 & more",
           "author: me, comments: none"]
AZIMUTHS = [-180.0, -90.0, -10.5, -0.25, 0.0, 0.25, 45.0, 90.0, 179.5, 180.0, 270.0, 359.75, 360.0, 400.0]
TILTS = [-90.0, -45.5, -0.5, 0.0, 0.5, 45.0, 90.0]


def field_specs(quick):
    runs = lambda: [[0, [["ex", "sensor", "A"], ["hy", "sensor", "A"]]], [1, [["hy", "sensor", "A"]]]]
    one = lambda *f: {"surveys": [{"id": "SV1", "stations": [station(runs())]}], "fields": [list(i) for i in f]}
    out, firsts = [], []
    for level, fs in FIELDS.items():
        for lv in {"run": ["run 0", "run 1"]}.get(level, [level]):
            for k, vs in fs.items():
                if lv != "run 1":
                    firsts.append((lv, k, vs[0]))
                for v in vs:
                    if quick and lv == "run 1" and v != vs[-1]:
                        continue
                    out.append((one((lv, k, v)), len(out) % 2 == 0))
    for k, t in enumerate(REMARKS):
        for text in (True, False):
            spec = one()
            spec["remark"] = t
            out.append((spec, text))
    # run names of other forms
    for prefix in ("MT01", "Run_", "0r_0"):
        for lv, k, v in firsts:
            if lv == "run 0":
                spec = one((lv, k, v))
                spec["surveys"][0]["stations"][0]["prefix"] = prefix
                out.append((spec, True))
    # fields of one object must not disturb each other
    for level in FIELDS:
        fs = [f for f in firsts if f[0].split(" ")[0] == level]
        for n in range(2, len(fs) + 1):
            if n == 2 or n >= len(fs) - 1:
                for sub in itertools.combinations(fs, n):
                    if n == 2 and quick and level != "run":
                        continue
                    out.append((one(*sub), True))
    people = {"survey": ("project_lead", ["author", "email", "organization"]), "station": ("acquired_by", ["author", "organization"])}
    for level, (base, parts) in people.items():
        for n in range(1, len(parts)):
            for sub in itertools.combinations(parts, n + 1):
                if "author" in sub:
                    for text in (True, False):
                        out.append((one(*[(level, f"{base}.{p}", "a@b.org" if p == "email" else "L. M.") for p in sub]), text))
    for text in ("path", "name"):
        out.append((one(*firsts[:5]), text))
    return out


def naming_specs(quick):
    out = []
    for style in list(STYLES)[1:]:
        for kind in ("filters", "filter", "sensor"):
            for comps in itertools.combinations(["ex", "hx", "hy"], 2):
                for v in itertools.product("AB", repeat=2):
                    runs = [[0, [[c, kind, i] for c, i in zip(comps, v)]]]
                    for text in (True,) if quick else (True, False):
                        out.append(({"surveys": [{"id": "SV1", "stations": [station(runs)]}], "naming": style}, text))
    return out


def angle_specs(quick):
    out = []
    for t in ("fluxgate", "magnetometer", "coil", "Induction Coil"):
        for runs in patterns(["hy"], 2, f"type {t}"):
            out.append(({"surveys": [{"id": "SV1", "stations": [station(runs)]}]}, True))
    for comp, az, tl in itertools.product(("hx", "ex"), AZIMUTHS, TILTS):
        if quick and comp == "ex" and (az not in AZIMUTHS[::3] or tl not in TILTS[::2]):
            continue
        out.append(({"surveys": [{"id": "SV1", "stations": [station([[0, [[comp, f"angles:{az}:{tl}", "A"]]]])]}]}, len(out) % 4 == 0))
    return out


def foreign(part, item):
    """StationXML without the annotations of this package: every channel epoch must end up in a run"""
    from obspy import UTCDateTime, read_inventory
    from obspy.core.inventory import Channel, Inventory, Network, Site, Station

    from mt_metadata.common.mttime import MTime
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment

    for epochs in item:
        rep = {"epochs": epochs}
        part.traces += 1
        part.transitions += 1
        try:
            st = Station("MT01", 40.0, -115.0, 1000.0, site=Site(name="x"), creation_date=UTCDateTime(START[0]))
            for code, r0, r1, rate in epochs:
                st.channels.append(Channel(code, "", 40.0, -115.0, 1000.0, 0.0, azimuth=10.0, dip=0.0, sample_rate=rate,
                                           start_date=UTCDateTime(START[r0]), end_date=UTCDateTime(END[r1])))
            b = io.BytesIO()
            Inventory([Network("ZU", stations=[st])]).write(b, format="STATIONXML")
            b.seek(0)
            q = XMLInventoryMTExperiment().xml_to_mt(inventory_object=read_inventory(b, format="STATIONXML"))
            got = {(c.component, str(c.time_period.start), str(c.time_period.end), c.sample_rate)
                   for r in q.surveys[0].stations[0].runs for c in r.channels}
            want = {({"LFN": "hx", "LFE": "hy", "LQN": "ex"}[c], str(MTime(time_stamp=START[a])), str(MTime(time_stamp=END[z])), s)
                    for c, a, z, s in epochs}
            if got != want:
                raise Mismatch("channel epochs of a StationXML file", f"{sorted(got)} != {sorted(want)}")
            part.state(str(epochs))
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as ex:
            import traceback

            part.violation(f"foreign StationXML: {type(ex).__name__}: {str(ex)[:80]}", traceback.format_exc(), rep)


# stages that differ in one number only
FILTERS.update({
    "coil b": ("zpk", {**FILTERS["coil"][1], "poles": [[-1.0, 0.0], [-5.0, 2.5], [-5.0, -2.5]]}, ("nanoTesla", VOLT)),
    "attenuator": ("coefficient", {"gain": 0.1}, (VOLT, VOLT)),
    "attenuator b": ("coefficient", {"gain": 0.2}, (VOLT, VOLT)),
    "delay b": ("delay", {"gain": 1.0, "delay": 0.5}, (VOLT, VOLT)),
    "fir b": ("fir", {**FILTERS["fir"][1], "coefficients": [1.0, 0.5, 0.25]}, (CNT, CNT)),
})
POSITIONS = [["coil", "coil b"], ["attenuator", "attenuator b", "attenuator attenuator", ""], ["delay", "delay b", "delay delay", ""], ["digitizer"],
             ["", "fir", "fir b", "fir4"]]


def unnamed_items(quick):
    """two channels whose stages carry no names: all pairs of stages at one position (thorough: at two positions)"""
    base = [p[0] for p in POSITIONS]
    split = {"attenuator attenuator": ["attenuator"] * 2, "delay delay": ["delay"] * 2, "": []}
    flat = lambda c: [n for x in c for n in split.get(x, [x])]
    out = []
    for k in (1, 2):
        for pos in itertools.combinations([i for i in range(len(POSITIONS)) if len(POSITIONS[i]) > 1], k):
            if quick and k == 2 and pos != (0, 2):
                continue
            for a in itertools.product(*[POSITIONS[i] for i in pos]):
                for b in itertools.product(*[POSITIONS[i] for i in pos]):
                    x, y = list(base), list(base)
                    for i, u, v in zip(pos, a, b):
                        x[i], y[i] = u, v
                    out.append((flat(x), flat(y)))
    return out


def unnamed(part, item):
    from obspy import read_inventory

    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment

    for chains in item:
        rep = {"unnamed": chains}
        part.traces += 1
        part.transitions += 1
        try:
            # repeated stages need names of their own while the file is made
            spec = {"surveys": [{"id": "SV1", "stations": [station([[0, [["hx", "chain:" + "/".join(number(chains[0])), "C"],
                                                                         ["hy", "chain:" + "/".join(number(chains[1])), "C"]]]])]}]}
            b = io.BytesIO()
            inv = XMLInventoryMTExperiment().mt_to_xml(build(spec))
            for ch in inv.networks[0].stations[0].channels:
                for stage in ch.response.response_stages:
                    stage.name = None
            inv.write(b, format="STATIONXML")
            b.seek(0)
            q = XMLInventoryMTExperiment().xml_to_mt(inventory_object=read_inventory(b, format="STATIONXML"))
            sv = q.surveys[0]
            for comp, chain in zip(("hx", "hy"), chains):
                ch = sv.stations[0].runs[0].get_channel(comp)
                applied = sorted(ch.filters, key=lambda f: f.stage)
                same("number of unnamed stages", len(applied), len(chain))
                for f, n in zip(applied, chain):
                    k, p, _ = FILTERS[n]
                    for fr, v in zip(FREQS, np.asarray(sv.filters[f.name].complex_response(np.array(FREQS)))):
                        ref = m12.ref(k, p, fr)
                        if abs(v - ref) > 1e-7 * abs(ref):
                            raise Mismatch(f"response of an unnamed {k} stage", f"{comp} {n} named {f.name} at {fr}: {v} != {ref}")
            part.state(str(chains))
        except Mismatch as m:
            part.violation(m.sig, m.detail, rep)
        except Exception as ex:
            import traceback

            part.violation(f"unnamed stages: {type(ex).__name__}: {str(ex)[:80]}", traceback.format_exc(), rep)


def number(chain):
    """a second use of a filter in one chain gets a name of its own"""
    return [n + " again" if n in chain[:i] else n for i, n in enumerate(chain)]


for _n in ("attenuator", "delay"):
    FILTERS[_n + " again"] = FILTERS[_n]


def foreign_items():
    """up to three channel epochs: every code, every interval of the three periods, two rates"""
    cells = [(c, a, z, s) for c in ("LFN", "LQN") for a in range(3) for z in range(a, 3) for s in (1.0, 4.0)]
    out = [[list(x)] for x in cells]
    out += [[list(x), list(y)] for x, y in itertools.product(cells, repeat=2) if x[0] != y[0] or x[2] < y[1]]
    return out


def chain_chunk(part, item):
    """filters of one channel through text"""
    for chain in item:
        comp = "ex" if chain[0] == "dipole" else "hy"
        key = "chain:" + "/".join(chain)
        spec = {"surveys": [{"id": "SV1", "stations": [station([[0, [[comp, key, "C"]]]])]}]}
        judge(part, spec, True)


_variant = variant


def variant(comp, kind, v):  # noqa: F811
    if "angles" in kind:
        d = _variant(comp, "sensor", "A")
        d["azimuth"], d["tilt"] = (float(a) for a in kind.split(":")[1:])
        return d
    if v == "C":
        d = _variant(comp, "sensor", "A")
        d["chain"] = kind.split(":", 1)[1].split("/")
        return d
    return _variant(comp, kind, v)


def known_limits(part, item):
    """inputs that the converter refuses although they are valid experiments"""
    from mt_metadata.timeseries import Auxiliary, Experiment, Run, Station, Survey

    for comp in item:
        part.traces += 1
        try:
            e = Experiment()
            sv, st, run = Survey(id="SV1"), Station(id="MT01"), Run(id="a")
            sv.fdsn.network = "ZU"
            run.add_channel(Auxiliary(component=comp, type="temperature", sample_rate=1.0))
            st.add_run(run)
            sv.add_station(st)
            e.add_survey(sv)
            q = through(e, False)
            got = [c.component for c in q.surveys[0].stations[0].runs[0].channels]
            if got != [comp]:
                raise Mismatch("auxiliary channel", f"{got}")
        except Exception as ex:
            part.violation(f"an experiment with the auxiliary channel {comp!r} does not survive StationXML",
                           f"{type(ex).__name__} {ex}", {"auxiliary": comp})


def run(ctx):
    sp = specs(ctx.quick)
    ctx.pmap(chunk, [sp[i::64] for i in range(64)])
    fs = field_specs(ctx.quick) + angle_specs(ctx.quick) + naming_specs(ctx.quick)
    ctx.pmap(chunk, [fs[i::64] for i in range(64)])
    fo = foreign_items()
    ctx.pmap(foreign, [fo[i::32] for i in range(32)])
    un = unnamed_items(ctx.quick)
    ctx.pmap(unnamed, [un[i::32] for i in range(32)])
    ch = chains_specs(ctx.quick)
    ctx.pmap(chain_chunk, [ch[i::16] for i in range(16)])
    ctx.pmap(known_limits, [["temperature"]])
    ctx.bounds = {"experiments": len(sp), "single and combined fields, angles": len(fs), "files without annotations": len(fo),
                  "pairs of channels with unnamed stages": len(un), "filter_chains": len(ch), "differences": KINDS, "runs": RUNS,
                  "rule": "every (run, component) cell absent, with content A or content B"}
    ctx.assumptions = ["station ids are upper case (documented), channels span their run, both electrodes have one maker, model and place",
                       "components are ex, ey, hx, hy, hz; every filter is marked as applied; names of decimating filters get their rate appended",
                       "StationXML has no place for comments of channels in general: comments are not compared"]
    ctx.sample(sp[-5])


def replay(data):
    from mc.core import Part

    p = Part()
    if "unnamed" in data:
        unnamed(p, [data["unnamed"]])
    elif "epochs" in data:
        foreign(p, [data["epochs"]])
    elif "auxiliary" in data:
        known_limits(p, [data["auxiliary"]])
    else:
        judge(p, data["spec"], data["text"])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
