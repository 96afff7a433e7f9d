"""A folder of metadata XML files assembled into an experiment, against the description of its files."""
import itertools
import tempfile
from pathlib import Path
from xml.etree import ElementTree as ET

from mc.core import outcome

ORDER = ["hx", "hy", "hz", "ex", "ey"]
ELECTRIC = ("ex", "ey")
SUBSETS = [("hx",), ("ex",), ("ey", "hz"), ("ex", "ey"), ("hy", "hx"), ("hx", "hy", "ex", "ey"), tuple(ORDER), ()]
FILTERS = ["zpk", "coefficient", "time delay", "fir"]
SPAN = [("2020-01-01T00:00:00+00:00", "2020-01-02T00:00:00+00:00"), ("2020-02-01T12:00:00+00:00", "2020-02-03T00:00:01+00:00"),
        ("2019-12-31T00:00:00+00:00", "2020-01-01T00:00:00+00:00")]
PLACE = [(40.5, -110.25, 1234.0), (-33.0, 151.5, 0.0), (0.0, 0.0, 0.0)]
# places of its own: also on the equator, on the zero meridian, and with a height only
OWN = [(41.0, -111.0, 99.0), (0.0, 12.5, 0.0), (0.0, 0.0, 77.0), (-12.5, 0.0, 0.0)]
F = [0.01, 0.3, 2.0]


def make_filters(kinds):
    from mt_metadata.timeseries.filters import CoefficientFilter, FIRFilter, PoleZeroFilter, TimeDelayFilter

    out = {}
    unit = "count" if "coefficient" in kinds else "V"
    for k in kinds:
        if k == "zpk":
            f = PoleZeroFilter(name="lowpass", units_in="V", units_out="V", gain=2.0, normalization_factor=3.0)
            f.poles = [-1.0 + 2j, -1.0 - 2j]
            f.zeros = [0.5 + 0j]
        elif k == "coefficient":
            f = CoefficientFilter(name="counts", units_in="V", units_out="count", gain=409600.0)
        elif k == "time delay":
            f = TimeDelayFilter(name="offset", units_in=unit, units_out=unit, delay=-0.25)
        else:
            f = FIRFilter(name="taps", units_in=unit, units_out=unit, gain=1.0, decimation_input_sample_rate=8.0)
            f.coefficients = [0.25, 0.5, 0.25]
        out[f.name] = f
    return out


def describe(case):
    """[(station id, place, [(run id, span, rate, [(component, dipole, own place, filters)])])]"""
    out = []
    for i, (sid, runs) in enumerate(case["stations"]):
        rs = []
        for j, (rid, comps) in enumerate(runs):
            k = (i + 2 * j + case["k"]) % 3
            chs = []
            for n, c in enumerate(comps):
                names = list(make_filters(case["filters"]))
                if c in ELECTRIC and case["dipole"]:
                    names = ["dipole_100", *names]
                chs.append((c, 90.0 + 10 * n + i, OWN[(i + j + n // 2) % 4] if (n + j + case["k"]) % 2 == 1 else None, names))
            rs.append((rid, SPAN[k], [8.0, 0.25, 1.0][k], chs))
        out.append((sid, PLACE[(i + case["k"]) % len(PLACE)], rs))
    return out


def write(d, case, world):
    from mt_metadata.timeseries import Electric, Magnetic, Run, Station, Survey

    def put(name, text):
        p = d / (Path(*name.split(".")[:-1][:2]) if case["nested"] and name.count(".") > 1 else Path("."))
        p.mkdir(parents=True, exist_ok=True)
        (p / name).write_text(text, encoding="utf-8")

    s = Survey(id="sv", project="proj", geographic_name="Somewhere")
    s.fdsn.network = "ZU"
    put(("_survey" if case["under"] else "survey") + ".xml", s.to_xml(string=True))
    root = ET.Element("filters")
    for f in make_filters(case["filters"]).values():
        e = ET.fromstring(f.to_xml(string=True))
        e.tag = "filter"
        root.append(e)
    put(("_filters" if case["under"] else "filters") + ".xml", ET.tostring(root, encoding="unicode"))
    for sid, place, runs in world:
        st = Station(id=sid, geographic_name=f"near {sid}")
        st.location.latitude, st.location.longitude, st.location.elevation = place
        for rid, span, rate, chs in runs:
            r = Run(id=rid, sample_rate=rate)
            r.time_period.start, r.time_period.end = span
            r.data_logger.id = f"log{rid}"
            for c, length, own, names in chs:
                ch = Electric(component=c, dipole_length=length) if c in ELECTRIC else Magnetic(component=c)
                ch.sample_rate = rate
                ch.measurement_azimuth = 1.5 + length
                ch.time_period.start, ch.time_period.end = span
                where = ch.positive if c in ELECTRIC else ch.location
                if own:
                    where.latitude, where.longitude, where.elevation = own
                for n, name in enumerate(names, 1):
                    ch.add_filter(name=name, applied=(n + case["k"]) % 2 == 1, stage=n)
                if case["listed"]:
                    r.add_channel(ch)
                put(f"{sid}.{rid}.{ch.type}.{c}.xml", ch.to_xml(string=True))
            if case["listed"]:
                st.add_run(r)
            put(f"{sid}.{rid}.xml", r.to_xml(string=True))
        put(f"{sid}.xml", st.to_xml(string=True))


def job(part, item):
    import numpy as np

    from mt_metadata.timeseries.tools import MT2StationXML

    for case in item:
        part.state(repr(case))
        part.traces += 1
        world = describe(case)

        def bad(kind, detail):
            part.violation(kind, f"{case}: {detail}", case)

        with tempfile.TemporaryDirectory() as tmp:
            d = Path(tmp)
            write(d, case, world)
            before = {p: p.read_bytes() for p in d.rglob("*.xml")}
            r = outcome(MT2StationXML, d)
            if r[0] != "ok":
                bad("folder is not taken", r)
                continue
            tool = r[1]
            if sorted(tool.stations) != sorted(s for s, _, _ in world):
                bad("stations of the folder", tool.stations)
            ids = [s for s, _, _ in world]
            for pick in [None, ids[-1], ids[:1], list(reversed(ids))]:
                part.transitions += 1
                r = outcome(tool.make_experiment, stations=pick)
                if r[0] != "ok":
                    bad("make_experiment fails", f"stations {pick}: {r}")
                    break
                chosen = ids if pick is None else [pick] if isinstance(pick, str) else pick
                for kind, detail in compare(r[1], [w for w in world if w[0] in chosen], chosen if pick else None, case, np):
                    bad(kind, f"stations {pick}: {detail}")
            # a single channel with its response
            for sid, place, runs in world[:1]:
                for rid, span, rate, chs in runs[:1]:
                    for c, length, own, names in chs:
                        part.transitions += 1
                        typ = "electric" if c in ELECTRIC else "magnetic"
                        fn = next(d.rglob(f"{sid}.{rid}.{typ}.{c}.xml"))
                        r = outcome(tool.get_mt_channel, fn, tool.filters)
                        if r[0] != "ok":
                            bad("get_mt_channel fails", f"{fn.name}: {r}")
                            continue
                        ch, resp = r[1]
                        want = np.ones(len(F), dtype=complex)
                        fs = make_filters(case["filters"])
                        for n in names:
                            want = want * (length if "dipole" in n else fs[n].complex_response(np.array(F)))
                        got = resp.complex_response(np.array(F), filters_list=resp.filters_list) if names else want
                        if ch.component != c or len(resp.filters_list) != len(names) or not np.allclose(got, want):
                            bad("response of a channel", f"{fn.name}: {ch.component} {got} expected {want}")
            if {p: p.read_bytes() for p in d.rglob("*.xml")} != before:
                bad("files changed", "")


def compare(ex, world, order, case, np):
    if len(ex.surveys) != 1:
        yield "surveys", len(ex.surveys)
        return
    sv = ex.surveys[0]
    if (sv.id, sv.project, sv.geographic_name, sv.fdsn.network) != ("sv", "proj", "Somewhere", "ZU"):
        yield "survey", (sv.id, sv.project, sv.geographic_name, sv.fdsn.network)
    ids = [s.id for s in sv.stations]
    if ids != order if order else sorted(ids) != sorted(w[0] for w in world):
        yield "stations", ids
        return
    want_f = make_filters(case["filters"])
    dipoles = {}
    for sid, place, runs in world:
        st = next(s for s in sv.stations if s.id == sid)
        if (st.location.latitude, st.location.longitude, st.location.elevation) != place or st.geographic_name != f"near {sid}":
            yield "station", f"{sid} {st.location.latitude} {st.location.longitude}"
        if [r.id for r in st.runs] != sorted(r[0] for r in runs):
            yield "runs of a station", f"{sid}: {[r.id for r in st.runs]}"
            continue
        if runs:
            span = min(r[1][0] for r in runs), max(r[1][1] for r in runs)
            if (str(st.time_period.start), str(st.time_period.end)) != span:
                yield "time of a station", f"{sid}: {st.time_period} expected {span}"
        for rid, span, rate, chs in runs:
            r = next(x for x in st.runs if x.id == rid)
            if r.sample_rate != rate or r.data_logger.id != f"log{rid}" or (str(r.time_period.start), str(r.time_period.end)) != span:
                yield "run", f"{sid} {rid}: {r.sample_rate} {r.data_logger.id} {r.time_period}"
            have = [c.component for c in r.channels]
            if sorted(have) != sorted(c[0] for c in chs):
                yield "channels of a run", f"{sid} {rid}: {have}"
                continue
            for c, length, own, names in chs:
                ch = r.get_channel(c)
                where = ch.positive if c in ELECTRIC else ch.location
                at = (where.latitude, where.longitude, where.elevation)
                if at != (own or place):
                    yield "place of a channel", f"{sid} {rid} {c}: {at}"
                if ch.measurement_azimuth != 1.5 + length or ch.sample_rate != rate or (
                    str(ch.time_period.start), str(ch.time_period.end)
                ) != span:
                    yield "channel", f"{sid} {rid} {c}: {ch.measurement_azimuth} {ch.sample_rate} {ch.time_period}"
                if c in ELECTRIC and ch.dipole_length != length:
                    yield "dipole length", f"{sid} {rid} {c}: {ch.dipole_length}"
                dip = f"electric_dipole_{length:.3f}"
                want = [(dip if "dipole" in n else n, (i + case["k"]) % 2 == 1, i) for i, n in enumerate(names, 1)]
                got = [(f.name, f.applied, f.stage) for f in ch.filters]
                if got != want:
                    yield "filters of a channel", f"{sid} {rid} {c}: {got} expected {want}"
                if any("dipole" in n for n in names):
                    dipoles[dip] = length
    if sorted(sv.filters.keys()) != sorted([*want_f, *dipoles]):
        yield "filters of the survey", f"{sorted(sv.filters.keys())} expected {sorted([*want_f, *dipoles])}"
        return
    for n, f in want_f.items():
        g = sv.filters[n]
        if g.type != f.type or g.units_in != f.units_in or g.units_out != f.units_out or not np.allclose(
            g.complex_response(np.array(F)), f.complex_response(np.array(F))
        ):
            yield "filter", f"{n}: {g.type} {g.units_in} {g.units_out} {g.complex_response(np.array(F))}"
    for n, length in dipoles.items():
        g = sv.filters[n]
        if not np.allclose(g.complex_response(np.array(F)), length) or (str(g.units_in), str(g.units_out)) != ("Volt per meter", "Volt"):
            yield "dipole filter", f"{n}: {g.complex_response(np.array(F))} {g.units_in} {g.units_out}"


def cases(q):
    base = {"filters": FILTERS, "dipole": True, "nested": False, "under": False, "listed": True, "k": 0}

    def case(stations, **kw):
        return {**base, "stations": [[s, [[r, list(c)] for r, c in runs]] for s, runs in stations], **kw}

    k = 0
    for n in range(len(FILTERS) + 1):
        for fs in itertools.combinations(FILTERS, n):
            for dip, listed, under, nested in itertools.product((True, False), repeat=4):
                k += 1
                if q and k % 2:
                    continue
                yield case([("300", [("001", ORDER)])], filters=list(fs), dipole=dip, listed=listed, under=under,
                           nested=nested, k=k % 3)
    for a, b in itertools.product(SUBSETS, repeat=2):
        for ids in (("001", "002"), ("b", "a")):
            k += 1
            yield case([("300", [(ids[0], a), (ids[1], b)])], k=k % 3, filters=FILTERS[: k % 4], nested=k % 2 == 0)
    for a, b in itertools.product(SUBSETS, repeat=2):
        for names in (("300", "MT02"), ("b1", "a1"), ("30", "300")):
            k += 1
            yield case([(names[0], [("001", a)]), (names[1], [("001", b), ("002", a)])], k=k % 3, filters=FILTERS[: k % 4],
                       listed=k % 2 == 0)
    # identifiers that look like channels
    for a, b in itertools.product(SUBSETS, repeat=2):
        for names, runs in ((("texas1", "Hx05"), ("001", "002")), (("texas1", "Hx05"), ("texas1a", "hz2")), (("300", "eyak"), ("hy", "ex"))):
            k += 1
            yield case([(names[0], [(runs[0], a)]), (names[1], [(runs[0], b), (runs[1], a)])], k=k % 3, filters=FILTERS[: k % 4])
    if not q:
        for a, b, c in itertools.product(SUBSETS, repeat=3):
            k += 1
            yield case([("300", [("001", a), ("002", b)]), ("301", [("001", c)]), ("299", [])], k=k % 3, filters=FILTERS[: k % 5])
    yield case([("300", [])])


def run(ctx):
    items = list(cases(ctx.quick))
    ctx.pmap(job, [items[i : i + 8] for i in range(0, len(items), 8)])
    ctx.bounds = {"stations": 2 if ctx.quick else 3, "runs": 2, "channel sets": len(SUBSETS), "filter kinds": 4, "folders": len(items)}
    ctx.assumptions = ["file names are station.run.type.component.xml, with identifiers free of dots"]


def replay(data):
    from mc.core import Part

    p = Part()
    job(p, [data])
    return p
