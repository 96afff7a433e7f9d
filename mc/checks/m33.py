"""EDI files: survey, station and channel metadata of a TF written, read, written and read again."""
import itertools
import tempfile
from pathlib import Path

from mc.checks import m32
from mc.checks.m32 import ALL, ELE, MAG, build, default, plain, see
from mc.core import outcome

# what the file has no room for, or holds in another way
NOT = {
    "station.fdsn.id", "station.orientation.angle_to_geographic_north", "station.transfer_function.runs_processed",
    "station.transfer_function.processed_date",
}
# no angle brackets, which the information section does not take
FIELDS = {f: [x for x in v if not ("<" in str(x))] for f, v in m32.FIELDS.items() if f not in NOT}
FIELDS["station.location.declination.value"] = [-11.5, 13.125]
MAGF = {
    "sensor.id": ["2311-11", "s0"], "sensor.manufacturer": ["Metronix", "B & C"],
    "location.x": [1.5, -20.0], "location.y": [-2.5, 7.25], "azimuth": [3.0, 347.5, -10.25],
}
ELEF = {
    "dipole_length": [100.0, 87.25], "positive.id": ["40201038", "p"], "negative.id": ["40201037", "n"],
    "positive.x2": [50.0, 0.5], "positive.y2": [1.0, 60.25], "negative.x": [-50.0, 0.5], "negative.y": [-1.0, 2.5],
    "manufacturer": ["MP", "O & U"],
}
KEEP = set(FIELDS) | {"station.id"}


def looked_at(o, deep):
    keep = {}
    for k, v in o.items():
        w = k.split()
        if k in KEEP:
            keep[k] = v
        elif len(w) == 2 and w[1] in ("time", "channels"):
            keep[k] = v
        elif len(w) == 3 and w[2] in (MAGF if w[1] in MAG else ELEF):
            keep[k] = v
    return keep


def job(part, item):
    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            part.transitions += 4

            def bad(kind, detail):
                part.violation(kind, f"{case}: {detail}", case)

            tf = build(case)
            want = looked_at(see(tf), case["deep"])
            # a place named for the station names the one of the survey, when that has none
            default(want, "survey.geographic_name", want["station.geographic_name"])
            if want["station.location.declination.value"] is None:
                want["station.location.declination.epoch"] = None
            last = want
            for n in (1, 2):
                fn = Path(d) / f"m{n}.edi"
                kw = {"latlon_format": case["latlon"]} if "latlon" in case else {}
                r = outcome(tf.write, fn, **kw)
                if r[0] != "ok":
                    bad("write fails", f"cycle {n}: {r}")
                    break
                tf = TF(fn)
                r = outcome(tf.read)
                if r[0] != "ok":
                    bad("read fails", f"cycle {n}: {r}")
                    break
                got = looked_at(see(tf), case["deep"])
                wrong = {}
                for k in {**last, **got}:
                    a, b = last.get(k), got.get(k)
                    if isinstance(a, float) and isinstance(b, float) and k.endswith("itude"):
                        if abs(a - b) > 2e-6:
                            wrong[k] = a, b
                    elif a != b:
                        wrong[k] = a, b
                for k, (a, b) in sorted(wrong.items())[:3]:
                    name = " ".join(k.split()[-2:]) if " " in k else k
                    bad(f"changed: {name}", f"cycle {n}: {k} {a!r} -> {b!r}")
                if wrong:
                    break
                last = got


def cases(q):
    full = [("mt01a", ALL)]

    def case(fields=(), deep=(), runs=full, **kw):
        return {"fields": [list(f) for f in fields], "deep": [list(x) for x in deep],
                "runs": [[a, list(b)] for a, b in runs], **kw}

    yield case()
    for s in m32.SHAPES:
        for tipper in (True, False):
            yield case(runs=[("mt01a", s)], tipper=tipper)
    for k in (0, 1):
        for lf in ("dms", "dd"):
            yield case([(f, v[k % len(v)]) for f, v in FIELDS.items()], latlon=lf)
    each = [[(f, x) for x in v] for f, v in FIELDS.items()]
    for vs in each:
        for x in vs:
            yield case([x])
            yield case([x], runs=[("mt01a", ("hx", "hy", "ex"))])
    for a, b in itertools.combinations(each, 2):
        for x, y in [(a[0], b[-1])] if q else itertools.product(a, b):
            yield case([x, y])
    deep = [[("mt01a", "time_period", x) for x in m32.RUNF["time_period"]]]
    for c in ALL:
        for f, v in (MAGF if c in MAG else ELEF).items():
            deep.append([(f"mt01a {c}", f, x) for x in v])
    for vs in deep:
        for x in vs:
            yield case(deep=[x])
    for k in (0, 1):
        yield case(deep=[v[k % len(v)] for v in deep])
        yield case([(f, v[k % len(v)]) for f, v in FIELDS.items()], [v[k % len(v)] for v in deep])
    for a, b in itertools.combinations(deep, 2):
        for x, y in [(a[0], b[-1])] if q else itertools.product(a, b):
            yield case(deep=[x, y])


# processing parameters: names with dots, values with signs of all kinds, none at all
PARAMS = ["nfft=256", "ndec=4", "a.b.c=2", "remote_info.site.id=rr02", "w=x=y", "d=1.5,2.5", "flag", "tbw: 2", "name=two words",
          "n=-3", "u=µV/m", "path=/a/b", "p.q=r.s"]


def params(part, item):
    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            tf = build({"runs": [("mt01a", ALL)], "deep": [],
                        "fields": [("station.transfer_function.processing_parameters", list(case))]})
            for n in (1, 2):
                part.transitions += 2
                fn = Path(d) / f"p{n}.edi"
                r = outcome(tf.write, fn)
                if r[0] != "ok":
                    part.violation("write fails (parameters)", f"{case} cycle {n}: {r}", {"params": list(case)})
                    break
                tf = TF(fn)
                r = outcome(tf.read)
                got = tf.station_metadata.transfer_function.processing_parameters if r[0] == "ok" else r
                if r[0] != "ok" or sorted(got) != sorted(case):
                    part.violation("processing parameters", f"{case} cycle {n}: {got}", {"params": list(case)})
                    break


def remote_sensor(part, item):
    """a remote reference channel next to the local one of the same direction"""
    from mt_metadata.transfer_functions import TF

    for loc, far in item:
        with tempfile.TemporaryDirectory() as d:
            part.state((loc, far))
            part.traces += 1
            part.transitions += 2
            comps = ("hx", "hy", "ex", "ey", "rrhx", "rrhy")
            tf = build({"runs": [("mt01a", comps[:4])], "deep": [], "fields": []})
            from mt_metadata.timeseries import Magnetic

            run = tf.station_metadata.runs[0]
            for c in comps[4:]:
                run.add_channel(Magnetic(component=c))
            for c, v in ((loc, "local"), (far, "remote")):
                if c:
                    run.get_channel(c).sensor.id = v
            fn = Path(d) / "m.edi"
            tf.write(fn)
            tf = TF(fn)
            tf.read()
            for c in ("hx", "hy"):
                got = tf.station_metadata.runs[0].get_channel(c).sensor.id or None
                want = "local" if c == loc else None
                if got == "remote" and far == f"rr{c}":
                    part.violation(f"the sensor of a remote reference channel is read as that of the local channel {c}",
                                   f"{loc} {far}: {got}", {"sensors": [loc, far]})
                elif got != want:
                    part.violation("sensor of another channel", f"{loc} {far}: {c} {got}", {"sensors": [loc, far]})


# what others write into the information section: line -> (field, value); the key in any case, either separator
INFO = {
    "SITENAME: Far away, N": ("station.geographic_name", "Far away, N"),
    "SIGNCONVENTION: exp(+ i\\omega t)": ("station.transfer_function.sign_convention", "exp(+ i\\omega t)"),
    "PROCESSEDBY: A Person": ("station.transfer_function.processed_by.author", "A Person"),
    "PROCESSINGSOFTWARE: EMTF 5": ("station.transfer_function.software.name", "EMTF 5"),
    "ALGORITHMNAME: bounded": ("station.transfer_function.software.name", "bounded"),
    "PROCESSINGTAG: abc": ("station.transfer_function.id", "abc"),
    "RUNLIST: mt01b mt01c": ("station.transfer_function.runs_processed", ["mt01b", "mt01c"]),
    "REMOTESITE: rr07": ("station.transfer_function.remote_references", ["rr07"]),
    "processing.tag: rr01,rr02": ("station.transfer_function.remote_references", ["rr01", "rr02"]),
    "REMOTEREF: Robust": ("station.transfer_function.processing_parameters", ["Robust"]),
    "NDEC: 4": ("station.transfer_function.processing_parameters", ["ndec=4"]),
    "NFFT: 256": ("station.transfer_function.processing_parameters", ["nfft=256"]),
    "RRTYPE: rr": ("station.transfer_function.processing_parameters", ["rrtype=rr"]),
    "ROTMAXE: 1": ("station.transfer_function.processing_parameters", ["rotmaxe=1"]),
    "PROJECT: P1": ("survey.project", "P1"),
    "SURVEY: S1": ("survey.id", "S1"),
    "YEAR: 2012": ("survey.time_period.start_date", "2012-01-01"),
    "HX: 2311": ("hx.sensor.id", "2311"),
    "HY: 2312": ("hy.sensor.id", "2312"),
    "HZ: 77": ("hz.sensor.id", "77"),
    "EX_LEN: 88.5": ("ex.dipole_length", 88.5),
    "EY_LEN: 91.25": ("ey.dipole_length", 91.25),
    "EX_RESISTANCE: 1500": ("ex.contact_resistance.start", 1500.0),
    "EY_RESISTANCE: 1600": ("ey.contact_resistance.start", 1600.0),
    "ADU_SERIAL: 12": ("run.data_logger.id", "12"),
    "data_logger.id: 55": ("run.data_logger.id", "55"),
    "OPERATOR: Joe": ("run.acquired_by.author", "Joe"),
    "station.acquired_by.author: Jack": ("station.acquired_by.author", "Jack"),
    "survey.summary: all of it": ("survey.summary", "all of it"),
    "run.hy.sensor.id: 99": ("hy.sensor.id", "99"),
    "provenance.creator.author: Me": ("station.provenance.creator.author", "Me"),
    "transfer_function.software.name: YY": ("station.transfer_function.software.name", "YY"),
    "transfer_function.data_quality.rating.value: 4": ("station.transfer_function.data_quality.rating.value", 4),
    "nothing: that is known": (None, None),
}
SPELL = [lambda k, v: f"{k}: {v}", lambda k, v: f"{k}={v}", lambda k, v: f"{k.lower()} = {v}", lambda k, v: f"    {k.title()}  :{v}   "]


def everything(tf):
    o = {}
    for k, v in tf.survey_metadata.to_dict(single=True).items():
        if k not in ("stations", "filters"):
            o[f"survey.{k}"] = v
    for k, v in tf.station_metadata.to_dict(single=True).items():
        # the comments of the station are the section itself; times of writing
        if k not in ("runs", "run_list") and not k.startswith("comments") and k not in (
            "provenance.creation_time", "transfer_function.processed_date"
        ):
            o[f"station.{k}"] = v
    for r in tf.station_metadata.runs[:1]:
        for k, v in r.to_dict(single=True).items():
            if k != "channels":
                o[f"run.{k}"] = v
        for c in r.channels:
            for k, v in c.to_dict(single=True).items():
                o[f"{c.component}.{k}"] = v
    return {k: str(v) for k, v in o.items()}


def information(part, item):
    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        fn = Path(d) / "m.edi"
        build({"runs": [("mt01a", ALL)], "deep": [], "fields": []}).write(fn)
        text = fn.read_text()
        i, j = text.index(">INFO"), text.index(">=DEFINEMEAS")

        def read(lines):
            fn.write_text(text[:i] + ">INFO\n" + "\n".join(lines) + "\n\n" + text[j:])
            tf = TF(fn)
            r = outcome(tf.read)
            return everything(tf) if r[0] == "ok" else r

        base = read([])
        for lines, how in item:
            part.state((lines, how))
            part.traces += 1
            part.transitions += 1
            case = {"info": list(lines), "how": how}
            # dotted names as they are
            got = read([SPELL[how if "." not in x.split(":")[0] else 0](*(y.strip() for y in x.split(":", 1))) for x in lines])
            if not isinstance(got, dict):
                part.violation("information of others: read fails", f"{case}: {got}", case)
                continue
            want = dict(base)
            for x in lines:
                k, v = INFO[x]
                if k and k.endswith("processing_parameters"):
                    v = [y for z in lines if INFO[z][0] == k for y in INFO[z][1]]
                    if sorted(v) == sorted(eval(got.get(k, "[]"))):
                        v = eval(got[k])
                if k:
                    want[k] = str(v)
            for k in {**want, **got}:
                if want.get(k) != got.get(k):
                    part.violation(f"information of others: {k}", f"{case}: {want.get(k)} expected, read {got.get(k)}", case)


# lines of the header of others: line -> the fields it sets
HEAD = {
    "PROSPECT=Pa": {"survey.project": "Pa"},
    "PROJECT=Pb": {"survey.project": "Pb"},
    "SURVEY=S 1": {"survey.id": "S 1"},
    "COUNTRY=Peru": {"survey.country": "['Peru']"},
    'LOC="Far away, N"': {"survey.geographic_name": "Far away, N", "station.geographic_name": "Far away, N"},
    'ACQBY="A. Person"': {"survey.acquired_by.author": "A. Person", "station.acquired_by.author": "A. Person"},
    'FILEBY="B. Person"': {"station.provenance.submitter.author": "B. Person", "station.provenance.software.name": "B. Person"},
    "ACQDATE=2012-03-04": {"survey.time_period.start_date": "2012-03-04", "station.time_period.start": "2012-03-04T00:00:00+00:00", "run.time_period.start": "2012-03-04T00:00:00+00:00"},
    "ENDDATE=2012-03-09": {"survey.time_period.end_date": "2012-03-09", "station.time_period.end": "2012-03-09T00:00:00+00:00", "run.time_period.end": "2012-03-09T00:00:00+00:00"},
    "DATUM=NAD83": {"station.location.datum": "NAD83"},
    "DECLINATION=-11.5": {"station.location.declination.value": "-11.5"},
    'PROGVERS="1.2 b"': {"station.provenance.software.version": "1.2 b"},
    "COORDINATE_SYSTEM=station": {"station.orientation.reference_frame": "station"},
    'STDVERS="SEG 1.0"': {},
    "MAXSECT=999": {},
    "EMPTY=1.0e+32": {},
}


def header(part, item):
    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        fn = Path(d) / "m.edi"
        build({"runs": [("mt01a", ALL)], "deep": [], "fields": []}).write(fn)
        text = fn.read_text()
        i, j = text.index(">INFO"), text.index(">=DEFINEMEAS")

        def read(lines, how=0):
            sp = [lambda x: x, lambda x: "    " + x.split("=")[0].lower() + "=" + x.split("=")[1]][how]
            head = ["DATAID=mt01", "LAT=40.5", "LONG=-110.25", "ELEV=100", *lines]
            fn.write_text(">HEAD\n" + "\n".join(map(sp, head)) + "\n\n>INFO\n\n" + text[j:])
            tf = TF(fn)
            r = outcome(tf.read)
            return everything(tf) if r[0] == "ok" else r

        base = read([])
        for lines, how in item:
            part.state(("head", lines, how))
            part.traces += 1
            part.transitions += 1
            case = {"head": list(lines), "how": how}
            got = read(lines, how)
            if not isinstance(got, dict):
                part.violation("header of others: read fails", f"{case}: {got}", case)
                continue
            want = dict(base)
            for x in lines:
                if not (x.startswith("PROSPECT") and any(y.startswith("PROJECT") for y in lines)):
                    want.update(HEAD[x])
            for k in {**want, **got}:
                if want.get(k) != got.get(k):
                    part.violation(f"header of others: {k}", f"{case}: {want.get(k)} expected, read {got.get(k)}", case)


def info_cases(q):
    for x in INFO:
        for how in range(len(SPELL)):
            yield (x,), how
    for a, b in itertools.permutations(INFO, 2):
        ka, kb = INFO[a][0], INFO[b][0]
        params = str(ka).endswith("parameters") and ka == kb
        if (ka != kb or params) and not (params and ("REMOTEREF: Robust" in (a, b))):
            for how in (0,) if q else range(len(SPELL)):
                yield (a, b), how
    if not q:
        for c in itertools.combinations(INFO, 3):
            ks = [INFO[x][0] for x in c]
            if len(set(ks)) == 3:
                yield c, 0


def run(ctx):
    items = list(cases(ctx.quick))
    ctx.pmap(job, [items[i : i + 12] for i in range(0, len(items), 12)])
    ps = [c for n in range(3 if ctx.quick else 4) for c in itertools.combinations(PARAMS, n)] + [tuple(PARAMS)]
    ps += [tuple(reversed(c)) for c in itertools.combinations(PARAMS, 2)]
    ctx.pmap(params, [ps[i : i + 12] for i in range(0, len(ps), 12)])
    infos = list(info_cases(ctx.quick))
    ctx.pmap(information, [infos[i : i + 24] for i in range(0, len(infos), 24)])
    heads = [(c, h) for n in range(3 if ctx.quick else 4) for c in itertools.combinations(HEAD, n) for h in (0, 1)]
    heads += [(tuple(y for y in HEAD if y != x), h) for x in HEAD for h in (0, 1)]
    ctx.pmap(header, [heads[i : i + 12] for i in range(0, len(heads), 12)])
    ctx.pmap(remote_sensor, [[(a, b) for b in (None, "rrhx", "rrhy")] for a in (None, "hx", "hy")])
    ctx.bounds = {"headers": len(heads), "information sections": len(infos), "parameters": len(ps), "fields": len(FIELDS), "channel fields": len(MAGF) + len(ELEF), "cases": len(items), "cycles": 2}
    ctx.assumptions = ["one run", "no angle brackets in what is written", "positions of channels to 0.01 m"]


def replay(data):
    from mc.core import Part

    p = Part()
    if "info" in data:
        information(p, [(tuple(data["info"]), data["how"])])
    elif "head" in data:
        header(p, [(tuple(data["head"]), data["how"])])
    elif "params" in data:
        params(p, [tuple(data["params"])])
    elif "sensors" in data:
        remote_sensor(p, [tuple(data["sensors"])])
    else:
        job(p, [data])
    return p
