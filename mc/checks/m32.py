"""EMTF XML: site, survey, run and channel metadata of a TF written, read, written and read again."""
import itertools
import tempfile
from pathlib import Path

from mc.core import outcome

EMPTY = (None, "", [], 0, 0.0, "1980-01-01T00:00:00+00:00")
TEXT = ["A Person", "Ñandú & Söhne", "x < y"]
MAIL = ["a.b@c.org", "x@y.gov"]
URL = ["https://a.org/b", "http://c.gov/d?e=1"]

# where in the tree: the values tried
FIELDS = {
    "survey.project": ["USMTArray", "P_Q-2"],
    "survey.country": [["USA"], ["USA", "Canada"]],
    "survey.summary": ["A summary", "of <all>"],
    "survey.geographic_name": ["Yukon", "CONUS South", "Nor-th_2 (b)"],
    "survey.citation_dataset.doi": ["https://doi.org/10.17611/DP/EMTF/USMTARRAY"],
    "survey.citation_dataset.authors": ["A, B", "Schultz, A."],
    "survey.citation_dataset.title": ["T", "The & title"],
    "survey.citation_dataset.year": ["2020", "2020-2021"],
    "survey.comments.value": ["copyright.acknowledgement:thanks to all", "copyright.selected_publications:A. B., http://x.y/z: 2020",
                              "copyright.additional_info:k=v; copyright.acknowledgement:us"],
    "station.acquired_by.author": TEXT,
    "station.geographic_name": ["Whitehorse, Yukon", "Cañon City"],
    "station.fdsn.id": ["MT.01.2020", "EM.CAS04.2020"],
    "station.location.latitude": [40.5, -33.333333, 89.9],
    "station.location.longitude": [-110.25, 179.123456, 0.5],
    "station.location.elevation": [12.5, -3.25, 4000.0],
    "station.location.declination.value": [-11.5, 13.125],
    "station.location.declination.epoch": ["2019", "2020"],
    "station.orientation.angle_to_geographic_north": [13.5, -0.25],
    "station.provenance.creator.author": TEXT,
    "station.provenance.creator.email": MAIL,
    "station.provenance.creator.organization": TEXT,
    "station.provenance.creator.url": URL,
    "station.provenance.submitter.author": TEXT,
    "station.provenance.submitter.email": MAIL,
    "station.provenance.submitter.organization": TEXT,
    "station.provenance.submitter.url": URL,
    "station.provenance.archive.url": URL,
    "station.provenance.archive.comments.value": ["arch", "IRIS DMC <x>"],
    "station.transfer_function.sign_convention": ["exp(- i\\omega t)", "exp(+ i\\omega t)"],
    "station.transfer_function.processed_by.author": TEXT,
    "station.transfer_function.processed_date": ["2021-03-04T00:00:00+00:00", "1999-12-31T00:00:00+00:00"],
    "station.transfer_function.software.author": ["Gary Egbert", "X & Y"],
    "station.transfer_function.software.name": ["EMTF", "aurora"],
    "station.transfer_function.software.last_updated": ["2015-08-26T00:00:00+00:00"],
    "station.transfer_function.processing_type": ["Robust Multi-Station Reference", "single station"],
    "station.transfer_function.runs_processed": [["mt01a"], ["mt01a", "mt01b"]],
    "station.transfer_function.remote_references": [["rr02"], ["rr02", "rr03"]],
    "station.transfer_function.data_quality.good_from_period": [5.0, 0.125],
    "station.transfer_function.data_quality.good_to_period": [2000.0, 29127.0],
    "station.transfer_function.data_quality.rating.value": [4, 1, 5],
}
# what the comments of a survey say about its use
RIGHTS = ("acknowledgement", "selected_publications", "additional_info")
RUNF = {
    "sample_rate": [8.0, 1.0, 0.5, 4096.0],
    "data_logger.id": ["dl0", "1103-04"],
    "data_logger.type": ["NIMS", "A & B"],
    "data_logger.manufacturer": ["Narod", "Ñ"],
    "time_period": [("2020-01-01T01:02:03+00:00", "2020-01-11T23:59:59+00:00"),
                    ("1999-12-31T00:00:00+00:00", "2000-01-01T00:00:01+00:00")],
    "comments.value": ["comments.author:me; comments.value:windy", "errors:moose ate cables", "comments.value:x"],
}
MAGF = {
    "sensor.id": ["2311-11", "s0"],
    "sensor.manufacturer": ["Metronix", "B & C"],
    "sensor.type": ["induction coil", "fluxgate"],
    "location.x": [1.5, -20.0],
    "location.y": [-2.5, 7.125],
    "location.z": [0.25, -1.0],
    "azimuth": [3.0, 347.5, -10.25],
}
ELEF = {
    "dipole_length": [100.0, 87.25],
    "azimuth": [4.0, 94.5],
    "positive.id": ["40201038", "p"],
    "negative.id": ["40201037", "n"],
    "positive.type": ["Ag-AgCl", "Pb & Cl"],
    "negative.type": ["Pb-PbCl", "Ag"],
    "positive.x2": [50.0, -0.5],
    "positive.y2": [1.0, 60.25],
    "positive.z2": [0.5],
    "negative.x": [-50.0, 0.125],
    "negative.y": [-1.0, 2.5],
    "negative.z": [0.125],
    "manufacturer": ["MP", "O & U"],
}
MAG, ELE = ("hx", "hy", "hz"), ("ex", "ey")


def put(obj, path, value):
    *way, last = path.split(".")
    for w in way:
        obj = getattr(obj, w)
    setattr(obj, last, value)


def get(obj, path):
    for w in path.split("."):
        obj = getattr(obj, w)
    return getattr(obj, "value", obj) if hasattr(obj, "name") and hasattr(obj, "value") else obj


def put_channel(ch, key, value):
    if key == "azimuth":
        ch.measurement_azimuth = value
        ch.translated_azimuth = value
    elif key == "manufacturer":
        ch.positive.manufacturer = value
        ch.negative.manufacturer = value
    else:
        put(ch, key, value)


def get_channel(ch, key):
    if key == "azimuth":
        return [ch.measurement_azimuth, ch.translated_azimuth]
    if key == "manufacturer":
        return [ch.positive.manufacturer, ch.negative.manufacturer]
    return get(ch, key)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [v for v in map(plain, x) if v is not None] or None
    if x is None or isinstance(x, (int, float, str)):
        return None if x in EMPTY and not isinstance(x, bool) else x
    return plain(str(x))


def see(tf):
    """the tree, flattened to what an EMTF XML file has room for"""
    o = {}
    roots = {"survey": tf.survey_metadata, "station": tf.station_metadata}
    for f in FIELDS:
        root, path = f.split(".", 1)
        if f != "survey.comments.value":
            o[f] = plain(get(roots[root], path))
    o["station.id"] = tf.station_metadata.id
    said = str(tf.survey_metadata.comments.value or "").split("; ")
    for k in RIGHTS:
        o[f"survey.comments {k}"] = [x.split(":", 1)[1].strip() for x in said if x.split(":", 1)[0].strip() == f"copyright.{k}"] or None
    o["runs"] = [r.id for r in tf.station_metadata.runs]
    for r in tf.station_metadata.runs:
        for f in RUNF:
            if f == "time_period":
                o[f"{r.id} time"] = [str(r.time_period.start), str(r.time_period.end)]
            else:
                o[f"{r.id} {f}"] = plain(get(r, f))
        o[f"{r.id} channels"] = sorted(c.component for c in r.channels)
        for c in r.channels:
            for f in MAGF if c.component in MAG else ELEF:
                o[f"{r.id} {c.component} {f}"] = plain(get_channel(c, f))
    return o


def default(want, key, value):
    if want[key] is None:
        want[key] = value


def build(case):
    import numpy as np

    from mt_metadata.timeseries import Electric, Magnetic, Run
    from mt_metadata.transfer_functions import TF
    from mt_metadata.transfer_functions.tf import Station

    tf = TF(period=np.array([1.0, 10.0]))
    tf.impedance = np.ones((2, 2, 2)) * (1 + 2j)
    tf.impedance_error = np.ones((2, 2, 2))
    if case.get("tipper", True):
        tf.tipper = np.ones((2, 1, 2)) * (0.1 + 0.2j)
        tf.tipper_error = np.ones((2, 1, 2))
    station = Station(id="mt01")
    said = dict(case["fields"])
    for f, v in said.items():
        if f.startswith("station."):
            put(station, f.split(".", 1)[1], v)
    for i, (rid, comps) in enumerate(case["runs"]):
        r = Run(id=rid, sample_rate=[8.0, 0.25, 1.0][i])
        r.time_period.start = f"2020-0{i + 1}-01T01:02:03"
        r.time_period.end = f"2020-0{i + 1}-11T01:02:03"
        for c in comps:
            ch = (Magnetic if c in MAG else Electric)(component=c)
            if c in ELE:
                ch.dipole_length = 90.0 + i
                # not all zero, which stands for "lay it out from the length"
                ch.positive.x2 = 45.0
            r.add_channel(ch)
        for where, key, v in case["deep"]:
            if where == rid and key == "time_period":
                r.time_period.start, r.time_period.end = v
            elif where == rid:
                put(r, key, v)
            elif where.split()[-1] in comps and where.split()[0] in (rid, "*"):
                put_channel(r.get_channel(where.split()[-1]), key, v)
        station.add_run(r)
    tf.station_metadata = station
    for f, v in said.items():
        if f.startswith("survey."):
            put(tf.survey_metadata, f.split(".", 1)[1], v)
    return tf


def job(part, item):
    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            part.transitions += 4

            def bad(kind, detail):
                part.violation(kind, f"{case}: {detail}", case)

            tf = build(case)
            want = see(tf)
            # the name of the survey stands in for a place
            default(want, "survey.geographic_name", plain(tf.survey_metadata.id))
            # what the format has a word for when nothing is said
            year = min(want[f"{rid} time"][0] for rid, _ in case["runs"])[:4]
            default(want, "station.fdsn.id", f"{want['survey.project'] or ''}.mt01.{year}")
            default(want, "station.location.declination.epoch", "1995")
            if want["station.provenance.archive.url"] is None:
                want["station.provenance.archive.comments.value"] = None
            if want["station.transfer_function.runs_processed"] is None and len(
                want["station.transfer_function.remote_references"] or ()
            ) < 2:
                # a tag of one word is not taken apart
                want["station.transfer_function.remote_references"] = None
            # the site has every channel of the estimates
            for rid, comps in case["runs"]:
                have = set(comps) | set(MAG[:2] + ELE) | ({"hz"} if case.get("tipper", True) else set())
                want[f"{rid} channels"] = sorted(have)
            last = want
            for n in (1, 2):
                fn = Path(d) / f"m{n}.xml"
                r = outcome(tf.write, fn)
                if r[0] != "ok":
                    bad("write fails", f"cycle {n}: {r}")
                    break
                tf = TF(fn)
                r = outcome(tf.read)
                if r[0] != "ok":
                    bad("read fails", f"cycle {n}: {r}")
                    break
                got = see(tf)
                # the id is the name without the characters an id does not have
                keep = "".join(c for c in str(got["survey.geographic_name"]) if c.isascii() and (c.isalnum() or c in "_- "))
                if tf.survey_metadata.id != keep:
                    bad("survey id", f"cycle {n}: {tf.survey_metadata.id!r} for {got['survey.geographic_name']!r}")
                wrong = {k: (last.get(k), got.get(k)) for k in {**last, **got} if last.get(k) != got.get(k)}
                for k, (a, b) in sorted(wrong.items())[:3]:
                    name = " ".join(k.split()[-2:]) if " " in k else k
                    bad(f"changed: {name}", f"cycle {n}: {k} {a!r} -> {b!r}")
                if wrong:
                    break
                last = got


# what an element of a file holds: nothing else may go when it is not there
HOLDS = {
    "Description": "survey.summary", "ProductId": "station.fdsn.id", "SubType": "", "Notes": "", "Tags": "",
    "ExternalUrl": "station.provenance.archive.*", "ExternalUrl/Description": "station.provenance.archive.comments.value",
    "ExternalUrl/Url": "station.provenance.archive.url", "PrimaryData": "", "PrimaryData/Filename": "",
    "Attachment": "", "Attachment/Filename": "", "Attachment/Description": "",
    "Provenance": "station.provenance.(creator|submitter).*", "Provenance/CreateTime": "",
    "Provenance/CreatingApplication": "",
    **{f"Provenance/{w}{t}": f"station.provenance.{w.lower()}{f}" for w in ("Creator", "Submitter") for t, f in {
        "": ".*", "/Email": ".email", "/Name": ".author", "/Organization": ".organization", "/Url": ".url"}.items()},
    "Copyright": "survey.(citation_dataset|comments).*", "Copyright/Citation": "survey.citation_dataset.*",
    "Copyright/ReleaseStatus": "", "Copyright/ConditionsOfUse": "",
    "Copyright/Citation/Title": "survey.citation_dataset.title",
    "Copyright/Citation/Authors": "survey.citation_dataset.authors",
    "Copyright/Citation/Year": "survey.citation_dataset.year",
    "Copyright/Citation/SurveyDOI": "survey.citation_dataset.doi",
    "Site/Project": "survey.project", "Site/Survey": "survey.geographic_name", "Site/YearCollected": "",
    "Site/Country": "survey.country", "Site/Name": "station.geographic_name",
    "Site/Location": "station.location.*", "Site/Location/Latitude": "station.location.latitude",
    "Site/Location/Longitude": "station.location.longitude", "Site/Location/Elevation": "station.location.elevation",
    "Site/Location/Declination": "station.location.declination.*",
    "Site/Orientation": "station.orientation.angle_to_geographic_north",
    "Site/AcquiredBy": "station.acquired_by.author", "Site/Start": "", "Site/End": "",
    "Site/RunList": "station.transfer_function.(runs_processed|remote_references)",
    "Site/DataQualityNotes": "station.transfer_function.data_quality.*",
    "Site/DataQualityNotes/Rating": "station.transfer_function.data_quality.rating.value",
    "Site/DataQualityNotes/GoodFromPeriod": "station.transfer_function.data_quality.good_from_period",
    "Site/DataQualityNotes/GoodToPeriod": "station.transfer_function.data_quality.good_to_period",
    "Site/DataQualityNotes/Comments": "", "Site/DataQualityWarnings": "", "Site/DataQualityWarnings/Comments": "",
    "ProcessingInfo": "station.transfer_function.(sign|proc|soft|rem).*",
    "ProcessingInfo/SignConvention": "station.transfer_function.sign_convention",
    "ProcessingInfo/RemoteRef": "station.transfer_function.processing_type", "ProcessingInfo/RemoteInfo": "",
    "ProcessingInfo/ProcessedBy": "station.transfer_function.processed_by.author",
    "ProcessingInfo/ProcessDate": "station.transfer_function.processed_date",
    "ProcessingInfo/ProcessingSoftware": "station.transfer_function.software.*",
    "ProcessingInfo/ProcessingSoftware/Name": "station.transfer_function.software.name",
    "ProcessingInfo/ProcessingSoftware/LastMod": "station.transfer_function.software.last_updated",
    "ProcessingInfo/ProcessingSoftware/Author": "station.transfer_function.software.author",
    "ProcessingInfo/ProcessingTag": "station.transfer_function.remote_references",
    "PeriodRange": "",
}
IN_RUN = {
    "": "{r} .*|runs|0 .*", "/Instrument": "{r} data_logger.*", "/Instrument/Manufacturer": "{r} data_logger.manufacturer",
    "/Instrument/Name": "{r} data_logger.type", "/Instrument/Id": "{r} data_logger.id", "/Errors": "{r} comments.value",
    "/Comments": "{r} comments.value", "/SamplingRate": "{r} .*|runs|0 .*", "/Start": "{r} time", "/End": "{r} time",
    "/Magnetometer": "{r} {c} sensor.*", "/Magnetometer/Manufacturer": "{r} {c} sensor.manufacturer",
    "/Magnetometer/Id": "{r} {c} sensor.id", "/Magnetometer/Type": "{r} {c} sensor.type",
    "/Magnetometer/Name": "{r} {c} sensor.*",
    "/Dipole": "{r} {c} (dipole|manu|positive.(id|type)|negative.(id|type)).*",
    "/Dipole/manufacturer": "{r} {c} manufacturer", "/Dipole/length": "{r} {c} dipole_length", "/Dipole/azimuth": "",
    "/Dipole/Manufacturer": "{r} {c} manufacturer", "/Dipole/Length": "{r} {c} dipole_length", "/Dipole/Azimuth": "",
    "/Dipole/Electrode": "{r} {c} ((positive|negative).(id|type)|manufacturer)",
}


def parts_of(root):
    """every element with a known content: (name, its place from the root down, regex of the fields it holds)"""
    out = []

    def walk(el, name, place, run, comp):
        for i, c in enumerate(el):
            n = f"{name}/{c.tag}" if name else c.tag
            r, k = run, comp
            if c.tag == "FieldNotes":
                r = c.get("run")
            if c.tag == "Magnetometer":
                k = c.findtext("Name").lower()
            if c.tag == "Dipole":
                k = c.get("name").lower()
            rest = n[len("FieldNotes"):]
            if n in HOLDS:
                out.append((n, place + [i], HOLDS[n]))
            elif n.startswith("FieldNotes") and rest in IN_RUN:
                out.append((f"{n} {r} {k or ''}", place + [i], IN_RUN[rest].format(r=r, c=k)))
            walk(c, n, place + [i], r, k)

    walk(root, "", [], None, None)
    return out


def cut(part, item):
    """files that lack elements"""
    import re
    import xml.etree.ElementTree as ET

    from mt_metadata.transfer_functions import TF

    with tempfile.TemporaryDirectory() as d:
        fn = Path(d) / "m.xml"
        base = {}
        for runs, gone in item:
            case = {"runs": runs, "gone": gone}
            if runs not in base:
                build(rich(runs)).write(fn)
                tf = TF(fn)
                tf.read()
                base[runs] = fn.read_bytes(), see(tf)
            text, want = base[runs]
            part.state(repr(case))
            part.traces += 1
            part.transitions += 1
            root = ET.fromstring(text)
            els = parts_of(root)
            holds, doomed = [], []
            for g in gone:
                n, place, h = els[g]
                el = root
                for i in place[:-1]:
                    el = el[i]
                doomed.append((el, el[place[-1]]))
                holds.append((n, h))
            for el, c in doomed:
                if c in list(el):
                    el.remove(c)
            case["elements"] = [n for n, _ in holds]
            ET.ElementTree(root).write(fn)
            tf = TF(fn)
            r = outcome(tf.read)
            if r[0] != "ok":
                part.violation("read without elements fails", f"{case}: {r}", case)
                continue
            got = see(tf)
            for k in {**want, **got}:
                if want.get(k) != got.get(k) and not any(re.fullmatch(h, k) for _, h in holds):
                    part.violation("reading without elements: " + " ".join(k.split()[-2:]),
                                   f"{case}: {k} {want.get(k)!r} -> {got.get(k)!r}", case)


def rich(runs):
    deep = [(rid, f, v[0]) for rid in runs for f, v in RUNF.items()]
    deep += [(f"* {c}", f, v[0]) for c in ALL for f, v in (MAGF if c in MAG else ELEF).items()]
    return {"fields": [(f, v[0]) for f, v in FIELDS.items()], "deep": deep, "runs": [(r, ALL) for r in runs]}


def cut_cases(q):
    import xml.etree.ElementTree as ET

    from mt_metadata.transfer_functions import TF  # noqa: F401

    with tempfile.TemporaryDirectory() as d:
        fn = Path(d) / "m.xml"
        for runs in (("mt01a",), ("mt01a", "mt01b")):
            build(rich(runs)).write(fn)
            els = parts_of(ET.parse(fn).getroot())
            for a in range(len(els)):
                yield runs, (a,)
            for a, b in itertools.combinations(range(len(els)), 2):
                same = els[a][0].split("/")[0].split()[0] == els[b][0].split("/")[0].split()[0]
                if (same and len(runs) == 1) or not q:
                    yield runs, (a, b)


def spellings():
    """ways in which other writers put down the same thing: name -> edit of the root"""

    def names(tag, how, attr="name"):
        def f(root):
            for el in root.iter(tag):
                if attr in el.attrib:
                    el.set(attr, how(el.get(attr)))
        return f

    def mags(how):
        def f(root):
            for m in root.iter("Magnetometer"):
                m.find("Name").text = how(m.findtext("Name"))
        return f

    def turn(tag):
        def f(root):
            for el in list(root.iter(tag)):
                el[:] = list(el)[::-1]
        return f

    def one(root):
        """one magnetometer for the three components, called by its make"""
        for fn in root.iter("FieldNotes"):
            ms = fn.findall("Magnetometer")
            for m in ms[1:]:
                fn.remove(m)
            ms[0].find("Name").text = "NIMS"

    def blanks(root):
        for el in root.iter():
            if el.text and el.text.strip() and len(el) == 0:
                el.text = f"\n   {el.text}\n  "

    def remarks(root):
        import xml.etree.ElementTree as ET

        for el in list(root.iter()):
            if len(el):
                el.insert(0, ET.Comment("of somebody"))

    def noted(root):
        """the kind of electrode as a comment"""
        import xml.etree.ElementTree as ET

        for el in root.iter("Electrode"):
            ET.SubElement(el, "Comments").text = el.text
            el.text = None

    up, low, cap = str.upper, str.lower, str.capitalize
    return {
        "magnetometers Hx": mags(cap), "magnetometers HX": mags(up), "dipoles EX": names("Dipole", up),
        "dipoles ex": names("Dipole", low), "electrodes n": names("Electrode", low, "location"),
        "layout hx": lambda r: [names(t, low)(r) for t in ("Magnetic", "Electric")],
        "layout HX": lambda r: [names(t, up)(r) for t in ("Magnetic", "Electric")],
        "notes turned": turn("FieldNotes"), "inputs turned": turn("InputChannels"), "outputs turned": turn("OutputChannels"),
        "site turned": turn("Site"), "dipoles turned": turn("Dipole"), "sections turned": lambda r: r.__setitem__(slice(None), list(r)[::-1]),
        "one magnetometer": one, "blanks": blanks, "remarks": remarks, "electrode comments": noted,
    }


def spell(part, item):
    """the same content as others write it"""
    import re
    import xml.etree.ElementTree as ET

    from mt_metadata.transfer_functions import TF

    ways = spellings()
    with tempfile.TemporaryDirectory() as d:
        fn = Path(d) / "m.xml"
        base = {}
        for runs, how in item:
            case = {"runs": runs, "spelled": how}
            if runs not in base:
                build(distinct(runs)).write(fn)
                tf = TF(fn)
                tf.read()
                base[runs] = fn.read_bytes(), see(tf)
            text, want = base[runs]
            want = dict(want)
            part.state(repr(case))
            part.traces += 1
            part.transitions += len(how)
            root = ET.fromstring(text)
            for h in how:
                ways[h](root)
            ET.ElementTree(root).write(fn)
            tf = TF(fn)
            r = outcome(tf.read)
            if r[0] != "ok":
                part.violation(f"spelled otherwise: reading fails: {how}", f"{case}: {r}", case)
                continue
            if "one magnetometer" in how:
                # the magnetometer that is left comes first or last
                left = "hz" if "notes turned" in how and how.index("notes turned") < how.index("one magnetometer") else "hx"
                for k in list(want):
                    m = re.fullmatch(r"(\S+) (hx|hy|hz) (sensor.*)", k)
                    if m:
                        want[k] = want[f"{m[1]} {left} {m[3]}"] if m[2] != left else want[k]
            got = see(tf)
            if "notes turned" in how or "sections turned" in how:
                got["runs"], want["runs"] = sorted(got["runs"]), sorted(want["runs"])
            for k in {**want, **got}:
                if want.get(k) != got.get(k):
                    part.violation(f"spelled otherwise: {how[0]}: " + " ".join(k.split()[-2:]),
                                   f"{case}: {k} {want.get(k)!r} -> {got.get(k)!r}", case)


def distinct(runs):
    """every channel of every run says something of its own (place and direction are those of the site)"""
    deep = []
    for i, rid in enumerate(runs):
        deep += [(rid, f, v[i % len(v)]) for f, v in RUNF.items()]
        for j, c in enumerate(ALL):
            for f, v in (MAGF if c in MAG else ELEF).items():
                shared = f.startswith("location") or f == "azimuth" or f[-2:] in ("x2", "y2", "z2", ".x", ".y", ".z")
                x = v[0]
                if isinstance(x, (int, float)):
                    x = x + j + (0 if shared else 7 * i)
                elif f.endswith(".id"):
                    x = f"{x}{c}{i}"
                else:
                    x = v[(i + j) % len(v)]
                deep.append((f"{rid} {c}", f, x))
    return {"fields": [(f, v[0]) for f, v in FIELDS.items()], "deep": deep, "runs": [(r, ALL) for r in runs]}


def spell_cases(q):
    ways = list(spellings())
    for runs in (("mt01a",), ("mt01a", "mt01b")):
        for n in (1, 2) if q else (1, 2, 3):
            for how in itertools.permutations(ways, n) if n == 2 and not q else itertools.combinations(ways, n):
                yield runs, how


ALL = MAG + ELE
SHAPES = [m + e for m in (("hx", "hy"), ("hx", "hy", "hz")) for e in ((), ("ex",), ("ey",), ("ex", "ey"))]


def cases(q):
    full = [("mt01a", ALL), ("mt01b", ALL)]

    def case(fields=(), deep=(), runs=full, **kw):
        return {"fields": [list(f) for f in fields], "deep": [list(x) for x in deep],
                "runs": [[a, list(b)] for a, b in runs], **kw}

    yield case()
    # channels of one, two, three runs
    for n in (1, 2) if q else (1, 2, 3):
        ids = ["mt01a", "mt01b", "mt01c"][:n]
        for s in SHAPES:
            yield case(runs=[(i, s) for i in ids])
            yield case(runs=[(i, s) for i in ids], tipper=False)
    # all at once
    for k in (0, 1):
        yield case([(f, v[k % len(v)]) for f, v in FIELDS.items()])
    # one field, two fields, every value
    each = [[(f, x) for x in v] for f, v in FIELDS.items()]
    for vs in each:
        for x in vs:
            yield case([x])
            yield case([x], runs=full[:1])
    for a, b in itertools.combinations(each, 2):
        for x, y in [(a[0], b[-1])] if q else itertools.product(a, b):
            yield case([x, y], runs=full[:1])
    # of one run and not of the other
    deep = [[(rid, f, x) for x in v] for rid in ("mt01a", "mt01b") for f, v in RUNF.items()]
    for rid in ("mt01a", "mt01b"):
        for c in ALL:
            for f, v in (MAGF if c in MAG else ELEF).items():
                # one place and direction of a channel for the site, whatever the run
                shared = f.startswith("location") or f == "azimuth" or f[-2:] in ("x2", "y2", "z2", ".x", ".y", ".z")
                if shared and rid == "mt01b":
                    continue
                deep.append([(f"{'*' if shared else rid} {c}", f, x) for x in v])
    for vs in deep:
        for x in vs:
            yield case(deep=[x])
            if not x[0].startswith("mt01b"):
                yield case(deep=[x], runs=full[:1])
    for k in (0, 1):
        yield case(deep=[v[k % len(v)] for v in deep])
        yield case([(f, v[k % len(v)]) for f, v in FIELDS.items()], [v[k % len(v)] for v in deep])
    for a, b in itertools.combinations(deep, 2):
        if q and (len(a[0][0].split()) == 2) != (len(b[0][0].split()) == 2):
            continue
        if q and a[0][0].split()[-1] != b[0][0].split()[-1]:
            continue
        yield case(deep=[a[0], b[-1]])


# the remote site, which a transfer function describes among its processing parameters
REMOTE = {
    "site.id": ["rr02"], "site.name": ["WHEATLEY FOREST, GA", "A & B"], "site.country": ["USA"], "site.project": ["USArray"],
    "site.survey": ["Transportable Array"], "site.year_collected": ["2015"],
    "site.orientation.angle_to_geographic_north": ["13.5"], "site.location.latitude": ["40.5", "-33.25"],
    "site.location.longitude": ["-110.25"], "site.location.elevation": ["12.5"],
    "field_notes.run": ["rr02b"], "field_notes.sampling_rate": ["1.0", "0.25"], "field_notes.errors": ["moose", "gaps = 2"],
    "field_notes.start": ["2015-09-15T22:16:35+00:00"], "field_notes.end": ["2015-09-27T20:20:23+00:00"],
    "field_notes.instrument.id": ["2612-02"], "field_notes.instrument.manufacturer": ["Barry Narod"],
    "field_notes.instrument.name": ["NIMS"], "field_notes.comments.author": ["TK B"],
    "field_notes.comments.value": ["sandy loam, behind gate (8)m"],
}
FILLED = ("[]", "0.0", "orthogonal", "WGS 84", "1995", "IGRF")  # what the format says by itself
PARTS = {
    "dipole": {"name": ["Ex", "Ey"], "length": ["100.0", "87.25"], "azimuth": ["4.0", "94.5"], "manufacturer": ["MP", "O & U"],
               "type": ["wire", "cable"]},
    "magnetometer": {"name": ["Hx", "Hy", "Hz"], "id": ["s1", "s2", "s3"], "manufacturer": ["Narod", "B & C", "D"],
                     "type": ["fluxgate", "coil", "x"]},
}


def remote_cases(quick):
    base = {"site.id": "rr02", "field_notes.run": "rr02b", "field_notes.sampling_rate": "1.0"}
    for f, g in itertools.combinations(REMOTE, 2):
        yield {**base, f: REMOTE[f][0], g: REMOTE[g][-1]}
    for f in REMOTE:
        for v in REMOTE[f]:
            yield {**base, f: v}
            yield {k: x for k, x in {**base, f: v}.items() if k.startswith("site")}
    yield {k: v[0] for k, v in REMOTE.items()}
    n = {"dipole": 2, "magnetometer": 3}
    for nd, nm in itertools.product(range(3), range(4)):
        for skip in [None] + [(w, k) for w in PARTS for k in PARTS[w] if k != "name"]:
            out = dict(base)
            for w, m in (("dipole", nd), ("magnetometer", nm)):
                for i in range(m):
                    for k, v in PARTS[w].items():
                        if (w, k) != skip or i == 0:
                            out[f"field_notes.{w}_{i}.{k}"] = v[i]
            yield out


def remote(part, item):
    from mt_metadata.transfer_functions import TF

    def value(v):
        try:
            return float(v)
        except ValueError:
            return v

    with tempfile.TemporaryDirectory() as d:
        for case in item:
            part.state(repr(case))
            part.traces += 1
            data = {"remote": case}

            def bad(kind, detail):
                part.violation(kind, f"{case}: {detail}", data)

            want = {k: value(v) for k, v in case.items()}
            said = [f"remote_info.{k} = {v}" for k, v in case.items()]
            for other in ([],):
                tf = build({"runs": [("mt01a", MAG + ELE)], "deep": [], "fields": [
                    ("station.transfer_function.processing_parameters", said + other),
                    ("station.transfer_function.runs_processed", ["mt01a"]),
                    ("station.transfer_function.remote_references", ["rr02"])]})
                for n in (1, 2):
                    part.transitions += 2
                    fn = Path(d) / f"r{n}.xml"
                    r = outcome(tf.write, fn)
                    if r[0] != "ok":
                        bad("write fails (remote)", f"cycle {n}: {r}")
                        break
                    tf = TF(fn)
                    r = outcome(tf.read)
                    if r[0] != "ok":
                        bad("read fails (remote)", f"cycle {n}: {r}")
                        break
                    st = tf.station_metadata
                    got = dict(p[12:].split(" = ", 1) for p in st.transfer_function.processing_parameters
                               if p.startswith("remote_info."))
                    if "field_notes.comments" in got:
                        # a comment without an author
                        got["field_notes.comments.value"] = got.pop("field_notes.comments")
                    lost = {k: (v, got.get(k)) for k, v in want.items() if k not in got or value(got[k]) != v}
                    more = {k: v for k, v in got.items() if k not in want and v not in FILLED
                            and k not in ("field_notes.dipole", "field_notes.magnetometer")}
                    if lost:
                        k = sorted(lost)[0]
                        bad(f"remote site lost: {k}", f"cycle {n}: {lost}")
                    if more:
                        bad("remote site has more", f"cycle {n}: {more}")
                    if st.transfer_function.remote_references != ["rr02"] or [r.id for r in st.runs] != ["mt01a"]:
                        bad("remote site changes the station", f"cycle {n}: {st.transfer_function.remote_references}")
                    if lost or more:
                        break


def run(ctx):
    items = list(cases(ctx.quick))
    ctx.pmap(job, [items[i : i + 12] for i in range(0, len(items), 12)])
    cuts = list(cut_cases(ctx.quick))
    ctx.pmap(cut, [cuts[i : i + 24] for i in range(0, len(cuts), 24)])
    other = list(spell_cases(ctx.quick))
    ctx.pmap(spell, [other[i : i + 24] for i in range(0, len(other), 24)])
    far = list(remote_cases(ctx.quick))
    ctx.pmap(remote, [far[i : i + 12] for i in range(0, len(far), 12)])
    ctx.bounds = {"files spelled otherwise": len(other), "remote sites": len(far), "files lacking one or two elements": len(cuts), "fields": len(FIELDS), "run and channel fields": len(RUNF) + len(MAGF) + len(ELEF),
                  "cases": len(items), "cycles": 2}
    ctx.assumptions = [
        "a channel has one place and one direction at a site, as the format has",
        "at least two magnetic channels in a run (one stands for a three component magnetometer)",
        "comments of a run are in the form the reader gives them",
        "one remote reference is named together with the runs processed",
    ]


def replay(data):
    from mc.core import Part

    p = Part()
    if "remote" in data:
        remote(p, [data["remote"]])
    elif "spelled" in data:
        spell(p, [(tuple(data["runs"]), tuple(data["spelled"]))])
    elif "gone" in data:
        cut(p, [(tuple(data["runs"]), tuple(data["gone"]))])
    else:
        job(p, [data])
    return p
