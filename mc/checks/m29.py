"""Survey, station and run metadata of a transfer function vs. an explicit tree."""
import json

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

ALL = ["ex", "ey", "hx", "hy", "hz"]
NAMES = [("mt01", "mt01"), ("a b", "a_b"), ("MT02", "MT02")]
RUNS = {
    "plain": ("b", []),
    "some": ("zza", ["ex", "hz"]),
    "late": ("zzb", ["hy"]),
}
STATIONS = {
    "none": ("q", (12.5, -100.25, 33.0), "Quail", []),
    "one": ("zz", (-11.0, 20.5, 0.0), None, ["some"]),
    "two": ("mt01", (40.0, -115.5, 1500.0), "First", ["late", "plain"]),
}
SURVEYS = {
    "bare": ("sv", "p1", None, []),
    "one": ("s2", None, "Second", ["one"]),
    "many": ("s3", "p3", None, ["two", "none"]),
}
DATA = [[[1 + 2j, 3 - 1j], [-4 + 0.5j, 2j]], [[0.5, 1j], [2 - 2j, 7]]]
TIP = [[[0.1 + 0.2j, -0.3]], [[0.5j, 0.25]]]


def make_run(key):
    from mt_metadata.timeseries import Electric, Magnetic, Run

    rid, chans = RUNS[key]
    r = Run(id=rid, sample_rate=8.0)
    r.data_logger.id = f"dl-{rid}"
    for c in chans:
        r.add_channel((Electric if c[0] == "e" else Magnetic)(component=c, channel_id=f"n{c}"))
    return r


def run_model(key):
    rid, chans = RUNS[key]
    return [rid, f"dl-{rid}", list(chans)]


def make_station(key):
    from mt_metadata.transfer_functions.tf import Station

    sid, loc, geo, runs = STATIONS[key]
    s = Station(id=sid)
    s.location.latitude, s.location.longitude, s.location.elevation = loc
    if geo:
        s.geographic_name = geo
    s.transfer_function.id = f"tf_{sid}"
    for r in runs:
        s.add_run(make_run(r))
    return s


def station_model(key):
    sid, loc, geo, runs = STATIONS[key]
    return {"id": sid, "loc": list(loc), "geo": geo or "", "tf": f"tf_{sid}", "runs": [run_model(r) for r in runs]}


def make_survey(key):
    from mt_metadata.timeseries import Survey

    vid, project, name, stations = SURVEYS[key]
    v = Survey(id=vid)
    if project:
        v.project = project
    if name:
        v.name = name
    for s in stations:
        v.add_station(make_station(s))
    return v


def hand(obj, how):
    if how == "dict":
        return obj.to_dict(required=False)
    if how == "inner":
        return obj.to_dict(single=True, required=False)
    return obj


def view(t):
    """what the metadata tree of a transfer function says"""
    v = t.survey_metadata
    return {
        "id": v.id, "project": v.project or "", "name": v.name or "",
        "stations": [
            {"id": s.id, "loc": [s.location.latitude, s.location.longitude, s.location.elevation],
             "geo": s.geographic_name or "", "tf": s.transfer_function.id or "",
             "runs": [[r.id, r.data_logger.id or "", [c.component for c in r.channels]] for r in s.runs]}
            for s in v.stations
        ],
    }


def default_channels(runs):
    if runs and not runs[0][2]:
        runs[0][2] = list(ALL)


class Tree(Spec):
    name = "metadata of a transfer function"

    def new(self):
        import numpy as np

        from mt_metadata.transfer_functions import TF

        t = TF(period=np.array([0.5, 8.0]))
        t.impedance = np.array(DATA)
        t.tipper = np.array(TIP)
        m = {"id": "0", "project": "", "name": "",
             "stations": [{"id": "0", "loc": [0.0, 0.0, 0.0], "geo": "", "tf": "0", "runs": [["0", "", list(ALL)]]}]}
        m["stations"][0]["tf"] = t.tf_id or ""
        return [t, m, []]

    def ops(self, m):
        have = [s["id"] for s in m["stations"][1:]]
        o = [["station", n, w] for n, w in NAMES if w not in have]
        o += [["survey", n, w] for n, w in NAMES[1:3]] + [["survey", None, "unkown_survey"]]
        o += [["tf", n, w] for n, w in NAMES[1:3]]
        o += [["lat", 45.5], ["lon", -120.25], ["elev", 2000.5], ["lat", "0:30:00"]]
        o += [["stmeta", k, h] for k, h in (("none", "obj"), ("one", "obj"), ("two", "obj"), ("none", "inner"),
                                               ("one", "dict"))
              if m["stations"][0]["runs"][0][0] not in [RUNS[r][0] for r in STATIONS[k][3]]]
        o += [["runmeta", k, h] for k, h in (("plain", "obj"), ("some", "obj"), ("late", "dict"), ("plain", "inner"))]
        o += [["svmeta", k, h] for k, h in (("bare", "obj"), ("one", "obj"), ("many", "obj"), ("bare", "dict"),
                                               ("bare", "inner")) if not {STATIONS[s][0] for s in SURVEYS[k][3]} & set(
                  [m["stations"][0]["id"]] + have)]
        o += [["from ts", k] for k in ("none", "one") if STATIONS[k][0] not in have]
        o += [["none", k] for k in ("station_metadata", "run_metadata", "survey_metadata")]
        o += [["wrong", k] for k in ("station_metadata", "run_metadata", "survey_metadata")]
        o += [["copy"], ["compare"], ["through ts"]]
        return o

    def apply(self, pair, op):
        t, m, old = pair
        s = m["stations"][0]
        k = op[0]
        want = None

        def act():
            if k == "station":
                t.station = op[1]
            elif k == "survey":
                t.survey = op[1]
            elif k == "tf":
                t.tf_id = op[1]
            elif k == "lat":
                t.latitude = op[1]
            elif k == "lon":
                t.longitude = op[1]
            elif k == "elev":
                t.elevation = op[1]
            elif k == "stmeta":
                t.station_metadata = hand(make_station(op[1]), op[2])
            elif k == "runmeta":
                t.run_metadata = hand(make_run(op[1]), op[2])
            elif k == "svmeta":
                t.survey_metadata = hand(make_survey(op[1]), op[2])
            elif k == "from ts":
                from mt_metadata.timeseries import Station

                x = Station(id=STATIONS[op[1]][0])
                x.location.latitude, x.location.longitude, x.location.elevation = STATIONS[op[1]][1]
                x.geographic_name = "from time series"
                t.from_ts_station_metadata(x)
            elif k == "none":
                setattr(t, op[1], None)
            elif k == "wrong":
                setattr(t, op[1], ["mt01"])

        if k == "copy":
            pair[2] = old + [(t, json.loads(json.dumps(m)))]
            pair[0] = t.copy()
            return pair
        if k == "compare":
            self.compare(t, m)
            return pair
        if k == "through ts":
            from mt_metadata.transfer_functions import TF

            x = outcome(t.to_ts_station_metadata)
            if x[0] != "ok":
                raise Mismatch("to_ts_station_metadata fails", str(x))
            u = TF()
            r = outcome(u.from_ts_station_metadata, x[1])
            if r[0] != "ok":
                raise Mismatch("from_ts_station_metadata fails", str(r))
            g = view(u)["stations"][0]
            if [g["id"], g["loc"], g["geo"]] != [s["id"], s["loc"], s["geo"]]:
                raise Mismatch("station handed over as time series station", f"{g} expected {s}")
            return pair
        r = outcome(act)
        if k == "wrong":
            want = ("exc", "TypeError")
        elif k == "station":
            s["id"] = op[2]
        elif k == "survey":
            m["id"] = op[2]
        elif k == "tf":
            s["tf"] = op[2]
        elif k in ("lat", "lon", "elev"):
            s["loc"][("lat", "lon", "elev").index(k)] = op[1] if op[1] != "0:30:00" else 0.5
        elif k == "stmeta":
            n = station_model(op[1])
            if op[2] != "obj":  # a dictionary of a station names its runs, it does not hold them
                n["runs"] = [[x[0], "", x[2]] for x in n["runs"]]
            keep = [x for x in s["runs"][:1] if x[0] != "0"]
            n["runs"] = keep + [x for x in n["runs"] if x[0] not in [y[0] for y in keep]]
            if not n["runs"]:
                n["runs"] = [["0", "", list(ALL)]]
            default_channels(n["runs"])
            m["stations"] = [n]
        elif k == "runmeta":
            n = run_model(op[1])
            s["runs"] = [n] + [x for x in s["runs"] if x[0] not in (n[0], "0")]
            default_channels(s["runs"])
        elif k == "svmeta":
            vid, project, name, stations = SURVEYS[op[1]]
            m["id"] = vid
            m["project"] = project or m["project"]
            m["name"] = name or m["name"]
            m["stations"] += [station_model(x) for x in stations]
            if len(m["stations"]) > 1:
                m["stations"] = [x for x in m["stations"] if x["id"] != "0"]
            if not m["stations"][0]["runs"]:
                m["stations"][0]["runs"] = [["0", "", list(ALL)]]
        elif k == "from ts":
            s["id"], s["loc"], s["geo"] = STATIONS[op[1]][0], list(STATIONS[op[1]][1]), "from time series"
        if want is None and r[0] != "ok" or want is not None and r != want:
            raise Mismatch(f"{k}: outcome", f"{r} expected {want}")
        return pair

    def compare(self, t, m):
        """a copy is equal to its source until one of them is changed"""
        c = t.copy()
        if not c == t or c != t:
            raise Mismatch("a copy is not equal", "")
        for a, val in (("latitude", -1.25), ("tf_id", "other"), ("survey", "other"), ("station", "other")):
            before = getattr(t, a)
            setattr(c, a, val)
            if getattr(t, a) != before or getattr(c, a) != val:
                raise Mismatch("changing a copy changes its source", a)
            if c == t or not c != t:
                raise Mismatch("different metadata compare equal", a)
            setattr(c, a, before)
            # naming a station lists its placeholder run
            if not c == t and (a != "station" or m["stations"][0]["runs"][0][0] != "0"):
                raise Mismatch("equal metadata compare different", a)

    def observe(self, pair):
        import numpy as np

        t, m, old = pair
        for x, w, what in [(t, m, "")] + [(x, w, " of the copied object") for x, w in old]:
            got = view(x)
            if got != w:
                ks = [k for k in w if got[k] != w[k]]
                raise Mismatch(f"metadata {ks}{what}", f"{got} expected {w}")
            v = x.survey_metadata
            keys = [[list(v.stations.keys())], [list(s.runs.keys()) for s in v.stations],
                    [list(r.channels.keys()) for s in v.stations for r in s.runs]]
            want = [[[s["id"] for s in w["stations"]]], [[r[0] for r in s["runs"]] for s in w["stations"]],
                    [r[2] for s in w["stations"] for r in s["runs"]]]
            if keys != want:
                raise Mismatch(f"names under which the parts are held{what}", f"{keys} expected {want}")
            s = w["stations"][0]
            got = [x.station, x.survey, x.tf_id or "", x.latitude, x.longitude, x.elevation, x.station_metadata.id,
                   x.run_metadata.id]
            if got != [s["id"], w["id"], s["tf"]] + s["loc"] + [s["id"], s["runs"][0][0]]:
                raise Mismatch(f"short cuts{what}", f"{got} expected {w}")
            if x.station_metadata is not v.stations[0] or x.run_metadata is not v.stations[0].runs[0]:
                raise Mismatch(f"station or run outside the tree{what}", "")
            a = x.dataset.attrs
            got = [a.get(k) for k in ("survey", "id", "latitude", "longitude", "elevation", "runs_processed")]
            got[-1] = [r for r in got[-1] or [] if r != "0"]
            if got != [w["id"], s["id"]] + s["loc"] + [[r[0] for r in s["runs"] if r[0] != "0"]]:
                raise Mismatch(f"attributes of the data set{what}", f"{got} expected {w}")
            if not (np.array_equal(x.impedance.data, DATA) and np.array_equal(x.tipper.data, TIP)
                    and list(x.period) == [0.5, 8.0]):
                raise Mismatch(f"transfer function changed by metadata{what}", "")
            if any(len({id(y) for y in r.channels}) != len(r.channels) for q in v.stations for r in q.runs):
                raise Mismatch("shared channels", "")
        return json.dumps([m, [w for _, w in old][-1:]])


def make(param):
    return Tree()


def run(ctx):
    d, merge = (3, 2) if ctx.quick else (5, 2)
    bfs(ctx, make, [0], d, merge)
    ctx.bounds = {"operations": d, "stations": "3 kinds", "surveys": "3 kinds", "runs": "3 kinds",
                  "handed over as": "object, nested dictionary, flat dictionary"}
    ctx.assumptions = ["a survey is set only when its stations are not there yet",
                       "a station is set only when the current run is not one of its runs",
                       "a station is not renamed to the name of another one"]


def replay(data):
    return bfs_replay(make, data)
