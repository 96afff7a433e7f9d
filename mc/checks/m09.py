"""Survey and Experiment as containers vs. ordered-dictionary references."""
import copy as _copy

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

DEF, DDEF = "1980-01-01T00:00:00+00:00", "1980-01-01"
T = [f"2020-01-0{i}T00:00:00+00:00" for i in range(1, 9)]
# code -> id, lat, lon, start, end, runs
ST = {
    "ne": ("ne", 10.0, 20.0, T[2], T[3], ["r1"]),
    "sw": ("sw", -30.0, -40.5, T[1], T[2], []),
    "nw": ("nw", 60.0, -150.0, DEF, DEF, ["r1", "r2"]),
    "se": ("se", -5.0, 170.0, T[0], T[6], []),
    "ne2": ("ne", 15.0, 0.0, T[4], T[5], ["r3"]),
    "nw2": ("nw", -61.0, 2.0, DEF, T[7], []),
}
FILTERS = {"low": ("CoefficientFilter", 2.0), "lag": ("TimeDelayFilter", 1.0), "low2": ("CoefficientFilter", 5.0)}


def build(code):
    from mt_metadata.timeseries import Run, Station

    i, la, lo, s, e, runs = ST[code]
    st = Station(id=i)
    for r in runs:
        st.add_run(Run(id=r))
    st.location.latitude, st.location.longitude = la, lo
    st.time_period.start, st.time_period.end = s, e
    return st


def rec(code):
    i, la, lo, s, e, runs = ST[code]
    return i, {"lat": la, "lon": lo, "start": s, "end": e, "runs": list(runs)}


def read(s):
    return {"lat": s.location.latitude, "lon": s.location.longitude, "start": str(s.time_period.start),
            "end": str(s.time_period.end), "runs": list(s.runs.keys())}


def merge_station(old, at):
    for k in ("lat", "lon"):
        old[k] = at[k] or old[k]
    for k in ("start", "end"):
        old[k] = at[k] if at[k] != DEF else old[k]
    old["runs"] += [r for r in at["runs"] if r not in old["runs"]]


def mkfilter(code):
    import mt_metadata.timeseries.filters as F

    cls, g = FILTERS[code]
    return getattr(F, cls)(name=code.strip("2"), gain=g)


class SM:
    def __init__(self, sid="sv"):
        self.id, self.st, self.f = sid, {}, {}
        self.box = [0.0, 0.0, 0.0, 0.0]  # lat min max, lon min max
        self.start = self.end = DDEF

    def put(self, at_id, at):
        if at_id in self.st:
            merge_station(self.st[at_id], at)
        else:
            self.st[at_id] = _copy.deepcopy(at)

    def times(self):
        s = [a["start"][:10] for a in self.st.values() if a["start"] != DEF]
        e = [a["end"][:10] for a in self.st.values() if a["end"] != DEF]
        if s:
            self.start = min(s + ([self.start] if self.start != DDEF else []))
        if e:
            self.end = max(e + ([self.end] if self.end != DDEF else []))

    def refresh(self):
        self.times()
        if self.st:
            la = [a["lat"] for a in self.st.values()]
            lo = [a["lon"] for a in self.st.values()]
            self.box = [min(la), max(la), min(lo), max(lo)]

    def key(self):
        return (self.id, self.box, self.start, self.end,
                [(k, sorted((x, str(y)) for x, y in a.items())) for k, a in self.st.items()], sorted(self.f.items()))


class SurveySpec(Spec):
    name = "survey"

    def __init__(self, seeds=(), core=False):
        self.seeds, self.core = seeds, core

    def fresh(self, codes=(), sid="sv"):
        from mt_metadata.timeseries import Survey

        s, m = Survey(id=sid), SM(sid)
        for c in codes:
            s.add_station(build(c))
            m.put(*rec(c))
        m.refresh()
        return s, m

    def new(self):
        return list(self.fresh(self.seeds))

    def ops(self, m):
        if self.core:
            return [list(o) for o in CORE]
        o = [["add", c] for c in ST] + [["add_noupdate", "ne2"], ["add_noupdate", "se"]]
        o += [["remove", i, True] for i in ("ne", "nw", "se", "nope")] + [["remove", "ne", False]]
        o += [["merge", True, ["ne2", "sw"]], ["merge", False, ["nw2"]], ["merge", True, []]]
        o += [["update", ["ne2"]], ["assign", ["se", "nw"], "list"], ["assign", ["sw"], "dict"], ["assign", ["ne"], "records"], ["assign", [], "list"]]
        o += [["rename", "ne", "qq"], ["move", "ne", -80.0, -179.0], ["dates", "nw", T[0], T[5]], ["refresh"], ["copy"],
              ["construct", ["nw", "se"]]]
        o += [["filter_set", "low"], ["filter_set", "low2"], ["filters_dict", ["lag"]], ["filters_list", ["low", "lag"]],
              ["filter_pop", "low"], ["filters_dict", []]]
        return o

    def apply(self, pair, op):
        s, m = pair
        n, got = op[0], ("ok", None)
        if n in ("add", "add_noupdate"):
            got = outcome(s.add_station, build(op[1]), n == "add")
            m.put(*rec(op[1]))
            if n == "add":
                m.refresh()
        elif n == "remove":
            got = outcome(s.remove_station, op[1], op[2])
            if m.st.pop(op[1], None) is not None and op[2]:
                m.refresh()
        elif n in ("merge", "update"):
            q, mq = self.fresh(op[-1], "other")
            if n == "merge":
                got = outcome(s.merge, q, op[1])
                for i, a in mq.st.items():
                    m.st[i] = _copy.deepcopy(a)
                m.refresh()
                if got[0] == "ok" and op[1] is False:
                    pair[0] = got[1]
            else:
                got = outcome(s.update, q)
                m.id = mq.id
                for f in ("start", "end"):
                    if getattr(mq, f) != DDEF:
                        setattr(m, f, getattr(mq, f))
                m.box = [b or a for a, b in zip(m.box, mq.box)]
            self.compare(q, mq, f"{n} changes the other survey")
        elif n == "assign":
            st = [build(c) for c in op[1]]
            val = {"list": lambda: st, "dict": lambda: {x.id: x for x in st},
                   "records": lambda: [{"id": x.id, "location.latitude": x.location.latitude, "location.longitude": x.location.longitude,
                                        "time_period.start": str(x.time_period.start), "time_period.end": str(x.time_period.end),
                                        "run_list": list(x.run_list)} for x in st]}[op[2]]()
            got = outcome(setattr, s, "stations", val)
            s.update_all()
            m.st = dict(rec(c) for c in op[1])
            m.refresh()
        elif n == "construct":
            q = type(s)(id="sv", stations=[build(c) for c in op[1]])
            q.update_all()
            m2 = SM()
            m2.st = dict(rec(c) for c in op[1])
            m2.refresh()
            return [q, m2]
        elif n == "rename":
            if op[1] in m.st and op[2] not in m.st:
                s.get_station(op[1]).id = op[2]
                got = outcome(s.update_station_keys)
                if got != ("ok", {op[1]: op[2]}):
                    raise Mismatch("rename mapping", str(got))
                m.st = {(op[2] if k == op[1] else k): v for k, v in m.st.items()}
        elif n in ("move", "dates"):
            if op[1] in m.st:
                st = s.get_station(op[1])
                if n == "move":
                    st.location.latitude, st.location.longitude = op[2], op[3]
                    m.st[op[1]].update(lat=op[2], lon=op[3])
                else:
                    st.time_period.start, st.time_period.end = op[2], op[3]
                    m.st[op[1]].update(start=op[2], end=op[3])
                s.update_all()
                m.refresh()
        elif n == "refresh":
            got = outcome(s.update_all)
            m.refresh()
        elif n == "copy":
            q = s.copy()
            for st in s.stations:
                st.location.latitude = 89.0
                st.time_period.start = T[0]
            for i in list(m.st):
                s.remove_station(i)
            s.filters["zz"] = mkfilter("lag")
            s.southeast_corner.latitude = 1.0
            pair[0] = q
        elif n == "filter_set":
            f = mkfilter(op[1])
            s.filters[f.name] = f
            m.f[f.name] = FILTERS[op[1]]
        elif n in ("filters_dict", "filters_list"):
            fs = [mkfilter(c) for c in op[1]]
            got = outcome(setattr, s, "filters", {f.name: f for f in fs} if n == "filters_dict" else fs)
            m.f = {f.name: FILTERS[c] for f, c in zip(fs, op[1])}
        elif n == "filter_pop":
            if op[1] in m.f:
                s.filters.remove(op[1])
                del m.f[op[1]]
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def compare(self, s, m, what):
        def chk(name, got, want):
            if got != want:
                raise Mismatch(f"{what}: {name}", f"got {got!r} expected {want!r}")

        names = list(m.st)
        chk("station names", list(s.station_names), names)
        chk("count", (s.n_stations, len(s.stations)), (len(names),) * 2)
        for i, k in enumerate(names):
            chk("has", s.has_station(k), True)
            chk("index", s.station_index(k), i)
            st = s.get_station(k)
            chk("lookup", getattr(st, "id", None), k)
            chk("station content", read(st), m.st[k])
        for k in ("ne", "sw", "nw", "se", "qq", "nope"):
            if k not in m.st:
                chk("has absent", s.has_station(k), False)
                chk("lookup absent", s.get_station(k), None)
                chk("index absent", s.station_index(k), None)
        box = [s.southeast_corner.latitude, s.northwest_corner.latitude, s.northwest_corner.longitude, s.southeast_corner.longitude]
        chk("bounding box", box, m.box)
        x = s.survey_extent
        chk("extent", [x["latitude"]["min"], x["latitude"]["max"], x["longitude"]["min"], x["longitude"]["max"]], m.box)
        chk("time span", (str(s.time_period.start_date), str(s.time_period.end_date)), (m.start, m.end))
        chk("id", s.id, m.id)
        chk("filter names", list(s.filter_names), list(m.f))
        chk("filters", {k: (type(v).__name__, v.gain) for k, v in s.filters.items()}, m.f)

    def observe(self, pair):
        self.compare(*pair, "state")
        return pair[1].key()


CORE = [["add", "ne"], ["add", "sw"], ["add", "ne2"], ["add", "nw2"], ["add_noupdate", "se"], ["remove", "ne", True], ["remove", "nw", True],
        ["merge", True, ["ne2", "sw"]], ["merge", False, ["nw2"]], ["update", ["ne2"]], ["assign", ["se", "nw"], "list"],
        ["rename", "ne", "qq"], ["move", "ne", -80.0, -179.0], ["copy"], ["filters_list", ["low", "lag"]]]

# surveys of the experiment: code -> id, stations, filters
SV = {"p1": ("p", ["ne"], ["low"]), "p2": ("p", ["sw", "ne2"], ["low2", "lag"]), "q1": ("q", ["nw"], []), "r1": ("r", [], ["lag"])}


class ExperimentSpec(Spec):
    name = "experiment"

    def __init__(self, seeds=()):
        self.seeds = seeds

    def survey(self, code):
        sid, sts, fs = SV[code]
        s, m = SurveySpec().fresh(sts, sid)
        for f in fs:
            s.filters[f.strip("2")] = mkfilter(f)
            m.f[f.strip("2")] = FILTERS[f]
        return s, m

    def new(self):
        from mt_metadata.timeseries import Experiment

        e, m = Experiment(), {}
        for c in self.seeds:
            s, ms = self.survey(c)
            e.add_survey(s)
            m[ms.id] = ms
        return [e, m]

    def ops(self, m):
        o = [["add", c] for c in SV] + [["remove", i] for i in ("p", "q", "nope")]
        o += [["merge", ["p2", "r1"]], ["merge", ["q1"]], ["merge", []], ["assign", ["r1", "p1"], "list"], ["assign", ["q1"], "dict"]]
        o += [["sort"], ["sorted"], ["in_survey", "p", ["add", "se"]], ["in_survey", "p", ["remove", "ne", True]],
              ["in_survey", "q", ["rename", "nw", "zz"]], ["construct", ["q1", "p2"]], ["copy"]]
        return o

    def apply(self, pair, op):
        from mt_metadata.timeseries import Experiment

        e, m = pair
        n, got = op[0], ("ok", None)
        if n == "add":
            s, ms = self.survey(op[1])
            got = outcome(e.add_survey, s)
            if ms.id not in m:
                m[ms.id] = ms
            else:
                old = m[ms.id]
                for f in ("start", "end"):
                    if getattr(ms, f) != DDEF:
                        setattr(old, f, getattr(ms, f))
                for i, a in ms.st.items():
                    old.put(i, a)
                old.f.update(ms.f)
                old.box = [b or a for a, b in zip(old.box, ms.box)]
                old.refresh()
        elif n == "remove":
            got = outcome(e.remove_survey, op[1])
            m.pop(op[1], None)
        elif n == "merge":
            q = Experiment()
            for c in op[1]:
                s, ms = self.survey(c)
                q.add_survey(s)
                m[ms.id] = ms
            got = outcome(e.merge, q)
            if q.survey_names != [SV[c][0] for c in op[1]]:
                raise Mismatch("merge changes the other experiment", str(q.survey_names))
            if got[0] == "ok":
                pair[0] = got[1]
        elif n in ("assign", "construct"):
            x = [self.survey(c) for c in op[1]]
            val = [s for s, _ in x]
            if n == "construct":
                return [Experiment(surveys=val), {ms.id: ms for _, ms in x}]
            got = outcome(setattr, e, "surveys", {s.id: s for s in val} if op[2] == "dict" else val)
            m.clear()
            m.update({ms.id: ms for _, ms in x})
        elif n == "sort":
            got = outcome(e.sort)
            for k in sorted(m):
                ms = m.pop(k)
                ms.st = dict(sorted(ms.st.items()))
                for a in ms.st.values():
                    a["runs"].sort()
                m[k] = ms
        elif n == "sorted":
            got = outcome(e.sort, False)
            if got[0] == "ok":
                tree = {k: sorted(got[1].surveys[k].stations.keys()) for k in got[1].survey_names}
                if list(tree) != sorted(m) or tree != {k: sorted(m[k].st) for k in m}:
                    raise Mismatch("sorted copy", str(tree))
        elif n == "in_survey":
            if op[1] in m:
                p = SurveySpec().apply([e.get_survey(op[1]), m[op[1]]], op[2])
                assert p[1] is m[op[1]]
        elif n == "copy":
            q = e.copy()
            for s in e.surveys:
                s.add_station(build("sw"))
                s.northwest_corner.latitude = 88.0
            for k in list(m):
                e.remove_survey(k)
            pair[0] = q
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def observe(self, pair):
        e, m = pair

        def chk(name, got, want):
            if got != want:
                raise Mismatch(name, f"got {got!r} expected {want!r}")

        names = list(m)
        chk("survey names", list(e.survey_names), names)
        chk("count", (e.n_surveys, len(e.surveys)), (len(names),) * 2)
        for i, k in enumerate(names):
            chk("has", e.has_survey(k), True)
            chk("index", e.survey_index(k), i)
            chk("lookup", e.get_survey(k).id, k)
            SurveySpec().compare(e.get_survey(k), m[k], f"survey in experiment")
        for k in ("p", "q", "r", "nope"):
            if k not in m:
                chk("has absent", (e.has_survey(k), e.get_survey(k), e.survey_index(k)), (False, None, None))
        return [m[k].key() for k in names]


SEEDS = [(), ("ne", "sw", "nw")]


def make(p):
    if p[0] == "experiment":
        return ExperimentSpec(tuple(p[1]))
    return SurveySpec(SEEDS[p[1]], p[2])


def run(ctx):
    ctx.bounds = {"stations": ST, "alphabet": {"survey": len(SurveySpec().ops(SM())), "survey_core": len(CORE),
                                              "experiment": len(ExperimentSpec().ops({}))}}
    ctx.assumptions = ["stations edited behind the survey's back are followed by update_all (documented)",
                       "a station keeps its default position 0,0 until one is set; it counts as located"]
    ex = [("experiment", ()), ("experiment", ("p1", "q1"))]
    if ctx.quick:
        ctx.bounds["reduction"] = "survey: full alphabet length 2, core length 3 merged from 2; experiment: length 2"
        n = bfs(ctx, make, [("survey", 1, False)], 2, 2)
        n += bfs(ctx, make, [("survey", 0, True)], 3, 1)
        n += bfs(ctx, make, ex[1:], 2, 2)
    else:
        ctx.bounds["reduction"] = "survey: full alphabet length 3 merged from 2, core length 4 merged from 3; experiment: length 3 merged from 2"
        n = bfs(ctx, make, [("survey", 0, False), ("survey", 1, False)], 3, 2)
        n += bfs(ctx, make, [("survey", 1, True)], 4, 3)
        n += bfs(ctx, make, ex, 3, 2)
    ctx.counts["histories_per_level"] = n


def replay(data):
    bfs_replay(make, data)
