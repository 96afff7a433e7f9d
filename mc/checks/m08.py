"""Station as a run container vs. an ordered-dictionary reference."""
import copy as _copy

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

DEF = "1980-01-01T00:00:00+00:00"
T = [f"2020-01-0{i}T00:00:00+00:00" for i in range(1, 9)]
# code -> id, start, end, rate, {component: rate}
RUNS = {
    "a1": ("a", T[2], T[4], 1.0, {"ex": 1.0, "hx": 1.0}),
    "a2": ("a", T[1], T[5], 8.0, {"hx": 8.0, "temperature": 0.0}),
    "b1": ("b", DEF, DEF, 4.0, {"ey": 4.0}),
    "c1": ("c", T[0], T[1], 0.0, {}),
    "d1": ("d", T[6], T[7], 2.0, {"hy": 2.0}),
}


def build(code):
    from mt_metadata.timeseries import Run

    rid, s, e, rate, chs = RUNS[code]
    r = Run(id=rid)
    for c, cr in chs.items():
        r.add_channel(c)
        r.get_channel(c).sample_rate = cr
    r.sample_rate = rate
    r.time_period.start = s
    r.time_period.end = e
    return r


def rec(code):
    rid, s, e, rate, chs = RUNS[code]
    return rid, {"start": s, "end": e, "rate": rate, "ch": dict(chs)}


def blank():
    return {"start": DEF, "end": DEF, "rate": None, "ch": {}}


def read(r):
    return {
        "start": str(r.time_period.start),
        "end": str(r.time_period.end),
        "rate": r.sample_rate,
        "ch": {c.component: c.sample_rate for c in r.channels},
    }


class Model:
    def __init__(self):
        self.runs, self.start, self.end, self.id, self.stale = {}, DEF, DEF, "s1", False

    def put(self, rid, at):
        old = self.runs.get(rid)
        if old is None:
            self.runs[rid] = _copy.deepcopy(at)
            return
        for k in ("start", "end"):
            if at[k] != DEF:
                old[k] = at[k]
        old["rate"] = at["rate"] or old["rate"]
        for c, r in at["ch"].items():
            old["ch"][c] = r or old["ch"].get(c, 0.0)

    def refresh(self):
        s = [a["start"] for a in self.runs.values() if a["start"] != DEF]
        e = [a["end"] for a in self.runs.values() if a["end"] != DEF]
        if s:
            self.start = min(s + ([self.start] if self.start != DEF else []))
        if e:
            self.end = max(e + ([self.end] if self.end != DEF else []))
        self.stale = False


class StationSpec(Spec):
    def __init__(self, tf=False, seeds=(), core=False):
        self.tf, self.seeds, self.core = tf, seeds, core
        self.name = "tf station" if tf else "station"

    def fresh(self):
        if self.tf:
            from mt_metadata.transfer_functions.tf import Station
        else:
            from mt_metadata.timeseries import Station
        return Station(id="s1")

    def new(self):
        s, m = self.fresh(), Model()
        for c in self.seeds:
            s.add_run(build(c))
            m.put(*rec(c))
        m.refresh()
        return [s, m]

    def ops(self, m):
        if self.core:
            return [list(o) for o in CORE]
        o = [["add", c] for c in RUNS] + [["add_noupdate", "a2"], ["add_noupdate", "d1"]]
        o += [["remove", r, u] for r in "abd" for u in (True, False)] + [["remove", "nope", True]]
        o += [["merge", True, ["a2", "c1"]], ["merge", False, ["d1", "b1"]], ["merge", True, []]]
        o += [["update", ["a2", "d1"]], ["update", []], ["assign", ["d1", "a1"], "list"], ["assign", ["c1"], "dict"],
              ["assign", ["b1", "a2"], "records"], ["assign", [], "list"]]
        o += [["names", ["x", "y"]], ["sort", True], ["sort", False], ["sorted", True], ["rename", "a", "z"]]
        o += [["channel", "a", "hz"], ["unchannel", "a", "hx"], ["dates", "b", T[3], T[6]], ["dates", "a", T[5], T[7]]]
        o += [["foreign"], ["refresh"], ["copy"], ["reload"], ["construct", ["d1", "a1"]], ["other_field"]]
        return o

    def apply(self, pair, op):
        s, m = pair
        n, got = op[0], ("ok", None)
        if n in ("add", "add_noupdate"):
            r = build(op[1])
            got = outcome(s.add_run, r, n == "add")
            m.put(*rec(op[1]))
            if read(r) != rec(op[1])[1] and read(r) != m.runs[RUNS[op[1]][0]]:
                raise Mismatch("adding a run changes it", str(read(r)))
            if n == "add":
                m.refresh()
            else:
                m.stale = True
        elif n == "remove":
            got = outcome(s.remove_run, op[1], op[2])
            if m.runs.pop(op[1], None) is not None:
                keep = (m.start, m.end)
                m.refresh()
                if not op[2]:
                    m.start, m.end = keep
        elif n == "merge":
            q, mq = self.other(op[2])
            got = outcome(s.merge, q, op[1])
            for rid, at in mq.runs.items():
                m.runs[rid] = _copy.deepcopy(at)
            m.refresh()
            if got[0] == "ok" and op[1] is False and got[1] is not None:
                if got[1] is not s:
                    pair[0] = got[1]
            self.compare(q, mq, "merge changes the other station")
        elif n == "foreign":
            from mt_metadata.timeseries import Run, Survey

            for thing in (Run(id="a"), Survey(id="s"), {"station": {"id": "x"}}, None, [], "a", s.runs):
                for inplace in (True, False):
                    bad = outcome(s.merge, thing, inplace)
                    if bad[0] == "ok" or "TypeError" not in str(bad):
                        raise Mismatch("merging something that is no station is accepted", f"{type(thing)}: {bad}")
        elif n == "update":
            q, mq = self.other(op[1])
            got = outcome(s.update, q)
            self.compare(q, mq, "update changes the other station")
            s.update_all()
            for rid, at in mq.runs.items():
                m.put(rid, at)
            m.refresh()
            for f in ("start", "end"):
                if getattr(mq, f) != DEF:
                    setattr(m, f, getattr(mq, f))
            m.refresh()
        elif n == "assign":
            runs = [build(c) for c in op[1]]
            val = {"list": lambda: runs, "dict": lambda: {r.id: r for r in runs},
                   "records": lambda: [dict(id=rec(c)[0], sample_rate=rec(c)[1]["rate"], **{
                       "time_period.start": rec(c)[1]["start"], "time_period.end": rec(c)[1]["end"]}) for c in op[1]]}[op[2]]()
            got = outcome(setattr, s, "runs", val)
            m.runs = dict(rec(c) for c in op[1])
            if op[2] == "records":
                for a in m.runs.values():
                    a["ch"] = {}
            s.update_all()
            m.refresh()
        elif n == "construct":
            runs = [build(c) for c in op[1]]
            q = type(s)(id="s1", runs=runs)
            q.update_all()
            m2 = Model()
            m2.runs = dict(rec(c) for c in op[1])
            m2.refresh()
            return [q, m2]
        elif n == "names":
            if not m.runs:
                got = outcome(setattr, s, "run_list", list(op[1]))
                for r in op[1]:
                    m.runs[r] = blank()
                m.refresh()
        elif n in ("sort", "sorted"):
            asc = op[1]
            order = sorted(m.runs, key=lambda r: m.runs[r]["start"])
            if len({a["start"] for a in m.runs.values()}) < len(m.runs):
                return pair  # ties: no order is promised
            if not asc:
                order.reverse()
            got = outcome(s.sort_runs_by_time, n == "sort", asc)
            if n == "sort":
                m.runs = {r: m.runs[r] for r in order}
                if not m.stale:
                    pass
                s.update_all()
                m.refresh()
            elif got[0] == "ok" and got[1].keys() != order:
                raise Mismatch("sorted runs", f"{got[1].keys()} {order}")
        elif n == "rename":
            if op[1] in m.runs and op[2] not in m.runs:
                s.get_run(op[1]).id = op[2]
                got = outcome(s.update_run_keys)
                if got != ("ok", {op[1]: op[2]}):
                    raise Mismatch("rename mapping", str(got))
                s.update_all()
                m.runs = {(op[2] if k == op[1] else k): v for k, v in m.runs.items()}
                m.refresh()
        elif n in ("channel", "unchannel", "dates"):
            if op[1] in m.runs:
                r = s.get_run(op[1])
                if n == "channel":
                    r.add_channel(op[2])
                    m.runs[op[1]]["ch"].setdefault(op[2], 0.0)
                elif n == "unchannel":
                    r.remove_channel(op[2])
                    m.runs[op[1]]["ch"].pop(op[2], None)
                else:
                    r.time_period.start, r.time_period.end = op[2], op[3]
                    m.runs[op[1]].update(start=op[2], end=op[3])
                s.update_all()
                m.refresh()
        elif n == "refresh":
            got = outcome(s.update_all)
            m.refresh()
        elif n == "other_field":
            s.geographic_name = "somewhere"
        elif n == "copy":
            q = s.copy()
            for r in s.runs:
                r.sample_rate = 999.0
                r.time_period.start = T[0]
                r.add_channel("bz")
            for rid in list(m.runs):
                s.remove_run(rid)
            s.add_run(build("d1"))
            s.time_period.end = DEF
            pair[0] = q
        elif n == "reload":
            q = self.fresh()
            s.update_all()
            m.refresh()
            got = outcome(q.from_dict, s.to_dict())
            if got[0] == "ok":
                if list(q.run_list) != list(m.runs) or q.runs.keys() != list(m.runs):
                    raise Mismatch("runs after reload", f"{q.run_list} {q.runs.keys()} {list(m.runs)}")
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def other(self, codes):
        q, mq = self.fresh(), Model()
        for c in codes:
            q.add_run(build(c))
            mq.put(*rec(c))
        mq.refresh()
        return q, mq

    def compare(self, s, m, what):
        def chk(name, got, want):
            if got != want:
                raise Mismatch(f"{what}: {name}", f"got {got!r} expected {want!r}")

        names = list(m.runs)
        chk("run names", list(s.runs.keys()), names)
        chk("count", (s.n_runs, len(s.runs), len(list(s.runs))), (len(names),) * 3)
        for i, rid in enumerate(names):
            chk("has", s.has_run(rid), True)
            chk("index", s.run_index(rid), i)
            r = s.get_run(rid)
            chk("lookup", getattr(r, "id", None), rid)
            want = m.runs[rid]
            have = read(r)
            if want["rate"] is None:
                want = dict(want, rate=have["rate"])
            chk("run content", have, want)
        for rid in ("a", "b", "c", "d", "z", "x", "nope"):
            if rid not in m.runs:
                chk("has absent", s.has_run(rid), False)
                chk("lookup absent", s.get_run(rid), None)
                chk("index absent", s.run_index(rid), None)
        if not m.stale:
            chk("run list", list(s.run_list), names)
            chk("channels recorded", list(s.channels_recorded), sorted({c for a in m.runs.values() for c in a["ch"]}))
        chk("time span", (str(s.time_period.start), str(s.time_period.end)), (m.start, m.end))
        chk("id", s.id, m.id)

    def observe(self, pair):
        self.compare(pair[0], pair[1], "state")
        m = pair[1]
        return (m.start, m.end, m.stale, [(r, a["start"], a["end"], a["rate"], sorted(a["ch"].items())) for r, a in m.runs.items()])


CORE = [["add", "a1"], ["add", "a2"], ["add", "b1"], ["add", "d1"], ["add_noupdate", "d1"], ["remove", "a", True], ["remove", "d", False],
        ["merge", True, ["a2", "c1"]], ["update", ["a2", "d1"]], ["assign", ["d1", "a1"], "list"], ["sort", False],
        ["rename", "a", "z"], ["unchannel", "a", "hx"], ["dates", "b", T[3], T[6]], ["copy"], ["other_field"]]


def make(p):
    return StationSpec(*p)


def run(ctx):
    seeds = [(), ("a1", "b1", "d1")]
    ctx.bounds = {"starting_contents": [list(s) for s in seeds], "full_alphabet": len(StationSpec().ops(Model())),
                  "core_alphabet": len(CORE), "classes": ["timeseries.Station", "transfer_functions.tf.Station"]}
    ctx.assumptions = ["runs edited behind the station's back are followed by update_all (documented)"]
    full = [(tf, s, False) for tf in (False, True) for s in seeds]
    if ctx.quick:
        ctx.bounds["reduction"] = "full alphabet length 1 (both classes), 2 (time series); core alphabet length 3 merged from 2"
        n = bfs(ctx, make, full[2:], 1, 1)
        n += bfs(ctx, make, full[:2], 2, 2)
        n += bfs(ctx, make, [(False, seeds[1], True)], 3, 2)
    else:
        ctx.bounds["reduction"] = "full alphabet length 2 unmerged, 3 merged from 2; core alphabet length 4 merged from 3"
        n = bfs(ctx, make, full, 3, 2)
        n += bfs(ctx, make, [(False, seeds[0], True), (True, seeds[1], True)], 4, 3)
    ctx.counts["histories_per_level"] = n


def replay(data):
    data["param"][1] = tuple(data["param"][1])
    bfs_replay(make, data)
