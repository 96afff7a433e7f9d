"""Run as a channel container vs. an ordered-dictionary reference."""
import copy as _copy

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

DEF = "1980-01-01T00:00:00+00:00"
T = [f"2020-01-0{i}T00:00:00+00:00" for i in range(1, 8)]
BLANK = {"rate": 0.0, "az": 0.0, "start": DEF, "end": DEF, "number": 0}


def kind(c):
    return {"e": "electric", "h": "magnetic", "b": "magnetic"}.get(c[0], "auxiliary")


# component code -> attributes; a history only uses these
OBJ = {
    "ex1": ("ex", dict(rate=1.0, start=T[2], end=T[4], number=1)),
    "ex2": ("ex", dict(rate=8.0, az=10.0)),
    "ex3": ("ex", dict(start=T[1], end=T[3], number=7)),
    "ey1": ("ey", dict(rate=1.0, az=90.0, start=T[0], end=T[1])),
    "hx1": ("hx", dict(rate=4.0, start=T[3], end=T[6])),
    "by1": ("by", dict(az=90.0, number=4)),
    "tp1": ("temperature", dict(rate=1.0, start=T[1], end=T[5])),
}


def build(code):
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic

    comp, at = OBJ[code]
    cls = {"electric": Electric, "magnetic": Magnetic, "auxiliary": Auxiliary}[kind(comp)]
    c = cls(component=comp)
    return put(c, at)


def put(c, at):
    for k, v in at.items():
        if k == "rate":
            c.sample_rate = v
        elif k == "az":
            c.measurement_azimuth = v
        elif k == "number":
            c.channel_number = v
        else:
            setattr(c.time_period, k, v)
    return c


def read(c):
    return {
        "rate": c.sample_rate,
        "az": c.measurement_azimuth,
        "start": str(c.time_period.start),
        "end": str(c.time_period.end),
        "number": c.channel_number,
    }


def model_of(code):
    comp, at = OBJ[code]
    return comp, {**BLANK, **at}


class Model:
    def __init__(self):
        self.ch = {}  # insertion ordered
        self.start = DEF
        self.end = DEF
        self.id = "r1"

    def add(self, comp, at, update=True):
        if comp in self.ch:
            for k, v in at.items():
                if v not in (0, 0.0, DEF, None):
                    self.ch[comp][k] = v
        else:
            self.ch[comp] = dict(at)
        if update:
            self.refresh()

    def refresh(self):
        s = [a["start"] for a in self.ch.values() if a["start"] != DEF]
        e = [a["end"] for a in self.ch.values() if a["end"] != DEF]
        if s:
            self.start = min(s + ([self.start] if self.start != DEF else []))
        if e:
            self.end = max(e + ([self.end] if self.end != DEF else []))

    def of(self, k):
        return sorted(c for c in self.ch if kind(c) == k)


class RunSpec(Spec):
    name = "run"

    def __init__(self, seeds=(), core_only=False):
        self.seeds = seeds
        self.core_only = core_only

    def new(self):
        from mt_metadata.timeseries import Run

        r, m = Run(id="r1"), Model()
        for code in self.seeds:
            r.add_channel(build(code))
            m.add(*model_of(code))
        return [r, m]

    def ops(self, m):
        if self.core_only:
            return [list(x) for x in CORE]
        o = [["add", c] for c in OBJ]
        o += [["add_noupdate", "hx1"], ["add_str", "ex"], ["add_str", "Hy"], ["add_str", "volts"]]
        o += [["add_dict", "ey1", True], ["add_dict", "hx1", False]]
        o += [["remove", c] for c in ("ex", "hx", "temperature", "nope")]
        o += [["merge", True, ["ey1", "ex2"]], ["merge", False, ["ex3", "by1"]]]
        o += [["update", ["ex2", "hx1"]], ["names", ["ey", "ez"]], ["assign", ["by1", "ey1"]], ["assign", []]]
        o += [["rename", "ex", "e1"], ["copy"], ["edit", "ex", "rate", 16.0], ["edit", "hx", "end", T[6]], ["refresh"]]
        o += [["reload"], ["construct", ["ex1", "hx1"]]]
        return o

    def other(self, codes):
        from mt_metadata.timeseries import Run

        q, mq = Run(id="r2"), Model()
        mq.id = "r2"
        for c in codes:
            q.add_channel(build(c))
            mq.add(*model_of(c))
        return q, mq

    def apply(self, pair, op):
        from mt_metadata.timeseries import Run

        r, m = pair
        n = op[0]
        got = ("ok", None)
        if n in ("add", "add_noupdate"):
            up = n == "add"
            src = build(op[1])
            got = outcome(r.add_channel, src, up)
            m.add(*model_of(op[1]), update=up)
            self.same_source(src, op[1])
        elif n == "add_str":
            got = outcome(r.add_channel, op[1])
            m.add(op[1].lower(), dict(BLANK))
        elif n == "add_dict":
            comp, at = OBJ[op[1]]
            d = {"component": comp, "sample_rate": at.get("rate", 0.0)}
            if op[2]:
                d["type"] = kind(comp)
            keep = dict(d)
            got = outcome(r.add_channel, d)
            if {k: v for k, v in d.items() if k in keep} != keep:
                raise Mismatch("adding a dictionary changes it", f"{keep} -> {d}")
            m.add(comp, {**BLANK, "rate": at.get("rate", 0.0)})
        elif n == "remove":
            got = outcome(r.remove_channel, op[1])
            m.ch.pop(op[1], None)
        elif n == "merge":
            q, mq = self.other(op[2])
            merged = _copy.deepcopy(m)
            for c, at in mq.ch.items():
                merged.ch[c] = dict(at)
            got = outcome(r.merge, q, op[1])
            if got[0] != "ok":
                raise Mismatch("merge raises", str(got))
            self.compare(q, mq, "merge changes the other run")
            if op[1]:
                merged.refresh()
                pair[1] = merged
            else:
                self.compare(r, m, "merge(inplace=False) changes the run")
                if not isinstance(got[1], Run):
                    raise Mismatch("merge(inplace=False) result", repr(got[1])[:80])
                pair[0], pair[1] = got[1], merged
            return pair
        elif n == "update":
            q, mq = self.other(op[1])
            got = outcome(r.update, q)
            m.id = mq.id
            for f in ("start", "end"):
                if getattr(mq, f) != DEF:
                    setattr(m, f, getattr(mq, f))
            had = dict(m.ch)
            for c, at in mq.ch.items():
                m.add(c, at, update=False)
            m.refresh()
            # channels that the other run names are created in the order of kinds
            new = [c for k in ("auxiliary", "electric", "magnetic") for c in mq.of(k) if c not in had]
            m.ch = {**{c: m.ch[c] for c in had}, **{c: m.ch[c] for c in new}}
            self.compare(q, mq, "update changes the other run")
        elif n == "names":
            got = outcome(setattr, r, "channels_recorded_electric", list(op[1]))
            for c in op[1]:
                m.add(c, dict(BLANK)) if c not in m.ch else None
        elif n == "assign":
            got = outcome(setattr, r, "channels", [build(c) for c in op[1]])
            m.ch = dict(model_of(c) for c in op[1])
        elif n == "construct":
            r2 = Run(id="r1", channels=[build(c) for c in op[1]])
            m2 = Model()
            m2.ch = dict(model_of(c) for c in op[1])
            return [r2, m2]
        elif n == "rename":
            if op[1] in m.ch and op[2] not in m.ch:
                r.channels[op[1]].component = op[2]
                got = outcome(r.update_channel_keys)
                if got != ("ok", {op[1]: op[2]}):
                    raise Mismatch("rename mapping", str(got))
                m.ch = {(op[2] if k == op[1] else k): v for k, v in m.ch.items()}
        elif n == "edit":
            if op[1] in m.ch:
                put(r.get_channel(op[1]), {op[2]: op[3]})
                m.ch[op[1]][op[2]] = op[3]
        elif n == "refresh":
            got = outcome(r.update_time_period)
            m.refresh()
        elif n == "copy":
            c = r.copy()
            for ch in r.channels:
                ch.sample_rate = 999.0
                ch.time_period.start = T[0]
            r.add_channel("hq")
            for k in list(m.ch):
                r.remove_channel(k)
            r.time_period.start = DEF
            pair[0] = c
            return pair
        elif n == "reload":
            q = Run()
            d = r.to_dict()
            got = outcome(q.from_dict, d)
            if got[0] == "ok":
                for k in ("electric", "magnetic", "auxiliary"):
                    if getattr(q, f"channels_recorded_{k}") != m.of(k):
                        raise Mismatch("recorded lists after reload", f"{k} {q.channels.keys()} {list(m.ch)}")
                if sorted(q.channels.keys()) != sorted(m.ch):
                    raise Mismatch("channels after reload", f"{q.channels.keys()} {list(m.ch)}")
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def same_source(self, src, code):
        comp, at = model_of(code)
        if src.component != comp:
            raise Mismatch("adding a channel changes it", f"{src.component}")

    def compare(self, r, m, what):
        def chk(name, got, want):
            if got != want:
                raise Mismatch(f"{what}: {name}", f"got {got!r} expected {want!r}")

        names = list(m.ch)
        chk("channel names", r.channels.keys(), names)
        chk("count", (r.n_channels, len(r.channels)), (len(names),) * 2)
        for k in ("electric", "magnetic", "auxiliary"):
            chk(f"recorded {k}", list(getattr(r, f"channels_recorded_{k}")), m.of(k))
        chk("recorded all", r.channels_recorded_all, sorted(names))
        for i, c in enumerate(sorted(names)):
            chk("has", r.has_channel(c), True)
            chk("index", r.channel_index(c), i)
            ch = r.get_channel(c)
            chk("lookup component", getattr(ch, "component", None), c)
            chk("lookup kind", ch.type, kind(c) if kind(c) != "auxiliary" else ch.type)
            chk("lookup class", type(ch).__name__.lower(), kind(c))
            chk(f"content", read(ch), m.ch[c])
        for c in ("nope", "ex", "hx", "ey", "e1", "hq", "ez"):
            if c not in m.ch:
                chk("has absent", r.has_channel(c), False)
                chk("lookup absent", r.get_channel(c), None)
                chk("index absent", r.channel_index(c), None)
        chk("time span", (str(r.time_period.start), str(r.time_period.end)), (m.start, m.end))
        chk("id", r.id, m.id)

    def observe(self, pair):
        self.compare(pair[0], pair[1], "state")
        m = pair[1]
        return (m.id, m.start, m.end, [(c, sorted(a.items())) for c, a in m.ch.items()])


CORE = [["add", "ex1"], ["add", "ex2"], ["add", "ey1"], ["add_str", "Hy"], ["add_dict", "hx1", False],
        ["remove", "ex"], ["remove", "hx"], ["merge", True, ["ey1", "ex2"]], ["merge", False, ["ex3", "by1"]],
        ["update", ["ex2", "hx1"]], ["names", ["ey", "ez"]], ["assign", ["by1", "ey1"]],
        ["rename", "ex", "e1"], ["copy"], ["edit", "hx", "end", T[6]], ["refresh"]]
SEEDS = [(), ("ex1", "hx1", "tp1")]


def make(p):
    return RunSpec(SEEDS[p[0]], p[1])


def run(ctx):
    ctx.bounds = {"starting_contents": [list(s) for s in SEEDS],
                  "full_alphabet": len(RunSpec().ops(Model())), "core_alphabet": len(CORE)}
    ctx.assumptions = ["a channel renamed in place is followed by update_channel_keys (documented)"]
    full, core = [(0, False), (1, False)], [(0, True), (1, True)]
    if ctx.quick:
        ctx.bounds["reduction"] = "full alphabet length 2 unmerged; core alphabet length 3, merged from length 2"
        n = bfs(ctx, make, full, 2, 2)
        n += bfs(ctx, make, core[1:], 3, 2)
    else:
        ctx.bounds["reduction"] = "full alphabet length 3 unmerged; core alphabet length 4, merged from length 3"
        n = bfs(ctx, make, full, 3, 3)
        n += bfs(ctx, make, core, 4, 3)
    ctx.counts["histories_per_level"] = n


def replay(data):
    bfs_replay(make, data)
