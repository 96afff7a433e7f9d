"""Processing station tables: objects -> table -> objects, every row order, loading over earlier content."""
import itertools

from mc.core import outcome

WINS = [
    ("2020-01-01T00:00:00", "2020-01-01T10:00:00"),
    ("2020-01-01T10:00:00", "2020-01-02T10:00:00.250000"),  # starts where the first ends
    ("2019-12-31T23:59:59.999999", "2020-01-01T00:00:00.000001"),
    ("1999-06-30T12:00:00.500000", "2021-01-01T00:00:00"),
]
CHANS = [(("hx", "hy"), ("ex", "ey", "hz")), (("hx", "hy"), ("ex",)), (("bx", "by"), ("e1", "e2"))]
SCALES = [{}, {"hx": 2.5}, {"hx": 0.001, "ex": -3.0, "ey": 1e6, "bx": 7.0, "e2": 0.5}]
RATES = [1.0, 0.1, 4096.0]
COLS = ["station", "run", "start", "end", "mth5_path", "sample_rate", "input_channels", "output_channels", "remote",
        "channel_scale_factors"]


def run_spec(rid, wins, k):
    """(run id, windows, (inputs, outputs), scale factors, sample rate)"""
    ch = CHANS[k % 3]
    sc = {c: SCALES[(k // 3) % 3].get(c, 1.0) for c in ch[0] + ch[1]}
    return (rid, tuple(wins), ch, tuple(sorted(sc.items())), RATES[k // 2 % 3])


def station_specs(quick):
    """all (windows of run 1, windows of run 2 or none)"""
    one = [(a,) for a in range(4)] + [(a, b) for a, b in itertools.permutations(range(4), 2)]
    if quick:
        one = [(0,), (1,), (0, 1), (3, 2)]
    for w1 in one:
        yield (w1,)
        for w2 in one:
            yield (w1, w2)


def stamp(t):
    from mc import timeref as tr

    d, h = t.split("T")
    y, m, dd = map(int, d.split("-"))
    hh, mi, s = h.split(":")
    ns = round(float("0." + s.split(".")[1]) * 1e9) if "." in s else 0
    return tr.to_ns(y, m, dd, int(hh), int(mi), int(s.split(".")[0]), ns)


def build_station(name, remote, runs, path, how=0):
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.aurora.run import Run
    from mt_metadata.processing.aurora.station import Station

    st = Station(id=name, mth5_path=path, remote=remote)
    for rid, wins, ch, sc, rate in runs:
        tps = [TimePeriod(start=WINS[w][0], end=WINS[w][1]) for w in wins]
        if how == 0:
            r = Run(id=rid, sample_rate=rate, input_channels=list(ch[0]), output_channels=list(ch[1]), time_periods=tps)
            r.set_channel_scale_factors(dict(sc))
        else:
            d = dict(sc)
            r = Run(id=rid)
            r.sample_rate = rate
            r.input_channels = [{"id": c, "scale_factor": d[c]} for c in ch[0]]
            r.output_channels = [{"id": c, "scale_factor": d[c]} for c in ch[1]]
            r.time_periods = [{"start": WINS[w][0], "end": WINS[w][1]} for w in wins]
        st.runs.append(r)
    return st


def build(content, how=0):
    from mt_metadata.processing.aurora.stations import Stations

    x = Stations()
    for k, (name, remote, runs, path) in enumerate(content):
        st = build_station(name, remote, runs, path, how)
        if remote:
            x.add_remote(st)
        else:
            x.local = st
    return x


def content_of(x):
    out = []
    for st in [x.local] + list(x.remote):
        out.append(station_content(st))
    return out


def station_content(st):
    runs = []
    for r in st.runs:
        runs.append((r.id, tuple((stamp(str(tp.start)[:-6]), stamp(str(tp.end)[:-6])) for tp in r.time_periods),
                     (tuple(c.id for c in r.input_channels), tuple(c.id for c in r.output_channels)),
                     tuple(sorted((c.id, c.scale_factor) for c in r.input_channels + r.output_channels)),
                     r.sample_rate))
    return (st.id, bool(st.remote), tuple(runs), str(st.mth5_path))


def expected(content):
    return [(n, rem, tuple((i, tuple((stamp(WINS[w][0]), stamp(WINS[w][1])) for w in ws), ch, sc, rate)
                           for i, ws, ch, sc, rate in runs), p) for n, rem, runs, p in content]


def rows(content):
    out = []
    for n, rem, runs, p in content:
        for i, ws, ch, sc, rate in runs:
            for w in ws:
                out.append((n, i, stamp(WINS[w][0]), stamp(WINS[w][1]), p, rate, ch[0], ch[1], rem, sc))
    return out


def table_rows(df):
    out = []
    for r in df.to_dict("records"):
        out.append((r["station"], r["run"], r["start"].value, r["end"].value, str(r["mth5_path"]), r["sample_rate"],
                    tuple(r["input_channels"]), tuple(r["output_channels"]), bool(r["remote"]),
                    tuple(sorted(r["channel_scale_factors"].items()))))
    return out


def frame(rws, scale=True, tz=True):
    import pandas as pd

    recs = []
    for n, i, s, e, p, rate, ci, co, rem, sc in rws:
        d = dict(zip(COLS, (n, i, pd.Timestamp(s, tz="UTC" if tz else None), pd.Timestamp(e, tz="UTC" if tz else None),
                            p, rate, list(ci), list(co), rem, dict(sc))))
        if not scale:
            d.pop("channel_scale_factors")
        recs.append(d)
    return pd.DataFrame(recs)


def group(rws, scale=True):
    """the objects a table describes: local first, remotes, runs and windows in order of first appearance"""
    st = {}
    for n, i, s, e, p, rate, ci, co, rem, sc in rws:
        runs = st.setdefault(n, (n, rem, {}, p))[2]
        if i not in runs:
            runs[i] = [i, [], (ci, co), sc if scale else tuple((c, 1.0) for c, _ in sc), rate]
        runs[i][1].append((s, e))
    out = [(n, rem, tuple((r[0], tuple(r[1]), r[2], r[3], r[4]) for r in runs.values()), p)
           for n, rem, runs, p in st.values()]
    return [x for x in out if not x[1]] + [x for x in out if x[1]]


def job_round(part, item):
    from mt_metadata.processing.aurora.stations import Stations

    for content, how in item:
        case = {"content": repr(content), "how": how}
        part.state(content)
        part.traces += 1
        part.transitions += 4

        def bad(kind, detail):
            part.violation(kind, f"{case}: {detail}", {"round": repr(content), "how": how})

        x = outcome(build, content, how)
        if x[0] != "ok":
            bad("stations are refused", str(x))
            continue
        x = x[1]
        want = expected(content)
        if content_of(x) != want:
            bad("stations hold other content than given", f"{content_of(x)} expected {want}")
            continue
        t = outcome(x.to_dataset_dataframe)
        if t[0] != "ok":
            bad("no table from the stations", str(t))
            continue
        df = t[1]
        if content_of(x) != want:
            bad("making the table changes the stations", f"{content_of(x)}")
        got = outcome(table_rows, df)
        if got != ("ok", rows(content)):
            bad("rows of the table", f"{got} expected {rows(content)}")
            continue
        if list(df.index) != list(range(len(df))):
            bad("rows of the table are not numbered in order", f"{list(df.index)}")
        before = table_rows(df)
        y = Stations()
        r = outcome(y.from_dataset_dataframe, df)
        if r[0] != "ok" or content_of(y) != want:
            bad("stations from a table", f"{r} {content_of(y) if r[0] == 'ok' else ''} expected {want}")
            continue
        if table_rows(df) != before:
            bad("reading the table changes it", "")
        for n, st in zip([c[0] for c in content], [y.local] + y.remote):
            g = outcome(y.get_station, n)
            if g[0] != "ok" or g[1] is not st:
                bad("a station by its name", f"{n} {g}")
            for rr in st.runs:
                if st.get_run(rr.id) is not rr:
                    bad("a run by its name", f"{n} {rr.id}")
            if st.get_run("no such run") is not None:
                bad("an unknown run is found", n)
            if st.run_list != [rr.id for rr in st.runs]:
                bad("list of runs", f"{st.run_list}")
        if outcome(y.get_station, "no such station")[0] == "ok":
            bad("an unknown station is found", "")
        t2 = outcome(y.to_dataset_dataframe)
        if t2[0] != "ok" or table_rows(t2[1]) != before:
            bad("the second table differs from the first", str(t2))
        z = Stations()
        d = outcome(lambda: z.from_dict(y.to_dict()))
        if d[0] != "ok" or content_of(z) != want:
            bad("stations from a table through a dictionary", f"{d} {content_of(z)} expected {want}")
        j = outcome(lambda: z.from_json(y.to_json()) if hasattr(z, "from_json") else None)
        if j[0] != "ok" or content_of(z) != want:
            bad("stations from a table through JSON", f"{j} {content_of(z)}")
    part.sample(str(item[0])[:300])


def job_rows(part, item, prior):
    """tables with their rows in any order, loaded into a fresh or an already filled object"""
    import numpy as np

    from mt_metadata.processing.aurora.stations import Stations

    for rws, scale, tz, pre in item:
        case = {"rows": repr(rws), "scale": scale, "tz": tz, "prior": pre}
        part.state((rws, scale))
        part.traces += 1
        part.transitions += 2
        want = group(rws, scale)
        df = frame(rws, scale, tz)
        if pre == "index":
            df.index = [5 * k + 3 for k in range(len(df))][::-1]
        x = Stations()
        if pre == "filled":
            x = build(prior, 0)
        elif pre == "twice":
            outcome(x.from_dataset_dataframe, df)
        r = outcome(x.from_dataset_dataframe, df)
        got = content_of(x) if r[0] == "ok" else None
        if got != want:
            part.violation(f"stations from a table with its rows in any order ({pre})" if pre != "index" else
                           "stations from a table with its own index", f"{case}: {r} {got} expected {want}", case)
            continue
        t = outcome(x.to_dataset_dataframe)
        exp = [(n, i, s, e, p, rate, ci, co, rem, sc)
               for n, rem, runs, p in want for i, ws, (ci, co), sc, rate in runs for s, e in ws]
        if t[0] != "ok" or table_rows(t[1]) != exp:
            part.violation("the table of stations read from a table", f"{case}: {t} expected {exp}", case)
    part.sample(str(item[0])[:300])


def run(ctx):
    q = ctx.quick
    sts = list(station_specs(q))
    contents = []

    def station(name, remote, spec, k):
        return (name, remote, tuple(run_spec(f"{j:03d}", w, k + 4 * j) for j, w in enumerate(spec)),
                f"/data/{name}.h5" if k % 2 else "/data/all.h5")

    for k, s in enumerate(sts):
        contents.append((station("mt01", False, s, k),))
        for m, s2 in enumerate(sts):
            if q and (k + m) % 2:
                continue
            contents.append((station("mt01", False, s, k), station("rr02", True, s2, m + 5)))
            if (k + m) % (3 if q else 1) == 0:
                contents.append((station("mt01", False, s, k), station("rr02", True, s2, m + 5),
                                 station("ab03", True, sts[(k * 3 + m) % len(sts)], m + 11)))
    items = [(c, h) for k, c in enumerate(contents) for h in ((0, 1) if not q else (k % 2,))]
    ctx.pmap(job_round, [items[i : i + 20] for i in range(0, len(items), 20)])
    prior = (station("mt09", False, sts[-1], 2), station("rr08", True, sts[0], 3), station("rr02", True, sts[1], 4))
    tabs = []
    small = [c for c in contents if 2 <= len(rows(c)) <= (4 if q else 5)]
    small = small[:: max(1, len(small) // (40 if q else 120))]
    for c in small:
        for k, perm in enumerate(itertools.permutations(rows(c))):
            pre = ("fresh", "filled", "twice", "index")[k % 4]
            tabs.append((perm, k % 5 != 0, k % 3 != 0, pre))
    ctx.pmap(job_rows, [tabs[i : i + 30] for i in range(0, len(tabs), 30)], prior=prior)
    ctx.bounds = {"stations": "1..3", "runs": "1..2 each", "windows": "1..2 each", "contents": len(contents),
                  "row_orders": len(tabs)}
    ctx.assumptions = ["every run has a window and run and station names are unique (a table row is one window)",
                       "exactly one station is local"]


def replay(data):
    from mc.core import Part

    p = Part()
    if "round" in data:
        job_round(p, [(eval(data["round"]), data["how"])])  # a literal written by this check
    else:
        def station(name, remote, w):
            return (name, remote, (run_spec("000", w, 1),), "/data/x.h5")

        prior = (station("mt09", False, (0,)), station("rr08", True, (1,)), station("rr02", True, (0, 1)))
        job_rows(p, [(eval(data["rows"]), data["scale"], data["tz"], data["prior"])], prior)
    return p
