"""Fourier-coefficient containers (levels of channels) vs. an ordered-dictionary reference; level series."""
import itertools

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

DEF = "1980-01-01T00:00:00+00:00"
T = [f"2020-01-0{i}T00:00:00+00:00" for i in range(1, 8)]
BLANK = dict(fmax=0.0, fmin=0.0, rate=1.0, step=1.0, start=DEF, end=DEF)
NULL = (None, 0.0, DEF)

# channel code -> (component, attributes)
CH = {
    "ex1": ("ex", dict(fmax=8.0, rate=16.0, start=T[2], end=T[4])),
    "ex2": ("ex", dict(fmin=0.5, rate=4.0, start=T[1], end=T[3])),
    "hy1": ("hy", dict(fmax=2.0, start=T[3], end=T[5])),
    "hy2": ("hy", dict(step=0.25)),
    "hz1": ("hz", dict(end=T[6])),
    "bx1": ("bx", dict(start=T[0])),
}
ATTR = dict(fmax="frequency_max", fmin="frequency_min", rate="sample_rate_decimation_level", step="sample_rate_window_step")
# level code -> (level name, channel codes, own dates, sample rate)
LV = {
    "a1": ("0", ["ex1", "hy1"], None, 16.0),
    "a2": ("0", ["ex2", "hz1"], (T[3], T[4]), 8.0),
    "b1": ("1", ["hy2"], (T[2], T[5]), 4.0),
    "b2": ("1", ["bx1"], None, 2.0),
    "c1": ("10", [], (T[1], T[6]), 1.0),
    "d1": ("deep", ["hz1"], (DEF, T[3]), 0.5),
}


def chan(code, sub=None):
    from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel

    comp, at = CH[code]
    c = FCChannel(component=comp)
    put(c, at)
    return c


def put(c, at):
    for k, v in at.items():
        if k in ATTR:
            setattr(c, ATTR[k], v)
        else:
            setattr(c.time_period, k, v)


def read(c):
    d = {k: getattr(c, n) for k, n in ATTR.items()}
    d.update(start=str(c.time_period.start), end=str(c.time_period.end))
    return d


class Span:
    def __init__(self, start=DEF, end=DEF):
        self.start, self.end = start, end

    def widen(self, spans):
        s = [x[0] for x in spans if x[0] != DEF] + ([self.start] if self.start != DEF else [])
        e = [x[1] for x in spans if x[1] != DEF] + ([self.end] if self.end != DEF else [])
        if s:
            self.start = min(s)
        if e:
            self.end = max(e)

    def pair(self):
        return (self.start, self.end)


class MLevel(Span):
    """reference of one level"""

    def __init__(self, name="0", rate=1.0, start=DEF, end=DEF):
        super().__init__(start, end)
        self.name, self.rate, self.ch = name, rate, {}

    def add(self, comp, at):
        if comp in self.ch:
            self.ch[comp].update({k: v for k, v in at.items() if v not in NULL})
        else:
            self.ch[comp] = dict(at)
        self.refresh()

    def refresh(self):
        self.widen([(a["start"], a["end"]) for a in self.ch.values()])

    def update(self, o):
        self.name, self.rate = o.name, o.rate
        for f in ("start", "end"):
            if getattr(o, f) != DEF:
                setattr(self, f, getattr(o, f))
        for c, a in o.ch.items():
            self.add(c, a)
        self.refresh() if o.ch else None

    def key(self):
        return (self.name, self.rate, self.pair(), [(c, sorted(a.items())) for c, a in sorted(self.ch.items())])


def full(code):
    comp, at = CH[code]
    return comp, {**BLANK, **at}


def build_level(code):
    """a level filled channel by channel; any later assignment makes its name list follow"""
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation

    name, chs, span, rate = LV[code]
    d = Decimation(id=name)
    d.time_series_decimation.sample_rate = rate
    m = MLevel(name, rate)
    if span:
        d.time_period.start, d.time_period.end = span
        m.start, m.end = span
    for c in chs:
        d.add_channel(chan(c))
        m.add(*full(c))
    sync(d)
    return d, m


def sync(d):
    d.id = d.id


def chk(what, name, got, want):
    if got != want:
        raise Mismatch(f"{what}: {name}", f"got {got!r} expected {want!r}")


def compare_level(d, m, what, strict=True):
    names = sorted(m.ch)
    chk(what, "level id", d.id, m.name)
    chk(what, "channel names", sorted(d.channels.keys()), names)
    chk(what, "estimated channels", sorted(d.channels_estimated), names)
    chk(what, "number of channels", (d.n_channels, len(d.channels)), (len(names),) * 2)
    order = list(d.channels_estimated)
    for c in names:
        chk(what, "has channel", d.has_channel(c), True)
        chk(what, "index of channel", d.channel_index(c), order.index(c))
        ch = d.get_channel(c)
        chk(what, "channel by its name", getattr(ch, "component", None), c)
        chk(what, "content of channel", read(ch), m.ch[c])
        chk(what, "stored channel", d.channels[c] is ch, True)
    for c in ("ex", "hy", "hz", "bx", "nope"):
        if c not in m.ch:
            chk(what, "has absent channel", d.has_channel(c), False)
            chk(what, "absent channel by its name", d.get_channel(c), None)
            chk(what, "index of absent channel", d.channel_index(c), None)
    chk(what, "time span of level", (str(d.time_period.start), str(d.time_period.end)), m.pair())
    chk(what, "sample rate of level", d.time_series_decimation.sample_rate, m.rate)


REFUSED = [("channels", 5), ("channels", 2.5), ("channels", ["ex"]), ("channels", [None]), ("channels", {"ex": 3}),
           ("channels_estimated", "ex"), ("channels_estimated", [1]), ("channels_estimated", ["ex", None]),
           ("channels_estimated", {"ex": 1}), ("short_time_fourier_transform", {"method": "fft"}),
           ("short_time_fourier_transform", None), ("add", "ex"), ("add", 4)]


class LevelSpec(Spec):
    name = "level"

    def __init__(self, seed=None):
        self.seed = seed

    def new(self):
        from mt_metadata.processing.fourier_coefficients.decimation import Decimation

        if self.seed:
            return list(build_level(self.seed))
        return [Decimation(id="0"), MLevel()]

    def ops(self, m):
        o = [["add", c] for c in CH]
        o += [["remove", c] for c in ("ex", "hy", "bx", "nope")]
        o += [["update", c] for c in ("a2", "b1", "d1")]
        o += [["extend", c] for c in ("a2", "b1")]
        o += [["names", ["ex", "hz"]], ["assign", ["bx1", "hy2"]], ["assign_dict", ["bx1", "ex2"]]]
        o += [["refused", k] for k in range(len(REFUSED))] + [["text", k] for k in ("", "none", "{}", "ListDict()")]
        o += [["edit", "ex", "end", T[6]], ["edit", "hy", "fmax", 9.0], ["refresh"], ["copy"], ["reload"]]
        return o

    def apply(self, pair, op):
        from mt_metadata.common import ListDict
        from mt_metadata.processing.fourier_coefficients.decimation import Decimation

        d, m = pair
        n, got = op[0], ("ok", None)
        if n == "add":
            src = chan(op[1])
            got = outcome(d.add_channel, src)
            m.add(*full(op[1]))
            chk("adding a channel changes it", "content", (src.component, read(src)), full(op[1]))
        elif n == "remove":
            got = outcome(d.remove_channel, op[1])
            m.ch.pop(op[1], None)
            m.refresh()
        elif n == "update":
            q, mq = build_level(op[1])
            got = outcome(d.update, q)
            m.update(mq)
            compare_level(q, mq, "updating changes the other level")
        elif n == "extend":
            q, mq = build_level(op[1])
            got = outcome(d.add, q)
            if got[0] == "ok" and got[1] is not d:
                raise Mismatch("adding two levels gives another object", repr(got[1])[:80])
            for c, a in mq.ch.items():
                m.ch[c] = dict(a)
            compare_level(q, mq, "adding changes the other level")
        elif n == "names":
            got = outcome(setattr, d, "channels_estimated", list(op[1]))
            for c in op[1]:
                if c not in m.ch:
                    m.ch[c] = dict(BLANK)
        elif n in ("assign", "assign_dict"):
            objs = [chan(c) for c in op[1]]
            if n == "assign_dict":
                objs = {o.component: o for o in objs}
            keep = {c: dict(BLANK) for c in m.ch}  # names that stay listed without content
            got = outcome(setattr, d, "channels", objs)
            m.ch = {**keep, **dict(full(c) for c in op[1])}
        elif n == "refused":
            k, val = REFUSED[op[1]]
            r = outcome(d.add_channel, val) if k == "add" else outcome(setattr, d, k, val)
            if r[0] == "ok":
                raise Mismatch(f"{k}: a value that cannot be is accepted", f"{val!r}")
        elif n == "text":  # what an archive holds for no channels
            got = outcome(setattr, d, "channels", op[1])
            m.ch = {c: dict(BLANK) for c in m.ch}
        elif n == "edit":
            if op[1] in m.ch:
                put(d.get_channel(op[1]), {op[2]: op[3]})
                m.ch[op[1]][op[2]] = op[3]
        elif n == "refresh":
            got = outcome(d.update_time_period)
            m.refresh()
        elif n == "copy":
            c = d.copy()
            for ch in d.channels:
                ch.frequency_max = 99.0
                ch.time_period.start = T[0]
            d.time_period.end = T[6]
            for k in list(m.ch):
                d.remove_channel(k)
            pair[0] = d = c
        elif n == "reload":
            q = Decimation()
            got = outcome(q.from_dict, d.to_dict())
            if got[0] == "ok":
                chk("level after reload", "names", (q.id, sorted(q.channels_estimated), sorted(q.channels.keys())),
                    (m.name, sorted(m.ch), sorted(m.ch)))
                chk("level after reload", "time span", (str(q.time_period.start), str(q.time_period.end)), m.pair())
                chk("level after reload", "sample rate", q.time_series_decimation.sample_rate, m.rate)
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        sync(d)
        return pair

    def observe(self, pair):
        compare_level(pair[0], pair[1], "state")
        return pair[1].key()


class MFC(Span):
    def __init__(self):
        super().__init__()
        self.lv = {}

    def refresh(self):
        self.widen([x.pair() for x in self.lv.values()])


class FCSpec(Spec):
    name = "group"

    def __init__(self, seeds=()):
        self.seeds = seeds

    def new(self):
        from mt_metadata.processing.fourier_coefficients.fc import FC

        pair = [FC(id="g"), MFC()]
        for s in self.seeds:
            self.apply(pair, ["add", s])
        return pair

    def ops(self, m):
        o = [["add", c] for c in LV]
        o += [["remove", c] for c in ("0", "1", "10", "nope")]
        o += [["names", ["1", "7"]], ["names_str", "0,10"], ["assign", ["b1", "a2"]], ["assign_dict", ["c1", "b2"]]]
        o += [["inner", "0", "hz1"], ["inner", "1", "ex1"], ["drop", "0", "ex"], ["span", "1", T[0], T[6]],
              ["refresh"], ["copy"], ["reload"]]
        return o

    def apply(self, pair, op):
        from mt_metadata.processing.fourier_coefficients.fc import FC

        f, m = pair
        n, got = op[0], ("ok", None)
        if n == "add":
            d, md = build_level(op[1])
            got = outcome(f.add_decimation_level, d)
            if md.name in m.lv:
                compare_level(d, md, "adding a level changes it")
                m.lv[md.name].update(md)
            else:
                m.lv[md.name] = md
            m.refresh()
        elif n == "remove":
            got = outcome(f.remove_decimation_level, op[1])
            m.lv.pop(op[1], None)
            m.refresh()
        elif n in ("names", "names_str"):
            names = op[1].split(",") if n == "names_str" else list(op[1])
            got = outcome(setattr, f, "decimation_levels", op[1] if n == "names_str" else list(names))
            for x in names:
                m.lv.setdefault(x, MLevel(x))
        elif n in ("assign", "assign_dict"):
            built = [build_level(c) for c in op[1]]
            objs = [b[0] for b in built]
            if n == "assign_dict":
                objs = {o.id: o for o in objs}
            keep = {k: MLevel(k) for k in m.lv}
            got = outcome(setattr, f, "levels", objs)
            m.lv = {**keep, **{b[1].name: b[1] for b in built}}
        elif n == "inner":
            if op[1] in m.lv:
                lv = f.get_decimation_level(op[1])
                got = outcome(lv.add_channel, chan(op[2]))
                m.lv[op[1]].add(*full(op[2]))
        elif n == "drop":
            if op[1] in m.lv:
                got = outcome(f.get_decimation_level(op[1]).remove_channel, op[2])
                m.lv[op[1]].ch.pop(op[2], None)
                m.lv[op[1]].refresh()
        elif n == "span":
            if op[1] in m.lv:
                lv = f.get_decimation_level(op[1])
                lv.time_period.start, lv.time_period.end = op[2], op[3]
                m.lv[op[1]].start, m.lv[op[1]].end = op[2], op[3]
        elif n == "refresh":
            got = outcome(f.update_time_period)
            m.refresh()
        elif n == "copy":
            c = f.copy()
            for lv in f.levels:
                lv.time_series_decimation.sample_rate = 99.0
                lv.time_period.start = T[0]
                lv.add_channel(chan("bx1"))
            for k in list(m.lv):
                f.remove_decimation_level(k)
            f.time_period.end = T[6]
            pair[0] = f = c
        elif n == "reload":
            q = FC()
            got = outcome(q.from_dict, f.to_dict())
            if got[0] == "ok":
                chk("group after reload", "names", (q.id, sorted(q.decimation_levels), sorted(q.levels.keys())),
                    ("g", sorted(m.lv), sorted(m.lv)))
                chk("group after reload", "time span", (str(q.time_period.start), str(q.time_period.end)), m.pair())
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        for lv in f.levels:
            sync(lv)
        f.id = f.id
        return pair

    def observe(self, pair):
        f, m = pair
        names = sorted(m.lv)
        w = "state"
        chk(w, "level names", sorted(f.levels.keys()), names)
        chk(w, "list of levels", sorted(f.decimation_levels), names)
        chk(w, "number of levels", (f.n_decimation_levels, len(f.levels)), (len(names),) * 2)
        for c in names:
            chk(w, "has level", f.has_decimation_level(c), True)
            lv = f.get_decimation_level(c)
            chk(w, "level by its name", lv is f.levels[c], True)
            chk(w, "index of level", f.decimation_level_index(c), f.levels.keys().index(c))
            chk(w, "level at its index", f.levels[f.decimation_level_index(c)] is lv, True)
            compare_level(lv, m.lv[c], "level of the group")
        for c in ("0", "1", "10", "7", "deep", "nope"):
            if c not in m.lv:
                chk(w, "has absent level", f.has_decimation_level(c), False)
                chk(w, "absent level by its name", f.get_decimation_level(c), None)
                chk(w, "index of absent level", f.decimation_level_index(c), None)
        chk(w, "time span of group", (str(f.time_period.start), str(f.time_period.end)), m.pair())
        return (m.pair(), [m.lv[k].key() for k in names])


LSEED = [None, "a1"]
FSEED = [(), ("a1", "b1")]


def make(p):
    return LevelSpec(LSEED[p[1]]) if p[0] == "level" else FCSpec(FSEED[p[1]])


# ---- series of levels --------------------------------------------------------------------------
def factor_lists(quick):
    opts = [1, 2, 4, 2.5]
    out = []
    for n in range(1, 4 if quick else 6):
        out += [list(x) for x in itertools.product(opts, repeat=n)]
    return out


def job_series(part, item):
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator, get_degenerate_fc_decimation

    for rate, factors, maxl, dated in item:
        rep = {"series": [rate, factors, maxl, dated]}
        part.state(("series", rate, factors, maxl, dated))
        part.traces += 1

        def bad(kind, d):
            part.violation(kind, f"{rep['series']}: {d}", rep)

        tp = TimePeriod(start=T[1], end=T[2]) if dated else None
        kw = {"time_period": tp} if dated else {}
        if maxl is not None:
            kw["max_levels"] = maxl
        keep = list(factors) if factors else factors
        got = outcome(fc_decimations_creator, rate, factors, **kw)
        if got[0] != "ok":
            bad("a series of levels is refused", str(got))
            continue
        if factors != keep:
            bad("making a series changes the list of factors", str(factors))
        lv = got[1]
        fac = factors if factors else [1] + [4] * ((maxl or 6) - 1)
        if [x.id for x in lv] != [str(i) for i in range(len(fac))] or [
                x.time_series_decimation.level for x in lv] != list(range(len(fac))):
            bad("names of a series of levels", str([x.id for x in lv]))
            continue
        want = rate
        for i, x in enumerate(lv):
            part.transitions += 1
            if i:
                want = want / fac[i]
            if x.time_series_decimation.factor != fac[i]:
                bad("factor of a level", f"{i} {x.time_series_decimation.factor}")
            if abs(x.time_series_decimation.sample_rate - want) > 1e-9 * want:
                bad("sample rate of a level", f"{i} {x.time_series_decimation.sample_rate} expected {want}")
            if dated and (str(x.time_period.start), str(x.time_period.end)) != (T[1], T[2]):
                bad("time span of a new level", f"{i} {x.time_period}")
        # the levels are separate objects
        lv[0].add_channel(chan("ex2"))
        lv[0].time_period.end = T[6]
        for i, x in enumerate(lv[1:]):
            if (str(x.time_period.start), str(x.time_period.end)) != ((T[1], T[2]) if dated else (DEF, DEF)):
                bad("levels of a series share their time span", f"{i + 1}")
            if x.n_channels:
                bad("levels of a series share their channels", f"{i + 1}")
        if dated and (str(tp.start), str(tp.end)) != (T[1], T[2]):
            bad("a level changes the time span it was made from", str(tp))
        if factors == [1] and not dated:
            g = outcome(get_degenerate_fc_decimation, rate)
            if g[0] != "ok" or len(g[1]) != 1 or g[1][0].time_series_decimation.sample_rate != rate:
                bad("single level", str(g))


def series(quick):
    for rate in (1.0, 8192.0, 0.3):
        for dated in (False, True):
            for f in factor_lists(quick):
                yield rate, f, None, dated
            for m in range(1, 9):
                yield rate, None, m, dated
            yield rate, None, None, dated


def fits(n, size, adv):
    """number of windows that fit, placed one by one"""
    k = start = 0
    while start + size <= n:
        k += 1
        start += adv
    return k


def job_fit(part, item):
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation

    for size, overlap, need in item:
        d = Decimation(id="0")
        w = d.stft.window
        w.num_samples, w.overlap = size, overlap
        d.stft.min_num_stft_windows = need
        for n in range(0, size * (need + 2) + 2):
            part.traces += 1
            part.transitions += 1
            got = outcome(d.is_valid_for_time_series_length, n)
            want = fits(n, size, size - overlap) >= need
            if got != ("ok", want):
                part.violation("is the series long enough", f"{n} samples, window {size} overlap {overlap}, {need} needed: {got}",
                               {"fit": [size, overlap, need, n]})
        part.state(("fit", size, overlap, need))
        for rate in (1.0, 0.25, 100.0):
            d.time_series_decimation.sample_rate = rate
            got = outcome(lambda: list(d.fft_frequencies))
            want = [k * rate / size for k in range(size // 2)]
            if got[0] != "ok" or len(got[1]) != len(want) or any(abs(a - b) > 1e-12 * rate for a, b in zip(got[1], want)):
                part.violation("frequencies of a level", f"window {size} rate {rate}: {got} expected {want}",
                               {"fit": [size, overlap, need, rate]})


def run(ctx):
    ctx.bounds = {"level_alphabet": len(LevelSpec().ops(MLevel())), "group_alphabet": len(FCSpec().ops(MFC())),
                  "starting_contents": [LSEED, FSEED]}
    ctx.assumptions = ["the list of estimated names follows the channels at the next assignment to the level "
                       "(the existing tests fix that it does not follow at once)"]
    ps = [("level", i) for i in (0, 1)] + [("group", i) for i in (0, 1)]
    if ctx.quick:
        ctx.bounds["reduction"] = "length 3, merged from length 2"
        n = bfs(ctx, make, ps, 3, 2)
    else:
        ctx.bounds["reduction"] = "length 4, merged from length 3"
        n = bfs(ctx, make, ps, 4, 3)
    s = list(series(ctx.quick))
    ctx.bounds["series"] = len(s)
    ctx.pmap(job_series, [s[i::32] for i in range(32)])
    top = 8 if ctx.quick else 17
    f = [(size, o, need) for size in range(1, top) for o in range(size) for need in range(1, 5)]
    ctx.bounds["windows"] = len(f)
    ctx.pmap(job_fit, [f[i::32] for i in range(32)])
    ctx.counts["histories_per_level"] = n


def replay(data):
    if "history" in data:
        return bfs_replay(make, data)
    from mc.core import Part

    p = Part()
    if "series" in data:
        job_series(p, [tuple(data["series"])])
    else:
        job_fit(p, [tuple(data["fit"][:3])])
    for s, v in p.violations.items():
        print("reproduced:", s, v[0])
