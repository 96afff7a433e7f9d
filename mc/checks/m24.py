"""Processing configurations: level histories, band assignment, archive compatibility, windows."""
import copy as _copy
import itertools

from mc.core import Mismatch, Part, Spec, bfs, bfs_replay, outcome

# level code -> number, factor, rate, window length, overlap, bands (low, high, first harmonic, last harmonic), channels
LV = {
    "l0": dict(number=0, factor=1.0, rate=8.0, nsamp=16, overlap=4,
               bands=[(1.25, 2.25, 3, 4), (0.25, 1.25, 1, 2)], inp=["hx", "hy"], out=["ex", "ey", "hz"], ref=["hx"]),
    "l1": dict(number=1, factor=4.0, rate=2.0, nsamp=32, overlap=8,
               bands=[(0.05, 0.2, 1, 3)], inp=["hx"], out=["ex"], ref=[]),
    "l2": dict(number=2, factor=4.0, rate=0.5, nsamp=8, overlap=0, bands=[], inp=[], out=[], ref=["bx", "by"]),
    "l7": dict(number=7, factor=2.0, rate=0.25, nsamp=16, overlap=15,
               bands=[(0.1, 0.12, 7, 7), (0.02, 0.05, 2, 3), (0.06, 0.09, 4, 5)], inp=["bx", "by"], out=["e1"], ref=["hy"]),
}
BANDS = {"wide": (0.3, 2.0, 1, 5), "high": (3.0, 3.9, 6, 7), "low": (0.01, 0.02, 0, 0)}
NOM = {
    "default": (["hx", "hy"], ["ex", "ey", "hz"]),
    "lemi12": (["bx", "by"], ["e1", "e2", "bz"]),
    "lemi34": (["bx", "by"], ["e3", "e4", "bz"]),
    "musgraves": (["bx", "by"], ["ex", "ey", "bz"]),
    "phoenix123": (["h1", "h2"], ["e1", "e2", "h3"]),
}


def mk_band(b, number, how="obj"):
    from mt_metadata.common.band import Band

    lo, hi, i, j = b
    d = dict(decimation_level=number, frequency_min=lo, frequency_max=hi, index_min=i, index_max=j)
    return Band(**d) if how == "obj" else d


def mk_level(code, how="obj"):
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel

    c = LV[code]
    lv = DecimationLevel()
    lv.decimation.level = c["number"]
    lv.decimation.factor = c["factor"]
    lv.decimation.sample_rate = c["rate"]
    lv.stft.window.num_samples = c["nsamp"]
    lv.stft.window.overlap = c["overlap"]
    lv.input_channels, lv.output_channels, lv.reference_channels = list(c["inp"]), list(c["out"]), list(c["ref"])
    for k, b in enumerate(c["bands"]):
        lv.add_band(mk_band(b, c["number"], ("obj", "dict")[k % 2]))
    return lv if how == "obj" else lv.to_dict()


def m_level(code):
    c = _copy.deepcopy(LV[code])
    c["engine"] = "RME_RR"
    return c


def text(e):
    return str(getattr(e, "value", e))


def chk(what, name, got, want):
    if got != want:
        raise Mismatch(f"{what}: {name}", f"got {got!r} expected {want!r}")


def compare_level(lv, m, what):
    n = m["number"]
    chk(what, "number of level", lv.decimation.level, n)
    chk(what, "factor", lv.decimation.factor, m["factor"])
    if abs(lv.decimation.sample_rate - m["rate"]) > 1e-12 * m["rate"]:
        raise Mismatch(f"{what}: sample rate", f"{n} {lv.decimation.sample_rate} expected {m['rate']}")
    w = lv.stft.window
    chk(what, "window", (w.num_samples, w.overlap, w.num_samples_advance), (m["nsamp"], m["overlap"], m["nsamp"] - m["overlap"]))
    chk(what, "bands", [(b.frequency_min, b.frequency_max, b.index_min, b.index_max, b.decimation_level) for b in lv.bands],
        [tuple(b) + (n,) for b in m["bands"]])
    chk(what, "channels", (list(lv.input_channels), list(lv.output_channels), list(lv.reference_channels)),
        (m["inp"], m["out"], m["ref"]))
    chk(what, "local channels", list(lv.local_channels), m["inp"] + m["out"])
    chk(what, "engine", text(lv.estimator.engine), m["engine"])
    srt = sorted(m["bands"], key=lambda b: b[2])
    chk(what, "band edges", [tuple(map(float, r)) for r in lv.band_edges], [b[:2] for b in srt])
    df = lv.bands_dataframe
    chk(what, "band table", [tuple(r) for r in df[["lower_bound_index", "upper_bound_index", "frequency_min", "frequency_max"]]
                             .itertuples(index=False)], [(b[2], b[3], b[0], b[1]) for b in srt])
    chk(what, "band bounds", ([int(x) for x in lv.lower_bounds], [int(x) for x in lv.upper_bounds]),
        (sorted(b[2] for b in m["bands"]), sorted(b[3] for b in m["bands"])))
    chk(what, "harmonics", [int(x) for x in lv.harmonic_indices],
        sorted(i for b in m["bands"] for i in range(b[2], b[3] + 1)))
    fb = lv.frequency_bands_obj()
    chk(what, "bands as an object", [tuple(map(float, r)) for r in fb.array], [b[:2] for b in srt])
    near(what, "harmonic spacing", [lv.frequency_sample_interval], [m["rate"] / m["nsamp"]])
    near(what, "harmonic frequencies", list(lv.fft_frequencies), [k * m["rate"] / m["nsamp"] for k in range(m["nsamp"] // 2)])


def near(what, name, got, want):
    if len(got) != len(want) or any(abs(a - b) > 1e-12 * max(1e-30, abs(b)) for a, b in zip(got, want)):
        raise Mismatch(f"{what}: {name}", f"got {got} expected {want}")


class Model:
    def __init__(self):
        self.lv = []  # in order
        self.id = "cfg"
        self.nom = "default"
        self.st = ("mt01", ["mt02"])

    def get(self, n):
        for x in self.lv:
            if x["number"] == n:
                return x


def stations(p, remote=True):
    from mt_metadata.processing.aurora.run import Run
    from mt_metadata.processing.aurora.station import Station

    p.stations.local = Station(id="mt01", mth5_path="/a.h5", runs=[Run(id="001", sample_rate=8.0, input_channels=["hx"],
                                                                       output_channels=["ex"])])
    if remote:
        p.stations.add_remote(Station(id="mt02", mth5_path="/b.h5", remote=True, runs=[Run(id="r9", sample_rate=8.0)]))


REFUSED = [("assign", 5), ("assign", None), ("assign", "levels"), ("assign", [5]), ("assign", {0: {"decimation.level": 0}}),
           ("assign", lambda: [mk_level("l1"), "l1"]), ("assign", lambda: {0: mk_level("l0"), 1: 3}), ("add", "l0"), ("add", None),
           ("add", lambda: [mk_level("l7")])]


class ConfigSpec(Spec):
    name = "configuration"

    def __init__(self, seeds=(), remote=True):
        self.seeds, self.remote = seeds, remote

    def new(self):
        from mt_metadata.processing.aurora.processing import Processing

        p, m = Processing(id="cfg"), Model()
        stations(p, self.remote)
        if not self.remote:
            m.st = ("mt01", [])
        for s in self.seeds:
            p.add_decimation_level(mk_level(s))
            m.lv.append(m_level(s))
        return [p, m]

    def ops(self, m):
        o = []
        for c in LV:
            if m.get(LV[c]["number"]) is None:
                o += [["add", c], ["add_dict", c]]
        o += [["assign", k] for k in ("list", "dicts", "mixed", "dict", "single", "construct", "empty")]
        o += [["band", 0, "wide", "obj"], ["band", 1, "high", "dict"], ["band", 0, "low", "dict"], ["band", 7, "high", "obj"]]
        o += [["inputs", ["bx"]], ["outputs", ["e1", "e2"]], ["refs", ["rx", "ry"]], ["drop"]]
        o += [["nomenclature", k] for k in ("lemi12", "phoenix123", "default")] + [["defaults"], ["default_refs"]]
        o += [["refused", k] for k in range(len(REFUSED))] + [["text", k] for k in ("", "None", "[]")]
        o += [["emtf", 100.0], ["validate"], ["edit", 0], ["copy"]]
        o += [["reload", f, r] for f in ("dict", "json", "xml") for r in (True, False)]
        if not any(m.get(n) for n in (0, 1, 2)):
            o += [["bands", [0, 1, 2]], ["bands", [0]]]
        if not m.get(1):
            o += [["bands", [1]]]
        return o

    def apply(self, pair, op):
        from mt_metadata.processing.aurora.processing import Processing

        p, m = pair
        n, got = op[0], ("ok", None)
        if n in ("add", "add_dict"):
            src = mk_level(op[1], "obj" if n == "add" else "dict")
            keep = _copy.deepcopy(src) if n == "add_dict" else None
            got = outcome(p.add_decimation_level, src)
            if n == "add_dict" and src != keep:
                raise Mismatch("adding a dictionary changes it", "")
            m.lv.append(m_level(op[1]))
        elif n == "assign":
            codes = {"list": ["l1", "l0"], "dicts": ["l0", "l2"], "mixed": ["l0", "l1", "l7"], "dict": ["l0", "l2"],
                     "single": ["l1"], "construct": ["l2", "l0"], "empty": []}[op[1]]
            hows = {"dicts": "dict"}
            val = [mk_level(c, hows.get(op[1], "obj")) for c in codes]
            if op[1] == "mixed":
                val[1] = mk_level(codes[1], "dict")
            elif op[1] == "dict":
                val = {v.decimation.level: v for v in val}
            elif op[1] == "single":
                val = val[0]
            if op[1] == "construct":
                p2 = outcome(Processing, id="cfg", decimations=val)
                got = ("ok", None) if p2[0] == "ok" else p2
                if p2[0] == "ok":
                    p = p2[1]
                    stations(p, bool(m.st[1]))
                    pair[0] = p
                m.nom = "default"
            else:
                got = outcome(setattr, p, "decimations", val)
            m.lv = [m_level(c) for c in codes]
        elif n == "band":
            x = m.get(op[1])
            if x is not None:
                got = outcome(p.get_decimation_level(op[1]).add_band, mk_band(BANDS[op[2]], op[1], op[3]))
                if BANDS[op[2]][2] in [b[2] for b in x["bands"]]:
                    return self.new()  # two bands from the same harmonic: order of the table is open
                x["bands"].append(BANDS[op[2]])
        elif n in ("inputs", "outputs", "refs"):
            f = {"inputs": p.set_input_channels, "outputs": p.set_output_channels, "refs": p.set_reference_channels}[n]
            arg = list(op[1])
            got = outcome(f, arg)
            arg.append("zz")  # the caller's list is the caller's
            for x in m.lv:
                x[{"inputs": "inp", "outputs": "out", "refs": "ref"}[n]] = list(op[1])
        elif n == "drop":
            got = outcome(p.drop_reference_channels)
            for x in m.lv:
                x["ref"] = []
        elif n == "nomenclature":
            got = outcome(setattr, p.channel_nomenclature, "keyword", op[1])
            m.nom = op[1]
        elif n == "defaults":
            got = outcome(p.set_default_input_output_channels)
            for x in m.lv:
                x["inp"], x["out"] = (list(v) for v in NOM[m.nom])
        elif n == "default_refs":
            got = outcome(p.set_default_reference_channels)
            for x in m.lv:
                x["ref"] = list(NOM[m.nom][0])
        elif n == "emtf":
            got = outcome(p.assign_decimation_level_data_emtf, op[1])
            for x in m.lv:
                x["factor"] = 4.0 if x["number"] else 1.0
                x["rate"] = op[1] / 4.0 ** x["number"]
        elif n == "refused":
            what, val = REFUSED[op[1]]
            val = val() if callable(val) else val
            r = outcome(setattr, p, "decimations", val) if what == "assign" else outcome(p.add_decimation_level, val)
            if r[0] == "ok" or r[1] not in ("TypeError", "ValidationError"):
                raise Mismatch(f"{what}: not a level, yet not refused", f"{val!r}: {r}")
        elif n == "text":  # what an archive holds for no levels
            got = outcome(setattr, p, "decimations", op[1])
            m.lv = []
        elif n == "validate":
            got = outcome(p.validate_processing, None)
            if not m.st[1]:
                for x in m.lv:
                    x["engine"] = "RME"
        elif n == "edit":
            x = m.get(op[1])
            if x is not None:  # one level is edited, the others stay
                lv = p.get_decimation_level(op[1])
                lv.input_channels.append("hq")
                lv.stft.window.num_samples = 64
                lv.estimator.engine = "RME"
                x["inp"], x["nsamp"], x["engine"] = x["inp"] + ["hq"], 64, "RME"
        elif n == "bands":
            edges = {k: [(0.5 / 4**k, 1.0 / 4**k), (0.1 / 4**k, 0.5 / 4**k)] for k in op[1]}
            keep = _copy.deepcopy(edges)
            fac = {k: 4 if k else 1 for k in op[1]}
            got = outcome(p.assign_bands, edges, 8.0, fac, 64)
            if edges != keep:
                raise Mismatch("assigning bands changes the edges given", "")
            for k in op[1]:
                m.lv.append(assigned(k, edges[k], 8.0 / 4**k, fac[k], 64))
        elif n == "copy":
            c = p.copy()
            for lv in p.decimations:
                lv.input_channels = ["changed"]
                lv.decimation.sample_rate = 77.0
                lv.stft.window.num_samples = 4
                lv.add_band(mk_band((0.001, 0.002, 0, 0), 9))
            p.stations.local.id = "changed"
            p.channel_nomenclature.keyword = "lemi34"
            p.decimations.clear()
            pair[0] = c
        elif n == "reload":
            q = Processing()
            if op[1] == "dict":
                got = outcome(lambda: q.from_dict(p.to_dict(required=op[2])))
            elif op[1] == "json":
                got = outcome(lambda: q.from_json(p.to_json(required=op[2])))
            else:
                got = outcome(lambda: q.from_xml(p.to_xml(required=op[2])))
            pair[0] = q
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def observe(self, pair):
        p, m = pair
        w = "state"
        nums = [x["number"] for x in m.lv]
        chk(w, "number of levels", (p.num_decimation_levels, len(p.decimations)), (len(nums),) * 2)
        chk(w, "order of levels", [d.decimation.level for d in p.decimations], nums)
        chk(w, "levels by number", sorted(p.decimations_dict.keys()), sorted(nums))
        be = p.band_edges_dict
        chk(w, "band edges by number", sorted(be), sorted(nums))
        for x in m.lv:
            lv = p.get_decimation_level(x["number"])
            chk(w, "level by its number", lv is p.decimations[nums.index(x["number"])], True)
            compare_level(lv, x, "level")
            chk(w, "band edges of a level", [tuple(map(float, r)) for r in be[x["number"]]],
                [tuple(b[:2]) for b in sorted(x["bands"], key=lambda b: b[2])])
        for n in (0, 1, 2, 3, 7):
            if n not in nums:
                chk(w, "absent level", outcome(p.get_decimation_level, n)[:2], ("exc", "KeyError"))
        chk(w, "id", p.id, m.id)
        cn = p.channel_nomenclature
        chk(w, "nomenclature", text(cn.keyword), m.nom)
        chk(w, "default channels", (list(cn.default_input_channels), list(cn.default_output_channels),
                                    list(cn.default_reference_channels)), (NOM[m.nom][0], NOM[m.nom][1], NOM[m.nom][0]))
        chk(w, "all channels", sorted(cn.channels), sorted(NOM[m.nom][0] + NOM[m.nom][1]))
        st = p.stations
        chk(w, "stations", (st.local.id, [r.id for r in st.remote], [r.id for r in st.local.runs]), (m.st[0], m.st[1], ["001"]))
        return (m.nom, m.st, m.lv)


def assigned(k, edges, rate, factor, nsamp):
    """a level made from band edges: a band holds the harmonics from its lower edge on, below its upper edge"""
    bands = []
    for lo, hi in edges:
        idx = [i for i in range(nsamp // 2) if lo <= i * rate / nsamp < hi]
        bands.append((lo, hi, idx[0], idx[-1]))
    return dict(number=k, factor=float(factor), rate=rate, nsamp=nsamp, overlap=32, bands=bands, inp=[], out=[], ref=[],
                engine="RME_RR")


SEEDS = [((), True), (("l0",), False), (("l1", "l0"), True)]


def make(p):
    return ConfigSpec(*SEEDS[p])


# ---- assigning bands --------------------------------------------------------------------------------
def job_assign(part, item):
    from mt_metadata.processing.aurora.processing import Processing

    for rate, facs, wins, asdict, style in item:
        n = len(facs)
        rep = {"assign": [rate, facs, wins, asdict, style]}
        part.state(tuple(map(str, rep["assign"])))
        part.traces += 1
        rates = [rate]
        for f in facs[1:]:
            rates.append(rates[-1] / f)
        edges = {}
        for k in range(n):
            nyq, df = rates[k] / 2, rates[k] / wins[k]
            if style == 0:
                e = [(df * 0.75, df * 2.5), (df * 2.5, nyq * 0.9)]
            elif style == 1:  # edges that are harmonics themselves
                e = [(df * 1, df * 3), (df * 3, df * (wins[k] // 2 - 1))]
            else:
                e = [(df * (i - 0.5), df * (i + 0.5)) for i in range(wins[k] // 2 - 1, 0, -1)]
            edges[k] = e
        p = Processing(id="x")
        w = dict(enumerate(wins)) if asdict else wins[0]
        got = outcome(p.assign_bands, edges, rate, dict(enumerate(facs)), w)
        if got[0] != "ok":
            part.violation("bands can not be assigned", f"{rep}: {got}", rep)
            continue
        try:
            chk("assigned", "numbers", [d.decimation.level for d in p.decimations], list(range(n)))
            for k, d in enumerate(p.decimations):
                part.transitions += 1
                if style == 1:
                    check_on_grid(d, edges[k], rates[k], wins[k], facs[k])
                    continue
                m = assigned(k, edges[k], rates[k], facs[k], wins[k])
                compare_level(d, m, "assigned level")
            back = p.band_edges_dict
            for k in edges:
                chk("assigned", "edges", [tuple(map(float, r)) for r in back[k]], sorted(edges[k]))
        except Mismatch as e:
            part.violation(e.sig, f"{rep}: {e.detail}", rep)


def check_on_grid(d, edges, rate, nsamp, factor):
    """edges on the harmonics: the frequencies of the level itself decide what is inside"""
    chk("assigned level", "factor", d.decimation.factor, float(factor))
    near("assigned level", "sample rate", [d.decimation.sample_rate], [rate])
    fr = [float(x) for x in d.fft_frequencies]
    near("assigned level", "harmonic frequencies", fr, [k * rate / nsamp for k in range(nsamp // 2)])
    for b, (lo, hi) in zip(d.bands, edges):
        idx = [i for i, x in enumerate(fr) if lo <= x < hi]
        chk("assigned level", "harmonics of a band", (b.index_min, b.index_max), (idx[0], idx[-1]))


def assigns(quick):
    for rate in (1.0, 8192.0, 0.3):
        for n in range(1, 4 if quick else 5):
            for tail in itertools.product([4, 2, 3.0] if n < 4 else [4, 2], repeat=n - 1):
                facs = [1] + list(tail)
                for wins in ([16] * n, [128] * n, [32, 16, 64, 12][:n]):
                    for asdict in (True, False):
                        if not asdict and len(set(wins)) > 1:
                            continue
                        for style in range(3):
                            yield rate, facs, wins, asdict, style


# ---- compatibility with an archive ------------------------------------------------------------------
def archive_setters():
    """name -> (edit of the archived level, edit of the wanted level), each makes the two differ in one setting"""
    def s(path, value):
        def f(x):
            *a, b = path.split(".")
            for k in a:
                x = getattr(x, k)
            setattr(x, b, value)
        return f

    fc = {
        "sample rate": s("time_series_decimation.sample_rate", 3.0),
        "filter": s("time_series_decimation.anti_alias_filter", "other one"),
        "method": s("short_time_fourier_transform.method", "wavelet"),
        "prewhitening": s("short_time_fourier_transform.prewhitening_type", "other"),
        "recoloring": s("short_time_fourier_transform.recoloring", False),
        "detrend": s("short_time_fourier_transform.pre_fft_detrend_type", "other"),
        "min windows": s("short_time_fourier_transform.min_num_stft_windows", 5),
        "window length": s("short_time_fourier_transform.window.num_samples", 512),
        "window overlap": s("short_time_fourier_transform.window.overlap", 1),
        "window type": s("short_time_fourier_transform.window.type", "hamming"),
        "window clock": s("short_time_fourier_transform.window.clock_zero_type", "user specified"),
        "window normalised": s("short_time_fourier_transform.window.normalized", False),
        "window arguments": s("short_time_fourier_transform.window.additional_args", {"sym": True}),
    }
    want = {
        "sample rate": s("decimation.sample_rate", 5.0),
        "filter": s("decimation.anti_alias_filter", "third one"),
        "method": s("stft.method", "other"),
        "prewhitening": s("stft.prewhitening_type", "other"),
        "recoloring": s("stft.recoloring", False),
        "detrend": s("stft.pre_fft_detrend_type", "other"),
        "min windows": s("stft.min_num_stft_windows", 7),
        "window length": s("stft.window.num_samples", 48),
        "window overlap": s("stft.window.overlap", 3),
        "window type": s("stft.window.type", "hamming"),
        "window clock": s("stft.window.clock_zero_type", "data start"),
        "window normalised": s("stft.window.normalized", False),
        "window arguments": s("stft.window.additional_args", {"beta": 4}),
    }
    same = {"prewhitening", "recoloring", "detrend", "window type", "window normalised"}  # both edits agree
    return fc, want, same


HARM = [None, -1, [-1], [1, 2, 3, 4], [0, 1, 2, 3, 4, 5], [1, 2, 4], [], 3, [3, -1]]


def setting_of(base):
    lv = mk_level(base)
    lv.stft.min_num_stft_windows = 2
    return lv


def job_archive(part, item):
    fc_set, want_set, same = archive_setters()
    for base, remote, a, b, chans, harm in item:
        rep = {"archive": [base, remote, list(a), list(b), chans, harm]}
        part.state(str(rep))
        part.traces += 1
        part.transitions += 2
        lv = setting_of(base)
        got = outcome(lv.to_fc_decimation, remote)
        if got[0] != "ok":
            part.violation("no archive settings for a level", f"{rep}: {got}", rep)
            continue
        fc = got[1].copy()  # the archive is stored separately
        need = LV[base]["ref"] if remote else LV[base]["inp"] + LV[base]["out"]
        ok = True
        if not a and not b and chans == "all" and harm is None:
            st, td = fc.short_time_fourier_transform, fc.time_series_decimation
            seen = (sorted(fc.channels_estimated), sorted(fc.channels.keys()), fc.id, td.level, td.factor, td.sample_rate,
                    st.window.num_samples, st.window.overlap, st.min_num_stft_windows)
            want = (sorted(need), sorted(need), str(LV[base]["number"]), LV[base]["number"], LV[base]["factor"],
                    LV[base]["rate"], LV[base]["nsamp"], LV[base]["overlap"], 2)
            if seen != want:
                part.violation("archive settings made from a level", f"{rep}: {seen} expected {want}", rep)
            full = outcome(lambda: lv.to_fc_decimation(remote, ignore_harmonic_indices=False).stft.harmonic_indices)
            hw = sorted(i for x in LV[base]["bands"] for i in range(x[2], x[3] + 1))
            if full[0] != "ok" or list(full[1] or []) != hw:
                part.violation("harmonics archived for a level", f"{rep}: {full} expected {hw}", rep)
        # the channels the archive holds
        if chans == "more":
            fc.channels_estimated = fc.channels_estimated + ["q1"]
        elif chans == "order":
            fc.channels_estimated = fc.channels_estimated[::-1]
        elif chans == "less":
            fc.channels_estimated = [c for c in fc.channels_estimated if c != need[-1]] if need else []
            fc.remove_channel(need[-1]) if need and need[-1] in fc.channels_estimated else None
            ok = not need
        for x in a:
            fc_set[x](fc)
        for x in b:
            want_set[x](lv)
        for x in set(a) ^ set(b):
            ok = False
        for x in set(a) & set(b):
            ok = ok and x in same
        if harm is not None:
            fc.short_time_fourier_transform.harmonic_indices = harm
            hs = [harm] if isinstance(harm, int) else harm
            if -1 not in hs:
                ok = ok and all(i in hs for bb in LV[base]["bands"] for i in range(bb[2], bb[3] + 1))
        before = (lv.to_json(required=False), fc.to_json(required=False))
        got = outcome(lv.is_consistent_with_archived_fc_parameters, fc, remote)
        good = got == ("ok", True) if ok else (got == ("ok", False) or (got[0] == "exc" and got[1] == "NotImplementedError"
                                                                        and ("filter" in a or "filter" in b)))
        if not good:
            kind = "a compatible archive is not accepted" if ok else "an archive with other settings is accepted"
            part.violation(kind + (" or raises" if got[0] == "exc" else ""), f"{rep}: {got}", rep)
        if (lv.to_json(required=False), fc.to_json(required=False)) != before:
            part.violation("comparing with the archive changes the settings", str(rep), rep)


def archives(quick):
    names = list(archive_setters()[0])
    one = [()] + [(x,) for x in names]
    two = list(itertools.combinations(names, 2))
    for base in (("l0", "l1") if quick else LV):
        for remote in (False, True):
            for chans in ("all", "more", "less", "order"):
                for a in one:
                    yield base, remote, a, (), chans, None
                for harm in HARM:
                    yield base, remote, (), (), chans, harm
            for a in one:
                for b in one:
                    yield base, remote, a, b, "all", None
            if not quick:
                for a in two:
                    for b in [()] + [(x,) for x in a] + [a]:
                        yield base, remote, a, b, "all", None
                        yield base, remote, b, a, "all", None


# ---- windows ----------------------------------------------------------------------------------------
TYPES = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman", "blackmanharris",
         "nuttall", "barthann"]
ARGS = {"kaiser": {"beta": 5.0}, "gaussian": {"std": 3.0}, "general_gaussian": {"power": 1.5, "width": 4.0},
        "chebwin": {"attenuation": 80.0}, "dpss": {"NW": 2.5}}
WSET = [("type", "hamming"), ("type", "boxcar"), ("num_samples", 8), ("num_samples", 31), ("normalized", False),
        ("normalized", True), ("kaiser", 3.0), ("kaiser", 9.0), ("overlap", 5), ("taper", None)]


def reference_taper(kind, args, n, norm):
    import numpy as np
    import scipy.signal as ss

    t = np.array(ss.get_window((kind,) + tuple(args.values()) if args else kind, n))
    return t / t.sum() if norm else t


def job_window(part, item):
    import numpy as np

    from mt_metadata.processing.window import Window

    for start, hist in item:
        rep = {"window": [start, [list(h) for h in hist]]}
        st = dict(type=start, num_samples=16, overlap=4, normalized=True, args=dict(ARGS.get(start, {})))
        w = Window(num_samples=16, overlap=4, type=start, additional_args=dict(st["args"]))
        part.traces += 1

        def look():
            part.transitions += 1
            t = outcome(w.taper)
            ref = outcome(reference_taper, st["type"], st["args"], st["num_samples"], st["normalized"])
            if ref[0] != "ok" or not np.all(np.isfinite(ref[1])):
                part.count("windows_scipy_refuses")
                return
            want = ref[1]
            if t[0] != "ok" or len(t[1]) != len(want) or not np.allclose(t[1], want, rtol=1e-10, atol=1e-14):
                part.violation("taper of a window", f"{rep} {st}: {t[1] if t[0] != 'ok' else list(t[1])[:5]} expected {list(want)[:5]}", rep)
            if w.num_samples_advance != st["num_samples"] - st["overlap"]:
                part.violation("advance of a window", f"{rep}: {w.num_samples_advance}", rep)
            f = list(w.fft_harmonics(2.0))
            if len(f) != st["num_samples"] // 2 or any(abs(x - 2.0 * k / st["num_samples"]) > 1e-12 for k, x in enumerate(f)):
                part.violation("harmonics of a window", f"{rep}: {f[:4]}", rep)

        for k, v in hist:
            if k == "taper":
                look()
            elif k == "kaiser":
                w.type, w.additional_args = "kaiser", {"beta": v}
                st["type"], st["args"] = "kaiser", {"beta": v}
            else:
                setattr(w, k, v)
                st[k] = v
                if k == "type":
                    w.additional_args = {}
                    st["args"] = {}
        look()
        part.state(str(rep))


def windows(quick):
    for t in TYPES + list(ARGS):
        yield t, ()
        for n in (1, 2, 3, 7, 64, 257):
            for norm in (True, False):
                yield t, (("num_samples", n), ("normalized", norm))
    for n in range(1, 4 if quick else 5):
        for h in itertools.product(WSET, repeat=n):
            yield "hann", h


def run(ctx):
    ctx.bounds = {"alphabet": len(ConfigSpec().ops(Model())), "starting_contents": [list(map(str, s)) for s in SEEDS]}
    ctx.assumptions = ["levels of a configuration have different numbers", "bands of a level start at different harmonics",
                       "an archive with another anti alias filter is refused with NotImplementedError, which counts as not accepted"]
    ps = list(range(len(SEEDS)))
    if ctx.quick:
        ctx.bounds["reduction"] = "length 2 unmerged"
        n = bfs(ctx, make, ps, 2, 2)
    else:
        ctx.bounds["reduction"] = "length 3, merged from length 2"
        n = bfs(ctx, make, ps, 3, 2)
    for name, job, items in (("assignments", job_assign, assigns(ctx.quick)), ("archives", job_archive, archives(ctx.quick)),
                             ("windows", job_window, windows(ctx.quick))):
        s = list(items)
        ctx.bounds[name] = len(s)
        ctx.pmap(job, [s[i::48] for i in range(48)])
    ctx.counts["histories_per_level"] = n


def replay(data):
    if "history" in data:
        return bfs_replay(make, data)
    p = Part()
    if "assign" in data:
        job_assign(p, [tuple(data["assign"])])
    elif "archive" in data:
        b = data["archive"]
        job_archive(p, [(b[0], b[1], tuple(b[2]), tuple(b[3]), b[4], b[5])])
    else:
        job_window(p, [(data["window"][0], tuple(tuple(h) for h in data["window"][1]))])
    for s, v in p.violations.items():
        print("reproduced:", s, v[0])
