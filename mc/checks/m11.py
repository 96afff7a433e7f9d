"""Applied filters of a channel vs. an ordered list of records."""
import json

from mc.core import Mismatch, Spec, bfs, bfs_replay, outcome

NAMES = ["alpha", "beta", "c/d"]
SPELL = {"alpha": ["alpha", "ALPHA"], "beta": ["beta", "Beta"], "c/d": ["c/d", "C per D"]}
CHANNELS = ["Electric", "Magnetic", "Auxiliary"]
LEGACY = [
    # (description, dictionary entries, resulting records)
    ("lists", lambda p: {f"{p}.name": ["alpha", "Beta"], f"{p}.applied": [True, False]},
     [("alpha", True), ("beta", False)]),
    ("strings", lambda p: {f"{p}.name": "beta, alpha", f"{p}.applied": "[False, True]"},
     [("beta", False), ("alpha", True)]),
    ("one", lambda p: {f"{p}.name": "c/d", f"{p}.applied": "false"}, [("c per d", False)]),
    ("numbers", lambda p: {f"{p}.name": ["alpha", "c/d", "beta"], f"{p}.applied": [1, 0, 1]},
     [("alpha", True), ("c per d", False), ("beta", True)]),
    ("nested", lambda p: {p: {"name": ["alpha"], "applied": [False]}}, [("alpha", False)]),
    ("array", None, [("alpha", False), ("beta", True)]),
]


def stored(name):
    return name.replace("/", " per ").lower()


class FilterSpec(Spec):
    name = "applied filters"

    def __init__(self, cls="Electric", seeds=0):
        self.cls, self.seeds = cls, seeds

    def fresh(self):
        import mt_metadata.timeseries as ts

        return getattr(ts, self.cls)(component={"Electric": "ex", "Magnetic": "hx"}.get(self.cls, "temperature"))

    def new(self):
        ch, m = self.fresh(), []
        for i in range(self.seeds):
            ch.add_filter(name=NAMES[i], applied=bool(i % 2))
            m.append([stored(NAMES[i]), bool(i % 2), i + 1, None])
        return [ch, m]

    def ops(self, m):
        o = []
        for n in NAMES:
            for s in SPELL[n]:
                o.append(["name", s, True, None])
            o.append(["name", n, False, 1])
            o.append(["obj", n, False, None])
            o.append(["obj", n, True, 2])
            o.append(["remove", SPELL[n][1], True])
            o.append(["remove", n, False])
        o += [["comment", "alpha", "hot"], ["set", [["beta", True, 2], ["alpha", False, 1]]],
              ["set", []], ["setdict", [["c/d", True, 3], ["alpha", True, None]]], ["setjson", [["beta", False, 2], ["c/d", True, 1]]]]
        o += [["update", [["c/d", True, 1], ["beta", False, 2]]]]
        o += [["legacy", "filter", i] for i in range(len(LEGACY))] + [["legacy", "filtered", i] for i in (0, 2, 4)]
        o += [["reload", "dict"], ["reload", "json"], ["reload", "xml"], ["copy"]]
        return o

    def sort(self, m):
        m.sort(key=lambda r: r[2] or 0)

    def add(self, m, name, applied, stage, comment=None):
        if any(r[0] == stored(name) for r in m):
            return
        m.append([stored(name), applied, len(m) + 1 if stage is None else stage, comment])
        self.sort(m)

    def apply(self, pair, op):
        import numpy as np
        from mt_metadata.timeseries import AppliedFilter

        ch, m = pair
        n, got = op[0], ("ok", None)
        if n == "name":
            got = outcome(lambda: ch.add_filter(name=op[1], applied=op[2], stage=op[3]))
            self.add(m, op[1], op[2], op[3])
        elif n == "comment":
            got = outcome(lambda: ch.add_filter(name=op[1], comments=op[2]))
            self.add(m, op[1], True, None, op[2])
        elif n == "obj":
            got = outcome(ch.add_filter, AppliedFilter(name=op[1], applied=op[2], stage=op[3]))
            self.add(m, op[1], op[2], op[3])
        elif n == "remove":
            got = outcome(ch.remove_filter, op[1], op[2])
            m[:] = [r for r in m if r[0] != stored(op[1])]
            if op[2]:
                for i, r in enumerate(m):
                    r[2] = i + 1
        elif n in ("set", "setdict", "setjson"):
            recs = [dict(name=a, applied=b, stage=c) for a, b, c in op[1]]
            val = {"set": lambda: [AppliedFilter(**r) for r in recs], "setdict": lambda: recs,
                   "setjson": lambda: json.dumps([{"applied_filter": r} for r in recs])}[n]()
            got = outcome(setattr, ch, "filters", val)
            m[:] = [[stored(a), b, c, None] for a, b, c in op[1]]
            self.sort(m)
        elif n == "update":
            got = outcome(ch.from_dict, {ch.type: {"filters": [
                {"applied_filter": dict(name=a, applied=b, stage=c)} for a, b, c in op[1]]}})
            for a, b, c in op[1]:
                self.add(m, a, b, c)
        elif n == "legacy":
            what, f, recs = LEGACY[op[2]]
            d = f(op[1]) if f else {f"{op[1]}.name": np.array(["alpha", "beta"], dtype="S5"),
                                   f"{op[1]}.applied": np.array([False, True])}
            d = dict(d, component=ch.component)
            got = outcome(ch.from_dict, d)
            for a, b in recs:
                self.add(m, a, b, None)
        elif n == "reload":
            q = self.fresh()
            if op[1] == "dict":
                got = outcome(q.from_dict, ch.to_dict())
            elif op[1] == "json":
                got = outcome(q.from_json, ch.to_json())
            else:
                got = outcome(q.from_xml, ch.to_xml())
            pair[0] = q
            for i, r in enumerate(m):  # an unset stage is numbered when it is read back
                r[2] = i + 1 if r[2] is None else r[2]
        elif n == "copy":
            q = ch.copy()
            ch.remove_filter("alpha")
            ch.add_filter(name="zeta", stage=0)
            for f in ch.filters:
                f.applied = not f.applied
                f.stage = 77
            pair[0] = q
        else:
            raise AssertionError(op)
        if got[0] != "ok":
            raise Mismatch(f"{n} raises", f"{op}: {got}")
        return pair

    def observe(self, pair):
        from mt_metadata.timeseries.filters import CoefficientFilter

        ch, m = pair

        def chk(what, got, want):
            if got != want:
                raise Mismatch(what, f"got {got!r} expected {want!r}")

        names = [r[0] for r in m]
        chk("filter names", list(ch.filter_names), names)
        chk("records", [[f.name, f.applied, f.stage, f.comments.value] for f in ch.filters], m)
        chk("duplicates", len(set(names)), len(names))
        for n in NAMES + ["zeta"]:
            for s in SPELL.get(n, [n]):
                f = ch.get_filter(s)
                chk(f"lookup {n}", None if f is None else f.name, stored(n) if stored(n) in names else None)
                if f is not None:
                    chk("lookup gives the listed object", any(f is x for x in ch.filters), True)
        bank = {stored(n): CoefficientFilter(name=stored(n), gain=g, units_in="volt", units_out="volt")
                for n, g in zip(NAMES, (2.0, 3.0, 5.0))}
        r = ch.channel_response(bank)
        chk("filters of the channel response", [f.name for f in r.filters_list], names)
        return m


def make(p):
    return FilterSpec(*p)


def job_legacy(part, cls):
    """every older form of names and applied flags, alone and next to the present form"""
    import itertools

    import numpy as np
    import mt_metadata.timeseries as ts

    name_sets = [[], ["alpha"], ["Beta", "alpha"], ["alpha", "c/d", "beta"]]
    name_forms = {
        "list": list, "string": lambda n: ", ".join(n), "bytes": lambda n: np.array(n, dtype="S8"),
        "text": lambda n: np.array(n, dtype="U8"), "spaces": lambda n: [f" {x} " for x in n],
    }
    flag_forms = {
        "list": list, "tuple": tuple, "array": lambda f: np.array(f, dtype=bool), "ints": lambda f: [int(x) for x in f],
        "words": lambda f: [str(x) for x in f], "commas": lambda f: ", ".join(str(x) for x in f),
        "brackets": lambda f: "[" + ",".join(str(x).lower() for x in f) + "]", "blanks": lambda f: " ".join(str(x).lower() for x in f),
        "int array": lambda f: np.array([int(x) for x in f]),
    }
    single = {"1": True, "0": False, "True": True, "true": True, "False": False, "false": False, "none": False, "None": False,
              "NONE": False, "null": False}
    component = {"Electric": "ex", "Magnetic": "hx"}.get(cls, "temperature")
    for prefix, names, (nf, n_of), (ff, f_of), extra, missing in itertools.product(
        ("filter", "filtered"), name_sets, name_forms.items(), flag_forms.items(), (None, "new", "both"), (0, 1, "name", "applied")
    ):
        if (ff in ("commas", "brackets", "blanks") or nf == "string") and not names:
            continue
        flags = [bool(i % 2) for i in range(len(names) + (missing if missing in (0, 1) else 0))]
        if not part.state(("legacy", cls, prefix, tuple(names), nf, ff, extra, missing)):
            continue
        part.transitions += 1
        part.traces += 1
        ch = getattr(ts, cls)(component=component)
        ch.add_filter(name="kept", applied=False)
        d = {"component": component, f"{prefix}.name": n_of(names), f"{prefix}.applied": f_of(flags)}
        want = [["kept", False, 1]]
        used = [stored(n) for n in names]
        if missing in ("name", "applied"):
            del d[f"{prefix}.{missing}"]
            used = []
        other = "filtered" if prefix == "filter" else "filter"
        before, after = [], []
        if extra in ("both",):
            d[f"{other}.name"], d[f"{other}.applied"] = ["omega"], [False]
            (after if other == "filtered" else before).append(["omega", False])
        got = outcome(ch.from_dict, dict(d, **({"filters": [{"name": "psi", "applied": True, "stage": None}]} if extra else {})))
        replay = {"cls": cls, "dict": {k: str(v) for k, v in d.items()}, "new": bool(extra)}
        if missing == 1 and names:
            if got[0] == "ok" or "MTSchemaError" not in str(got):
                part.violation("names and flags of different length are accepted", f"{replay} {got}", replay)
            continue
        if missing == 1:
            used = []
        if got[0] != "ok":
            part.violation(f"older form of filters: {prefix} fails", f"{replay} {got}", replay)
            continue
        new = before + [[n, f] for n, f in zip(used, flags)] + after
        for n, f in new + ([["psi", True]] if extra else []):
            want.append([n, f, len(want) + 1])
        have = [[f.name, f.applied, f.stage] for f in ch.filters]
        if have != want:
            part.violation(f"older form of filters: {prefix}", f"{replay} {have} expected {want}", replay)
    for text, flag in single.items():
        part.transitions += 1
        ch = getattr(ts, cls)(component=component)
        got = outcome(ch.from_dict, {"component": component, "filtered.name": "alpha", "filtered.applied": text})
        have = [[f.name, f.applied, f.stage] for f in ch.filters]
        if got[0] != "ok" or have != [["alpha", flag, 1]]:
            part.violation("older form of filters: one flag", f"{text}: {got} {have}", {"text": text})
    for bad in ({"name": 3}, {"name": None}, {"applied_filter": "alpha"}, {"applied_filter": {"name": "alpha"}}, {"name": ["alpha"]}):
        part.transitions += 1
        ch = getattr(ts, cls)(component=component)
        ch.add_filter(name="kept")
        got = outcome(lambda: ch.add_filter(**bad))
        if got[0] == "ok" or [f.name for f in ch.filters] != ["kept"]:
            part.violation("add_filter accepts what is no filter", f"{bad} {got} {ch.filter_names}", {"bad": str(bad)})


def run(ctx):
    ctx.bounds = {"names": NAMES, "alphabet": len(FilterSpec().ops([])), "channel_classes": CHANNELS}
    ctx.pmap(job_legacy, CHANNELS)
    params = [(c, s) for c in CHANNELS for s in (0, 3)]
    if ctx.quick:
        ctx.bounds["reduction"] = "every history of length 2; length 3 from states merged by content"
        bfs(ctx, make, [params[0], params[3], params[4]], 2, 2)
        n = bfs(ctx, make, [("Electric", 0)], 3, 1)
    else:
        ctx.bounds["reduction"] = "every history of length 3; length up to 5 from states merged by content"
        bfs(ctx, make, params, 3, 3)
        n = bfs(ctx, make, [("Electric", 0), ("Magnetic", 3)], 5, 1)
    ctx.counts["histories_per_level_merged"] = n


def replay(data):
    bfs_replay(make, data)
