"""M03: equality is an equivalence on content; copies are independent.

Every metadata class x every catalogued field x its values (mc/catalog.json, committed):

* two objects built independently with the same content are equal both ways, an object equals itself, its copy and
  its dictionary form;
* changing one field (thorough: every pair of fields) makes them differ both ways, whichever object is asked;
* no comparison changes either object;
* changing one field of a copy through its dotted name or by editing nested lists, dictionaries and arrays in place
  leaves the original as it was, and the reverse.
"""
from mc.core import Mismatch
from mc.metaobj import CATALOG, canon, cls, decode, prepare, read

SKIP_EQ = ("processed_date", "creation_time")  # documented: not compared


def names(path):
    return list(cls(path)().get_attribute_list())


def snap(o, ns):
    return {n: canon(read(o, n)) for n in ns}


def build(c, ent, pick):
    o = c()
    for f, vals in ent.items():
        i = pick.get(f)
        if i is not None:
            o.update_attribute(f, decode(vals[i % len(vals)]))
    return o


def as_dict(path):
    """archive classes that are compared with dictionaries"""
    return path.startswith(("mt_metadata.common.", "mt_metadata.timeseries.")) and not path.endswith(":Experiment")


def distinct(vals):
    """indices of two values that differ"""
    for j in range(1, len(vals)):
        if canon(decode(vals[j])) != canon(decode(vals[0])):
            return j
    return None


def must(part, cond, sig, detail, rep):
    part.evaluations += 1
    if not cond:
        part.violation(sig, detail, rep)


def eqs(a, b):
    return bool(a == b), bool(b == a), bool(a != b), bool(b != a)


def one_class(part, path, fields=None, pairs=True):
    c, ent = cls(path), CATALOG[path]
    short = path.split(":")[1]
    ns = names(path)
    full = {f: 0 for f in ent}
    a = build(c, ent, full)
    sa = snap(a, ns)
    for label, p in (("defaults", {}), ("all fields set", full)):
        x, y = build(c, ent, p), build(c, ent, p)
        sx, sy = snap(x, ns), snap(y, ns)
        rep = {"class": path, "fields": []}
        must(part, eqs(x, y) == (True, True, False, False), f"{short}: objects with equal content are not equal", label, rep)
        must(part, eqs(x, x) == (True, True, False, False), f"{short}: an object differs from itself", label, rep)
        k = x.copy()
        must(part, snap(k, ns) == sx, f"{short}: a copy has other content", label, rep)
        must(part, eqs(x, k) == (True, True, False, False), f"{short}: an object differs from its copy", label, rep)
        if p and as_dict(path):
            must(part, x == x.to_dict(), f"{short}: an object differs from its own dictionary", label, rep)
        if p or short != "Comment":  # an empty comment is equal to None
            must(part, not (x == None) and x != None, f"{short}: equal to None", label, rep)  # noqa: E711
        must(part, snap(x, ns) == sx and snap(y, ns) == sy, f"{short}: comparing changes an object", label, rep)
        part.transitions += 6
    todo = [[f] for f in ent] if fields is None else [fields] if fields else []
    for fs in todo:
        pick = dict(full)
        ok = False
        for f in fs:
            j = distinct(ent[f])
            if j is not None:
                pick[f] = j
                ok = True
        rep = {"class": path, "fields": fs}
        if ok:
            for base_name, base in (("all fields set", full), ("only this field set", {f: 0 for f in fs})):
                p2 = {**base, **{f: pick[f] for f in fs}}
                x, y = build(c, ent, base), build(c, ent, p2)
                sx, sy = snap(x, ns), snap(y, ns)
                got = eqs(x, y)
                # (fields fixed by the class are the subject of M04)
                if any(sx[f] != sy[f] and not any(s in f for s in SKIP_EQ) for f in fs):
                    must(part, got == (False, False, True, True), f"{short}.{'+'.join(fs)}: equal although the field differs",
                         f"{base_name}: {got}", rep)
                    if as_dict(path):
                        must(part, not (x == y.to_dict()), f"{short}.{'+'.join(fs)}: equal to a dictionary that differs", base_name, rep)
                must(part, got[0] == got[1] and got[2] == got[3] and got[0] != got[2],
                     f"{short}.{'+'.join(fs)}: the answer depends on the side asked", f"{got}", rep)
                must(part, snap(x, ns) == sx and snap(y, ns) == sy, f"{short}: comparing changes an object", str(fs), rep)
                part.transitions += 2
                part.state((path, base_name, tuple(fs)))
        # default object against an object with the field set
        x, y = c(), build(c, ent, {f: 0 for f in fs})
        sx, sy = snap(x, ns), snap(y, ns)
        if sx != sy and not all(any(s in f for s in SKIP_EQ) for f in fs) and any(not nullish(sx[f], sy[f], f) for f in fs):
            got = eqs(x, y)
            must(part, got == (False, False, True, True), f"{short}.{'+'.join(fs)}: equal although one side has the default", f"{got}", rep)
        # independence of copies, both directions
        for direction in (0, 1):
            o = build(c, ent, full)
            k = o.copy()
            edit, keep = (k, o) if direction == 0 else (o, k)
            s0 = snap(keep, ns)
            for f in fs:
                j = distinct(ent[f])
                edit.update_attribute(f, decode(ent[f][j if j is not None else 0]))
            must(part, snap(keep, ns) == s0, f"{short}.{'+'.join(fs)}: editing a copy and its original is not independent",
                 "copy edited" if direction == 0 else "original edited", rep)
            for f in fs:
                inplace(read(edit, f))
            must(part, snap(keep, ns) == s0, f"{short}.{'+'.join(fs)}: a copy shares its content with the original", "in place", rep)
            part.transitions += 2
    must(part, snap(a, ns) == sa, f"{short}: objects of one class share content", "", {"class": path, "fields": []})
    part.state((path,))


def nullish(a, b, f):
    """both empty, or a coordinate that is missing against zero (documented as equal)"""
    empty = (None, "", ("l", ()), "None", "none", "null", "1980-01-01T00:00:00+00:00", ("n", 0.0))
    return a in empty and b in empty


def inplace(v):
    import numpy as np

    if isinstance(v, list):
        v.append("zz")
        v.reverse()
    elif isinstance(v, np.ndarray) and v.size:
        v.ravel()[0] = -77
    elif isinstance(v, dict):
        v["zz"] = 1


def chunk(part, item):
    for path, fields in item:
        part.traces += 1
        try:
            one_class(part, path, fields)
        except Exception as e:
            part.violation(f"{path.split(':')[1]}: {type(e).__name__} {str(e)[:80]}", repr(fields), {"class": path, "fields": fields or []})


# children: containers whose members are metadata objects ------------------------------------------------------------
def tree(kind, variant):
    from mt_metadata.timeseries import AppliedFilter, Electric, Experiment, Magnetic, Run, Station, Survey
    from mt_metadata.timeseries.filters import CoefficientFilter

    ex, hx = Electric(component="ex"), Magnetic(component="hx")
    ex.sample_rate = 8.0
    ex.add_filter(AppliedFilter(name="f1", stage=1))
    run = Run(id="a")
    run.add_channel(ex)
    run.add_channel(hx)
    st = Station(id="S1")
    st.add_run(run)
    sv = Survey(id="V1")
    sv.add_station(st)
    sv.filters["f1"] = CoefficientFilter(name="f1", gain=2.0)
    e = Experiment()
    e.add_survey(sv)
    path = {"channel": ex, "run": run, "station": st, "survey": sv, "experiment": e}
    r = {"survey": sv, "station": sv.stations[0], "run": sv.stations[0].runs[0], "channel": sv.stations[0].runs[0].channels[0]}
    if kind == "experiment":
        sv_ = e.surveys[0]
        r = {"survey": sv_, "station": sv_.stations[0], "run": sv_.stations[0].runs[0], "channel": sv_.stations[0].runs[0].channels[0]}
        root = e
    else:
        root = r[kind]
    edits = {
        "channel azimuth": lambda: setattr(r["channel"], "measurement_azimuth", 33.0),
        "channel filter": lambda: r["channel"].filters.append(AppliedFilter(name="f2", stage=2)),
        "channel filter name": lambda: setattr(r["channel"].filters[0], "name", "zz"),
        "dipole electrode": lambda: setattr(r["channel"].positive, "id", "77"),
        "run comment": lambda: setattr(r["run"].comments, "value", "hello"),
        "run channel added": lambda: r["run"].add_channel(Magnetic(component="hz")),
        "run channel removed": lambda: r["run"].remove_channel("hx"),
        "station run added": lambda: r["station"].add_run(Run(id="b")),
        "station location": lambda: setattr(r["station"].location, "latitude", 12.5),
        "survey station added": lambda: r["survey"].add_station(Station(id="S2")),
        "survey filter gain": lambda: setattr(r["survey"].filters["f1"], "gain", 9.0),
        "survey filter added": lambda: r["survey"].filters.append(CoefficientFilter(name="f9", gain=2.0)),
    }
    order = ["channel", "run", "station", "survey", "experiment"]
    level = {"channel": 0, "dipole": 0, "run": 1, "station": 2, "survey": 3}
    edits = {k: v for k, v in edits.items() if level[k.split()[0]] <= order.index(kind)}
    return root, edits


def snap_tree(o):
    return canon(o) if not hasattr(o, "surveys") else ("e", tuple(canon(s) for s in o.surveys))


def trees(part, item):
    for kind, name in item:
        part.traces += 1
        rep = {"tree": [kind, name]}
        try:
            o, edits = tree(kind, 0)
            p, _ = tree(kind, 0)
            so = snap_tree(o)
            must(part, eqs(o, p) == (True, True, False, False), f"{kind} with children: equal trees are not equal", "", rep)
            must(part, snap_tree(o) == so, f"{kind} with children: comparing changes it", "", rep)
            k = o.copy()
            sk = snap_tree(k)
            must(part, sk == so, f"{kind} with children: a copy has other content", "", rep)
            must(part, eqs(o, k) == (True, True, False, False), f"{kind} with children: differs from its copy", "", rep)
            edits[name]()
            s1 = snap_tree(o)
            must(part, s1 != so, f"{kind}: edit without effect: {name}", "", rep)
            must(part, snap_tree(k) == sk, f"{kind}: a copy shares content: {name}", "", rep)
            got = eqs(o, k)
            # members of a container are not part of its own equality
            own = name.split()[0] == kind and "run added" not in name and name not in ("survey station added", "survey filter gain", "survey filter added")
            if own or (kind, name) in (("channel", "dipole electrode"), ("station", "station run added")):
                must(part, got == (False, False, True, True), f"{kind} with children: equal although {name} differs", f"{got}", rep)
            must(part, got[0] == got[1] and got[2] == got[3] and got[0] != got[2], f"{kind}: the answer depends on the side asked", name, rep)
            must(part, snap_tree(o) == s1 and snap_tree(k) == sk, f"{kind} with children: comparing changes it", "", rep)
            part.transitions += 4
            part.state((kind, name))
        except Mismatch:
            raise
        except Exception as e:
            part.violation(f"{kind} with children: {type(e).__name__} {str(e)[:80]}", name, rep)


MEMBERS = ["object", "list", "dict", "array", "listdict", "number", "text"]


def member(kind):
    import numpy as np

    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.timeseries import Run

    inner = ListDict()
    inner["k"] = 1
    return {"object": Run(id="a"), "list": [1, 2], "dict": {"a": 1}, "array": np.array([1.0, 2.0]), "listdict": inner, "number": 3, "text": "t"}[kind]


def touch(v):
    from mt_metadata.common.list_dict import ListDict

    if hasattr(v, "sample_rate"):
        v.sample_rate = 77.0
    elif isinstance(v, ListDict):
        v["zz"] = 5
    else:
        inplace(v)


def canon_ld(ld):
    return [(k, canon_ld(v) if type(v) is type(ld) else canon(v)) for k, v in ld.items()]


def keyed(part, item):
    """the keyed list the containers are made of: a copy shares neither its keys nor its members"""
    from mt_metadata.common.list_dict import ListDict

    for kinds in item:
        part.traces += 1
        rep = {"members": list(kinds)}
        try:
            for side in (0, 1):
                o = ListDict()
                for i, k in enumerate(kinds):
                    o[f"m{i}"] = member(k)
                so = canon_ld(o)
                c = o.copy()
                must(part, canon_ld(c) == so and c.keys() == o.keys(), "keyed list: a copy has other content", "", rep)
                edit, keep = ((o, c), (c, o))[side]
                for key in list(edit.keys()):
                    touch(edit[key])
                    must(part, canon_ld(keep) == so, "keyed list: a copy shares a member", f"{key} of {kinds}", rep)
                edit[f"m{len(kinds)}"] = 9
                edit.remove("m0")
                must(part, canon_ld(keep) == so, "keyed list: a copy shares its keys", "", rep)
                part.transitions += len(kinds) + 2
            part.state(kinds)
        except Exception as e:
            part.violation(f"keyed list: {type(e).__name__} {str(e)[:80]}", str(kinds), rep)


def run(ctx):
    import itertools

    prepare()
    paths = sorted(CATALOG)
    items = [(p, None) for p in paths]
    n_pairs = 0
    if not ctx.quick:
        for p in paths:
            for f, g in itertools.combinations(sorted(CATALOG[p]), 2):
                items.append((p, [f, g]))
                n_pairs += 1
    if ctx.quick:  # large classes field by field
        items = [(p, [f] if f else None) for p in paths for f in ([""] if len(CATALOG[p]) < 25 else ["", *CATALOG[p]])]
        items = [(p, f if f else ([] if len(CATALOG[p]) >= 25 else None)) for p, f in items]
    ctx.pmap(chunk, [items[i::96] for i in range(96)])
    tr = [(k, n) for k in ("channel", "run", "station", "survey", "experiment") for n in tree(k, 0)[1]]
    ctx.pmap(trees, [tr[i::16] for i in range(16)])
    kl = [t for n in range(1, 3 if ctx.quick else 5) for t in itertools.product(MEMBERS, repeat=n)]
    ctx.pmap(keyed, [kl[i::8] for i in range(8)])
    ctx.bounds = {"classes": len(paths), "fields": sum(map(len, CATALOG.values())), "field_pairs": n_pairs, "trees": len(tr), "keyed lists": len(kl)}
    ctx.assumptions = ["processed_date and creation_time are documented as not compared", "numbers are compared to a relative tolerance of 1e-5 (documented); catalogued values differ by more"]
    ctx.sample({"class": paths[0], "values": CATALOG[paths[0]]})


def replay(data):
    from mc.core import Part

    p = Part()
    if "tree" in data:
        trees(p, [tuple(data["tree"])])
    elif "members" in data:
        keyed(p, [tuple(data["members"])])
    else:
        one_class(p, data["class"], data["fields"] or None)
    return [(s, d[0]) for s, d in p.violations.items()]
