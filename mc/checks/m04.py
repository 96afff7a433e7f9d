"""M04: field access by dotted name and updates are exact and atomic.

Every metadata class x every catalogued field (mc/catalog.json, committed):

write    every ordered pair of writes (f := v, g := w), through the dotted name and through the nested object: both read
         back what was written, every other field is as before
forms    numbers written as text read back as numbers
reject   every value that a field's kind excludes raises and leaves the object as it was
update   object A (defaults / all fields set) updated from object B (one field set / all set): takes B's non-empty fields,
         keeps the rest, B unchanged
"""
from mc.core import Mismatch
from mc.metaobj import CATALOG, canon, cls, decode, prepare, read

# fields that follow another one: writing the key may change the listed ones
FOLLOWS = {
    "Band": {"frequency_min": ["name"], "frequency_max": ["name"]},  # a band without a name is named by its centre
    "EMeasurement": {"x": ["azm"], "y": ["azm"], "x2": ["azm"], "y2": ["azm"]},
}
EMPTY = {None, "", "null", "None", "NONE", "NULL", "Null", "none", "1980-01-01T00:00:00", "1980-01-01T00:00:00+00:00", "1980-01-01",
         ("n", 0.0), ("b", False), ("l", ()), ("a", (0,), ())}


def names(path):
    return list(cls(path)().get_attribute_list())


def snap(o, ns):
    return {n: canon(read(o, n)) for n in ns}


def write(o, name, value, how):
    if how == "dotted":
        o.update_attribute(name, value)
    else:
        *p, leaf = name.split(".")
        setattr(read(o, ".".join(p)) if p else o, leaf, value)


def check(part, cond, sig, detail, rep):
    part.evaluations += 1
    if not cond:
        part.violation(sig, detail, rep)


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def writes(part, path, f, gs):
    """f := v then g := w for all g"""
    c, ent = cls(path), CATALOG[path]
    short, ns = path.split(":")[1], names(path)
    base = snap(c(), ns)
    fol = FOLLOWS.get(short, {})
    for v in ent[f]:
        for how in ("dotted", "nested") if "." in f else ("dotted",):
            o = c()
            write(o, f, decode(v), how)
            got = snap(o, ns)
            want = dict(base, **{f: canon(decode(v))})
            for k in fol.get(f, []):
                want[k] = got[k]
            rep = {"class": path, "write": [f, v, None, None]}
            check(part, got[f] == want[f], f"{short}.{f}: reads back another value", f"{v!r} -> {got[f]!r} ({how})", rep)
            check(part, canon(o.get_attr_from_name(f)) == got[f], f"{short}.{f}: dotted read differs from the field", "", rep)
            want[f] = got[f]
            check(part, got == want, f"{short}.{f}: a write changes other fields", f"{diff(got, want)}", rep)
            part.transitions += 1
            part.state((path, f, repr(v)))
    v = ent[f][0]
    for g in gs:
        w = ent[g][-1] if g == f else ent[g][0]
        if g == f and len(ent[g]) < 2:
            continue
        o = c()
        o.update_attribute(f, decode(v))
        s1 = snap(o, ns)
        o.update_attribute(g, decode(w))
        got = snap(o, ns)
        want = dict(s1, **{g: canon(decode(w))})
        for k in fol.get(g, []):
            want[k] = got[k]
        for (cn, k), src in NAMED_BY.items():
            if cn == short and not s1[k] and got[k] == s1.get(src):
                want[k] = got[k]
        part.transitions += 2
        check(part, got == want, f"{short}: writing {g} after {f} changes other fields or is lost", f"{diff(got, want)}",
              {"class": path, "write": [f, v, g, w]})
        part.state((path, f, g))


NOT_NUMBER = ["not a number", {"a": 1}, [1, 2, 3]]
ANY_TEXT = [{"a": 1}]


def kind_of(vals):
    v = vals[0]
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, float)):
        return "number"
    return "other"


def full(c, ent):
    o = c()
    for f, vals in ent.items():
        o.update_attribute(f, decode(vals[0]))
    return o


def forms(part, path):
    c, ent = cls(path), CATALOG[path]
    short, ns = path.split(":")[1], names(path)
    for f, vals in ent.items():
        if kind_of(vals) != "number" or f in TEXT_NUMBER.get(short, ()):
            continue
        for v in vals:
            for raw in (str(v), v):
                o = full(c, ent)
                s0 = snap(o, ns)
                rep = {"class": path, "form": f}
                try:
                    o.update_attribute(f, raw)
                except Exception as e:
                    check(part, False, f"{short}.{f}: a number written as text is refused", f"{raw!r} {type(e).__name__}", rep)
                    continue
                got = snap(o, ns)
                want = dict(s0, **{f: canon(v)})
                for k in FOLLOWS.get(short, {}).get(f, []):
                    want[k] = got[k]
                check(part, got == want, f"{short}.{f}: a number written as {type(raw).__name__} reads back otherwise", f"{diff(got, want)}", rep)
                part.transitions += 1


def is_enum(c, f):
    import enum
    import typing

    o = c()
    *p, leaf = f.split(".")
    ob = read(o, ".".join(p)) if p else o
    a = type(ob).model_fields[leaf].annotation
    return isinstance(a, type) and issubclass(a, enum.Enum)


def rejects(part, path):
    c, ent = cls(path), CATALOG[path]
    short, ns = path.split(":")[1], names(path)
    for f, vals in ent.items():
        k = kind_of(vals)
        bad = NOT_NUMBER if k == "number" else ["perhaps", [True]] if k == "bool" else []
        if f.split(".")[-1] == "time_stamp" or "time_period" in f:
            bad = ["not a time"]
        if is_enum(c, f):
            bad = ["no such member"]
        for b in bad:
            if (short, f) in ACCEPTS:
                continue
            o = full(c, ent)
            s0 = snap(o, ns)
            rep = {"class": path, "reject": f}
            for how in ("dotted", "nested") if "." in f else ("dotted",):
                try:
                    write(o, f, b, how)
                    check(part, False, f"{short}.{f}: an invalid value is accepted", f"{b!r} -> {read(o, f)!r}", rep)
                    break
                except Exception:
                    got = snap(o, ns)
                    check(part, got == s0, f"{short}.{f}: a rejected write changes the object", f"{b!r} {diff(got, s0)}", rep)
                part.transitions += 1
                part.state((path, "reject", f, repr(b)))
    o = full(c, ent)
    s0 = snap(o, ns)
    rep = {"class": path, "reject": "no.such.field"}
    try:
        o.update_attribute("no_such.field", 1)
        check(part, False, f"{short}: writing below a field that does not exist is accepted", "", rep)
    except Exception:
        check(part, snap(o, ns) == s0, f"{short}: a rejected write changes the object", "no such field", rep)


# fields that document text as an alternative, or fall back to a default
ACCEPTS = {("Channel", "dl"), ("Station", "transfer_function.coordinate_system"), ("TransferFunction", "coordinate_system")}
TEXT_NUMBER = {"Channel": ("dl",)}
NO_UPDATE = {"ChannelNomenclature", "Experiment"}  # redefine update
# names that follow a keyword, and a station without id that is named by its network entry
NAMED_BY = {("Station", "id"): "fdsn.id"}


def updates(part, path, fields):
    c, ent = cls(path), CATALOG[path]
    short, ns = path.split(":")[1], names(path)
    # fields that an update does not walk (containers) are left out: they have their own properties
    walk = [n for n in ns if n in ent]

    def pick(i):
        o = c()
        for f, vals in ent.items():
            o.update_attribute(f, decode(vals[i % len(vals)]))
        return o

    def empty(v):
        return v in EMPTY or (isinstance(v, tuple) and v[0] == "a" and not v[2])

    def norm(n, v, raw):
        """a default may be written in another form than the one it is read back in"""
        t = c()
        t.update_attribute(n, raw)
        return canon(read(t, n))

    if short in NO_UPDATE:
        return
    walk = [n for n in walk if not n.startswith("channel_nomenclature.")]
    cases = [("defaults", "all", None), ("all", "defaults", None), ("all", "all", None)]
    cases += [(a, "one", f) for f in fields for a in ("defaults", "all")]
    for a, b, f in cases:
        x = c() if a == "defaults" else pick(0)
        if b == "defaults":
            y = c()
        elif b == "all":
            y = pick(1)
        else:
            y = c()
            y.update_attribute(f, decode(ent[f][-1 if len(ent[f]) > 1 else 0]))
        sx, sy = snap(x, ns), snap(y, ns)
        rep = {"class": path, "update": [a, b, f]}
        try:
            x.update(y)
        except Exception as e:
            check(part, False, f"{short}: update raises {type(e).__name__}", f"{a} from {b} {f}: {str(e)[:200]}", rep)
            continue
        got = snap(x, ns)
        want = {n: (sx[n] if empty(sy[n]) else sy[n]) for n in walk}
        got_w = {n: got[n] for n in walk}
        for n in walk:
            if got_w[n] != want[n] and not empty(sy[n]) and norm(n, sy[n], read(y, n)) == got_w[n]:
                want[n] = got_w[n]
        for k, ks in FOLLOWS.get(short, {}).items():
            for q in ks:
                want[q] = got_w.get(q)
        check(part, got_w == want, f"{short}: update {'of all fields' if f is None else 'of ' + f} does not take over exactly the other's non-empty fields",
              f"{a} from {b}: {str(diff(got_w, want))[:500]}", rep)
        check(part, snap(y, ns) == sy, f"{short}: update changes the object it reads from", f"{a} from {b} {f}", rep)
        part.transitions += 1
        part.state((path, "update", a, b, f))


def matches(part, path, quick):
    """update with names to match: it happens exactly when every one of them agrees"""
    c, ent = cls(path), CATALOG[path]
    short, ns = path.split(":")[1], names(path)
    if short in NO_UPDATE:
        return
    scalar = [f for f in sorted(ent) if f in ns and not f.startswith("channel_nomenclature.") and other(ent[f]) is not None
              and not isinstance(read(c(), f), (list, dict)) and not hasattr(decode(ent[f][0]), "size")
              and short not in FOLLOWS]

    def pick(d):
        o = c()
        for f, vals in ent.items():
            o.update_attribute(f, decode(vals[other(vals) if f == d else 0]))
        return o

    chosen = scalar if not quick else scalar[:: max(1, len(scalar) // 4)][:5]
    for d in chosen:
        rest = [f for f in chosen if f != d][:4]
        for m in [[d]] + [[g] for g in rest] + [[d, g] for g in rest] + [[g, d] for g in rest] + [[g, d, h] for g, h in zip(rest, rest[1:])] + [rest, rest + [d]]:
            x, y = pick(None), pick(d)
            sx, sy = snap(x, ns), snap(y, ns)
            if [n for n in ns if sx[n] != sy[n]] != [d] or sy[d] in EMPTY or (isinstance(sy[d], tuple) and sy[d][0] == "a"):
                continue
            rep = {"class": path, "match": [d, m]}
            try:
                x.update(y, match=m)
                refused = False
            except ValueError:
                refused = True
            got = snap(x, ns)
            check(part, refused == (d in m), f"{short}: update with names to match {'takes over' if not refused else 'refuses'} an object "
                  f"that {'differs' if d in m else 'agrees'} in them", f"{d} differs, match {m}", rep)
            check(part, not refused or got == sx, f"{short}: a refused update changes the object", f"{d} {m} {str(diff(got, sx))[:300]}", rep)
            part.transitions += 1
            part.state((path, "match", d, tuple(m)))


def other(vals):
    for j in range(1, len(vals)):
        if canon(decode(vals[j])) != canon(decode(vals[0])):
            return j
    return None


def chunk(part, item):
    for job in item:
        part.traces += 1
        try:
            if job[0] == "w":
                writes(part, *job[1:])
            elif job[0] == "f":
                forms(part, job[1])
            elif job[0] == "m":
                matches(part, *job[1:])
            elif job[0] == "r":
                rejects(part, job[1])
            else:
                updates(part, *job[1:])
        except Exception as e:
            import traceback

            part.violation(f"{job[1].split(':')[1]}: {type(e).__name__} {str(e)[:80]}", traceback.format_exc()[-800:], {"job": list(job)})


def jobs(quick):
    out = []
    for p in sorted(CATALOG):
        fs = sorted(CATALOG[p])
        for i, f in enumerate(fs):
            # quick: partners in both directions of the (cyclic) order up to 12 apart, thorough: all
            gs = fs if not quick or len(fs) <= 25 else [fs[(i + d) % len(fs)] for d in range(-12, 13)]
            out.append(("w", p, f, gs))
        out.append(("f", p))
        out.append(("r", p))
        out.append(("m", p, quick))
        for i in range(0, max(len(fs), 1), 10):
            out.append(("u", p, fs[i:i + 10]))
    return out


def run(ctx):
    prepare()
    js = jobs(ctx.quick)
    ctx.pmap(chunk, [js[i::128] for i in range(128)])
    ctx.bounds = {"classes": len(CATALOG), "fields": sum(map(len, CATALOG.values())),
                  "write_pairs": sum(len(j[3]) for j in js if j[0] == "w"),
                  "update_pairs": "(defaults | all set) x (one field set | all set | defaults)",
                  "match": "one field differs; every list of up to three names to match over up to five fields (thorough: all fields)"}
    ctx.assumptions = ["values are those of mc/catalog.json; fields coupled by design (channel and run name lists, nomenclature keyword) belong to M07, M08, M24 and M25"]
    ctx.sample(js[0])


def replay(data):
    from mc.core import Part

    prepare([data["class"]] if "class" in data else None)
    p = Part()
    if "job" in data:
        chunk(p, [tuple(data["job"])])
    elif "write" in data:
        writes(p, data["class"], data["write"][0], [data["write"][2]] if data["write"][2] else [])
    elif "form" in data:
        forms(p, data["class"])
    elif "reject" in data:
        rejects(p, data["class"])
    else:
        updates(p, data["class"], [data["update"][2]] if data["update"][2] else [])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
