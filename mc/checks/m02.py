"""M02: metadata survives every serialisation format unchanged.

Every metadata class x contents (every catalogued field alone with each of its values; all fields set, three ways; thorough: every
pair of fields) x formats (dictionary flat / nested / with empty fields, JSON text flat / nested, JSON file by path and by name,
XML element, XML text, pandas series).  Oracle: the values written (mc/catalog.json), field by field.
"""
import copy
import itertools
import json
import os
import re
import shutil
import tempfile
from pathlib import Path

from mc.core import Mismatch
from mc.metaobj import CATALOG, canon, cls, decode, prepare, read

FORMATS = ["dict", "nested", "full", "single", "json", "json_nested", "file", "filename", "xml", "xmltext", "series"]
DIR = None


def names(path):
    return list(cls(path)().get_attribute_list())


def snap(o, ns):
    return {n: canon(read(o, n)) for n in ns}


def scratch():
    global DIR
    if DIR is None or DIR[0] != os.getpid():
        DIR = (os.getpid(), tempfile.mkdtemp(prefix="m02_"))
    return Path(DIR[1])


def write(o, fmt):
    if fmt == "dict":
        return o.to_dict()
    if fmt == "nested":
        return o.to_dict(nested=True)
    if fmt == "full":
        return o.to_dict(required=False)
    if fmt == "single":
        return o.to_dict(single=True)
    if fmt == "json":
        return o.to_json()
    if fmt == "json_nested":
        return o.to_json(nested=True)
    if fmt in ("file", "filename"):
        p = scratch() / "o.json"
        p.write_text(o.to_json())
        return p if fmt == "file" else str(p)
    if fmt == "xml":
        return o.to_xml()
    if fmt == "xmltext":
        return o.to_xml(string=True)
    return o.to_series()


def load(c, fmt, w):
    from xml.etree import ElementTree as et

    o = c()
    if fmt in ("dict", "nested", "full", "single"):
        o.from_dict(w)
    elif fmt in ("json", "json_nested", "file", "filename"):
        o.from_json(w)
    elif fmt == "xml":
        o.from_xml(w)
    elif fmt == "xmltext":
        o.from_xml(et.fromstring(w.encode("utf8")))
    else:
        o.from_series(w)
    return o


def freeze(w):
    """content of what was written, to see that loading leaves it alone and that writing twice gives the same"""
    import pandas as pd
    from xml.etree import ElementTree as et

    if isinstance(w, Path):
        return w.read_text()
    if isinstance(w, pd.Series):
        return tuple((k, canon(v)) for k, v in w.items())
    if isinstance(w, str):
        return w
    if hasattr(w, "tag"):
        return et.tostring(w)
    return repr(deep(w))


def deep(w):
    return {k: deep(v) for k, v in w.items()} if isinstance(w, dict) else canon(w)


EMPTY = {None, "", ("l", ())}


def same(c, n, want, got, raw):
    if want == got or (want in EMPTY and got in EMPTY):
        return True
    if isinstance(want, tuple) and want and want[0] == "a" and isinstance(got, tuple) and got and got[0] == "a" and not want[2] and not got[2]:
        return True  # empty arrays of any shape
    if want in EMPTY and got == ("n", 0.0) and n.split(".")[-1] in ("x", "y", "z", "x2", "y2", "z2"):
        return True  # a coordinate that is not known is written as zero (documented for backwards compatibility)
    t = c()
    try:  # a default can be declared in another notation of the same value
        t.update_attribute(n, raw)
        return canon(read(t, n)) == got
    except Exception:
        return False


def content(path, spec):
    c, ent = cls(path), CATALOG[path]
    o = c()
    for f in REQUIRED.get(path.split(":")[1], []) if path.split(":")[1] != "Header" or ".jfiles." in path else []:
        v = ent[f] if f in ent else CATALOG[BIRRP][f.split(".")[1]]
        o.update_attribute(f, decode(v[0]))
    for f, i in spec:
        o.update_attribute(f, decode(ent[f][i]))
    return o


# fields without which an object cannot be read back: they are always filled
REQUIRED = {
    "Band": ["decimation_level", "index_max", "index_min"],
    "FeatureWeightSpec": ["feature_name"],
    "AppliedFilter": ["name"],
    "EMeasurement": ["chtype"],
    "HMeasurement": ["chtype"],
    "DataType": ["external_url", "input", "intention", "output"],
    "Estimate": ["external_url", "intention", "type"],
    "BirrpBlock": ["nread", "nskip"],
    "BirrpParameters": ["imode", "inputs", "jmode", "nar", "ncomp", "nf1", "nfinc", "nfsect", "npcs", "nz", "outputs", "references"],
}
BIRRP = "mt_metadata.transfer_functions.io.jfiles.metadata.birrp_parameters:BirrpParameters"
REQUIRED["Header"] = ["birrp_parameters." + f for f in REQUIRED["BirrpParameters"]]
# containers (M10, M13); a class with a field of its own name (read by M18 files only)
LEFT_OUT = {
    "mt_metadata.timeseries.experiment:Experiment",
    "mt_metadata.timeseries.filters.channel_response:ChannelResponse",
    "mt_metadata.transfer_functions.io.zfiles.metadata.channel:Channel",
}
# the names of the channels follow the keyword
DERIVED = re.compile(r"(^|channel_nomenclature\.)(ex|ey|hx|hy|hz|bx|by|bz)$")


def fields(path):
    return [f for f in sorted(CATALOG[path]) if not (path.split(":")[1] in ("ChannelNomenclature", "Processing") and DERIVED.search(f))]


def formats(path):
    """the classes of the transfer function formats have an XML form of their own (M19, M20)"""
    return [f for f in FORMATS if "xml" not in f or ".transfer_functions.io." not in path]


def wanted(path, n, fmt):
    if "xml" in fmt:
        if path.endswith(":Comment") and n == "time_stamp":
            return False  # <Comments author="..">text</Comments> has no time
        if n.endswith("additional_args"):
            return False  # XML has no types for the values of a dictionary
    return True


def required(c, ns):
    out = set()
    for k, f in c.model_fields.items():
        e = f.json_schema_extra
        if k in ns and isinstance(e, dict) and e.get("required"):
            out.add(k)
    return out


def flatten(w, at=""):
    out = set()
    for k, v in w.items():
        if isinstance(v, dict) and v:
            out |= flatten(v, f"{at}{k}.")
        else:
            out.add(at + str(k))
    return out


def filled(v):
    return not (isinstance(v, tuple) and v and v[0] == "a" and not v[2])


def trip(part, path, spec, fmt):
    c = cls(path)
    short, ns = path.split(":")[1], names(path)
    rep = {"class": path, "spec": spec, "format": fmt}
    o = content(path, spec)
    s0 = snap(o, ns)
    w = write(o, fmt)
    f0 = freeze(w)
    part.evaluations += 4
    if snap(o, ns) != s0:
        part.violation(f"{short}: writing {fmt} changes the object", "", rep)
    if freeze(write(o, fmt)) != f0:
        part.violation(f"{short}: writing {fmt} twice gives different results", "", rep)
    if fmt in ("full", "single"):
        # required fields (except empty arrays that are not zeros or poles) and those set to something are in the dictionary (a comment can be its text only)
        flat = flatten(next(iter(w.values())) if fmt == "full" else w)
        d0 = snap(c(), ns)
        need = {n for n in required(c, ns) if filled(s0[n]) or n in ("zeros", "poles")} | {n for n in ns if s0[n] != d0[n] and s0[n] not in EMPTY and filled(s0[n])}
        gone = sorted(n for n in need if not any(k == n or k.startswith(n + ".") or n.startswith(k + ".") for k in flat))
        if gone:
            part.violation(f"{short}: fields are missing from the {fmt} dictionary", f"{gone[:6]} with {str(spec)[:150]}", rep)
    p = load(c, fmt, w)
    if freeze(w) != f0:
        part.violation(f"{short}: loading {fmt} changes what it reads from", "", rep)
    got = snap(p, ns)
    for n in ns:
        if wanted(path, n, fmt) and not same(c, n, s0[n], got[n], read(o, n)):
            if path.endswith(":Station") and n == "id" and s0[n] == "" and got[n] == canon(o.fdsn.id):
                continue  # a station without a name is named by its FDSN identifier
            part.violation(f"{short}.{n}: lost or changed by {fmt}", f"{s0[n]!r} -> {got[n]!r} with {str(spec)[:150]}", rep)
    if all(s0[n] == got[n] for n in ns) and not (p == o and o == p):
        part.violation(f"{short}: not equal after {fmt}", "", rep)
    # what was read back is written the same again
    g = load(c, fmt, write(p, fmt))
    if snap(g, ns) != got:
        part.violation(f"{short}: a second {fmt} round trip changes it", f"{[(n, got[n], canon(read(g, n))) for n in ns if got[n] != canon(read(g, n))][:3]}", rep)
    part.transitions += 2


def specs(path, quick):
    ent = CATALOG[path]
    fs = fields(path)
    out = [[]]
    out += [[(f, i) for f in fs for i in [min(k, len(ent[f]) - 1)]] for k in (0, 1)]
    out.append([(f, (k % 2) % len(ent[f])) for k, f in enumerate(fs)])
    for f in fs:
        out += [[(f, i)] for i in range(len(ent[f]))]
    if not quick:
        out += [[(f, 0), (g, 0)] for f, g in itertools.combinations(fs, 2)]
    return out


def chunk(part, item):
    try:
        for path, spec, fmt in item:
            part.traces += 1
            try:
                trip(part, path, spec, fmt)
            except Exception as e:
                import traceback

                one = f".{spec[0][0]}" if len(spec) == 1 else " with no fields" if not spec else " with many fields" if len(spec) > 2 else f".{spec[0][0]}+{spec[1][0]}"
                part.violation(f"{path.split(':')[1]}{one}: {fmt} raises {type(e).__name__}",
                               f"{str(e)[:300]} {traceback.format_exc()[-300:]}", {"class": path, "spec": spec, "format": fmt})
            part.state((path, repr(spec), fmt))
    finally:
        if DIR and DIR[0] == os.getpid():
            shutil.rmtree(DIR[1], ignore_errors=True)
            globals()["DIR"] = None


def run(ctx):
    prepare()
    jobs = []
    for p in sorted(CATALOG):
        if p in LEFT_OUT:
            continue
        for s in specs(p, ctx.quick):
            # quick: a second value of a field only in the formats that differ in how values are written
            some = ctx.quick and (len(s) == 1 and s[0][1] > 0 or ".io." in p and len(s) == 1)
            jobs += [(p, s, f) for f in formats(p) if not some or f in ("full", "json", "xml", "series")]
    ctx.pmap(chunk, [jobs[i::128] for i in range(128)])
    ctx.bounds = {"classes": len(CATALOG) - len(LEFT_OUT), "formats": FORMATS, "contents x formats": len(jobs)}
    ctx.assumptions = ["'' and None are one empty value; an unknown coordinate is written as 0.0 (documented)"]
    ctx.sample(jobs[5])


def replay(data):
    from mc.core import Part

    prepare([data["class"]])
    p = Part()
    chunk(p, [(data["class"], [tuple(x) for x in data["spec"]], data["format"])])
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, "\n", d)
