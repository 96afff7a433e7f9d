"""Propose mc/catalog.json: for every metadata class the values that every field must accept and
report unchanged.  Run by hand; the result is reviewed and committed, and the checks read only the
committed file (a field that stops accepting or starts altering a catalogued value is a violation)."""
import enum, importlib, inspect, json, pkgutil, sys, typing

sys.path.insert(0, "/verif")
from mc.core import quiet

quiet()
import mt_metadata
from mt_metadata.base import MetadataBase
from mc.metaobj import canon, read, snapshot

for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
    importlib.import_module(m.name)


def subs(c):
    for s in c.__subclasses__():
        yield s
        yield from subs(s)


TEXT = ["alpha", "beta 2", "alpha1", "beta_2", "ZU", "AB", "LQN", "MFE", "2020", "2021-2022", "WGS 84", "NAD27",
        "Volt", "nanoTesla", "ex", "ey", "hx", "hy", "CC-BY-4.0", "CC0-1.0", "10.1000/xyz"]
TIME = ["2020-01-02T03:04:05+00:00", "2021-06-07T08:09:10.500000+00:00", "2020-01-02", "2021-06-07", "2020", "2021", "03:04:05", "08:09:10"]


def cands(f):
    a = f.annotation
    s = str(a)
    for x in [a, *typing.get_args(a)]:
        if isinstance(x, type) and issubclass(x, enum.Enum):
            return [m.value for m in x], 99
    if "MTime" in s:
        return TIME, 2
    if "Email" in s:
        return ["ann@home.org", "bob@work.com", ["ann@home.org"], ["bob@work.com", "c@d.ef"]], 2
    if "Url" in s:
        return ["https://one.org/a", "https://two.com/b", "https://doi.org/10.1000/xyz", "https://doi.org/10.1000/abc",
                ["https://one.org/a"], ["https://two.com/b", "https://x.org/c"]], 2
    if a is bool or s == "bool | None":
        return [True, False], 2
    if a is int or s in ("int | None", "typing.Optional[int]", "int | None | str"):
        return [3, 8, 1, 2], 2
    if a is float or s in ("float | None", "float | str | None", "float | str"):
        return [1.5, 12.25, 0.5, 0.25], 2
    if s == "list[float]":
        return [[1.5, 2.0], [3.25]], 2
    if "list[int]" in s:
        return [[1, 2], [4]], 2
    if "list[str]" in s:
        return [["a1", "b2"], ["c3"]], 2
    if s == "str | list | None":
        return ["one", "two three"], 2
    if "ndarray | list[float]" in s or "numpy.float64" in s:
        return [{"nd": [1.5, 2.0, 4.0]}, {"nd": [0.25, 0.5]}], 2
    if "ndarray | list[complex]" in s:
        return [{"cnd": [[-1.5, 2.0], [-1.5, -2.0]]}, {"cnd": [[-3.0, 0.0]]}], 2
    if s == "<class 'dict'>":
        return [{"dict": {"alpha": 0.5}}, {"dict": {"beta": 2}}], 2
    if a is str or "str |" in s or s == "typing.Optional[str]":
        return TEXT, 2
    return [], 0


def main():
    from mc.metaobj import decode

    out, notes = {}, []
    classes = sorted({c for c in subs(MetadataBase) if c.__module__.startswith("mt_metadata") and "test" not in c.__module__},
                     key=lambda c: (c.__module__, c.__name__))
    for c in classes:
        try:
            o = c()
        except Exception:
            notes.append(f"not constructible without arguments: {c}")
            continue
        base = snapshot(o)
        ent = {}
        for n in o.get_attribute_list():
            *p, l = n.split(".")
            ob = o
            for q in p:
                ob = getattr(ob, q)
            f = type(ob).model_fields.get(l)
            if c.__name__ in ("FeatureFC", "FeatureTS") and n in ("name", "domain", "description"):
                continue  # fixed by the class
            if f is None:
                notes.append(f"no field {c.__name__}.{n}")
                continue
            vals, mx = cands(f)
            keep, coupled = [], set()
            for v in vals:
                if len(keep) >= mx:
                    break
                t = c()
                try:
                    t.update_attribute(n, decode(v))
                except Exception:
                    continue
                s2 = snapshot(t)
                if s2[n] != canon(decode(v)):
                    continue
                coupled |= {k for k in s2 if k != n and s2[k] != base[k]}
                keep.append(v)
                # fields that the class itself fixes are left out
                other = next((k for k in ent if k != n), None)
                if other:
                    t.update_attribute(other, decode(ent[other][0]))
                    if snapshot(t)[n] != canon(decode(v)):
                        keep.pop()
                        notes.append(f"FIXED BY CLASS {c.__name__}.{n}")
            # a value equal to the default is useful, but not in first place
            keep.sort(key=lambda v: canon(decode(v)) == base[n])
            if coupled and c.__name__ != "EMeasurement":
                notes.append(f"COUPLED, left out {c.__name__}.{n} -> {sorted(coupled)}")
                continue
            if keep:
                ent[n] = keep
            else:
                notes.append(f"no value {c.__module__[12:]}.{c.__name__} {n} {f.annotation}"[:200])
        out[f"{c.__module__}:{c.__name__}"] = ent
    json.dump(out, open("/verif/mc/catalog.json", "w"), indent=0, sort_keys=True)
    print("\n".join(notes))
    print(len(out), sum(map(len, out.values())))


main()
