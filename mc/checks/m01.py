"""Keyed-ordered container vs. a plain list-of-pairs reference."""
import copy as _copy

from mc.core import Mismatch, Spec, explore, first_ops, outcome


class Obj:
    """stand-in for an archive object that carries its own identity"""

    def __init__(self, tag, id=None, component=None):
        self.tag = tag
        if id is not None:
            self.id = id
        if component is not None:
            self.component = component

    def copy(self):
        o = Obj(self.tag)
        o.__dict__.update(self.__dict__)
        return o

    def key(self):
        return getattr(self, "id", None) or getattr(self, "component", None)

    def __eq__(self, other):
        return isinstance(other, Obj) and self.__dict__ == other.__dict__

    def __repr__(self):
        return f"<{self.key()}:{self.tag}>"


def mk(code):
    """value codes used in histories"""
    if code.startswith("i:"):
        return Obj(code, id=code.split(":")[1])
    if code.startswith("c:"):
        return Obj(code, component=code.split(":")[1])
    return int(code)


def rep(v):
    return (v.tag, v.key()) if isinstance(v, Obj) else v


class LD(Spec):
    name = "keyed-list"

    def __init__(self, seedpairs=()):
        self.seedpairs = seedpairs

    def new(self):
        from mt_metadata.common.list_dict import ListDict

        real, model = ListDict(), []
        for k, c in self.seedpairs:
            v = mk(c)
            real[k] = v
            model.append([k, v])
        return [real, model]

    def ops(self, model):
        o = []
        for c in ("i:a:1", "i:a:2", "i:b:1", "c:c:1", "7", "8"):
            o.append(["append", c])
        for k, c in (("a", "3"), ("b", "i:b:9"), ("0", "4")):
            o.append(["set", k, c])
        for i, c in ((0, "5"), (1, "i:d:1"), (4, "6"), (4, "i:a:5")):
            o.append(["seti", i, c])
        for k in ("a", "b", "0", 0, 1, None):
            o.append(["remove", k])
        for k in ("a", "b", "c", "0"):
            o.append(["pop", k])
        for kind in ("dict", "ld"):
            o.append(["extend", kind, ["b", "z", "a"], []])
            o.append(["extend", kind, ["b", "z"], ["b"]])
            o.append(["update", kind, ["a", "y"]])
        o.append(["extend", "dict", ["b", "z"], "z"])
        o.append(["sort"])
        o.append(["clear"])
        o.append(["copy"])
        if model:
            o.append(["rename", 0, "q"])
            o.append(["rename", len(model) - 1, "a"])
        for s in ([0, 1], [1, None], [None, 2], ["b", None], [None, "b"], ["a", "b"], [0, None, 2],
                  [None, None, 2], [None, None, -1], [-1, None], [None, -1], [None, "b", 2], ["a", None, 2], [None, None]):
            o.append(["slice", s])
        return o

    # ---- reference operations ------------------------------------------------
    @staticmethod
    def m_put(m, k, v):
        for p in m:
            if p[0] == k:
                p[1] = v
                return
        m.append([k, v])

    @staticmethod
    def m_find(m, k):
        for i, p in enumerate(m):
            if p[0] == k:
                return i
        return None

    def apply(self, pair, op):
        from mt_metadata.common.list_dict import ListDict

        real, m = pair
        name = op[0]
        if name == "append":
            v = mk(op[1])
            n = len(m)
            got = outcome(real.append, v)
            if isinstance(v, Obj):
                self.m_put(m, v.key(), v)
            else:
                # an item without identity is added under a fresh key
                ks = list(real.keys())
                if len(ks) != n + 1 or ks[-1] in [p[0] for p in m]:
                    raise Mismatch(
                        "appending an item without identity replaces an existing item",
                        f"keys before {[p[0] for p in m]} after {ks}",
                    )
                if self.m_find(m, str(n)) is None and ks[-1] != str(n):
                    raise Mismatch("append key", f"{ks[-1]!r} expected {str(n)!r}")
                m.append([ks[-1], v])
            exp = ("ok", None)
        elif name == "set":
            v = mk(op[2])
            got = outcome(real.__setitem__, op[1], v)
            self.m_put(m, op[1], v)
            exp = ("ok", None)
        elif name == "seti":
            v = mk(op[2])
            got = outcome(real.__setitem__, op[1], v)
            if op[1] < len(m):
                m[op[1]][1] = v
            elif isinstance(v, Obj):
                self.m_put(m, v.key(), v)
            else:
                self.m_put(m, str(op[1]), v)
            exp = ("ok", None)
        elif name == "remove":
            k = op[1]
            got = outcome(real.remove, k)
            if isinstance(k, int):
                i = k if k < len(m) else None
            else:
                i = self.m_find(m, k)
            if i is None:
                exp = ("exc", "KeyError")
            else:
                del m[i]
                exp = ("ok", None)
        elif name == "pop":
            got = outcome(real.pop, op[1])
            i = self.m_find(m, op[1])
            if i is None:
                exp = ("exc", "KeyError")
            else:
                k, v = m.pop(i)
                exp = ("ok", {k: v})
        elif name in ("extend", "update"):
            vals = [(k, Obj(name + k, id=k)) for k in op[2]]
            other = dict(vals) if op[1] == "dict" else ListDict(vals)
            skip = op[3] if name == "extend" else []
            got = (
                outcome(real.extend, other, skip)
                if name == "extend"
                else outcome(real.update, other)
            )
            for k, v in vals:
                if k in skip:
                    continue
                self.m_put(m, k, v)
            exp = ("ok", None)
            if list(other.keys()) != [k for k, _ in vals]:
                raise Mismatch(f"{name} changes its argument", f"{list(other.keys())}")
        elif name == "sort":
            od = outcome(real.sort, inplace=False)
            if od[0] != "ok" or [k for k in od[1].keys()] != sorted(p[0] for p in m):
                raise Mismatch("sorted view", f"{od}")
            if real.keys() != [p[0] for p in m]:
                raise Mismatch("sort(inplace=False) changes the container", f"{real.keys()}")
            got = outcome(real.sort)
            m.sort(key=lambda p: p[0])
            exp = ("ok", None)
        elif name == "clear":
            got = outcome(real.clear)
            m.clear()
            exp = ("ok", None)
        elif name == "copy":
            got = outcome(real.copy)
            if got[0] != "ok":
                raise Mismatch("copy raises", str(got))
            new = got[1]
            if not (new == real) or len(new) != len(real):
                raise Mismatch("copy differs from the original", f"{new!r} {real!r}")
            # disturb the original in every way, the copy must not move
            before = [(k, rep(v)) for k, v in new.items()]
            for v in real.values():
                if isinstance(v, Obj):
                    v.tag = "disturbed"
            real["disturb"] = 1
            if len(real):
                real.remove(0)
            if [(k, rep(v)) for k, v in new.items()] != before:
                raise Mismatch("copy shares state with the original", f"{before} -> {new!r}")
            pair[0] = new
            m2 = [[k, v] for k, v in new.items()]
            for a, b in zip(m, m2):
                if isinstance(a[1], Obj):
                    a[1].tag = b[1].tag if a[1] is not b[1] else a[1].tag
                    a[1] = b[1]
            return pair
        elif name == "rename":
            i, newid = op[1], op[2]
            v = m[i][1] if i < len(m) else None
            clash = any(p[0] == newid for j, p in enumerate(m) if j != i) or any(
                isinstance(p[1], Obj) and p[1].key() == newid for j, p in enumerate(m) if j != i
            )
            stale = [p[1].key() for j, p in enumerate(m) if j != i and isinstance(p[1], Obj)]
            plain = [p[0] for j, p in enumerate(m) if j != i and not isinstance(p[1], Obj)]
            allk = stale + plain + [newid]
            if not isinstance(v, Obj) or clash or len(set(allk)) != len(allk):
                return pair  # two objects claiming one identity: outside the contract
            if hasattr(v, "id"):
                v.id = newid
            else:
                v.component = newid
            exp_map = {}
            for p in m:
                if isinstance(p[1], Obj) and p[1].key() != p[0]:
                    exp_map[p[0]] = p[1].key()
                    p[0] = p[1].key()
            got = outcome(real.update_keys)
            exp = ("ok", exp_map)
        elif name == "slice":
            s = list(op[1]) + [None] * (3 - len(op[1]))
            idx, bad = [], False
            for b in s[:2]:
                if isinstance(b, str):
                    i = self.m_find(m, b)
                    bad |= i is None
                    idx.append(i)
                else:
                    idx.append(b)
            got = outcome(real.__getitem__, slice(*s))
            if bad:
                exp = ("exc", "KeyError")
            else:
                if got[0] != "ok":
                    raise Mismatch("slice raises", f"{s} {got}")
                before = [(k, rep(v)) for k, v in real.items()]
                if before != [(k, rep(v)) for k, v in m]:
                    raise Mismatch("slicing changes the container", f"{before}")
                pair[0] = got[1]
                pair[1] = [list(p) for p in m[slice(idx[0], idx[1], s[2])]]
                return pair
        else:
            raise AssertionError(op)
        if got[0] != exp[0] or (
            (got[1] != exp[1]) if name in ("pop", "rename") or exp[0] == "exc" else False
        ):
            raise Mismatch(f"{name} result", f"op {op}: got {got} expected {exp}")
        return pair

    def observe(self, pair):
        from mt_metadata.common.list_dict import ListDict

        real, m = pair
        want = [(k, rep(v)) for k, v in m]
        views = {
            "items": [(k, rep(v)) for k, v in real.items()],
            "zip": [(k, rep(v)) for k, v in zip(real.keys(), real.values())],
            "iter": [(k, rep(v)) for k, v in zip(real.keys(), list(real))],
            "bykey": [(k, rep(outcome(real.__getitem__, k)[1])) for k, _ in m],
            "byindex": [
                (k, rep(outcome(real.__getitem__, i)[1])) for i, (k, _) in enumerate(m)
            ],
        }
        for n, v in views.items():
            if v != want:
                raise Mismatch(f"view {n}", f"got {v} expected {want}")
        if len(real) != len(m):
            raise Mismatch("len", f"{len(real)} {len(m)}")
        for k in ("a", "b", "nope", "0"):
            if self.m_find(m, k) is None and outcome(real.__getitem__, k) != ("exc", "KeyError"):
                raise Mismatch("missing key lookup", f"{k} in {want}")
        for i in (len(m), len(m) + 1):
            if outcome(real.__getitem__, i) != ("exc", "KeyError"):
                raise Mismatch("missing index lookup", f"{i} in {want}")
        same = ListDict([(k, v) for k, v in m])
        if not (real == same) or not (same == real):
            raise Mismatch("equality", f"not equal to rebuilt {want}")
        if m:
            fewer = ListDict([(k, v) for k, v in m[:-1]])
            if real == fewer or fewer == real:
                raise Mismatch("equality", "equal to a shorter container")
            other = ListDict([(k, v) for k, v in m[:-1]] + [(m[-1][0], object())])
            if real == other:
                raise Mismatch("equality", "equal with a different value")
        return want


SEEDS = [(), (("a", "i:a:1"), ("b", "2"), ("c", "c:c:1"))]


def job(part, item, depth, dedupe):
    si, pre = item
    explore(part, LD(SEEDS[si]), depth, prefix=pre, dedupe_from=dedupe)


def run(ctx):
    depth = 3 if ctx.quick else 4
    dedupe = None if ctx.quick else 3
    items = [(si, pre) for si in range(len(SEEDS)) for pre in first_ops(LD(SEEDS[si]), 1)]
    ctx.bounds = {
        "operations_per_history": depth,
        "alphabet": "append/set by key/set by position/remove/pop/extend/update/sort/"
        "clear/copy/rename+rekey/slice over <=4 keys, 2 starting contents",
        "reduction": "none" if dedupe is None else f"state merging from depth {dedupe}",
    }
    ctx.assumptions = ["two objects never claim the same identity when keys are refreshed"]
    ctx.pmap(job, items, depth=depth, dedupe=dedupe)


def replay(data):
    from mc.core import run_history

    for s in SEEDS:
        sp = LD(s)
        try:
            pair = run_history(sp, data["history"])
            sp.observe(pair)
        except Mismatch as m:
            print("reproduced:", m)
