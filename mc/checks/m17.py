"""M17: histories of setting the quantities of a transfer function, against a record of what was set last."""
import itertools

from mc.core import Mismatch, Spec, bfs, bfs_replay, h64

# quantity: (rows, columns, complex)
Q = {
    "impedance": ("ee", "hh", 1), "tipper": ("z", "hh", 1), "impedance_error": ("ee", "hh", 0), "tipper_error": ("z", "hh", 0),
    "impedance_model_error": ("ee", "hh", 0), "tipper_model_error": ("z", "hh", 0), "transfer_function": ("eez", "hh", 1),
    "transfer_function_error": ("eez", "hh", 0), "transfer_function_model_error": ("eez", "hh", 0),
    "inverse_signal_power": ("hh", "hh", 1), "residual_covariance": ("eez", "eez", 1),
}
NAMES = {
    "standard": {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"},
    "numbered": {"ex": "e1", "ey": "e2", "hx": "b1", "hy": "b2", "hz": "b3"},
    "odd": {"ex": "zz", "ey": "aa", "hx": "ym", "hy": "bm", "hz": "mm"},
}


def labels(kind, nm):
    return {"ee": [nm["ex"], nm["ey"]], "hh": [nm["hx"], nm["hy"]], "z": [nm["hz"]], "eez": [nm["ex"], nm["ey"], nm["hz"]]}[kind]


def values(q, n, which):
    import numpy as np

    r, c, cx = Q[q]
    shape = (n, len(r), len(c))
    if which == "zero":
        return np.zeros(shape, dtype=complex if cx else float)
    k = list(Q).index(q) + 1
    a = np.arange(1, 1 + np.prod(shape), dtype=float).reshape(shape) + 10 * k + (0.5 if which == "B" else 0)
    if which == "sparse":
        a[:, 0, 0] = 0
        a[:, -1, -1] = 0
    return a + 1j * (a / 7 - 3) if cx else a


PERIODS = {"long": (100.0, 10.0, 2.5), "short": (0.25, 0.5, 8.0), "sub": (4.0, 3.0, 2.0)}


class Model:
    def __init__(self, names, n):
        import numpy as np

        self.nm, self.n = NAMES[names], n
        self.period, self.steps = (1.0,), 0
        self.blank(1)

    def blank(self, n):
        import numpy as np

        self.v = {"tf": np.zeros((n, 3, 2), complex), "err": np.zeros((n, 3, 2)), "mod": np.zeros((n, 3, 2)),
                  "isp": np.zeros((n, 2, 2), complex), "res": np.zeros((n, 3, 3), complex)}

    @property
    def empty(self):
        return not any(a.any() for a in self.v.values())

    def where(self, q):
        key = "isp" if q.startswith("inv") else "res" if q.startswith("res") else "mod" if "model" in q else "err" if "error" in q else "tf"
        rows = slice(0, 2) if q.startswith("imp") else slice(2, 3) if q.startswith("tip") else slice(None)
        return key, rows

    def get(self, q):
        import numpy as np

        key, rows = self.where(q)
        has = self.v["tf"][:, rows].any() if key in ("tf", "err", "mod") else self.v[key].any()
        return self.v[key][:, rows] if has else None

    def put(self, q, a):
        import numpy as np

        key, rows = self.where(q)
        self.v[key][:, rows] = a
        if key in ("isp", "res") and self.v["isp"].any() and self.v["res"].any():
            r = np.einsum("nii->ni", self.v["res"])
            s = np.einsum("nii->ni", self.v["isp"])
            self.v["err"] = np.sqrt(np.abs(r[:, :, None] * s[:, None, :]))

    def key(self):
        return (self.period, tuple(sorted((k, a.tobytes()) for k, a in self.v.items())))


def observe(tf, m):
    import numpy as np

    if tuple(float(x) for x in tf.period) != m.period:
        raise Mismatch("periods", f"{tf.period} expected {m.period}")
    if not np.allclose(tf.frequency, 1 / np.array(m.period), rtol=1e-15):
        raise Mismatch("frequencies", f"{tf.frequency}")
    for q, (r, c, cx) in Q.items():
        want, got = m.get(q), getattr(tf, q)
        if (want is None) != (got is None):
            raise Mismatch(f"{q} present", f"want {want} got {got}")
        if want is None:
            continue
        if [str(x) for x in got.coords["output"].data] != labels(r, m.nm) or [str(x) for x in got.coords["input"].data] != labels(c, m.nm):
            raise Mismatch(f"{q} components", f"{got.coords}")
        if got.dims != ("period", "output", "input") or got.shape != want.shape:
            raise Mismatch(f"{q} shape", f"{got.dims} {got.shape}")
        ok = np.allclose(got.data, want, rtol=1e-12, atol=0) if q.endswith("error") else (got.data == want).all()
        if not ok:
            raise Mismatch(f"{q} values", f"want {want.tolist()} got {got.data.tolist()}")
    has = {"has_impedance": m.get("impedance"), "has_tipper": m.get("tipper"), "has_transfer_function": m.get("transfer_function"),
           "has_inverse_signal_power": m.get("inverse_signal_power"), "has_residual_covariance": m.get("residual_covariance")}
    for k, w in has.items():
        if bool(getattr(tf, k)()) != (w is not None):
            raise Mismatch(k, f"{getattr(tf, k)()}")


class TFSpec(Spec):
    def __init__(self, param):
        self.names, self.n, self.core = param
        self.name = f"TF {self.names} {self.n} periods" if not self.core else f"TF core {self.names} {self.n}"

    def new(self):
        import numpy as np

        from mt_metadata.transfer_functions.core import TF

        m = Model(self.names, self.n)
        how = self.core if self.core not in ("", "brief") else "later"
        kw = {} if self.names == "standard" else {"channel_nomenclature": dict(m.nm)}
        if how == "default":
            return TF(**kw), m
        p = np.array(PERIODS["long"][: self.n])
        if how == "later":
            tf = TF(**kw)
            tf.period = p
        elif how == "frequency":
            tf = TF(frequency=1 / p, **kw)
        else:
            tf = TF(period=p, **kw)
        m.period = tuple(float(x) for x in (1 / (1 / p) if how == "frequency" else p))
        m.blank(self.n)
        return tf, m

    def ops(self, m):
        core = self.core if self.core != "brief" else m and m.steps  # brief: every operation first, the core ones later
        out = []
        for q in Q:
            out.append(("set", q, "A", "array"))
            out.append(("set", q, "A", "labelled"))
            if core and self.core == "brief":
                out += [("set", q, "zero", "array")]
            if not core:
                out += [("set", q, "B", "labelled reversed"), ("set", q, "sparse", "list"), ("set", q, "zero", "array"), ("set", q, "A", "alias")]
            if not core and q not in ("inverse_signal_power", "residual_covariance"):
                out.append(("set", q, "none", "none"))
        bad = ["text", "mapping", "more periods", "transposed", "flat", "labels", "no labels", "labelled more periods", "number"]
        qs = Q if not core else ["impedance", "tipper_error", "inverse_signal_power"]
        out += [("bad", q, b) for q in qs for b in (bad if not core else bad[2:6])]
        out += [("period", "short"), ("frequency", "sub"), ("period", "long")]
        if not core:
            out += [("bad period", "more")]
        return out

    def apply(self, pair, op):
        import numpy as np
        import xarray as xr

        tf, m = pair
        m.steps += 1
        if op[0] == "period":
            p = np.array(PERIODS[op[1]][: self.n])
            if len(p) != len(m.period) and not m.empty:
                return
            if len(p) != len(m.period):
                m.blank(self.n)
            tf.period = p
            m.period = tuple(float(x) for x in p)
            return
        if op[0] == "frequency":
            f = np.array(PERIODS[op[1]][: self.n])
            if len(f) != len(m.period) and not m.empty:
                return
            if len(f) != len(m.period):
                m.blank(self.n)
            tf.frequency = f
            m.period = tuple(float(x) for x in 1.0 / f)
            return
        if op[0] == "bad period":
            if len(m.period) == 1:
                return  # a single period is replaced while nothing is set
            try:
                tf.period = np.arange(1.0, len(m.period) + 2)
            except Exception:
                return
            raise Mismatch("accepted: another number of periods", "")
        n = len(m.period)
        q = op[1]
        r, c, cx = Q[q]
        L = lambda a, p=None, rl=None, cl=None: xr.DataArray(
            a, dims=["period", "output", "input"],
            coords={"period": list(m.period) if p is None else p, "output": labels(r, m.nm) if rl is None else rl, "input": labels(c, m.nm) if cl is None else cl})
        if op[0] == "set":
            if op[2] == "none":
                setattr(tf, q, None)
                return
            a = values(q, n, op[2])
            form = op[3]
            given = a.copy()
            if form == "list":
                setattr(tf, q, given.tolist())
            elif form == "labelled":
                setattr(tf, q, L(given))
            elif form == "labelled reversed":
                x = L(given)
                setattr(tf, q, x.isel(output=slice(None, None, -1), input=slice(None, None, -1)))
            else:
                setattr(tf, q, given)
            m.put(q, a)
            if form == "alias":
                given[:] = 99
                got = getattr(tf, q)
                if got is not None:
                    got.data[:] = 77
            return
        a = values(q, n, "A")
        b = {"text": "abc", "mapping": {"a": 1}, "number": 5, "more periods": values(q, n + 1, "A"), "flat": a[:, 0, 0],
             "transposed": np.zeros((n, a.shape[2] + 1, a.shape[1])), "no labels": xr.DataArray(a, dims=["x", "y", "z"]),
             "labels": L(a, rl=["q%i" % i for i in range(a.shape[1])]),
             "labelled more periods": L(values(q, n + 1, "A"), p=list(np.arange(1.0, n + 2)))}[op[2]]
        if op[2] == "labelled more periods" and n == 1 and m.empty:
            setattr(tf, q, b)  # the first quantity given with periods of its own defines the periods
            m.period = tuple(float(x) for x in b.period.data)
            m.blank(n + 1)
            m.put(q, b.data)
            return
        try:
            setattr(tf, q, b)
        except Exception:
            return
        raise Mismatch(f"accepted: {op[2]} for {q}", "")

    def observe(self, pair):
        tf, m = pair
        observe(tf, m)
        return h64(m.key())


def make(param):
    return TFSpec(param)


def copies(part, item):
    """a copy is equal, independent in both directions, and differs after either side changes"""
    for names, n, q in item:
        spec = TFSpec((names, n, ""))
        rep = {"copy": [names, n, q]}
        try:
            pair = spec.new()
            for k in Q:
                spec.apply(pair, ("set", k, "A", "array"))
            tf, m = pair
            c = tf.copy()
            part.traces += 1
            part.transitions += 1
            if not (c == tf and tf == c) or c != tf:
                raise Mismatch("copy is not equal")
            if tf == 5 or tf == None or tf == "TF" or not (tf != {}):  # noqa: E711
                raise Mismatch("equal to something that is not a transfer function")
            import copy as cp

            m0 = cp.deepcopy(m)
            spec.apply(pair, ("set", q, "B", "array"))
            observe(c, m0)
            observe(tf, m)
            if q in ("impedance", "tipper", "transfer_function") and (tf == c or c == tf):
                raise Mismatch("equal although the transfer function differs")
            c.station, c.latitude = "other", 12.5
            if tf.station == "other" or tf.latitude == 12.5:
                raise Mismatch("metadata shared with a copy")
            part.state(("copy", names, n, q))
        except Mismatch as e:
            part.violation(f"copy: {e.sig}", f"{names} {n} {q} {e.detail}", rep)
        except Exception as e:
            part.violation(f"copy: raises {type(e).__name__}", f"{names} {n} {q} {e}", rep)


def run(ctx):
    k = "brief" if ctx.quick else ""
    full = [("odd", 2, k), ("standard", 1, k), ("standard", 3, k)]
    core = [(a, n, h) for a in NAMES for n in (1, 3) for h in ("default", "period", "frequency")]
    ctx.bounds = {"quantities": list(Q), "full_alphabet": len(TFSpec(full[0]).ops(None)), "core_alphabet": len(TFSpec(core[0]).ops(None))}
    if ctx.quick:
        n = bfs(ctx, make, full, 2, 1)
        n += bfs(ctx, make, core[:2] + core[-2:], 2, 1)
    else:
        n = bfs(ctx, make, full + [("numbered", 2, "")], 3, 1)
        n += bfs(ctx, make, core, 3, 1)
    ctx.bounds["depth"] = 2 if ctx.quick else 3
    ctx.counts["histories_per_level"] = n
    jobs = [(a, k, q) for a in NAMES for k in (1, 2) for q in Q]
    ctx.pmap(copies, [jobs[i::16] for i in range(16)])
    ctx.assumptions = ["errors derived from covariances are compared to 12 digits",
                       "labelled data carry the periods of the transfer function; into an empty one-period transfer function they bring their own"]


def replay(data):
    if "copy" in data:
        from mc.core import Part

        p = Part()
        copies(p, [data["copy"]])
        for s, (d, _, _) in p.violations.items():
            print("reproduced:", s, d)
        return
    bfs_replay(make, data)
