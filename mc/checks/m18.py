"""M18: merging transfer functions, against a table of (period, input) -> data."""
import itertools

from mc.core import Mismatch

VARS = ("impedance", "tipper", "impedance_error", "tipper_error", "impedance_model_error", "tipper_model_error",
        "inverse_signal_power", "residual_covariance")
SHAPE = {"impedance": (2, 2), "tipper": (1, 2), "inverse_signal_power": (2, 2), "residual_covariance": (3, 3)}


def cell(k, p, v):
    """data of quantity v of input k at period p; no error follows from the covariances of another quantity"""
    import numpy as np

    shape = SHAPE[v.replace("_model_error", "").replace("_error", "")]
    a = np.arange(1, 1 + np.prod(shape), dtype=float).reshape(shape) + 1000 * k + 100 * VARS.index(v) + 10 * float(p)
    return a if "error" in v else a * (1 - 0.5j)


def make(k, periods, rich=True):
    import numpy as np

    from mt_metadata.transfer_functions.core import TF

    tf = TF(period=np.array(periods, dtype=float))
    for v in ("inverse_signal_power", "residual_covariance") + VARS[:6] if rich else ("impedance",):
        setattr(tf, v, np.array([cell(k, p, v) for p in periods]))
    tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation = f"mt0{k}", f"survey{k}", 10.0 + k, 20.0 + k, 100.0 * k
    return tf


def check(tf, want, what, rich=True):
    """want: [(period, input)]; the order of the inputs at one period is free"""
    import numpy as np

    ps = [float(p) for p in tf.period]
    if ps != [p for p, _ in want]:
        raise Mismatch(f"{what}: periods", f"{ps} expected {want}")
    if len(set(ps)) < len(ps):
        z = tf.impedance.data[:, 0, 0].real
        got = [(p, round((x - 1 - 10 * p) / 1000)) for p, x in zip(ps, z)]
        if sorted(got) != sorted(want):
            raise Mismatch(f"{what}: inputs", f"{got} expected {want}")
        want = got
    for v in VARS if rich else ("impedance",):
        got = getattr(tf, v)
        if got is None:
            if want:
                raise Mismatch(f"{what}: {v} lost")
            continue
        exp = np.array([cell(k, p, v) for p, k in want])
        if got.shape != exp.shape or not (got.data == exp).all():
            raise Mismatch(f"{what}: {v}", f"{got.data.tolist()} expected {exp.tolist()}")


def meta(tf, k, what):
    got = (tf.station, tf.survey, tf.latitude, tf.longitude, tf.elevation)
    if got != (f"mt0{k}", f"survey{k}", 10.0 + k, 20.0 + k, 100.0 * k):
        raise Mismatch(f"{what}: metadata", str(got))


def inside(p, lim):
    return (lim[0] is None or p >= lim[0]) and (lim[1] is None or p <= lim[1])


def one(periods, limits, forms, inplace, rich=True):
    """merge input 0 with the others; forms: how each of the others is given"""
    tfs = [make(k, p, rich) for k, p in enumerate(periods)]
    others = [tf if f == "tf" else {"tf": tf, "period_min": limits[i + 1][0], "period_max": limits[i + 1][1]}
              for i, (tf, f) in enumerate(zip(tfs[1:], forms))]
    want = sorted((float(p), k) for k, ps in enumerate(periods) for p in ps if inside(p, limits[k]))
    kw = {}
    for name, x in zip(("period_min", "period_max"), limits[0]):
        if x is not None:
            kw[name] = x
    arg = others[0] if len(others) == 1 and inplace != "list" else others
    r = tfs[0].merge(arg, inplace=inplace is True, **kw)
    if inplace is True:
        if r is not None:
            raise Mismatch("in place returns something")
        r = tfs[0]
    elif r is tfs[0]:
        raise Mismatch("returns the receiver")
    check(r, want, "result", rich)
    meta(r, 0, "result")
    for k, (tf, ps) in enumerate(zip(tfs, periods)):
        if k or inplace is not True:
            check(tf, [(float(p), k) for p in ps], "input", rich)
            meta(tf, k, "input")
    if want:  # the result does not share its data with the inputs
        import numpy as np

        r.impedance = np.zeros((len(want), 2, 2), dtype=complex) + 5
        r.station = "changed"
        for k, (tf, ps) in enumerate(zip(tfs, periods)):
            if k or inplace is not True:
                check(tf, [(float(p), k) for p in ps], "input after the result changed", rich)
                meta(tf, k, "input after the result changed")
    return tuple(want)


def job(part, items):
    for it in items:
        try:
            part.traces += 1
            part.transitions += len(it[0]) - 1
            r = one(*it)
            part.state((str(it[0]), str(r)))
            part.sample(f"{it} -> {r}")
        except Mismatch as e:
            part.violation(f"merge: {e.sig}", f"{it} {e.detail}", {"one": it})
        except Exception as e:
            part.violation(f"merge: raises {type(e).__name__}", f"{it} {e}", {"one": it})


def chain(part, items):
    """merging step by step gives the same as what each step selects from what is there"""
    for split, order, inplace in items:
        rep = {"chain": [split, order, inplace]}
        try:
            part.traces += 1
            sets = {k: [p for p, o in zip((1, 2, 3, 4), split) if o == k] for k in (0, 1, 2)}
            tfs = {k: make(k, sets[k]) for k in (0, 1, 2)}
            r, want = tfs[0], [(float(p), 0) for p in sets[0]]
            for step, k in enumerate(order):
                lim = {"period_max": 3.0} if step else {}
                x = r.merge(tfs[k], inplace=inplace, **lim)
                r = r if inplace else x
                if step:
                    want = [(p, o) for p, o in want if p <= 3]
                want = sorted(want + [(float(p), k) for p in sets[k]])
                part.transitions += 1
                check(r, want, f"step {step}")
                meta(r, 0, f"step {step}")
            part.state(("chain", split, order, inplace))
        except Mismatch as e:
            part.violation(f"chain: {e.sig}", f"{rep} {e.detail}", rep)
        except Exception as e:
            part.violation(f"chain: raises {type(e).__name__}", f"{rep} {e}", rep)


def refusals(part):
    for bad in (10, "x", None, {}, {"tf": make(1, [3])}, [1, 2], {"tf": make(1, [3]), "period_min": 1}, [make(1, [3]), 5],
                {"tf": make(1, [3]), "period_min": 1, "period_max": 5, "x": 1}):
        for inplace in (False, True):
            a = make(0, [1, 2])
            part.traces += 1
            part.transitions += 1
            try:
                a.merge(bad, inplace=inplace)
            except Exception:
                try:
                    check(a, [(1.0, 0), (2.0, 0)], "receiver after a refused merge")
                except Mismatch as e:
                    part.violation(f"refusal: {e.sig}", f"{bad}", {"refusal": str(bad)})
                continue
            part.violation("accepted: not a transfer function", f"{bad}", {"refusal": str(bad)})


def cases(quick):
    none = (None, None)
    L = (1, 2, 3, 4)
    sets = [p for r in ((1, 2) if quick else (1, 2, 3)) for c in itertools.combinations(L, r) for p in itertools.permutations(c)]
    pairs = [((a, b), (none, none), (f,), ip) for a in sets for b in sets if not set(a) & set(b)
             for f, ip in ((("tf", False), ("dict", True)) if quick else itertools.product(("tf", "dict"), (False, True, "list")))]
    triples = []
    for split in itertools.product((0, 1, 2), repeat=4 if quick else 5):
        s = [tuple(p for p, o in zip((1, 2, 3, 4, 5), split) if o == k) for k in (0, 1, 2)]
        if all(s):
            for rev in itertools.product((1, -1), repeat=3):
                if all(len(x) > 1 or d == 1 for x, d in zip(s, rev)):
                    triples.append((tuple(x[::d] for x, d in zip(s, rev)), (none,) * 3, ("tf", "dict"), sum(rev) > 0))
    lims = [none] + [(a, b) for a in (None, 1.5, 2) for b in (None, 2, 2.5) if (a, b) != none]
    few = [none, (2, None), (None, 2), (1.5, 2.5), (2.5, None), (None, 0.5)]
    limited = []
    for split in itertools.product("ABX", repeat=3):
        a = tuple(p for p, o in zip((1, 2, 3), split) if o in "AX")
        b = tuple(p for p, o in zip((1, 2, 3), split) if o in "BX")
        if a and b:
            for la in lims + [(3.5, None)]:
                for lb in few if quick else lims + few[-2:]:
                    for da, db in (((1, 1), (-1, -1)) if quick else itertools.product((1, -1), repeat=2)):
                        limited.append(((a[::da], b[::db]), (la, lb), ("dict",), False, False))
    # periods that no binary fraction represents, across decades, and neighbours in the last place
    import math

    fine = (0.001, 0.1, 0.3, math.nextafter(0.3, 1), 10.0, 1e4)
    for r in (2, 3):
        for c in itertools.combinations(fine, r):
            rest = tuple(x for x in fine if x not in c)
            limited.append(((c, rest[::-1]), (none, none), ("tf",), False))
            for lim in ((c[0], c[-1]), (c[-1], None), (None, c[0])):
                limited.append(((fine, fine[::-1]), (lim, (c[-1], c[-1])), ("dict",), False, False))
    return pairs + triples + limited


def run(ctx):
    work = cases(ctx.quick)
    ctx.pmap(job, [work[i : i + 20] for i in range(0, len(work), 20)])
    chains = [(s, o, ip) for s in itertools.product((0, 1, 2), repeat=4) if set(s) == {0, 1, 2} for o in ((1, 2), (2, 1)) for ip in (False, True)]
    chains = [c for c in chains if any(p == 0 for p in c[0])]
    ctx.pmap(chain, [chains[i : i + 10] for i in range(0, len(chains), 10)])
    refusals(ctx)
    ctx.bounds = {"merges": len(work), "two_step_merges": len(chains), "lattice": "4 periods" if ctx.quick else "5 periods", "inputs": 3}
    ctx.assumptions = ["limits are inclusive", "a period selected from several inputs appears once per input, in any order", "at least one period in every input"]


def replay(data):
    from mc.core import Part

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

    p = Part()
    if "one" in data:
        job(p, [tup(data["one"])])
    elif "chain" in data:
        chain(p, [tup(data["chain"])])
    else:
        refusals(p)
    for s, (d, _, _) in p.violations.items():
        print("reproduced:", s, d)
