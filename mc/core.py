"""Shared machinery: context, evidence, known findings, exhaustive explorer.

Everything here is deterministic: exploration is exhaustive inside the stated
bounds.  The only use of the seed is to rotate the order in which the (complete)
space is walked, which must not change any verdict.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVID = Path(os.environ.get("VERIF_EVIDENCE_DIR", VERIF / "evidence"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
MAX_VIOL_LINES = 12


def quiet():
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    from loguru import logger

    logger.remove()
    # mt_metadata installs its own sinks at import time
    import mt_metadata  # noqa

    logger.remove()
    import logging

    logging.disable(logging.CRITICAL)
    logger.disable("mt_metadata")
    remember_crs()


def remember_crs():
    """looking a datum up takes pyproj 10 ms; the answer for a name is always the same"""
    from pyproj import CRS

    look_up, known = CRS.from_user_input, {}

    def from_user_input(cls, value, **kwargs):
        if kwargs or cls is not CRS or type(value) not in (str, int):
            return look_up.__func__(cls, value, **kwargs)
        key = (type(value), value)
        if key not in known:
            known[key] = look_up(value)
        return known[key]

    CRS.from_user_input = classmethod(from_user_input)


def h64(obj) -> int:
    s = obj if isinstance(obj, (bytes, str)) else repr(obj)
    if isinstance(s, str):
        s = s.encode("utf8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


class Mismatch(Exception):
    """The implementation and the reference disagree.

    sig     short stable identification of *what* fails (call site / input class)
    detail  free text
    """

    def __init__(self, sig, detail=""):
        super().__init__(f"{sig}: {detail}")
        self.sig = str(sig)
        self.detail = str(detail)


class Part:
    """Result accumulator usable inside a worker process."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.violations = {}
        self.samples = []
        self.counts = {}
        self.out = []

    def state(self, key):
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, sig, detail, replay):
        # keep the shortest replay for each signature
        old = self.violations.get(sig)
        size = len(json.dumps(replay, default=str))
        if old is None or size < old[2]:
            self.violations[sig] = (str(detail)[:1500], replay, size)

    def merge(self, other: "Part"):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.evaluations += other.evaluations
        for s, (d, r, z) in other.violations.items():
            old = self.violations.get(s)
            if old is None or z < old[2]:
                self.violations[s] = (d, r, z)
        for s in other.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in other.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.out.extend(other.out)


def _worker(args):
    func, item, extra = args
    part = Part()
    try:
        func(part, item, **extra)
    except Mismatch as m:  # a check that lets a mismatch escape still reports it
        part.violation(m.sig, m.detail, {"item": repr(item)})
    except Exception:
        part.violation(
            f"harness-exception item={item!r}"[:200],
            traceback.format_exc(),
            {"item": repr(item)},
        )
    return part


class Ctx(Part):
    def __init__(self, prop, tier, seed):
        super().__init__()
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.bounds = {}
        self.assumptions = []
        self.exhaustive = True
        self.level = "model_checking"

    @property
    def quick(self):
        return self.tier == "quick"

    def pmap(self, func, items, **extra):
        items = list(items)
        if items:
            r = self.seed % len(items)
            items = items[r:] + items[:r]
        jobs = [(func, it, extra) for it in items]
        if NPROC <= 1 or len(jobs) <= 1:
            for j in jobs:
                self.merge(_worker(j))
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(min(NPROC, len(jobs))) as pool:
            for part in pool.imap_unordered(_worker, jobs, chunksize=1):
                self.merge(part)

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        new, hit = [], []
        for sig, (detail, replay, _) in sorted(self.violations.items()):
            if sig in known:
                hit.append(sig)
            else:
                new.append((sig, detail, replay))
        for sig in hit:
            print(f"KNOWN-FINDING: property={self.prop} {sig}")
        vio = []
        rep_dir = EVID / "replays"
        for sig, detail, replay in new:
            rep_dir.mkdir(parents=True, exist_ok=True)
            p = rep_dir / f"{self.prop}-{h64(sig):016x}.json"
            p.write_text(
                json.dumps(
                    {
                        "property": self.prop,
                        "signature": sig,
                        "detail": detail,
                        "replay": replay,
                    },
                    indent=1,
                    default=str,
                )
            )
            vio.append({"what": sig, "replay": str(p)})
        for i, ((sig, detail, _), v) in enumerate(zip(new, vio)):
            if i < MAX_VIOL_LINES:
                print(f"VIOLATION property={self.prop} replay={v['replay']}")
                print(f"    {sig}\n    {detail[:600]}")
        if len(vio) > MAX_VIOL_LINES:
            print(f"    ... {len(vio) - MAX_VIOL_LINES} more distinct signatures")
        wall = time.time() - self.t0
        cov = {
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": [str(s)[:400] for s in self.samples] or ["(none)"],
            "exhaustive": bool(self.exhaustive),
            "bounds": self.bounds,
            "counts": self.counts,
            "known_findings_hit": hit,
            "violation_list": vio,
        }
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "wall_s": round(wall, 2),
            "assumptions": self.assumptions,
            "violations": len(vio),
        }
        EVID.mkdir(parents=True, exist_ok=True)
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(
            f"{self.prop} {self.tier}: states={len(self.states)} "
            f"transitions={self.transitions} traces={self.traces} "
            f"violations={len(vio)} known={len(hit)} wall={wall:.1f}s"
        )
        return 1 if vio else 0


def load_known(prop):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return set()
    data = json.loads(f.read_text())
    return {e["signature"] for e in data.get("findings", []) if e["property"] == prop}


# ----------------------------------------------------------------------
# Explicit-state exploration of the real implementation against a model
# ----------------------------------------------------------------------
class Spec:
    """A system under exploration.

    new()            -> (real, model) fresh pair
    ops(model)       -> list of JSON-able operations enabled in the model state
    apply(pair, op)  -> executes on both, raises Mismatch when outcomes differ
    observe(pair)    -> full comparison, raises Mismatch; returns canonical key
    """

    name = "spec"

    def new(self):
        raise NotImplementedError

    def ops(self, model):
        raise NotImplementedError

    def apply(self, pair, op):
        raise NotImplementedError

    def observe(self, pair):
        raise NotImplementedError


def run_history(spec, history):
    pair = spec.new()
    for op in history:
        pair = spec.apply(pair, op) or pair
    return pair


def explore(part: Part, spec: Spec, depth: int, prefix=(), dedupe_from=None, rotate=0):
    """Depth-bounded exhaustive exploration from `prefix`.

    Every history is executed on the real code (stateless: prefixes are
    re-executed).  dedupe_from=k: from depth k on, states whose canonical
    observation was already expanded at the same or smaller depth are not
    expanded again.  None: no reduction at all.
    """
    seen = {}

    def visit(history):
        try:
            pair = run_history(spec, history)
            key = spec.observe(pair)
        except Mismatch as m:
            part.violation(
                f"{spec.name}: {m.sig}", m.detail, {"spec": spec.name, "history": list(history)}
            )
            part.traces += 1
            return
        except Exception as e:  # harness/implementation raised outside apply's contract
            part.violation(
                f"{spec.name}: unexpected {type(e).__name__} after "
                f"{json.dumps(history[-1:], default=str)}",
                traceback.format_exc(),
                {"spec": spec.name, "history": list(history)},
            )
            part.traces += 1
            return
        part.traces += 1
        part.state((spec.name, key))
        part.sample(f"{spec.name}: {json.dumps(list(history), default=str)} -> {str(key)[:160]}")
        n = len(history)
        if n >= depth:
            return
        if dedupe_from is not None and n >= dedupe_from:
            k = h64(key)
            if k in seen and seen[k] <= n:
                part.count("pruned_revisits")
                return
            seen[k] = n
        ops = spec.ops(pair[1])
        if rotate and ops:
            r = rotate % len(ops)
            ops = ops[r:] + ops[:r]
        for op in ops:
            part.transitions += 1
            visit(tuple(history) + (op,))

    visit(tuple(prefix))


def _bfs_job(part, item, make, last):
    """expand each (param, history) of the chunk by every enabled operation"""
    for param, history in item:
        spec = make(param)
        try:
            model = run_history(spec, history)[1]
        except Exception:
            part.violation(f"{spec.name}: history does not replay", traceback.format_exc(),
                           {"spec": spec.name, "param": param, "history": list(history)})
            continue
        for op in spec.ops(model):
            h = tuple(history) + (op,)
            part.transitions += 1
            key = visit_one(part, spec, param, h)
            if key is not None and not last:
                part.out.append((h64((spec.name, str(key))), param, h))


def visit_one(part, spec, param, h):
    """execute one history; returns its observation, or None after reporting"""
    part.traces += 1
    rep = {"spec": spec.name, "param": param, "history": list(h)}
    try:
        key = spec.observe(run_history(spec, h))
    except Mismatch as m:
        part.violation(f"{spec.name}: {m.sig}", m.detail, rep)
        return None
    except Exception as e:
        part.violation(
            f"{spec.name}: unexpected {type(e).__name__} after {json.dumps(h[-1:], default=str)}",
            traceback.format_exc(), rep,
        )
        return None
    part.state((spec.name, str(key)))
    part.sample(f"{spec.name}: {json.dumps(list(h), default=str)} -> {str(key)[:160]}")
    return key


def bfs(ctx, make, params, depth, merge_from, chunk=None):
    """Level-synchronous exhaustive exploration of the histories of make(param).

    Up to level `merge_from` every history is executed and expanded; beyond it
    histories that lead to an already expanded observation are executed and
    compared, but not expanded again.  Returns the number of histories per level.
    """
    frontier, seen, sizes = [(p, ()) for p in params], set(), []
    for p in params:
        visit_one(ctx, make(p), p, ())
    for level in range(1, depth + 1):
        last = level == depth
        n = chunk or max(1, min(8, len(frontier) // (NPROC * 4) or 1))
        ctx.out = []
        before = ctx.traces
        ctx.pmap(_bfs_job, [frontier[i : i + n] for i in range(0, len(frontier), n)], make=make, last=last)
        sizes.append(ctx.traces - before)
        nxt = sorted(ctx.out, key=lambda t: (json.dumps([t[1], list(t[2])], default=str)))
        frontier = []
        for key, p, h in nxt:
            if level >= merge_from:
                k = (key, json.dumps(p, default=str))
                if k in seen:
                    ctx.count("merged_histories")
                    continue
                seen.add(k)
            frontier.append((p, h))
        ctx.out = []
    ctx.counts["histories_per_level"] = sizes
    return sizes


def bfs_replay(make, data):
    spec = make(data.get("param"))
    h = data["history"]
    for i in range(len(h) + 1):
        try:
            key = spec.observe(run_history(spec, h[:i]))
            print(i, h[i - 1] if i else "start", "->", str(key)[:300])
        except Mismatch as m:
            print("reproduced at step", i, ":", m)
            return


def first_ops(spec, k=1):
    """All enabled prefixes of length k (used to partition the work)."""
    out = [()]
    for _ in range(k):
        nxt = []
        for pre in out:
            try:
                pair = run_history(spec, pre)
            except Exception:
                continue
            for op in spec.ops(pair[1]):
                nxt.append(pre + (op,))
        out = nxt
    return out


# ----------------------------------------------------------------------
def outcome(fn, *a, **k):
    """('ok', value) or ('exc', exception type name)"""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__)
