import argparse
import importlib
import json
import os
import sys
from pathlib import Path

# a deterministic environment; re-exec so that hash randomisation is fixed too
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "TZ": "UTC",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
}
if not any(a in ("M36",) for a in sys.argv):
    # no answers kept by earlier versions of the code; M36 is about those
    WANT["MT_METADATA_DISABLE_DISK_CACHE"] = "1"
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    core.quiet()
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    if a.replay:
        data = json.loads(Path(a.replay).read_text())
        print(json.dumps(data, indent=1))
        if hasattr(mod, "replay"):
            mod.replay(data["replay"])
        return 0
    ctx = core.Ctx(a.prop, a.tier, seed)
    try:
        mod.run(ctx)
    except Exception:
        import traceback

        ctx.violation("harness-exception", traceback.format_exc(), {})
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
