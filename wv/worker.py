"""Runs a slice of a check's cases inside one instrumented process."""
import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--variant", required=True)
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--tier", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--cases", required=True, help="comma separated list or start:stop:step")
    ap.add_argument("--worker", type=int, default=0)
    a = ap.parse_args()
    faulthandler.enable()
    sys.setrecursionlimit(5000)
    from wv import core
    mod = importlib.import_module("wv.checks." + a.prop.lower())
    needs = getattr(mod, "NEEDS_WICKED", True)
    out = open(a.out, "a", buffering=1)

    def emit(rec):
        out.write(json.dumps(rec) + "\n")

    wicked = None
    if needs:
        import wicked
        pp = os.environ["WV_PKG"]
        assert wicked.__file__.startswith(pp), wicked.__file__
    ctx = core.Ctx(wicked, a.prop, a.seed, a.tier, a.variant, a.worker)
    if ":" in a.cases:
        b, e, s = (int(x) for x in a.cases.split(":"))
        cases = range(b, e, s)
    else:
        cases = [int(x) for x in a.cases.split(",")]
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    for i in cases:
        emit({"k": "start", "i": i})
        ctx.case = i
        ctx.trace = []
        t0 = time.time()
        rec = {"k": "done", "i": i}
        try:
            res = mod.run_case(ctx, ctx.rng(i), i)
            rec["status"] = "ok"
            rec["sig"] = hashlib.sha256(repr(res.sig).encode()).hexdigest()[:16]
            rec["nt"] = bool(res.nontrivial)
            if res.sample is not None:
                rec["sample"] = res.sample
        except core.Violation as v:
            rec.update(status="violation", key=v.key, detail=v.detail[:20000])
        except core.Inconclusive as v:
            rec.update(status="inconclusive", detail=str(v))
        except (MemoryError, KeyboardInterrupt, OSError):
            rec.update(status="error", detail=traceback.format_exc()[-4000:])
        except Exception as ex:
            # what the library returned or raised could not be used as a result
            rec.update(status="violation", key="exception:" + type(ex).__name__,
                       detail=traceback.format_exc()[-6000:] + "\ncalls:\n  " + "\n  ".join(ctx.trace[-60:]))
        rec["t"] = round(time.time() - t0, 4)
        emit(rec)
    if hasattr(mod, "finish"):
        mod.finish(ctx)
    emit({"k": "end", "stats": ctx.stats})
    out.close()
    sys.stdout.flush()
    # skip interpreter teardown: it runs uninstrumented destructors in random order
    os._exit(0)


if __name__ == "__main__":
    main()
