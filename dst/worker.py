"""
Worker process: executes simulated runs, one JSON request per line.

usage: python -m dst.worker PROPERTY TIER      (cwd /verif)
requests:  {"seed": n} or {"plan": {...}}; optional "log": true
responses: one JSON object per line, on the original stdout.
"""

import json
import os
import sys


def instrumented(path):
    """Makes pyvrp.search._search load from the given instrumented build."""
    from importlib.machinery import ExtensionFileLoader
    from importlib.util import spec_from_file_location

    class Finder:
        def find_spec(self, name, path_, target=None):
            if name != "pyvrp.search._search":
                return None
            return spec_from_file_location(
                name, path, loader=ExtensionFileLoader(name, path)
            )

    sys.meta_path.insert(0, Finder())


def main():
    prop, tier = sys.argv[1], sys.argv[2]

    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = os.fdopen(1, "w", buffering=1, closefd=False)

    from dst import clock

    clock.install()
    sys.path.insert(0, "/repo")
    if os.environ.get("VERIF_INST"):
        instrumented(os.environ["VERIF_INST"])
    import warnings

    warnings.simplefilter("ignore")

    import importlib
    import traceback

    import pyvrp

    assert pyvrp.__file__ == "/repo/pyvrp/__init__.py", pyvrp.__file__
    from dst.core import Ctx, Violation

    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    proto.write(json.dumps({"ready": True}) + "\n")

    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        ctx = Ctx()
        if req.get("log"):
            ctx.log = []
        out = {"seed": req.get("seed")}
        t0 = clock.real_now()
        try:
            plan = req.get("plan")
            if plan is None:
                plan = mod.plan(req["seed"], tier)
            if req.get("plan_only"):
                out["plan"] = plan
                proto.write(json.dumps(out) + "\n")
                continue
            try:
                mod.run(plan, ctx)
            except Violation as e:
                out["violation"] = {"kind": e.kind, "msg": e.msg}
            except Exception as e:
                if isinstance(e, OSError) and e.errno in (12, 23, 24, 28):
                    raise  # the sandbox is out of some resource
                # The harness itself raises nothing on the unchanged tree, so
                # this comes out of the code under test.
                out["violation"] = {
                    "kind": f"unexpected-exception:{type(e).__name__}",
                    "msg": "".join(traceback.format_exception(e))[-1800:],
                }
        except BaseException as e:
            out["error"] = "".join(traceback.format_exception(e))[-3000:]
        out["counters"] = dict(ctx.counters)
        out["states"] = sorted(ctx.states)
        out["digest"] = ctx.digest()
        out["events"] = ctx.events
        out["sim_time"] = ctx.sim_time
        out["nontrivial"] = bool(ctx.nontrivial)
        out["wall"] = clock.real_now() - t0
        if ctx.log is not None:
            out["log"] = ctx.log
        proto.write(json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
