"""A process that executes scenarios of one check: python -m sim.worker CHECK TREE
Requests come as JSON lines on stdin, answers go as JSON lines to the real stdout; everything else that the code under
test prints is discarded."""
import importlib
import json
import os
import random
import sys
import traceback
import warnings


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    name, tree, base = sys.argv[1], sys.argv[2], sys.argv[3]
    warnings.simplefilter("ignore")
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from sim.core import Ctx, Violation, hash_int
    mod = importlib.import_module("checks." + name)
    omp = None
    if mod.TREE == "sim":
        from sim import build
        from sim.omp import Omp
        omp = Omp(os.path.join(build.CACHE, "lib", "libsimomp.so"))
    if hasattr(mod, "before_import"):
        mod.before_import()
    sys.path.insert(0, tree)
    try:
        import quspin
        assert quspin.__file__.startswith(tree), quspin.__file__
        mod.setup()
    except BaseException:
        out.write(json.dumps({"harness": traceback.format_exc()[-4000:]}) + "\n")
        return
    out.write(json.dumps({"ready": 1}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        ans = {"id": req["id"]}
        sc = req.get("scenario")
        if sc is None:
            sc = mod.gen(random.Random("%s:%s:%s" % (mod.ID, base, req["id"])), req["tier"])
            sc = json.loads(json.dumps(sc))
            ans["scenario"] = sc
        ctx = Ctx(sc.get("cseed", req["id"]), omp, req.get("decisions"), req.get("native"))
        ctx.mix(hash_int(json.dumps(sc, sort_keys=True)))
        try:
            try:
                mod.execute(sc, ctx)
            finally:
                if omp is not None:
                    omp.lib.sim_off()
        except Violation as e:
            ans["v"] = {"kind": e.kind, "msg": e.msg}
        except MemoryError:
            ans["harness"] = "MemoryError"
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(tree)]
            at = "%s:%s" % (os.path.relpath(where[-1].filename, tree), where[-1].name) if where else "%s" % tb[-1].name
            ans["v"] = {"kind": "exception:%s@%s" % (type(e).__name__, at), "msg": traceback.format_exc()[-1800:]}
        ans["stats"] = dict(ctx.stats)
        ans["hash"] = ctx.h
        ans["hashes"] = ctx.hashes
        ans["nt"] = ctx.nontrivial
        if "v" in ans:
            ans["decisions"] = ctx.decisions
            n = sum(len(t) for t in ctx.native)
            ans["native"] = ctx.native if n < 200000 else None
            ans["log"] = ctx.log[-200:]
        ans["nd"] = len(ctx.decisions)
        out.write(json.dumps(ans, default=str) + "\n")


main()
