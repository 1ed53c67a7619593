"""P07: block evolution with simulated worker processes."""
import numpy as np
from scipy.linalg import expm
from checks.spinref import dense, sector, propagate, chain_terms
from checks.util import close, rnd, Frozen
from sim import procs
from sim.core import Violation

ID = "P07"
TREE = "plain"
NEED = None
QUICK = (2500, 80)
THOROUGH = (30000, 3000)
SHRINK = {"ops": 1, "blocks": 1, "L": 2, "num": 2, "kill": 0, "fork": 0, "raise_at": 0, "take": 0}
RULE = ("seeded chain, symmetry blocks, Hamiltonian and a list of evolve/expm calls whose worker processes, queues and events are simulated: the scheduler "
        "decides who runs, when items arrive, who is killed, which fork fails and which driving function raises; non-trivial when two or more simulated "
        "processes ran or a fault was injected; distinct by the hash of all scheduling decisions and the scenario")
REAL = ["quspin.tools.block_tools", "quspin.operators.hamiltonian", "quspin.basis.spin_basis_1d", "quspin.tools.evolution", "scipy ODE solvers and expm_multiply"]
STUB = ["multiprocessing.Process/Queue/Event: simulated processes", "joblib.Parallel: simulated workers"]


def before_import():
    procs.install()


def setup():
    global block_ops, spin_basis_1d, hamiltonian
    from quspin.tools.block_tools import block_ops
    from quspin.basis import spin_basis_1d
    from quspin.operators import hamiltonian


def gen(rng, tier):
    L = rng.choice([2, 3, 4, 4, 5])
    cons = rng.choice(["N", "N", "Z", "", "N"])
    kind = {"N": ["N", "Nk", "Npcon", "k", "p"], "Z": ["z", "k", "kz", "p"], "": ["k", "p", "k"]}[cons]
    kind = rng.choice(kind)
    if kind == "N":
        blocks = [{"Nup": n} for n in range(L + 1)]
    elif kind in ("Nk", "Npcon"):
        fix = rng.randint(0, L)
        blocks = [{"Nup": n, "kblock": k} for n in ([fix] if kind == "Npcon" else range(L + 1)) for k in range(L)]
    elif kind == "k":
        blocks = [{"kblock": k} for k in range(L)]
    elif kind == "p":
        blocks = [{"pblock": 1}, {"pblock": -1}]
    elif kind == "z":
        blocks = [{"zblock": 1}, {"zblock": -1}]
    else:
        blocks = [{"kblock": k, "zblock": z} for k in range(L) for z in (1, -1)]
    rng.shuffle(blocks)
    if rng.random() < 0.4:
        blocks = blocks[: rng.randint(1, len(blocks))]
    dyn = []
    for i in range(rng.choice([0, 1, 1, 2])):
        dyn.append({"terms": chain_terms(rng, L, cons), "w": rng.choice([1.0, 2.3, 0.7]), "f": rng.choice(["cos", "ramp"])})
    static = sum([chain_terms(rng, L, cons) for _ in range(rng.randint(0 if dyn else 1, 3))], [])
    cplx = kind in ("k", "Nk", "Npcon", "kz")
    sc = {"L": L, "kind": kind, "blocks": blocks, "static": static, "dyn": dyn, "real": (not cplx) and rng.random() < 0.5, "save": rng.random() < 0.6,
          "all": rng.random() < 0.3, "later": rng.choice([0, 0, 1, 2]), "cseed": rng.getrandbits(40)}
    sc["ops"] = []
    for _ in range(rng.randint(1, 4)):
        faulty = rng.random() < 0.35
        o = {"op": rng.choice(["evolve", "evolve", "expm", "expm", "update", "compute"]), "iter": rng.random() < 0.6, "n_jobs": rng.choice([1, 2, 2, 3, 4, 7]),
             "bd": rng.random() < 0.25, "psi": rng.choice(["full", "full", "full", "one", "none", "sparse", "basis"]), "seed": rng.getrandbits(31),
             "t0": rng.choice([0.0, 0.0, 0.3]), "num": rng.randint(2, 5), "stop": rng.choice([0.5, 1.0, 2.0]), "start": rng.choice([0.0, 0.0, 0.25]),
             "endpoint": rng.random() < 0.5, "grid": rng.random() < 0.6, "scalar": rng.random() < 0.15, "a": rng.choice(["-i", "-i", "-1", "i"]),
             "shift": rng.choice([None, None, None, 0.5]), "te": rng.choice([0.0, 0.4]), "stack": rng.random() < 0.3, "solver": rng.choice(["dop853", "dop853", "dopri5"]),
             "kill": 0, "fork": 0, "raise_at": 0, "take": rng.choice([99, 99, 99, 1, 2, 0]), "pair": rng.random() < 0.25, "stay": rng.choice([0.2, 0.5, 0.8, 0.95])}
        if faulty:
            f = rng.choice(["kill", "kill", "fork", "raise"])
            if f == "kill":
                o["kill"] = rng.choice([300, 600])
            elif f == "fork":
                o["fork"] = rng.choice([200, 500])
            else:
                o["raise_at"] = rng.randint(1, 120)
        sc["ops"].append(o)
    return sc


class Boom(Exception):
    pass


class Drive:
    """A driving function that can be told to fail."""
    left = 0

    def __init__(self, f, w):
        self.f, self.w = f, w
        self.__name__ = "drive_%s_%s" % (f, w)

    def __call__(self, t):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Boom("the driving function failed")
        return self.value(t)

    def value(self, t):
        return np.cos(self.w * t) if self.f == "cos" else 0.3 + self.w * t

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (Drive, (self.f, self.w))


def execute(sc, ctx):
    L = sc["L"]
    dtype = np.float64 if sc["real"] else np.complex128
    Drive.left = 0
    drives = [Drive(d["f"], d["w"]) for d in sc["dyn"]]
    static = [list(x) for x in sc["static"]]
    dynamic = [t + [f, []] for d, f in zip(sc["dyn"], drives) for t in d["terms"]]
    pcon = sc["kind"] == "Npcon"
    rows = sector(L, sc["blocks"][0]["Nup"]) if pcon else np.arange(2 ** L)
    H0 = dense(L, static)[np.ix_(rows, rows)]
    D = [(f.value, dense(L, d["terms"])[np.ix_(rows, rows)]) for d, f in zip(sc["dyn"], drives)]
    kw = {"get_proj_kwargs": {"pcon": True}} if pcon else {}
    world = procs.start(ctx)
    try:
        n1 = len(sc["blocks"]) - min(sc["later"], len(sc["blocks"]) - 1)
        bo = block_ops([dict(b) for b in sc["blocks"][:n1]], static, dynamic, spin_basis_1d, (L,), dtype, save_previous_data=sc["save"],
                       compute_all_blocks=sc["all"], check_symm=False, check_herm=False, check_pcon=False, **kw)
        have = sc["blocks"][:n1]
        proj = {}

        def Pi():
            P = np.zeros((len(rows), len(rows)), complex)
            for b in have:
                k = str(b)
                if k not in proj:
                    bb = spin_basis_1d(L, **b)
                    if bb.Ns:
                        p = bb.get_proj(np.complex128, **kw.get("get_proj_kwargs", {})).toarray()
                        proj[k] = p.dot(p.conj().T)
                    else:
                        proj[k] = 0
                P = P + proj[k]
            return P
        for k, o in enumerate(sc["ops"]):
            what = "L=%d %s blocks, step %d %s" % (L, sc["kind"], k, {x: o[x] for x in ("op", "iter", "n_jobs", "bd", "psi", "take", "kill", "fork", "raise_at")})
            world.kill_prob, world.fork_fail, world.stay = o["kill"] / 1000.0, o["fork"] / 1000.0, o["stay"]
            world.limit = world.steps + 6000
            Drive.left = 0
            if o["op"] == "update":
                have = sc["blocks"]
                bo.update_blocks([dict(b) for b in have], spin_basis_1d, (L,), compute_all_blocks=bool(o["seed"] % 2))
            elif o["op"] == "compute":
                bo.compute_all_blocks()
            else:
                call(sc, ctx, world, bo, o, H0, D, Pi(), rows, what)
        left = world.leftover()
        if left:
            world.block(lambda: not world.leftover(), 1e6)
            if world.leftover():
                raise Violation("process-left-behind", "%s: %d worker processes are still there after all results were consumed or closed" % (what, len(world.leftover())))
        ctx.state("%s %s" % (ctx.h, world.steps), world.started > 1 or any(x.startswith("fault:") for x in ctx.stats) or ctx.stats["parallel_tasks"] > 1)
        ctx.count("processes", world.started)
    finally:
        Drive.left = 0
        world.close()


def initial(o, n, P, rs):
    if o["psi"] == "none":
        Q = np.eye(n) - P
        v = Q.dot(rnd(rs, (n,), "D"))
        if np.linalg.norm(v) < 1e-3:
            return None
        return v
    if o["psi"] == "basis":
        v = np.zeros(n, complex)
        v[rs.randint(n)] = 1
        return v
    v = rnd(rs, (n,), "D")
    return v / np.linalg.norm(v)


def call(sc, ctx, world, bo, o, H0, D, P, rows, what):
    import scipy.sparse as sp
    rs = np.random.RandomState(o["seed"])
    n = len(rows)
    psi = initial(o, n, P, rs)
    if psi is None:
        return
    Ppsi = P.dot(psi)
    empty = np.linalg.norm(Ppsi) < 1e-9
    if not empty and np.linalg.norm(Ppsi) < 1e-6:
        return
    times = np.linspace(o["start"], o["stop"], o["num"], endpoint=o["endpoint"])
    if o["op"] == "evolve":
        # the ODE solvers go in one direction: all times on one side of t0, going away from it
        d = np.sort(times - o["t0"])
        d = d[(d == 0) | (d > 1e-6)]
        d = d if len(d) else np.array([0.5])
        times = o["t0"] + (d if o["seed"] % 3 else -d)
    arg = psi
    if o["psi"] == "sparse":
        arg = sp.csr_matrix(psi.reshape(-1, 1))
    it = o["iter"]
    if o["op"] == "evolve":
        ts = times if not (o["scalar"] and not it) else float(o["stop"])
        kw = dict(iterate=it, n_jobs=o["n_jobs"], block_diag=o["bd"], solver_name=o["solver"])
        if sc["real"] and o["stack"]:
            kw["stack_state"] = True
        run = lambda: bo.evolve(arg, o["t0"], ts, **kw)
        ref = propagate(H0, D, Ppsi, o["t0"], np.atleast_1d(ts), rtol=1e-10)
        want = ref[0] if np.ndim(ts) == 0 else ref.T
        tol = 2e-6
    else:
        a = {"-i": -1j, "-1": -1.0, "i": 1j}[o["a"]]
        grid = o["grid"] or it
        kw = dict(H_time_eval=o["te"], iterate=it, n_jobs=o["n_jobs"], block_diag=o["bd"], a=a, shift=o["shift"])
        if grid:
            kw.update(start=o["start"], stop=o["stop"], num=o["num"], endpoint=o["endpoint"])
        H = H0 + sum(f(o["te"]) * M for f, M in D) + (o["shift"] or 0) * np.eye(n)
        ref = np.array([expm(a * H * t).dot(Ppsi) for t in (times if grid else [1.0])])
        want = ref.T if grid else ref[0]
        run = lambda: bo.expm(arg, **kw)
        tol = 1e-9
    scale = max(1.0, np.abs(want).max())
    ctx.count("op_" + o["op"] + ("_iter" if it else ""))
    fr = Frozen(psi=psi)
    killed0 = world.killed
    if o["raise_at"]:
        Drive.left = o["raise_at"]
        ctx.count("fault:driving_function_armed")
    try:
        try:
            r = run()
            if it and empty:
                raise Violation("empty-projection-accepted", what)
            if not it:
                got = [r]
            else:
                got = []
                gens = [r]
                if o["pair"]:
                    gens.append(run())
                iters = [iter(g) for g in gens]
                outs = [[] for g in gens]
                live = list(range(len(gens)))
                while live:
                    g = live[ctx.choose(len(live))]
                    if g == 0 and len(outs[0]) >= o["take"]:
                        iters[0].close()
                        ctx.count("fault:closed_early")
                        live.remove(0)
                        continue
                    try:
                        v = next(iters[g])
                        outs[g].append((v, np.array(v)))
                        if len(outs[g]) > len(times):
                            raise Violation("too-many-states", what)
                    except StopIteration:
                        live.remove(g)
                        if len(outs[g]) != len(times):
                            raise Violation("too-few-states", "%s: %d of %d" % (what, len(outs[g]), len(times)))
                for g, out in enumerate(outs):
                    for j, (v, c) in enumerate(out):
                        if not np.array_equal(v, c):
                            raise Violation("yielded-state-changed", "%s: state %d was changed after it was returned" % (what, j))
                        close(np.asarray(c), want[:, j], tol * scale, "wrong-state", "%s: state %d of the iteration" % (what, j))
                got = []
            if empty:
                raise Violation("empty-projection-accepted", what)
            for r in got:
                close(np.asarray(r), want, tol * scale, "wrong-state", what)
        except Violation:
            raise
        except RuntimeError as e:
            if empty and "no projection" in str(e):
                ctx.count("fault:state_outside_blocks")
                return
            if world.killed == killed0 and not (o["raise_at"] and Drive.left == 0):
                raise
            ctx.count("failure_reported")
        except Boom:
            if not (o["raise_at"] and Drive.left == 0):
                raise
            ctx.count("failure_reported")
        except OSError:
            if not o["fork"]:
                raise
            ctx.count("failure_reported")
    finally:
        Drive.left = 0
        world.kill_prob = world.fork_fail = 0
    fr.check(what)
