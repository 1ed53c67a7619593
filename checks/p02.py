"""P02: exp(aA)v under the simulated OpenMP runtime."""
import numpy as np
from checks.util import Guarded, Frozen, close, rnd
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P02"
TREE = "sim"
NEED = ["expm_multiply_parallel_wrapper", "_oputils", "csr_matvec_wrapper"]
QUICK = (6000, 75)
THOROUGH = (60000, 3000)
SHRINK = {"ops": 1, "n": 1, "grant": 0, "nnz": 0}
RULE = ("seeded random matrix and a history of set_a()/dot() calls on one expm_multiply_parallel object (shared work arrays, in-place results, "
        "changing a and dtype), every dot under its own simulated thread team and interleaving; the norm estimator's random numbers come from a "
        "seeded generator; non-trivial when a multi-threaded region switched threads; distinct by the hash of scheduling decisions and inputs")
REAL = ["expm_multiply_parallel_wrapper extension compiled from /repo", "quspin.tools.evolution.expm_multiply_parallel", "scipy onenormest"]
STUB = ["OpenMP runtime replaced by the simulator", "numpy's global random generator is seeded by the simulator"]

KINDS = ["herm", "herm", "antiherm", "real", "general", "densecol", "diag", "zerodiag", "zero", "shifted", "triangular"]


def gen(rng, tier):
    sc = {"seed": rng.getrandbits(32), "n": rng.choice([1, 2, 3, 5, 8, 13, 20, 33, 40]), "kind": rng.choice(KINDS), "adt": rng.choice("ddDfFbh"),
          "nnz": rng.choice([0, 3, 20, 60, 150]), "idx": rng.choice(["i4", "i4", "i8"]), "dtype": rng.choice([None, None, None, "d", "D", "f", "F"]),
          "a0": rng.choice(AS), "fmt": rng.choice(["csr", "csr", "csc", "dense", "coo"])}
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.3:
            ops.append({"op": "set_a", "a": rng.choice(AS), "dtype": rng.choice([None, None, None, "D", "F"])})
        ops.append({"op": "dot", "vdt": rng.choice("dDfF"), "work": rng.choice(["none", "none", "fresh", "shared", "nan"]), "over": rng.random() < 0.4,
                    "layout": rng.choice(["C", "C", "step2", "neg"]), "sched": gen_schedule(rng, 8)})
    sc["ops"] = ops
    return sc


AS = ["1", "-1j", "-1j", "0.3j", "-0.7", "0", "c", "-3j", "np32"]
AV = {"1": 1.0, "-1j": -1j, "0.3j": 0.3j, "-0.7": -0.7, "0": 0.0, "c": 0.4 - 0.6j, "-3j": -3j, "np32": np.float32(0.5)}


def setup():
    global Expm, sp, sla
    import scipy.sparse as sp
    import scipy.linalg as sla
    from quspin.tools.evolution import expm_multiply_parallel as Expm


def matrix(sc):
    rs = np.random.RandomState(sc["seed"])
    n, nnz, kind = sc["n"], sc["nnz"], sc["kind"]
    dt = np.dtype(sc["adt"])
    ints = dt.kind == "i"
    A = np.zeros((n, n), complex)
    r, c = rs.randint(0, n, nnz), rs.randint(0, n, nnz)
    v = rnd(rs, nnz, "D" if dt.kind == "c" else "d", ints=ints)
    for i, j, x in zip(r, c, v):
        A[i, j] += x
    if kind in ("herm", "shifted"):
        A = A + A.conj().T
    elif kind == "antiherm":
        A = A - A.conj().T
    elif kind == "diag":
        A = np.diag(rnd(rs, n, "D" if dt.kind == "c" else "d", ints=ints)).astype(complex)
    elif kind == "zerodiag":
        np.fill_diagonal(A, 0)
        A = A + A.conj().T
    elif kind == "zero":
        A[...] = 0
    elif kind == "densecol":
        A[...] = 0
        A[:, rs.randint(n)] = rnd(rs, n, "d", ints=ints)
        if n > 1:
            A[0, 1] = 1
    elif kind == "triangular":
        A = np.triu(A)
    if kind == "shifted":
        A = A + 3 * np.eye(n)
    if dt.kind == "i":
        A = np.clip(np.real(A), -4, 4)
        A = np.round(A)
    norm = np.abs(A).sum(axis=0).max() if n else 0
    lim = 12.0 if kind in ("herm", "antiherm", "zerodiag") else 6.0
    if norm > lim and not ints:
        A = A * (lim / norm)
    A = A.astype(dt) if dt.kind == "c" else np.real(A).astype(dt)
    M = sp.csr_matrix(A)
    M.indptr, M.indices = M.indptr.astype(sc["idx"]), M.indices.astype(sc["idx"])
    if sc["fmt"] == "csc":
        M = M.tocsc()
    elif sc["fmt"] == "coo":
        M = M.tocoo()
    elif sc["fmt"] == "dense":
        M = A
    return M, A.astype(complex), rs


def execute(sc, ctx):
    M, D, rs = matrix(sc)
    n = sc["n"]
    np.random.seed(sc["seed"] & 0xffffffff)

    def build(make):
        try:
            return make(), None
        except (ValueError, TypeError) as e:
            return None, e

    froz = Frozen(A=M if isinstance(M, np.ndarray) else M.data)
    a = AV[sc["a0"]]
    dtype = np.dtype(sc["dtype"]).type if sc["dtype"] else None
    E, err = build(lambda: Expm(M, a=a, dtype=dtype, copy=True))
    need = np.result_type(M.dtype, np.min_scalar_type(a), np.float32)
    if err is not None:
        if dtype is None or np.can_cast(need, dtype):
            raise Violation("constructor-refused", "A %s a=%r dtype=%s: %r" % (M.dtype, a, dtype, err))
        return
    cur_dt = np.dtype(dtype) if dtype else np.result_type(M.dtype, np.min_scalar_type(a), np.float64)
    works = {}
    for k, op in enumerate(sc["ops"]):
        if op["op"] == "set_a":
            na = AV[op["a"]]
            ndt = np.dtype(op["dtype"]).type if op["dtype"] else None
            ok = ndt is None or np.can_cast(np.result_type(M.dtype, np.min_scalar_type(na), np.float32), ndt)
            try:
                E.set_a(na, dtype=ndt)
            except (ValueError, TypeError) as e:
                if ok:
                    raise Violation("set_a-refused", "set_a(%r, dtype=%s): %r" % (na, ndt, e))
                return
            a = na
            cur_dt = np.dtype(ndt) if ndt else np.result_type(M.dtype, np.min_scalar_type(a), np.float64)
            ctx.count("set_a")
            continue
        vdt = np.dtype(op["vdt"])
        rdt = np.result_type(cur_dt, vdt)
        if op["over"]:
            vdt = rdt
        V = Guarded((n,), vdt, "C" if op["over"] else op["layout"])
        v0 = rnd(rs, n, vdt)
        V.a[...] = v0
        kw = {}
        if op["over"]:
            kw["overwrite_v"] = True
        if op["work"] == "shared":
            w = works.setdefault(rdt, Guarded((2 * n,), rdt, "C"))
        elif op["work"] == "none":
            w = None
        else:
            w = Guarded((2 * n,), rdt, "C")
            w.a[...] = np.nan if op["work"] == "nan" else 0
        if w is not None:
            kw["work_array"] = w.a
        what = "exp(%r A)v, %s %dx%d A %s (%s), v %s, work %s, in place %s, call %d, %d threads%s" % (
            a, sc["kind"], n, n, M.dtype, sc["fmt"], vdt, op["work"], op["over"], k, op["sched"]["n"],
            " (%d granted)" % op["sched"]["grant"] if op["sched"]["grant"] else "")
        with ctx.schedule(op["sched"]) as run:
            r = E.dot(V.a, **kw)
        ctx.state("%s %s %s" % (run.hash, sc["seed"], k), run.multi > 0 and run.switches > 0)
        X = sla.expm(complex(a) * D)
        want = X.dot(v0.astype(complex))
        single = rdt.char in "fF" or np.dtype(cur_dt).char in "fF" or np.dtype(M.dtype).char in "fF"
        tol = 2e-4 if single else 1e-9
        grow = np.linalg.norm(sla.expm(abs(a) * np.abs(D)) if n else 0, 1)
        scale = (np.abs(X).sum(axis=1).max() + min(grow, 50.0)) * (np.abs(v0).max() + 1e-3)
        if op["over"] and r is not V.a:
            raise Violation("overwrite_v-not-in-place", what)
        V.check(what)
        if w is not None:
            w.check(what + " (work array)")
        if not op["over"] and not np.array_equal(V.a, v0):
            raise Violation("input-modified", what)
        if r.dtype != rdt:
            raise Violation("result-dtype", "%s: %s instead of %s" % (what, r.dtype, rdt))
        froz.check(what)
        close(r, want, tol, "wrong-exponential", what, scale=scale)
        if run.multi and op["sched"]["grant"]:
            ctx.count("fault:team_shortfall")
        if op["work"] == "nan":
            ctx.count("fault:dirty_work_array")
        if op["sched"]["dirty"]:
            ctx.count("fault:dirty_thread_stack")
