"""P09: Floquet unitaries, spectra and states computed by a pool of simulated workers that fail, die and finish in any order."""
import random
import warnings
import numpy as np
import scipy.sparse as sp
from scipy.linalg import expm
from scipy.optimize import linear_sum_assignment
from checks.spinref import dense, chain_terms, propagate, sector
from checks.util import close, rnd, Interrupted, interrupt
from sim import procs
from sim.core import Violation

ID = "P09"
TREE = "plain"
NEED = None
QUICK = (1500, 75)
THOROUGH = (40000, 2400)
SHRINK = {"calls": 1}
RULE = ("seeded periodic drives (continuous, one hamiltonian evaluated at step times, list of hamiltonians; full or magnetisation sector; degenerate and generic spectra) and a "
        "history of Floquet constructions sharing hamiltonians and lists, whose columns are computed by a simulated worker pool: completion order, killed workers, failing drives "
        "and interrupts at chosen lines; every attribute compared with a dense propagator; non-trivial when workers ran out of order or a fault hit; distinct by scenario and schedule")
REAL = ["quspin.tools.Floquet", "quspin.operators.hamiltonian.evolve", "scipy ODE solvers", "scipy.sparse.linalg.expm_multiply", "quspin.basis"]
STUB = ["joblib.Parallel: a simulated pool (arguments and results copied, order and worker deaths chosen by the simulator)", "driving functions: failing calls chosen by the simulator"]


class Boom(Exception):
    pass


class Drive:
    left = 0
    exc = Boom

    def __init__(self, k, om, form):
        self.k, self.om, self.form = k, om, form
        self.__name__ = "drive%d" % k

    def __deepcopy__(self, memo):
        return self

    def __call__(self, t):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Drive.exc("the driving function failed")
        return self.value(t)

    def value(self, t):
        if self.form == "phase":
            return np.exp(1j * (self.k + 1) * self.om * t)
        return (0.6 + 0.3 * self.k) * np.cos((1 + self.k) * self.om * t + 0.4 * self.k)


def before_import():
    procs.install()


def setup():
    global hamiltonian, spin_basis_1d, Floquet, Floquet_t_vec
    from quspin.operators import hamiltonian
    from quspin.basis import spin_basis_1d
    from quspin.tools.Floquet import Floquet, Floquet_t_vec


def gen(rng, tier):
    L = rng.choice([1, 2, 2, 3])
    sc = {"L": L, "seed": rng.getrandbits(31), "kind": rng.choice(["cont", "cont", "step2", "step3", "step3"]), "H": rng.choice(["chain", "chain", "rand", "rand", "zero", "degenerate", "near"]),
          "cplx": rng.random() < 0.5, "Nup": rng.choice([None, None, 1]), "kill": rng.choice([0, 0, 0.02, 0.1]), "nd": rng.choice([1, 1, 2]),
          "om": rng.choice([1.3, 3.0, 7.0, 20.0]), "cseed": rng.getrandbits(40), "calls": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        sc["calls"].append({"want": [rng.random() < 0.6 for _ in range(4)], "n_jobs": rng.choice([1, 1, 2, 3]), "fault": rng.choice(["none", "none", "drive", "drive", "runtime", "interrupt"]),
                            "at": rng.choice([1, 2, 5, 20, rng.randint(1, 600)]), "T": rng.random() < 0.3, "tol": rng.choice([None, None, 1e-9]), "poke": rng.random() < 0.5,
                            "bad": rng.choice([None] * 12 + ["period", "len", "keys", "njobs"])})
    return sc


def execute(sc, ctx):
    Drive.left = 0
    world = procs.start(ctx, kill=sc["kill"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run(sc, ctx, world)
    finally:
        Drive.left = 0
        world.close()


class World:
    pass


def terms(w, rng, rs, k):
    """One operator: what hamiltonian takes and its dense form."""
    sc, L = w.sc, w.sc["L"]
    n = w.n
    kind = sc["H"] if k >= 0 else "rand"
    if kind == "zero":
        A = np.zeros((n, n))
    elif kind == "degenerate":
        d = np.repeat(rs.uniform(-1, 1, size=2), n)[rs.permutation(n)] if n > 1 else rs.uniform(-1, 1, size=1)
        Q, _ = np.linalg.qr(rnd(w.rs0, (n, n), np.complex128 if sc["cplx"] else np.float64)) if w.Q is None else (w.Q, 0)
        w.Q = Q
        A = (Q * d) @ Q.conj().T
        A = (A + A.conj().T) / 2
    elif kind == "near":
        d = 0.4 + rs.uniform(-1, 1, size=n) * 10.0 ** rs.randint(-14, -5)
        Q, _ = np.linalg.qr(rnd(w.rs0, (n, n), np.complex128 if sc["cplx"] else np.float64)) if w.Q is None else (w.Q, 0)
        w.Q = Q
        A = (Q * d) @ Q.conj().T
        A = (A + A.conj().T) / 2
    elif kind == "chain" and L > 1:
        t = chain_terms(rng, L, "N")
        A = dense(L, t)[np.ix_(w.rows, w.rows)]
        return t, A
    else:
        A = rnd(rs, (n, n), np.complex128 if sc["cplx"] else np.float64)
        A = (A + A.conj().T) / 2
    return sp.csr_matrix(A), A.astype(complex)


def build(w, rng, rs, nd):
    """A hamiltonian and its dense pieces."""
    sc = w.sc
    static, dynamic = [], []
    s, A = terms(w, rng, rs, 0)
    static += s if isinstance(s, list) else [s]
    dyn = []
    for k in range(nd):
        f = Drive(k, sc["om"], "cos")
        s, B = terms(w, rng, rs, 1)
        if isinstance(s, list):
            dynamic += [x + [f, []] for x in s]
        else:
            dynamic.append([s, f, []])
        dyn.append((f, B))
    H = hamiltonian(static, dynamic, dtype=np.complex128 if sc["cplx"] else np.float64, basis=w.basis, check_herm=False, check_symm=False, check_pcon=False)
    return H, A, dyn


def run(sc, ctx, world):
    w = World()
    w.sc = sc
    w.Q = None
    rng = random.Random("floquet:%s" % sc["seed"])
    rs = np.random.RandomState(rng.getrandbits(31))
    w.rs0 = np.random.RandomState(rng.getrandbits(31))
    L = sc["L"]
    Nup = sc["Nup"] if sc["Nup"] is None or sc["Nup"] <= L else None
    w.basis = spin_basis_1d(L, Nup=Nup)
    w.rows = np.arange(2 ** L) if Nup is None else sector(L, Nup)
    n = w.n = len(w.rows)
    T = 2 * np.pi / sc["om"]
    kind = sc["kind"]
    if kind == "cont":
        H, A, dyn = build(w, rng, rs, sc["nd"])
        U = propagate(A, [(f.value, B) for f, B in dyn], np.eye(n), 0.0, [T], rtol=1e-11)[0]
        args = {"H": H, "T": T}
        Teff = T
        hams = [H]
    elif kind == "step2":
        H, A, dyn = build(w, rng, rs, sc["nd"])
        m = rng.randint(1, 4)
        ts = np.sort(rs.uniform(0, T, size=m))
        dts = rs.uniform(0.0, 0.6, size=m)
        if rng.random() < 0.3:
            dts[0] = 0.0
        U = np.eye(n)
        for t, dt in zip(ts, dts):
            U = expm(-1j * dt * (A + sum(f.value(t) * B for f, B in dyn))) @ U
        args = {"H": H, "t_list": list(ts) if rng.random() < 0.5 else ts, "dt_list": list(dts) if rng.random() < 0.5 else dts}
        Teff = dts.sum()
        hams = [H]
    else:
        m = rng.randint(1, 3)
        three = [build(w, rng, rs, 0) for _ in range(m)]
        idx = [rng.randrange(m) for _ in range(rng.randint(1, 4))]
        dts = rs.uniform(0.0, 0.9, size=len(idx))
        U = np.eye(n)
        for i, dt in zip(idx, dts):
            U = expm(-1j * dt * three[i][1]) @ U
        args = {"H_list": [three[i][0] for i in idx], "dt_list": list(dts) if rng.random() < 0.5 else dts}
        if rng.random() < 0.3:
            args["H_list"] = tuple(args["H_list"])
        Teff = dts.sum()
        hams = [x[0] for x in three]
        dyn = []
    if Teff < 1e-3:
        return
    w.U, w.dyn, w.hams, w.args = U, dyn, hams, args
    dense0 = [np.array(h.toarray(time=0.31)) for h in hams]
    objs = []
    hit = False
    for i, c in enumerate(sc["calls"]):
        what = "call %d (%s, %s, Ns=%d, n_jobs=%d)" % (i, kind, sc["H"], n, c["n_jobs"])
        hit |= call(w, c, ctx, world, what, Teff, objs)
        for o, s, wh in objs:
            for k, v in s.items():
                if not np.array_equal(getattr(o, k), v):
                    raise Violation("result-changed", "%s: %s of the Floquet object of %s changed after a later call or a write to another result" % (what, k, wh))
    for h, d in zip(hams, dense0):
        if not np.array_equal(h.toarray(time=0.31), d):
            raise Violation("operator-changed", "a hamiltonian was changed by computing its Floquet unitary")
    if kind == "cont" and n <= 4:
        strobo(w, rng, T, ctx)
    ctx.state("%s:%s" % (ctx.h, len(objs)), hit or any(c["n_jobs"] > 1 for c in sc["calls"]))


def call(w, c, ctx, world, what, Teff, objs):
    d = dict(w.args)
    for k in ("H_list", "t_list", "dt_list"):
        if isinstance(d.get(k), list):
            d[k] = list(d[k])
        elif isinstance(d.get(k), np.ndarray):
            d[k] = d[k].copy()
    keep = {k: (list(v) if isinstance(v, (list, tuple)) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    HF, UF, thetaF, VF = c["want"]
    T = Teff
    if w.sc["kind"] == "cont":
        if c["tol"]:
            d["atol"] = d["rtol"] = keep["atol"] = keep["rtol"] = c["tol"]
    elif c["T"]:
        d["T"] = T = keep["T"] = Teff * 1.7
    bad = c["bad"]
    n_jobs = c["n_jobs"]
    if bad == "period" and w.sc["kind"] == "cont" and w.dyn:
        d["T"] = d["T"] * 0.83
    elif bad == "len" and w.sc["kind"] != "cont":
        d["dt_list"] = np.r_[np.asarray(d["dt_list"]), 0.3]
    elif bad == "keys":
        d["dts"] = 3
    elif bad == "njobs" and w.sc["kind"] == "cont":
        n_jobs = 1.5
    else:
        bad = None
    kw = dict(HF=HF, UF=UF, thetaF=thetaF, VF=VF, n_jobs=n_jobs)
    fault = c["fault"] if bad is None else "none"
    Drive.exc = RuntimeError if fault == "runtime" else Boom
    Drive.left = c["at"] if fault in ("drive", "runtime") else 0
    armed = Drive.left
    done = False
    it = interrupt(c["at"] if fault == "interrupt" else 0)
    k0 = world.killed
    err = None
    try:
        with it:
            o = Floquet(d, **kw)
            done = True
    except Boom as e:
        err = e
    except procs.WorkerDied as e:
        if world.killed == k0:
            raise
        return True
    except (ValueError, TypeError) as e:
        if bad is None:
            raise
        ctx.count("refused_" + bad)
        return False
    except RuntimeError as e:
        if not (armed and Drive.left == 0):
            raise
        err = e
    finally:
        spent = armed and Drive.left == 0
        Drive.left = 0
    if bad is not None:
        raise Violation("bad-arguments-accepted", "%s: %s accepted" % (what, bad))
    if it.fired:
        ctx.count("fault:interrupt")
        if done:
            raise Violation("interrupt-swallowed", what + ": an interrupt raised while the unitary was computed disappeared")
        return True
    if spent:
        ctx.count("fault:driving_function_failed")
        if err is not None:
            return True
        if fault == "drive":
            raise Violation("failure-swallowed", what + ": the driving function failed but a Floquet object was returned")
    if world.killed != k0:
        raise Violation("failure-swallowed", what + ": a worker died but a Floquet object was returned")
    for k, v in keep.items():
        u = d[k]
        same = np.array_equal(u, v) if isinstance(v, np.ndarray) else (list(u) == v if isinstance(v, list) and k != "H_list" else all(a is b for a, b in zip(u, v)) if k == "H_list" else u is v)
        if not same:
            raise Violation("input-modified", "%s changed evo_dict[%r]" % (what, k))
    ctx.count("floquet_objects")
    check(w, o, c["want"], T, what, 1e-6 if c["tol"] else 1e-8)
    s = {k: np.array(getattr(o, k)) for k, f in zip(("HF", "UF", "thetaF", "VF"), c["want"]) if f}
    s["EF"] = np.array(o.EF)
    objs.append((o, s, what))
    if c["poke"]:
        # the caller works on one of the results in place
        names = [k for k in s if getattr(o, k).flags.writeable]
        k = names[c["at"] % len(names)]
        getattr(o, k)[...] = 9
        s[k] = np.array(getattr(o, k))
        ctx.count("fault:result_overwritten")
    return spent or c["poke"] or c["n_jobs"] > 1


def check(w, o, want, T, what, tol):
    U, n = w.U, w.n
    HF, UF, thetaF, VF = want
    for k, f in zip(("HF", "UF", "thetaF", "VF"), want):
        try:
            v = getattr(o, k)
        except AttributeError:
            v = None
        if f and v is None:
            raise Violation("missing-attribute", "%s: %s was asked for" % (what, k))
    if abs(o.T - T) > 1e-12 * abs(T):
        raise Violation("wrong-period", "%s: T=%r, expected %r" % (what, o.T, T))
    EF = np.asarray(o.EF)
    if EF.shape != (n,) or EF.dtype.kind != "f":
        raise Violation("wrong-spectrum", "%s: EF has shape %s, dtype %s" % (what, EF.shape, EF.dtype))
    if np.any(np.diff(EF) < 0) or np.any(np.abs(EF) > np.pi / T * (1 + 1e-6)):
        raise Violation("wrong-spectrum", "%s: EF=%s is not sorted inside the zone +-%g" % (what, EF, np.pi / T))
    ref = np.linalg.eigvals(U)
    th = np.exp(-1j * EF * T)
    D = np.abs(th[:, None] - ref[None, :])
    i, j = linear_sum_assignment(D)
    if D[i, j].max() > 10 * tol:
        raise Violation("wrong-spectrum", "%s: quasienergies %s do not belong to the propagator over one period (phases %s)" % (what, EF, np.angle(ref)))
    if UF:
        close(o.UF, U, tol, "wrong-unitary", what + ": UF", 1.0)
    if HF:
        close(expm(-1j * T * np.asarray(o.HF)), U, 10 * tol, "wrong-hamiltonian", what + ": exp(-i T HF)", 1.0)
        h = np.asarray(o.HF)
        if np.abs(np.abs(np.angle(ref)) - np.pi).min() > 1e-3:
            close(h, h.conj().T, 100 * tol * max(1.0, 1 / T), "wrong-hamiltonian", what + ": HF is not hermitian", 1.0)
            close(np.sort(np.linalg.eigvalsh((h + h.conj().T) / 2)), EF, 100 * tol * max(1.0, 1 / T), "wrong-hamiltonian", what + ": spectrum of HF", 1.0)
    if thetaF:
        close(o.thetaF, th, 10 * tol, "wrong-phases", what + ": thetaF against exp(-i T EF)", 1.0)
    if VF:
        V = np.asarray(o.VF)
        close(V.conj().T @ V, np.eye(n), 100 * tol, "states-not-orthonormal", what + ": VF", 1.0)
        close(U @ V, V * th, 100 * tol, "wrong-states", what + ": UF VF against VF thetaF", 1.0)


def strobo(w, rng, T, ctx):
    """Evolution over a Floquet time vector hits the powers of UF at the stroboscopic times."""
    N, len_T, up = rng.randint(1, 4), rng.randint(1, 7), rng.choice([0, 0, 1, 3])
    t = Floquet_t_vec(w.sc["om"], N, len_T=len_T, N_up=up)
    if len(t) != (N + up) * len_T + 1:
        raise Violation("wrong-times", "Floquet_t_vec has %d times" % len(t))
    close(t.vals, (np.arange(len(t)) - up * len_T) * T / len_T, 1e-9 * T, "wrong-times", "Floquet_t_vec", 1.0)
    for k in range(len(t)):
        c = tuple(int(x) for x in t.get_coordinates(k))
        if c != divmod(k, len_T):
            raise Violation("wrong-coordinates", "get_coordinates(%d)=%s with %d points per period, N_up=%d" % (k, c, len_T, up))
    v = np.zeros(w.n, complex)
    v[rng.randrange(w.n)] = 1
    x = w.hams[0].evolve(v, t.i, t.vals)
    for k, i in enumerate(t.strobo.inds):
        close(x[:, i], np.linalg.matrix_power(w.U, k) @ v, 1e-5, "wrong-stroboscopic-state", "after %d periods" % k, 1.0)
    ctx.count("stroboscopic_evolutions")
