"""P10: several time evolutions of the same hamiltonians run as interleaved iterators while callers change arrays and drives fail."""
import random
import warnings
import numpy as np
import scipy.sparse as sp
from checks.spinref import dense, chain_terms, propagate
from checks.util import close, rnd
from sim.core import Violation

ID = "P10"
TREE = "plain"
NEED = None
QUICK = (1500, 75)
THOROUGH = (50000, 2400)
SHRINK = {"runs": 1}
RULE = ("seeded hamiltonian and a set of evolutions (Schroedinger, Liouville-von Neumann, imaginary time, split real state; lists, iterators, scalars) whose iterators are advanced "
        "in an order chosen by the scheduler, while initial states and states already returned are changed by the caller, driving functions fail at chosen calls, step limits "
        "are hit and iterators are dropped; every state returned is compared with a dense propagator; non-trivial when two iterators interleaved or a fault hit; distinct by "
        "scenario and schedule")
REAL = ["quspin.operators.hamiltonian.evolve", "quspin.tools.evolution.evolve", "scipy ODE solvers", "quspin.tools.matvec"]
STUB = ["the callers that share the hamiltonian: tasks advanced by the scheduler", "driving functions and right-hand sides: failing calls chosen by the simulator"]


class Boom(Exception):
    pass


class Drive:
    left = 0

    def __init__(self, k):
        self.k = k
        self.__name__ = "drive%d" % k

    def __call__(self, t, *args):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Boom("the driving function failed")
        return self.value(t, *args)

    def value(self, t, *args):
        x = (0.7 + 0.3 * self.k) * np.cos((0.9 + self.k) * t + 0.2)
        for j, a in enumerate(args):
            x = x + 0.3 * np.sin(a * t + j)
        return x


def setup():
    global hamiltonian, spin_basis_1d, evolve
    from quspin.operators import hamiltonian
    from quspin.basis import spin_basis_1d
    from quspin.tools.evolution import evolve


def gen(rng, tier):
    L = rng.choice([1, 2, 2, 3])
    sc = {"L": L, "seed": rng.getrandbits(31), "cplx": rng.random() < 0.5, "single": rng.random() < 0.1, "nd": rng.choice([0, 1, 1, 2]), "sf": rng.choice([None, "csr", "csc", "dia", "dense"]),
          "df": rng.choice([None, "csr", "csc", "dia", "dense"]), "nonherm": rng.random() < 0.25, "cseed": rng.getrandbits(40), "runs": []}
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        mode = rng.choice(["SE", "SE", "SE", "SE2", "SE2", "imag", "imag2", "stack", "stack2", "LvNE", "LvNE", "f", "freal", "fimag"])
        sc["runs"].append({"mode": mode, "seed": rng.getrandbits(31), "it": rng.random() < 0.65, "times": rng.choice(["up", "up", "down", "t0", "rep", "scalar", "scalar0", "one", "tiny"]),
                           "dt": rng.choice("dDDDfFi"), "lay": rng.choice(["C", "C", "F", "step", "neg"]), "solver": rng.choice(["dop853", "dop853", "dop853", "dopri5", "vode"]),
                           "fault": rng.choice(["none"] * 4 + ["drive", "drive", "nsteps", "drop"]), "at": rng.choice([1, 2, 5, 20, rng.randint(1, 400)]), "poke": rng.random() < 0.5,
                           "late": rng.random() < 0.4, "t0": rng.choice([0.0, 0.3, -1.1]), "verbose": rng.random() < 0.1})
    for r in [r for r in sc["runs"] if r["solver"] == "vode"][1:]:
        r["solver"] = "dopri5"          # scipy refuses a second vode solver in the same process
    return sc


def layout(A, lay):
    if lay == "F":
        return np.asfortranarray(A)
    if lay == "step":
        return np.repeat(A, 2, axis=0)[::2]
    if lay == "neg":
        return np.ascontiguousarray(A[::-1])[::-1]
    return np.ascontiguousarray(A)


class Run:
    """One evolution and everything the oracle needs."""

    def __init__(self, w, r, i):
        self.w, self.r, self.i = w, r, i
        n = w.n
        rs = np.random.RandomState(r["seed"])
        mode = r["mode"]
        self.imag = mode in ("imag", "imag2", "fimag")
        two = mode in ("SE2", "imag2", "stack2", "LvNE") or mode in ("f", "freal", "fimag") and r["seed"] % 2
        shape = (n, n) if mode == "LvNE" else (n, rs.randint(1, 4)) if two else (n,)
        T = {"d": np.float64, "D": np.complex128, "f": np.float32, "F": np.complex64, "i": np.int64}[r["dt"]]
        if mode == "freal" and T in (np.complex128, np.complex64):
            T = np.float64
        if T is np.int64:
            v = rs.randint(-2, 3, size=shape)
            v[0] = 1
        else:
            v = rnd(rs, shape, T)
        if self.imag:
            v = v.astype(T if T is not np.int64 else np.float64)
        if mode in ("SE", "SE2", "f") and rs.uniform() < 0.1:
            v = v * 0
        self.v0 = layout(v, r["lay"])
        self.keep = self.v0.copy()
        t0 = self.t0 = r["t0"]
        d = np.cumsum(rs.uniform(0.05, 0.5, size=rs.randint(2, 6)))
        k = r["times"]
        ts = {"up": t0 + d, "down": t0 - d, "t0": np.r_[t0, t0 + d], "rep": np.r_[t0, t0, np.repeat(t0 + d, 2)][: 6], "scalar": t0 + d[0], "scalar0": t0, "one": t0 + d[:1], "tiny": t0 + np.r_[1e-7, d]}[k]
        self.scalar = k.startswith("scalar")
        self.times = float(ts) if self.scalar else (ts if rs.uniform() < 0.7 else [float(x) for x in ts])
        self.ts = np.atleast_1d(ts)
        self.it = r["it"] and not self.scalar
        self.want = self.reference()
        self.scale = max(1.0, np.abs(self.want).max())
        self.tol = (3e-4 if w.sc["single"] else 3e-6) * self.scale * (20 if r["solver"] == "vode" else 1)
        self.k = 0
        self.out = []
        self.state = "new"

    def reference(self):
        w, mode = self.w, self.r["mode"]
        D = [(lambda t, f=f, a=a: f.value(t, *a), M) for f, a, M in w.dyn]
        v = self.v0.astype(complex)
        if mode == "freal":
            H0, D, fac = w.A.real, [(f, M.real) for f, M in D], 1.0
        elif self.imag:
            H0, fac = w.A, -1.0
        else:
            H0, fac = w.A, -1j
        if mode == "freal":
            D = [(lambda t: np.cos(t), w.A.real * 0.5)]
            H0 = w.A.real * 0.3
        if mode == "f":
            D = [(lambda t: np.cos(t), w.A)]
            H0 = w.A * 0.4
        if mode == "fimag":
            D, H0 = [], w.A
        if mode == "LvNE":
            U = propagate(H0, D, np.eye(w.n), self.t0, self.ts, fac, rtol=1e-10)
            return np.array([u @ v @ np.linalg.inv(u) for u in U])
        x = propagate(H0, D, v, self.t0, self.ts, fac, rtol=1e-10)
        if self.imag:
            n0 = np.linalg.norm(v, axis=0)
            x = np.array([y / np.linalg.norm(y, axis=0) * n0 for y in x])
        return x

    def start(self):
        w, r = self.w, self.r
        kw = dict(iterate=self.it, solver_name=r["solver"], verbose=r["verbose"])
        if r["solver"] == "vode":
            kw.update(rtol=1e-9, atol=1e-10, nsteps=100000)
        if r["fault"] == "nsteps":
            kw.update(nsteps=1 + r["at"] % 3, rtol=1e-12, atol=1e-12)
            if r["solver"] == "vode":
                kw["nsteps"] = 1
        m = r["mode"]
        if m in ("SE", "SE2"):
            return w.H.evolve(self.v0, self.t0, self.times, **kw)
        if m in ("imag", "imag2"):
            return w.H.evolve(self.v0, self.t0, self.times, imag_time=True, **kw)
        if m in ("stack", "stack2"):
            if w.cplx:
                return w.H.evolve(self.v0, self.t0, self.times, **kw)
            return w.H.evolve(self.v0, self.t0, self.times, stack_state=True, **kw)
        if m == "LvNE":
            return w.H.evolve(self.v0, self.t0, self.times, eom="LvNE", **kw)
        shape = self.v0.shape
        A = w.A
        if m == "freal":
            B = np.ascontiguousarray(A.real)

            def f(t, y, c):
                w.tick()
                return ((0.3 + c * np.cos(t)) * B.dot(y.reshape(shape))).ravel()
            return evolve(self.v0, self.t0, self.times, f, real=True, f_params=(0.5,), **kw)

        def f(t, y, c, buf):
            w.tick()
            if m == "fimag":
                buf[...] = -A.dot(y.reshape(shape))
            else:
                buf[...] = -1j * (0.4 + c * np.cos(t)) * A.dot(y.reshape(shape))
            return buf.ravel()
        return evolve(self.v0, self.t0, self.times, f, f_params=(1.0, np.zeros(shape, complex)), imag_time=m == "fimag", **kw)

    def what(self, k=None):
        return "evolution %d (%s, %s, t0=%s, times=%s, state %s %s%s)%s" % (self.i, self.r["mode"], self.r["solver"], self.t0, self.r["times"], self.v0.dtype, self.v0.shape,
                                                                        self.r["lay"], "" if k is None else ": state %d" % k)

    def compare(self, got, k):
        got = np.asarray(got)
        close(got, self.want[k], self.tol, "wrong-state", self.what(k), 1.0)

    def whole(self, got):
        if self.scalar:
            return self.compare(got, 0)
        got = np.asarray(got)
        want = np.moveaxis(self.want, 0, -1)
        close(got, want, self.tol, "wrong-state", self.what(), 1.0)


class World:
    def tick(self):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Boom("the right-hand side failed")


def execute(sc, ctx):
    Drive.left = 0
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run(sc, ctx)
    finally:
        Drive.left = 0


def run(sc, ctx):
    w = World()
    w.sc = sc
    rng = random.Random("sys:%s" % sc["seed"])
    L = sc["L"]
    n = w.n = 2 ** L
    w.cplx = sc["cplx"]
    dt = {(0, 0): np.float64, (1, 0): np.complex128, (0, 1): np.float32, (1, 1): np.complex64}[bool(w.cplx), bool(sc["single"])]
    rs = np.random.RandomState(rng.getrandbits(31))

    def mat():
        A = rnd(rs, (n, n), dt) * 0.7
        A = A * (rs.uniform(size=(n, n)) < 0.7)
        return A if sc["nonherm"] else A + A.conj().T
    w.A = np.zeros((n, n), complex)
    static, dynamic = [], []
    kw = {}
    if rng.random() < 0.5:
        kw["basis"] = spin_basis_1d(L)
        t = chain_terms(rng, L, "") if L > 1 else [["x", [[0.7, 0]]]]
        if w.cplx or not any("y" in x[0] for x in t):
            static += t
            w.A += dense(L, t)
    if not static or rng.random() < 0.5:
        A = mat()
        static.append(sp.csr_matrix(A))
        w.A += A
    w.dyn = []
    for k in range(sc["nd"]):
        f, a = Drive(k), rng.choice([(), (1.0,), (0.5, -2.0)])
        A = mat()
        dynamic.append([sp.csr_matrix(A), f, list(a)])
        w.dyn.append((f, a, A.astype(complex)))
    w.H = hamiltonian(static, dynamic, dtype=dt, static_fmt=sc["sf"], dynamic_fmt=sc["df"], check_herm=False, check_symm=False, check_pcon=False, **kw)
    w.A = w.A.astype(dt).astype(complex)
    before = [np.array(w.H.toarray(time=t)) for t in (0.0, 0.7)]
    runs = [Run(w, r, i) for i, r in enumerate(sc["runs"])]
    live = list(runs)
    hit = False
    switches, last = 0, None
    while live:
        q = live[ctx.choose(len(live), 0.3)]
        switches += last is not None and q is not last
        last = q
        ctx.count("steps")
        hit |= advance(q, w, ctx)
        if q.state == "done":
            live.remove(q)
    for q in runs:
        for k, v, c, own in q.out:
            if not np.array_equal(v, own, equal_nan=True):
                raise Violation("returned-state-changed", q.what(k) + " was changed after it was returned")
        if not q.poked and not np.array_equal(q.v0, q.keep):
            raise Violation("input-modified", q.what() + " changed the initial state")
    for t, b in zip((0.0, 0.7), before):
        if not np.array_equal(w.H.toarray(time=t), b):
            raise Violation("operator-changed", "the hamiltonian was changed by evolving")
    ctx.state("%s:%s" % (ctx.h, switches), hit or switches > 0 and len(runs) > 1)


def advance(q, w, ctx):
    """One step of one caller; whether a fault hit."""
    r = q.r
    try:
        if r["fault"] == "drive" and q.state == "new":
            q.armed = r["at"]
        if q.state == "new":
            q.poked = False
            q.armed = r["at"] if r["fault"] == "drive" else 0
            Drive.left = q.armed
            try:
                g = q.start()
            finally:
                spent = q.armed and Drive.left == 0
                q.armed = Drive.left
                Drive.left = 0
            ctx.count("mode_" + r["mode"])
            if not q.it:
                q.state = "done"
                if r["fault"] == "nsteps":
                    ctx.count("fault:step_limit_not_hit")
                q.whole(g)
                q.out.append((None, g, None, np.array(g)))
                if r["poke"] and isinstance(g, np.ndarray) and g.flags.writeable and g.size:
                    g[...] = 3
                    q.out[-1] = (None, g, None, np.array(g))
                    if not np.array_equal(q.v0, q.keep):
                        raise Violation("result-shares-input", q.what() + ": writing to the result changes the initial state")
                return False
            q.g = iter(g)
            q.state = "run"
            if r["late"]:
                # the caller reuses the array of the initial state
                q.v0[...] = 7
                q.poked = True
                ctx.count("fault:initial_state_overwritten")
            return r["late"]
        if r["fault"] == "drop" and q.k >= r["at"] % 5:
            q.g.close()
            ctx.count("fault:iterator_dropped")
            q.state = "done"
            return True
        Drive.left = q.armed
        try:
            v = next(q.g)
        finally:
            spent = q.armed and Drive.left == 0
            q.armed = Drive.left
            Drive.left = 0
        if q.k >= len(q.ts):
            raise Violation("too-many-states", q.what())
        q.compare(v, q.k)
        q.out.append((q.k, v, None, np.array(v)))
        q.k += 1
        if r["poke"]:
            # the caller works on the state in place
            v *= -0.5
            v += 1
            q.out[-1] = (q.k - 1, v, None, np.array(v))
            ctx.count("fault:returned_state_overwritten")
            if not q.poked and not np.array_equal(q.v0, q.keep):
                raise Violation("result-shares-input", q.what() + ": writing to a returned state changes the initial state")
        return r["poke"]
    except StopIteration:
        if q.k != len(q.ts):
            raise Violation("too-few-states", "%s: %d of %d" % (q.what(), q.k, len(q.ts)))
        q.state = "done"
        return False
    except Boom:
        if not spent:
            raise
        ctx.count("fault:driving_function_failed")
        q.state = "done"
        return True
    except RuntimeError as e:
        if r["fault"] != "nsteps" or "failed to evolve" not in str(e):
            raise
        ctx.count("fault:step_limit")
        q.state = "done"
        return True
