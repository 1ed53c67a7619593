"""P19: reduced density matrices, entanglement entropies and measurements along generators, against dense arithmetic in the full space."""
import random
import warnings
import zlib
import numpy as np
import scipy.sparse as sp
from checks.dense import rdm, rdm_mixed
from checks.util import close, rnd, Frozen, interrupt
from sim.core import Violation

ID = "P19"
TREE = "plain"
NEED = None
QUICK = (4000, 75)
THOROUGH = (150000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded spaces (1d, general, tensor and photon bases, with and without symmetry sectors) and a history of partial_trace, ent_entropy, obs_vs_time, ED_state_vs_time and "
        "diag_ensemble on states of every form (one, many, square collections, mixed, series of mixed, sparse); pending generators are advanced in seeded order, callers overwrite "
        "results, generators, drives and svd solvers fail at a chosen call and interrupts arrive before a chosen line; non-trivial when two generators were pending or a fault hit; "
        "distinct by scenario")
REAL = ["quspin.basis (partial_trace, ent_entropy, projections)", "quspin.tools.measurements", "quspin.tools.evolution.ED_state_vs_time", "quspin.tools.misc", "numpy and scipy solvers"]
STUB = ["the scheduler that advances pending generators", "generators, drives and svd solvers of the user that fail at a chosen call", "interrupts: raised by the simulator before a chosen line"]
OPS = ["ptrace"] * 8 + ["entropy"] * 10 + ["old"] * 3 + ["obs"] * 8 + ["start"] * 3 + ["advance"] * 6 + ["ed"] * 2 + ["diag"] * 4 + ["levels"] + ["spoil"] * 2 + ["refuse"] * 2


class Failure(Exception):
    pass


def setup():
    global qb, hamiltonian, ms, ED, misc
    import quspin.basis as qb
    from quspin.operators import hamiltonian
    import quspin.tools.measurements as ms
    import quspin.tools.misc as misc
    from quspin.tools.evolution import ED_state_vs_time as ED


def lattice(rng, small=False):
    kind = rng.choice(["spin", "spin", "boson", "fermion", "spinful", "gspin", "gboson", "gfermion", "gspinful"])
    s = {"kind": kind, "kw": {}}
    if kind in ("spin", "gspin"):
        S = rng.choice(["1/2", "1/2", "1"])
        L = rng.randint(2, (3 if small else 6) if S == "1/2" else (2 if small else 4))
        s["kw"]["S"] = S
        if rng.random() < 0.4:
            s["kw"]["Nup"] = rng.randint(0, L if S == "1/2" else 2 * L)
    elif kind in ("boson", "gboson"):
        sps = rng.choice([2, 3, 4])
        L = rng.randint(2, 2 if small else {2: 6, 3: 4, 4: 3}[sps])
        s["kw"]["sps"] = sps
        if rng.random() < 0.4:
            s["kw"]["Nb"] = rng.randint(0, (sps - 1) * L)
    elif kind in ("fermion", "gfermion"):
        L = rng.randint(2, 3 if small else 6)
        if rng.random() < 0.4:
            s["kw"]["Nf"] = rng.randint(0, L)
    else:
        L = rng.randint(2, 2 if small else 3)
        if rng.random() < 0.6:
            s["kw"]["Nf"] = [rng.randint(0, L), rng.randint(0, L)]
    s["L"] = L
    if rng.random() < 0.45 and L > 1:
        if kind[0] == "g":
            s["k"] = rng.randrange(L)
        else:
            fam = rng.choice(["k", "p", "kp"])
            if "k" in fam:
                s["kw"]["kblock"] = rng.randrange(L)
            if "p" in fam:
                s["kw"]["pblock"] = rng.choice([1, -1])
    return s


def gen(rng, tier):
    r = rng.random()
    if r < 0.04:  # reduced density matrices large enough for the sparse eigensolver
        space = rng.choice([{"kind": "spin", "L": 10, "kw": {"S": "1/2", "Nup": rng.randint(3, 5)}}, {"kind": "boson", "L": 6, "kw": {"sps": 3, "Nb": rng.randint(2, 5)}},
                            {"kind": "gfermion", "L": 10, "kw": {"Nf": rng.randint(3, 5)}}, {"kind": "tensor", "parts": [{"kind": "ho", "L": rng.randint(16, 19)}, {"kind": "ho", "L": rng.randint(15, 18)}]}])
    elif r < 0.62:
        space = lattice(rng)
    elif r < 0.8:
        space = {"kind": "tensor", "parts": [lattice(rng, True), lattice(rng, True) if rng.random() < 0.6 else {"kind": "ho", "L": rng.randint(1, 3)}]}
    else:
        part = lattice(rng, True)
        while part["kind"] not in ("spin", "boson", "fermion"):
            part = lattice(rng, True)
        space = {"kind": "photon", "part": part, "n": rng.randint(1, 3), "total": rng.random() < 0.5}
        if space["total"]:
            for k in ("Nup", "Nb", "Nf"):
                part["kw"].pop(k, None)
    sc = {"space": space, "seed": rng.getrandbits(31), "single": rng.random() < 0.15}
    sc["ops"] = []
    for _ in range(rng.randint(4, 14)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 9 + [rng.randint(1, 120)]), "fail": rng.choice([0] * 6 + [rng.randint(1, 6)])})
    return sc


def tuple_nf(kw):
    kw = dict(kw)
    if isinstance(kw.get("Nf"), list):
        kw["Nf"] = tuple(kw["Nf"])
    return kw


def make(s):
    kw = tuple_nf(s.get("kw", {}))
    L, kind = s["L"], s["kind"]
    if kind == "ho":
        return qb.ho_basis(L)
    one = {"spin": "spin_basis_1d", "boson": "boson_basis_1d", "fermion": "spinless_fermion_basis_1d", "spinful": "spinful_fermion_basis_1d"}
    gen_ = {"gspin": "spin_basis_general", "gboson": "boson_basis_general", "gfermion": "spinless_fermion_basis_general", "gspinful": "spinful_fermion_basis_general"}
    if kind in one:
        return getattr(qb, one[kind])(L, **kw)
    if "k" in s:
        kw["kb"] = ((np.arange(L) + 1) % L, s["k"])
    if kind == "gspinful" and "Nf" in kw:
        kw["Nf"] = kw["Nf"]
    return getattr(qb, gen_[kind])(L, **kw)


class Space:
    """A basis together with the isometry P into the product space of the given dimensions."""

    def __init__(self, s, cut_kw=None):
        self.kind = s["kind"]
        if self.kind == "tensor":
            l, r = [make(p) for p in s["parts"]]
            self.b = qb.tensor_basis(l, r)
            self.dims = [l.Ns, r.Ns]
            self.P = np.eye(l.Ns * r.Ns)
        elif self.kind == "photon":
            p = s["part"]
            cls = {"spin": qb.spin_basis_1d, "boson": qb.boson_basis_1d, "fermion": qb.spinless_fermion_basis_1d}[p["kind"]]
            kw = dict(p["kw"])
            if s["total"]:
                self.b = qb.photon_basis(cls, p["L"], Ntot=s["n"], **kw)
                self.n = s["n"]
            else:
                self.b = qb.photon_basis(cls, p["L"], Nph=s["n"], **kw)
                self.n = s["n"]
            self.dims = None
            if self.b.Ns:
                P = self.b.get_proj(np.complex128, full_part=False) if s["total"] else np.eye(self.b.Ns)
                self.P = np.asarray(P.todense() if sp.issparse(P) else P)
                self.dims = [self.P.shape[0] // (self.n + 1), self.n + 1]
        else:
            self.b = make(s)
            L = s["L"]
            sps = {"spin": 2 if s["kw"].get("S") == "1/2" else 3, "boson": s["kw"].get("sps", 2)}.get(self.kind.lstrip("g"), 2)
            self.spinful = "spinful" in self.kind
            self.L = L
            self.dims = [sps] * (2 * L if self.spinful else L)
            self.P = np.asarray(self.b.get_proj(np.complex128).todense()) if self.b.Ns else None
        self.n = self.b.Ns
        self.lat = self.kind not in ("tensor", "photon")

    def full(self, psi):
        return self.P @ np.asarray(psi, dtype=np.complex128)

    def subsystem(self, rng):
        """(argument for QuSpin, axes of A in order, ordering keyword)"""
        if not self.lat:
            a = rng.randrange(2)
            names = [("left", "right"), ("particles", "photons")][self.kind == "photon"]
            return names[a], [a], {}
        N = len(self.dims)
        if rng.random() < 0.2:
            if not self.spinful:
                return None, list(range(N // 2)), {}
            if not self.kind.startswith("g"):
                return None, list(range(self.L // 2)) + [self.L + i for i in range(self.L // 2)], {}
        A = rng.sample(range(N), rng.randint(1, N - 1))
        kw = {}
        order = True
        if rng.random() < 0.5:
            order = rng.random() < 0.5
            kw["subsys_ordering"] = order
        if self.spinful:
            up = [i for i in A if i < self.L]
            dn = [i for i in A if i >= self.L]
            A = up + dn
            arg = (up, [i - self.L for i in dn])
        else:
            arg = A if rng.random() < 0.5 else tuple(A)
        if order:
            A = sorted(A)
        return arg, A, kw


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.rs = np.random.RandomState(sc["seed"])
        self.sp = Space(sc["space"])
        self.dt = np.complex64 if sc["single"] else np.complex128
        self.tol = 3e-4 if sc["single"] else 1e-9
        self.pending = []
        self.kept = []
        self.nontrivial = False
        self.H = None

    # states
    def vector(self, rs, real=False):
        n = self.sp.n
        v = rnd(rs, n, np.complex128)
        r = rs.randint(4)
        if r == 0:
            v = v * (rs.rand(n) < 0.4)
            v[rs.randint(n)] += 1
        if r == 1:
            v = np.eye(n)[rs.randint(n)] * np.exp(1j * rs.rand())
        v = v / np.linalg.norm(v)
        if real:
            v = np.abs(v)
        return v

    def density(self, rs):
        k = rs.randint(1, 4)
        p = rs.rand(k) + 0.05
        p /= p.sum()
        V = [self.vector(rs) for _ in range(k)]
        return sum(q * np.outer(v, v.conj()) for q, v in zip(p, V))

    def state(self, rng, rs, forms):
        """(argument, keywords, full vectors or None, full density matrices or None)"""
        n = self.sp.n
        if n > 80:
            forms = [f for f in forms if f in ("one", "many", "sparse", "sparsemany")]
        form = rng.choice(forms)
        dt = self.dt
        kw = {}
        vec = rho = None
        real = rng.random() < 0.2 and np.abs(self.sp.P.imag).max() < 1e-12  # real states are refused in complex sectors
        if real:
            dt = {np.complex64: np.float32, np.complex128: np.float64}[dt]
        if form == "one":
            v = self.vector(rs, real)
            arg = v.real.astype(dt) if real else v.astype(dt)
            vec = [arg]
            r = rng.random()
            if r < 0.1 and n > 1:
                arg = [complex(x) for x in arg] if not real else [float(x) for x in arg]
            elif r < 0.3 and n > 1:
                arg = arg.reshape(-1, 1)
        elif form in ("many", "square"):
            k = n if form == "square" else rng.randint(2, 4)
            V = np.array([self.vector(rs, real) for _ in range(k)]).T
            arg = np.ascontiguousarray(V.real.astype(dt) if real else V.astype(dt))
            if rng.random() < 0.3:
                arg = np.asfortranarray(arg)
            if k == n or rng.random() < 0.4:
                kw["enforce_pure"] = True
            vec = list(arg.T)
        elif form == "mixed":
            arg = self.density(rs).astype(self.dt)
            rho = [arg]
        elif form == "mixed3":
            k = rng.randint(1, 3)
            arg = np.array([self.density(rs) for _ in range(k)]).transpose(1, 2, 0).astype(self.dt)
            rho = list(arg.transpose(2, 0, 1))
        elif form in ("sparse", "sparsemany"):
            k = 1 if form == "sparse" else rng.randint(2, 4)
            V = np.array([self.vector(rs, real) for _ in range(k)]).T
            V = V.real.astype(dt) if real else V.astype(dt)
            vec = list(V.T)
            fmt = rng.choice(["csr", "csc", "coo"])
            if k == n:
                kw["enforce_pure"] = True
            if rng.random() < 0.5:
                arg = sp.csr_matrix(V).asformat(fmt)
                if rng.random() < 0.5:
                    kw["sparse"] = True
            else:
                arg = V if k > 1 or rng.random() < 0.5 else V[:, 0]
                kw["sparse"] = True
        if rho is not None:
            P = self.sp.P
            rho = [P @ np.asarray(r, dtype=np.complex128) @ P.conj().T for r in rho]
            vec = None
        else:
            vec = [self.sp.full(v) for v in vec]
        return form, arg, kw, vec, rho

    def reduced(self, vec, rho, A):
        if rho is None:
            out = [rdm(v, self.sp.dims, A) for v in vec]
        else:
            out = [rdm_mixed(r, self.sp.dims, A) for r in rho]
        # the released convention (its own tests rely on it): rdm_B is the complex conjugate
        return [o[0] for o in out], [o[1].conj() for o in out]

    # comparisons
    def same_rdm(self, got, want, msg, kind):
        """got: an array, a sparse matrix or an array of sparse matrices; want: list of matrices"""
        if sp.issparse(got):
            got = [np.asarray(got.todense())]
        elif isinstance(got, np.ndarray) and got.dtype == object:
            got = [np.asarray(g.todense()) for g in got.ravel()]
        else:
            got = np.asarray(got)
        close(np.squeeze(np.array(got)), np.squeeze(np.array(want)), max(self.tol, 1e-12), kind, msg, scale=1.0)

    def spectrum(self, got, want, msg):
        got = np.asarray(got).reshape(len(want), -1)
        for g, w in zip(got, want):
            g = np.sort(np.real(g))[::-1]
            if np.abs(np.imag(got)).max() > self.tol:
                raise Violation("spectrum:complex", "%s: complex probabilities" % msg)
            w = np.sort(np.linalg.eigvalsh(w))[::-1]
            m = max(len(g), len(w))
            g, w = np.pad(g, (0, m - len(g))), np.pad(w, (0, m - len(w)))
            close(g, w, self.tol * 10, "entropy:spectrum", msg, scale=1.0)

    def entropies(self, mats, alpha):
        out = []
        for m in mats:
            p = np.linalg.eigvalsh(m)
            p = p[p > 1e-13]
            out.append(-(p * np.log(p)).sum() if alpha == 1 else np.log((p ** alpha).sum()) / (1 - alpha))
        return np.array(out)

    def etol(self, alpha):
        if self.sc["single"]:
            return 0.05 if alpha < 1 else 3e-3
        return 1e-5 if alpha < 1 else 1e-8

    def ptrace(self, op, rng, rs, cut):
        s = self.sp
        forms = ["one", "many", "square", "mixed", "mixed3", "sparse", "sparsemany"]
        form, arg, kw, vec, rho = self.state(rng, rs, forms)
        A, axes, okw = s.subsystem(rng)
        if s.kind == "gspinful" and A is not None:  # flat list of sites here
            A = A[0] + [i + s.L for i in A[1]]
        which = rng.choice(["A", "B", "both", None])
        kw = dict(kw, **okw)
        if which is not None:
            kw["return_rdm"] = which
        if A is not None:
            kw["sub_sys_A"] = A
        msg = "%s.partial_trace(%s state, %s)" % (s.kind, form, {k: v for k, v in kw.items()})
        frozen = Frozen(**({"state": arg} if isinstance(arg, np.ndarray) else {}))
        with interrupt(cut) as it:
            s.b.partial_trace(arg, **kw)
        self.hit(it)
        got = s.b.partial_trace(arg, **kw)
        frozen.check(msg)
        wA, wB = self.reduced(vec, rho, axes)
        which = which or "A"
        if which == "both":
            gA, gB = got
        else:
            gA = gB = got
        kind = "ptrace:" + form
        if which != "B":
            self.same_rdm(gA, wA, msg + " A", kind)
        if which != "A":
            self.same_rdm(gB, wB, msg + " B", kind + ":B")

    def hit(self, it):
        if it.fired:
            self.ctx.count("fault:interrupt")
            self.nontrivial = True

    def entropy(self, op, rng, rs, cut):
        s = self.sp
        forms = ["one", "one", "many", "square", "mixed", "mixed3", "sparse", "sparsemany"]
        form, arg, kw, vec, rho = self.state(rng, rs, forms)
        A, axes, okw = s.subsystem(rng)
        which = rng.choice(["A", "B", "both", None])
        kw.update(okw)
        if which is not None or rng.random() < 0.3:
            kw["return_rdm"] = which
        if A is not None:
            kw["sub_sys_A"] = A
        alpha = 1.0
        if rng.random() < 0.5:
            alpha = kw["alpha"] = rng.choice([0.5, 1.0, 2, 2.5, 3.0])
        evs = rng.random() < 0.5
        if evs:
            kw["return_rdm_EVs"] = True
        density = False
        if s.lat:
            density = True
            if rng.random() < 0.6:
                density = kw["density"] = rng.random() < 0.5
        solver = None
        if s.lat and form in ("one", "many", "square") and rng.random() < 0.4:
            solver = Solver(op["fail"], which is None)
            kw["svd_solver"] = solver
            kw["svd_kwargs"] = {"compute_uv": False} if which is None else {"full_matrices": False}
        msg = "%s.ent_entropy(%s state, %s)" % (s.kind, form, {k: v for k, v in kw.items() if k != "svd_solver"})
        frozen = Frozen(**({"state": arg} if isinstance(arg, np.ndarray) else {}))
        with interrupt(cut) as it:
            try:
                s.b.ent_entropy(arg, **kw)
            except Failure:
                if solver is None or not solver.failed:
                    raise
                self.ctx.count("fault:svd")
                self.nontrivial = True
            else:
                if solver is not None and solver.failed:
                    raise Violation("failure:swallowed", "%s returned although the svd solver failed" % msg)
        self.hit(it)
        if solver is not None:
            solver.left = 0
        got = s.b.ent_entropy(arg, **kw)
        frozen.check(msg)
        self.judge(got, vec, rho, axes, which, alpha, density, evs, msg, "entropy:" + form)
        self.kept.append((got, None))

    def judge(self, got, vec, rho, axes, which, alpha, density, evs, msg, kind):
        s = self.sp
        wA, wB = self.reduced(vec, rho, axes)
        keys = {"Sent_A"}
        if which in ("A", "both"):
            keys.add("rdm_A")
        if which in ("B", "both"):
            keys |= {"Sent_B", "rdm_B"}
        if evs:
            keys |= {"p_A"} if which in ("A", None) else {"p_B"} if which == "B" else {"p_A", "p_B"}
        optional = {"Sent_A", "p_A"} if which == "B" else set()  # released behaviour: only given for pure states
        missing = keys - optional - set(got)
        if missing:
            raise Violation("entropy:keys", "%s: no %s in the result" % (msg, sorted(missing)))
        nA, nB = len(axes), len(s.dims) - len(axes)
        tol = self.etol(alpha)
        for name, mats, m in (("A", wA, nA), ("B", wB, nB)):
            if "Sent_" + name in got:
                want = self.entropies(mats, alpha) / (m if density else 1)
                close(np.squeeze(got["Sent_" + name]), np.squeeze(want), tol, kind, msg + " Sent_" + name)
            if "p_" + name in got:
                self.spectrum(got["p_" + name], mats, msg + " p_" + name)
            if "rdm_" + name in got:
                self.same_rdm(got["rdm_" + name], mats, msg + " rdm_" + name, kind + ":rdm_" + name)

    def old(self, op, rng, rs, cut):
        """the deprecated function of quspin.tools.measurements"""
        s = self.sp
        kw = {}
        r = rng.random()
        vec = rho = None
        if r < 0.3:
            form, arg, kw, vec, rho = self.state(rng, rs, ["one", "mixed"])
            if isinstance(arg, list):
                arg = np.array(arg)
        elif r < 0.6 or s.n > 80:
            V = np.array([self.vector(rs) for _ in range(rng.choice([2, 3, min(s.n, 80)]))]).T.astype(self.dt)
            arg, form = {"V_states": V}, "V_states"
            vec = [s.full(v) for v in V.T]
        else:
            d, V = np.linalg.eigh(self.density(rs))
            arg, form = {"V_rho": V.astype(self.dt), "rho_d": np.abs(d).astype(self.dt(0).real.dtype)}, "V_rho"
            rho = [s.P @ ((V * np.abs(d)) @ V.conj().T) @ s.P.conj().T]
        A, axes, okw = s.subsystem(rng)
        if A is not None:
            kw["chain_subsys"] = A
        dm = rng.choice([False, "chain_subsys", "other_subsys", "both"])
        if dm:
            kw["DM"] = dm
        kw.update(okw)
        evs = dm != "other_subsys" and rng.random() < 0.5
        if evs:
            kw["svd_return_vec"] = [False, True, False]
        msg = "measurements.ent_entropy(%s of %s, %s)" % (form, s.kind, kw)
        with interrupt(cut) as it:
            ms.ent_entropy(arg, s.b, **kw)
        self.hit(it)
        got = ms.ent_entropy(arg, s.b, **kw)
        which = {False: None, "chain_subsys": "A", "other_subsys": "B", "both": "both"}[dm]
        self.judge(got, vec, rho, axes, which, 1.0, s.lat, evs, msg, "old:" + form)
        if evs:
            self.spectrum(np.asarray(got["lmbda"]) ** 2, self.reduced(vec, rho, axes)[0], msg + " lmbda")
        wA, wB = self.reduced(vec, rho, axes)
        if dm in ("chain_subsys", "both"):
            self.same_rdm(got["DM_chain_subsys"], wA, msg, "old:DM")
        if dm in ("other_subsys", "both"):
            self.same_rdm(got["DM_other_subsys"], wB, msg, "old:DM:B")

    # dynamics
    def system(self, rs):
        n = self.sp.n
        if self.H is None:
            M = rnd(rs, (n, n), np.complex128)
            self.H = M + M.conj().T
            self.E, self.V = np.linalg.eigh(self.H)
            self.E = self.E + np.arange(n) * 1e-3
            self.V = self.V
        return self.E, self.V

    def times(self, rng, rs):
        k = rng.choice([1, 2, 3, 4, 5, self.sp.n]) if self.sp.n < 9 else rng.randint(1, 5)
        t = rs.uniform(-2, 2, size=k)
        if rng.random() < 0.5:
            t = np.sort(t)
        return t

    def evolved(self, psi, t):
        U = (self.V * np.exp(-1j * self.E * t)) @ self.V.conj().T
        return U @ psi if psi.ndim == 1 else U @ psi @ U.conj().T

    def ed(self, op, rng, rs, cut):
        E, V = self.system(rs)
        t = self.times(rng, rs)
        mixed = rng.random() < 0.3 and 1 < self.sp.n < 22
        psi = self.density(rs) if mixed else self.vector(rs)
        frozen = Frozen(psi=psi, E=E, V=V, t=t)
        with interrupt(cut) as it:
            ED(psi, E, V, t)
        self.hit(it)
        got = ED(psi, E, V, t if rng.random() < 0.5 else list(t))
        frozen.check("ED_state_vs_time")
        close(got, np.array([self.evolved(psi, x) for x in t]).transpose(*((1, 2, 0) if mixed else (1, 0))), 1e-9, "ed:mixed" if mixed else "ed:pure", "ED_state_vs_time")

    def start(self, op, rng, rs, cut):
        if len(self.pending) > 4 or self.sp.n == 1:
            return
        E, V = self.system(rs)
        t = self.times(rng, rs)
        mixed = rng.random() < 0.3
        psi = self.density(rs) if mixed else self.vector(rs)
        self.pending.append({"it": ED(psi, E, V, t, iterate=True), "want": [self.evolved(psi, x) for x in t], "i": 0, "mixed": mixed})
        if len(self.pending) > 1:
            self.nontrivial = True

    def advance(self, op, rng, rs, cut):
        if not self.pending:
            return
        j = self.ctx.choose(len(self.pending))
        p = self.pending[j]
        for _ in range(rng.randint(1, 3)):
            with interrupt(cut) as it:
                x = next(p["it"], None)
            if it.fired:
                self.hit(it)
                self.pending.pop(j)
                return
            if x is None:
                if p["i"] != len(p["want"]):
                    raise Violation("ed:count", "the generator of states ended after %d of %d times" % (p["i"], len(p["want"])))
                self.pending.pop(j)
                return
            if p["i"] >= len(p["want"]):
                raise Violation("ed:count", "the generator of states gave more than %d states" % len(p["want"]))
            close(x, p["want"][p["i"]], 1e-9, "ed:iterate", "state %d" % p["i"])
            p["i"] += 1
            if rng.random() < 0.3:
                x[...] = 7.0

    def observables(self, rng, rs, t0=None):
        n = self.sp.n
        out, ref = {}, {}
        for i in range(rng.randint(1, 3)):
            M = rnd(rs, (n, n), np.complex128)
            if rng.random() < 0.8:
                M = M + M.conj().T
            if rng.random() < 0.3:
                M = M.real
            name = "O%d" % i
            form = rng.choice(["array", "csr", "list", "ham", "drive", "drive"])
            if form == "array":
                out[name] = M
            elif form == "list":
                out[name] = M.tolist()
            elif form == "csr":
                out[name] = sp.csr_matrix(M)
            elif form == "ham":
                out[name] = hamiltonian([M], [], dtype=np.complex128, check_herm=False)
            else:
                B = rnd(rs, (n, n), np.complex128)
                f = Drive(rs.uniform(0.3, 2))
                out[name] = hamiltonian([M], [[B, f, ()]], dtype=np.complex128, check_herm=False)
                ref[name] = (M, B, f)
                continue
            ref[name] = (M, None, None)
        return out, ref

    def obs(self, op, rng, rs, cut):
        s = self.sp
        n = s.n
        if n == 1:
            return
        E, V = self.system(rs)
        t = self.times(rng, rs)
        O, ref = self.observables(rng, rs)
        mixed = rng.random() < 0.25 and n < 22
        psi = self.density(rs) if mixed else self.vector(rs)
        form = rng.choice(["tuple", "array", "generator", "ed"])
        kw = {}
        back = rng.random() < 0.5
        if back:
            kw["return_state"] = True
        if form in ("tuple", "ed"):
            states = [self.evolved(psi, x) for x in t]
        else:
            states = [self.density(rs) if mixed else self.vector(rs) for _ in t]
        arr = np.stack(states, axis=-1)
        if form == "array":
            if not mixed and (len(t) == n or rng.random() < 0.3):
                kw["enforce_pure"] = True
        g = {"f": None}

        def argument(fail):
            if form == "tuple":
                return (psi, E, V)
            if form == "array":
                return arr
            if form == "ed":
                return ED(psi, E, V, t, iterate=True)
            return feed(states, fail, g)
        sent = None
        if rng.random() < 0.4:
            A, axes, okw = s.subsystem(rng)
            sent = {"basis": s.b}
            if A is not None:
                sent["sub_sys_A"] = A
            sent.update(okw)
            which = rng.choice([None, "A", "both"])
            if which:
                sent["return_rdm"] = which
            evs = rng.random() < 0.4
            if evs:
                sent["return_rdm_EVs"] = True
            if kw.get("enforce_pure"):
                sent["enforce_pure"] = True
            kw["Sent_args"] = sent
        before = dict(O)
        drives = [r[2] for r in ref.values() if r[2] is not None]
        msg = "obs_vs_time(%s of %s states, %d times, %s)" % (form, "mixed" if mixed else "pure", len(t), {k: v for k, v in kw.items() if k != "Sent_args"})
        frozen = Frozen(t=t, psi=psi, arr=arr, E=E, V=V)
        tt = t if rng.random() < 0.7 else list(t)
        fail = op["fail"]
        if fail and drives and rng.random() < 0.5:
            drives[0].left = fail
        elif fail and form == "generator":
            pass
        else:
            fail = 0
        if fail or cut:
            with interrupt(cut) as it:
                try:
                    ms.obs_vs_time(argument(fail if not any(d.left for d in drives) else 0), tt, O, **kw)
                except Failure:
                    if not (g["f"] or any(d.failed for d in drives)):
                        raise
                    self.ctx.count("fault:drive" if any(d.failed for d in drives) else "fault:generator")
                    self.nontrivial = True
                else:
                    if g["f"] or any(d.failed for d in drives):
                        raise Violation("failure:swallowed", msg + " returned although a function of the user failed")
            self.hit(it)
            for d in drives:
                d.left, d.failed = 0, False
            g["f"] = None
            self.unchanged(O, before, msg)
        got = ms.obs_vs_time(argument(0), tt, O, **kw)
        self.unchanged(O, before, msg)
        frozen.check(msg)
        if set(got) != set(O) | ({"psi_t"} if back else set()) | ({"Sent_time"} if sent else set()):
            raise Violation("obs:keys", "%s gave the keys %s" % (msg, sorted(got)))
        for name, (M, B, f) in ref.items():
            want = []
            for x, y in zip(t, states):
                Q = M if B is None else M + f.value(x) * B
                want.append(np.trace(Q @ y) if mixed else y.conj() @ Q @ y)
            close(np.squeeze(got[name]), np.squeeze(np.array(want)), 1e-8, "obs:" + form + (":mixed" if mixed else ":pure"), msg + " " + name)
        if back:
            close(np.squeeze(got["psi_t"]), np.squeeze(arr), 1e-9, "obs:psi_t", msg)
        if sent:
            P = s.P
            vec = None if mixed else [P @ y for y in states]
            rho = [P @ y @ P.conj().T for y in states] if mixed else None
            self.judge(got["Sent_time"], vec, rho, axes, which, 1.0, s.lat, evs, msg + " Sent_time", "obs:sent:" + form)

    def unchanged(self, O, before, msg):
        if list(O) != list(before) or any(O[k] is not before[k] for k in O):
            raise Violation("obs:dict-modified", "%s replaced the observables in the dictionary of the caller" % msg)

    def diag(self, op, rng, rs, cut):
        s = self.sp
        n = s.n
        if n == 1:
            return
        E2, V2 = self.system(rs)
        O = rnd(rs, (n, n), np.complex128)
        O = O + O.conj().T
        alpha = rng.choice([1.0, 1.0, 2.0, 0.5])
        kw = {"alpha": alpha}
        N = rng.choice([1, 3, len(s.dims)])
        density = rng.random() < 0.6
        if not density:
            kw["density"] = False
        form = rng.choice(["pure", "DM", "thermal", "mixed"])
        flags = {k: rng.random() < 0.6 for k in ("Obs", "Sd", "rho_d", "Srdm")}
        fluct = rng.choice([None, "delta_t_Obs", "delta_q_Obs"]) if flags["Obs"] and form != "DM" else None
        if flags["Obs"]:
            kw["Obs"] = rng.choice([lambda: O, lambda: hamiltonian([O], [], dtype=np.complex128)])()
        if fluct:
            kw[fluct] = True
        if flags["Sd"]:
            kw["Sd_Renyi"] = True
        if flags["rho_d"]:
            kw["rho_d"] = True
        if flags["Srdm"] and s.lat:
            A, axes, okw = s.subsystem(rng)
            if A is None or s.spinful:
                flags["Srdm"] = False
            else:
                kw["Srdm_Renyi"] = True
                kw["Srdm_args"] = dict(okw, basis=s.b, sub_sys_A=A)
        else:
            flags["Srdm"] = False
        args = dict(kw.get("Srdm_args", {}))
        if form == "pure":
            psi = self.vector(rs)
            state, weights = psi, None
            R = (np.abs(V2.conj().T @ psi) ** 2)[:, None]
        elif form == "DM":
            rho = self.density(rs)
            state, weights = rho, None
            R = np.real(np.diag(V2.conj().T @ rho @ V2))[:, None]
        else:
            M = rnd(rs, (n, n), np.complex128)
            E1, V1 = np.linalg.eigh(M + M.conj().T)
            betas = [rng.choice([0.5, 1.0, 2.0]) for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
            state = {"V1": V1, "E1": E1, "f_args": [betas]}
            f = lambda E, b: np.exp(-b * (E - E[0]))
            if form == "mixed":
                f = state["f"] = lambda E, b: 1.0 / (1.0 + b * np.abs(E))
            weights = np.array([f(E1, b) for b in betas]).T
            norm = rng.random() < 0.7
            if not norm:
                state["f_norm"] = False
                norms = weights.sum(axis=0)
            else:
                weights = weights / weights.sum(axis=0)
            if rng.random() < 0.4:
                state["V1_state"] = sorted(rng.sample(range(n), rng.randint(1, min(3, n))))
            R = np.abs(V2.conj().T @ V1) ** 2
        msg = "diag_ensemble(%s, %s)" % (form, sorted(k for k in kw))
        frozen = Frozen(E2=E2, V2=V2, O=O)
        with interrupt(cut) as it:
            ms.diag_ensemble(N, state, E2, V2, **kw)
        self.hit(it)
        got = ms.diag_ensemble(N, state, E2, V2, **kw)
        frozen.check(msg)
        if kw.get("Srdm_args", {}) != args:
            raise Violation("diag:arguments", msg + " changed Srdm_args")
        # reference, one column per state
        W = V2.conj().T @ O @ V2
        d = np.real(np.diag(W))
        off = np.abs(W - np.diag(np.diag(W))) ** 2
        want = {}
        if flags["Obs"]:
            want["Obs"] = d @ R / (N if density else 1)
        if fluct:
            dt2 = np.einsum("ja,jk,ka->a", R, off, R)
            want["delta_t_Obs"] = np.sqrt(dt2) / (N if density else 1)
            if fluct == "delta_q_Obs":
                q = np.real(np.diag(W @ W)) @ R - dt2 - (d @ R) ** 2
                want["delta_q_Obs"] = np.sqrt(np.abs(q)) / (N if density else 1)
        if flags["Sd"]:
            p = np.maximum(R, 1e-300)
            S = -(p * np.log(p)).sum(axis=0) if alpha == 1 else np.log((p ** alpha).sum(axis=0)) / (1 - alpha)
            want["Sd" if alpha == 1 else "Sd_Renyi"] = S / (N if density else 1)
        if flags["Srdm"]:
            full = [s.P @ V2[:, i] for i in range(n)]
            red = np.array([rdm(v, s.dims, axes)[0] for v in full])
            S = self.entropies(np.einsum("na,nij->aij", R, red), alpha)
            want["Srdm" if alpha == 1 else "Srdm_Renyi"] = S / (len(axes) if density else 1)
        keys = {k + "_" + form for k in want}
        for k, w in want.items():
            tol = 1e-5 if alpha < 1 or "delta" in k else 1e-8
            name = k + "_" + form
            if name not in got:
                raise Violation("diag:keys", "%s: no %s among %s" % (msg, name, sorted(got)))
            close(np.squeeze(got[name]), np.squeeze(w if weights is None else w @ weights), tol, "diag:" + k, msg + " " + name)
            if weights is not None and "V1_state" in state:
                close(np.squeeze(got[k + "_V1_state"]), np.squeeze(w[state["V1_state"]]), tol, "diag:V1_state", msg + " " + name)
        if flags["rho_d"]:
            w = R if weights is None or "V1_state" not in state else R[:, state["V1_state"]]
            close(np.squeeze(got["rho_d"]), np.squeeze(w), 1e-10, "diag:rho_d", msg)
        if weights is not None and "f_norm" in state:
            close(got["f_norm"], norms, 1e-10, "diag:f_norm", msg)
        self.kept.append((got, None))

    def levels(self, op, rng, rs, cut):
        n = rng.randint(3, 12)
        E = np.sort(rs.rand(n))
        if rng.random() < 0.2:
            E[n // 2] = E[n // 2 - 1]
        arg = E if rng.random() < 0.5 else list(E)
        frozen = Frozen(E=E)
        with interrupt(cut) as it:
            misc.mean_level_spacing(arg, verbose=False)
        self.hit(it)
        got = misc.mean_level_spacing(arg, verbose=False)
        frozen.check("mean_level_spacing")
        s = np.diff(E)
        if (s == 0).any():
            if not np.isnan(got):
                raise Violation("levels", "mean_level_spacing of a degenerate spectrum is %r" % got)
        else:
            close(got, np.mean([min(a, b) / max(a, b) for a, b in zip(s[1:], s[:-1])]), 1e-12, "levels", "mean_level_spacing")
        p, q = rs.rand(n) + 0.01, rs.rand(n) + 0.01
        p, q = p / p.sum(), q / q.sum()
        if abs(sum(p) - 1) < 1e-14 and abs(sum(q) - 1) < 1e-14:
            close(misc.KL_div(p, q), (p * np.log(p / q)).sum(), 1e-12, "levels:KL", "KL_div")

    def spoil(self, op, rng, rs, cut):
        """the caller overwrites what it was given; nothing later may change"""
        for got, _ in self.kept:
            for k in got:
                v = got[k]
                if isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable:
                    v[...] = 3
        self.kept = []

    def refuse(self, op, rng, rs, cut):
        s = self.sp
        psi = self.vector(rs)
        calls = []
        if s.lat and not s.spinful:
            N = len(s.dims)
            calls += [lambda: s.b.partial_trace(psi, sub_sys_A=[0, 0]), lambda: s.b.ent_entropy(psi, sub_sys_A=[0, N]), lambda: s.b.partial_trace(psi, sub_sys_A=[N]), lambda: s.b.partial_trace(psi, sub_sys_A=[-1]),
                      lambda: s.b.ent_entropy(psi, sub_sys_A=[-1]), lambda: s.b.ent_entropy(psi, sub_sys_A=list(range(N))), lambda: s.b.ent_entropy(psi, sub_sys_A=[0.5])]
        calls += [lambda: s.b.ent_entropy(np.concatenate([psi, psi])), lambda: s.b.partial_trace(np.concatenate([psi, psi]), return_rdm="A"),
                  lambda: s.b.ent_entropy(psi, return_rdm="C"), lambda: s.b.ent_entropy(psi, alpha=-1.0), lambda: s.b.partial_trace(psi, return_rdm="C")]
        if s.n > 1:
            sq = sp.csr_matrix(np.eye(s.n))
            calls += [lambda: s.b.partial_trace(sq), lambda: s.b.ent_entropy(sq), lambda: s.b.partial_trace(sq, return_rdm="both"), lambda: s.b.ent_entropy(np.eye(s.n), sparse=True)]
            if not s.lat:
                calls += [lambda: s.b.ent_entropy(psi, sub_sys_A="middle"), lambda: s.b.partial_trace(psi, sub_sys_A="middle")]
        if 1 < s.n <= 80:
            E, V = self.system(rs)
            calls += [lambda: ED(psi, E[:-1], V, [0.0, 1.0]), lambda: ED(psi, E, V[:, :-1], [0.0, 1.0]), lambda: ED(psi, E, V, 0.5),
                      lambda: ms.obs_vs_time((psi, E, V), 0.5, {"H": self.H}), lambda: ms.obs_vs_time((psi, E, V), [0.0, 0.1], [self.H]),
                      lambda: ms.diag_ensemble(1, psi, np.zeros(s.n), V, Obs=self.H), lambda: ms.diag_ensemble(1, psi, E, V, delta_t_Obs=True),
                      lambda: ms.diag_ensemble(1, {"V1": V, "E1": E[::-1], "f_args": [[1.0]]}, E, V, Sd_Renyi=True), lambda: ms.diag_ensemble(1, {"V1": V, "E1": E}, E, V, Sd_Renyi=True),
                      lambda: ms.diag_ensemble(1, {"V1": V, "E1": E, "f_args": [[1.0]], "V1_state": [s.n]}, E, V, Sd_Renyi=True),
                      lambda: ms.diag_ensemble(1, {"V1": V, "E1": E, "f_args": [[1.0]], "V1_state": [0.5]}, E, V, Sd_Renyi=True),
                      lambda: ms.diag_ensemble(1.5, psi, E, V, Sd_Renyi=True), lambda: ms.diag_ensemble(1, psi, E, V, Sd_Renyi=True, alpha=-1.0)]
        k = rng.randrange(len(calls))
        try:
            calls[k]()
        except (ValueError, TypeError):
            self.ctx.count("fault:refused")
            return
        raise Violation("refuse:accepted", "an invalid call was accepted (%d of %d on %s)" % (k, len(calls), s.kind))

    def step(self, op):
        if self.sp.n > 80 and op["op"] not in ("ptrace", "entropy", "old", "refuse", "levels", "spoil"):
            return
        rng = random.Random(op["seed"])
        rs = np.random.RandomState(op["seed"] % (2 ** 31))
        getattr(self, op["op"])(op, rng, rs, op["cut"])


class Drive:
    def __init__(self, w):
        self.w, self.left, self.failed = w, 0, False

    def value(self, t):
        return np.cos(self.w * t) + 0.3

    def __call__(self, t):
        if self.left:
            self.left -= 1
            if not self.left:
                self.failed = True
                raise Failure("the drive failed")
        return self.value(t)


class Solver:
    def __init__(self, left, values):
        self.left, self.failed = left, False

    def __call__(self, m, **kw):
        if self.left:
            self.left -= 1
            if not self.left:
                self.failed = True
                raise Failure("svd did not converge")
        return np.linalg.svd(m, **kw)


def feed(states, fail, g):
    for i, x in enumerate(states):
        if fail and i + 1 == fail:
            g["f"] = True
            raise Failure("the generator failed")
        yield x.copy()


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                w = World(sc, ctx)
            except ValueError as e:
                if "dimension mismatch" in str(e):
                    raise
                return
            if w.sp.n == 0 or w.sp.dims is None:
                return
            for i, op in enumerate(sc["ops"]):
                ctx.count("steps")
                try:
                    w.step(op)
                except Violation as e:
                    raise Violation(e.kind, "step %d (%s): %s" % (i, op["op"], e.msg))
            ctx.state(zlib.crc32(repr(sc).encode()), w.nontrivial)
