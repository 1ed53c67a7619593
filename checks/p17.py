"""P17: Lanczos iterations over shared operators, whose vectors are generated on the fly while others go on, against dense Krylov spaces."""
import random
import warnings
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from scipy.sparse.linalg import aslinearoperator
from checks.util import close, rnd, Frozen, interrupt
from sim.core import Violation

ID = "P17"
TREE = "plain"
NEED = None
QUICK = (4000, 75)
THOROUGH = (150000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded hermitian operators (dense, sparse, hamiltonian, quantum_operator, LinearOperator, objects with and without out=; generic, degenerate and block spectra whose Krylov "
        "spaces are exhausted early) and a history of lanczos_full, lanczos_iter, expm_lanczos, lin_comb_Q_T, FTLM and LTLM iterations; vector generators stay pending and are "
        "advanced in seeded order while callers overwrite initial vectors, operators and outputs; products fail at a chosen call and interrupts arrive before a chosen line; "
        "non-trivial when two generators were pending at once or a fault hit; distinct by scenario")
REAL = ["quspin.tools.lanczos", "quspin.operators (as the operator)", "scipy.linalg.eigh_tridiagonal, BLAS axpy"]
STUB = ["the scheduler that advances pending generators", "operators whose products fail at a chosen call", "interrupts: raised by the simulator before a chosen line"]
OPS = ["full"] * 4 + ["iter"] * 6 + ["start"] * 6 + ["advance"] * 12 + ["expm"] * 4 + ["comb"] * 3 + ["ftlm", "ltlm"] * 3 + ["spoil"] * 4 + ["refuse"] * 2


class ProductError(Exception):
    pass


class Op:
    """An operator of the user: a matrix with a dot method that may fail, with or without an out argument."""

    def __init__(self, M, out, err):
        self.M, self.dtype, self.has_out, self.left, self.err, self.failed = M, M.dtype, out, 0, err, False

    def __deepcopy__(self, memo):
        return Op(self.M.copy(), self.has_out, self.err)

    def tick(self):
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.failed = True
                raise self.err("the product failed")

    def dot(self, v, **kw):
        if set(kw) - ({"out"} if self.has_out else set()):
            raise TypeError("unexpected keyword")
        self.tick()
        r = self.M.dot(v)
        if "out" in kw:
            kw["out"][...] = r
            return kw["out"]
        return r


def setup():
    global hamiltonian, quantum_operator, lz
    from quspin.operators import hamiltonian, quantum_operator
    import quspin.tools.lanczos as lz


def gen(rng, tier):
    sc = {"n": rng.choice([2, 3, 4, 6, 9, 12, 16]), "seed": rng.getrandbits(31), "single": rng.random() < 0.15}
    sc["ops"] = []
    for _ in range(rng.randint(4, 16)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 9 + [rng.randint(1, 60)]), "fail": rng.choice([0] * 6 + [rng.randint(1, 8)])})
    return sc


class Krylov:
    """Orthonormal Krylov basis from dense arithmetic (twice reorthogonalised), q0 = v/|v|."""

    def __init__(self, A, v, m):
        A = np.asarray(A, dtype=np.result_type(A.dtype, np.float64))
        q = v / np.linalg.norm(v)
        Q = [q.astype(np.result_type(A.dtype, q.dtype))]
        scale = max(np.linalg.norm(A, 2), 1e-300)
        self.gap = np.inf
        for _ in range(m - 1):
            r = A @ Q[-1]
            for _ in range(3):
                for p in Q:
                    r = r - np.vdot(p, r) * p
            b = np.linalg.norm(r)
            if b < 1e-9 * scale:
                self.exhausted = True
                break
            self.gap = min(self.gap, b / scale)
            Q.append(r / b)
        else:
            self.exhausted = False
        self.Q = np.array(Q)
        self.T = self.Q.conj() @ A @ self.Q.T

    def f(self, g):
        """g of the projected operator in the Krylov basis."""
        e, u = np.linalg.eigh((self.T + self.T.conj().T) / 2)
        return (u * g(e)) @ u.conj().T


class Dec:
    """The result of one Lanczos run and what it was made from."""

    def __init__(self, E, V, Q, K, A, dt, itr):
        self.E, self.V, self.Q, self.K, self.A, self.dt, self.itr = E, V, Q, K, A, dt, itr


class Src:
    def __init__(self, obj, M):
        self.obj, self.M, self.dirty = obj, M, False


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.n = sc, ctx, sc["n"]
        self.rs = np.random.RandomState(sc["seed"])
        rng = random.Random(sc["seed"])
        self.src = [self.source(rng) for _ in range(2)]
        self.vs = [self.vector(rng) for _ in range(3)]
        self.decs, self.pending, self.nontrivial = [], [], False
        self.tol0 = 2e-3 if sc["single"] else 1e-8

    def dt(self, rng):
        return rng.choice("fF" if self.sc["single"] else "dD")

    def matrix(self, rng, dt):
        n = self.n
        k = rng.choice(["random", "random", "spectrum", "blocks", "diag", "chain"])
        if k == "random":
            M = rnd(self.rs, (n, n), "D")
        elif k == "spectrum":
            u, _ = la.qr(rnd(self.rs, (n, n), "D" if dt in "FD" else "d"))
            M = (u * self.rs.choice([-1.0, 0.5, 2.0], size=n)) @ u.conj().T
        elif k == "diag":
            M = np.diag(self.rs.choice([-1.0, 0.0, 1.0, 2.0], size=n)).astype(complex)
        elif k == "chain":
            M = np.diag(np.ones(n - 1), 1).astype(complex)
        else:
            M = rnd(self.rs, (n, n), "D")
            h = n // 2
            M[:h, h:] = 0
            M[h:, :h] = 0
        M = M + M.conj().T
        M = M if dt in "FD" else M.real
        M = M / max(np.linalg.norm(M, 2), 0.1) * rng.choice([0.3, 1.0, 3.0])
        return np.ascontiguousarray(M.astype(dt))

    def source(self, rng):
        dt = self.dt(rng)
        M = self.matrix(rng, dt)
        k = rng.choice(["array", "sparse", "ham", "qop", "lin", "op", "op", "op_out", "op_out"])
        off = dict(check_herm=False, check_pcon=False, check_symm=False)
        obj = {"array": lambda: M.copy(), "sparse": lambda: sp.csr_matrix(M), "ham": lambda: hamiltonian([M], [], dtype=M.dtype, **off),
               "qop": lambda: quantum_operator({"a": [M]}, dtype=M.dtype, **off), "lin": lambda: aslinearoperator(M.copy()),
               "op": lambda: Op(M.copy(), False, ProductError), "op_out": lambda: Op(M.copy(), True, rng.choice([ProductError, MemoryError]))}[k]()
        return Src(obj, M)

    def vector(self, rng):
        dt = self.dt(rng)
        n = self.n
        if rng.random() < 0.25:
            v = np.zeros(n, dt)
            v[rng.randrange(n)] = rng.choice([1.0, 2.0])
        else:
            v = rnd(self.rs, (n,), dt)
            if rng.random() < 0.5:
                v /= np.linalg.norm(v)
            if not np.abs(v).max() > 1e-3:
                v[0] = 1
        if rng.random() < 0.3:
            b = np.zeros(3 * n, dt)
            b[::3] = v
            v = b[::3]
        return v

    def attempt(self, op, s, f):
        o = s.obj if s is not None and isinstance(s.obj, Op) else None
        if o is not None:
            o.left, o.failed = op["fail"], False
        r, done = None, False
        with interrupt(op["cut"]) as it:
            try:
                r = f()
                done = True
            except (ProductError, MemoryError):
                if o is None or not o.failed:
                    raise
                self.ctx.count("fault:product-failed")
                self.nontrivial = True
        if o is not None:
            o.left = 0
        if it.fired:
            self.ctx.count("fault:interrupt")
            self.nontrivial = True
            return False, None
        if done and o is not None and o.failed:
            raise Violation("error-swallowed", "the failure of a product was not reported")
        return done, r

    def step(self, op):
        rng = random.Random(op["seed"])
        getattr(self, "do_" + op["op"])(rng, op)
        self.ctx.count("steps")
        if len(self.pending) > 1:
            self.nontrivial = True

    def sizes(self, rng):
        return rng.randint(1, min(self.n - 1, 8)) if self.n > 1 else None

    def check(self, d, what):
        """The decomposition describes the Krylov space."""
        K, m, tol = d.K, len(d.K.Q), self.tol(d)
        if d.E.ndim != 1 or d.V.shape != (d.E.size, d.E.size) or d.E.size < m or (not K.exhausted and d.E.size != m):
            raise Violation("wrong-size", "%s: %d eigenvalues and eigenvectors of shape %s for a Krylov space of dimension %d" % (what, d.E.size, d.V.shape, m))
        if not np.isfinite(d.E).all() or not np.isfinite(d.V).all():
            raise Violation("not-finite", "%s: eigenvalues or eigenvectors are not finite" % what)
        if d.E.dtype.kind != "f" or d.V.dtype.kind != "f":
            raise Violation("wrong-dtype", "%s: E has dtype %s, V has dtype %s" % (what, d.E.dtype, d.V.dtype))
        close(d.V.T @ d.V, np.eye(d.E.size), tol, "eigenvectors-not-orthonormal", what, 1.0)
        # what is independent of vectors beyond an exhausted space: the spectral measure of the initial vector
        for x in (0.5, -1.0):
            close(np.sum(d.V[0] ** 2 * np.exp(x * d.E)), K.f(lambda e: np.exp(x * e))[0, 0].real, tol, "wrong-spectral-measure", what, 30.0)

    def tol(self, d):
        return self.tol0 / min(1.0, d.K.gap) ** 2

    def do_full(self, rng, op):
        s, v = rng.choice(self.src), rng.choice(self.vs)
        m = self.sizes(rng)
        dt = np.result_type(s.M.dtype, v.dtype)
        K = Krylov(s.M, v, m)
        kw = {}
        if rng.random() < 0.4:
            kw["full_ortho"] = True
        if rng.random() < 0.3:
            kw["out"] = np.full((m, self.n), 9, dtype=dt)
        if K.exhausted:
            kw["eps"] = 1e-3 if self.sc["single"] else 1e-9
        f = Frozen(v0=v, A=s.M)
        done, r = self.attempt(op, s, lambda: lz.lanczos_full(s.obj, v, m, **kw))
        f.check("lanczos_full")
        if not done or K.gap < (0.05 if self.sc["single"] else 1e-3):
            return
        E, V, Q = r
        what = "lanczos_full%s" % ("(full_ortho)" if "full_ortho" in kw else "")
        d = Dec(E, V, Q, K, s.M.copy(), dt, False)
        self.check(d, what)
        if Q.dtype != dt or Q.shape != (len(E), self.n) or (kw.get("out") is not None and not np.shares_memory(Q, kw["out"])):
            raise Violation("wrong-array", "%s: Q_T has dtype %s and shape %s" % (what, Q.dtype, Q.shape))
        k = len(K.Q)
        close(self.phase(Q[:k], K.Q), K.Q, self.tol(d), "wrong-vectors", what, 1.0)
        close(Q[0], v / np.linalg.norm(v), self.tol0, "wrong-first-vector", what, 1.0)
        self.decs.append(d)

    def phase(self, Q, R):
        # the vectors are unique up to signs beyond the first; the sign convention b>0 fixes them
        return Q

    def do_iter(self, rng, op):
        s, v = rng.choice(self.src), rng.choice(self.vs)
        m = self.sizes(rng)
        dt = np.result_type(s.M.dtype, v.dtype)
        K = Krylov(s.M, v, m)
        kw = {}
        if K.exhausted:
            kw["eps"] = 1e-3 if self.sc["single"] else 1e-9
        copy_A = rng.random() < 0.5 and not s.obj.__class__.__name__.startswith("_Custom")
        if copy_A:
            kw["copy_A"] = True
        if rng.random() < 0.3:
            kw["copy_v0"] = True
        f = Frozen(v0=v, A=s.M)
        if rng.random() < 0.2:
            done, r = self.attempt(op, s, lambda: lz.lanczos_iter(s.obj, v, m, return_vec_iter=False, **kw))
            if done:
                r = tuple(r) + (None,)
        else:
            done, r = self.attempt(op, s, lambda: lz.lanczos_iter(s.obj, v, m, **kw))
        f.check("lanczos_iter")
        if not done or K.gap < (0.05 if self.sc["single"] else 1e-3):
            return
        d = Dec(r[0], r[1], r[2], K, s.M.copy(), dt, True)
        self.check(d, "lanczos_iter")
        d.src = None if copy_A else s
        if d.Q is not None:
            self.decs.append(d)

    def usable(self, itr=None):
        """Decompositions whose vectors can still be generated (the operator was not changed)."""
        return [d for d in self.decs if (itr is None or d.itr == itr) and not (d.itr and d.src is not None and d.src.dirty and not np.array_equal(d.src.M, d.A))]

    def do_start(self, rng, op):
        u = self.usable(True)
        if u:
            d = rng.choice(u)
            self.pending.append([d, iter(d.Q), 0, []])

    def live(self, d):
        return d in self.usable()

    def do_advance(self, rng, op):
        self.pending = [p for p in self.pending if self.live(p[0])]
        if not self.pending:
            return
        p = rng.choice(self.pending)
        d, it, at, kept = p
        for _ in range(rng.choice([1, 1, 2, 9])):
            done, q = self.attempt(op, d.src, lambda: next(it, None))
            if not done:
                self.pending.remove(p)
                return
            k = len(d.K.Q)
            if q is None:
                if p[2] != d.E.size:
                    raise Violation("too-few-vectors", "the generator gave %d vectors for %d eigenvalues" % (p[2], d.E.size))
                self.pending.remove(p)
                return
            if p[2] >= d.E.size:
                raise Violation("too-many-vectors", "the generator gave more than %d vectors" % d.E.size)
            if p[2] < k:
                close(q, d.K.Q[p[2]], self.tol(d), "wrong-vectors", "vector %d of a generator" % p[2], 1.0)
                if q.dtype != d.dt:
                    raise Violation("wrong-dtype", "vector of a generator has dtype %s, expected %s" % (q.dtype, d.dt))
                kept.append((p[2], q))
            for i, x in kept:
                close(x, d.K.Q[i], self.tol(d), "kept-vector-changed", "vector %d, kept by the caller" % i, 1.0)
            p[2] += 1
            self.ctx.count("advanced")

    def do_expm(self, rng, op):
        u = self.usable()
        if not u:
            return
        d = rng.choice(u)
        a = rng.choice([1.0, -0.5, -0.3j, 0.2 + 0.5j, 0.0])
        want = d.K.f(lambda e: np.exp(a * e))[:, 0] @ d.K.Q
        out, kw = None, {}
        if rng.random() < 0.4:
            out = np.full(self.n, 7, dtype=np.result_type(d.dt, (np.exp(a * d.E)).dtype))
            kw["out"] = out
        done, r = self.attempt(op, getattr(d, "src", None), lambda: lz.expm_lanczos(d.E, d.V, d.Q, a=a, **kw))
        if done:
            close(r, want, self.tol(d), "wrong-exponential", "expm_lanczos(a=%s)" % a, 30.0)
            if out is not None and r is not out:
                raise Violation("out-not-used", "expm_lanczos did not return out")

    def do_comb(self, rng, op):
        u = self.usable()
        if not u:
            return
        d = rng.choice(u)
        k = len(d.K.Q)
        c = rnd(self.rs, (d.E.size,), self.dt(rng))
        c[k:] = 0
        f = Frozen(c=c)
        out, kw = None, {}
        if rng.random() < 0.4:
            out = np.full(self.n, 7, dtype=np.result_type(d.dt, c.dtype))
            kw["out"] = out
        done, r = self.attempt(op, getattr(d, "src", None), lambda: lz.lin_comb_Q_T(c, d.Q, **kw))
        f.check("lin_comb_Q_T")
        if done:
            close(r, c[:k] @ d.K.Q, self.tol(d) * 10, "wrong-combination", "lin_comb_Q_T", 1.0)

    def observables(self, rng):
        o = {}
        for k in "AB"[:rng.randint(1, 2)]:
            M = self.matrix(rng, "f" if self.sc["single"] else self.dt(rng))
            o[k] = (rng.choice([M, sp.csr_matrix(M), hamiltonian([M], [], dtype=M.dtype, check_herm=False, check_pcon=False, check_symm=False)]), M)
        return o

    def beta(self, rng):
        return rng.choice([0, 0.7, 2.0, [0.0, 0.5, 3.0], np.array([1.0]), np.array([0.1, 4.0])])

    def tm(self, rng, op, f, value, name):
        u = [d for d in self.usable() if not d.K.exhausted]
        if not u:
            return
        d = rng.choice(u)
        obs, beta = self.observables(rng), self.beta(rng)
        if rng.random() < 0.25:
            beta = 40.0
        bs = np.atleast_1d(beta)
        done, r = self.attempt(op, getattr(d, "src", None), lambda: f({k: o for k, (o, M) in obs.items()}, d.E, d.V, d.Q, beta=beta))
        if not done:
            return
        got, one = r
        if set(got) != set(obs):
            raise Violation("missing-observable", "%s returned %s for %s" % (name, sorted(got), sorted(obs)))
        scale = np.exp(np.abs(d.E).max() * bs.max()) * 10
        e0 = np.exp(-np.min(np.linalg.eigvalsh(d.K.T)) * bs)
        Q = d.K.Q

        def same(x, want, what):
            x = np.atleast_1d(x)
            close(x / e0, np.array(want) / e0, 10 * self.tol(d) * (1 + bs.max()), "wrong-%s" % name, "%s %s (beta=%s)" % (name, what, beta), 30.0)
        same(one, [d.K.f(lambda e: np.exp(-b * e))[0, 0].real for b in bs], "of the identity")
        for k, (o, M) in obs.items():
            same(got[k], [value(d, Q, M, b) for b in bs], k)

    def do_ftlm(self, rng, op):
        self.tm(rng, op, lz.FTLM_static_iteration, lambda d, Q, M, b: np.conj(d.K.f(lambda e: np.exp(-b * e))[:, 0]) @ (Q.conj() @ (M @ Q[0])), "FTLM")

    def do_ltlm(self, rng, op):
        def value(d, Q, M, b):
            x = d.K.f(lambda e: np.exp(-b * e / 2))[:, 0] @ Q
            return np.vdot(x, M @ x)
        self.tm(rng, op, lz.LTLM_static_iteration, value, "LTLM")

    def do_spoil(self, rng, op):
        k = rng.choice(["v", "v", "A", "Q"])
        if k == "v":
            v = rng.choice(self.vs)
            v[...] = rnd(self.rs, v.shape, v.dtype) + 2
        elif k == "Q":
            ds = [d for d in self.decs if not d.itr]
            if ds:
                d = rng.choice(ds)
                d.Q[...] = 5
                self.decs.remove(d)
        else:
            s = rng.choice([x for x in self.src])
            if type(s.obj) is np.ndarray:
                s.obj *= 0.5
            elif isinstance(s.obj, Op):
                s.obj.M *= 0.5
            elif sp.issparse(s.obj):
                s.obj.data *= 0.5
            else:
                return
            s.M = s.M * np.array(0.5, s.M.dtype)
            s.dirty = True
        self.ctx.count("fault:overwritten-by-caller")

    def do_refuse(self, rng, op):
        s, v = rng.choice(self.src), rng.choice(self.vs)
        n = self.n
        f = rng.choice([lambda: lz.lanczos_full(s.obj, v, n), lambda: lz.lanczos_iter(s.obj, v, n + 1), lambda: lz.lanczos_full(s.obj, np.ones((n, 1)), 1),
                        lambda: lz.lanczos_full(s.obj, v, 1, out=np.zeros((2, n), np.result_type(s.M.dtype, v.dtype))),
                        lambda: lz.lanczos_full(s.obj, v, 1, out=np.zeros((1, n), np.int64)),
                        lambda: lz.lin_comb_Q_T(np.ones(1), np.ones((1, n)), out=np.zeros(n + 1)),
                        lambda: lz.lin_comb_Q_T(np.ones(1), np.ones((1, n)), out=np.zeros(n, np.int64))])
        try:
            f()
        except ValueError:
            self.ctx.count("fault:refused-call")
            return
        raise Violation("accepted", "an impossible size or output array was accepted")


def execute(sc, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        w = World(sc, ctx)
        for op in sc["ops"]:
            w.step(op)
            ctx.mix(64 * len(w.decs) + len(w.pending))
    ctx.state(str(sc), w.nontrivial)
