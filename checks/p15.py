"""P15: histories of quantum_LinearOperator objects and views that share bases, lists and diagonals, against dense matrices."""
import random
import warnings
import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import aslinearoperator
from checks.spinref import dense, chain_terms
from checks.util import close, rnd, Frozen, interrupt
from checks.p12 import DT, worst, is_single
from sim.core import Violation

ID = "P15"
TREE = "plain"
NEED = None
QUICK = (4000, 80)
THOROUGH = (100000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded history of constructions (1d and general bases, symmetry sectors, given diagonals), views (T, H, conj, transpose, getH), copies, scalings (new and in place), "
        "new diagonals, products with operators and hamiltonians, and evaluations on a pool of quantum_LinearOperators that share arrays, with refused operands and interrupts "
        "before a chosen line; after every step every object is compared with a dense matrix; non-trivial when views coexist with an in-place step or an interrupt hit; "
        "distinct by scenario")
REAL = ["quspin.operators.quantum_LinearOperator", "quspin.basis (Op, inplace_Op)", "quspin.operators.hamiltonian", "scipy LinearOperator algebra"]
STUB = ["interrupts: raised by the simulator before a chosen line"]
OPS = (["new"] * 3 + ["T", "H", "conj", "transpose", "getH"] * 3 + ["copy"] * 2 + ["mul", "rmul", "neg", "imul"] * 2 + ["setdiag"] * 2 + ["eval"] * 16 + ["refuse"] * 2 + ["inplace_op"] * 2)


def setup():
    global quantum_LinearOperator, hamiltonian, spin_basis_1d, spin_basis_general
    from quspin.operators import quantum_LinearOperator, hamiltonian
    from quspin.basis import spin_basis_1d, spin_basis_general


def gen(rng, tier):
    L = rng.choice([1, 2, 3, 3, 4])
    sc = {"L": L, "basis": rng.choice(["1d", "1d", "gen", "gen"]), "sector": rng.choice(["full", "full", "N", "N", "k", "Nk", "kp"]), "k": rng.randrange(4), "Nup": rng.randrange(L + 1),
          "pauli": rng.choice([1, 0, -1]), "single": rng.random() < 0.2, "cseed": rng.getrandbits(40)}
    sc["ops"] = [{"op": "new", "seed": rng.getrandbits(31), "cut": 0}]
    for _ in range(rng.randint(3, 10)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 7 + [rng.randint(1, 60)])})
    return sc


class Obj:
    def __init__(self, Q, M, diag, dt, scale, static, flags=(0, 0)):
        # the matrix is the operator strings plus diag
        self.Q, self.M, self.diag, self.dt, self.scale, self.static, self.flags = Q, M, diag, dt, scale, static, flags


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.pool, self.frozen, self.nontrivial = [], [], False
        L, s = sc["L"], sc["sector"]
        kw = {}
        self.sym = s in ("k", "Nk", "kp") and L > 2
        if s in ("N", "Nk"):
            kw["Nup"] = sc["Nup"]
        if self.sym and sc["basis"] == "1d":
            kw["kblock"] = sc["k"] % L
            if s == "kp" and (2 * kw["kblock"]) % L == 0:
                kw["pblock"] = 1
        elif self.sym:
            kw["tb"] = (np.array([(i + 1) % L for i in range(L)]), sc["k"] % L)
        self.conserve = "N" if "Nup" in kw else ""
        self.basis = (spin_basis_1d if sc["basis"] == "1d" else spin_basis_general)(L, pauli=sc["pauli"], **kw)
        self.n = self.basis.Ns
        if self.n:
            self.P = self.basis.get_proj(np.complex128).toarray()
        self.cplx = not np.allclose(self.P.imag, 0) if self.n else False

    def dtype(self, rng):
        d = "fFdD" if self.sc["single"] else "dDDD"
        return rng.choice([x for x in d if x in "FD"] if self.cplx else d)

    def project(self, lst):
        return self.P.conj().T @ dense(self.sc["L"], lst, self.sc["pauli"]) @ self.P

    def terms(self, rng, c):
        L = self.sc["L"]
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if L == 1:
                t = [[rng.choice("z" if self.conserve else "zxz+"), [[rng.choice([1.0, 0.5]), 0]]]]
            elif self.sym or rng.random() < 0.6:
                t = chain_terms(rng, L, self.conserve)
            else:
                i, j = rng.sample(range(L), 2)
                ops = ["+-", "zz", "z", "+-"] if self.conserve else ["+-", "zz", "x", "+", "y" if c else "x", "zx"]
                o = rng.choice(ops)
                t = [[o, [[rng.choice([1.0, -0.5, 0.7]), i, j][:1 + len(o)]]]]
            if c and rng.random() < 0.5:
                x = rng.choice([1j, 0.5 - 1j, 1.0 + 0.5j])
                t = [[o, [[b[0] * x] + b[1:] for b in bs]] for o, bs in t]
            if rng.random() < 0.2:
                t = [(o, tuple(tuple(b) for b in bs)) for o, bs in t]
            out += t
        return out

    def check(self, o, what):
        tol = (3e-4 if is_single(o.dt) else 1e-10) * o.scale * max(self.n, 1)
        got = o.Q.dot(np.eye(self.n, dtype=DT[o.dt]))
        close(got, o.M, tol, "wrong-matrix", what, 1.0)
        if tuple(o.Q.shape) != (self.n, self.n) or o.Q.Ns != self.n or tuple(o.Q.get_shape) != (self.n, self.n) or o.Q.ndim != 2:
            raise Violation("wrong-attributes", "%s: shape %s, Ns %s" % (what, o.Q.shape, o.Q.Ns))
        if np.dtype(o.Q.dtype) != DT[o.dt]:
            raise Violation("wrong-dtype", "%s: dtype %s, expected %s" % (what, o.Q.dtype, DT[o.dt]))

    def checkall(self, what):
        for i, o in enumerate(self.pool):
            self.check(o, "%s: object %d" % (what, i))
        for f in self.frozen:
            f.check(what)

    def new(self, rng):
        dt = self.dtype(rng)
        c = dt in "FD"
        t = self.terms(rng, c)
        M = self.project(t)
        kw = {}
        diag = np.zeros(self.n)
        if rng.random() < 0.3:
            diag = rnd(np.random.RandomState(rng.getrandbits(31)), (self.n,), DT[rng.choice("dD" if c else "d")])
            kw["diagonal"] = diag if rng.random() < 0.8 else diag.tolist()
            kw["copy"] = rng.random() < 0.5
            self.frozen.append(Frozen(diagonal=diag))
        keep = repr(t)
        Q = quantum_LinearOperator(t, basis=self.basis, dtype=DT[dt], check_herm=False, check_symm=False, check_pcon=False, **kw)
        if repr(t) != keep:
            raise Violation("input-modified", "the static list was changed")
        # diagonal terms of the operator strings are part of .diagonal, see setdiag
        if diag.ndim != 1:
            diag = diag.ravel()
        return Obj(Q, M + np.diag(diag), diag, dt, 2.0 + np.abs(M).max(initial=0) + np.abs(diag).max(initial=0), t), "new operator %s, dtype %s, %s" % (t, dt, sorted(kw))


def execute(sc, ctx):
    w = World(sc, ctx)
    if not w.n:
        return
    for k, op in enumerate(sc["ops"]):
        rng = random.Random("op:%s" % op["seed"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cut = interrupt(op["cut"] if op["op"] not in ("imul", "setdiag", "copy") else 0)
            what = None
            npool = len(w.pool)
            with cut:
                what = step(w, op["op"], rng)
            if cut.fired:
                ctx.count("fault:interrupt")
                w.nontrivial = True
                del w.pool[npool:]
                what = "interrupted " + op["op"]
            if what is None:
                continue
            ctx.count("op_" + op["op"])
            ctx.count("steps")
            w.checkall("step %d (%s)" % (k, what))
        if len(w.pool) > 5:
            w.pool.pop(rng.randrange(len(w.pool) - 1))
    ctx.state(str(ctx.h), w.nontrivial)


def add(w, o, what):
    if not isinstance(o.Q, quantum_LinearOperator):
        raise Violation("no-result", "%s gives %r" % (what, type(o.Q)))
    w.check(o, what + ": result")
    if o.scale < 1e6:
        w.pool.append(o)
    return what


def step(w, op, rng):
    n = w.n
    if op == "new" or not w.pool:
        o, what = w.new(rng)
        return add(w, o, what)
    o = rng.choice(w.pool)
    oi = w.pool.index(o)
    if op in ("T", "H", "conj", "transpose", "getH"):
        c = rng.random() < 0.5
        r = {"T": lambda: o.Q.T, "H": lambda: o.Q.H, "conj": lambda: o.Q.conj() if c else o.Q.conjugate(),
             "transpose": lambda: o.Q.transpose(copy=c), "getH": lambda: o.Q.getH(copy=c)}[op]()
        f = (lambda A: A.T) if op in ("T", "transpose") else (lambda A: A.conj()) if op == "conj" else (lambda A: A.conj().T)
        return add(w, Obj(r, f(o.M), None, o.dt, o.scale, None), "%s of object %d" % (op, oi))
    if op == "copy":
        if rng.random() < 0.4:
            # a copy does not follow a diagonal that the caller shares with the original
            d = rnd(np.random.RandomState(rng.getrandbits(31)), (n,), DT["d"])
            d0, old = d.copy(), np.zeros(n) if o.Q.diagonal is None else np.array(o.Q.diagonal)
            o.Q.set_diagonal(d, copy=False)
            r = o.Q.copy()
            d[...] = 99
            w.ctx.count("fault:operand_overwritten")
            o.Q.set_diagonal(d0)
            o.M = o.M - np.diag(old) + np.diag(d0)
            o.scale += 2
            w.nontrivial = True
            return add(w, Obj(r, o.M, None, o.dt, o.scale, None), "copy of object %d with a shared diagonal" % oi)
        return add(w, Obj(o.Q.copy(), o.M, o.diag, o.dt, o.scale, o.static), "copy of object %d" % oi)
    if op in ("mul", "rmul", "neg", "imul"):
        y = -1 if op == "neg" else rng.choice([2.0, -1.0, 0.5, 3, np.float64(1.5), np.float32(0.5), 0.25 + 1j, 1j, np.complex128(1 - 0.5j)])
        c = np.iscomplexobj(y)
        dt = {"f": "F", "d": "D"}.get(o.dt, o.dt) if c else o.dt
        what = "%s object %d by %r" % (op, oi, y)
        sc = o.scale * max(1, abs(y))
        if op == "imul":
            w.nontrivial = True
            o.Q *= y
            o.M, o.dt, o.scale, o.diag = o.M * y, dt, sc, None
            return what
        r = -o.Q if op == "neg" else o.Q * y if op == "mul" else y * o.Q
        return add(w, Obj(r, o.M * y, None, dt, sc, None), what)
    if op == "setdiag":
        old = o.Q.diagonal
        if old is None:
            old = np.zeros(n)
        old = np.array(old)
        d = rnd(np.random.RandomState(rng.getrandbits(31)), (n,), DT[rng.choice("dD" if o.dt in "FD" else "d")])
        own = rng.random() < 0.6
        o.Q.set_diagonal(d if rng.random() < 0.8 else d.tolist(), copy=own)
        w.frozen.append(Frozen(diagonal=d))
        if own:
            w.frozen.pop()
            d0 = d.copy()
            d[...] = 99
            w.ctx.count("fault:operand_overwritten")
            d = d0
        o.M = o.M - np.diag(old) + np.diag(d)
        o.diag = None
        o.scale += 2
        w.nontrivial = True
        return "set_diagonal of object %d" % oi
    if op == "inplace_op":
        return inplace(w, rng)
    if op == "refuse":
        return refuse(w, o, rng)
    return evaluate(w, o, oi, rng)


def inplace(w, rng):
    """basis.inplace_Op with its flags."""
    n = w.n
    dt = w.dtype(rng)
    t = []
    for o, bs in w.terms(rng, dt in "FD"):
        t += [[o, list(b[1:]), b[0]] for b in bs]
    M = w.project([[o, [[J] + i]] for o, i, J in t])
    if w.sym:
        # single terms do not preserve the sector; their sum does
        if rng.random() < 0.5:
            return None
    tr, cj, a = rng.random() < 0.5, rng.random() < 0.5, rng.choice([1.0, 1.0, -0.5, 2.0])
    A = a * M
    A = A.T if tr else A
    A = A.conj() if cj else A
    rs = np.random.RandomState(rng.getrandbits(31))
    T = DT[rng.choice("fdFD" if is_single(dt) else "dD")]
    v = rnd(rs, (n,) if rng.random() < 0.5 else (n, 2), T)
    f = Frozen(v=v)
    rt = np.result_type(T, DT[dt])
    kw = dict(transposed=tr, conjugated=cj)
    if a != 1.0:
        kw["a"] = a
    what = "inplace_Op(%s, %s) on %s" % (t, kw, v.shape)
    old = np.zeros(v.shape, rt)
    if rng.random() < 0.5:
        old = rnd(rs, v.shape, rt)
        out = old.copy()
        r = w.basis.inplace_Op(v, t, DT[dt], v_out=out, **kw)
        close(out, A @ v + old, 1e-3 if is_single(dt) or T in (np.float32, np.complex64) else 1e-10, "wrong-value", what, 10.0)
    else:
        r = w.basis.inplace_Op(v, t, DT[dt], **kw)
    close(np.reshape(r, v.shape), A @ v + old, 1e-3 if is_single(dt) or T in (np.float32, np.complex64) else 1e-10, "wrong-value", what, 10.0)
    f.check(what)
    return what


def refuse(w, o, rng):
    n = w.n
    which = rng.choice(["dot", "out", "outdt", "outF", "diag", "diag2", "opstr", "matrix", "ele", "iadd", "mul", "ham"])
    bad = {
        "dot": lambda: o.Q.dot(np.ones(n + 1)),
        "out": lambda: o.Q.dot(np.ones(n), out=np.zeros(n + 1, np.complex128)),
        "outdt": lambda: o.Q.dot(np.ones(n), out=np.zeros(n, np.int64)),
        "outF": lambda: o.Q.dot(np.ones((n + 1, 2))[:n], out=np.zeros((n, 4), DT[o.dt])[:, ::2]),
        "diag": lambda: o.Q.set_diagonal(np.ones(n + 1)),
        "diag2": lambda: o.Q.set_diagonal(np.ones((n, 1))),
        "opstr": lambda: quantum_LinearOperator([np.eye(n)], basis=w.basis),
        "matrix": lambda: quantum_LinearOperator("zz", basis=w.basis),
        "ele": lambda: o.Q.matrix_ele(np.ones(n + 1), np.ones(n)),
        "iadd": lambda: o.Q + np.ones((n + 1, n + 1)),
        "mul": lambda: o.Q * np.ones((n + 1, 2)),
        "ham": lambda: o.Q.expt_value(hamiltonian([np.eye(n)], [])),
    }[which]
    try:
        bad()
    except (TypeError, ValueError):
        w.ctx.count("fault:refused_" + which)
        return "refused " + which
    raise Violation("accepted", "%s was accepted" % which)


def evaluate(w, o, oi, rng):
    n, Q, M = w.n, o.Q, o.M
    which = rng.choice(["dot", "dot", "dot2", "dot2", "mulsp", "mulsp", "rmulsp", "rmul", "rmul", "out", "out", "matvec", "expt", "expt_many", "expt_dm", "expt_sp", "fluct", "fluct_many", "fluct_dm",
                        "ele", "ele_diag", "ele_sp", "eigsh", "diagonal", "ham", "rham", "algebra", "algebra", "static_list"])
    rs = np.random.RandomState(rng.getrandbits(31))
    dt = rng.choice("dD") if not is_single(o.dt) else rng.choice("fdFD")

    def vec(*shape):
        return rnd(rs, shape, DT[dt])
    tol = (1e-3 if is_single(o.dt) or dt in "fF" else 1e-10) * o.scale * n * 3
    what = "%s of object %d" % (which, oi)
    w.ctx.count("eval_" + which)

    def eq(got, want, tol=tol):
        if sp.issparse(got):
            got = got.toarray()
        close(np.asarray(got), np.asarray(want), tol, "wrong-value", what, 1.0)
    a = rng.choice([1.0, 1.0, -2.0, 0.5, 0.5j])
    if which in ("dot", "dot2"):
        v = vec(n) if which == "dot" else vec(n, rng.choice([1, 2, n]))
        V = np.asfortranarray(v) if rng.random() < 0.3 else v
        if rng.random() < 0.3:
            V = np.repeat(v, 2, axis=0)[::2]
        V = V.tolist() if rng.random() < 0.1 and dt in "dD" else V
        f = Frozen(V=V) if isinstance(V, np.ndarray) else None
        eq(rng.choice([lambda: Q.dot(V, a=a), lambda: a * (Q * V), lambda: a * (Q @ V)])(), a * M @ v)
        if f:
            f.check(what)
    elif which == "out":
        v = vec(n) if rng.random() < 0.5 else vec(n, 3)
        a = a if np.iscomplexobj(np.zeros(1, np.result_type(v.dtype, Q.dtype))) or not np.iscomplexobj(a) else 1.0
        rt = np.result_type(v.dtype, Q.dtype)
        out = rnd(rs, v.shape, rt)
        if rng.random() < 0.2 and v.dtype == rt:
            out = v0 = v
            v = v.copy()
            r = Q.dot(v0, out=out, a=a)
        else:
            r = Q.dot(v, out=out, a=a)
        if r is not out:
            raise Violation("out-not-returned", what)
        eq(out, a * M @ v)
    elif which == "rmul":
        v = vec(n) if rng.random() < 0.5 else vec(rng.choice([1, 2, n]), n)
        eq(Q.__rmul__(v), v @ M)
    elif which in ("mulsp", "rmulsp"):
        v = vec(n, rng.choice([1, 2, n]))
        v = v.T if which == "rmulsp" else v
        V = getattr(sp, rng.choice(["csr", "csc", "coo"]) + "_matrix")(v)
        r = Q * V if which == "mulsp" and rng.random() < 0.5 else Q.dot(V) if which == "mulsp" else Q.__rmul__(V)
        if not sp.issparse(r):
            raise Violation("wrong-format", "%s gives %r" % (what, type(r)))
        eq(r, M @ v if which == "mulsp" else v @ M)
    elif which == "matvec":
        v = vec(n)
        eq(Q.matvec(v), M @ v)
        eq(Q.rmatvec(v), M.conj().T @ v)
        v = vec(n, 2)
        eq(Q.matmat(v), M @ v)
        eq(Q.rmatmat(v), M.conj().T @ v)
    elif which in ("expt", "expt_sp"):
        v = vec(n)
        if which == "expt":
            eq(Q.expt_value(v), np.vdot(v, M @ v))
        elif n > 1:
            eq(Q.expt_value(sp.csr_matrix(v[:, None])), np.vdot(v, M @ v))
    elif which == "expt_many":
        m = rng.choice([n + 1, n])
        v = vec(n, m)
        eq(np.reshape(Q.expt_value(v, enforce_pure=True), (m,)), np.einsum("im,ij,jm->m", v.conj(), M, v))
    elif which == "expt_dm":
        v = vec(n, n)
        eq(Q.expt_value(v), np.trace(M @ v))
        eq(Q.expt_value(sp.csr_matrix(v)), np.trace(M @ v))
    elif which in ("fluct", "fluct_many", "fluct_dm"):
        if not np.allclose(M, M.conj().T):
            return None
        t2 = tol * o.scale * n * 8
        if which == "fluct":
            v = vec(n)
            eq(Q.quant_fluct(v), np.vdot(v, M @ M @ v) - np.vdot(v, M @ v) ** 2, t2 * n)
        elif which == "fluct_many":
            v = vec(n, n + 1)
            eq(Q.quant_fluct(v), np.einsum("im,ij,jm->m", v.conj(), M @ M, v) - np.einsum("im,ij,jm->m", v.conj(), M, v) ** 2, t2 * n)
        else:
            v = vec(n, n)
            eq(Q.quant_fluct(v), np.trace(M @ M @ v) - np.trace(M @ v) ** 2, t2 * n)
    elif which == "ele":
        l, r = vec(n), vec(n)
        eq(Q.matrix_ele(l, r), np.vdot(l, M @ r))
        l, r = vec(n, 2), vec(n, 3)
        eq(Q.matrix_ele(l, r), l.conj().T @ M @ r)
    elif which == "ele_sp":
        l, r = vec(n, 2), vec(n, 3)
        eq(Q.matrix_ele(sp.csr_matrix(l), sp.csr_matrix(r)), l.conj().T @ M @ r)
    elif which == "ele_diag":
        l, r = vec(n, 3), vec(n, 3)
        eq(Q.matrix_ele(l, r, diagonal=True), np.einsum("im,ij,jm->m", l.conj(), M, r))
    elif which == "eigsh":
        if n > 3 and np.allclose(M, M.conj().T):
            e = Q.eigsh(k=2, which="LA", v0=np.ones(n), maxiter=5000, return_eigenvectors=False)
            eq(np.sort(e), np.linalg.eigvalsh(M)[-2:], tol * n * 100)
    elif which == "diagonal":
        d = Q.diagonal
        if d is not None and d.flags.writeable:
            raise Violation("diagonal-writable", what)
        if not w.sym:
            # in symmetry sectors other strings have diagonal elements, too
            eq(np.zeros(n) if d is None else d, M.diagonal(), tol)
    elif which in ("ham", "rham"):
        A = rnd(rs, (n, n), DT[dt])
        B = rnd(rs, (n, n), DT[dt])
        H = hamiltonian([sp.csr_matrix(A)], [[sp.csr_matrix(B) if rng.random() < 0.5 else B, drive, (0.5,)]], dtype=DT[dt], check_herm=False, check_symm=False, check_pcon=False)
        r = Q * H if which == "ham" else Q.__rmul__(H)
        for t in (0.0, 0.7):
            X = A + drive(t, 0.5) * B
            eq(np.asarray(r.toarray(time=t)), M @ X if which == "ham" else X @ M)
            eq(np.asarray(H.toarray(time=t)), X)
    elif which == "algebra":
        x = rng.choice(w.pool)
        v = vec(n)
        y = rng.choice([2.0, -0.5])
        R, want = rng.choice([(lambda: Q + x.Q, M + x.M), (lambda: Q - x.Q, M - x.M), (lambda: Q * x.Q, M @ x.M), (lambda: Q.dot(x.Q), M @ x.M), (lambda: Q.H * x.Q, M.conj().T @ x.M),
                              (lambda: Q + aslinearoperator(np.eye(n)), M + np.eye(n)), (lambda: y * Q + x.Q.H, y * M + x.M.conj().T)])
        R = R()
        t2 = tol * (x.scale + 3) * n * (3e5 if is_single(x.dt) and not is_single(o.dt) else 1)
        eq(R.matvec(v), want @ v, t2)
        eq(R.rmatvec(v), want.conj().T @ v, t2)
        eq(R.H.matvec(v), want.conj().T @ v, t2)
        eq(R.T.matvec(v), want.T @ v, t2)
    elif which == "static_list" and o.static is not None:
        M2 = w.project(Q.static_list)
        off = o.M - np.diag(o.M.diagonal())
        eq(M2 - np.diag(M2.diagonal()), off)
    return what


def drive(t, *args):
    return np.cos(1.3 * t + 0.2) + sum(np.sin(a * t + j) for j, a in enumerate(args))
