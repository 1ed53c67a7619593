"""P14: histories of quantum_operator objects with shared operands, against dense matrices per key."""
import io
import random
import warnings
import numpy as np
import scipy.sparse as sp
from checks.spinref import dense, chain_terms
from checks.util import close, rnd, Frozen, interrupt
from checks.p12 import mm, DT, up, worst, is_single
from sim.core import Violation

ID = "P14"
TREE = "plain"
NEED = None
QUICK = (4500, 80)
THOROUGH = (100000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded history of constructions, arithmetic (new and in place), transformations, format changes, evaluations and archive round trips on a pool of quantum_operators "
        "that share operands, coupling dictionaries and driving functions, with operands that must be refused and interrupts before a chosen line of the library; after "
        "every step every object of the pool is compared with dense matrices per key; non-trivial when an in-place operation, a shared operand or an interrupt was executed; "
        "distinct by scenario")
REAL = ["quspin.operators.quantum_operator", "quspin.operators.save_zip/load_zip", "quspin.operators.hamiltonian", "quspin.tools.matvec", "scipy.sparse"]
STUB = ["archive storage: an in-memory file", "interrupts: raised by the simulator before a chosen line"]
KEYS = ["a", "b", "J z", "sparse_x", "dense_.npz", "c"]
OPS = (["new"] * 3 + ["add", "sub"] * 4 + ["mul", "rmul", "div", "neg"] * 2 + ["iadd", "isub"] * 4 + ["imul", "idiv"] * 3 + ["copy", "astype", "fmt", "fmt", "fmt", "sum", "plus0"] +
       ["T", "H", "conj", "transpose", "getH"] + ["eval"] * 8 + ["refuse", "refuse", "zip", "tohamiltonian", "tohamiltonian"])


def setup():
    global quantum_operator, hamiltonian, save_zip, load_zip, spin_basis_1d
    from quspin.operators import quantum_operator, hamiltonian, save_zip, load_zip
    from quspin.basis import spin_basis_1d


def gen(rng, tier):
    L = rng.choice([1, 2, 2, 3])
    mode = rng.choice(["basis", "basis", "mat"])
    sc = {"L": L, "mode": mode, "n": 2 ** L if mode == "basis" else rng.choice([1, 2, 3, 5]), "single": rng.random() < 0.2, "cseed": rng.getrandbits(40)}
    sc["ops"] = [{"op": "new", "seed": rng.getrandbits(31), "cut": 0}, {"op": "new", "seed": rng.getrandbits(31), "cut": 0}]
    for _ in range(rng.randint(3, 9)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 7 + [rng.randint(1, 60)])})
    return sc


class Obj:
    def __init__(self, Q, m, scale, dt):
        self.Q, self.m, self.scale, self.dt = Q, m, scale, dt

    def keys(self):
        return [k for k, A in sorted(self.m.items()) if np.abs(A).max(initial=0) > 1e-3]


def drive(t, *args):
    return np.cos(1.3 * t + 0.2) + sum(np.sin(a * t + j) for j, a in enumerate(args))


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.n = sc, ctx, sc["n"]
        self.pool, self.frozen, self.nontrivial = [], [], False
        self.pars = {}          # a dictionary of couplings that the user keeps and passes again

    def dtype(self, rng):
        return rng.choice("fFdD") if self.sc["single"] else rng.choice("dDDD")

    def total(self, o, pars):
        out = np.zeros((self.n, self.n), complex)
        for k, A in o.m.items():
            out = out + pars.get(k, 1.0) * A
        return out

    def check(self, o, what, rng):
        tol = (3e-4 if is_single(o.dt) else 1e-10) * o.scale
        close(np.asarray(o.Q.toarray()), self.total(o, {}), tol, "wrong-matrix", "%s: with default couplings" % what, 1.0)
        ks = o.keys()
        if ks:
            p = {k: float(i * 0.5 - 1.0) for i, k in enumerate(ks)}
            given = dict(p)
            close(np.asarray(o.Q.toarray(pars=given)), self.total(o, p), 3 * tol, "wrong-matrix", "%s: with couplings %s" % (what, p), 1.0)
            if given != p:
                raise Violation("couplings-modified", "%s: the dictionary %s became %s" % (what, p, given))
        if o.Q.Ns != self.n or tuple(o.Q.shape) != (self.n, self.n):
            raise Violation("wrong-attributes", "%s: Ns=%s shape=%s" % (what, o.Q.Ns, o.Q.shape))

    def checkall(self, what, rng):
        for i, o in enumerate(self.pool):
            self.check(o, "%s: object %d" % (what, i), rng)
        for f in self.frozen:
            f.check(what)

    def matrix(self, rng, dt):
        n = self.n
        rs = np.random.RandomState(rng.getrandbits(31))
        A = rnd(rs, (n, n), DT[dt], ints=rng.random() < 0.6)
        return (A * (rs.uniform(size=(n, n)) < rng.choice([0.2, 0.6, 1.0]))).astype(DT[dt])

    def wrap(self, rng, A):
        k = rng.choice(["csr", "csc", "coo", "dia", "dense", "denseF", "csr", "matrix", "list", "int"])
        if k in ("csr", "csc", "coo", "dia"):
            M = getattr(sp, k + "_matrix")(A)
            self.frozen.append(Frozen(**{k: M.data}))
            return A, M
        if k == "int" and np.array_equal(A, A.real.astype(int)):
            M = A.real.astype(rng.choice([np.int64, np.int8]))
            self.frozen.append(Frozen(operand=M))
            return A, rng.choice([M, sp.csr_matrix(M)])
        if k == "list" and self.n != 2:        # a list of two rows reads as an operator string
            # the shape of the operator has to be known from elsewhere
            return A, A.tolist()
        M = np.array(A, order="F" if k == "denseF" else "C")
        self.frozen.append(Frozen(operand=M))
        return A, np.matrix(M) if k == "matrix" else M

    def new(self, rng):
        n, L = self.n, self.sc["L"]
        dt = self.dtype(rng)
        c = dt in "FD"
        kw = {}
        d, m = {}, {}
        shared = self.wrap(rng, self.matrix(rng, dt if is_single(dt) else rng.choice("fd")))
        basis = self.sc["mode"] == "basis" and rng.random() < 0.8
        if basis:
            kw["basis"] = self.basis
        for k in rng.sample(KEYS, rng.choice([0, 1, 2, 2, 3])):
            ele, tot = [], np.zeros((n, n), complex)
            if basis and rng.random() < 0.7:
                t = chain_terms(rng, L, "") if L > 1 else [["x", [[rng.choice([1.0, 0.5]), 0]]]]
                if rng.random() < 0.3 and c:
                    t = [["+", [[rng.choice([1.0, 1j, 0.5 - 1j]), rng.randrange(L)]]]]
                ele += t
                tot = tot + dense(L, t)
            for _ in range(rng.choice([0, 1, 1, 2]) if ele else rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    A, M = shared
                else:
                    A = self.matrix(rng, dt if is_single(dt) else rng.choice("fdFD" if c else "fd"))
                    A, M = self.wrap(rng, A)
                ele.append(M)
                tot = tot + A
            d[k], m[k] = (ele if rng.random() < 0.8 else tuple(ele)), tot
        if any(isinstance(M, list) and M and isinstance(M[0], list) for e in d.values() for M in e) or not d:
            kw["shape"] = (n, n)
        if not d and basis and rng.random() < 0.5:
            kw.pop("shape")
        if rng.random() < 0.3:
            kw["copy"] = rng.random() < 0.5
        nz = [k for k in sorted(m) if np.abs(m[k]).max() > 1e-3]
        if rng.random() < 0.4:
            kw["matrix_formats"] = {k: rng.choice(["csr", "csc", "dia", "dense"]) for k in nz if rng.random() < 0.6}
        what = "quantum_operator(%s, dtype %s, %s)" % ({k: len(v) for k, v in d.items()}, dt, {k: v for k, v in kw.items() if k != "basis"})
        Q = quantum_operator(d, dtype=DT[dt], check_herm=False, check_symm=False, check_pcon=False, **kw)
        if np.dtype(Q.dtype) != DT[dt]:
            raise Violation("wrong-dtype", "%s: dtype %s" % (what, Q.dtype))
        return Obj(Q, m, 2.0 + sum(np.abs(A).max() for A in m.values()), dt), what


def execute(sc, ctx):
    w = World(sc, ctx)
    if sc["mode"] == "basis":
        w.basis = spin_basis_1d(sc["L"])
    for k, op in enumerate(sc["ops"]):
        rng = random.Random("op:%s" % op["seed"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cut = interrupt(op["cut"] if op["op"] not in ("iadd", "isub", "imul", "idiv", "fmt") else 0)
            what = None
            npool = len(w.pool)
            with cut:
                what = step(w, op["op"], rng)
            if cut.fired:
                ctx.count("fault:interrupt")
                w.nontrivial = True
                del w.pool[npool:]
                what = "interrupted " + op["op"]
            if what is None:
                continue
            ctx.count("op_" + op["op"])
            ctx.count("steps")
            w.checkall("step %d (%s)" % (k, what), rng)
        if len(w.pool) > 5:
            w.pool.pop(rng.randrange(len(w.pool) - 1))
    ctx.state(str(ctx.h), w.nontrivial)


def combine(a, b, s=1):
    m = dict(a)
    for k, A in b.items():
        m[k] = (m[k] if k in m else 0) + s * A
    return m


def add_obj(w, o, what, rng):
    if not isinstance(o.Q, quantum_operator):
        raise Violation("no-result", "%s gives %r" % (what, type(o.Q)))
    w.check(o, what + ": result", rng)
    if o.scale < 1e6:
        w.pool.append(o)
    return what


def scalar(rng, real):
    xs = [2.0, -1.0, 0.5, 3, np.float64(1.5), np.float32(0.5), np.int64(2)]
    if not real:
        xs += [0.25 + 1j, 1j, np.complex128(1 - 0.5j)]
    return rng.choice(xs)


def step(w, op, rng):
    n = w.n
    if op == "new" or not w.pool:
        o, what = w.new(rng)
        return add_obj(w, o, what, rng)
    o = rng.choice(w.pool)
    oi = w.pool.index(o)
    x = rng.choice(w.pool)
    xi = w.pool.index(x)
    if op in ("add", "sub"):
        what = "%s objects %d, %d" % (op, oi, xi)
        r = o.Q + x.Q if op == "add" else o.Q - x.Q
        return add_obj(w, Obj(r, combine(o.m, x.m, 1 if op == "add" else -1), o.scale + x.scale, worst(o.dt, x.dt)), what, rng)
    if op in ("iadd", "isub"):
        what = "%s object %d with %d" % (op, oi, xi)
        if not np.can_cast(DT[x.dt], DT[o.dt], "same_kind"):
            try:
                if op == "iadd":
                    o.Q += x.Q
                else:
                    o.Q -= x.Q
            except (TypeError, ValueError):
                w.ctx.count("fault:refused_operand")
                return what + " refused"
            raise Violation("cast-accepted", "%s: dtype %s and %s" % (what, o.dt, x.dt))
        w.nontrivial = True
        s = 1 if op == "iadd" else -1
        m = combine(o.m, x.m, s)
        if op == "iadd":
            o.Q += x.Q
        else:
            o.Q -= x.Q
        o.m = m
        o.scale += x.scale
        o.dt = o.dt if not is_single(x.dt) else worst(o.dt, x.dt)
        return what
    if op in ("mul", "rmul", "div", "imul", "idiv"):
        real = o.dt in "fd" and op in ("imul", "idiv")
        y = scalar(rng, real)
        what = "%s object %d with %r" % (op, oi, y)
        v = 1 / y if "div" in op else y
        if real and rng.random() < 0.15:
            try:
                o.Q *= 1j
            except TypeError:
                w.ctx.count("fault:refused_operand")
                return what + " refused"
            raise Violation("cast-accepted", "object %d of dtype %s times 1j" % (oi, o.dt))
        m = {k: A * v for k, A in o.m.items()}
        sc = o.scale * max(1, abs(v))
        if op == "mul":
            r = o.Q * y
        elif op == "rmul":
            r = y * o.Q
        elif op == "div":
            r = o.Q / y
        else:
            w.nontrivial = True
            if op == "imul":
                o.Q *= y
            else:
                o.Q /= y
            o.m, o.scale = m, sc
            return what
        return add_obj(w, Obj(r, m, sc, worst(o.dt, "F" if np.iscomplexobj(y) and o.dt in "fF" else o.dt) if not np.iscomplexobj(y) else ("F" if is_single(o.dt) else "D")), what, rng)
    if op == "neg":
        return add_obj(w, Obj(-o.Q, {k: -A for k, A in o.m.items()}, o.scale, o.dt), "-object %d" % oi, rng)
    if op == "plus0":
        r = rng.choice([lambda: o.Q + 0, lambda: 0 + o.Q, lambda: o.Q - 0])()
        w.check(Obj(r, o.m, o.scale, o.dt), "object %d + 0" % oi, rng)
        return "object %d + 0" % oi
    if op == "sum":
        r = sum([o.Q, x.Q])
        return add_obj(w, Obj(r, combine(o.m, x.m), o.scale + x.scale, worst(o.dt, x.dt)), "sum of %d, %d" % (oi, xi), rng)
    if op == "copy":
        return add_obj(w, Obj(o.Q.copy(), dict(o.m), o.scale, o.dt), "copy of object %d" % oi, rng)
    if op == "astype":
        dt = rng.choice([d for d in "fdFD" if np.can_cast(DT[o.dt], DT[d], "same_kind")])
        r = o.Q.astype(DT[dt], copy=rng.random() < 0.5)
        if np.dtype(r.dtype) != DT[dt]:
            raise Violation("wrong-dtype", "astype(%s) gives %s" % (dt, r.dtype))
        return add_obj(w, Obj(r, dict(o.m), o.scale, worst(o.dt, dt)), "object %d astype %s" % (oi, dt), rng)
    if op in ("T", "H", "conj", "transpose", "getH"):
        r = {"T": lambda: o.Q.T, "H": lambda: o.Q.H, "conj": lambda: o.Q.conj() if rng.random() < 0.5 else o.Q.conjugate(),
             "transpose": lambda: o.Q.transpose(copy=rng.random() < 0.5), "getH": lambda: o.Q.getH(copy=rng.random() < 0.5)}[op]()
        m = {k: (A.T if op in ("T", "transpose") else A.conj() if op == "conj" else A.conj().T) for k, A in o.m.items()}
        return add_obj(w, Obj(r, m, o.scale, o.dt), "%s of object %d" % (op, oi), rng)
    if op == "fmt":
        f = {k: rng.choice(["csr", "csc", "dia", "dense"]) for k in o.keys() if rng.random() < 0.7}
        f0 = dict(f)
        o.Q.update_matrix_formats(f)
        for k, v in f.items():
            M = o.Q.get_operators(k)
            if (M.format if sp.issparse(M) else "dense") != v:
                raise Violation("wrong-format", "object %d, key %r: asked for %s, got %r" % (oi, k, v, type(M)))
        if f != f0:
            raise Violation("input-modified", "update_matrix_formats changed its argument")
        if len(f) == len(o.m) and o.Q.is_dense != ("dense" in f.values()):
            raise Violation("wrong-attributes", "object %d with formats %s: is_dense is %s" % (oi, f, o.Q.is_dense))
        return "formats %s of object %d" % (f, oi)
    if op == "zip":
        return archive(w, o, oi, rng)
    if op == "tohamiltonian":
        return tohamiltonian(w, o, oi, rng)
    if op == "refuse":
        return refuse(w, o, oi, rng)
    return evaluate(w, o, oi, rng)


def archive(w, o, oi, rng):
    f = io.BytesIO()
    basis = w.sc["mode"] == "basis" and rng.random() < 0.5
    save_zip(f, o.Q, save_basis=basis)
    f.seek(0)
    r = load_zip(f)
    if np.dtype(r.dtype) != np.dtype(o.Q.dtype):
        raise Violation("wrong-dtype", "an operator of dtype %s is loaded with dtype %s" % (o.Q.dtype, r.dtype))
    for k in o.keys():
        A, B = o.Q.get_operators(k), r.get_operators(k)
        if sp.issparse(A) != sp.issparse(B) or sp.issparse(A) and A.format != B.format:
            raise Violation("wrong-format", "key %r: saved %r, loaded %r" % (k, type(A), type(B)))
        A, B = (A.toarray(), B.toarray()) if sp.issparse(A) else (A, B)
        if not np.array_equal(A, B):
            raise Violation("archive-changed-matrix", "key %r of object %d is not what was saved" % (k, oi))
    return add_obj(w, Obj(r, dict(o.m), o.scale, o.dt), "archive round trip of object %d" % oi, rng)


def couplings(w, o, rng, cplx):
    """A dictionary of couplings for object o, and its copy; sometimes the one used before."""
    ks = o.keys()
    if rng.random() < 0.25:
        w.pars = {k: v for k, v in w.pars.items() if k in ks and (cplx or not np.iscomplexobj(v))}
        return w.pars, dict(w.pars)
    p = {}
    for k in ks:
        if rng.random() < 0.6:
            p[k] = rng.choice([0.0, 1.0, -0.5, 2, 0.25, np.float64(1.5)] + ([1j, 0.5 - 1j, np.complex128(2j)] if cplx else []))
    w.pars = p
    return p, dict(p)


def tohamiltonian(w, o, oi, rng):
    p, p0 = couplings(w, o, rng, o.dt in "FD")
    p = dict(p)
    args = rng.choice([(), (0.5,), (1.0, -2.0)])
    dyn = [k for k in o.keys() if rng.random() < 0.4]
    for k in dyn:
        p[k] = (drive, args)
    given = dict(p)
    H = o.Q.tohamiltonian(p)
    what = "tohamiltonian(%s) of object %d" % (given, oi)
    if p != given:
        raise Violation("couplings-modified", "%s: the dictionary became %s" % (what, p))
    tol = (5e-4 if is_single(o.dt) else 1e-10) * o.scale * w.n
    for t in (0.0, 0.7):
        c = dict(p0)
        c.update({k: drive(t, *args) for k in dyn})
        close(np.asarray(H.toarray(time=t)), w.total(o, c), tol * 3, "wrong-matrix", "%s at time %s" % (what, t), 1.0)
    if rng.random() < 0.5:
        # what is done with the new object does not reach the operator
        H *= 2.0
    return what


def refuse(w, o, oi, rng):
    n = w.n
    which = rng.choice(["pars", "pars2", "dot", "shape", "key", "fmt", "add", "other", "ele", "hpars"])
    bad = {
        "pars": lambda: o.Q.tocsr(pars={"no such key": 1.0}),
        "pars2": lambda: o.Q.dot(np.ones(n), pars=[1.0]),
        "dot": lambda: o.Q.dot(np.ones(n + 1)),
        "shape": lambda: quantum_operator({"a": [np.eye(n + 1)]}, shape=(n, n)),
        "key": lambda: quantum_operator({1: [np.eye(n)]}),
        "fmt": lambda: o.Q.update_matrix_formats({"no such key": "csr"}),
        "add": lambda: o.Q + quantum_operator({"a": [np.eye(n + 1)]}),
        "other": lambda: o.Q + 1.5,
        "ele": lambda: o.Q.matrix_ele(np.ones(n + 1), np.ones(n)),
        "hpars": lambda: o.Q.tohamiltonian({k: (drive, (), 1) for k in (o.keys() or ["zz"])}),
    }[which]
    try:
        bad()
    except (TypeError, ValueError):
        w.ctx.count("fault:refused_" + which)
        return "refused " + which
    raise Violation("accepted", "%s was accepted" % which)


def evaluate(w, o, oi, rng):
    n, Q = w.n, o.Q
    which = rng.choice(["tocsr", "tocsc", "todense", "toarray", "out", "diagonal", "trace", "call", "dot", "dot", "dot2", "dot2", "dotout", "dotsparse", "rdot", "rdot", "rdotout", "matvec",
                        "expt", "expt_many", "expt_dm", "fluct", "fluct_many", "fluct_dm", "ele", "ele_diag", "eigh", "eigvalsh", "eigsh", "linop", "linop"])
    rs = np.random.RandomState(rng.getrandbits(31))
    dt = rng.choice("dD") if not is_single(o.dt) else rng.choice("fdFD")

    def vec(*shape):
        return rnd(rs, shape, DT[dt])
    dots = which.startswith(("dot", "rdot", "expt", "fluct", "ele", "linop"))
    cplx = o.dt in "FD" or which in ("tocsr", "tocsc", "todense", "toarray", "call") or dots and dt in "FD" and which not in ("linop",)
    p, p0 = couplings(w, o, rng, cplx)
    M = w.total(o, p0)
    tol = (1e-3 if is_single(o.dt) or dt in "fF" else 1e-10) * o.scale * n * 3
    what = "%s of object %d with couplings %s" % (which, oi, p0)
    w.ctx.count("eval_" + which)

    def eq(got, want, tol=tol):
        if sp.issparse(got):
            got = got.toarray()
        close(np.asarray(got), np.asarray(want), tol, "wrong-value", what, 1.0)
    a = rng.choice([1.0, 1.0, -2.0, 0.5])
    kw = {} if not p and rng.random() < 0.7 else {"pars": p}
    if which in ("tocsr", "tocsc"):
        r = getattr(Q, which)(**kw)
        if not sp.issparse(r) or r.format != which[2:]:
            raise Violation("wrong-format", "%s gives %r" % (what, type(r)))
        eq(r, M)
        r.data[...] = 77
    elif which in ("todense", "toarray"):
        r = getattr(Q, which)(**kw)
        eq(r, M)
        r[...] = 77
    elif which == "out":
        out = np.full((n, n), 55, dtype=np.result_type(Q.dtype, np.float64))
        r = (Q.toarray if rng.random() < 0.5 else Q.todense)(out=out, **kw)
        eq(out, M)
        eq(r, M)
    elif which == "diagonal":
        eq(Q.diagonal(**kw), M.diagonal())
    elif which == "trace":
        eq(Q.trace(**kw), M.trace())
    elif which == "call":
        p1 = {k: v for k, v in p.items() if k.isidentifier()}
        eq(Q(**p1), w.total(o, p1))
    elif which in ("dot", "dot2", "dotsparse"):
        v = vec(n) if which == "dot" else vec(n, rng.choice([1, 2, n]))
        if which == "dotsparse":
            V = getattr(sp, rng.choice(["csr", "csc", "coo"]) + "_matrix")(v)
            eq(Q.dot(V, a=a, **kw), a * M @ v)
        else:
            V = np.asfortranarray(v) if rng.random() < 0.3 else v
            if which == "dot2" and rng.random() < 0.3:
                V = np.repeat(v, 2, axis=1)[:, ::2]
            V = V.tolist() if rng.random() < 0.1 and dt in "dD" else V
            f = Frozen(V=V) if isinstance(V, np.ndarray) else None
            eq(Q.dot(V, a=a, check=rng.random() < 0.5 or isinstance(V, list), **kw), a * M @ v)
            if f:
                f.check(what)
    elif which in ("dotout", "rdotout"):
        v = vec(n) if rng.random() < 0.5 else vec(n, 3)
        if which == "rdotout":
            v = v.T
        rt = np.result_type(v.dtype, Q.dtype)
        old = rnd(rs, v.shape, rt)
        out = old.copy()
        over = rng.random() < 0.5
        r = (Q.dot if which == "dotout" else Q.rdot)(v, out=out, overwrite_out=over, a=a, **kw)
        want = a * (M @ v if which == "dotout" else v @ M) + (0 if over else old)
        eq(out, want)
        eq(r, want)
    elif which == "rdot":
        v = vec(n) if rng.random() < 0.5 else vec(rng.choice([1, 2, n]), n)
        eq(Q.rdot(v, a=a, **kw), a * v @ M)
    elif which == "matvec":
        v = vec(n)
        M1 = w.total(o, {})
        eq(Q.matvec(v), M1 @ v)
        eq(Q.rmatvec(v), M1.conj().T @ v)
        v = vec(n, 2)
        eq(Q.matmat(v), M1 @ v)
    elif which == "expt":
        v = vec(n)
        eq(Q.expt_value(v, **kw), np.vdot(v, M @ v))
        if n > 1:
            eq(Q.expt_value(sp.csr_matrix(v[:, None]), **kw), np.vdot(v, M @ v))
    elif which == "expt_many":
        m = rng.choice([n + 1, 2 * n]) if rng.random() < 0.5 else n
        v = vec(n, m)
        eq(np.reshape(Q.expt_value(v, enforce_pure=True, **kw), (m,)), np.einsum("im,ij,jm->m", v.conj(), M, v))
    elif which == "expt_dm":
        v = vec(n, n)
        eq(Q.expt_value(v, **kw), np.trace(M @ v))
        eq(Q.expt_value(sp.csr_matrix(v), **kw), np.trace(M @ v))
    elif which in ("fluct", "fluct_many", "fluct_dm"):
        # for hermitian matrices
        w.ctx.count("fluct")
        R = Q + Q.H
        Mh = w.total(o, {}) + w.total(o, {}).conj().T
        t2 = tol * o.scale * n * 8
        if which == "fluct":
            v = vec(n)
            eq(R.quant_fluct(v), np.vdot(v, Mh @ Mh @ v) - np.vdot(v, Mh @ v) ** 2, t2 * n)
        elif which == "fluct_many":
            v = vec(n, n + 1)
            eq(R.quant_fluct(v), np.einsum("im,ij,jm->m", v.conj(), Mh @ Mh, v) - np.einsum("im,ij,jm->m", v.conj(), Mh, v) ** 2, t2 * n)
        else:
            v = vec(n, n)
            eq(R.quant_fluct(v), np.trace(Mh @ Mh @ v) - np.trace(Mh @ v) ** 2, t2 * n)
    elif which == "ele":
        l, r = vec(n), vec(n)
        eq(Q.matrix_ele(l, r, **kw), np.vdot(l, M @ r))
        l, r = vec(n, 2), vec(n, 3)
        eq(Q.matrix_ele(l, r, **kw), l.conj().T @ M @ r)
    elif which == "ele_diag":
        l, r = vec(n, 3), vec(n, 3)
        eq(Q.matrix_ele(l, r, diagonal=True, **kw), np.einsum("im,ij,jm->m", l.conj(), M, r))
    elif which in ("eigh", "eigvalsh", "eigsh"):
        R = Q + Q.H
        p = {k: v.real if np.iscomplexobj(v) else v for k, v in p.items()}
        Mh = w.total(o, p)
        Mh = Mh + Mh.conj().T
        keep = {k for k in o.keys() if np.abs(o.m[k] + o.m[k].conj().T).max() > 1e-3}
        for k in o.keys():
            if k not in keep:
                p.pop(k, None)
        E = np.linalg.eigvalsh(Mh)
        t2 = tol * n * 4
        if which == "eigvalsh":
            eq(R.eigvalsh(pars=p), E, t2)
        elif which == "eigh":
            e, V = R.eigh(pars=p)
            eq(e, E, t2)
            eq(V.conj().T @ V, np.eye(n), 1e-3 if is_single(o.dt) else 1e-9)
            eq(Mh @ V, V * e, t2)
        elif n > 3:
            e, V = R.eigsh(pars=p, k=2, which="LA", v0=np.ones(n), maxiter=5000)
            eq(np.sort(e), E[-2:], t2 * 100)
    elif which == "linop":
        A = Q.aslinearoperator(**kw)
        v = vec(n)
        eq(A.matvec(v), M @ v)
        eq(A.rmatvec(v), M.conj().T @ v)
        eq(A.matmat(vec(n, 2) * 0 + v[:, None]), M @ np.stack([v, v], 1))
    if p is w.pars and p != p0:
        raise Violation("couplings-modified", "%s: the dictionary became %s" % (what, p))
    return what
