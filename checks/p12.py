"""P12: histories of hamiltonian arithmetic against dense matrices at sampled times."""
import random
import warnings
import numpy as np
import scipy.sparse as sp
from checks.spinref import dense, chain_terms
from checks.util import close, rnd, Frozen
from sim.core import Violation

ID = "P12"
TREE = "plain"
NEED = None
QUICK = (4500, 80)
THOROUGH = (100000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded history of constructions, arithmetic (new and in place), transformations, format changes and evaluations on a pool of hamiltonians that share operands "
        "and driving functions, with driving functions that fail at chosen calls, operands that must be refused and chosen hash values; after every step every object of "
        "the pool is compared with dense matrices at five times; non-trivial when a product, an in-place operation or an injected failure was executed; distinct by scenario")
REAL = ["quspin.operators.hamiltonian", "quspin.operators._functions", "quspin.operators._make_hamiltonian", "quspin.tools.matvec", "scipy.sparse"]
STUB = ["driving functions: hash value and failing call chosen by the simulator"]
TIMES = [0.0, 0.37, -0.8, 1.9, 5.1]
DT = {"d": np.float64, "D": np.complex128, "f": np.float32, "F": np.complex64}


def setup():
    global hamiltonian, spin_basis_1d, commutator, anti_commutator
    from quspin.operators import hamiltonian, commutator, anti_commutator
    from quspin.basis import spin_basis_1d


class Boom(Exception):
    pass


class Drive:
    left = 0

    def __init__(self, k, h, cplx):
        self.k, self.h, self.cplx = k, h, cplx
        self.__name__ = "drive%d" % k

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __call__(self, t, *args):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Boom("the driving function failed")
        return self.value(t, *args)

    def value(self, t, *args):
        x = (1.0 + 0.3 * self.k) * np.cos((0.5 + self.k) * t + 0.2)
        for j, a in enumerate(args):
            x = x + 0.3 * (j + 1) * np.sin(a * t + j)
        if self.cplx:
            x = x * np.exp(1j * (0.4 + 0.3 * self.k) * t)
        return x


OPS = (["new"] * 3 + ["add", "sub", "mul"] * 4 + ["radd", "rsub", "rmul"] * 2 + ["iadd", "isub", "imul"] * 3 + ["div", "idiv", "neg", "pow", "copy", "astype", "fmt", "fmt"] +
       ["T", "H", "conj", "transpose", "dense", "sparse", "comm", "acomm", "proj", "sum"] + ["eval"] * 5 + ["refuse", "refuse", "fail", "fail", "plus0"])


def gen(rng, tier):
    L = rng.choice([1, 2, 2, 3])
    mode = rng.choice(["basis", "basis", "mat"])
    sc = {"L": L, "mode": mode, "n": 2 ** L if mode == "basis" else rng.choice([1, 2, 3, 5]), "hashes": [rng.choice([rng.getrandbits(61), 7, -1, -2, i]) for i in range(4)],
          "cplx": [rng.random() < 0.35 for _ in range(4)], "single": rng.random() < 0.2, "cseed": rng.getrandbits(40)}
    sc["ops"] = [{"op": "new", "seed": rng.getrandbits(31)}, {"op": "new", "seed": rng.getrandbits(31)}]
    for _ in range(rng.randint(3, 9)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31)})
    return sc


class Obj:
    def __init__(self, H, vals, scale, dt, link=None, dyn=()):
        self.H, self.vals, self.scale, self.dt = H, vals, scale, dt
        self.link = link if link is not None else [self]
        self.dyn = list(dyn)     # (f, args) of plain driving functions, known to be present


def is_single(dt):
    return dt in ("f", "F")


def up(*dts):
    return np.result_type(*[DT[d] for d in dts]).char


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.n = sc["n"]
        self.drives = [Drive(k, sc["hashes"][k], sc["cplx"][k] and k < 3) for k in range(4)]
        self.pool = []
        self.frozen = []
        self.nontrivial = False

    def dtype(self, rng):
        if self.sc["single"]:
            return rng.choice("fFdD")
        return rng.choice("dDDD")

    def check(self, o, what, H=None):
        H = o.H if H is None else H
        tol = (3e-4 if is_single(o.dt) else 1e-10) * o.scale
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k, t in enumerate(TIMES):
                A = H.toarray(time=t)
                close(np.asarray(A), o.vals[k], tol, "wrong-matrix", "%s: at time %s" % (what, t), 1.0)

    def checkall(self, what):
        for i, o in enumerate(self.pool):
            self.check(o, "%s: object %d" % (what, i))
        for f in self.frozen:
            f.check(what)

    # ---------------------------------------------------------------- operands
    def matrix(self, rng, dt, density=0.6):
        n = self.n
        rs = np.random.RandomState(rng.getrandbits(31))
        A = rnd(rs, (n, n), DT[dt], ints=rng.random() < 0.6)
        A = A * (rs.uniform(size=(n, n)) < density)
        return A.astype(DT[dt])

    def wrap(self, rng, A, kinds=None):
        k = rng.choice(kinds or ["csr", "csc", "coo", "dia", "dense", "denseF", "csr"])
        if k in ("csr", "csc", "coo", "dia"):
            M = getattr(sp, k + "_matrix")(A)
            if k == "csr" and rng.random() < 0.3 and M.nnz:
                # duplicate entries
                C = sp.coo_matrix(A)
                M = sp.csr_matrix(A)
                M.data = M.data / 2
                C = M.tocoo()
                M = sp.coo_matrix((np.r_[C.data, C.data], (np.r_[C.row, C.row], np.r_[C.col, C.col])), shape=A.shape)
            if hasattr(M, "data"):
                self.frozen.append(Frozen(**{k: M.data}))
            return k, M
        M = np.array(A, order="F" if k == "denseF" else "C")
        if k == "matrix":
            M = np.matrix(A)
        if k == "list":
            return k, A.tolist()
        self.frozen.append(Frozen(operand=np.asarray(M)))
        return k, M

    def new(self, rng):
        n, L = self.n, self.sc["L"]
        dt = self.dtype(rng)
        c = dt in "FD"
        ts = np.array(TIMES)
        vals = np.zeros((len(TIMES), n, n), complex)
        static, dynamic = [], []
        scale = 1.0
        dyn = []
        kw = {}
        tl = []
        if self.sc["mode"] == "basis" and rng.random() < 0.8:
            kw["basis"] = self.basis
            for _ in range(rng.randint(0, 2)):
                t = chain_terms(rng, L, "") if L > 1 else [["x", [[rng.choice([1.0, 0.5]), 0]]]]
                static += t
                vals += dense(L, t)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                f, args = self.pick(rng, c)
                t = chain_terms(rng, L, "") if L > 1 else [["z", [[rng.choice([1.0, 0.5]), 0]]]]
                if rng.random() < 0.3:
                    # non-hermitian with complex couplings
                    t = [["+", [[rng.choice([1.0, 1j, 0.5 - 1j]) if c else 1.0, rng.randrange(L)]]]]
                tl += t
                dynamic += [x + [f, list(args)] for x in t]
                dyn.append((f, args))
                vals += np.array([f.value(x, *args) for x in ts])[:, None, None] * dense(L, t)
        for _ in range(rng.choice([0, 1, 1])):
            A = self.matrix(rng, rng.choice([d for d in (("f", "d") if not c else ("f", "d", "F", "D"))]) if not is_single(dt) else dt)
            static.append(self.wrap(rng, A)[1])
            vals += A
        for _ in range(rng.choice([0, 0, 1, 2])):
            f, args = self.pick(rng, c)
            A = self.matrix(rng, dt)
            dynamic.append([self.wrap(rng, A)[1], f, list(args)])
            vals += np.array([f.value(x, *args) for x in ts])[:, None, None] * A
            dyn.append((f, args))
        if not static and not dynamic:
            if "basis" not in kw:
                kw["shape"] = (n, n)
        if rng.random() < 0.4:
            kw["static_fmt"] = rng.choice(["csr", "csc", "dia", "dense"])
        if rng.random() < 0.3:
            kw["dynamic_fmt"] = rng.choice(["csr", "csc", "dia", "dense"])
        what = "hamiltonian(%d static, %d dynamic terms, dtype %s, %s)" % (len(static), len(dynamic), dt, {k: v for k, v in kw.items() if k != "basis"})

        def make():
            return hamiltonian(static, dynamic, dtype=DT[dt], check_herm=False, check_symm=False, check_pcon=False, **kw)
        H = self.guard(rng, make, len(dynamic))
        o = Obj(H, vals, 4.0 + np.abs(vals).max() * 2, dt, dyn=dyn)
        if H.Ns != n or H.get_shape != (n, n) or np.dtype(H.dtype) != DT[dt]:
            raise Violation("wrong-attributes", "%s: Ns=%s shape=%s dtype=%s" % (what, H.Ns, H.get_shape, H.dtype))
        return o, what

    def guard(self, rng, fn, ncalls):
        """Call fn; with some probability a driving function fails in it first."""
        if ncalls and rng.random() < 0.2:
            Drive.left = rng.randint(1, ncalls + 1)
            try:
                r = fn()
                Drive.left = 0
                return r
            except Boom:
                self.ctx.count("fault:driving_function_failed")
                self.nontrivial = True
            Drive.left = 0
        return fn()

    def pick(self, rng, c):
        f = rng.choice([d for d in self.drives if c or not d.cplx])
        args = rng.choice([(), (), (-1,), (-2,), (0.5,), (1.0, -2.0), (1,)])
        return f, args

    def any(self, rng):
        return rng.choice(self.pool)

    def operand(self, rng, dts=None, mul=False, kinds=None):
        """(description, object to use, values, scale, dtype char, kind)"""
        k = rng.choice(kinds or ["ham"] * 5 + ["csr", "csc", "coo", "dia", "dense", "denseF", "matrix", "list"] + (["scalar"] * 3 if mul else []))
        if k == "ham":
            o = self.any(rng)
            return "hamiltonian %d" % self.pool.index(o), o.H, o.vals, o.scale, o.dt, k, o
        if k == "scalar":
            x = rng.choice([2.0, -1.0, 0.5, 3, 0.25 + 1j, 1j, np.float64(1.5), np.complex128(1 - 0.5j), np.float32(0.5), 0.0])
            if dts in ("d", "f") and np.iscomplexobj(x):
                x = 2.0
            d = up(np.result_type(np.float32, np.array(x).dtype).char if np.iscomplexobj(x) or isinstance(x, np.generic) else "f")
            return "scalar %r" % (x,), x, np.array([x] * len(TIMES)), max(1.0, abs(x)), ("F" if np.iscomplexobj(x) else "f") if not isinstance(x, np.generic) else d, k, None
        dt = dts or self.dtype(rng)
        A = self.matrix(rng, dt)
        kk, M = self.wrap(rng, A, [k])
        if k == "list":
            dt = "D" if dt in "DF" else "d"
        return "%s %s" % (k, dt), M, np.array([A] * len(TIMES)), 4.0, dt, k, None


def mm(A, B):
    if A.ndim == 1 or B.ndim == 1:
        return (A[:, None, None] if A.ndim == 1 else A) * (B[:, None, None] if B.ndim == 1 else B)
    return np.einsum("tij,tjk->tik", A, B)


def execute(sc, ctx):
    Drive.left = 0
    w = World(sc, ctx)
    if sc["mode"] == "basis":
        w.basis = spin_basis_1d(sc["L"])
    try:
        for k, op in enumerate(sc["ops"]):
            rng = random.Random("op:%s" % op["seed"])
            what = step(w, op["op"], rng)
            if what is None:
                continue
            ctx.count("op_" + op["op"])
            ctx.count("steps")
            w.checkall("step %d (%s)" % (k, what))
            if len(w.pool) > 5:
                w.pool.pop(rng.randrange(len(w.pool) - 1))
    finally:
        Drive.left = 0
    ctx.state(str(ctx.h), w.nontrivial)


def add_obj(w, o, what):
    w.check(o, what + ": result")
    if o.scale < 1e6:
        w.pool.append(o)
    return what


def step(w, op, rng):
    ctx, n = w.ctx, w.n
    if op == "new" or len(w.pool) < 1:
        o, what = w.new(rng)
        return add_obj(w, o, what)
    o = w.any(rng)
    oi = w.pool.index(o)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op in ("add", "sub", "mul", "radd", "rsub", "rmul"):
            mul = op.endswith("mul")
            name, X, xv, xs, xd, kind, xo = w.operand(rng, mul=mul)
            fn = {"add": lambda: o.H + X, "sub": lambda: o.H - X, "mul": lambda: o.H * X, "radd": lambda: X + o.H, "rsub": lambda: X - o.H, "rmul": lambda: X * o.H}[op]
            what = "%s: object %d with %s" % (op, oi, name)
            if mul and o.scale * xs * n > 1e5:
                return None
            r = fn()
            if not isinstance(r, hamiltonian):
                raise Violation("no-result", "%s gives %r" % (what, type(r)))
            if op in ("add", "radd"):
                v = o.vals + xv
            elif op == "sub":
                v = o.vals - xv
            elif op == "rsub":
                v = xv - o.vals
            elif op == "mul":
                v = mm(o.vals, xv)
            else:
                v = mm(xv, o.vals)
            dt = up(o.dt, xd)
            if mul:
                w.nontrivial = True
            return add_obj(w, Obj(r, v, o.scale * xs * (n if kind != "scalar" else 1) if mul else o.scale + xs, worst(o.dt, xd)), what)
        if op in ("iadd", "isub", "imul", "idiv"):
            if len(o.link) > 1:
                return None
            mul = op == "imul"
            if op == "idiv":
                name, X, xv, xs, xd, kind, xo = w.operand(rng, dts=o.dt, kinds=["scalar"])
                if X == 0:
                    return None
                xv = 1 / xv
                xs = max(1, abs(1 / X))
            else:
                name, X, xv, xs, xd, kind, xo = w.operand(rng, dts=o.dt, mul=mul)
            if not np.can_cast(DT[xd], DT[o.dt], "same_kind") or kind == "list" and not np.can_cast(np.asarray(X).dtype, DT[o.dt], "same_kind"):
                # must be refused, and nothing may change
                try:
                    inplace(op, o.H, X)
                except (TypeError, ValueError):
                    ctx.count("fault:refused_operand")
                    return "%s: refused operand %s" % (op, name)
                raise Violation("cast-accepted", "%s: object %d of dtype %s with %s" % (op, oi, o.dt, name))
            if mul and o.scale * xs * n > 1e5:
                return None
            what = "%s: object %d with %s" % (op, oi, name)
            r = inplace(op, o.H, X)
            if not isinstance(r, hamiltonian):
                raise Violation("no-result", "%s gives %r" % (what, type(r)))
            v = o.vals + xv if op == "iadd" else o.vals - xv if op == "isub" else mm(o.vals, xv)
            w.nontrivial = True
            o.H = r
            o.vals = v
            o.scale = o.scale * xs * (n if kind != "scalar" else 1) if mul else o.scale * xs if op == "idiv" else o.scale + xs
            o.dt = worst(o.dt, xd) if kind == "ham" else o.dt
            return what
        if op == "div":
            x = rng.choice([2.0, -4.0, 0.5, 4, np.float64(0.25)] + ([0.5j, 1 + 1j] if o.dt in "DF" else []))
            return add_obj(w, Obj(o.H / x, o.vals / x, o.scale * max(1, 1 / abs(x)), o.dt), "object %d / %r" % (oi, x))
        if op == "neg":
            return add_obj(w, Obj(-o.H, -o.vals, o.scale, o.dt), "-object %d" % oi)
        if op == "pow":
            p = rng.choice([1, 2, 2, 3])
            if (o.scale * n) ** p > 1e5:
                return None
            v = o.vals
            for _ in range(p - 1):
                v = mm(v, o.vals)
            r = o.H ** p
            w.nontrivial = True
            if p == 1:
                w.check(Obj(r, v, o.scale, o.dt), "power 1")
                return "object %d ** 1" % oi
            return add_obj(w, Obj(r, v, (o.scale * n) ** p, o.dt), "object %d ** %d" % (oi, p))
        if op == "copy":
            return add_obj(w, Obj(o.H.copy(), o.vals.copy(), o.scale, o.dt), "copy of object %d" % oi)
        if op == "plus0":
            X = rng.choice([0, 0.0])
            r = rng.choice([lambda: o.H + X, lambda: X + o.H, lambda: o.H - X])()
            w.check(Obj(r, o.vals, o.scale, o.dt), "object %d + 0" % oi)
            try:
                o.H + 1.5
            except NotImplementedError:
                return "object %d + 0" % oi
            raise Violation("scalar-addition-accepted", "object %d + 1.5" % oi)
        if op == "sum":
            objs = [w.any(rng) for _ in range(rng.randint(1, 3))]
            r = sum([x.H for x in objs])
            q = Obj(r, sum([x.vals for x in objs]), sum(x.scale for x in objs), worst(*[x.dt for x in objs]))
            if len(objs) == 1:
                w.check(q, "sum of one")
                return "sum of object %d" % w.pool.index(objs[0])
            return add_obj(w, q, "sum of %d objects" % len(objs))
        if op == "astype":
            dt = rng.choice([d for d in "fdFD" if np.can_cast(DT[o.dt], DT[d], "same_kind")])
            r = o.H.astype(DT[dt], copy=True)
            if np.dtype(r.dtype) != DT[dt]:
                raise Violation("wrong-dtype", "astype(%s) gives %s" % (dt, r.dtype))
            return add_obj(w, Obj(r, o.vals.copy(), o.scale, worst(o.dt, dt)), "object %d astype %s" % (oi, dt))
        if op == "fmt":
            sf = rng.choice([None, "csr", "csc", "dia", "dense"])
            df = rng.choice([None, "csr", "csc", "dia", "dense"])
            if rng.random() < 0.4 and o.dyn:
                df = [(rng.choice(["csr", "csc", "dia", "dense"]), fa) for fa in {(id(f), a): (f, a) for f, a in o.dyn}.values()]
                try:
                    o.H.update_matrix_formats(sf, df)
                except ValueError:
                    # the term may have cancelled
                    if all(np.abs(o.vals[k] - o.vals[0]).max() > 1e-3 for k in (1, 2, 3)) and len(o.dyn) == 1:
                        raise
                return "update_matrix_formats(%s, list) of object %d" % (sf, oi)
            o.H.update_matrix_formats(sf, df)
            return "update_matrix_formats(%s, %s) of object %d" % (sf, df, oi)
        if op in ("T", "H", "conj", "transpose", "dense", "sparse"):
            cp = op in ("transpose",) or (op in ("dense", "sparse") and rng.random() < 0.5)
            tr = np.transpose(o.vals, (0, 2, 1))
            if op == "T":
                r, v = o.H.T, tr
            elif op == "H":
                r, v = (o.H.H, tr.conj()) if rng.random() < 0.5 else (o.H.getH(copy=True), tr.conj())
                cp = True
            elif op == "conj":
                r, v = (o.H.conj() if rng.random() < 0.5 else o.H.conjugate()), o.vals.conj()
                cp = True
            elif op == "transpose":
                r, v = o.H.transpose(copy=True), tr
            elif op == "dense":
                r, v = o.H.as_dense_format(copy=cp), o.vals
            else:
                f = rng.choice(["csr", "csc", "dia"])
                r, v = o.H.as_sparse_format(static_fmt=f, dynamic_fmt=rng.choice(["csr", "csc", "dia"]), copy=cp) if rng.random() < 0.6 else o.H.as_sparse_format(copy=cp), o.vals
            q = Obj(r, v.copy(), o.scale, o.dt)
            if not cp:
                o.link.append(q)
                q.link = o.link
            return add_obj(w, q, "%s (copy=%s) of object %d" % (op, cp, oi))
        if op in ("comm", "acomm"):
            x = w.any(rng)
            if o.scale * x.scale * n > 1e4:
                return None
            f = commutator if op == "comm" else anti_commutator
            s = -1 if op == "comm" else 1
            w.nontrivial = True
            return add_obj(w, Obj(f(o.H, x.H), mm(o.vals, x.vals) + s * mm(x.vals, o.vals), 2 * o.scale * x.scale * n, worst(o.dt, x.dt)), "%s of %d and %d" % (op, oi, w.pool.index(x)))
        if op == "proj":
            return project(w, o, oi, rng)
        if op == "eval":
            return evaluate(w, o, oi, rng)
        if op == "refuse":
            return refuse(w, o, oi, rng)
        if op == "fail":
            return fail(w, o, oi, rng)
    raise AssertionError(op)


def worst(*dts):
    r = up(*dts)
    if any(is_single(d) for d in dts):
        return {"d": "f", "D": "F"}.get(r, r)
    return r


def inplace(op, H, X):
    if op == "iadd":
        H += X
    elif op == "isub":
        H -= X
    elif op == "imul":
        H *= X
    else:
        H /= X
    return H


def project(w, o, oi, rng):
    n = w.n
    kind = rng.choice(["dense", "sparse", "ham", "array-like"])
    w.nontrivial = True
    if kind == "ham":
        x = w.any(rng)
        if o.scale * x.scale ** 2 * n * n > 1e5:
            return None
        r = o.H.project_to(x.H) if rng.random() < 0.5 else o.H.rotate_by(x.H)
        v = mm(mm(np.transpose(x.vals.conj(), (0, 2, 1)), o.vals), x.vals)
        return add_obj(w, Obj(r, v, o.scale * x.scale ** 2 * n * n, worst(o.dt, x.dt)), "project object %d with a hamiltonian" % oi)
    m = rng.randint(1, n)
    dt = rng.choice("dD") if o.dt in "DF" else "d"
    A = rnd(np.random.RandomState(rng.getrandbits(31)), (n, m), DT[dt])
    P = A if kind == "dense" else sp.csr_matrix(A) if kind == "sparse" else np.asfortranarray(A)
    r = o.H.project_to(P)
    v = np.einsum("ia,tij,jb->tab", A.conj(), o.vals, A)
    w.check(Obj(r, v, o.scale * n, o.dt), "project object %d with %s (%d,%d)" % (oi, kind, n, m))
    if r.Ns != m:
        raise Violation("wrong-attributes", "Ns of the projection is %s, not %d" % (r.Ns, m))
    return "project object %d" % oi


def evaluate(w, o, oi, rng):
    n, H = w.n, o.H
    k = rng.randrange(len(TIMES))
    t, M = TIMES[k], o.vals[k]
    tol = (5e-4 if is_single(o.dt) else 1e-10) * o.scale * n
    which = rng.choice(["tocsr", "tocsc", "todense", "out", "diagonal", "trace", "call", "item", "dot", "dot", "dot2", "dottimes", "dottimes3", "dotout", "dotsparse", "dotsparse_times",
                        "rdot", "rdot", "expt", "expt_many", "expt_times", "expt_dm", "fluct", "ele", "ele_diag", "eigh", "eigsh", "linop", "np"])
    what = "%s of object %d at %s" % (which, oi, t)
    rs = np.random.RandomState(rng.getrandbits(31))
    dt = rng.choice("dD") if not is_single(o.dt) else rng.choice("fdFD")

    def vec(*shape):
        return rnd(rs, shape, DT[dt])

    def eq(got, want, kind="wrong-value", tol=tol):
        if sp.issparse(got):
            got = got.toarray()
        close(np.asarray(got), np.asarray(want), tol, kind, what, 1.0)
    w.ctx.count("eval_" + which)
    a = rng.choice([1.0, 1.0, -2.0, 0.5])
    if which == "tocsr":
        r = H.tocsr(t)
        eq(r, M)
        scramble(r)
    elif which == "tocsc":
        r = H.tocsc(t)
        eq(r, M)
        scramble(r)
    elif which == "todense":
        r = H.todense(time=t) if rng.random() < 0.5 else H.toarray(time=t)
        eq(r, M)
        scramble(r)
    elif which == "out":
        out = np.empty((n, n), dtype=H.dtype, order=rng.choice("CF"))
        out[...] = 7
        r = H.toarray(time=t, out=out) if rng.random() < 0.6 else H.todense(time=t, out=out)
        eq(out, M)
        eq(r, M)
    elif which == "diagonal":
        r = H.diagonal(t)
        eq(r, np.diagonal(M))
        r[...] = 5
    elif which == "trace":
        eq(H.trace(t), np.trace(M))
    elif which == "call":
        r = H(t)
        eq(r, M)
        scramble(r)
    elif which == "item":
        i, j = rng.randrange(n), rng.randrange(n)
        eq(H[t, i, j], M[i, j])
        r = H[TIMES, i, j]
        eq([np.asarray(x).item() for x in r], o.vals[:, i, j])
    elif which in ("dot", "dot2"):
        v = vec(n) if which == "dot" else vec(n, 3)
        if rng.random() < 0.5:
            v = np.asfortranarray(v) if v.ndim == 2 else np.repeat(v, 2)[::2]
        f = Frozen(v=v)
        eq(H.dot(v, time=t, a=a), a * M.dot(v))
        f.check(what)
    elif which == "dottimes":
        v = vec(n, len(TIMES))
        f = Frozen(v=v)
        eq(H.dot(v, time=TIMES, a=a), a * np.einsum("tij,jt->it", o.vals, v))
        f.check(what)
    elif which == "dottimes3":
        v = vec(n, n, len(TIMES))
        eq(H.dot(v, time=np.array(TIMES), a=a), a * np.einsum("tij,jkt->ikt", o.vals, v))
    elif which == "dotout":
        v = vec(n) if rng.random() < 0.5 else vec(n, 2)
        out = np.full(v.shape, 3, dtype=np.result_type(v.dtype, H.dtype))
        ow = rng.random() < 0.5
        r = H.dot(v, time=t, out=out, overwrite_out=ow, a=a)
        eq(out, a * M.dot(v) + (0 if ow else 3))
        eq(r, out)
    elif which == "dotsparse":
        v = vec(n, 3)
        eq(H.dot(sp.csr_matrix(v), time=t, a=a), a * M.dot(v))
    elif which == "dotsparse_times":
        v = vec(n, len(TIMES))
        eq(H.dot(sp.csc_matrix(v), time=TIMES, a=a), a * np.einsum("tij,jt->it", o.vals, v))
    elif which == "rdot":
        m = rng.choice(["1", "2", "t", "3"])
        if m == "1":
            v = vec(n)
            eq(H.rdot(v, time=t, a=a), a * v.dot(M))
        elif m == "2":
            v = vec(3, n)
            eq(H.rdot(v, time=t, a=a), a * v.dot(M))
        elif m == "t":
            v = vec(n, len(TIMES))
            eq(H.rdot(v, time=TIMES, a=a), a * np.einsum("it,tij->jt", v, o.vals))
        else:
            v = vec(n, n, len(TIMES))
            eq(H.rdot(v, time=TIMES, a=a), a * np.einsum("kit,tij->kjt", v, o.vals))
    elif which == "expt":
        v = vec(n)
        eq(H.expt_value(v, time=t), np.vdot(v, M.dot(v)))
    elif which == "expt_many":
        m = rng.choice([x for x in (1, 2, 3, 4) if x != n])
        v = vec(n, m)
        r = H.expt_value(v, time=t)
        want = np.einsum("ij,ik,kj->j", v.conj(), M, v)
        if m == 1:
            want = want[0]
            r = np.asarray(r).reshape(())
        eq(r, want)
        if n > 1:
            v = vec(n, n)
            eq(H.expt_value(v, time=t, enforce_pure=True), np.einsum("ij,ik,kj->j", v.conj(), M, v))
    elif which == "expt_times":
        v = vec(n, len(TIMES))
        eq(H.expt_value(v, time=TIMES), np.einsum("it,tik,kt->t", v.conj(), o.vals, v))
        r = vec(n, n, len(TIMES))
        eq(H.expt_value(r, time=TIMES), np.einsum("tik,kit->t", o.vals, r))
    elif which == "expt_dm":
        if n > 1:
            r = vec(n, n)
            eq(H.expt_value(r, time=t), np.trace(M.dot(r)))
    elif which == "fluct":
        # defined for hermitian operators
        Hh = H + H.getH(copy=True)
        Mh = M + M.conj().T
        v = vec(n)
        e = np.vdot(v, Mh.dot(v))
        eq(Hh.quant_fluct(v, time=t), np.vdot(v, Mh.dot(Mh.dot(v))) - e ** 2, tol=tol * o.scale * n * 4)
        if n > 1:
            v = vec(n, n + 1)
            e = np.einsum("ij,ik,kj->j", v.conj(), Mh, v)
            eq(Hh.quant_fluct(v, time=t), np.einsum("ij,ik,kj->j", v.conj(), Mh.dot(Mh), v) - e ** 2, tol=tol * o.scale * n * 4)
            r = vec(n, n)
            eq(Hh.quant_fluct(r, time=t), np.trace(Mh.dot(Mh).dot(r)) - np.trace(Mh.dot(r)) ** 2, tol=tol * o.scale * n * 4)
    elif which == "ele":
        m = rng.choice([1, 2])
        a_, b_ = (vec(n), vec(n)) if m == 1 else (vec(n, 2), vec(n, 3))
        eq(H.matrix_ele(a_, b_, time=t), a_.conj().T.dot(M).dot(b_))
    elif which == "ele_diag":
        a_, b_ = vec(n, 2), vec(n, 2)
        eq(H.matrix_ele(a_, b_, time=t, diagonal=True), np.einsum("ij,ik,kj->j", a_.conj(), M, b_))
        eq(H.matrix_ele(a_, b_, time=t), a_.conj().T.dot(M).dot(b_))
    elif which in ("eigh", "eigsh"):
        Hh = H + H.getH(copy=True)
        E = np.linalg.eigvalsh(M + M.conj().T)
        if which == "eigh":
            e, V = Hh.eigh(time=t)
            eq(e, E)
            eq(V.conj().T.dot((M + M.conj().T).dot(V)), np.diag(E))
            eq(Hh.eigvalsh(time=t), E)
        elif n > 3:
            eq(np.sort(Hh.eigsh(time=t, k=2, which="SA", return_eigenvectors=False, v0=np.ones(n, dtype=Hh.dtype))), E[:2], tol=tol * 100)
    elif which == "linop":
        A = H.aslinearoperator(time=t)
        v = vec(n)
        eq(A.matvec(v), M.dot(v))
        eq(A.rmatvec(v), M.conj().T.dot(v))
        v = vec(n, 2)
        eq(A.matmat(v), M.dot(v))
    elif which == "np":
        X = vec(n, n)
        op = rng.choice(["multiply", "multiply", "add", "subtract"])
        left = rng.random() < 0.5
        r = getattr(np, op)(X, H) if left else getattr(np, op)(H, X)
        for q, tt in enumerate(TIMES):
            V = o.vals[q]
            A, B = (X, V) if left else (V, X)
            eq(r.toarray(time=tt), A.dot(B) if op == "multiply" else A + B if op == "add" else A - B)
    return what


def scramble(A):
    """What is returned as a copy can be overwritten by the caller."""
    if sp.issparse(A):
        A.data[...] = 77
    else:
        A[...] = 77


def refuse(w, o, oi, rng):
    """Operands that do not fit must be refused without changing anything."""
    n = w.n
    bad = rng.choice([np.ones((n + 1, n + 1)), sp.eye(n + 1, format="csr"), "ham", np.ones((n + 1, n))])
    if isinstance(bad, str):
        bad = hamiltonian([np.eye(n + 1)], [], dtype=np.float64)
    op = rng.choice(["iadd", "isub", "imul", "add", "sub", "mul", "dot"])
    if len(o.link) > 1 and op.startswith("i"):
        return None
    try:
        if op == "add":
            o.H + bad
        elif op == "sub":
            o.H - bad
        elif op == "mul":
            o.H * bad
        elif op == "dot":
            o.H.dot(np.ones(n + 1))
        else:
            inplace(op, o.H, bad)
    except (ValueError, TypeError):
        w.ctx.count("fault:refused_operand")
        w.nontrivial = True
        return "%s of object %d with an operand of the wrong shape" % (op, oi)
    raise Violation("shape-accepted", "%s of object %d (n=%d) with an operand of the wrong shape" % (op, oi, n))


def fail(w, o, oi, rng):
    """A driving function fails in the middle of an evaluation; the object must stay what it was."""
    n, H = w.n, o.H
    rs = np.random.RandomState(rng.getrandbits(31))
    v = rnd(rs, (n,), np.complex128)
    fr = Frozen(v=v)
    which = rng.choice(["toarray", "tocsr", "dot", "diagonal", "trace", "dottimes", "eigvalsh", "call"])
    fn = {"toarray": lambda: H.toarray(time=0.3), "tocsr": lambda: H.tocsr(time=0.3), "dot": lambda: H.dot(v, time=0.3), "diagonal": lambda: H.diagonal(0.3),
          "trace": lambda: H.trace(0.3), "dottimes": lambda: H.dot(np.array([v, v]).T, time=[0.1, 0.2]), "eigvalsh": lambda: H.eigvalsh(time=0.3), "call": lambda: H(0.3)}[which]
    Drive.left = rng.choice([1, 1, 2, 3])
    try:
        fn()
    except Boom:
        w.ctx.count("fault:driving_function_failed")
        w.nontrivial = True
    Drive.left = 0
    fr.check("failing " + which)
    return "%s of object %d with a failing driving function" % (which, oi)
