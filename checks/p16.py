"""P16: histories of matrix exponentials, their grids and pending iterators, against dense exponentials."""
import random
import warnings
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
from checks.util import close, rnd, Frozen, interrupt
from sim.core import Violation

ID = "P16"
TREE = "plain"
NEED = None
QUICK = (3000, 70)
THOROUGH = (100000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded history on a pool of exp_op objects (exponents: hamiltonians with drives, quantum_operators, dense and sparse matrices) sharing their exponents: new, copy, T, H, conj, "
        "set_a, set_grid, unset_grid, set_iterate, dot, rdot, sandwich, get_mat and rotate_by on vectors, matrices, sparse matrices and hamiltonians; iterators stay pending while "
        "the pool, the operands and already yielded objects change, and are advanced in seeded order; drives fail at a chosen call and interrupts arrive before a chosen line; "
        "non-trivial when two iterators were pending at once or a fault hit; distinct by scenario")
REAL = ["quspin.operators.exp_op", "quspin.operators.hamiltonian (drives, rotate_by)", "quspin.operators.quantum_operator", "scipy expm_multiply"]
STUB = ["the scheduler that advances pending iterators", "driving functions", "interrupts: raised by the simulator before a chosen line"]
OPS = (["new"] * 4 + ["view"] * 4 + ["set_a", "set_grid", "set_grid", "unset_grid", "set_iterate", "set_iterate"] + ["apply"] * 14 + ["advance"] * 14
       + ["overwrite"] * 3 + ["get_mat"] * 2 + ["rotate"] * 2 + ["refuse"] * 2)


class DriveError(Exception):
    pass


def setup():
    global hamiltonian, quantum_operator, exp_op
    from quspin.operators import hamiltonian, quantum_operator, exp_op


def gen(rng, tier):
    sc = {"n": rng.choice([1, 2, 2, 3, 4, 5, 6]), "seed": rng.getrandbits(31), "cplx": rng.random() < 0.6, "arrays": rng.random() < 0.5}
    sc["ops"] = [{"op": "new", "seed": rng.getrandbits(31), "cut": 0, "fail": 0}]
    for _ in range(rng.randint(4, 16)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 8 + [rng.randint(1, 90)]), "fail": rng.choice([0] * 6 + [rng.randint(1, 2)])})
    return sc


class Drive:
    """A driving function of a given complex phase that can be told to fail."""

    def __init__(self, w, c, world):
        self.w, self.c, self.world = w, c, world

    def __deepcopy__(self, memo):
        return self

    def value(self, t):
        return self.c * np.cos(self.w * t + 0.3)

    def __call__(self, t):
        self.world.calls += 1
        if self.world.fail and self.world.calls == self.world.fail:
            self.world.failed = True
            raise DriveError()
        return self.value(t)


class Exponent:
    """A (real) operator object with its dense reference, a function of the keywords of a call."""

    def __init__(self, obj, mat, kind):
        self.obj, self.mat, self.kind = obj, mat, kind


class Obj:
    def __init__(self, E, exponent, a, f, grid, iterate):
        # the exponent is a*f(O)
        self.E, self.exponent, self.a, self.f, self.grid, self.iterate = E, exponent, a, f, grid, iterate

    def clone(self, E, a, f):
        return Obj(E, self.exponent, a, f, self.grid, self.iterate)


def points(grid):
    s, e, num, ep = grid
    return np.linspace(s, e, num, endpoint=ep)


def same(x):
    return x


FORMS = {"T": lambda m: m.T, "conj": lambda m: m.conj(), "H": lambda m: m.conj().T}


class Pending:
    def __init__(self, it, check, total):
        self.it, self.check, self.total, self.at = it, check, total, 0


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.n = sc, ctx, sc["n"]
        self.rs = np.random.RandomState(sc["seed"])
        rng = random.Random(sc["seed"])
        self.calls = self.fail = 0
        self.failed = False
        self.pool, self.pending, self.frozen, self.nontrivial = [], [], [], False
        self.exponents = [self.exponent(rng, k) for k in rng.sample(["ham", "ham", "qop", "dense", "sparse"], 3)]
        self.operands = []
        for k in rng.sample(["vec", "mat", "wide", "list", "matrix"] + ([] if sc["arrays"] else ["sparse", "ham", "ham", "ham"]), 4):
            self.operands.append(self.operand(rng, k))

    def matrix(self, rng, norm=1.0):
        n = self.n
        m = rnd(self.rs, (n, n), "D" if self.sc["cplx"] else "d") * (self.rs.rand(n, n) < rng.choice([0.4, 1.0]))
        if rng.random() < 0.1:
            m = m * 0
        if rng.random() < 0.4:
            m = m + m.conj().T
        s = np.linalg.norm(m, 2)
        return m * (norm / s) if s > 0 else m

    def fmt(self, rng, m):
        k = rng.choice(["a", "csr", "csc", "coo", "dia"])
        return m.copy() if k == "a" else getattr(sp, k + "_matrix")(m)

    def drive(self, rng):
        return Drive(rng.choice([0.7, 1.3]), rng.choice([1.0, -0.5] + ([1j, 0.4 - 0.6j] if self.sc["cplx"] else [])), self)

    def exponent(self, rng, kind):
        dt = np.complex128 if self.sc["cplx"] else np.float64
        if kind == "ham":
            s, parts = [self.matrix(rng, 0.6) for _ in range(rng.choice([0, 1, 1, 2]))], [(self.matrix(rng, 0.6), self.drive(rng)) for _ in range(rng.choice([0, 1, 1, 2]))]
            if not s and not parts:
                s = [self.matrix(rng)]
            H = hamiltonian([self.fmt(rng, m) for m in s], [[self.fmt(rng, m), d, ()] for m, d in parts], dtype=dt, **self.off())
            return Exponent(H, lambda kw: sum(s) + sum(d.value(kw.get("time", 0.0)) * m for m, d in parts) + np.zeros((self.n, self.n)), kind)
        if kind == "qop":
            ms = {k: self.matrix(rng, 0.6) for k in "Jhg"[:rng.randint(1, 3)]}
            Q = quantum_operator({k: [self.fmt(rng, m)] for k, m in ms.items()}, dtype=dt, **self.off())
            live = {k: np.zeros((self.n, self.n)) if not np.abs(m).max() else m for k, m in ms.items()}
            self.keys = [k for k, m in ms.items() if np.abs(m).max() > 0]

            def value(kw):
                return sum(kw.get("pars", kw).get(k, 1.0) * m for k, m in live.items())
            return Exponent(Q, value, kind)
        m = self.matrix(rng)
        obj = m.copy() if kind == "dense" else self.fmt(rng, m)
        return Exponent(obj, lambda kw: m, "plain")

    def off(self):
        return dict(check_herm=False, check_pcon=False, check_symm=False)

    def operand(self, rng, kind):
        n = self.n
        dt = "D" if self.sc["cplx"] and rng.random() < 0.6 else "d"
        if kind == "vec":
            return ["vec", rnd(self.rs, (n,), dt)]
        if kind == "list":
            return ["list", [float(x) for x in rnd(self.rs, (n,), "d")]]
        if kind == "mat":
            return ["mat", rnd(self.rs, (n, n), dt)]
        if kind == "matrix":
            return ["matrix", np.asmatrix(rnd(self.rs, (n, n), dt))]
        if kind == "wide":
            return ["wide", rnd(self.rs, (n, rng.choice([1, 2, 3])), dt)]
        if kind == "sparse":
            return ["sparse", getattr(sp, rng.choice(["csr", "csc"]) + "_matrix")(rnd(self.rs, (n, n), dt) * (self.rs.rand(n, n) < 0.6))]
        s, parts = self.matrix(rng), [(self.matrix(rng), self.drive(rng)) for _ in range(rng.choice([0, 1, 2]))]
        h = hamiltonian([self.fmt(rng, s)], [[self.fmt(rng, m), d, ()] for m, d in parts], dtype=np.complex128 if self.sc["cplx"] else np.float64, **self.off())
        return ["ham", h, s, parts]

    def kwargs(self, rng, o):
        if o.exponent.kind == "ham" and rng.random() < 0.7:
            return {"time": rng.choice([0.0, 0.5, 1.7])}
        if o.exponent.kind == "qop" and rng.random() < 0.7:
            p = {k: rng.choice([0.0, 1.0, -0.7, 0.3]) for k in self.keys if rng.random() < 0.7}
            return {"pars": p} if rng.random() < 0.5 else p
        return {}

    def attributes(self, what):
        for i, o in enumerate(self.pool):
            w = "%s: object %d" % (what, i)
            E = o.E
            if E.Ns != self.n or tuple(E.get_shape) != (self.n, self.n) or E.ndim != 2 or bool(E.iterate) != o.iterate or complex(E.a) != complex(o.a):
                raise Violation("wrong-attributes", "%s: Ns %s, iterate %s (expected %s), a %s (expected %s)" % (w, E.Ns, E.iterate, o.iterate, E.a, o.a))
            if (E.grid is None) != (o.grid is None):
                raise Violation("wrong-grid", "%s: grid %s, expected %s" % (w, E.grid, o.grid))
            if o.grid is not None:
                close(E.grid, points(o.grid), 1e-14, "wrong-grid", w)
                if o.grid[2] > 1:
                    close(E.step, (o.grid[1] - o.grid[0]) / (o.grid[2] - (1 if o.grid[3] else 0)), 1e-14, "wrong-step", w)
        for i, x in enumerate(self.operands):
            if x[0] == "ham":
                self.ham(x[1], lambda t: self.hamref(x, t), "%s: operand %d" % (what, i), "operand-changed")
        for f in self.frozen:
            f.check(what)

    def hamref(self, x, t):
        return x[2] + sum(d.value(t) * m for m, d in x[3])

    def ham(self, h, ref, what, kind="wrong-operator", scale=1.0):
        for t in (0.0, 0.9):
            close(h.toarray(time=t), ref(t), 1e-9 * scale, kind, "%s at time %s" % (what, t), 1.0)
            v = np.arange(1, self.n + 1) + 0.5
            if not np.iscomplexobj(ref(t)) or np.issubdtype(h.dtype, np.complexfloating):
                close(h.dot(v, time=t), ref(t) @ v, 1e-8 * scale, kind + ":dot", "%s at time %s" % (what, t), 1.0)

    # ------------------------------------------------------------------------------------
    def step(self, op):
        rng = random.Random(op["seed"])
        kind = op["op"]
        self.calls, self.fail, self.failed = 0, 0, False
        getattr(self, "do_" + kind)(rng, op)
        self.fail = 0
        self.ctx.count("steps")
        if len(self.pending) > 1:
            self.nontrivial = True
        self.attributes(kind)

    def attempt(self, op, f, drives=True):
        """Runs f with the faults of this step; returns (done, result)."""
        self.calls, self.failed = 0, False
        self.fail = op["fail"] if drives else 0
        r, done = None, False
        with interrupt(op["cut"]) as it:
            try:
                r = f()
                done = True
            except DriveError:
                if not self.failed:
                    raise Violation("spurious-error", "a driving function's error appeared without a failing call")
                self.ctx.count("fault:drive-failed")
                self.nontrivial = True
        failed, self.fail = self.failed, 0
        if it.fired:
            self.ctx.count("fault:interrupt")
            self.nontrivial = True
            return False, None
        if failed and done:
            raise Violation("error-swallowed", "the failure of a driving function was not reported")
        return done, r

    def pick(self, rng):
        return rng.choice(self.pool)

    def scalar(self, rng):
        return rng.choice([1.0, -1.0, 0.5, 2] + ([-1j, 1j, 0.3 + 0.4j] if rng.random() < 0.6 else []))

    def grid(self, rng):
        s, e = rng.choice([(0.0, 1.0), (0, 1), (0.3, 0.9), (1.0, -0.5), (-0.4, 0.0), (0.5, 0.5), (1.0, 0.0)])
        return s, e, rng.choice([1, 2, 3, 5]), rng.random() < 0.7

    def do_new(self, rng, op):
        x = rng.choice(self.exponents)
        a = self.scalar(rng)
        kw, grid, it = {}, None, False
        if rng.random() < 0.55:
            s, e, num, ep = self.grid(rng)
            if rng.random() < 0.5 and not ep:
                kw = dict(start=s, stop=e, num=num, endpoint=False)
            else:
                kw, ep = dict(start=s, stop=e, num=num), True
                if rng.random() < 0.5:
                    kw["endpoint"] = True
            grid = (s, e, num, ep)
            it = rng.random() < 0.6
            if it or rng.random() < 0.3:
                kw["iterate"] = it
        if a != 1.0 or rng.random() < 0.3:
            kw["a"] = a
        E = exp_op(x.obj, **kw)
        self.pool.append(Obj(E, x, a, same, grid, it))

    def do_view(self, rng, op):
        o = self.pick(rng)
        how = rng.choice(["T", "transpose", "conj", "H", "getH", "copy", "transpose_copy", "getH_copy", "pair"])
        f = o.f
        if how == "copy":
            done, E = self.attempt(op, o.E.copy, False)
            if done:
                self.pool.append(o.clone(E, o.a, f))
            return
        if how == "pair":
            # what a user writes: both views of one object alive at once
            done, r = self.attempt(op, lambda: (o.E.T, o.E.conj()), False)
            if done:
                self.add(o, r[0], "T")
                self.add(o, r[1], "conj")
            return
        name = {"T": "T", "transpose": "T", "transpose_copy": "T", "conj": "conj"}.get(how, "H")
        call = {"T": lambda: o.E.T, "H": lambda: o.E.H, "transpose": o.E.transpose, "conj": o.E.conj, "getH": o.E.getH, "transpose_copy": lambda: o.E.transpose(copy=True),
                "getH_copy": lambda: o.E.getH(copy=True)}[how]
        done, E = self.attempt(op, call, False)
        if done:
            self.add(o, E, name)

    def add(self, o, E, name):
        g, f = FORMS[name], o.f
        self.pool.append(o.clone(E, o.a if name == "T" else np.conj(o.a), lambda m: g(f(m))))

    def do_set_a(self, rng, op):
        o = self.pick(rng)
        a = self.scalar(rng)
        o.E.set_a(a)
        o.a = a

    def do_set_grid(self, rng, op):
        o = self.pick(rng)
        s, e, num, ep = self.grid(rng)
        k = rng.random()
        if k < 0.2:
            o.E.set_grid(s, e)
            num, ep = 50, True
        elif k < 0.4:
            o.E.set_grid(s, e, num)
            ep = True
        elif k < 0.7:
            o.E.set_grid(s, e, num=num, endpoint=ep)
        else:
            o.E.set_grid(s, e, num, ep)
        o.grid = (s, e, num, ep)

    def do_unset_grid(self, rng, op):
        o = self.pick(rng)
        o.E.unset_grid()
        o.grid, o.iterate = None, False

    def do_set_iterate(self, rng, op):
        o = self.pick(rng)
        v = rng.random() < 0.7
        if v and o.grid is None:
            self.refused(lambda: o.E.set_iterate(True), "set_iterate without a grid")
            return
        o.E.set_iterate(v)
        o.iterate = v

    def do_overwrite(self, rng, op):
        x = rng.choice(self.operands)
        if x[0] in ("vec", "mat", "wide", "matrix"):
            x[1][...] = rnd(self.rs, x[1].shape, x[1].dtype)
        elif x[0] == "sparse":
            x[1].data[...] = rnd(self.rs, x[1].data.shape, x[1].dtype)
        elif x[0] == "ham":
            c = rng.choice([-1.0, 0.5])
            x[1] *= c
            x[2] = x[2] * c
            x[3] = [(m * c, d) for m, d in x[3]]
        self.ctx.count("fault:operand-overwritten")

    def do_get_mat(self, rng, op):
        o = self.pick(rng)
        kw = self.kwargs(rng, o)
        dense = rng.random() < 0.5
        done, r = self.attempt(op, lambda: o.E.get_mat(dense=dense, **kw))
        if not done:
            return
        m = self.exponentof(o, kw)
        if dense and sp.issparse(r):
            raise Violation("wrong-format", "get_mat(dense=True) returned a sparse matrix")
        close(r.toarray() if sp.issparse(r) else r, la.expm(m), 1e-9 * np.exp(np.linalg.norm(m, 2)), "wrong-matrix", "get_mat(dense=%s)" % dense, 1.0)

    def exponentof(self, o, kw, shift=None):
        """a*(O+shift): the views transform O and a together, set_a replaces a of the transformed object."""
        m = o.f(np.asarray(o.exponent.mat(kw)))
        return o.a * (m + (0 if shift is None else shift) * np.eye(self.n))

    def do_rotate(self, rng, op):
        x = rng.choice([e for e in self.exponents])
        y = [z for z in self.operands if z[0] == "ham"]
        if not y:
            return
        y = rng.choice(y)
        a = self.scalar(rng)
        kw = {} if a == 1.0 else {"a": a}
        grid = None
        if rng.random() < 0.3:
            grid = (0.0, 1.0, 3, True)
            kw.update(start=0.0, stop=1.0, num=3)
        done, r = self.attempt(op, lambda: y[1].rotate_by(x.obj, generator=True, **kw))
        if not done:
            return
        m = a * x.mat({})
        for t, h in zip([1.0] if grid is None else points(grid), [r] if grid is None else r):
            U = la.expm(m * t)
            self.ham(h, lambda s: U.conj().T @ self.hamref(y, s) @ U, "rotate_by(generator=True)", scale=np.exp(2 * np.linalg.norm(m, 2)))

    def do_apply(self, rng, op):
        o = self.pick(rng)
        x = rng.choice(self.operands)
        how = rng.choice(["dot", "rdot", "sandwich"])
        kw = self.kwargs(rng, o)
        shift = rng.choice([None, None, None, 0.5, -1.0])
        arg, kind = x[1], x[0]
        if how == "sandwich" and kind in ("vec", "list", "wide"):
            if kind != "wide" or self.n != x[1].shape[1]:
                self.refused(lambda: o.E.sandwich(arg, **kw), "sandwich of something that is not a square matrix")
                return
        if how == "rdot" and kind == "wide":
            arg = arg.T
        m = self.exponentof(o, kw, shift)
        ts = [1.0] if o.grid is None else points(o.grid)
        scale = np.exp(2 * np.linalg.norm(m, 2) * max(abs(t) for t in ts)) * 4 * self.n
        Us = [la.expm(m * t) for t in ts]
        if kind == "ham":
            s, parts = x[2], list(x[3])

            def value(t):
                return s + sum(d.value(t) * p for p, d in parts)
        else:
            d = arg.toarray() if kind == "sparse" else np.array(arg)

            def value(t):
                return d

        def ref(i, t=0.0):
            U = Us[i]
            return U @ value(t) if how == "dot" else value(t) @ U if how == "rdot" else U.conj().T @ value(t) @ U
        what = "%s of a %s%s" % (how, kind, "" if shift is None else " with shift %s" % shift)
        frozen = [Frozen(operand=z[1].data if z[0] == "sparse" else np.asarray(z[1])) for z in self.operands if z[0] != "ham"]
        done, r = self.attempt(op, lambda: getattr(o.E, how)(arg, **(kw if shift is None else dict(kw, shift=shift))))
        for z in frozen:
            z.check(what)
        if not done:
            return

        def check(i, got, w):
            if kind == "ham":
                self.ham(got, lambda t: ref(i, t), w, scale=scale)
            else:
                if kind == "sparse" and not sp.issparse(got):
                    raise Violation("wrong-format", "%s: a sparse operand gave %s" % (w, type(got).__name__))
                close(got.toarray() if sp.issparse(got) else np.asarray(got), ref(i), 1e-10 * scale, "wrong-value", w, 1.0)

        def spoil(got):
            # the caller does what it likes with what it was given
            if kind == "ham":
                got *= 0.5
            elif sp.issparse(got):
                got.data[...] = 7
            else:
                got[...] = 7
        if o.grid is None:
            check(0, r, what)
            spoil(r)
        elif o.iterate:
            self.pending.append((Pending(iter(r), check, len(ts)), what, spoil))
        else:
            what += " on a grid"
            if kind in ("ham", "sparse"):
                if len(r) != len(ts):
                    raise Violation("wrong-grid", "%s: %d results for %d points" % (what, len(r), len(ts)))
                parts_ = [r[i] for i in range(len(ts))]
            else:
                full = np.array([ref(i) for i in range(len(ts))])
                want = full.transpose(1, 2, 0) if how == "sandwich" else full.T if how == "dot" else full
                close(np.asarray(r), want, 1e-10 * scale, "wrong-value", what, 1.0)
                parts_ = []
            for i, p in enumerate(parts_):
                check(i, p, what)
            for p in parts_:
                spoil(p)

    def do_advance(self, rng, op):
        if not self.pending:
            return
        i = rng.randrange(len(self.pending))
        p, what, spoil = self.pending[i]
        for _ in range(rng.choice([1, 1, 2, 6])):
            done, got = self.attempt(op, lambda: next(p.it, None), False)
            if not done:
                # an interrupted generator is finished
                del self.pending[i]
                return
            if got is None:
                if p.at != p.total:
                    raise Violation("iterator-too-short", "%s: %d results for %d points" % (what, p.at, p.total))
                del self.pending[i]
                return
            if p.at >= p.total:
                raise Violation("iterator-too-long", "%s: more than %d results" % (what, p.total))
            p.check(p.at, got, what + " (iterator, point %d)" % p.at)
            p.at += 1
            spoil(got)
            self.ctx.count("advanced")

    def do_refuse(self, rng, op):
        o = self.pick(rng)
        n = self.n
        k = rng.randrange(8)
        f, why = [
            (lambda: o.E.set_a([1.0, 2.0]), "a list as prefactor"),
            (lambda: o.E.set_iterate(1), "an iterate flag that is not a bool"),
            (lambda: o.E.set_grid(0.0, 1.0, num=2.5), "a number of points that is not an integer"),
            (lambda: o.E.set_grid(0.0, 1j, num=3), "a complex grid"),
            (lambda: o.E.dot(np.ones(n + 1)), "a vector of another size"),
            (lambda: o.E.rdot(np.ones((2, n + 2))), "a matrix of another size"),
            (lambda: exp_op(o.exponent.obj, num=3), "a number of points without a grid"),
            (lambda: exp_op(o.exponent.obj, iterate=True), "iterate without a grid"),
        ][k]
        self.refused(f, why)

    def refused(self, f, why):
        try:
            f()
        except (ValueError, TypeError):
            self.ctx.count("fault:refused-call")
            return
        raise Violation("accepted", "accepted: " + why)

    def finish(self):
        # whatever is still pending must finish correctly
        for p, what, spoil in self.pending:
            for got in p.it:
                if p.at >= p.total:
                    raise Violation("iterator-too-long", "%s: more than %d results" % (what, p.total))
                p.check(p.at, got, what + " (iterator, point %d)" % p.at)
                p.at += 1
            if p.at != p.total:
                raise Violation("iterator-too-short", "%s: %d results for %d points" % (what, p.at, p.total))
        self.attributes("end")


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(sc, ctx)
        for op in sc["ops"]:
            w.step(op)
            ctx.mix(64 * len(w.pool) + len(w.pending))
        w.finish()
    ctx.state(str(sc), w.nontrivial)
