"""P01: sparse matrix-vector kernels under the simulated OpenMP runtime."""
import numpy as np
from checks.util import Guarded, Frozen, close, rnd
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P01"
TREE = "sim"
NEED = ["_oputils"]
QUICK = (8000, 75)
THOROUGH = (60000, 3000)
SHRINK = {"scheds": 1, "n_row": 1, "n_col": 1, "nv": 1, "nnz": 0, "n": 1, "grant": 0}
RULE = ("seeded random matrix (format, index and value types, sparsity pattern), operand layouts, in-place mode and scalar, executed under "
        "several simulated thread teams and interleavings; non-trivial when a region ran with two or more simulated threads that were "
        "switched at least once; distinct by the hash of all scheduling decisions and the inputs")
REAL = ["_oputils extension compiled from /repo (csr.h, csc.h, dia.h, csrmv_merge.h, Cython dispatch)", "quspin.tools.matvec", "quspin.operators.hamiltonian.dot"]
STUB = ["OpenMP runtime (teams, loops, barriers, singles, atomics) replaced by the simulator"]

UP = {"f": "fdFD", "d": "dD", "F": "FD", "D": "D"}
LAYOUTS = ["C", "C", "C", "F", "step2", "step3", "neg", "padC", "padF", "bigC", "bigF"]


def gen(rng, tier):
    sc = {"fmt": rng.choice(["csr", "csr", "csc", "csc", "dia", "dia", "dense"]), "seed": rng.getrandbits(32)}
    big = rng.random() < 0.8
    sc["n_row"] = rng.choice([100, 101, 103, 110, 128, 150]) if big else rng.randint(1, 99)
    sc["square"] = rng.random() < 0.6
    sc["n_col"] = rng.choice([1, 7, 50, 99, 100, 130, 260]) if not sc["square"] else sc["n_row"]
    sc["mdt"] = rng.choice("ddDDfF")
    sc["xdt"] = rng.choice(UP[sc["mdt"]])
    sc["idx"] = rng.choice(["i4", "i4", "i8"])
    sc["pattern"] = rng.choice(["random", "random", "emptyrows", "onerow", "onecol", "band", "lastrow", "firstrow", "empty", "dup"])
    sc["nnz"] = rng.choice([0, 5, 60, 200, 500])
    sc["nv"] = rng.choice([0, 0, 0, 0, 1, 2, 3, 5])
    sc["xl"] = rng.choice(LAYOUTS)
    sc["yl"] = rng.choice(LAYOUTS + ["none"])
    sc["over"] = rng.random() < 0.5
    sc["a"] = rng.choice(["1", "1", "-2.5", "0", "c", "np"])
    sc["api"] = rng.choice(["func", "func", "_matvec", "matvec", "hamiltonian"])
    sc["bad"] = rng.choice(["dtype", "rows", "cols", "x"]) if rng.random() < 0.06 and sc["fmt"] != "dense" else ""
    sc["scheds"] = [gen_schedule(rng, 8) for _ in range(rng.randint(2, 4))]
    return sc


def setup():
    global matvec, get_matvec_function, _matvec, hamiltonian, sp
    import scipy.sparse as sp
    from quspin.tools.matvec import matvec, get_matvec_function, _matvec
    from quspin.operators import hamiltonian


def build_matrix(sc):
    rs = np.random.RandomState(sc["seed"])
    n, m, nnz = sc["n_row"], sc["n_col"], sc["nnz"]
    r = rs.randint(0, n, nnz)
    c = rs.randint(0, m, nnz)
    p = sc["pattern"]
    if p == "emptyrows":
        r = (r // 7) * 7
    elif p == "onerow":
        r[:] = rs.randint(0, n)
    elif p == "onecol":
        c[:] = rs.randint(0, m)
    elif p == "lastrow":
        r[: nnz // 2] = n - 1
    elif p == "firstrow":
        r[: nnz // 2] = 0
    elif p == "band":
        c = np.clip(r + rs.randint(-2, 3, nnz), 0, m - 1)
    elif p == "empty":
        r, c = r[:0], c[:0]
    v = rnd(rs, len(r), sc["mdt"])
    A = sp.coo_matrix((v, (r, c)), shape=(n, m))
    if p != "dup" or sc["fmt"] == "dia":
        A.sum_duplicates()
    if sc["fmt"] == "dia":
        if p not in ("band", "empty"):
            # a few full diagonals, possibly of a stored length different from the number of columns
            k = rs.choice(np.arange(-n + 1, m), size=min(n + m - 1, rs.randint(1, 7)), replace=False)
            if rs.randint(2):
                k[0] = 0
                k = np.unique(k)
                k = k[rs.permutation(len(k))]
            L = m if rs.randint(2) else rs.randint(1, m + 5)
            M = sp.dia_matrix((rnd(rs, (len(k), L), sc["mdt"]), k), shape=(n, m))
        else:
            M = A.todia()
        M.offsets = M.offsets.astype(sc["idx"])
        M.data = np.ascontiguousarray(M.data)
    elif sc["fmt"] == "dense":
        M = A.toarray()
    else:
        M = A.asformat(sc["fmt"]) if p != "dup" else dup_format(A, sc["fmt"])
        M.indices = M.indices.astype(sc["idx"])
        M.indptr = M.indptr.astype(sc["idx"])
        if rs.randint(2) and M.nnz:  # unsorted indices are legal
            for i in range(len(M.indptr) - 1):
                a, b = M.indptr[i], M.indptr[i + 1]
                if b - a > 1:
                    q = a + rs.permutation(b - a)
                    M.indices[a:b] = M.indices[q]
                    M.data[a:b] = M.data[q]
    D = dense(M)
    return M, D, rs


def dup_format(A, fmt):
    maj, mnr, n = (A.row, A.col, A.shape[0]) if fmt == "csr" else (A.col, A.row, A.shape[1])
    o = np.argsort(maj, kind="stable")
    ptr = np.concatenate([[0], np.cumsum(np.bincount(maj, minlength=n))]).astype("i4")
    cls = sp.csr_matrix if fmt == "csr" else sp.csc_matrix
    M = cls(A.shape, dtype=A.dtype)
    M.data, M.indices, M.indptr = A.data[o].copy(), mnr[o].astype("i4"), ptr
    return M


def dense(M):
    if isinstance(M, np.ndarray):
        return M.astype(complex)
    D = np.zeros(M.shape, complex)
    if M.format in ("csr", "csc"):
        for i in range(len(M.indptr) - 1):
            for k in range(M.indptr[i], M.indptr[i + 1]):
                if M.format == "csr":
                    D[i, M.indices[k]] += M.data[k]
                else:
                    D[M.indices[k], i] += M.data[k]
    else:
        for d, off in zip(M.data, M.offsets):
            for j in range(min(len(d), M.shape[1])):
                i = j - off
                if 0 <= i < M.shape[0]:
                    D[i, j] += d[j]
    return D


def execute(sc, ctx):
    M, D, rs = build_matrix(sc)
    n, m = M.shape
    xdt = np.dtype(sc["xdt"])
    tail = (sc["nv"],) if sc["nv"] else ()
    X = Guarded((m,) + tail, xdt, sc["xl"])
    X.a[...] = rnd(rs, (m,) + tail, xdt)
    a = {"1": 1.0, "-2.5": -2.5, "0": 0.0, "c": complex(0.5, -1.5), "np": np.float32(0.75)}[sc["a"]]
    if isinstance(a, complex) and xdt.kind != "c":
        a = -1.25
    if isinstance(a, complex) and sc["mdt"] in "fd":
        a = np.complex128(a)
    api = sc["api"]
    x = X.a
    y0 = rnd(rs, (n,) + tail, xdt)
    given = sc["yl"] != "none"
    prod = D.dot(x.astype(complex))
    tol = (2e-5 if xdt.char in "fF" or sc["mdt"] in "fF" else 1e-12)
    scale = np.abs(D).dot(np.abs(x)) * abs(a) + np.abs(y0) + 1e-3
    froz = {"x": X.raw}
    if not isinstance(M, np.ndarray):
        froz["data"] = M.data
        for f in ("indices", "indptr", "offsets"):
            if hasattr(M, f):
                froz[f] = getattr(M, f)
    else:
        froz["A"] = M
    froz = Frozen(**froz)
    if sc["bad"]:
        return refuse(sc, ctx, M, x, X, a)
    H = None
    if api == "hamiltonian":
        if n != m or sc["fmt"] == "dense":
            api = "func"
        else:
            H = hamiltonian([M.tocsr()], [[M.tocsr().astype(sc["mdt"]), lambda t, w: w * t, (2.0,)]], dtype=np.dtype(sc["mdt"]).type,
                            static_fmt=sc["fmt"],
                            check_herm=False, check_symm=False, check_pcon=False)
            t = 0.75
            prod = prod * (1 + 2.0 * t)
            scale = scale * (1 + 2.0 * t)
            if isinstance(a, complex) and sc["mdt"] in "fd":
                a = 0.5
    for s in sc["scheds"]:
        Y = None
        kw = {}
        if given:
            Y = Guarded((n,) + tail, xdt, sc["yl"])
            Y.a[...] = np.nan if sc["over"] else y0
            kw["out"] = Y.a
            kw["overwrite_out"] = sc["over"]
        what = "%s %s%dx%d matrix %s, x %s %s, out %s, overwrite %s, a=%r, %d threads%s" % (
            api, sc["fmt"], n, m, sc["mdt"], sc["xdt"], sc["xl"], sc["yl"], sc["over"], a, s["n"], " (%d granted)" % s["grant"] if s["grant"] else "")
        with ctx.schedule(s) as run:
            if api == "func":
                r = get_matvec_function(M)(M, x, a=a, **kw)
            elif api == "_matvec":
                r = _matvec(M, x, a=a, **kw)
            elif api == "matvec":
                r = matvec(M, x, a=a, **kw)
            else:
                r = H.dot(x, time=t, a=a, check=False, **kw)
        ctx.state("%s %s" % (run.hash, sc["seed"]), run.multi > 0 and run.switches > 0)
        want = a * prod
        if given and not sc["over"]:
            want = want + y0
        if given:
            if r is not Y.a:
                raise Violation("out-not-returned", "%s: the result is not the array passed as out" % what)
            Y.check(what)
        if np.asarray(r).dtype.char != xdt.char and not (sc["fmt"] == "dense" and not given):
            raise Violation("result-dtype", "%s: result has dtype %s" % (what, r.dtype))
        froz.check(what)
        X.check(what)
        close(r, want, tol, "wrong-product", what, scale=scale)
        if s["grant"] and run.multi:
            ctx.count("fault:team_shortfall")
        if s["dirty"] not in (0,):
            ctx.count("fault:dirty_thread_stack")


def refuse(sc, ctx, M, x, X, a):
    """Operands that do not fit together must be refused without touching memory."""
    n, m = M.shape
    tail = x.shape[1:]
    odt = {"f": "d", "d": "D", "F": "D", "D": "F"}[x.dtype.char] if sc["bad"] == "dtype" else x.dtype.char
    shape = (n,) + tail
    if sc["bad"] == "rows":
        shape = (n + 3,) + tail
    elif sc["bad"] == "cols":
        shape = (n,) + (tuple(t + 2 for t in tail) if tail else (2,))
    elif sc["bad"] == "x":
        x = np.concatenate([x, x])
    Y = Guarded(shape, odt, sc["yl"] if sc["yl"] != "none" else "C")
    Y.a[...] = 7
    before = Y.raw.copy()
    for s in sc["scheds"][:1]:
        with ctx.schedule(s):
            try:
                get_matvec_function(M)(M, x, out=Y.a, overwrite_out=sc["over"], a=1.0)
            except (TypeError, ValueError):
                ctx.count("fault:mismatched_operands")
                if not np.array_equal(before, Y.raw):
                    raise Violation("refused-but-written", "a refused product changed out (%s)" % sc["bad"])
                return
    raise Violation("mismatch-accepted", "%s product with a mismatched operand (%s) was not refused" % (sc["fmt"], sc["bad"]))
