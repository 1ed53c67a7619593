"""P04: operators on symmetry-reduced bases under the simulated OpenMP runtime."""
import cmath
import itertools
import random
import numpy as np
from checks.gbasis import (gen_basis, reference, construct, py_ints, to_states, full_maps, random_term, orbit_terms, map_term, dim, period)
from checks.util import close, rnd, Guarded, Frozen
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P04"
TREE = "sim"
NEED = ["hcb_core", "higher_spin_core", "boson_core", "spinless_fermion_core", "spinful_fermion_core", "general_basis_utils", "_oputils"]
QUICK = (4000, 75)
THOROUGH = (40000, 3000)
SHRINK = {"ops": 1, "n": 1, "grant": 0, "terms": 1, "nvec": 0}
RULE = ("seeded random lattice, site type, sector, symmetry maps and quantum numbers, a random operator summed over the symmetry group, and a random list of "
        "ways to apply it, each under its own simulated thread team and interleaving; non-trivial when an applying region ran with two or more simulated "
        "threads that were switched at least once; distinct by the hash of all scheduling decisions, the basis and the operator")
REAL = ["general basis extensions compiled from /repo (general_basis_op.h, general_basis_matrix.h, ref_state, op of every site type)",
        "quspin.basis.basis_general", "quspin.operators.hamiltonian", "quspin.operators.quantum_LinearOperator"]
STUB = ["OpenMP runtime replaced by the simulator"]

OPS = ["hamiltonian", "inplace", "inplace", "inplace", "braket", "braket", "Op", "linop", "shift", "shift", "braket_any"]


def gen(rng, tier):
    for _ in range(100):
        g = gen_basis(rng, maxdim=160)
        if g["kind"] == "sff" and not g["double"] and not g["Np"]:
            pass
        sc = {"g": g, "oseed": rng.getrandbits(31), "terms": rng.randint(1, 3), "N_p": rng.choice([None, None, 0, 1, 2, 3])}
        sc["make"] = gen_schedule(rng, 4)
        sc["ops"] = [{"op": rng.choice(OPS), "sched": gen_schedule(rng, 6), "dtype": rng.choice("DDDDFdf"), "vdt": rng.choice("DDdFf"),
                      "nvec": rng.choice([0, 0, 1, 2, 3]), "tr": rng.random() < 0.4, "cj": rng.random() < 0.4, "out": rng.random() < 0.5,
                      "a": rng.choice([1.0, 1.0, -0.5, 2.0]), "seed": rng.getrandbits(31), "order": rng.choice(["C", "F", "step"])} for _ in range(rng.randint(2, 4))]
        return sc


def setup():
    global hamiltonian, quantum_LinearOperator
    from quspin.operators import hamiltonian, quantum_LinearOperator


def conserving(g):
    return g["big"] or g["Np"] is not None and random.Random(g["seed"]).random() < 0.7


def make_terms(sc, g, nsites):
    """A list of operator strings whose sum commutes with the symmetries."""
    rng = random.Random("terms:%s" % sc["oseed"])
    maps = full_maps(g)
    reverse = any(j < 0 for m in maps for j in m)
    cons = conserving(g)
    terms = []
    tries = 0
    cap = 40 if g["big"] else 100
    while len(terms) == 0 or tries < sc["terms"]:
        tries += 1
        if tries > 30:
            break
        bos = g["kind"] == "boson" and g["sps"] > 2
        s, indx = random_term(rng, g, nsites, cons, diag_only=bos and reverse)
        if reverse:
            s = s.replace("n", "z")
            if bos:
                s = s.replace("+", "z").replace("-", "z")
        if len(indx) == 2 and s[0] != s[1] and rng.random() < 0.3:
            indx[1] = indx[0]
        J = rng.choice([1.0, -0.5, 2.0, complex(0.5, 1.0), complex(0, -1)])
        orb = orbit_terms([s, indx, J], maps, g["kind"] in ("sf", "sff"), cap)
        if orb is None or len(orb) > cap:
            continue
        terms += orb
    return terms


def user_term(g, t):
    """The way a user writes the term: spinful fermions have '|' between up and down."""
    s, indx, J = t
    if g["kind"] != "sff" or not g["simple"]:
        return [s, list(indx), J]
    N = g["N"]
    # move the operators on down sites to the right, with the sign of the exchange
    up = [(c, i) for c, i in zip(s, indx) if i < N]
    dn = [(c, i) for c, i in zip(s, indx) if i >= N]
    sign = 1
    for k, (c, i) in enumerate(zip(s, indx)):
        if i < N and c in "+-":
            sign *= (-1) ** sum(1 for cc, ii in zip(s[:k], indx[:k]) if ii >= N and cc in "+-")
    return ["".join(c for c, _ in up) + "|" + "".join(c for c, _ in dn), [i for _, i in up] + [i - N for _, i in dn], J * sign]


def core_term(g, t):
    return list(t)


def execute(sc, ctx):
    g = sc["g"]
    ref = reference(g)
    if not ref.unitary or not ref.commuting():
        ctx.count("skipped_not_a_representation")
        return
    terms = make_terms(sc, g, ref.N)
    if not terms:
        ctx.count("skipped_no_operator")
        return
    with ctx.schedule(sc["make"]):
        basis = construct(g)
        if basis.Ns > 0:
            basis.make(N_p=sc["N_p"])
    st = py_ints(basis.states)
    if basis.Ns <= 0:
        ctx.count("empty_sectors")
        return
    B = ref.B(st)
    full = sum(ref.op(s, i, J, g["pauli"]) for s, i, J in terms)
    comm = np.abs(full.dot(ref.P) - ref.P.dot(full)).max() if g["maps"] else 0
    H = B.conj().T.dot(full).dot(B)
    leak = None
    if comm > 1e-9:
        # the operator leaves the particle sector in a way the maps do not follow (cannot happen) or the harness is wrong
        ctx.count("skipped_not_symmetric")
        return
    real = np.abs(H.imag).max() < 1e-12
    uterms = [user_term(g, t) for t in terms]
    tag = "%s basis N=%d sps=%d sector %s, %d maps q=%s, N_p=%s, %d terms (first %s)" % (
        g["kind"], g["N"], g["sps"], g["Np"], len(g["maps"]), g["qs"], sc["N_p"], len(terms), uterms[0])
    for o in sc["ops"]:
        one(sc, ctx, g, ref, basis, st, B, H, real, terms, uterms, o, tag)


def all_real(g, ref, terms):
    """Whether a real dtype must be accepted.  (Phases that are real only up to rounding, of quantum numbers other than 0, may be refused.)"""
    return not any(g["qs"]) and all(t[0].count("y") == 0 and complex(t[2]).imag == 0 for t in terms)


def one(sc, ctx, g, ref, basis, st, B, H, real, terms, uterms, o, tag):
    rs = np.random.RandomState(o["seed"])
    dt = o["dtype"]
    if dt in "df" and not all_real(g, ref, terms):
        dt = dt.upper() if dt == "d" else "F"
        dt = {"D": "D", "F": "F"}[dt]
    dtype = np.dtype(dt)
    Ns = len(st)
    single = dt in "fF"
    tol = 3e-5 if single else 1e-10
    hs = np.abs(H).max() + 1.0
    what = "%s: %s dtype %s, %d threads" % (tag, o["op"], dt, o["sched"]["n"])
    op = o["op"]
    with ctx.schedule(o["sched"]) as run:
        if op == "hamiltonian":
            M = hamiltonian([[s, [[J] + list(i)]] for s, i, J in uterms], [], basis=basis, dtype=dtype.type,
                            check_herm=False, check_symm=False, check_pcon=False)
            close(M.toarray(), H, tol * hs, "wrong-hamiltonian", what)
        elif op == "Op":
            M = np.zeros((Ns, Ns), complex)
            for s, i, J in uterms:
                ME, r, c = basis.Op(s, i, J, dtype)
                if ME.dtype != dtype:
                    raise Violation("matrix-element-dtype", "%s: %s" % (what, ME.dtype))
                if len(r) and (r.min() < 0 or r.max() >= Ns or c.min() < 0 or c.max() >= Ns):
                    raise Violation("matrix-index-range", what)
                np.add.at(M, (r, c), ME)
            close(M, H, tol * hs, "wrong-matrix-elements", what)
        elif op == "linop":
            L = quantum_LinearOperator([[s, [[J] + list(i)]] for s, i, J in uterms], basis=basis, dtype=dtype.type,
                                       check_herm=False, check_symm=False, check_pcon=False)
            v = rnd(rs, (Ns,) if not o["nvec"] else (Ns, o["nvec"]), o["vdt"])
            f = Frozen(v=v)
            r = L.dot(v)
            f.check(what)
            t2 = max(tol, 3e-5 if o["vdt"] in "fF" else 0)
            close(np.asarray(r).reshape(v.shape), H.dot(v), t2 * hs * max(1, Ns) ** 0.5, "wrong-linear-operator", what)
        elif op == "inplace":
            inplace(ctx, g, basis, H, uterms, o, dtype, tol * hs, rs, what)
        elif op == "braket":
            k = rs.permutation(Ns)[: rs.randint(1, Ns + 1)]
            kets = basis.states[k].copy() if not g["big"] else to_states(basis, [st[x] for x in k])
            M = np.zeros((Ns, len(k)), complex)
            pos = {s: i for i, s in enumerate(st)}
            where = {st[x]: i for i, x in enumerate(k)}
            for s, i, J in uterms:
                red = bool(rs.randint(2))
                ME, bra, ket = basis.Op_bra_ket(s, i, J, dtype, kets, reduce_output=red)
                b, q = py_ints(bra), py_ints(ket)
                if not red and len(ME) != len(k):
                    raise Violation("bra-ket-length", "%s: %d elements for %d kets with reduce_output=False" % (what, len(ME), len(k)))
                if not len(ME) == len(b) == len(q):
                    raise Violation("bra-ket-length", what)
                for m, x, y in zip(ME, b, q):
                    if y not in where:
                        raise Violation("bra-ket-unknown-ket", "%s: ket %d was not asked for" % (what, y))
                    if m == 0:
                        continue
                    if not np.isfinite(m) or x not in pos:
                        raise Violation("bra-ket-outside-basis", "%s: <%d|%s%s|%d> = %r, bra not in the basis" % (what, x, s, i, y, m))
                    M[pos[x], where[y]] += m
            close(M, H[:, k], tol * hs, "wrong-bra-ket", what)
        elif op == "braket_any":
            any_kets(ctx, g, ref, basis, st, terms, uterms, dtype, tol, rs, what)
        else:
            shift(sc, ctx, g, ref, o, rs, what)
    ctx.state("%s %s %s" % (run.hash, g["seed"], sc["oseed"]), run.multi > 0 and run.switches > 0)
    if run.multi and o["sched"]["grant"]:
        ctx.count("fault:team_shortfall")
    if o["sched"]["dirty"]:
        ctx.count("fault:dirty_thread_stack")


def inplace(ctx, g, basis, H, uterms, o, dtype, tol, rs, what):
    Ns = H.shape[0]
    shape = (Ns,) if not o["nvec"] else (Ns, o["nvec"])
    v = rnd(rs, shape, o["vdt"])
    if o["order"] == "F":
        v = np.asfortranarray(v)
    elif o["order"] == "step":
        v = np.repeat(v, 2, axis=0)[::2]
    res = np.result_type(v.dtype, dtype)
    M = H.T if o["tr"] else H
    M = M.conj() if o["cj"] else M
    if res.char in "fF":
        tol = max(tol, 3e-5 * (np.abs(H).max() + 1))
    f = Frozen(v=v)
    kw = {}
    want = M.dot(v.astype(complex))
    ops = [list(t) for t in uterms]
    if o["out"]:
        out = rnd(rs, shape, res)
        want = want + out
        Y = Guarded(shape, res, "C")
        Y.a[...] = out
        kw["v_out"] = Y.a
    what += " transposed=%s conjugated=%s v %s %s out=%s" % (o["tr"], o["cj"], o["vdt"], o["order"], o["out"])
    r = basis.inplace_Op(v, ops, dtype, transposed=o["tr"], conjugated=o["cj"], **kw)
    f.check(what)
    r = np.asarray(r)
    if r.dtype != res:
        raise Violation("inplace-dtype", "%s: %s instead of %s" % (what, r.dtype, res))
    if o["out"]:
        Y.check(what)
        close(Y.a, want, tol * max(1, Ns) ** 0.5, "inplace-wrong-out", what)
    close(r.reshape(shape), want, tol * max(1, Ns) ** 0.5, "inplace-wrong-product", what)


def any_kets(ctx, g, ref, basis, st, terms, uterms, dtype, tol, rs, what):
    """Without symmetries Op_bra_ket takes any product state of the sector."""
    if g["maps"] or (g["kind"] == "sff" and not g["double"]):
        ctx.count("braket_any_not_applicable")
        return
    n = len(ref.ints)
    k = rs.randint(0, n, size=rs.randint(1, 12))
    kets = to_states(basis, [ref.ints[x] for x in k])
    for (s, i, J), (us, ui, uJ) in zip(terms, uterms):
        D = ref.op(s, i, J, g["pauli"])
        ME, bra, ket = basis.Op_bra_ket(us, ui, uJ, dtype, kets, reduce_output=False)
        if len(ME) != len(k):
            raise Violation("bra-ket-length", "%s: %d elements for %d kets" % (what, len(ME), len(k)))
        for m, x, y, kk in zip(ME, py_ints(bra), py_ints(ket), k):
            if y != ref.ints[kk]:
                raise Violation("bra-ket-unknown-ket", what)
            col = D[:, kk]
            got = np.zeros(n, complex)
            if m != 0:
                if x not in ref.ind:
                    raise Violation("bra-ket-outside-basis", what)
                got[ref.ind[x]] = m
            close(got, col, tol * (1 + np.abs(col).max()), "wrong-bra-ket", what)


def shift(sc, ctx, g, ref, o, rs, what):
    """An operator carrying momentum (and particles) from one sector to another."""
    if g["kind"] == "boson" and g["sps"] > 2 and any(j < 0 for m in g["maps"] for j in m):
        return
    rng = random.Random("shift:%s" % o["seed"])
    g2 = dict(g)
    maps = full_maps(g)
    pers = ref.pers
    g2["qs"] = [rng.choice([q, rng.randrange(T)]) for q, T in zip(g["qs"], pers)]
    N = ref.N
    s, indx = random_term(rng, g, N, True, nmax=2)
    reverse = any(j < 0 for m in maps for j in m)
    if reverse:
        s = s.replace("n", "z")
    elif g["Np"] is not None and not g["listed"] and g["kind"] != "sff" and rng.random() < 0.5:
        d = rng.choice([1, -1])
        n2 = g["Np"][0] + d
        if 0 <= n2 <= N * (g["sps"] - 1) and not g["big"]:
            g2["Np"] = [n2]
            s, indx = ("+" if d > 0 else "-"), [rng.randrange(N)]
    elif g["Np"] is not None and not g["listed"] and g["kind"] == "sff" and rng.random() < 0.5:
        n2 = g["Np"][0][0] - 1
        if n2 >= 0:
            g2["Np"] = [[n2, g["Np"][0][1]]]
            s, indx = "-", [rng.randrange(g["N"])]
    if dim(g2) > 160:
        return
    order = int(np.prod([1] + pers))
    if order > 60:
        return
    # sum over the group of character(g) U_g o U_g^dagger carries the difference of the quantum numbers
    terms = []
    ferm = g["kind"] in ("sf", "sff")
    for js in itertools.product(*[range(T) for T in pers]):
        t = [s, list(indx), 1.0]
        ph = 1.0
        for m, j, T, qa, qb in zip(maps, js, pers, g["qs"], g2["qs"]):
            for _ in range(j):
                t = map_term(t, m, ferm)
            ph *= cmath.exp(-2j * cmath.pi * (qb - qa) * j / T)
        terms.append([t[0], t[1], t[2] * ph])
    try:
        ref2 = reference(g2)
    except KeyError:
        return  # the maps do not preserve the new particle sector
    if not ref2.unitary:
        return
    b1 = construct(g)
    b2 = construct(g2)
    if b1.Ns <= 0 or b2.Ns <= 0:
        return
    s1, s2 = py_ints(b1.states), py_ints(b2.states)
    B1, B2 = ref.B(s1), ref2.B(s2)
    # both sectors inside the smallest common space: the union of the two lists of product states
    both = Union(ref, ref2)
    O = sum(both.op(a, b, J, g["pauli"]) for a, b, J in terms)
    F1, F2 = both.embed(ref, B1), both.embed(ref2, B2)
    P2 = both.embed(ref2, ref2.P)
    r1 = O.dot(both.embed(ref, ref.P))
    # must lie in the target sector, otherwise the operator does not connect the two (harness)
    res = r1 - P2.dot(both.embed(ref2, np.eye(len(ref2.ints))).T.dot(r1))
    inside = np.abs(both.embed(ref2, np.eye(len(ref2.ints))).T.dot(res)).max() if res.size else 0
    if inside > 1e-9:
        ctx.count("skipped_shift")
        return
    nv = o["nvec"]
    v = rnd(rs, (len(s1),) if not nv else (len(s1), nv), o["vdt"])
    want = F2.conj().T.dot(O).dot(F1).dot(v)
    f = Frozen(v=v)
    ut = [user_term(g, t) for t in terms]
    kw = {}
    r = b2.Op_shift_sector(b1, ut, v, **kw)
    f.check(what)
    tol = (1e-4 if o["vdt"] in "fF" else 1e-10) * (1 + np.abs(O).max()) * max(1, len(s1)) ** 0.5 * 4
    close(np.asarray(r).reshape(want.shape), want, tol, "wrong-shifted-state", "%s to sector %s q=%s, terms %s" % (what, g2["Np"], g2["qs"], ut[:2]))
    ctx.count("shifted")
    if o["out"]:
        out = np.zeros((len(s2), max(nv, 1)), dtype=np.asarray(r).dtype)
        b2.Op_shift_sector(b1, ut, v, v_out=out)
        close(out.reshape(want.shape), want, tol, "wrong-shifted-state-out", what)


class Union:
    def __init__(self, a, b):
        from checks.gbasis import Ref
        dig = sorted(set(a.dig) | set(b.dig))
        self.r = Ref(a.kind, a.N, a.sps, dig, [], [])

    def op(self, *a):
        return self.r.op(*a)

    def embed(self, ref, B):
        F = np.zeros((len(self.r.ints), B.shape[1]), complex)
        F[[self.r.ind[s] for s in ref.ints]] = B
        return F
