"""P05: states between a general basis and the product-state basis under the simulated OpenMP runtime."""
import itertools
import numpy as np
import scipy.sparse as sp
from checks.gbasis import gen_basis, reference, construct, py_ints, number, digits, sector_digits, to_states, full_maps, map_digits, fermion_sign
from checks.util import close, rnd, Frozen
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P05"
TREE = "sim"
NEED = ["hcb_core", "higher_spin_core", "boson_core", "spinless_fermion_core", "spinful_fermion_core", "general_basis_utils"]
QUICK = (2600, 60)
THOROUGH = (60000, 2400)
SHRINK = {"ops": 1, "n": 1, "grant": 0, "nvec": 0}
RULE = ("seeded random lattice, site type, sector, symmetry maps and quantum numbers and a random list of conversions, each under its own simulated thread "
        "team and interleaving; non-trivial when a converting region ran with two or more simulated threads that were switched at least once, or an output of "
        "the wrong kind was refused; distinct by the hash of all scheduling decisions and the basis")
REAL = ["general basis extensions compiled from /repo (general_basis_get_vec.h, general_basis_get_amp.h, general_basis_rep.h, general_basis_bitops.h)",
        "quspin.basis.basis_general"]
STUB = ["OpenMP runtime replaced by the simulator"]
OPS = ["from", "from", "from", "to", "to", "to", "proj", "rep", "rep", "norm", "amp", "amp", "amp", "index", "bits", "shape", "bits"]


def gen(rng, tier):
    sc = {"g": gen_basis(rng, maxdim=200), "make": gen_schedule(rng, 4)}
    sc["ops"] = [{"op": rng.choice(OPS), "sched": gen_schedule(rng, 6), "dt": rng.choice("DDDFdf"), "nvec": rng.choice([0, 0, 1, 2, 3]), "pcon": rng.random() < 0.5,
                  "sparse": rng.random() < 0.4, "layout": rng.choice(["C", "F", "step", "list"]), "mode": rng.randrange(8), "bad": rng.random() < 0.12,
                  "seed": rng.getrandbits(31)} for _ in range(rng.randint(2, 5))]
    return sc


def setup():
    pass


class Space:
    """The product-state space a vector is converted to: size and the row of each state of the reference."""

    def __init__(self, g, ref, pcon):
        single = g["Np"] is not None and not g["listed"]
        self.ok = False
        full = g["sps"] ** ref.N
        if pcon:
            if not single:
                return
            sec = sorted((number(d, ref.sps) for d in sector_digits(dict(g, double=True))), reverse=True)
            pos = {s: k for k, s in enumerate(sec)}
            self.n = len(sec)
            self.rows = [pos[s] for s in ref.ints]
        else:
            if full > 2000:
                return
            self.n = full
            self.rows = [full - 1 - s for s in ref.ints]
        self.ok = True

    def embed(self, B):
        F = np.zeros((self.n, B.shape[1]), complex)
        F[self.rows] = B
        return F


def execute(sc, ctx):
    g = sc["g"]
    ref = reference(g)
    if not ref.unitary or not ref.commuting():
        ctx.count("skipped_not_a_representation")
        return
    with ctx.schedule(sc["make"]):
        basis = construct(g)
    st = py_ints(basis.states)
    if not ref.ints:
        ctx.count("empty_sectors")
        return
    tag = "%s basis N=%d sps=%d sector %s%s, %d maps q=%s" % (g["kind"], g["N"], g["sps"], g["Np"], " listed" if g["listed"] else "", len(g["maps"]), g["qs"])
    B = ref.B(st)
    for k, o in enumerate(sc["ops"]):
        what = "%s, step %d %s, %d threads" % (tag, k, o["op"], o["sched"]["n"])
        rs = np.random.RandomState(o["seed"])
        refused = False
        with ctx.schedule(o["sched"]) as run:
            refused = globals()["do_" + o["op"]](ctx, g, ref, basis, st, B, o, rs, what)
        ctx.state("%s %s %s" % (run.hash, g["seed"], o["op"]), (run.multi > 0 and run.switches > 0) or bool(refused))
        if run.multi and o["sched"]["grant"]:
            ctx.count("fault:team_shortfall")
        ctx.count("op_" + o["op"])


def real_ok(g):
    return not any(g["qs"])


def vec_dtype(g, o):
    dt = o["dt"]
    return np.dtype(dt if dt in "DF" or real_ok(g) else dt.upper() if dt == "d" else "F")


def tols(dt, n):
    return (2e-5 if np.dtype(dt).char in "fF" else 1e-10) * max(1, n) ** 0.5 * 3


def lay(v, o):
    if o["layout"] == "F":
        return np.asfortranarray(v)
    if o["layout"] == "step":
        w = np.zeros((v.shape[0] * 2,) + v.shape[1:], v.dtype)[::2]
        w[...] = v
        return w
    return v


def convert(ctx, g, ref, basis, st, B, o, rs, what, to):
    space = Space(g, ref, o["pcon"])
    if not space.ok:
        ctx.count("skipped_space")
        return
    dt = vec_dtype(g, o)
    Ns = len(st)
    F = space.embed(B)
    if to:
        F = F.conj().T
    m = F.shape[1]
    v = lay(rnd(rs, (m,) if not o["nvec"] else (m, o["nvec"]), dt), o)
    what = "%s pcon=%s sparse=%s dtype %s shape %s" % (what, o["pcon"], o["sparse"], dt, v.shape)
    fn = basis.project_to if to else (basis.get_vec if o["mode"] % 2 else basis.project_from)
    if o["bad"]:
        w = rnd(rs, (m + 1,) + v.shape[1:], dt)
        if Ns > 0:
            try:
                fn(w, sparse=o["sparse"], pcon=o["pcon"])
            except ValueError:
                ctx.count("fault:wrong_length_vector")
                return True
            raise Violation("wrong-length-accepted", what)
    if Ns <= 0:
        r = fn(np.zeros((m,) if not o["nvec"] else (m, o["nvec"]), dt), sparse=o["sparse"], pcon=o["pcon"])
        if r.shape[0] != F.shape[0]:
            raise Violation("empty-sector-shape", "%s: %s" % (what, r.shape))
        return
    f = Frozen(v=v)
    arg = v.tolist() if o["layout"] == "list" and dt.char in "dD" else v
    r = fn(arg, sparse=o["sparse"], pcon=o["pcon"])
    f.check(what)
    if sp.issparse(r) != o["sparse"]:
        raise Violation("sparse-argument-ignored", what)
    want = F.dot(v)
    if o["sparse"]:
        r = r.toarray()
        if v.ndim == 1:
            want = want.reshape(-1, 1)
    if r.shape != want.shape:
        raise Violation("wrong-shape", "%s: %s instead of %s" % (what, r.shape, want.shape))
    if arg is v and r.dtype != dt:
        raise Violation("wrong-dtype", "%s: %s" % (what, r.dtype))
    close(r, want, tols(dt, m), "wrong-projected-vector", what)


def do_from(*a):
    return convert(*a, to=False)


def do_to(*a):
    return convert(*a, to=True)


def do_proj(ctx, g, ref, basis, st, B, o, rs, what):
    space = Space(g, ref, o["pcon"])
    dt = vec_dtype(g, o)
    if not space.ok:
        if o["pcon"] and g["listed"]:
            try:
                basis.get_proj(dt, pcon=True)
            except TypeError:
                ctx.count("fault:pcon_without_particle_sector")
                return True
            raise Violation("pcon-ignored", "%s: pcon=True gives the projector onto another space" % what)
        return
    if not st:
        P = basis.get_proj(dt, pcon=o["pcon"])
        if P.shape != (space.n, 0):
            raise Violation("wrong-shape", "%s: projector of an empty sector has shape %s" % (what, P.shape))
        return
    P = basis.get_proj(dt, pcon=o["pcon"])
    if P.dtype != dt:
        raise Violation("wrong-dtype", "%s: %s" % (what, P.dtype))
    close(P.toarray(), space.embed(B), 3e-6 if dt.char in "fF" else 1e-12, "wrong-projector", "%s pcon=%s dtype %s" % (what, o["pcon"], dt))


def some_states(ref, rs, k=12):
    n = len(ref.ints)
    return [int(x) for x in rs.randint(0, n, size=rs.randint(1, k))]


def do_rep(ctx, g, ref, basis, st, B, o, rs, what):
    idx = some_states(ref, rs, 30)
    ints = [ref.ints[i] for i in idx]
    s = to_states(basis, ints)
    keep = py_ints(s)
    want = [max(ref.ints[j] for j in np.flatnonzero(ref.orbit == ref.orbit[i])) for i in idx]
    m = o["mode"]
    rg, rsg = bool(m & 1), bool(m & 2)
    out = to_states(basis, [0] * len(ints)) if m & 4 else None
    if o["bad"] and m & 4:
        try:
            basis.representative(s, out=to_states(basis, [0] * (len(ints) + 1)))
        except TypeError:
            ctx.count("fault:wrong_length_output")
            return True
        raise Violation("wrong-length-accepted", what)
    r = basis.representative(s, out=out, return_g=rg, return_sign=rsg)
    if py_ints(s) != keep:
        raise Violation("input-modified", what)
    r = list(r) if isinstance(r, tuple) else ([] if r is None else [r])
    reps = out if out is not None else r.pop(0)
    if py_ints(reps) != want:
        raise Violation("wrong-representative", "%s: states %s" % (what, ints[:4]))
    maps = full_maps(g)
    used = sum(list(m) != list(range(len(m))) for m in maps)  # maps that do nothing may be left out
    if rg:
        G = r.pop(0)
        if G.shape[0] != len(ints) or not used <= G.shape[1] <= len(maps):
            raise Violation("wrong-shape", "%s: group elements %s" % (what, G.shape))
    if rsg:
        S = r.pop(0)
        if S.shape != (len(ints),):
            raise Violation("wrong-shape", "%s: signs %s" % (what, S.shape))
    if r:
        raise Violation("wrong-shape", "%s: %d results too many" % (what, len(r)))
    if rg:
        # the columns follow the basis' own order of the maps: one order must explain all states
        for order in itertools.permutations(range(len(maps)), G.shape[1]):
            bad = None
            for q, i in enumerate(idx):
                d, sign = list(ref.dig[i]), 1
                for k, times in zip(order, G[q]):
                    for _ in range(int(times)):
                        if ref.fermion:
                            sign *= fermion_sign(d, maps[k])
                        d = map_digits(d, maps[k], ref.sps)
                if number(d, ref.sps) != want[q]:
                    bad = Violation("wrong-group-element", "%s: %s applied to %d gives %d, not the representative %d" % (
                        what, list(G[q]), ints[q], number(d, ref.sps), want[q]))
                elif rsg and sign != S[q]:
                    bad = Violation("wrong-sign", "%s: state %d has sign %d, expected %d" % (what, ints[q], S[q], sign))
                if bad:
                    break
            if bad is None:
                break
        else:
            raise bad
    elif rsg and not ref.fermion:
        if not np.all(S == 1):
            raise Violation("wrong-sign", what)
    rr = basis.representative(reps)
    if py_ints(rr) != want:
        raise Violation("not-idempotent", what)


def do_norm(ctx, g, ref, basis, st, B, o, rs, what):
    idx = some_states(ref, rs)
    reps = [max(ref.ints[j] for j in np.flatnonzero(ref.orbit == ref.orbit[i])) for i in idx]
    pp = int(np.prod([1] + ref.pers, dtype=object))
    nr = ref.norms()
    want = [int(round(pp * pp * nr[ref.ind[r]])) for r in reps]
    if want and max(want) > 2 ** 53:
        return
    s = to_states(basis, reps)
    if o["mode"] & 1:
        dt = np.dtype([np.uint8, np.uint16, np.uint32, np.uint64][o["mode"] // 2])
        out = np.zeros(len(reps), dt)
        fits = max(want) <= np.iinfo(dt).max
        try:
            basis.normalization(s, out=out)
        except TypeError:
            if fits:
                raise Violation("sufficient-dtype-refused", "%s: %s holds %d" % (what, dt, max(want)))
            ctx.count("fault:normalization_overflow")
            return True
        if not fits:
            raise Violation("overflow-accepted", "%s: norm %d in %s" % (what, max(want), dt))
    else:
        out = np.atleast_1d(basis.normalization(s))
    if [int(x) for x in out] != want:
        raise Violation("wrong-normalisation", "%s: states %s have %s, expected %s" % (what, reps[:5], [int(x) for x in out][:5], want[:5]))


def do_amp(ctx, g, ref, basis, st, B, o, rs, what):
    if not st:
        return
    dt = vec_dtype(g, o)
    tol = 2e-5 if dt.char in "fF" else 1e-11
    orb = ref.orbit
    reps_of = {}
    pos = {int(orb[ref.ind[s]]): k for k, s in enumerate(st)}
    if o["mode"] & 1:
        # from the reduced basis to the full one: representatives
        k = rs.randint(0, len(st), size=rs.randint(1, 20))
        ints = [st[x] for x in k]
        want = np.array([B[ref.ind[st[x]], x] for x in k])
        s = to_states(basis, ints)
        mode = "representative"
    else:
        idx = some_states(ref, rs, 20)
        if o["mode"] & 2:
            idx = [i for i in idx if int(orb[i]) in pos]
            if not idx:
                return
        ints = [ref.ints[i] for i in idx]
        want = np.array([B[i, pos[int(orb[i])]] if int(orb[i]) in pos else 0 for i in idx])
        s = to_states(basis, ints)
        mode = "full_basis"
    what = "%s mode=%s dtype %s" % (what, mode, dt)
    a = None
    out = None
    if o["mode"] & 4:
        out = np.full(len(ints), 7, dtype=dt)
    if o["mode"] & 2:
        a = rnd(rs, (len(ints),), dt)
        a0 = a.copy()
    r = basis.get_amp(s, out=out, amps=a, mode=mode)
    close(np.atleast_1d(r), want, tol, "wrong-amplitude", "%s: states %s" % (what, ints[:4]))
    if out is not None:
        close(out, want, tol, "wrong-amplitude-out", what)
    if a is not None:
        w2 = a0 * want if mode == "representative" else a0 / want
        close(a, w2, tol * 100, "wrong-rescaled-amplitude", what)
    after = py_ints(s)
    if mode == "full_basis":
        reps = [max(ref.ints[j] for j in np.flatnonzero(orb == orb[ref.ind[x]])) for x in ints]
        if after != reps:
            raise Violation("wrong-representative", "%s: states %s became %s" % (what, ints[:4], after[:4]))
    elif after != ints:
        raise Violation("input-modified", what)


def do_index(ctx, g, ref, basis, st, B, o, rs, what):
    if not st or g["kind"] == "sff":
        return
    inside = set(st)
    for k in rs.randint(0, len(st), size=3):
        k = int(k)
        v = st[k] if o["mode"] & 1 or g["big"] else basis.states[k]
        if int(basis.index(v)) != k:
            raise Violation("wrong-index", "%s: index of states[%d] is %s" % (what, k, basis.index(v)))
        d = digits(st[k], ref.N, ref.sps)
        txt = "".join(map(str, d))
        if int(basis.index(txt)) != k:
            raise Violation("wrong-index", "%s: index of %r is %s, expected %d" % (what, txt, basis.index(txt), k))
        if int(basis.state_to_int(txt)) != st[k]:
            raise Violation("wrong-integer", "%s: %r is %s" % (what, txt, basis.state_to_int(txt)))
        if ref.N <= 64:
            got = basis.int_to_state(v, bracket_notation=False)
            if got != txt:
                raise Violation("wrong-string", "%s: %d is %r, expected %r" % (what, st[k], got, txt))
            if basis.int_to_state(v) != "|" + " ".join(txt) + ">":
                raise Violation("wrong-string", "%s: %r" % (what, basis.int_to_state(v)))
    for i in rs.randint(0, len(ref.ints), size=3):
        s = ref.ints[int(i)]
        if s in inside:
            continue
        try:
            got = basis.index(s)
        except ValueError:
            ctx.count("fault:state_not_in_basis")
            return True
        raise Violation("wrong-index", "%s: index(%d) is %s although the state is not in the basis" % (what, s, got))


def do_bits(ctx, g, ref, basis, st, B, o, rs, what):
    from quspin.basis import bitwise_not, bitwise_and, bitwise_or, bitwise_xor, bitwise_leftshift, bitwise_rightshift
    bits = {"u": basis.dtype.itemsize * 8, "V": 256}[basis.dtype.kind]
    full = (1 << bits) - 1
    n = rs.randint(1, 9)
    def r():
        return sum(int(rs.randint(0, 1 << 16)) << (16 * k) for k in range(bits // 16)) & full >> (int(rs.randint(0, bits)) if rs.randint(2) else 0)
    x = [r() for _ in range(n)]
    y = [r() for _ in range(n)]
    sh = [int(rs.randint(0, bits)) for _ in range(n)]
    where = rs.randint(0, 2, size=n).astype(bool) if o["mode"] & 1 else None
    op = ["not", "and", "or", "xor", "left", "right"][rs.randint(6)]
    fn = {"not": bitwise_not, "and": bitwise_and, "or": bitwise_or, "xor": bitwise_xor, "left": bitwise_leftshift, "right": bitwise_rightshift}[op]
    py = {"not": lambda a, b: ~a & full, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
          "left": lambda a, b: (a << b) & full, "right": lambda a, b: a >> b}[op]
    second = sh if op in ("left", "right") else y
    X, Y = to_states(basis, x), to_states(basis, y)
    args = [X] if op == "not" else [X, np.array(sh, dtype=[np.uint32, np.uint16, np.uint8, np.uint64][o["mode"] // 2]) if op in ("left", "right") else Y]
    if op in ("left", "right") and args[1].dtype.itemsize == 1 and max(sh) > 255:
        return
    old = [r() for _ in range(n)]
    out = to_states(basis, old) if o["nvec"] else None
    if where is not None and out is None:
        old = [0] * n
    res = fn(*args, out=out, where=where)
    want = [py(a, b) if where is None or where[i] else old[i] for i, (a, b) in enumerate(zip(x, second))]
    if py_ints(X) != x or py_ints(Y) != y:
        raise Violation("input-modified", "%s %s" % (what, op))
    if out is not None and py_ints(out) != want or py_ints(res) != want:
        k = [a == b for a, b in zip(py_ints(res), want)].index(False) if py_ints(res) != want else 0
        raise Violation("wrong-bits:" + op, "%s %s of %x and %x on %d bits: %x, expected %x, where=%s" % (
            what, op, x[k], second[k], bits, py_ints(res)[k], want[k], None if where is None else where[k]))


def do_shape(ctx, g, ref, basis, st, B, o, rs, what):
    """Converting there and back, and the overlap of converted states."""
    space = Space(g, ref, o["pcon"])
    if not space.ok or not st:
        return
    dt = vec_dtype(g, o)
    v = rnd(rs, (len(st),) if not o["nvec"] else (len(st), o["nvec"]), dt)
    u = basis.project_from(v, sparse=False, pcon=o["pcon"])
    w = basis.project_to(u, sparse=False, pcon=o["pcon"])
    close(w, v, tols(dt, len(st)), "not-inverse", "%s: project_to(project_from(v)), dtype %s" % (what, dt))
