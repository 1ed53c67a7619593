"""P03: construction of symmetry-reduced bases under the simulated OpenMP runtime."""
import numpy as np
from checks.gbasis import gen_basis, reference, construct, py_ints, number, sector_digits, to_states, full_maps
from checks.util import close
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P03"
TREE = "sim"
NEED = ["hcb_core", "higher_spin_core", "boson_core", "spinless_fermion_core", "spinful_fermion_core", "general_basis_utils"]
QUICK = (2600, 75)
THOROUGH = (60000, 3000)
SHRINK = {"steps": 1, "N": 1, "maps": 0, "qs": 0, "n": 1, "grant": 0}
RULE = ("seeded random lattice, site type, particle sectors, commuting symmetry maps and quantum numbers; the construction and every rebuild run "
        "under their own simulated thread team and interleaving; non-trivial when the constructing region ran with two or more simulated threads that "
        "were switched at least once, or when an estimate of the block size had to be refused; distinct by the hash of all scheduling decisions and the basis")
REAL = ["general basis extensions compiled from /repo (make_general_basis.h, check_state, map_state of every site type)", "quspin.basis.basis_general"]
STUB = ["OpenMP runtime replaced by the simulator"]


def gen(rng, tier):
    sc = {"g": gen_basis(rng, maxdim=300)}
    sc["steps"] = []
    for i in range(rng.randint(1, 3)):
        sc["steps"].append({
            "op": rng.choice(["new", "new", "late", "late", "remake", "blocks"]) if i else rng.choice(["new", "late", "late"]),
            "est": rng.choice([None, "exact", "exact", "less", "less", "one", "more"]),
            "N_p": rng.choice([None, None, 0, 1, 2, 5]),
            "sched": gen_schedule(rng, 6)})
    sc["probe"] = rng.getrandbits(31)
    return sc


def setup():
    pass


def check(basis, ref, want, g, what, probe):
    st = py_ints(basis.states)
    if basis.Ns != len(want):
        raise Violation("wrong-size", "%s: Ns=%d, the sector has %d states" % (what, basis.Ns, len(want)))
    if len(st) != max(basis.Ns, 0):
        raise Violation("states-and-size-differ", "%s: %d states listed, Ns=%d" % (what, len(st), basis.Ns))
    at = {}
    for k, o in enumerate(want):
        for j in o:
            at[ref.ints[j]] = k
    got = [at.get(s, -1) for s in st]
    if -1 in got:
        raise Violation("state-outside-sector", "%s: state %d is not in the sector" % (what, st[got.index(-1)]))
    if len(set(got)) != len(got):
        raise Violation("orbit-twice", "%s: two listed states belong to one orbit" % what)
    if any(a <= b for a, b in zip(st, st[1:])):
        raise Violation("not-sorted", "%s: the states are not in descending order" % what)
    if basis.Ns:
        r = np.random.RandomState(probe)
        for k in r.randint(0, basis.Ns, size=2):
            s = basis.states[k]
            if g["kind"] != "sff":
                i = basis.index(st[k] if np.asarray(s).dtype.kind != "V" else s)
                if int(i) != k:
                    raise Violation("index-of-state", "%s: index(states[%d]) is %s" % (what, k, i))
    norms(basis, ref, st, g, what)
    return st


def norms(basis, ref, st, g, what):
    """The stored normalisations, through the projector onto the sector they define."""
    if not st:
        return
    single = g["Np"] is not None and not g["listed"]
    full = g["sps"] ** ref.N
    B = ref.B(st)
    if single and (g["maps"] or g["double"]):
        sec = sorted((number(d, ref.sps) for d in sector_digits(dict(g, double=True))), reverse=True)
        pos = {s: k for k, s in enumerate(sec)}
        n = len(sec)
        rows = [pos[s] for s in ref.ints]
    elif full <= 2000:
        n = full
        rows = [full - 1 - s for s in ref.ints]
        single = False
    else:
        return
    F = np.zeros((n, B.shape[1]), complex)
    F[rows] = B
    Q = basis.get_proj(np.complex128, pcon=single)
    close(Q.toarray(), F, 1e-10, "wrong-normalisation", what + ": projector onto the sector")


def execute(sc, ctx):
    g = sc["g"]
    ref = reference(g)
    if not ref.unitary or not ref.commuting():
        ctx.count("skipped_not_a_representation")
        return
    want = ref.orbits()
    basis = None
    made = False
    tag = "%s basis N=%d sps=%d sector %s%s, %d maps q=%s" % (g["kind"], g["N"], g["sps"], g["Np"], " listed" if g["listed"] else "", len(g["maps"]), g["qs"])
    for k, st in enumerate(sc["steps"]):
        n = len(want)
        est = {None: None, "exact": n, "less": n - 1, "one": 1, "more": n + 37}[st["est"]]
        if est is not None and est <= 0:
            est = 1
        what = "%s, step %d %s(est=%s, N_p=%s), %d threads" % (tag, k, st["op"], est, st["N_p"], st["sched"]["n"])
        refused = False
        with ctx.schedule(st["sched"]) as run:
            op = st["op"]
            if op in ("remake", "blocks") and not made:
                op = "late"
            if op == "new":
                kw = {} if est is None or not g["maps"] else {"Ns_block_est": est}
                basis = construct(g, **kw)
                made = True
            elif op == "late":
                kw = {} if est is None or not g["maps"] else {"Ns_block_est": est}
                b = construct(g, make_basis=False, **kw)
                try:
                    b.make(Ns_block_est=est, N_p=st["N_p"])
                    basis, made = b, True
                except ValueError as e:
                    if "too low" not in str(e) and "estimate" not in str(e):
                        raise
                    refused = True
                    if not (kw and est < n):
                        raise Violation("sufficient-estimate-refused", "%s: the sector has %d states, %s" % (what, n, e))
                    ctx.count("fault:estimate_too_small")
                    b.make(Ns_block_est=n + 5)
                    basis, made = b, True
                else:
                    if kw and est < n:
                        raise Violation("small-estimate-accepted", "%s: the sector has %d states, basis has %d" % (what, n, b.Ns))
            elif op == "remake":
                basis.make(Ns_block_est=est, N_p=st["N_p"])
            else:
                basis.make_basis_blocks(N_p=st["N_p"])
            states = check(basis, ref, want, g, what, sc["probe"])
        ctx.state("%s %s" % (run.hash, g["seed"]), (run.multi > 0 and run.switches > 0) or refused)
        if run.multi and st["sched"]["grant"]:
            ctx.count("fault:team_shortfall")
        if n == 0:
            ctx.count("empty_sectors")
