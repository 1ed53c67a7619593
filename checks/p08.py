"""P08: block_diag_hamiltonian under every order in which the driving functions are hashed and the blocks are given."""
import numpy as np
from checks.spinref import dense, sector, chain_terms
from checks.util import close
from sim.core import Violation

ID = "P08"
TREE = "plain"
NEED = None
QUICK = (2500, 70)
THOROUGH = (60000, 3000)
SHRINK = {"blocks": 1, "L": 2, "dyn": 0, "static": 0}
RULE = ("seeded chain, list of symmetry blocks (any order, complete or not, with zero-dimensional sectors of the drive) and driving functions whose hashes - and so the order "
        "of every set and dictionary they are put into - are chosen by the simulator; non-trivial when two or more driving functions and two or more blocks are present; "
        "distinct by scenario and hash assignment")
REAL = ["quspin.tools.block_tools.block_diag_hamiltonian", "quspin.operators.hamiltonian", "quspin.basis.spin_basis_1d", "quspin.basis.spin_basis_general"]
STUB = ["hash values of the driving functions: chosen by the simulator", "driving functions that fail at a chosen call"]


def setup():
    global block_diag_hamiltonian, spin_basis_1d, spin_basis_general
    from quspin.tools.block_tools import block_diag_hamiltonian
    from quspin.basis import spin_basis_1d, spin_basis_general


class Boom(Exception):
    pass


class Drive:
    left = 0

    def __init__(self, k, h):
        self.k, self.h = k, h
        self.__name__ = "drive%d" % k

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __call__(self, t, *args):
        if Drive.left > 0:
            Drive.left -= 1
            if Drive.left == 0:
                raise Boom("drive")
        return self.value(t, *args)

    def value(self, t, *args):
        return (self.k + 1) * 0.37 * np.cos((1 + self.k) * t) + sum((j + 2) * a for j, a in enumerate(args)) * t


def gen(rng, tier):
    L = rng.choice([2, 3, 3, 4, 4, 5])
    cons = rng.choice(["N", "Z", "", "N"])
    kind = rng.choice({"N": ["N", "Nk", "Npcon", "k", "p"], "Z": ["z", "k", "kz", "p", "gen"], "": ["k", "p", "gen"]}[cons])
    if kind == "N":
        blocks = [{"Nup": n} for n in range(L + 1)]
    elif kind == "Npcon":
        n = rng.randint(1, L - 1)
        blocks = [{"Nup": n, "kblock": k} for k in range(L)]
    elif kind == "Nk":
        blocks = [{"Nup": n, "kblock": k} for n in range(L + 1) for k in range(L)]
    elif kind == "k":
        blocks = [{"kblock": k} for k in range(L)]
    elif kind == "p":
        blocks = [{"pblock": 1}, {"pblock": -1}]
    elif kind == "z":
        blocks = [{"zblock": 1}, {"zblock": -1}]
    elif kind == "kz":
        blocks = [{"kblock": k, "zblock": z} for k in range(L) for z in (1, -1)]
    else:
        blocks = [{"t": k} for k in range(L)]
    rng.shuffle(blocks)
    if rng.random() < 0.3:
        blocks = blocks[: rng.randint(1, len(blocks))]
    dyn = []
    nf = rng.choice([0, 1, 2, 3, 4, 5])
    for _ in range(nf):
        t = chain_terms(rng, L, cons)
        if rng.random() < 0.3 and cons != "N":
            # a term that vanishes in some of the sectors
            t = t + [[t[0][0], [[-x[0]] + x[1:] for x in t[0][1]]]] if rng.random() < 0.3 else t
        dyn.append({"f": rng.randint(0, 3), "args": rng.choice([[], [], [0.5], [1.5], [0.5, 2.0], [2]]), "terms": t})
    static = sum([chain_terms(rng, L, cons) for _ in range(rng.randint(0, 2))], [])
    return {"L": L, "kind": kind, "blocks": blocks, "dyn": dyn, "static": static, "hashes": [rng.choice([rng.getrandbits(61), i, 8 * i + 3, -2 - i]) for i in range(4)],
            "get_proj": rng.random() < 0.7, "dtype": rng.choice(["D", "D", "D", "F"]), "common": rng.random() < 0.3, "raise_at": rng.choice([0, 0, 0, 0, rng.randint(1, 12)]),
            "cseed": rng.getrandbits(40)}


def execute(sc, ctx):
    L = sc["L"]
    hs = list(sc["hashes"])
    for i in range(4):
        while hs[i] in hs[:i]:
            hs[i] += 1
    drives = [Drive(k, hs[k]) for k in range(4)]
    Drive.left = 0
    static = [list(x) for x in sc["static"]]
    dynamic = [t + [drives[d["f"]], list(d["args"])] for d in sc["dyn"] for t in d["terms"]]
    pcon = sc["kind"] == "Npcon"
    rows = sector(L, sc["blocks"][0]["Nup"]) if pcon else np.arange(2 ** L)
    kw = {"get_proj_kwargs": {"pcon": True}} if pcon else {}
    gen_ = sc["kind"] == "gen"
    blocks = [dict(b) for b in sc["blocks"]]
    if gen_:
        T = (np.arange(L) + 1) % L
        blocks = [{"kb": (T, b["t"])} for b in blocks]
    con = spin_basis_general if gen_ else spin_basis_1d
    args = dict(basis_kwargs={})
    if sc["common"]:
        args["basis_kwargs"] = {"pauli": True} if not gen_ else {"pauli": 1}
    dt = {"D": np.complex128, "F": np.complex64}[sc["dtype"]]
    what = "L=%d %s, %d blocks, drives %s" % (L, sc["kind"], len(blocks), [(d["f"], d["args"]) for d in sc["dyn"]])
    full = [(d, dense(L, d["terms"])[np.ix_(rows, rows)]) for d in sc["dyn"]]
    H0 = dense(L, static)[np.ix_(rows, rows)]
    sizes = []
    for b in blocks:
        sizes.append(con(L, **b).Ns)
    nz = [i for i, s in enumerate(sizes) if s]
    if len(nz) != len(sizes):
        blocks = [blocks[i] for i in nz]
        sizes = [sizes[i] for i in nz]
    if not blocks:
        return
    n = sum(sizes)

    def build():
        return block_diag_hamiltonian([dict(b) for b in blocks], static, dynamic, con, (L,), dt, check_symm=False, check_herm=False, check_pcon=False,
                                      get_proj=sc["get_proj"], **args, **kw)
    if sc["raise_at"] and dynamic:
        Drive.left = sc["raise_at"]
        try:
            r = build()
        except Boom:
            ctx.count("fault:driving_function_failed")
            Drive.left = 0
            r = build()
        Drive.left = 0
    else:
        r = build()
    tol = 1e-9 if dt is np.complex128 else 2e-4
    P = None
    if sc["get_proj"]:
        P, H = r
        P = P.toarray()
    else:
        H = r
    # the projector is built here from the single blocks
    Q = [con(L, **b).get_proj(np.complex128, **kw.get("get_proj_kwargs", {})).toarray() for b in blocks]
    W = np.hstack(Q)
    if W.shape != (len(rows), n):
        raise Violation("projector-shape", what)
    close(W.conj().T.dot(W), np.eye(n), 1e-9, "projector-not-isometric", what)
    if P is not None:
        close(P, W, tol, "wrong-projector", what)
    if H.get_shape != (n, n) and H.shape != (n, n):
        raise Violation("wrong-size", "%s: %s for blocks of %s" % (what, H.shape, sizes))
    for t in (0.0, 0.41, -1.3, 2.0):
        ref = H0 + sum(drives[d["f"]].value(t, *d["args"]) * M for d, M in full)
        want = W.conj().T.dot(ref).dot(W)
        got = H.toarray(time=t)
        scale = max(1.0, np.abs(want).max())
        close(np.asarray(got), want, tol * scale, "wrong-block-hamiltonian", "%s at t=%s" % (what, t))
        e = np.cumsum([0] + sizes)
        off = np.array(got)
        for i in range(len(sizes)):
            off[e[i]:e[i + 1], e[i]:e[i + 1]] = 0
        if np.abs(off).max() > 0:
            raise Violation("not-block-diagonal", what)
        v = np.exp(1j * np.arange(n))
        close(H.dot(v, time=t), want.dot(v), tol * scale * n, "wrong-product", "%s at t=%s" % (what, t))
    ctx.count("blocks", len(blocks))
    ctx.count("drives", len({(d["f"], tuple(d["args"])) for d in sc["dyn"]}))
    ctx.count("steps", len(blocks) * (1 + len(dynamic)))
    ctx.count("fault:hash_order_chosen")
    ctx.state("%s" % (sorted(sc.items(), key=str),), len(blocks) > 1 and len({(d["f"], tuple(d["args"])) for d in sc["dyn"]}) > 1)
