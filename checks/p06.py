"""P06: bases defined by the callbacks of the user, under the simulated OpenMP runtime."""
import cmath
import gc
import itertools
import math
import random
import numpy as np
import scipy.sparse as sp
from checks.gbasis import Ref, chain_maps, period, map_digits, fermion_sign, number, digits, compositions
from checks.util import close, rnd, Frozen, Guarded
from sim.core import Violation
from sim.omp import gen_schedule

ID = "P06"
TREE = "sim"
NEED = ["user_core", "general_basis_utils", "_oputils"]
QUICK = (2600, 60)
THOROUGH = (60000, 2400)
SHRINK = {"ops": 1, "n": 1, "grant": 0, "nvec": 0, "terms": 1}
RULE = ("seeded random site type, lattice, numbering of the sites, particle sectors, constraint, commuting symmetry maps and quantum numbers, all expressed as "
        "compiled callbacks with argument arrays, and a random list of uses, each under its own simulated thread team and interleaving; non-trivial when a "
        "region ran with two or more simulated threads that were switched at least once, or when a faulty callback or operand had to be reported; distinct by "
        "the hash of all scheduling decisions and the basis")
REAL = ["user_core extension compiled from /repo (user_basis_core.h and the general basis headers)", "quspin.basis.user", "quspin.operators.hamiltonian",
        "quspin.operators.quantum_LinearOperator", "callbacks compiled by numba"]
STUB = ["OpenMP runtime replaced by the simulator"]

KINDS = ["spin", "boson", "fermion", "clock"]
OPSTR = {"spin": "+-zI", "boson": "+-nI", "fermion": "+-nI", "clock": "XZpI"}
USES = ["new", "hamiltonian", "hamiltonian", "Op", "linop", "linop", "braket", "braket", "from", "from", "to", "proj", "rep", "norm", "amp", "amp", "index",
        "shift", "shift", "copy", "fail", "refuse", "collect"]


# ------------------------------------------------------------------ scenarios
def gen(rng, tier):
    for _ in range(1000):
        g = gen_basis(rng)
        if g is not None:
            break
    sc = {"g": g, "make": gen_schedule(rng, 5), "oseed": rng.getrandbits(31), "terms": rng.randint(1, 3)}
    sc["ops"] = [{"op": rng.choice(USES), "sched": gen_schedule(rng, 6), "dt": rng.choice("DDDFdf"), "vdt": rng.choice("DDdFf"), "nvec": rng.choice([0, 0, 1, 2, 3]),
                  "pcon": rng.random() < 0.5, "sparse": rng.random() < 0.4, "layout": rng.choice(["C", "F", "step"]), "N_p": rng.choice([None, None, 0, 1, 2, 5]),
                  "est": rng.choice([None, None, "exact", "less", "one", "more"]), "late": rng.random() < 0.4, "mode": rng.randrange(8),
                  "out": rng.random() < 0.5, "a": rng.choice([1.0, 1.0, -0.5, 2.0]),
                  "seed": rng.getrandbits(31)} for _ in range(rng.randint(2, 5))]
    return sc


def gen_basis(rng):
    kind = rng.choice(KINDS)
    sps = {"spin": rng.choice([2, 2, 3, 4]), "boson": rng.choice([2, 3, 4]), "fermion": 2, "clock": rng.choice([2, 3, 3, 4, 5])}[kind]
    g = {"kind": kind, "sps": sps, "bits": rng.choice([32, 32, 64]), "lsb": rng.random() < 0.4, "seed": rng.getrandbits(31)}
    big = rng.random() < 0.12
    if big:
        top = int(g["bits"] / math.log2(sps) + 1e-9)
        g["N"] = N = rng.choice([top, top, top - 1, top - rng.randint(0, 5)])
    else:
        g["N"] = N = rng.randint(1 if rng.random() < 0.1 else 2, {2: 8, 3: 5, 4: 4, 5: 3}[sps])
    g["big"] = big
    # classes of sites that count their own particles
    nc = 1 if rng.random() < 0.6 or N < 2 else 2
    g["cls"] = [0] * N if nc == 1 else rng.choice([[i % 2 for i in range(N)], [int(i >= N // 2) for i in range(N)], [rng.randrange(2) for i in range(N)]])
    g["tuple"] = nc == 2 or rng.random() < 0.3
    sec = rng.choice(["none", "one", "one", "list"]) if not big else rng.choice(["one", "one", "list"])
    tops = [(sps - 1) * g["cls"].count(c) for c in range(nc)]
    pool = list(itertools.product(*[range(min(t, 2 if big else 99) + 1) for t in tops]))
    if sec == "none":
        g["Np"] = None
    else:
        g["Np"] = [list(x) for x in rng.sample(pool, 1 if sec == "one" else min(len(pool), rng.randint(1, 3)))]
    g["listed"] = sec == "list"
    # symmetries
    g["maps"] = []
    if rng.random() < 0.85 and N > 1:
        if kind == "clock" and rng.random() < 0.5:
            ms = [["rot", rng.choice([1, 1, sps - 1])]] + ([m for m in chain_maps(rng, N, False)] if rng.random() < 0.6 else [])
        elif kind == "clock" and rng.random() < 0.2:
            ms = [["sub", [int(rng.random() < 0.5) for _ in range(N)]]]
        else:
            ms = chain_maps(rng, N, kind != "fermion" or rng.random() < 0.2)
        if kind == "fermion" and any(j < 0 for m in ms for j in m):
            ms = [[-(i + 1) for i in range(N)]]
        g["maps"] = ms
    rng.shuffle(g["maps"])
    pers = [map_period(m, sps) for m in g["maps"]]
    if big and np.prod([1] + pers, dtype=float) > 2000:
        return None
    g["qs"] = [rng.choice([0, 0, 0, rng.randrange(T), rng.randrange(-T, T)]) for T in pers]
    g["order"] = rng.sample(range(len(pers)), len(pers)) if rng.random() < 0.4 else None
    g["constraint"] = rng.random() < 0.35
    g["flag"] = rng.choice([1, 1, 1, 2, 256, 3])
    g["full"] = rng.random() < 0.75
    g["unsorted"] = rng.random() < 0.1
    n = len(sector(g, cap=500))
    if n > 400 or n < 1:
        return None
    if big:
        g["constraint"] = g["constraint"] and rng.random() < 0.3
    try:
        reference(g)
    except KeyError:
        return None
    return g


def map_period(m, sps):
    if m[0] == "rot":
        return sps // math.gcd(sps, m[1])
    if m[0] == "sub":
        return sps if any(m[1]) else 1
    return period(m)


def sector(g, cap=10 ** 9):
    """Digit tuples (most significant first) of the particle sectors."""
    N, sps = g["N"], g["sps"]
    if g["Np"] is None:
        return list(itertools.islice(itertools.product(range(sps), repeat=N), cap))
    out = []
    sites = [[i for i in range(N) if g["cls"][i] == c] for c in range(max(g["cls"]) + 1)]
    for n in g["Np"]:
        part = [compositions(len(s), sps, k) for s, k in zip(sites, n)]
        for c in itertools.product(*[list(itertools.islice(p, cap)) for p in part]):
            d = [0] * N
            for s, x in zip(sites, c):
                for i, v in zip(s, x):
                    d[i] = v
            out.append(tuple(d))
            if len(out) >= cap:
                return out
    return out


class URef(Ref):
    def per(self, m):
        return map_period(m, self.sps)

    def image(self, d, m):
        if m[0] == "rot":
            return [(x + m[1]) % self.sps for x in d], 1
        if m[0] == "sub":
            return [(x + r) % self.sps for x, r in zip(d, m[1])], 1
        return map_digits(d, m, self.sps), fermion_sign(d, m) if self.fermion else 1

    def local(self, ch, v, pauli):
        if self.user == "clock":
            if ch == "X":
                return [((v + 1) % self.sps, 1.0)]
            if ch == "Z":
                return [(v, cmath.exp(2j * cmath.pi * v / self.sps))]
            if ch == "p":
                return [(v, 1.0 if v == 0 else 0.0)]
        return Ref.local(self, ch, v, 0)


def make_ref(g, dig, qs=None):
    kind = {"spin": "spin", "boson": "boson", "fermion": "sf", "clock": "boson"}[g["kind"]]
    r = URef(kind, g["N"], g["sps"], dig, g["maps"], g["qs"] if qs is None else qs)
    r.user = g["kind"]
    return r


def reference(g, qs=None):
    """The states that pass the constraint; the constraint is a union of orbits so that the maps keep it."""
    dig = sector(g)
    full = make_ref(g, dig, qs)
    if not g["constraint"]:
        return full
    keep = kept(g, full)
    return make_ref(g, [d for d, s in zip(full.dig, full.ints) if s in keep], qs)


def kept(g, full):
    r = random.Random("keep:%s" % g["seed"])
    labs = sorted(set(full.orbit.tolist()))
    yes = {l for l in labs if r.random() < 0.7} or {labs[0]}
    return {s for s, l in zip(full.ints, full.orbit) if int(l) in yes}


# ------------------------------------------------------------------ callbacks
CB = {}


def setup():
    global user_basis, hamiltonian, quantum_LinearOperator
    from quspin.basis.user import user_basis
    from quspin.operators import hamiltonian, quantum_LinearOperator
    import quspin.basis.user as u
    from numba import cfunc, carray, types
    for bits in (32, 64):
        U = types.uint32 if bits == 32 else types.uint64
        sig = {k: getattr(u, "%s_sig_%d" % (k, bits)) for k in ("map", "next_state", "pre_check_state", "op", "count_particles")}
        CB[bits] = callbacks(cfunc, carray, types, U, sig)


def callbacks(cfunc, carray, types, U, sig):
    """Data-driven callbacks: what they do is in the argument arrays."""
    out = {}
    W = types.uint64

    @cfunc(sig["op"], locals=dict(b=W, v=W, sps=W, kind=W, pos=W, n=W, k=W, x=W, S=types.float64, m=types.float64, t=W, i=types.int64, f=types.float64))
    def op(ptr, ch, site, N, args):
        # args: kind, sps, whether site 0 is the least significant digit, faulty site + 1
        res = carray(ptr, 1)[0]
        kind = args[0]
        sps = args[1]
        i = site if args[2] else N - 1 - site
        b = 1
        for k in range(i):
            b = b * sps
        x = res.state
        v = (x // b) % sps
        f = v
        if args[3] == U(site + 1):
            return 77
        if ch == 73:
            return 0
        if kind == W(3):
            if ch == 88:
                if v + W(1) < sps:
                    res.state = U(x + b)
                else:
                    res.state = U(x - b * (sps - W(1)))
                return 0
            if ch == 90:
                res.matrix_ele *= np.exp(2j * np.pi * f / sps)
                return 0
            if ch == 112:
                res.matrix_ele *= 1.0 if v == W(0) else 0.0
                return 0
            return -1
        S = (sps - 1.0) / 2.0
        m = f - S
        if ch == 122:
            res.matrix_ele *= m
            return 0
        if ch == 110:
            res.matrix_ele *= f
            return 0
        n = 0
        if kind == W(2):
            t = x % b
            while t > W(0):
                n = n + t % W(2)
                t = t // W(2)
        if ch == 43:
            if v + W(1) < sps:
                if kind == W(0):
                    res.matrix_ele *= np.sqrt(S * (S + 1) - m * (m + 1))
                elif kind == W(1):
                    res.matrix_ele *= np.sqrt(f + 1.0)
                elif n % W(2) == W(1):
                    res.matrix_ele *= -1.0
            else:
                res.matrix_ele *= 0.0
            res.state = U(x + b)
            return 0
        if ch == 45:
            if v > W(0):
                if kind == W(0):
                    res.matrix_ele *= np.sqrt(S * (S + 1) - m * (m - 1))
                elif kind == W(1):
                    res.matrix_ele *= np.sqrt(f)
                elif n % W(2) == W(1):
                    res.matrix_ele *= -1.0
            else:
                res.matrix_ele *= 0.0
            res.state = U(x - b)
            return 0
        return -1

    @cfunc(sig["map"], locals=dict(y=W, b=W, v=W, sps=W, i=types.int64, j=types.int64, k=types.int64, mi=types.int64, mj=types.int64, sg=types.int64, z=W))
    def mapf(s, N, sign, args):
        # args: sps, fermion, added to the digit of each position ..., target position * 2 + reversed ...; positions count from the least significant digit
        sps = args[0]
        y = 0
        z = s
        sg = 0
        for i in range(N):
            v = z % sps
            z = z // sps
            v = (v + args[2 + i]) % sps
            mi = args[2 + N + i]
            if mi % 2 == 1:
                v = sps - W(1) - v
            b = 1
            for k in range(mi // 2):
                b = b * sps
            y = y + b * v
        if args[1]:
            # inversions among the targets of occupied positions (most significant first), and (-1)^site for reversed ones
            z = s
            for i in range(N):
                if (z >> W(i)) & W(1):
                    mi = args[2 + N + i]
                    if mi % 2 == 1 and (N - 1 - i) % 2 == 1:
                        sg = sg + 1
                    for j in range(i):
                        if (z >> W(j)) & W(1):
                            mj = args[2 + N + j]
                            if mj // 2 > mi // 2:
                                sg = sg + 1
            if sg % 2 == 1:
                sign[0] *= -1
        return U(y)

    @cfunc(sig["next_state"], locals=dict(k=types.int64, n=types.int64))
    def follow(s, counter, N, args):
        # args: the number of states, then the states in the order in which they are visited
        n = args[0]
        for k in range(n):
            if args[1 + k] == s:
                return args[2 + k]
        return U(0)

    @cfunc(sig["next_state"], locals=dict(k=types.int64))
    def count(s, counter, N, args):
        k = counter
        return args[2 + k]

    @cfunc(sig["pre_check_state"], locals=dict(lo=types.int64, hi=types.int64, mid=types.int64))
    def pre(s, N, args):
        # args: the value that stands for yes, the number of states, the allowed states in ascending order
        lo = 0
        hi = args[1]
        while lo < hi:
            mid = (lo + hi) // 2
            if args[2 + mid] < s:
                lo = mid + 1
            else:
                hi = mid
        mid = args[1]
        if lo < mid and args[2 + lo] == s:
            return args[0]
        return U(0)

    @cfunc(sig["count_particles"], locals=dict(z=W, k=types.int64, i=types.int64, sps=W, v=types.int64))
    def cp(s, p, args):
        # args: N, sps, number of classes, class of each position (least significant first)
        for k in range(args[2]):
            p[k] = 0
        z = s
        sps = args[1]
        for i in range(args[0]):
            v = z % sps
            p[args[3 + i]] += v
            z = z // sps

    out.update(op=op, map=mapf, follow=follow, count=count, pre=pre, cp=cp)
    return out


def site(g, pos):
    """The user's number of the digit at position pos (0: most significant)."""
    return g["N"] - 1 - pos if g["lsb"] else pos


def map_args(g, m, dt):
    N = g["N"]
    rot, tgt = [0] * N, [2 * i for i in range(N)]
    if m[0] == "rot":
        rot = [m[1]] * N
    elif m[0] == "sub":
        rot = [m[1][N - 1 - i] for i in range(N)]
    else:
        for p, j in enumerate(m):
            inv = j < 0
            j = -(j + 1) if inv else j
            tgt[N - 1 - p] = 2 * (N - 1 - j) + int(inv)
    return np.array([g["sps"], int(g["kind"] == "fermion")] + rot + tgt, dtype=dt)


def sectors(g):
    """For every particle sector the states in the order in which next_state visits them."""
    out = {}
    for n in g["Np"]:
        s = sorted(number(d, g["sps"]) for d in sector(dict(g, Np=[n])))
        if g["unsorted"]:
            random.Random("order:%s" % g["seed"]).shuffle(s)
        out[tuple(n)] = s
    return out


def construct(g, qs=None, faulty=0, **kw):
    dt = np.dtype("u%d" % (g["bits"] // 8))
    cb = CB[g["bits"]]
    N, sps = g["N"], g["sps"]
    qs = g["qs"] if qs is None else qs
    blocks = {}
    for i, (m, q) in enumerate(zip(g["maps"], qs)):
        blocks["b%d" % i] = (cb["map"], map_period(m, sps), q, map_args(g, m, dt))
    if g["order"] is not None:
        kw["block_order"] = ["b%d" % i for i in g["order"]]
    pcon = None
    if g["Np"] is not None:
        sec = sectors(g)
        key = (lambda n: tuple(n)) if g["tuple"] else (lambda n: n[0])
        table = {key(n): sec[tuple(n)] for n in g["Np"]}
        single = len(g["Np"]) == 1
        # a counter can only index the list of a single sector
        nxt = cb["count"] if single and random.Random("next:%s" % g["seed"]).random() < 0.5 else cb["follow"]
        chain = []
        for n in g["Np"]:
            chain += sec[tuple(n)]
        pcon = dict(Np=[key(n) for n in g["Np"]] if g["listed"] else key(g["Np"][0]), next_state=nxt,
                    next_state_args=np.array([len(chain)] + chain + [0], dtype=dt),
                    get_Ns_pcon=lambda n, Np: len(table[Np]), get_s0_pcon=lambda n, Np: table[Np][0])
        if g["full"]:
            pcon.update(n_sectors=len(g["Np"][0]), count_particles=cb["cp"],
                        count_particles_args=np.array([N, sps, len(g["Np"][0])] + [g["cls"][N - 1 - i] for i in range(N)], dtype=np.int32 if g["flag"] & 1 else np.int64))
    if g["constraint"]:
        full = make_ref(g, sector(g))
        ok = sorted(kept(g, full))
        kw["pre_check_state"] = (cb["pre"], np.array([g["flag"], len(ok)] + ok, dtype=dt))
    allowed = OPSTR[g["kind"]] + ("zn" if g["kind"] != "clock" else "")
    r = random.Random("allow:%s" % g["seed"]).random()
    kw.update(blocks)
    if r < 0.8:
        kw["allowed_ops"] = list(allowed) if r < 0.4 else set(allowed)
    return user_basis(dt.type, N, dict(op=cb["op"], op_args=np.array([KINDS.index(g["kind"]), sps, int(g["lsb"]), faulty], dtype=dt)), sps=sps, pcon_dict=pcon, **kw)


# ------------------------------------------------------------------ operators
def act(term, m, g):
    """U J O U^dagger for a permutation of the sites (m maps positions), or None when this is not a single string."""
    s, ii, J = term
    if m[0] in ("rot", "sub"):
        sh = m[1] if m[0] == "rot" else None
        for ch, i in zip(s, ii):
            r = sh if sh is not None else m[1][i]
            if ch == "Z":
                J = J * cmath.exp(-2j * cmath.pi * r / g["sps"])
            elif ch == "p" and r:
                return None
        return [s, list(ii), J]
    o, jj = "", []
    for ch, i in zip(s, ii):
        j = m[i]
        if j < 0:
            j = -(j + 1)
            if g["kind"] == "clock":
                return None
            if ch == "n":
                return None
            if ch == "z":
                J = -J
            elif ch in "+-":
                if g["kind"] == "boson" and g["sps"] > 2:
                    return None
                if g["kind"] == "fermion" and i % 2:
                    J = -J
                ch = "-" if ch == "+" else "+"
        o += ch
        jj.append(j)
    return [o, jj, J]


def closure(term, g, cap=120):
    out = [term]
    key = lambda t: (t[0], tuple(t[1]), complex(round(complex(t[2]).real, 9) + 0.0, round(complex(t[2]).imag, 9) + 0.0))
    seen = {key(term)}
    todo = [term]
    while todo:
        t = todo.pop()
        for m in g["maps"]:
            n = act(t, m, g)
            if n is None:
                return None
            if key(n) not in seen:
                seen.add(key(n))
                out.append(n)
                todo.append(n)
                if len(out) > cap:
                    return None
    return out


def random_string(rng, g, kmax=3):
    k = rng.randint(1, kmax)
    pos = [rng.randrange(g["N"]) for _ in range(k)] if k > g["N"] or rng.random() < 0.4 else rng.sample(range(g["N"]), k)
    ops = OPSTR[g["kind"]] + ("z" if g["kind"] != "clock" else "")
    if g["kind"] != "clock" and g["Np"] is not None and rng.random() < 0.7 and g["N"] > 0:
        s = rng.choice(["+-", "-+", "z", "zz", "+-z", "++--", "n" if g["kind"] != "spin" else "z"])
        pos = [rng.randrange(g["N"]) for _ in s]
        return s, pos
    return "".join(rng.choice(ops) for _ in range(k)), pos


def make_terms(sc, g):
    rng = random.Random("terms:%s" % sc["oseed"])
    terms, tries = [], 0
    while tries < 30 and (not terms or tries < sc["terms"]):
        tries += 1
        s, pos = random_string(rng, g)
        J = rng.choice([1.0, -0.5, 2.0, complex(0.5, 1.0), complex(0, -1)])
        t = closure([s, pos, J], g)
        if t is not None:
            terms += t
    return terms


def user(g, t):
    return [t[0], [site(g, i) for i in t[1]], t[2]]


# ------------------------------------------------------------------ execution
def execute(sc, ctx):
    g = sc["g"]
    ref = reference(g)
    if not ref.unitary or not ref.commuting():
        ctx.count("skipped_not_a_representation")
        return
    want = ref.orbits()
    terms = make_terms(sc, g)
    env = {"g": g, "ref": ref, "want": want, "terms": terms, "H": sum(ref.op(s, i, J) for s, i, J in terms) if terms else np.zeros_like(ref.P)}
    if terms and g["maps"] and np.abs(env["H"].dot(ref.P) - ref.P.dot(env["H"])).max() > 1e-9:
        ctx.count("skipped_not_symmetric")
        return
    env["tag"] = "%s N=%d sps=%d uint%d%s Np=%s%s maps=%d q=%s%s%s" % (
        g["kind"], g["N"], g["sps"], g["bits"], " reversed" if g["lsb"] else "", g["Np"], " listed" if g["listed"] else "", len(g["maps"]), g["qs"],
        " constraint" if g["constraint"] else "", "" if g["full"] else " without count_particles")
    with ctx.schedule(sc["make"]) as run:
        env["basis"] = construct(g)
        check_basis(env, env["basis"], env["tag"])
    if run.multi and run.switches:
        ctx.state("make %s %s" % (run.hash, g["seed"]), True)
    for k, o in enumerate(sc["ops"]):
        what = "%s, step %d %s, %d threads" % (env["tag"], k, o["op"], o["sched"]["n"])
        rs = np.random.RandomState(o["seed"])
        with ctx.schedule(o["sched"]) as run:
            r = globals()["do_" + o["op"]](ctx, env, o, rs, what)
        ctx.state("%s %s %s" % (run.hash, g["seed"], o["op"]), (run.multi > 0 and run.switches > 0) or bool(r))
        if run.multi and o["sched"]["grant"]:
            ctx.count("fault:team_shortfall")
        if o["sched"]["dirty"]:
            ctx.count("fault:dirty_thread_stack")
        ctx.count("op_" + o["op"])


def check_basis(env, b, what):
    g, ref, want = env["g"], env["ref"], env["want"]
    if b.Ns != len(want):
        raise Violation("wrong-size", "%s: Ns=%d, the sector has %d states" % (what, b.Ns, len(want)))
    st = [int(x) for x in b.states]
    if len(st) != b.Ns:
        raise Violation("states-and-size-differ", what)
    at = {}
    for k, o in enumerate(want):
        for j in o:
            at[ref.ints[j]] = k
    got = [at.get(s, -1) for s in st]
    if -1 in got:
        raise Violation("state-outside-sector", "%s: %d" % (what, st[got.index(-1)]))
    if len(set(got)) != len(got):
        raise Violation("orbit-twice", what)
    if any(x <= y for x, y in zip(st, st[1:])):
        raise Violation("not-sorted", what)
    for k, s in enumerate(st[:3] + st[-2:]):
        i = b.index(s)
        if st[int(i)] != s:
            raise Violation("index-of-state", "%s: index(%d) = %s" % (what, s, i))
    env["st"] = st
    env["B"] = ref.B(st)
    if g["sps"] ** g["N"] <= 2000 and st:
        Q = b.get_proj(np.complex128)
        close(Q.toarray(), embed(g, ref, env["B"]), 1e-10, "wrong-normalisation", what + ": projector")
    d = b.dtype
    if d != np.dtype("u%d" % (g["bits"] // 8)):
        raise Violation("state-dtype", "%s: %s" % (what, d))
    if b.N != g["N"] or b.sps != g["sps"]:
        raise Violation("attributes", "%s: N=%s sps=%s" % (what, b.N, b.sps))


def embed(g, ref, B):
    n = g["sps"] ** g["N"]
    F = np.zeros((n, B.shape[1]), complex)
    F[[n - 1 - s for s in ref.ints]] = B
    return F


def matrix(env):
    B = env["B"]
    return B.conj().T.dot(env["H"]).dot(B)


def real_ok(env):
    return not any(env["g"]["qs"])


def op_dtype(env, o):
    dt = o["dt"]
    if dt in "df" and not (real_ok(env) and all("Z" not in t[0] and complex(t[2]).imag == 0 for t in env["terms"])):
        dt = {"d": "D", "f": "F"}[dt]
    return np.dtype(dt)


def vec(env, o, rs, n=None):
    n = len(env["st"]) if n is None else n
    dt = o["vdt"]
    if dt in "df" and not real_ok(env):
        dt = {"d": "D", "f": "F"}[dt]
    v = rnd(rs, (n,) if not o["nvec"] else (n, o["nvec"]), dt)
    if o["layout"] == "F":
        v = np.asfortranarray(v)
    elif o["layout"] == "step":
        v = np.repeat(v, 2, axis=0)[::2]
    return v


def tol(dt, n):
    return (3e-5 if np.dtype(dt).char in "fF" else 1e-10) * max(1, n) ** 0.5 * 3


def do_new(ctx, env, o, rs, what):
    n = len(env["want"])
    est = {None: None, "exact": max(n, 1), "less": max(n - 1, 1), "one": 1, "more": n + 37}[o["est"]]
    kw = {} if est is None else {"Ns_block_est": est}
    if o["late"]:
        kw["_make_basis"] = False
    b = construct(env["g"], **kw)
    if o["late"]:
        try:
            b.make(N_p=o["N_p"])
        except ValueError as e:
            if est is None or est >= n or "too low" not in str(e):
                raise
            ctx.count("fault:estimate_too_small")
            b.make(Ns_block_est=n + 5, N_p=o["N_p"])
    elif o["mode"] < 3:
        b.make(N_p=o["N_p"])
    elif o["mode"] < 5:
        b.make_basis_blocks(N_p=o["N_p"])
    check_basis(env, b, "%s est=%s late=%s N_p=%s" % (what, est, o["late"], o["N_p"]))
    env["basis"] = b


def do_hamiltonian(ctx, env, o, rs, what):
    if not env["terms"] or not env["st"]:
        return
    dt = op_dtype(env, o)
    L = [[s, [[J] + list(i)]] for s, i, J in (user(env["g"], t) for t in env["terms"])]
    M = hamiltonian(L, [], basis=env["basis"], dtype=dt.type, check_herm=False, check_symm=False, check_pcon=False)
    H = matrix(env)
    close(M.toarray(), H, tol(dt, 1) * (1 + np.abs(H).max()), "wrong-hamiltonian", what)


def do_Op(ctx, env, o, rs, what):
    dt = op_dtype(env, o)
    n = len(env["st"])
    M = np.zeros((n, n), complex)
    for t in env["terms"]:
        s, i, J = user(env["g"], t)
        ME, r, c = env["basis"].Op(s, i, J, dt)
        if len(r) and (r.min() < 0 or r.max() >= n or c.min() < 0 or c.max() >= n):
            raise Violation("matrix-index-range", what)
        np.add.at(M, (r, c), ME)
    H = matrix(env)
    close(M, H, tol(dt, 1) * (1 + np.abs(H).max(initial=0)), "wrong-matrix-elements", what)


def do_linop(ctx, env, o, rs, what):
    if not env["terms"] or not env["st"]:
        return
    dt = op_dtype(env, o)
    H = matrix(env)
    tr, cj = bool(o["mode"] & 1), bool(o["mode"] & 2)
    ut = [user(env["g"], t) for t in env["terms"]]
    v = vec(env, o, rs)
    f = Frozen(v=v)
    res = np.result_type(v.dtype, dt)
    t2 = max(tol(dt, len(env["st"])), tol(v.dtype, len(env["st"]))) * (1 + np.abs(H).max())
    if o["mode"] & 4:
        L = quantum_LinearOperator([[s, [[J] + list(i)]] for s, i, J in ut], basis=env["basis"], dtype=dt.type, check_herm=False, check_symm=False, check_pcon=False)
        r = L.dot(v)
        f.check(what)
        close(np.asarray(r).reshape(v.shape), H.dot(v), t2, "wrong-linear-operator", what)
        return
    M = H.T if tr else H
    M = M.conj() if cj else M
    want = M.dot(v.astype(complex))
    kw = {}
    if o["out"]:
        x = rnd(rs, v.shape, res)
        Y = Guarded(v.shape, res, "C")
        Y.a[...] = x
        want = want + x
        kw["v_out"] = Y.a
    r = env["basis"].inplace_Op(v, [list(t) for t in ut], dt, transposed=tr, conjugated=cj, **kw)
    f.check(what)
    if o["out"]:
        Y.check(what)
        close(Y.a, want, t2, "inplace-wrong-out", what)
    close(np.asarray(r).reshape(v.shape), want, t2, "inplace-wrong-product", "%s transposed=%s conjugated=%s" % (what, tr, cj))


def do_braket(ctx, env, o, rs, what):
    """Op_bra_ket needs count_particles in a particle sector."""
    g, st, b = env["g"], env["st"], env["basis"]
    if not st or not env["terms"]:
        return
    dt = op_dtype(env, o)
    if g["Np"] is not None and not g["full"]:
        try:
            b.Op_bra_ket(*user(g, env["terms"][0]), dt, b.states)
        except ValueError:
            ctx.count("fault:unfit_argument")
            return
        raise Violation("unfit-argument-accepted", "%s: Op_bra_ket without count_particles" % what)
    H = matrix(env)
    k = rs.permutation(len(st))[: rs.randint(1, len(st) + 1)]
    kets = b.states[k].copy()
    pos = {s: i for i, s in enumerate(st)}
    where = {st[x]: i for i, x in enumerate(k)}
    M = np.zeros((len(st), len(k)), complex)
    for t in env["terms"]:
        s, i, J = user(g, t)
        red = bool(rs.randint(2))
        ME, bra, ket = b.Op_bra_ket(s, i, J, dt, kets, reduce_output=red)
        if not len(ME) == len(bra) == len(ket) or (not red and len(ME) != len(k)):
            raise Violation("bra-ket-length", what)
        for m, x, y in zip(ME, bra, ket):
            if int(y) not in where:
                raise Violation("bra-ket-unknown-ket", what)
            if m == 0:
                continue
            if not np.isfinite(m) or int(x) not in pos:
                raise Violation("bra-ket-outside-basis", "%s: <%d|%s%s|%d> = %r" % (what, x, s, i, y, m))
            M[pos[int(x)], where[int(y)]] += m
    close(M, H[:, k], tol(dt, 1) * (1 + np.abs(H).max()), "wrong-bra-ket", what)


def space(env, o):
    """Rows of the reference states in the space that project_from uses."""
    g, ref = env["g"], env["ref"]
    full = g["sps"] ** g["N"]
    if full > 2000 and not pcon(env, o):
        return None
    return True


def pcon(env, o):
    """Whether the space of a call is the particle sector without symmetries."""
    return bool(o["mode"] & 2) and env["g"]["Np"] is not None and not (env["g"]["listed"] and o["sparse"])


def emb(env, o):
    """The states of the basis in the space a call refers to, with the keyword that selects it."""
    g, ref = env["g"], env["ref"]
    if not pcon(env, o):
        return embed(g, ref, env["B"]), {}
    sec = sorted((number(d, g["sps"]) for d in sector(g)), reverse=True)
    pos = {x: i for i, x in enumerate(sec)}
    F = np.zeros((len(sec), env["B"].shape[1]), complex)
    F[[pos[x] for x in ref.ints]] = env["B"]
    return F, {"pcon": True}


def do_from(ctx, env, o, rs, what):
    if not env["st"] or space(env, o) is None:
        return
    F, kw = emb(env, o)
    v = vec(env, o, rs)
    f = Frozen(v=v)
    b = env["basis"]
    if o["sparse"]:
        r = b.project_from(sp.csr_matrix(v if v.ndim == 2 else v[:, None]) if o["mode"] & 1 else v, sparse=True, **kw).toarray()
        want = F.dot(v if v.ndim == 2 else v[:, None])
    else:
        r = b.project_from(v, sparse=False, **kw)
        want = F.dot(v)
    f.check(what)
    close(r, want, tol(v.dtype, 1), "wrong-embedding", what)


def do_to(ctx, env, o, rs, what):
    if not env["st"] or space(env, o) is None:
        return
    F, kw = emb(env, o)
    v = vec(env, o, rs, F.shape[0])
    f = Frozen(v=v)
    b = env["basis"]
    want = F.conj().T.dot(v if v.ndim == 2 or not o["sparse"] else v[:, None])
    r = b.project_to(v, sparse=o["sparse"], **kw)
    f.check(what)
    close(r.toarray() if sp.issparse(r) else r, want, tol(v.dtype, len(v)), "wrong-projection", what)


def do_proj(ctx, env, o, rs, what):
    if not env["st"] or space(env, o) is None:
        return
    dt = np.dtype(o["dt"] if o["dt"] in "DF" or real_ok(env) else {"d": "D", "f": "F"}[o["dt"]])
    F, kw = emb(env, dict(o, sparse=False))
    if kw and env["g"]["listed"]:
        try:
            env["basis"].get_proj(dt, **kw)
        except TypeError:
            ctx.count("fault:unfit_argument")
            return
        raise Violation("unfit-argument-accepted", "%s: projector to several sectors" % what)
    Q = env["basis"].get_proj(dt, **kw)
    close(Q.toarray(), F, tol(dt, 1), "wrong-projector", what)


def rep_of(env, j):
    """Representative of reference state j: the listed state of its orbit (None: none) ."""
    ref = env["ref"]
    if "lst" not in env:
        at = {}
        for s in env["st"]:
            at[int(ref.orbit[ref.ind[s]])] = s
        env["lst"] = at
    return env["lst"].get(int(ref.orbit[j]))


def do_rep(ctx, env, o, rs, what):
    g, ref = env["g"], env["ref"]
    k = rs.randint(0, len(ref.ints), size=rs.randint(1, 9))
    x = np.array([ref.ints[i] for i in k], dtype="u%d" % (g["bits"] // 8))
    f = Frozen(x=x)
    b = env["basis"]
    rg, sg = bool(o["mode"] & 1), bool(o["mode"] & 2)
    kw = {}
    if o["out"]:
        kw["out"] = np.zeros_like(x)
    r = b.representative(x, return_g=rg, return_sign=sg, **kw)
    f.check(what)
    r = r if isinstance(r, tuple) else () if r is None else (r,)
    if not o["out"]:
        reps, r = r[0], r[1:]
    else:
        reps = kw["out"]
    gg = r[0] if rg else None
    ss = r[-1] if sg else None
    order = env["g"]["order"]
    for a, (i, y) in enumerate(zip(k, np.atleast_1d(reps))):
        want = max(ref.ints[j] for j in np.where(ref.orbit == ref.orbit[i])[0])
        if int(y) != want:
            raise Violation("wrong-representative", "%s: representative of %d is %d, expected %d" % (what, ref.ints[i], y, want))
        if rg:
            # the powers of the maps, in the order of the blocks, lead to the representative
            cur, s = int(i), 1
            ms = list(order) if order is not None else None
            row = np.atleast_2d(gg)[a]
            if len(row) != len(g["maps"]):
                raise Violation("group-element-length", what)
            if ms is None:
                ms = sorted(range(len(g["maps"])), key=lambda n: ref.pers[n])
                if len(set(ref.pers)) != len(ref.pers) or True:
                    ms = None
            if ms is not None:
                for m, p in zip(ms, row):
                    for _ in range(int(p)):
                        s *= ref.sign[m][cur]
                        cur = ref.perm[m][cur]
                if ref.ints[cur] != want:
                    raise Violation("wrong-group-element", "%s: %s on %d gives %d, not %d" % (what, list(map(int, row)), ref.ints[i], ref.ints[cur], want))
                if sg and int(np.atleast_1d(ss)[a]) != s:
                    raise Violation("wrong-sign", "%s: state %d sign %s, expected %d" % (what, ref.ints[i], ss, s))


def do_norm(ctx, env, o, rs, what):
    """Of representatives: zero exactly outside the sector of the quantum numbers, otherwise the weight of the projector."""
    g, ref = env["g"], env["ref"]
    k = rs.randint(0, len(ref.ints), size=rs.randint(1, 9))
    reps = [max(ref.ints[j] for j in np.flatnonzero(ref.orbit == ref.orbit[i])) for i in k]
    pp = int(np.prod([1] + ref.pers, dtype=object))
    nr = ref.norms()
    want = [int(round(pp * pp * nr[ref.ind[r]])) for r in reps]
    if max(want) > 2 ** 50:
        return
    x = np.array(reps, dtype="u%d" % (g["bits"] // 8))
    n = np.atleast_1d(env["basis"].normalization(x))
    if [int(y) for y in n] != want:
        raise Violation("wrong-normalization", "%s: states %s have %s, expected %s" % (what, reps[:5], list(map(int, n))[:5], want[:5]))


def do_amp(ctx, env, o, rs, what):
    g, ref, st, B = env["g"], env["ref"], env["st"], env["B"]
    if not st:
        return
    dt = np.dtype(o["dt"] if o["dt"] in "DF" or real_ok(env) else {"d": "D", "f": "F"}[o["dt"]])
    ins = [i for i in range(len(ref.ints)) if rep_of(env, i) is not None]
    col = {s: c for c, s in enumerate(st)}
    psi = rnd(rs, (len(st),), dt)
    full = B.dot(psi)
    if o["mode"] & 1:
        k = [ins[i] for i in rs.randint(0, len(ins), size=rs.randint(1, 9))]
        x = np.array([ref.ints[i] for i in k], dtype="u%d" % (g["bits"] // 8))
        amps = full[k].astype(dt)
        C = env["basis"].get_amp(x, amps=amps, mode="full_basis")
        want = [psi[col[rep_of(env, i)]] for i in k]
        ok = [a for a, i in enumerate(k) if abs(B[i, col[rep_of(env, i)]]) > 1e-9]
        close(amps[ok], np.array(want)[ok], tol(dt, 1), "wrong-reduced-amplitude", what)
        if [int(s) for s in x] != [rep_of(env, i) for i in k]:
            raise Violation("states-not-updated", what)
        wantC = np.array([B[i, col[rep_of(env, i)]] for i in k])
        close(np.atleast_1d(C), wantC, tol(dt, 1), "wrong-amplitude-factor", what)
    else:
        k = rs.randint(0, len(st), size=rs.randint(1, 9))
        x = np.array([st[i] for i in k], dtype="u%d" % (g["bits"] // 8))
        amps = psi[k].copy()
        f = Frozen(x=x)
        env["basis"].get_amp(x, amps=amps, mode="representative")
        f.check(what)
        close(amps, np.array([full[ref.ind[st[i]]] for i in k]), tol(dt, 1), "wrong-full-amplitude", what)


def do_index(ctx, env, o, rs, what):
    st, b, g = env["st"], env["basis"], env["g"]
    for k in rs.randint(0, max(len(st), 1), size=3):
        if st and int(b.index(b.states[k])) != k:
            raise Violation("index-of-state", what)
    if st:
        k = rs.randint(0, len(st))
        d = digits(st[k], g["N"], g["sps"])
        s = "".join(map(str, d))
        if int(b.index(s)) != k:
            raise Violation("index-of-string", "%s: %s" % (what, s))
        if b.int_to_state(st[k], bracket_notation=False) != s:
            raise Violation("int-to-state", "%s: %s" % (what, b.int_to_state(st[k], bracket_notation=False)))
        if int(b.state_to_int(s)) != st[k]:
            raise Violation("state-to-int", what)
    out = [s for s in env["ref"].ints if s not in set(st)]
    if out:
        try:
            b.index(out[rs.randint(len(out))])
        except ValueError:
            return True
        raise Violation("index-of-foreign-state", what)


def do_shift(ctx, env, o, rs, what):
    """From one sector of quantum numbers to another."""
    g, ref = env["g"], env["ref"]
    if not g["maps"] or not env["st"] or np.prod(ref.pers) > 60:
        return
    rng = random.Random("shift:%s" % o["seed"])
    q2 = [rng.choice([q, rng.randrange(T)]) for q, T in zip(g["qs"], ref.pers)]
    s, pos = random_string(rng, g, 2)
    terms = []
    for js in itertools.product(*[range(T) for T in ref.pers]):
        t, ph = [s, list(pos), 1.0], 1.0
        for m, j, T, qa, qb in zip(g["maps"], js, ref.pers, g["qs"], q2):
            for _ in range(j):
                t = act(t, m, g) if t is not None else None
            ph *= cmath.exp(-2j * cmath.pi * (qb - qa) * j / T)
        if t is None:
            return
        terms.append([t[0], t[1], t[2] * ph])
    ref2 = reference(g, q2)
    if not ref2.unitary:
        return
    b2 = construct(g, q2)
    s2 = [int(x) for x in b2.states]
    if not s2:
        return
    O = sum(ref.op(a, i, J) for a, i, J in terms)
    leak = O.dot(ref.P) - ref2.P.dot(O.dot(ref.P))
    if np.abs(leak).max() > 1e-9:
        ctx.count("skipped_shift")
        return
    v = vec(env, o, rs)
    f = Frozen(v=v)
    want = ref2.B(s2).conj().T.dot(O).dot(env["B"]).dot(v)
    r = b2.Op_shift_sector(env["basis"], [user(g, t) for t in terms], v)
    f.check(what)
    close(np.asarray(r).reshape(want.shape), want, tol(v.dtype, len(env["st"])) * (1 + np.abs(O).max()) * 3, "wrong-shifted-state", "%s to q=%s" % (what, q2))


def do_copy(ctx, env, o, rs, what):
    import copy
    b = copy.copy(env["basis"])
    check_basis(env, b, what)
    env["basis"] = b


def do_collect(ctx, env, o, rs, what):
    """The caller keeps nothing: what the basis needs must live as long as the basis."""
    gc.collect()
    junk = [np.full(k, 0x5a5a5a5a, dtype=np.uint32) for k in range(2, 60)]
    del junk
    ctx.count("fault:caller_drops_arguments")
    check_basis(env, env["basis"], what)


def do_fail(ctx, env, o, rs, what):
    """An operator that reports an error on one site: the caller gets the error, whatever thread meets it, and the basis stays usable."""
    g = env["g"]
    if not env["st"]:
        return
    pos = rs.randint(0, g["N"])
    b = construct(g, faulty=site(g, pos) + 1)
    st = [int(x) for x in b.states]
    which = o["mode"] % 3
    ctx.count("fault:operator_callback_fails")
    try:
        if which == 0:
            b.Op("I", [site(g, pos)], 1.0, np.complex128)
        elif which == 1:
            b.inplace_Op(np.ones(len(st), complex), [["I", [site(g, pos)], 1.0]], np.complex128)
        elif g["Np"] is None or g["full"]:
            b.Op_bra_ket("I", [site(g, pos)], 1.0, np.complex128, b.states)
        else:
            return
    except RuntimeError as e:
        if "77" not in str(e):
            raise Violation("error-code-lost", "%s: %s" % (what, e))
    else:
        raise Violation("callback-error-ignored", "%s: the operator callback returned 77" % what)
    if g["N"] > 1:
        other = (pos + 1) % g["N"]
        ME, r, c = b.Op("I", [site(g, other)], 2.0, np.complex128)
        close(np.sort(ME.real), np.full(len(st), 2.0), 1e-12, "wrong-after-error", what)
    return True


def do_refuse(ctx, env, o, rs, what):
    """Arguments that do not fit raise an error of python and change nothing."""
    g, b = env["g"], env["basis"]
    bad = rs.randint(0, 25)
    cb = CB[g["bits"]]
    dt = np.dtype("u%d" % (g["bits"] // 8))
    other = CB[96 - g["bits"]]
    opd = dict(op=cb["op"], op_args=np.array([0, 2, 0, 0], dtype=dt))
    try:
        if bad == 0:
            b.Op("?", [0], 1.0, np.complex128)
        elif bad == 1:
            b.Op("I", [g["N"]], 1.0, np.complex128)
        elif bad == 2:
            user_basis(dt.type, 3, dict(op=other["op"], op_args=opd["op_args"]), allowed_ops="I")
        elif bad == 3:
            user_basis(dt.type, 3, opd, allowed_ops="I", blk=(other["map"], 2, 0, np.array([2, 0], dtype=dt)))
        elif bad == 4:
            user_basis(dt.type, 3, opd, allowed_ops="I", pre_check_state=other["pre"])
        elif bad == 5:
            user_basis(dt.type, 3, dict(op=cb["op"], op_args=[0, 2, 0, 0]), allowed_ops="I")
        elif bad == 6:
            user_basis(np.int32, 3, opd, allowed_ops="I")
        elif bad == 7:
            user_basis(dt.type, 3, opd, allowed_ops="I", blk=(cb["map"], 2, 0, np.array([2, 0, 0, 0, 0, 0, 2, 4], dtype="i4")))
        elif bad == 8:
            user_basis(dt.type, 3, dict(opd, op_args=np.zeros(4, "f8")), allowed_ops="I")
        elif bad == 9:
            user_basis(dt.type, 3, dict(opd, op_args=np.zeros(8, dt)[::2]), allowed_ops="I")
        elif bad == 10:
            user_basis(dt.type, 3, dict(opd, other=1), allowed_ops="I")
        elif bad == 11:
            user_basis(dt.type, 3, [cb["op"], opd["op_args"]], allowed_ops="I")
        elif bad == 12:
            user_basis(dt.type, 3, opd, allowed_ops="I", pre_check_state=lambda s, N, args: True)
        elif bad < 17:
            pm = np.array([2, 0, 0, 0, 0, 0, 2, 4], dtype=dt)
            blk = {"a": (cb["map"], 2, 0, pm), "b": (cb["map"], 2, 0, pm)}
            if bad == 13:
                user_basis(dt.type, 3, opd, allowed_ops="I", block_order=["a"], **blk)
            elif bad == 14:
                user_basis(dt.type, 3, opd, allowed_ops="I", block_order=["a", "b", "c"], **blk)
            elif bad == 15:
                user_basis(dt.type, 3, opd, allowed_ops="I", a=(cb["map"], 2, 0))
            else:
                user_basis(dt.type, 3, opd, allowed_ops="I", a=(lambda s, N, sign, args: s, 2, 0, pm))
        else:
            pc = dict(Np=1, next_state=cb["follow"], next_state_args=np.array([3, 4, 2, 1, 0], dtype=dt), get_Ns_pcon=lambda N, Np: 3, get_s0_pcon=lambda N, Np: 4)
            full = dict(n_sectors=1, count_particles=cb["cp"], count_particles_args=np.array([3, 2, 1, 0, 0, 0], np.int32))
            if bad == 17:
                pc["next_state"] = other["follow"]
            elif bad == 18:
                pc["next_state_args"] = pc["next_state_args"].astype("f8")
            elif bad == 19:
                pc["next_state_args"] = np.repeat(pc["next_state_args"], 2)[::2]
            elif bad == 20:
                pc.update(full, n_sectors=2)
            elif bad == 21:
                pc.update(full, count_particles_args=full["count_particles_args"].astype("f8"))
            elif bad == 22:
                pc.update(full, count_particles=other["cp"])
            elif bad == 23:
                pc.update(full, Np=[1, (1, 2)])
            elif bad == 24:
                pc["Np"] = 1.5
            user_basis(dt.type, 3, opd, allowed_ops="I", pcon_dict=pc)
    except (ValueError, TypeError):
        ctx.count("fault:unfit_argument")
        return True
    raise Violation("unfit-argument-accepted", "%s: case %d" % (what, bad))
