"""Reference model of the symmetry-reduced bases of quspin.basis.*_general: integers, signed permutations and matrices of
second-quantised operators built here from their definition, plus the generator of random lattices, symmetries and sectors."""
import itertools
import math
import numpy as np


# ------------------------------------------------------------------ states as python integers; site 0 is the most significant digit
def digits(s, N, sps):
    d = [0] * N
    for i in range(N - 1, -1, -1):
        s, d[i] = divmod(s, sps)
    return d


def number(d, sps):
    s = 0
    for x in d:
        s = s * sps + x
    return s


def compositions(N, sps, total):
    """All digit tuples of length N below sps with the given sum."""
    if N == 0:
        if total == 0:
            yield ()
        return
    for x in range(min(sps - 1, total), -1, -1):
        if total - x <= (sps - 1) * (N - 1):
            for r in compositions(N - 1, sps, total - x):
                yield (x,) + r


def map_digits(d, m, sps):
    """Site i goes to m[i]; a negative entry -(j+1) sends it to j with the local state reversed."""
    o = [0] * len(d)
    for i, x in enumerate(d):
        j = m[i]
        if j < 0:
            o[-(j + 1)] = sps - 1 - x
        else:
            o[j] = x
    return o


def fermion_sign(d, m):
    """|s> = prod over occupied sites c^dagger |0>; the map sends c_i^dagger to c_m(i)^dagger, or to (-1)^i c_j for a particle-hole entry."""
    pos = [(-(m[i] + 1) if m[i] < 0 else m[i]) for i in range(len(d)) if d[i]]
    inv = sum(1 for a in range(len(pos)) for b in range(a + 1, len(pos)) if pos[a] > pos[b])
    inv += sum(1 for i in range(len(d)) if d[i] and m[i] < 0 and i % 2)
    return -1 if inv % 2 else 1


def period(m):
    N = len(m)
    cur = list(range(N))
    inv = [False] * N
    per = 0
    while True:
        per += 1
        nc, ni = [0] * N, [False] * N
        for i in range(N):
            j = m[i]
            k = -(j + 1) if j < 0 else j
            nc[k], ni[k] = cur[i], inv[i] ^ (j < 0)
        cur, inv = nc, ni
        if cur == list(range(N)) and not any(inv):
            return per


class Ref:
    """The states of a particle sector closed under the maps, the projector on the symmetry sector, operators as dense matrices."""

    def __init__(self, kind, N, sps, dig, maps, qs):
        self.kind, self.N, self.sps = kind, N, sps
        self.fermion = kind in ("sf", "sff")
        self.dig = [tuple(d) for d in dig]
        self.ints = [number(d, sps) for d in self.dig]
        o = sorted(range(len(self.ints)), key=lambda i: -self.ints[i])
        self.dig = [self.dig[i] for i in o]
        self.ints = [self.ints[i] for i in o]
        self.ind = {s: i for i, s in enumerate(self.ints)}
        self.maps, self.qs = [list(m) for m in maps], list(qs)
        self.pers = [self.per(m) for m in maps]
        n = len(self.ints)
        self.perm, self.sign = [], []
        for m in maps:
            p = np.empty(n, int)
            sg = np.ones(n, int)
            for i, d in enumerate(self.dig):
                e, sg[i] = self.image(d, m)
                p[i] = self.ind[number(e, sps)]
            self.perm.append(p)
            self.sign.append(sg)
        P = np.eye(n, dtype=complex)
        self.unitary = True
        for p, sg, T, q in zip(self.perm, self.sign, self.pers, self.qs):
            cur, cs = np.arange(n), np.ones(n)
            Q = np.zeros((n, n), complex)
            for j in range(T):
                Q[cur, np.arange(n)] += np.exp(-2j * np.pi * q * j / T) * cs
                cs = cs * sg[cur]
                cur = p[cur]
            if not (np.array_equal(cur, np.arange(n)) and np.all(cs == 1)):
                self.unitary = False
            P = Q.dot(P) / T
        self.P = P
        # orbits
        lab = np.arange(n)
        while True:
            new = lab.copy()
            for p in self.perm:
                np.minimum.at(new, p, lab)
                new = np.minimum(new, new[p])
            if np.array_equal(new, lab):
                break
            lab = new
        self.orbit = lab

    def per(self, m):
        return period(m)

    def image(self, d, m):
        return map_digits(d, m, self.sps), fermion_sign(d, m) if self.fermion else 1

    def commuting(self):
        for a in range(len(self.perm)):
            for b in range(a):
                x = self.perm[a][self.perm[b]]
                y = self.perm[b][self.perm[a]]
                if not np.array_equal(x, y):
                    return False
                if not np.array_equal(self.sign[b] * self.sign[a][self.perm[b]], self.sign[a] * self.sign[b][self.perm[a]]):
                    return False
        return True

    def norms(self):
        return np.real(np.diag(self.P))

    def orbits(self):
        """Orbits with a state in the symmetry sector: list of index lists."""
        d = self.norms()
        out = {}
        for i, l in enumerate(self.orbit):
            out.setdefault(int(l), []).append(i)
        return [v for v in out.values() if d[v[0]] > 1e-9]

    def B(self, reps):
        """Basis vectors P|s>/|P|s>| for representatives given as integers."""
        if len(reps) == 0:
            return np.zeros((len(self.ints), 0), complex)
        cols = [self.ind[int(s)] for s in reps]
        C = self.P[:, cols]
        return C / np.sqrt(np.real(np.diag(self.P))[cols])[None, :]

    def op(self, opstr, indx, J=1.0, pauli=0):
        """J * O_1 O_2 ... as a dense matrix on the sector; what leaves the sector is dropped."""
        n = len(self.ints)
        M = np.zeros((n, n), complex)
        for c, d in enumerate(self.dig):
            amp = {tuple(d): complex(J)}
            for ch, i in reversed(list(zip(opstr, indx))):
                nxt = {}
                for dd, a in amp.items():
                    for e, v in self.local(ch, dd[i], pauli):
                        if v == 0:
                            continue
                        x = a * v
                        if self.fermion and ch in "+-" and sum(dd[i + 1:]) % 2:
                            x = -x
                        ee = dd[:i] + (e,) + dd[i + 1:]
                        nxt[ee] = nxt.get(ee, 0) + x
                amp = nxt
            for dd, a in amp.items():
                r = self.ind.get(number(dd, self.sps))
                if r is not None:
                    M[r, c] += a
        return M

    def local(self, ch, v, pauli):
        """Nonzero elements <e|op|v> of the operator of one site: list of (e, value)."""
        sps = self.sps
        if ch == "I":
            return [(v, 1.0)]
        if self.kind == "spin":
            S = (sps - 1) / 2.0
            m = v - S
            k = 2.0 if (pauli == 1 and sps == 2) else 1.0
            kz = 2.0 if (pauli in (1, -1) and sps == 2) else 1.0
            up = [(v + 1, math.sqrt(S * (S + 1) - m * (m + 1)))] if v + 1 < sps else []
            dn = [(v - 1, math.sqrt(S * (S + 1) - m * (m - 1)))] if v > 0 else []
            if ch == "z":
                return [(v, m * kz)]
            if ch == "+":
                return [(e, a * k) for e, a in up]
            if ch == "-":
                return [(e, a * k) for e, a in dn]
            if ch == "x":
                return [(e, 0.5 * a * kz) for e, a in up + dn]
            if ch == "y":
                return [(e, -0.5j * a * kz) for e, a in up] + [(e, 0.5j * a * kz) for e, a in dn]
        else:
            if ch == "n":
                return [(v, float(v))]
            if ch == "z":
                return [(v, v - (sps - 1) / 2.0)]
            if ch == "+":
                return [(v + 1, math.sqrt(v + 1.0) if not self.fermion else 1.0)] if v + 1 < sps else []
            if ch == "-":
                return [(v - 1, math.sqrt(v) if not self.fermion else 1.0)] if v > 0 else []
        raise ValueError(ch)


# ------------------------------------------------------------------ scenarios
def chain_maps(rng, N, inv):
    """Commuting maps of a lattice of N sites: (list of site maps)."""
    T = [(i + 1) % N for i in range(N)]
    P = [N - 1 - i for i in range(N)]
    Z = [-(i + 1) for i in range(N)]
    opts = ["T", "P", "cyc", "cyc", "cyc2", "2d"]
    if inv:
        opts += ["Z", "TZ", "PZ", "zAB", "cycZ", "cycZ", "pz", "2dZ"]
    o = rng.choice(opts)
    if o == "T":
        return [T]
    if o == "P":
        return [P]
    if o == "Z":
        return [Z]
    if o == "TZ":
        return [T, Z]
    if o == "PZ":
        return [P, Z]
    if o == "pz":
        return [[-(N - 1 - i + 1) for i in range(N)]]
    if o == "zAB":
        zA = [-(i + 1) if i % 2 == 0 else i for i in range(N)]
        zB = [-(i + 1) if i % 2 == 1 else i for i in range(N)]
        m = [zA, zB]
        if N % 2 == 0 and rng.random() < 0.6:
            m.append([(i + 2) % N for i in range(N)])
        return m
    if o in ("2d", "2dZ"):
        f = [a for a in range(2, N) if N % a == 0]
        if not f:
            return [T]
        Lx = rng.choice(f)
        Ly = N // Lx
        Tx = [(i % Lx + 1) % Lx + Lx * (i // Lx) for i in range(N)]
        Ty = [i % Lx + Lx * ((i // Lx + 1) % Ly) for i in range(N)]
        return [Tx, Ty] + ([Z] if o == "2dZ" else [])
    # disjoint cycles
    sites = list(range(N))
    rng.shuffle(sites)
    out = []
    while len(sites) > 1 and len(out) < 3:
        k = rng.randint(2, len(sites)) if rng.random() < 0.8 else len(sites)
        cyc, sites = sites[:k], sites[k:]
        m = list(range(N))
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            m[a] = b
        if o == "cycZ" and rng.random() < 0.7:
            for a in cyc:
                if rng.random() < 0.5:
                    m[a] = -(m[a] + 1)
        out.append(m)
        if o == "cyc2":
            break
    return out or [T]


def gen_basis(rng, maxdim=400, kinds=("spin", "spin", "spin", "boson", "sf", "sff"), big=True):
    """A description of a general basis: constructor arguments and what the reference model needs."""
    for _ in range(200):
        kind = rng.choice(kinds)
        g = {"kind": kind, "S": "1/2", "pauli": 1, "double": True, "simple": True, "big": False}
        if kind == "spin":
            g["S"] = rng.choice(["1/2", "1/2", "1/2", "1", "3/2", "2"])
            g["sps"] = {"1/2": 2, "1": 3, "3/2": 4, "2": 5}[g["S"]]
            g["pauli"] = rng.choice([-1, 0, 1])
        elif kind == "boson":
            g["sps"] = rng.choice([2, 3, 3, 4, 5])
        else:
            g["sps"] = 2
        if big and rng.random() < 0.12 and kind in ("spin", "sf", "boson"):
            g["big"] = True
            g["N"] = N = rng.choice({2: [32, 33, 64, 65, 70, 100, 130], 3: [20, 21, 21, 40, 41, 70],
                                        4: [16, 17, 32, 33, 45, 70], 5: [13, 14, 14, 27, 28, 70]}[g["sps"]])
        else:
            hi = {2: 9, 3: 5, 4: 4, 5: 3}[g["sps"]]
            g["N"] = N = rng.randint(1 if rng.random() < 0.1 else 2, hi)
        if kind == "sff":
            g["N"] = N = rng.randint(1, 4)
        nn = N if kind != "sff" else 2 * N
        full = (g["sps"] - 1) * nn
        # particle sector
        sec = rng.choice(["none", "one", "one", "list"])
        if g["big"]:
            sec = "one" if rng.random() < 0.7 else "list"
        if kind == "sff":
            sec = rng.choice(["none", "one", "one", "list"])
            pairs = [(a, b) for a in range(N + 1) for b in range(N + 1)]
            if sec == "none":
                g["Np"] = None
            elif sec == "one":
                g["Np"] = [list(rng.choice(pairs))]
            else:
                g["Np"] = [list(p) for p in rng.sample(pairs, min(len(pairs), rng.randint(2, 3)))]
            g["listed"] = sec == "list"
            g["double"] = rng.random() < 0.75
        else:
            if sec == "none":
                g["Np"] = None
            elif sec == "one":
                g["Np"] = [rng.choice([1, 1, 2]) if g["big"] else rng.randint(0, full)]
            else:
                pool = [0, 1, 2] if g["big"] else list(range(full + 1))
                g["Np"] = sorted(rng.sample(pool, min(len(pool), rng.randint(1, 3))), key=lambda x: rng.random())
            g["listed"] = sec == "list"
        # symmetries
        g["maps"] = []
        if rng.random() < 0.85 and N > 1:
            if kind == "sff":
                g["maps"] = sff_maps(rng, g)
            else:
                half = g["Np"] is None or (not g["listed"] and 2 * g["Np"][0] == full) or (
                    g["listed"] and sorted(g["Np"]) == sorted(full - x for x in g["Np"]))
                inv = half and not (kind == "sf")
                ms = chain_maps(rng, N, inv)
                if any(j < 0 for m in ms for j in m) and g["Np"] is not None:
                    # in a sector only the reversal of all sites keeps the particle number
                    ms = [m for m in ms if all(j < 0 for j in m) or all(j >= 0 for j in m)] or [[-(i + 1) for i in range(N)]]
                if kind == "sf" and half and rng.random() < 0.3:
                    ms = [m for m in ms if rng.random() < 0.5] + [[-(i + 1) for i in range(N)]]
                g["maps"] = ms
        if g["maps"] and rng.random() < 0.06:
            # maps that do nothing are refused with a warning only
            g["maps"] = g["maps"] + [list(range(len(g["maps"][0])))] * rng.randint(1, 2)
        rng.shuffle(g["maps"])
        pers = [period(m) for m in g["maps"]]
        if g["big"] and np.prod([1] + pers, dtype=float) > 3000:
            continue
        g["qs"] = [rng.choice([0, 0, 0, rng.randrange(T), rng.randrange(-T, T)]) for T in pers]
        if rng.random() < 0.5:
            g["qs"] = [q if rng.random() < 0.5 else (T // 2 if T % 2 == 0 else 0) for q, T in zip(g["qs"], pers)]
        g["order"] = rng.sample(range(len(pers)), len(pers)) if rng.random() < 0.4 else None
        d = dim(g)
        if d > maxdim or d < 1:
            continue
        if g["big"] and d > 260:
            continue
        g["seed"] = rng.getrandbits(31)
        return g
    raise AssertionError("no basis")


def sff_maps(rng, g):
    N = g["N"]
    g["simple"] = rng.random() < 0.6
    eq = g["Np"] is None or all([b, a] in [list(x) for x in g["Np"]] for a, b in g["Np"])
    perms = [m for m in chain_maps(rng, N, False)]
    if g["simple"]:
        ms = perms
        if eq and rng.random() < 0.5:
            ms = ms[: rng.randint(0, len(ms))] + [[-(i + 1) for i in range(N)]]  # exchange of up and down
        return ms
    ms = [list(m) + [x + N for x in m] for m in perms]
    if eq and rng.random() < 0.4:
        ms.append([i + N for i in range(N)] + list(range(N)))
    if (g["Np"] is None or sorted(map(tuple, g["Np"])) == sorted((N - a, N - b) for a, b in g["Np"])) and g["double"] and rng.random() < 0.4:
        ms.append([-(i + 1) for i in range(2 * N)])
    return ms


def dim(g):
    if g["kind"] == "sff":
        N = g["N"]
        if g["Np"] is None:
            return 4 ** N
        return sum(math.comb(N, a) * math.comb(N, b) for a, b in g["Np"])
    if g["Np"] is None:
        return g["sps"] ** g["N"]

    def H(n):
        s = g["sps"]
        return sum((-1) ** r * math.comb(g["N"], r) * math.comb(g["N"] + n - r * s - 1, n - r * s) for r in range(n // s + 1))
    return sum(H(n) for n in g["Np"])


def full_maps(g):
    """The maps on all sites (spinful fermions: 2N sites, up first)."""
    if g["kind"] == "sff" and g["simple"]:
        N = g["N"]
        out = []
        for m in g["maps"]:
            if all(x >= 0 for x in m):
                out.append(list(m) + [x + N for x in m])
            else:
                i = [(-(x + 1) + N if x < 0 else x) for x in m]
                out.append(i + [(x + N) % (2 * N) for x in i])
        return out
    return g["maps"]


def ordered(g):
    """Indices of the maps in the order in which their projectors may be applied (irrelevant for commuting maps)."""
    return list(range(len(g["maps"])))


def sector_digits(g):
    kind, N, sps = g["kind"], g["N"], g["sps"]
    if kind == "sff":
        out = []
        pairs = [(a, b) for a in range(N + 1) for b in range(N + 1)] if g["Np"] is None else g["Np"]
        for a, b in pairs:
            out += [u + d for u in compositions(N, 2, a) for d in compositions(N, 2, b)]
        if not g["double"]:
            out = [d for d in out if not any(d[i] and d[i + N] for i in range(N))]
        return out
    if g["Np"] is None:
        return list(itertools.product(range(sps), repeat=N))
    out = []
    for n in g["Np"]:
        out += list(compositions(N, sps, n))
    return out


def reference(g):
    return Ref(g["kind"], g["N"] * (2 if g["kind"] == "sff" else 1), g["sps"], sector_digits(g), full_maps(g), g["qs"])


def np_arg(g):
    if g["Np"] is None:
        return None
    if g["kind"] == "sff":
        return [tuple(x) for x in g["Np"]] if g["listed"] else tuple(g["Np"][0])
    return list(g["Np"]) if g["listed"] else g["Np"][0]


def construct(g, maps=None, qs=None, **kw):
    """The QuSpin basis (imports quspin; call only in a worker)."""
    from quspin.basis import (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general)
    maps = g["maps"] if maps is None else maps
    qs = g["qs"] if qs is None else qs
    blocks = {"b%d" % i: (np.array(m), q) for i, (m, q) in enumerate(zip(maps, qs))}
    if g.get("order") is not None and len(g["order"]) == len(maps):
        kw["block_order"] = ["b%d" % i for i in g["order"]]
    blocks.update(kw)
    n = np_arg(g)
    if g["kind"] == "spin":
        return spin_basis_general(g["N"], Nup=n, S=g["S"], pauli=g["pauli"], **blocks)
    if g["kind"] == "boson":
        return boson_basis_general(g["N"], Nb=n, sps=g["sps"], **blocks)
    if g["kind"] == "sf":
        return spinless_fermion_basis_general(g["N"], Nf=n, **blocks)
    return spinful_fermion_basis_general(g["N"], Nf=n, simple_symm=g["simple"], double_occupancy=g["double"], **blocks)


def py_ints(states):
    """Python integers of an array of states of any of QuSpin's integer types."""
    from quspin.basis.basis_general._basis_general_core.general_basis_utils import basis_int_to_python_int
    if getattr(states, "dtype", None) is not None and states.dtype.kind in "ui":
        return [int(x) for x in states]
    return [int(basis_int_to_python_int(x)) for x in states]


def to_states(basis, ints):
    """An array of the basis' integer type."""
    dt = basis._basis.dtype if hasattr(basis, "_basis") else basis.dtype
    if dt.kind in "ui":
        return np.array(ints, dtype=dt)
    from quspin.basis import basis_zeros
    from quspin.basis.basis_general._basis_general_core.general_basis_utils import python_int_to_basis_int
    out = basis_zeros(len(ints), dtype=dt)
    for i, x in enumerate(ints):
        out[i] = python_int_to_basis_int(x, dtype=dt)
    return out


# ------------------------------------------------------------------ operators
def random_term(rng, g, ref_N, conserve, diag_only=False, allow_x=True, nmax=3):
    kind = g["kind"]
    k = rng.randint(1, nmax)
    if diag_only:
        ops = "z" if kind in ("spin",) else "z"
    elif conserve:
        ops = None
    else:
        ops = {"spin": "+-zxyI" if g["sps"] == 2 and allow_x else "+-zI", "boson": "+-nzI", "sf": "+-nzI", "sff": "+-nzI"}[kind]
    indx = [rng.randrange(ref_N) for _ in range(k)]
    if ops is not None:
        s = "".join(rng.choice(ops) for _ in range(k))
        if rng.random() < 0.5:
            indx = rng.sample(range(ref_N), k) if k <= ref_N else indx
        return s, indx
    base = rng.choice([["+-"], ["-+"], ["z"], ["zz"], ["+-", "z"], ["++--"], ["n"], ["nn"], ["+-", "n"]])
    s = "".join(base)
    if kind == "spin":
        s = s.replace("n", "z")
    indx = [rng.randrange(ref_N) for _ in s] if rng.random() < 0.4 or len(s) > ref_N else rng.sample(range(ref_N), len(s))
    return s, indx


def map_term(term, m, fermion):
    """U J O U^dagger for a term [opstr, indx, J] and a site map m."""
    s, indx, J = term
    o, ii = "", []
    for ch, i in zip(s, indx):
        j = m[i]
        if j < 0:
            j = -(j + 1)
            if ch in "zy":
                J = -J
            elif ch in "+-":
                if fermion and i % 2:
                    J = -J
                ch = "-" if ch == "+" else "+"
            elif ch == "n":
                raise ValueError("n under reversal")
        o += ch
        ii.append(j)
    return [o, ii, J]


def orbit_terms(term, maps, fermion, cap=400):
    """The terms of sum over the group of U O U^dagger, each different term once with the coefficient it gets as an orbit element."""
    start = [term[0], list(term[1]), term[2]]
    out = [start]
    seen = {(start[0], tuple(start[1]), complex(start[2]))}
    todo = [start]
    while todo:
        t = todo.pop()
        for m in maps:
            n = map_term(t, m, fermion)
            key = (n[0], tuple(n[1]), complex(n[2]))
            if key not in seen:
                seen.add(key)
                out.append(n)
                todo.append(n)
                if len(out) > cap:
                    return None
    return out
