"""P18: histories of one-dimensional symmetry bases, tensor bases and photon bases that share sub-bases, against dense second-quantised matrices."""
import builtins
import copy
import itertools
import pickle
import random
import warnings
import numpy as np
import scipy.sparse as sp
from checks.dense import Lattice, ho_word
from checks.util import close, rnd, interrupt
from sim.core import Violation

ID = "P18"
TREE = "plain"
NEED = None
QUICK = (4000, 80)
THOROUGH = (100000, 3000)
SHRINK = {"ops": 1}
RULE = ("seeded history on a pool of bases of one lattice (spins, bosons, spinless and spinful fermions; every combination of symmetry blocks and particle sectors; tensor products of "
        "pool members; photon bases with Nph or Ntot; copies and pickles), of operator matrices, projections, look-ups, complete sets of sectors, symmetry checks answered by a "
        "simulated terminal, refused arguments, callers overwriting what they received, and interrupts before a chosen line; every result is compared with dense matrices; "
        "non-trivial when a symmetry block holds more than one state or a composite basis exists; distinct by scenario")
REAL = ["quspin.basis (1d bases, tensor_basis, photon_basis)", "compiled one-dimensional cores", "quspin.operators.hamiltonian", "pickle and copy of bases"]
STUB = ["terminal: input() answered by the simulator or failing", "interrupts: raised by the simulator before a chosen line"]
OPS = (["new"] * 6 + ["complete"] * 2 + ["op"] * 14 + ["proj"] * 8 + ["states"] * 4 + ["copy"] * 2 + ["tensor"] * 4 + ["photon"] * 4 + ["check"] * 6 + ["expand"] * 4 + ["refuse"] * 2 + ["scribble"] * 2)
FAMS = [(), ("k",), ("k",), ("p",), ("z",), ("pz",), ("p", "z"), ("k", "p"), ("k", "p"), ("k", "z"), ("k", "pz"), ("k", "p", "z"), ("zA",), ("zB",), ("zA", "zB"), ("k", "zA"),
        ("k", "zB"), ("k", "zA", "zB")]
NAMES = {"spin": dict(k="kblock", p="pblock", z="zblock", pz="pzblock", zA="zAblock", zB="zBblock"),
         "boson": dict(k="kblock", p="pblock", z="cblock", pz="pcblock", zA="cAblock", zB="cBblock"),
         "sf": dict(k="kblock", p="pblock"), "sff": dict(k="kblock", p="pblock", z="sblock", pz="psblock")}
NKEY = {"spin": "Nup", "boson": "Nb", "sf": "Nf", "sff": "Nf"}


def setup():
    global hamiltonian, QB
    warnings.simplefilter("ignore")
    from quspin.operators import hamiltonian
    import quspin.basis as QB


def gen(rng, tier):
    kind, L, sps = rng.choice([("spin", 2, 2), ("spin", 3, 2), ("spin", 4, 2), ("spin", 4, 2), ("spin", 5, 2), ("spin", 6, 2), ("spin", 2, 3), ("spin", 3, 3), ("spin", 4, 3),
                               ("spin", 2, 4), ("boson", 3, 2), ("boson", 4, 2), ("boson", 2, 3), ("boson", 3, 3), ("boson", 4, 3), ("boson", 2, 4), ("sf", 3, 2), ("sf", 4, 2),
                               ("sf", 5, 2), ("sf", 6, 2), ("sff", 2, 2), ("sff", 2, 2), ("sff", 3, 2), ("sff", 1, 2), ("spin", 1, 2), ("sf", 2, 2), ("boson", 1, 4)])
    sc = {"kind": kind, "L": L, "sps": sps, "pauli": rng.choice([1, 1, 0, -1]), "cseed": rng.getrandbits(40)}
    sc["ops"] = [{"op": "new", "seed": rng.getrandbits(31), "cut": 0}]
    for _ in range(rng.randint(3, 9)):
        sc["ops"].append({"op": rng.choice(OPS), "seed": rng.getrandbits(31), "cut": rng.choice([0] * 6 + [rng.randint(1, 90)])})
    return sc


class Obj:
    def __init__(self, b, P, cls, fam=(), kw=None, parts=None, ho=None, Ntot=None):
        self.b, self.P, self.cls, self.fam, self.kw, self.parts, self.ho, self.Ntot = b, P, cls, fam, kw or {}, parts, ho, Ntot
        self.n = P.shape[1]
        self.cplx = bool(self.n and np.abs(P.imag).max() > 1e-12)


def flip_char(ch):
    return {"+": ("-", 1), "-": ("+", 1), "z": ("z", -1), "y": ("y", -1), "x": ("x", 1), "I": ("I", 1)}[ch]


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.lat = Lattice(sc["kind"], sc["L"], sc["sps"], sc["pauli"])
        self.pool, self.nontrivial = [], False

    # ---- one-dimensional bases
    def construct(self, kw):
        sc = self.sc
        k, L = sc["kind"], sc["L"]
        if k == "spin":
            return QB.spin_basis_1d(L, S={2: "1/2", 3: "1", 4: "3/2"}[sc["sps"]], pauli=sc["pauli"], **kw)
        if k == "boson":
            return QB.boson_basis_1d(L, sps=sc["sps"], **kw)
        return (QB.spinless_fermion_basis_1d if k == "sf" else QB.spinful_fermion_basis_1d)(L, **kw)

    def family(self, rng, number):
        """symmetry kinds with the unit cell; None when this lattice has no such blocks"""
        kind, L, sps = self.sc["kind"], self.sc["L"], self.sc["sps"]
        for _ in range(20):
            fam = rng.choice(FAMS)
            if any(f not in NAMES[kind] for f in fam):
                continue
            inv = set(fam) & {"z", "pz", "zA", "zB"}
            if inv and kind == "boson" and sps > 2:
                continue
            if number == "one" and inv:
                continue
            if number and set(fam) & {"zA", "zB"}:
                continue
            a = rng.choice([x for x in (1, 1, 2, 3) if L % x == 0])
            if "k" in fam and set(fam) & {"zA", "zB"}:
                if L % 2:
                    continue
                a = 2
            return fam, (a if "k" in fam else 1)
        return (), 1

    def values(self, fam, a):
        n = self.sc["L"] // a
        out = []
        for f in fam:
            if f == "k":
                out.append(list(range(n // 2 + 1)) if ("p" in fam or "pz" in fam) else list(range(n)))
            else:
                out.append([1, -1])
        return out

    def kwargs(self, fam, a, q):
        kw = {NAMES[self.sc["kind"]][f]: v for f, v in zip(fam, q)}
        if "k" in fam:
            kw["a"] = a
        return kw

    def half(self):
        L, kind, sps = self.sc["L"], self.sc["kind"], self.sc["sps"]
        if kind == "sff":
            return None if L % 2 else (L // 2, L // 2)
        return None if L * (sps - 1) % 2 else L * (sps - 1) // 2

    def number_kw(self, rng, fam):
        """a particle sector compatible with the blocks, and the rows of the product states it holds"""
        lat, kind, L, sps = self.lat, self.sc["kind"], self.sc["L"], self.sc["sps"]
        every = np.ones(lat.Ns, bool)
        if rng.random() < 0.4 or set(fam) & {"zA", "zB"}:
            return {}, every
        if set(fam) & {"z", "pz"}:
            h = self.half()
            if h is None:
                return {}, every
            return {NKEY[kind]: h}, self.rows(h)
        if kind == "sff":
            opts = list(itertools.product(range(L + 1), repeat=2))
        else:
            opts = list(range(L * (sps - 1) + 1))
        if rng.random() < 0.6:
            x = rng.choice(opts)
            return {NKEY[kind]: x}, self.rows(x)
        xs = rng.sample(opts, rng.randint(1, min(3, len(opts))))
        rows = np.zeros(lat.Ns, bool)
        for x in xs:
            rows |= self.rows(x)
        return {NKEY[kind]: xs}, rows

    def rows(self, x):
        L = self.sc["L"]
        if self.sc["kind"] == "sff":
            return (self.lat.digits[:L].sum(0) == x[0]) & (self.lat.digits[L:].sum(0) == x[1])
        return self.lat.number == x

    def unitary(self, f, a):
        """The symmetry as a signed permutation of product states: columns to rows."""
        lat, L = self.lat, self.sc["L"]
        N = lat.N
        d = lat.digits
        site = list(range(N))           # site i is moved to site[i]
        flip = [False] * N
        swap = lambda i: (i + L) % (2 * L) if f in ("z", "pz") and lat.kind == "sff" else i
        for i in range(N):
            base, s = i - i % L, i % L
            if f == "k":
                s = (s + a) % L
            if f in ("p", "pz"):
                s = L - 1 - s
            site[i] = swap(base + s)
            if lat.kind != "sff":
                flip[i] = f in ("z", "pz") or (f == "zA" and i % 2 == 0) or (f == "zB" and i % 2 == 1)
        new = np.zeros_like(d)
        for i in range(N):
            new[site[i]] = (lat.sps - 1 - d[i]) if flip[i] else d[i]
        idx = np.zeros(lat.Ns, int)
        for i in range(N):
            idx += (lat.sps - 1 - new[i]) * lat.sps ** (N - 1 - i)
        sign = np.ones(lat.Ns)
        if lat.fermion:
            for j in range(lat.Ns):
                seq = [site[i] for i in range(N) if d[i][j]]
                sign[j] = (-1) ** sum(1 for x in range(len(seq)) for y in range(x) if seq[y] > seq[x])
        U = np.zeros((lat.Ns, lat.Ns))
        U[idx, np.arange(lat.Ns)] = sign
        return U

    def orbit(self, op, idx, fam, a):
        """All images of a string under the symmetries; None when they cancel."""
        L, kind = self.sc["L"], self.sc["kind"]

        def image(f, c, op, idx):
            out_op, out_idx = [], []
            for ch, i in zip(op, idx):
                base, s = i - i % L, i % L
                old = s
                if f == "k":
                    s = (s + a) % L
                if f in ("p", "pz"):
                    s = L - 1 - s
                if kind != "sff" and (f in ("z", "pz") or (f == "zA" and old % 2 == 0) or (f == "zB" and old % 2 == 1)):
                    ch, g = flip_char(ch)
                    c = c * g
                out_op.append(ch)
                out_idx.append((base + s + L) % (2 * L) if kind == "sff" and f in ("z", "pz") else base + s)
            if kind == "sff":
                up = [(ch, i) for ch, i in zip(out_op, out_idx) if i < L]
                dn = [(ch, i) for ch, i in zip(out_op, out_idx) if i >= L]
                inv = 0
                seen = 0
                for ch, i in zip(out_op, out_idx):
                    if i >= L and ch in "+-":
                        seen += 1
                    elif i < L and ch in "+-":
                        inv += seen
                c = c * (-1) ** inv
                out_op = [ch for ch, _ in up + dn]
                out_idx = [i for _, i in up + dn]
            return c, "".join(out_op), tuple(out_idx)
        seen = {(op, tuple(idx)): 1}
        todo = [(1, op, tuple(idx))]
        while todo:
            cur = todo.pop()
            for f in fam:
                c, o, i = image(f, *cur)
                if (o, i) not in seen:
                    seen[(o, i)] = c
                    todo.append((c, o, i))
                elif seen[(o, i)] != c:
                    return None
        return seen

    def string(self, rng, fam, conserve=False, xy=False):
        kind, L = self.sc["kind"], self.sc["L"]
        inv = set(fam) & {"z", "pz", "zA", "zB"} and kind != "sff"
        chars = "+-zI"
        if kind == "spin" and (self.sc["sps"] == 2 or xy):
            chars += "xyxy" if xy else "xy"
        if kind in ("boson", "sf", "sff") and not inv:
            chars += "n"
        n = rng.randint(1, 3)
        if conserve and rng.random() < 0.6:
            op = rng.choice(["+-", "-+", "+z-", "zz", "z", "+-z", "-+I"])
        elif conserve:
            op = "".join(rng.choice([c for c in chars if c not in "+-xy"]) for _ in range(n))
        else:
            op = "".join(rng.choice(chars) for _ in range(n))
        idx = [rng.randrange(self.lat.N) for _ in op]
        if conserve and kind == "sff":
            s = rng.randrange(2)
            idx = [i % L + L * (s if ch in "+-" else rng.randrange(2)) for ch, i in zip(op, idx)]
        if kind == "sff":
            both = sorted(zip(idx, range(len(op)), op), key=lambda t: t[0] >= L)
            op, idx = "".join(b[2] for b in both), [b[0] for b in both]
        return op, idx

    def terms(self, rng, fam, a, conserve=False, herm=False, xy=False):
        """A static list (QuSpin form) invariant under the symmetries, and its matrix on the product states."""
        lat, L, kind = self.lat, self.sc["L"], self.sc["kind"]
        for _ in range(12):
            op, idx = self.string(rng, fam, conserve, xy)
            seen = self.orbit(op, idx, fam, a)
            if seen is None:
                continue
            J = rng.choice([1.0, -0.6, 0.35]) * (rng.choice([1, 1, 1, 1j]) if not herm else 1)
            M = sum(J * c * lat.word(o, i) for (o, i), c in seen.items())
            static = {}
            for (o, i), c in seen.items():
                if kind == "sff":
                    nu = sum(1 for x in i if x < L)
                    o2, i2 = o[:nu] + "|" + o[nu:], [x % L for x in i]
                else:
                    o2, i2 = o, list(i)
                static.setdefault(o2, []).append([J * c] + [int(x) for x in i2])
            if herm:
                hc = {}
                for (o, i), c in seen.items():
                    o3, i3 = o[::-1].translate(str.maketrans("+-", "-+")), list(i[::-1])
                    s = 1
                    if kind == "sff":
                        up = [(ch, x) for ch, x in zip(o3, i3) if x < L]
                        dn = [(ch, x) for ch, x in zip(o3, i3) if x >= L]
                        k1 = sum(1 for ch, _ in up if ch in "+-")
                        k2 = sum(1 for ch, _ in dn if ch in "+-")
                        s = (-1) ** (k1 * k2)
                        o3 = "".join(ch for ch, _ in up) + "|" + "".join(ch for ch, _ in dn)
                        i3 = [x % L for _, x in up + dn]
                    hc.setdefault(o3, []).append([np.conj(J) * c * s] + [int(x) for x in i3])
                for o, lst in hc.items():
                    static.setdefault(o, []).extend(lst)
                M = M + M.conj().T
            return [[o, lst] for o, lst in static.items()], M
        return None

    def new(self, rng):
        number = rng.random()
        fam, a = self.family(rng, None)
        nk, rows = self.number_kw(rng, fam)
        q = [rng.choice(v) for v in self.values(fam, a)]
        kw = dict(self.kwargs(fam, a, q), **nk)
        if "k" in fam and rng.random() < 0.3:
            n = self.sc["L"] // a
            kw["kblock"] += rng.choice([-n, n]) if not ("p" in fam or "pz" in fam) else n
        given = copy.deepcopy(kw)
        b = self.construct(kw)
        if kw != given:
            raise Violation("arguments-changed", "the constructor changed its arguments %r" % (given,))
        what = "%s(%d, %r)" % (self.sc["kind"], self.sc["L"], kw)
        P = self.matrix(b, what)
        if np.abs(P[~rows]).max(initial=0) > 1e-12:
            raise Violation("sector:number", "%s has states outside its particle sector" % what)
        self.labels(P, fam, a, q, what)
        o = Obj(b, P, "1d", fam, dict(kw, a=a, q=q))
        if fam and o.n > 1:
            self.nontrivial = True
        self.add(o)

    def matrix(self, b, what):
        P = b.get_proj(np.complex128)
        if P.shape != (self.lat.Ns, b.Ns):
            raise Violation("proj:shape", "%s: get_proj has shape %s, Ns = %d" % (what, P.shape, b.Ns))
        P = P.toarray()
        close(P.conj().T @ P, np.eye(b.Ns), 1e-12, "sector:not-orthonormal", what)
        return P

    def labels(self, P, fam, a, q, what):
        """Basis states are eigenstates of every symmetry with the eigenvalue that the block names (also for the two half sectors of k and -k)."""
        if not P.size:
            return
        q = dict(zip(fam, q))
        n = self.sc["L"] // a
        generic = "k" in q and (2 * q["k"]) % n != 0 and ("p" in q or "pz" in q)
        for f, v in q.items():
            U = self.unitary(f, a)
            if generic and f != "z":
                if f == "k":
                    G = U + U.T
                    close(G @ P, 2 * np.cos(2 * np.pi * v / n) * P, 1e-10, "sector:wrong-quantum-number", "%s: translation" % what)
                continue
            e = np.exp(2j * np.pi * v / n) if f == "k" else v
            close(U @ P, e * P, 1e-10, "sector:wrong-quantum-number", "%s: %s" % (what, f))

    def add(self, o):
        self.pool.append(o)
        if len(self.pool) > 8:
            self.pool.pop(0)

    def complete(self, rng):
        number = rng.choice([None, "half", "one"])
        fam, a = self.family(rng, number)
        rows = np.ones(self.lat.Ns, bool)
        kws = [{}]
        kind, L, sps = self.sc["kind"], self.sc["L"], self.sc["sps"]
        if number == "half" and self.half() is not None:
            rows = self.rows(self.half())
            kws = [{NKEY[kind]: self.half()}]
        elif number == "one":
            x = rng.choice(list(itertools.product(range(L + 1), repeat=2)) if kind == "sff" else list(range(L * (sps - 1) + 1)))
            rows = self.rows(x)
            kws = [{NKEY[kind]: x}]
        Ps, n = [], 0
        for kw0 in kws:
            for q in itertools.product(*self.values(fam, a)):
                kw = dict(self.kwargs(fam, a, q), **kw0)
                Ps.append(self.matrix(self.construct(kw), repr(kw)))
                n += 1
        P = np.concatenate(Ps, axis=1)
        if P.shape[1] != rows.sum():
            raise Violation("sectors:incomplete", "%s L=%d: the %d sectors of %s (a=%d, %s) hold %d states instead of %d" % (kind, L, n, fam, a, kws, P.shape[1], rows.sum()))
        close(P.conj().T @ P, np.eye(P.shape[1]), 1e-10, "sectors:overlap", "%s L=%d, sectors of %s, a=%d, %s" % (kind, L, fam, a, kws))
        self.nontrivial = True

    # ---- composite bases
    def tensor(self, rng):
        c = [o for o in self.pool if o.n and o.P.shape[0] <= 64]
        if not c:
            return
        first = [o for o in c if o.cls != "photon" and self.sc["kind"] != "sff" and o.cls == "1d"]
        if not first:
            return
        l, r = rng.choice(first), rng.choice([o for o in c if o.cls in ("1d", "tensor")] or first)
        if l.P.shape[0] * r.P.shape[0] > 700 or (r.cls == "tensor" and not r.n):
            return
        b = QB.tensor_basis(l.b, r.b)
        P = np.kron(l.P, r.P)
        o = Obj(b, P, "tensor", parts=(l, r))
        if b.Ns != o.n:
            raise Violation("tensor:Ns", "Ns is %d, not %d" % (b.Ns, o.n))
        self.nontrivial = True
        self.add(o)
        self.check_proj(o, rng)

    def photon(self, rng):
        kind, L = self.sc["kind"], self.sc["L"]
        if kind == "sff" or self.lat.Ns > 64:
            return
        fam, a = self.family(rng, None)
        ntot = rng.random() < 0.6
        if ntot and set(fam) & {"z", "pz", "zA", "zB"}:
            fam = tuple(f for f in fam if f in ("k", "p"))
        q = [rng.choice(v) for v in self.values(fam, a)]
        kw = self.kwargs(fam, a, q)
        ctor = {"spin": "spin_basis_1d", "boson": "boson_basis_1d", "sf": "spinless_fermion_basis_1d"}[kind]
        if kind == "spin":
            kw.update(S={2: "1/2", 3: "1", 4: "3/2"}[self.sc["sps"]], pauli=self.sc["pauli"])
        elif kind == "boson":
            kw.update(sps=self.sc["sps"])
        if ntot:
            Ntot = rng.randint(0, L * (self.sc["sps"] - 1) + 2)
            b = QB.photon_basis(getattr(QB, ctor), L, Ntot=Ntot, **kw)
            cut = Ntot
        else:
            Ntot, cut = None, rng.randint(0, 3)
            b = QB.photon_basis(getattr(QB, ctor), L, Nph=cut, **kw)
        what = "photon_basis(%s, %d, %r, %s=%d)" % (ctor, L, kw, "Ntot" if ntot else "Nph", cut)
        P = b.get_proj(np.complex128)
        if P.shape != (self.lat.Ns * (cut + 1), b.Ns):
            raise Violation("proj:shape", "%s: get_proj has shape %s, Ns = %d" % (what, P.shape, b.Ns))
        P = P.toarray()
        close(P.conj().T @ P, np.eye(b.Ns), 1e-12, "sector:not-orthonormal", what)
        dim = self.dimension(fam, a, q, range(self.lat.Ns) if not ntot else None, Ntot)
        if ntot:
            n = (self.lat.number[:, None] + np.arange(cut + 1)[None, :]).ravel()
            if np.abs(P[n != Ntot]).max(initial=0) > 1e-12:
                raise Violation("sector:number", "%s has states outside its particle sector" % what)
        else:
            dim *= cut + 1
        if b.Ns != dim:
            raise Violation("sectors:incomplete", "%s holds %d states instead of %d" % (what, b.Ns, dim))
        if P.size:
            for f, v in zip(fam, q):
                U = np.kron(self.unitary(f, a), np.eye(cut + 1))
                n = L // a
                if "k" in fam and ("p" in fam or "pz" in fam) and (2 * dict(zip(fam, q))["k"]) % n and f != "z":
                    continue
                e = np.exp(2j * np.pi * v / n) if f == "k" else v
                close(U @ P, e * P, 1e-10, "sector:wrong-quantum-number", "%s: %s" % (what, f))
        self.nontrivial = True
        self.add(Obj(b, P, "photon", fam, dict(a=a, q=q), ho=cut, Ntot=Ntot))

    def dimension(self, fam, a, q, _, Ntot):
        """Dimension of a symmetry sector (with at most Ntot particles) from the trace of the group projector."""
        lat = self.lat
        keep = np.ones(lat.Ns, bool) if Ntot is None else lat.number <= Ntot
        A = np.eye(lat.Ns, dtype=complex)
        n = self.sc["L"] // a
        qq = dict(zip(fam, q))
        generic = "k" in qq and ("p" in qq or "pz" in qq) and (2 * qq["k"]) % n
        for f, v in qq.items():
            if generic and f in ("p", "pz"):
                continue
            U = self.unitary(f, a)
            if f == "k":
                e = np.exp(2j * np.pi * v / n)
                S, W = np.zeros_like(A), np.eye(lat.Ns)
                for r in range(n):
                    S += e ** r * W
                    W = U @ W
                A = A @ S / n
            else:
                A = A @ (np.eye(lat.Ns) + v * U) / 2
        return int(round(np.trace(A[np.ix_(keep, keep)]).real))

    # ---- what bases are asked
    def pick(self, rng, cls=None):
        c = [o for o in self.pool if o.n and (cls is None or o.cls in cls)]
        return rng.choice(c) if c else None

    def operator(self, rng, o, xy=False):
        """A static list for the basis of o and its matrix on the full product space."""
        if o.cls == "1d":
            return self.terms(rng, o.fam, o.kw["a"], xy=xy)
        if o.cls == "tensor":
            l, r = o.parts
            tl, tr = self.operator(rng, l, xy), self.operator(rng, r, xy)
            if tl is None or tr is None:
                return None
            # the product of two lists of strings
            out = {}
            for o1, b1 in tl[0]:
                for o2, b2 in tr[0]:
                    out.setdefault(o1 + "|" + o2, []).extend([[x[0] * y[0]] + x[1:] + y[1:] for x in b1 for y in b2])
            if sum(len(v) for v in out.values()) > 60:
                return None
            return [[k, v] for k, v in out.items()], np.kron(tl[1], tr[1])
        if o.Ntot is None:
            t = self.terms(rng, o.fam, o.kw["a"], xy=xy)
            if t is None:
                return None
            word = rng.choice(["", "n", "+", "-", "+-", "-+", "nn", "I", "++"])
            return [[k + "|" + word, v] for k, v in t[0]], np.kron(t[1], ho_word(word, o.ho))
        for _ in range(8):
            t = self.terms(rng, o.fam, o.kw["a"], conserve=rng.random() < 0.5)
            if t is None:
                continue
            d = {op.count("+") - op.count("-") for op, _ in t[0]}
            if len(d) != 1 or any(set(op) & set("xy") for op, _ in t[0]):
                continue
            d = d.pop()
            word = rng.choice([["", "n", "+-", "-+", "nn"], ["-", "n-"], ["--"], ["---"]][d]) if d >= 0 else rng.choice([["+", "+n"], ["++"], ["+++"]][-d - 1])
            return [[k + "|" + word, v] for k, v in t[0]], np.kron(t[1], ho_word(word, o.ho))
        return None

    def check_op(self, o, rng, cut=0):
        t = self.operator(rng, o)
        if t is None:
            return
        static, M = t
        want = o.P.conj().T @ M @ o.P
        cplx = o.cplx or np.abs(want.imag).max() > 1e-12 or any(isinstance(b[0], complex) or "y" in op for op, lst in static for b in lst)
        dt = rng.choice([np.complex128, np.complex64] if cplx else [np.float64, np.complex128, np.float32])
        tol = 2e-5 if dt in (np.complex64, np.float32) else 1e-10
        given = copy.deepcopy(static)
        what = "%s %s, operator %r" % (o.cls, o.kw, static)
        with interrupt(cut) as it:
            if rng.random() < 0.6:
                H = hamiltonian(static, [], basis=o.b, dtype=dt, check_herm=False, check_symm=False, check_pcon=False)
                close(H.toarray(), want, tol, "operator:hamiltonian", what)
            else:
                got = np.zeros((o.n, o.n), dt)
                for op, lst in static:
                    for b in lst:
                        idx = [b[1:], tuple(b[1:]), np.array(b[1:], int)][rng.randrange(3)]
                        keep = copy.deepcopy(idx)
                        ME, row, col = o.b.Op(op, idx, b[0], dt)
                        if not np.array_equal(np.asarray(keep), np.asarray(idx)):
                            raise Violation("input-modified", "%s: Op changed the indices from %r to %r" % (what, keep, idx))
                        np.add.at(got, (np.asarray(row, int), np.asarray(col, int)), ME)
                        for arr in (ME, row, col):
                            if isinstance(arr, np.ndarray) and arr.flags.writeable:
                                arr[...] = 0
                close(got, want, tol, "operator:Op", what)
        if static != given:
            raise Violation("input-modified", "%s: the list became %r" % (what, static))
        return it

    def check_proj(self, o, rng, cut=0):
        dt = rng.choice([np.complex128, np.complex64] if o.cplx else [np.float64, np.float32, np.complex128])
        tol = 1e-5 if dt in (np.float32, np.complex64) else 1e-12
        rs = np.random.RandomState(rng.getrandbits(31))
        cols = rng.choice([None, 1, 2, 3])
        v = rnd(rs, (o.n,) if cols is None else (o.n, cols), dt)
        kw, P = {}, o.P
        lat = self.lat
        if o.cls == "tensor" and rng.random() < 0.5:
            fl, fr = rng.random() < 0.5, rng.random() < 0.5
            kw = dict(full_left=fl, full_right=fr)
            P = np.kron(o.parts[0].P if fl else np.eye(o.parts[0].n), o.parts[1].P if fr else np.eye(o.parts[1].n))
        if o.cls == "photon" and o.Ntot is not None and rng.random() < 0.4:
            cut_ph = o.Ntot + rng.randint(0, 2)
            kw = dict(Nph=cut_ph)
            big = np.zeros((lat.Ns, cut_ph + 1, o.n), complex)
            big[:, :o.ho + 1] = o.P.reshape(lat.Ns, o.ho + 1, o.n)
            P = big.reshape(-1, o.n)
        what = "%s %s, %s" % (o.cls, o.kw, kw)
        keep = v.copy()
        with interrupt(cut):
            form = rng.randrange(5)
            want = P @ v
            if form == 0:
                G = o.b.get_proj(dt, **kw)
                close(G.toarray(), P, tol, "proj:get_proj", what)
                if G.dtype != dt:
                    raise Violation("proj:dtype", "%s: get_proj(%s) has dtype %s" % (what, np.dtype(dt), G.dtype))
                G.data[...] = 7
            elif form == 1 and o.cls == "1d" and isinstance(o.kw.get(NKEY[self.sc["kind"]]), (int, tuple)):
                G = o.b.get_proj(dt, pcon=True).toarray()
                rows = self.rows(o.kw[NKEY[self.sc["kind"]]])
                close(G, P[rows], tol, "proj:pcon", what)
            elif form == 2:
                f = rng.choice(["project_from", "get_vec"])
                R = getattr(o.b, f)(v, sparse=True, **kw)
                if not sp.issparse(R):
                    raise Violation("proj:not-sparse", "%s: %s(sparse=True) returned %s" % (what, f, type(R)))
                close(R.toarray(), want.reshape(P.shape[0], -1), tol * 10, "proj:sparse", what)
            elif form == 3 and cols is not None:
                R = o.b.project_from(sp.csr_matrix(v) if rng.random() < 0.5 else sp.csc_matrix(v), sparse=rng.random() < 0.5, **kw)
                close(R.toarray() if sp.issparse(R) else np.asarray(R), want, tol * 10, "proj:sparse-input", what)
            else:
                arg = v.tolist() if rng.random() < 0.1 and dt in (np.float64, np.complex128) else v
                R = o.b.project_from(arg, sparse=False, **kw)
                close(R, want, tol * 10, "proj:dense", "%s, %s" % (what, v.shape))
                if np.may_share_memory(R, v):
                    raise Violation("proj:aliases-input", what)
        if not np.array_equal(v, keep):
            raise Violation("input-modified", "%s: a projection changed its vector" % what)

    def check_states(self, o, rng, cut=0):
        if o.cls == "tensor":
            l, r = o.parts
            flat = []
            while r.cls == "tensor":
                flat.append(l)
                l, r = r.parts
            flat += [l, r]
            if self.sc["kind"] == "sff" or not all(p.cls == "1d" for p in flat):
                return
            ix = [rng.randrange(p.n) for p in flat]
            rep = [self.rep(p, i) for p, i in zip(flat, ix)]
            want = 0
            for p, i in zip(flat, ix):
                want = want * p.n + i
            if any("k" in p.fam and ("p" in p.fam or "pz" in p.fam) for p in flat):
                return  # a representative may label two states
            with interrupt(cut):
                got = o.b.index(*rep)
                if int(got) != want:
                    raise Violation("tensor:index", "index%r = %s, not %d" % (tuple(rep), got, want))
            return
        if o.cls != "1d":
            return
        b, lat = o.b, self.lat
        with interrupt(cut):
            states = np.array(b.states)
            if len(states) != o.n or [int(x) for x in b] != [int(x) for x in states] or int(b[0]) != int(states[0]):
                raise Violation("states:inconsistent", "states, iteration and [] differ")
            for i in [0, o.n - 1, rng.randrange(o.n)]:
                s = int(states[i])
                j = lat.Ns - 1 - s
                if abs(o.P[j, i]) < 1e-12 and not ("k" in o.fam and ("p" in o.fam or "pz" in o.fam)):
                    raise Violation("states:not-in-vector", "%s: basis vector %d does not hold its representative %d" % (o.kw, i, s))
                unique = (states == states[i]).sum() == 1
                if self.sc["kind"] == "sff":
                    L = self.sc["L"]
                    got = b.index(s >> L, s & ((1 << L) - 1))
                    if unique and int(got) != i:
                        raise Violation("states:index", "index = %s, not %d" % (got, i))
                    continue
                got = b.index(s)
                if unique and int(got) != i:
                    raise Violation("states:index", "index(%d) = %s, not %d" % (s, got, i))
                txt = b.int_to_state(s, bracket_notation=False)
                if [int(ch) for ch in txt] != [int(x) for x in lat.digits[:, j]]:
                    raise Violation("states:text", "int_to_state(%d) = %r, digits %s" % (s, txt, lat.digits[:, j]))
                if unique and int(b.index(txt)) != i:
                    raise Violation("states:index", "index(%r) = %s, not %d" % (txt, b.index(txt), i))
                if unique and b.state_to_int(txt) != s:
                    raise Violation("states:text", "state_to_int(%r) = %s, not %d" % (txt, b.state_to_int(txt), s))
            absent = [s for s in range(lat.Ns) if s not in set(int(x) for x in states)]
            if absent and self.sc["kind"] != "sff":
                s = rng.choice(absent)
                try:
                    got = b.index(s)
                except ValueError:
                    pass
                else:
                    raise Violation("states:found-absent", "index(%d) = %s, but the basis has no such state" % (s, got))
            str(b)

    def rep(self, p, i):
        return int(np.array(p.b.states)[i])

    def copies(self, rng, cut):
        o = self.pick(rng)
        if o is None:
            return
        how = rng.randrange(3)
        with interrupt(cut) as it:
            b = pickle.loads(pickle.dumps(o.b, protocol=rng.choice([0, 2, 4]))) if how == 0 else copy.deepcopy(o.b) if how == 1 else copy.copy(o.b)
        if it.fired:
            return
        n = Obj(b, o.P, o.cls, o.fam, o.kw, o.parts, o.ho, o.Ntot)
        if b.Ns != n.n:
            raise Violation("copy:Ns", "the copy has %d states, not %d" % (b.Ns, n.n))
        self.add(n)

    def bond_matrix(self, op, bond):
        L = self.sc["L"]
        if self.sc["kind"] == "sff":
            nu = op.index("|")
            return bond[0] * self.lat.word(op.replace("|", ""), [x + (L if i >= nu else 0) for i, x in enumerate(bond[1:])])
        return bond[0] * self.lat.word(op, bond[1:])

    def bonds(self, rng, o):
        """A list of (string, bond, drive) with all the properties the checks ask for, changed in up to two places."""
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            t = self.terms(rng, o.fam, o.kw["a"], conserve=True, herm=True)
            if t is None:
                return None
            drive = rng.choice([0, 0, 1, 2])
            split = rng.random() < 0.25
            for op, lst in t[0]:
                for x in lst:
                    if split:
                        out += [(op, [x[0] / 4] + x[1:], drive), (op, [x[0] * 3 / 4] + x[1:], drive)]
                    else:
                        out.append((op, x, drive))
        changes = rng.choice([0, 0, 1, 1, 2])
        for _ in range(changes):
            i = rng.randrange(len(out))
            op, x, drive = out[i]
            how = rng.choice(["drop", "copy", "drive", "sign", "factor", "foreign", "move"])
            if how == "drop" and len(out) > 1:
                del out[i]
            elif how == "copy":
                out.append((op, list(x), drive))
            elif how == "drive":
                out[i] = (op, x, (drive + 1) % 3)
            elif how == "sign":
                out[i] = (op, [-x[0]] + x[1:], drive)
            elif how == "factor":
                out[i] = (op, [x[0] * rng.choice([2, 1j, 0.5])] + x[1:], drive)
            elif how == "move":
                out[i] = (op, [x[0]] + [rng.randrange(self.sc["L"]) for _ in x[1:]], drive)
            else:
                op, idx = self.string(rng, o.fam, rng.random() < 0.5)
                if self.sc["kind"] == "sff":
                    nu = sum(1 for y in idx if y < self.sc["L"])
                    op, idx = op[:nu] + "|" + op[nu:], [y % self.sc["L"] for y in idx]
                out.append((op, [0.37] + idx, drive))
        rng.shuffle(out) if rng.random() < 0.3 else None
        return out, changes

    def lists(self, rng, bonds):
        f, g = lambda t: 1.0 + t, lambda t, w, v: w * t + v
        static, dyn = {}, {}
        for op, x, drive in bonds:
            (static if drive == 0 else dyn).setdefault(op if drive == 0 else (op, drive), []).append(list(x))
        args = rng.choice([lambda: (3.0, 2.0), lambda: [3.0, 2.0], lambda: [3.0, 2.0]])
        stat = [[op, lst] for op, lst in static.items()]
        return stat, [[op, lst, f if d == 1 else g, () if d == 1 else args()] for (op, d), lst in dyn.items()], {0: lambda t: 1.0, 1: f, 2: lambda t: 3.0 * t + 2.0}

    def check_checks(self, rng, cut):
        """Symmetry, hermiticity and number checks refuse every list that lacks the property and accept lists made of whole orbits."""
        o = self.pick(rng, ("1d",))
        if o is None:
            return
        kind, L = self.sc["kind"], self.sc["L"]
        t = self.bonds(rng, o)
        if t is None:
            return
        bonds, changes = t
        M = {d: sum((self.bond_matrix(op, x) for op, x, dd in bonds if dd == d), np.zeros((self.lat.Ns,) * 2, complex)) for d in (0, 1, 2)}
        same = lambda A, B: np.abs(A - B).max() < 1e-9
        number = [np.diag(self.lat.digits[:L].sum(0)), np.diag(self.lat.digits[L:].sum(0))] if kind == "sff" else [np.diag(self.lat.number)]
        one = isinstance(o.kw.get(NKEY[kind]), (int, tuple))
        truth = {"herm": all(same(X, X.conj().T) for X in M.values()),
                 "pcon": not one or all(same(X @ n, n @ X) for X in M.values() for n in number),
                 "symm": all(same(U @ X, X @ U) for U in [self.unitary(f, o.kw["a"]) for f in o.fam] for X in M.values())}
        flags = {"check_" + k: rng.random() < 0.6 for k in truth}
        stat, dyn, drives = self.lists(rng, bonds)
        answers = rng.choice(["n", "y", "eof"])

        def terminal(prompt=""):
            self.ctx.count("fault:terminal-" + answers)
            if answers == "eof":
                raise EOFError("EOF when reading a line")
            return answers
        keep = copy.deepcopy((stat, [[d[0], d[1]] for d in dyn]))
        old = builtins.input
        builtins.input = terminal
        err = None
        try:
            with interrupt(cut) as it, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    H = hamiltonian(stat, dyn, basis=o.b, dtype=np.complex128, **flags)
                except (TypeError, ValueError, EOFError) as e:
                    err = e
        finally:
            builtins.input = old
        if keep != (stat, [[d[0], d[1]] for d in dyn]):
            raise Violation("input-modified", "the checks changed the lists to %r" % (stat,))
        if it.fired:
            return
        broken = [k for k in truth if flags["check_" + k] and not truth[k]]
        what = "%s %r with %s: %r" % (kind, o.kw, sorted(k for k in flags if flags[k]), bonds)
        if err is None and broken:
            raise Violation("check:accepted-invalid", "%s accepted (%s)" % (what, broken))
        if err is not None and not changes:
            raise Violation("check:refused-valid", "%s refused: %s %s" % (what, type(err).__name__, err))
        if err is None and truth["symm"] and truth["pcon"]:
            for t in (0.0, 1.5):
                close(H.toarray(time=t), sum(drives[d](t) * (o.P.conj().T @ X @ o.P) for d, X in M.items()), 1e-10, "operator:hamiltonian", "t=%s, %s" % (t, what))

    def expand(self, rng, cut):
        """expanded_form: the same operator written with ladder operators only."""
        o = self.pick(rng)
        if o is None:
            return
        ts = []
        for d in rng.sample([0, 1, 2], rng.randint(1, 3)):
            t = self.operator(rng, o, xy=True)
            if t is not None:
                ts.append((d, t))
        if not ts:
            return
        bonds = [(op, x, d) for d, t in ts for op, lst in t[0] for x in lst]
        M = {}
        for d, t in ts:
            M[d] = M.get(d, 0) + t[1]
        stat, dyn, drives = self.lists(rng, bonds)
        keep = copy.deepcopy((stat, [[d[0], d[1]] for d in dyn]))
        what = "%s %r, %r" % (o.cls, o.kw, bonds)
        with interrupt(cut) as it:
            s2, d2 = o.b.expanded_form(stat, dyn)
        if keep != (stat, [[d[0], d[1]] for d in dyn]):
            raise Violation("input-modified", "expanded_form changed the lists to %r" % (stat,))
        if it.fired:
            return
        if any(set(e[0]) & set("xy") for e in s2 + d2):
            raise Violation("expand:not-expanded", "%s: %r %r" % (what, s2, d2))
        H = hamiltonian(s2, d2, basis=o.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False)
        for t in (0.0, 1.5):
            got = H.toarray(time=t) if (s2 or d2) else np.zeros((o.n, o.n))
            close(got, sum(drives[d](t) * (o.P.conj().T @ X @ o.P) for d, X in M.items()), 1e-9, "expand:other-operator", "t=%s, %s became %r %r" % (t, what, s2, d2))

    def refuse(self, rng, cut):
        o = self.pick(rng)
        if o is None:
            return
        N = self.sc["L"]
        bar = {"1d": "|" if self.sc["kind"] == "sff" else "", "tensor": None, "photon": "|"}[o.cls]
        cases = []
        if bar is not None:
            cases = [lambda: o.b.Op("z" + bar, [N], 1.0, np.complex128), lambda: o.b.Op("z" + bar, [-1], 1.0, np.complex128), lambda: o.b.Op("z" + bar, [0, 1], 1.0, np.complex128),
                     lambda: o.b.Op("q" + bar, [0], 1.0, np.complex128)]
        cases += [lambda: o.b.project_from(np.ones(o.n + 1), sparse=False), lambda: o.b.project_from(np.ones((o.n, 1, 1)), sparse=False)]
        if o.cls == "tensor":
            cases += [lambda: o.b.Op("z|z", [0], 1.0, np.complex128)]
        if o.cls == "photon" and o.Ntot:
            cases += [lambda: o.b.get_proj(np.complex128, Nph=o.Ntot - 1), lambda: o.b.project_from(np.ones(o.n), Nph=o.Ntot - 1)]
        if o.cls == "1d":
            cases += [lambda: self.construct(dict(kblock=1, a=self.sc["L"] + 1)), lambda: self.construct(dict(nosuchblock=1)), lambda: self.construct(dict(pblock=2))]
        k = rng.randrange(len(cases))
        try:
            r = cases[k]()
        except Exception:
            return
        raise Violation("refuse:accepted", "%s %s: case %d returned %r" % (o.cls, o.kw, k, r))

    def scribble(self, rng):
        o = self.pick(rng)
        if o is None:
            return
        d = o.b.blocks
        if isinstance(d, dict):
            d.clear()
            d["kblock"] = 77
        if o.cls == "1d":
            try:
                o.b.states[...] = 0
            except ValueError:
                pass

    def step(self, op):
        rng = random.Random(op["seed"])
        cut = op["cut"]
        name = op["op"]
        if cut:
            self.ctx.count("fault:interrupt")
        if name in ("new", "complete", "tensor", "photon"):
            with interrupt(cut):
                getattr(self, name)(rng)
        elif name in ("op", "proj", "states"):
            o = self.pick(rng)
            if o is not None:
                {"op": self.check_op, "proj": self.check_proj, "states": self.check_states}[name](o, rng, cut)
        elif name == "copy":
            self.copies(rng, cut)
        elif name == "check":
            self.check_checks(rng, cut)
        elif name == "expand":
            self.expand(rng, cut)
        elif name == "refuse":
            self.refuse(rng, cut)
        else:
            self.scribble(rng)
        o = self.pick(rng)
        if o is not None and (cut or name in ("scribble", "copy", "tensor", "refuse", "check", "expand")):
            self.check_op(o, rng)
            self.check_proj(o, rng)


def execute(sc, ctx):
    w = World(sc, ctx)
    for i, op in enumerate(sc["ops"]):
        ctx.count("steps")
        try:
            w.step(op)
        except Violation as e:
            raise Violation(e.kind, "step %d (%s): %s" % (i, op["op"], e.msg))
    ctx.state(hash(repr([(o.cls, o.fam, sorted(o.kw.items(), key=str), o.n) for o in w.pool])) & (2 ** 60 - 1), w.nontrivial)
