"""Lattices of spins, bosons and fermions written out as dense matrices, independent of QuSpin (site 0 most significant, most particles first)."""
import numpy as np


def spin_ops(sps, pauli):
    S = (sps - 1) / 2
    m = S - np.arange(sps)
    up = np.zeros((sps, sps))
    for i in range(1, sps):
        up[i - 1, i] = np.sqrt(S * (S + 1) - m[i] * (m[i] + 1))
    f = 2.0 if pauli else 1.0
    g = 2.0 if pauli == 1 else 1.0
    d = {"I": np.eye(sps), "z": f * np.diag(m), "+": g * up, "-": g * up.T, "x": f * (up + up.T) / 2, "y": f * (up - up.T) / 2j}
    if sps == 2:
        d["n"] = np.diag([1.0, 0.0])
    return d


def boson_ops(sps):
    n = np.arange(sps - 1, -1, -1.0)
    b = np.zeros((sps, sps))
    for i in range(sps - 1):
        b[i + 1, i] = np.sqrt(n[i])
    return {"I": np.eye(sps), "n": np.diag(n), "z": np.diag(n - (sps - 1) / 2), "-": b, "+": b.T}


def ho_ops(cut):
    """Words of photon operators act on the unbounded oscillator and are cut at the end: see word()."""
    n = np.arange(cut + 1.0)
    b = np.diag(np.sqrt(n[1:]), 1)
    return {"I": np.eye(cut + 1), "n": np.diag(n), "-": b, "+": b.T}


def ho_word(word, cut):
    big = ho_ops(cut + len(word))
    M = np.eye(cut + len(word) + 1)
    for ch in word:
        M = M @ big[ch]
    return M[:cut + 1, :cut + 1]


class Lattice:
    """kind: spin, boson, sf (spinless fermions), sff (spinful fermions: sites 0..L-1 up, L..2L-1 down)."""

    def __init__(self, kind, L, sps=2, pauli=1):
        self.kind, self.L, self.sps, self.pauli = kind, L, sps, pauli
        self.N = 2 * L if kind == "sff" else L
        self.Ns = self.sps ** self.N
        self.fermion = kind in ("sf", "sff")
        self.ops = spin_ops(sps, pauli if sps == 2 else 0) if kind == "spin" else boson_ops(sps)
        d = np.arange(self.Ns)
        self.digits = np.array([sps - 1 - (d // sps ** (self.N - 1 - i)) % sps for i in range(self.N)])
        self.number = self.digits.sum(axis=0) if self.N else np.zeros(self.Ns, int)
        self.cache = {}

    def site(self, ch, i):
        M = self.cache.get((ch, i))
        if M is None:
            right = np.eye(self.sps ** (self.N - 1 - i))
            if self.fermion and ch in "+-":     # the string of signs runs over the sites behind i
                right = np.array([[1.0]])
                for _ in range(self.N - 1 - i):
                    right = np.kron(right, np.diag([-1.0, 1.0]))
            M = self.cache[(ch, i)] = np.kron(np.kron(np.eye(self.sps ** i), self.ops[ch]), right)
        return M

    def word(self, op, idx):
        """op without '|'; for sff the indices of the down part are given as L+i."""
        M = np.eye(self.Ns, dtype=complex)
        for ch, i in zip(op, idx):
            if ch != "I":
                M = M @ self.site(ch, i)
        return M

    def state_int(self, j):
        """the integer QuSpin gives to product state number j"""
        return self.Ns - 1 - j


def rdm(psi, dims, A):
    """Reduced density matrices of the vector psi over sites of the given dimensions: sites A in the given order, the others in ascending order."""
    B = [i for i in range(len(dims)) if i not in A]
    v = np.asarray(psi).reshape(dims).transpose(list(A) + B).reshape(int(np.prod([dims[i] for i in A], dtype=int)), -1)
    return v @ v.conj().T, v.T @ v.conj()


def rdm_mixed(rho, dims, A):
    n = len(dims)
    B = [i for i in range(n) if i not in A]
    dA = int(np.prod([dims[i] for i in A], dtype=int))
    p = list(A) + B
    r = np.asarray(rho).reshape(tuple(dims) * 2).transpose(p + [n + i for i in p]).reshape(dA, -1, dA, int(np.prod([dims[i] for i in B], dtype=int)))
    return np.einsum("ijkj->ik", r), np.einsum("ijil->jl", r)


def entropy(p, alpha):
    p = np.asarray(p)
    p = p[p > 1e-13]
    if alpha == 1:
        return float(-(p * np.log(p)).sum())
    return float(np.log((p ** alpha).sum()) / (1 - alpha))
