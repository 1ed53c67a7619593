"""Small spin-1/2 chains written out as dense matrices (site 0 most significant, up first), independent of QuSpin."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

S = {"I": np.eye(2), "x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1.0, -1]),
     "+": np.array([[0, 1], [0, 0]]), "-": np.array([[0, 0], [1, 0]])}


def dense(L, lst, pauli=1):
    """The matrix of a QuSpin static list; pauli=1: sigma matrices with sigma^+- = (sigma^x +- i sigma^y), 0: spin operators, -1: sigma with sigma^+-/2."""
    H = np.zeros((2 ** L, 2 ** L), complex)
    for op, bonds in lst:
        for b in bonds:
            M = np.eye(2 ** L, dtype=complex) * b[0]
            for ch, i in zip(op, b[1:]):
                A = S[ch] * {1: 2.0 if ch in "+-" else 1.0, 0: 1.0 if ch in "+-I" else 0.5, -1: 1.0}[pauli]
                M = M.dot(np.kron(np.kron(np.eye(2 ** int(i)), A), np.eye(2 ** (L - int(i) - 1))))
            H += M
    return H


def sector(L, Nup):
    """Rows of the states with Nup up spins."""
    return np.array([i for i in range(2 ** L) if bin(2 ** L - 1 - i).count("1") == Nup], int)


def propagate(H0, dyn, psi, t0, times, fac=-1j, rtol=1e-11):
    """psi' = fac*(H0 + sum f(t) H1) psi at the given times (any order on both sides of t0)."""
    psi = np.asarray(psi, complex)
    out = np.zeros((len(times),) + psi.shape, complex)
    if not dyn:
        for k, t in enumerate(times):
            out[k] = expm(fac * H0 * (t - t0)).dot(psi)
        return out

    def rhs(t, y):
        H = H0 + sum(f(t) * M for f, M in dyn)
        return (fac * H.dot(y.reshape(psi.shape))).ravel()
    for k, t in enumerate(times):
        if t == t0:
            out[k] = psi
            continue
        r = solve_ivp(rhs, (t0, t), psi.ravel(), method="DOP853", rtol=rtol, atol=1e-12)
        out[k] = r.y[:, -1].reshape(psi.shape)
    return out


def chain_terms(rng, L, conserve):
    """Translation- and reflection-invariant terms with periodic boundaries; conserve: '' or 'N' (particle number) or 'Z' (spin inversion)."""
    nn = [[i, (i + 1) % L] for i in range(L)] if L > 2 else [[0, 1]]
    nnn = [[i, (i + 2) % L] for i in range(L)] if L > 2 else [[0, 1]]
    opts = [("zz", nn), ("zz", nnn)]
    if conserve == "N":
        opts += [("+-", nn), ("+-", nnn), ("z", [[i] for i in range(L)])]
    elif conserve == "Z":
        opts += [("xx", nn), ("yy", nn), ("x", [[i] for i in range(L)]), ("xx", nnn)]
    else:
        opts += [("xx", nn), ("yy", nn), ("x", [[i] for i in range(L)]), ("z", [[i] for i in range(L)])]
    op, bonds = rng.choice(opts)
    J = rng.choice([1.0, -0.7, 0.45, 0.3])
    if op == "+-":
        return [["+-", [[J] + b for b in bonds]], ["-+", [[J] + b for b in bonds]]]
    return [[op, [[J] + b for b in bonds]]]
