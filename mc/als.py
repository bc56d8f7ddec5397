"""Bond problems (metric, target, shape) and a reference alternating least-squares solver in numpy."""
import numpy as np
from .lib import *

SPECTRA = ("identity", "generic", "cond4", "cond8", "product", "singular", "small", "large")
TARGETS = ("generic", "representable", "gapped", "gated")


def metric(g, n, spec, kind):
    """Hermitian positive N[i, j] over pairs i = (y, x) with the length of v being sum conj(v_j) N[i, j] v_i."""
    m = n * n
    if spec == "identity":
        M = np.eye(m)
    elif spec == "product":
        # what a tree-like surrounding gives: a product of two metrics
        a, b = [randn(g, (n, n), kind) for _ in range(2)]
        M = np.kron(a @ a.conj().T + 0.1 * np.eye(n), b @ b.conj().T + 0.1 * np.eye(n))
    else:
        U = np.linalg.qr(randn(g, (m, m), kind))[0]
        w = {"cond4": np.logspace(0, -4, m), "cond8": np.logspace(0, -8, m),
             "singular": (np.arange(m) < max(1, m // 2)) * (0.5 + g.random(m))}.get(spec, 0.2 + g.random(m))
        w = w * {"small": 1e-7, "large": 1e7}.get(spec, 1.0)
        M = (U * w) @ U.conj().T
    M = (M + M.conj().T) / 2
    return M.reshape(n, n, n, n)


def target(g, n, bD, pD, kind, d):
    """Target tensor [y, x, p, q]."""
    full = n * pD
    if d == "representable":
        a, b = randn(g, (n, bD, pD), kind), randn(g, (n, bD, pD), kind)
        return np.einsum("yup,xuq->yxpq", a, b)
    if d == "gapped":
        U, V = [np.linalg.qr(randn(g, (full, full), kind))[0] for _ in range(2)]
        s = np.where(np.arange(full) < bD, 1 + g.random(full), 0.02 * g.random(full))
        t = (U * np.sort(s)[::-1]) @ V.conj().T
        return t.reshape(n, pD, n, pD).transpose(0, 2, 1, 3)
    if d == "gated":
        # a gate close to one acting on a representable pair
        a, b = randn(g, (n, bD, pD), kind), randn(g, (n, bD, pD), kind)
        h = rand_herm(g, pD * pD, kind)
        G = expm_herm(h, 0.1).reshape((pD,) * 4)
        return np.einsum("rspq,yxpq->yxrs", G, np.einsum("yup,xuq->yxpq", a, b))
    return randn(g, (n, n, pD, pD), kind)


def pair(a1, a2):
    return np.einsum("yup,xuq->yxpq", a1, a2)


def dot(N, a, b):
    """Product of two pair tensors in the metric, linear in a."""
    n, _, p, _ = a.shape
    return ((N.reshape(n * n, -1).T @ a.reshape(n * n, -1)) * b.conj().reshape(n * n, -1)).sum()


def dist2(N, a1, a2, t):
    e = pair(a1, a2) - t
    return dot(N, e, e).real


def svd_start(t, bD):
    n, _, pD, _ = t.shape
    u, s, vh = np.linalg.svd(t.transpose(0, 2, 1, 3).reshape(n * pD, n * pD))
    a1 = (u[:, :bD] * np.sqrt(s[:bD])).reshape(n, pD, bD).transpose(0, 2, 1)
    a2 = (vh[:bD].T * np.sqrt(s[:bD])).reshape(n, pD, bD).transpose(0, 2, 1)
    return a1, a2


def system1(N, t, a2):
    """Normal equations for a1: R[(Y U), (y u)] a1[(y u), p] = S[(Y U), p]."""
    n, bD, pD = a2.shape
    NT = N.reshape(n * n, -1).T                                            # [YX, yx]
    w = (NT @ t.reshape(n * n, -1)).reshape(n, n, pD, pD)                  # [Y, X, p, q]
    S = np.tensordot(w, a2.conj(), axes=((1, 3), (0, 2)))                  # [Y, p, U]
    h = np.tensordot(N, a2, axes=(1, 0))                                   # [y, Y, X, u, q]
    R = np.tensordot(h, a2.conj(), axes=((2, 4), (0, 2)))                  # [y, Y, u, U]
    return R.transpose(1, 3, 0, 2).reshape(n * bD, n * bD), S.transpose(0, 2, 1).reshape(n * bD, pD)


def system2(N, t, a1):
    return system1(N.transpose(1, 0, 3, 2), t.transpose(1, 0, 3, 2), a1)


def sweep(N, t, a1, a2):
    R, S = system1(N, t, a2)
    a1 = np.linalg.lstsq(R, S, rcond=1e-14)[0].reshape(a2.shape)
    R, S = system2(N, t, a1)
    return a1, np.linalg.lstsq(R, S, rcond=1e-14)[0].reshape(a1.shape)


def options(**kw):
    """Evolution configuration as the code builds it."""
    from acetn.ipeps.ipeps_config import EvolutionConfig
    return EvolutionConfig(**quiet(**kw))
