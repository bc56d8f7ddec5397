"""Randomized low-rank decompositions over all small shapes, ranks, requested ranks, iteration counts, dtypes and several random streams."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of shapes, ranks, options and random streams on the real code against the exact decomposition"
RULE = ("one case per (function, dtype, outer shape); within it every grading of the rows (graded matrices) or every combination of inner dimensions, rank, requested rank, iteration count, memory layout, "
        "spectrum and random stream within the bounds; non-trivial: the matrix has rank at least one")
ASSUMPTIONS = ["the tested random streams stand for all of them (the test matrix is generic with probability one)"]
NOTE = "Exact-rank cases: reconstruction to accuracy. Gapped cases: error bound gap^(2*iterations+1) squared, with a factor 100 of the random matrix."
CASE_LIMIT = 600

NAMES = {"plain": ("svd_lowrank", 1), "two": ("fused_matmul_svd_lowrank", 2), "four": ("fused_3matmul_svd_lowrank", 4)}


def cases(tier, seed):
    deep = tier == "thorough"
    sizes = (1, 2, 3, 5, 8) + ((13,) if deep else ())
    out = []
    for fn in NAMES:
        for dt in CDT:
            for m, n in itertools.product(sizes, repeat=2):
                out.append(dict(kind="exact", fn=fn, dtype=dt, m=m, n=n, streams=6 if deep else 3))
            for m, n in ((12, 12), (12, 20), (20, 12)):
                out.append(dict(kind="gap", fn=fn, dtype=dt, m=m, n=n, streams=12 if deep else 4))
            for n in (3, 4, 6, 9, 12):
                out.append(dict(kind="graded", fn=fn, dtype=dt, m=n, n=n, steps=30 if deep else 10))
    return out


def factors(g, fn, m, n, inner, sv, dt):
    """Factors whose product has the given singular values, and the product."""
    k = "complex128" if is_cplx(dt) else "float64"
    r = len(sv)
    u = np.linalg.qr(randn(g, (m, max(r, 1)), k))[0][:, :r]
    v = np.linalg.qr(randn(g, (n, max(r, 1)), k))[0][:, :r]
    F = (u * sv) @ v.conj().T
    if fn == "plain":
        return [F.astype(CDT[dt])]
    dims = [m] + list(inner) + [n]
    # square roots of the spectrum distributed over the chain
    parts = len(dims) - 1
    w = [np.linalg.qr(randn(g, (d, r), k))[0] if r else np.zeros((d, 0)) for d in dims[1:-1]]
    left, out = u * sv ** (1 / parts), []
    for i in range(parts):
        a = (u if i == 0 else w[i - 1]) * sv ** (1 / parts)
        b = v if i == parts - 1 else w[i]
        out.append((a @ b.conj().T).astype(CDT[dt]))
    return out


def layouts(t):
    """The same values in different memory layouts."""
    yield t
    yield t.mT.contiguous().mT
    if t.is_complex():
        yield t.conj().resolve_conj().conj()      # lazily conjugated view of the conjugate: equal to t


def call(fn, mats, q, niter):
    import acetn.linalg as L
    return getattr(L, NAMES[fn][0])(*mats, q=q, niter=niter)


def check(U, S, V, m, n, q, dt, lim, what):
    qq = min(q, m, n)
    require(U.shape == (m, qq) and S.shape == (qq,) and V.shape == (n, qq), f"{what}: shapes {tuple(U.shape)}, {tuple(S.shape)}, {tuple(V.shape)}")
    require(U.dtype == TDT[dt] and V.dtype == TDT[dt] and not S.is_complex(), f"{what}: dtypes {U.dtype}, {S.dtype}, {V.dtype}")
    U, S, V = map(to_np, (U, S, V))
    require(np.isfinite(U).all() and np.isfinite(S).all() and np.isfinite(V).all(), f"{what}: factors are not finite")
    for name, w in (("U", U), ("V", V)):
        e = np.abs(w.conj().T @ w - np.eye(qq)).max(initial=0)
        require(e < lim, f"{what}: the columns of {name} are not orthonormal ({e:.1e})")
    require((S >= 0).all() and (np.diff(S) <= 0).all(), f"{what}: singular values are not descending and non-negative: {S}")
    return U, S, V


def run_case(c):
    fn, dt, m, n = c["fn"], c["dtype"], c["m"], c["n"]
    lim = tol(dt, 1e-10, 2e-4)
    N = 0
    worst = 0.0
    g = rng("c14", fn, dt, m, n)
    if c["kind"] == "graded":
        # rows graded down to the smallest numbers, as environments of product states give
        eps = float(np.finfo(CDT[dt]).eps)
        k = np.arange(n)
        grades = {"linear": k, "pairs": k // 2, "three": (k > 0).astype(int) + (k > n // 2), "binary": np.array([bin(i).count("1") for i in range(n)])}
        for ex in np.linspace(0.2, 6, c["steps"]):
            for (grade, e), parallel in itertools.product(grades.items(), (False, True)):
                kind = "complex128" if is_cplx(dt) else "float64"
                A = randn(g, (n, 1), kind) * randn(g, (1, n), kind) if parallel else randn(g, (n, n), kind)
                A = A * np.maximum(eps ** (ex * e), 1e-300)[:, None]
                A = A / np.abs(A).max()
                rest = [np.linalg.qr(randn(g, (n, n), kind))[0] for _ in range(NAMES[fn][1] - 1)]
                mats = [torch.tensor(a.astype(CDT[dt])) for a in [A] + rest]
                F = factorsum(mats)
                for q in (n, n + 2):
                    what = f"{fn} rows graded by {ex:.2f} orders of roundoff ({grade}), parallel columns {parallel}, q {q}"
                    torch.manual_seed(N)
                    U, S, V = check(*call(fn, mats, q, 2), n, n, q, dt, lim, what)
                    e2 = np.abs((U * S) @ V.conj().T - F).max()
                    require(e2 < lim, f"{what}: the product differs from the matrix by {e2:.1e}")
                    N += 1
    elif c["kind"] == "exact":
        top = min(m, n)
        inners = {"plain": [()], "two": [(k,) for k in (1, 3, 6, 9)], "four": [(2, 5, 3), (1, 1, 1), (6, 4, 7), (9, 9, 9), (4, 2, 8)]}[fn]
        for inner in inners:
            hi = min((top,) + inner)
            for r in range(hi + 1):
                for flat in (True, False):
                    sv = np.ones(r) if flat else np.array([10.0 ** -(3 * i / max(r - 1, 1)) for i in range(r)])
                    if not flat and r < 2:
                        continue
                    mats = [torch.tensor(a) for a in factors(g, fn, m, n, inner, sv, dt)]
                    F = (factorsum(mats) if r else np.zeros((m, n))).astype(complex)
                    ref = np.linalg.svd(F, compute_uv=False)
                    for q in sorted({max(r, 1), r + 1, top, top + 3}):
                        for niter in (0, 1, 2, 3):
                            for st in range(c["streams"] if inner == inners[0] else 1):
                                for lay in range(3 if (niter, st) == (2, 0) else 1):
                                    use = [(list(layouts(a)) + [a])[min(lay, len(list(layouts(a))) - 1)] for a in mats]
                                    keep = [a.clone() for a in use]
                                    torch.manual_seed(1000 * st + 17 * niter + q)
                                    what = f"{fn} inner {inner} rank {r} q {q} niter {niter} stream {st} layout {lay}"
                                    U, S, V = check(*call(fn, use, q, niter), m, n, q, dt, lim, what)
                                    require(all(torch.equal(a, b) for a, b in zip(keep, use)), f"{what}: the input was modified")
                                    e = np.abs((U * S) @ V.conj().T - F).max(initial=0)
                                    require(e < lim, f"{what}: the product differs from the matrix by {e:.1e}")
                                    e2 = np.abs(S - ref[:len(S)]).max(initial=0)
                                    require(e2 < lim, f"{what}: singular values are off by {e2:.1e}")
                                    worst = max(worst, float(e))
                                    N += 1
        # defaults: rank 6 and two iterations
        mats = [torch.tensor(a) for a in factors(g, fn, m, n, (max(m, n),) * 3 if fn == "four" else (max(m, n),), np.ones(min(m, n)), dt)]
        import acetn.linalg as L
        torch.manual_seed(3)
        U, S, V = getattr(L, NAMES[fn][0])(*mats)
        check(U, S, V, m, n, 6, dt, lim, f"{fn} defaults")
    else:
        big, gap = 5, 1e-3
        inner = {"plain": (), "two": (15,), "four": (14, 18, 15)}[fn]
        for tail in ("flat", "decaying"):
            sv = np.concatenate([np.linspace(1, 0.5, big), gap * (np.ones(7) if tail == "flat" else 0.7 ** np.arange(7))])
            mats = [torch.tensor(a) for a in factors(g, fn, m, n, inner, sv, dt)]
            F = factorsum(mats).astype(complex)
            u, s, vh = np.linalg.svd(F)
            for q in (big + 3, big + 5):
                for niter in (0, 1, 2, 3):
                    for st in range(c["streams"]):
                        torch.manual_seed(100 * st + niter)
                        what = f"{fn} gap {tail} q {q} niter {niter} stream {st}"
                        U, S, V = check(*call(fn, mats, q, niter), m, n, q, dt, lim, what)
                        x = 100 * gap ** (2 * niter + 1)
                        e = np.abs(S[:big] - s[:big]).max()
                        require(e < x * x + tol(dt, 1e-12, 1e-5), f"{what}: the leading singular values are off by {e:.1e}")
                        # left vectors of the leading space converge at the same rate
                        pu = np.linalg.norm(U[:, :big] @ U[:, :big].conj().T - u[:, :big] @ u[:, :big].conj().T)
                        pv = np.linalg.norm(V[:, :big] @ V[:, :big].conj().T - vh[:big].conj().T @ vh[:big])
                        require(pu < x + tol(dt, 1e-10, 1e-4) and pv < x + tol(dt, 1e-10, 1e-4),
                                f"{what}: the leading singular spaces are off by {pu:.1e} and {pv:.1e}")
                        N += 1
    return dict(checks=N, nontrivial=True, stats={"decompositions": N, "max_error_" + ("single" if is_single(dt) else "double"): worst})


def factorsum(mats):
    F = to_np(mats[0].resolve_conj()).astype(complex)
    for a in mats[1:]:
        F = F @ to_np(a.resolve_conj()).astype(complex)
    return F
