"""Preconditioning of a bond update: positive approximation, gauge fixing, splitting and rejoining, balancing."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *
from .. import als

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of norm-tensor spectra, shapes, options and decomposition faults on the real code against algebraic identities"
RULE = ("one case per (operation, size, dtype); within it every spectrum x cutoff (positive approximation, also with the eigensolver failing or returning nan, and with entries graded down to the smallest numbers), metric x target x option "
        "(gauge fixing) or bond and physical dimension (splitting, balancing); non-trivial: the input is not already in the final form")
ASSUMPTIONS = ["generic entries stand for all entries of the same spectrum class"]
NOTE = "The identity shift may be as large as four times the most negative eigenvalue, the cutoff or the roundoff of the largest eigenvalue."
CASE_LIMIT = 300
CHUNK = 2


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for dt in CDT:
        for n in range(1, 9 if deep else 6):
            for v in range(6 if deep else 2):
                out.append(dict(kind="positive", n=n, dtype=dt, v=v))
        for n in (2, 3, 4, 6, 9):
            out.append(dict(kind="graded", n=n, dtype=dt, steps=60 if deep else 15))
        for n in range(1, 7 if deep else 5):
            for p in (1, 2, 3, 4)[:4 if deep else 3]:
                for v in range(6 if deep else 2):
                    out.append(dict(kind="gauge", n=n, p=p, dtype=dt, v=v))
        for D in range(1, 7 if deep else 5):
            for p in range(1, 7 if deep else 5):
                out.append(dict(kind="split", D=D, p=p, dtype=dt))
        for n in range(1, 7 if deep else 5):
            for p in range(1, 4):
                for b in range(1, min(n * p, 6) + 1):
                    out.append(dict(kind="balance", n=n, p=p, b=b, dtype=dt))
    return out


def spectra(g, m, cutoff):
    """Eigenvalues of norm tensors, in units where the largest is about one."""
    r = 0.1 + g.random(m)
    yield "positive", r
    yield "identity", np.ones(m)
    yield "zero", np.zeros(m)
    yield "ill", np.logspace(0, -14, m)
    for k in {1, max(1, m // 2), m - 1} - {m, 0}:
        yield f"deficient {k}", np.where(np.arange(m) < k, r, 0)
    if m > 1:
        for e in (1e-16, 1e-13, 1e-9, 1e-5, 1e-2, 1.0):
            yield f"negative {e}", np.where(np.arange(m) < m - 1, r, -e)
        yield "mixed", np.where(np.arange(m) % 2 == 0, r, -1e-3 * r)
        yield "minus cutoff", np.where(np.arange(m) < m - 1, r, -cutoff)
        yield "half cutoff", np.where(np.arange(m) < m - 1, r, cutoff / 2)
        yield "at cutoff", np.where(np.arange(m) < m - 1, r, cutoff)
    yield "negative", -r


def function(name):
    """A function of the module, or of the updater."""
    from acetn.evolution import full_update
    return getattr(full_update, name, None) or getattr(full_update.FullUpdater, name, None)


def positive(c):
    from acetn.evolution import full_update
    positive_approx = function("positive_approx")
    if positive_approx is None:
        return dict(nontrivial=False)
    n, dt = c["n"], c["dtype"]
    kind = "complex128" if is_cplx(dt) else "float64"
    m = n * n
    runs = 0
    for scale in (1.0, 1e-6, 1e5):
        for cutoff in (1e-12, 0.0, 1e-8, 1e-3, float(n)):
            g = rng("c20p", n, kind, scale, cutoff, c["v"])
            for name, w in spectra(g, m, cutoff):
                for basis in ("generic", "axes", "fourier"):
                    U = {"axes": np.eye(m, dtype=complex)[g.permutation(m)],
                         "fourier": np.array([[np.cos(2 * np.pi * i * j / m) + np.sin(2 * np.pi * i * j / m) for i in range(m)] for j in range(m)]) / np.sqrt(m)
                         }.get(basis)
                    if U is None:
                        U = np.linalg.qr(randn(g, (m, m), kind))[0]
                    if not is_cplx(dt):
                        U = U.real
                    N = (U * (w * scale)) @ U.conj().T
                    N = ((N + N.conj().T) / 2).astype(CDT[dt])
                    what = f"spectrum {name}, basis {basis}, scale {scale}, cutoff {cutoff}"
                    for fault in (0, 1, 2) if name in ("positive", "ill") and cutoff in (1e-12, 1e-3) and hasattr(full_update, "eigh") else (0,):
                        saved = getattr(full_update, "eigh", None)
                        if fault:
                            left = [1]

                            def failing(*a, **k):
                                if left:
                                    left.pop()
                                    if fault == 1:
                                        raise torch._C._LinAlgError("injected")
                                    return tuple(x * np.nan for x in saved(*a, **k))
                                return saved(*a, **k)
                            full_update.eigh = failing
                        try:
                            nz = positive_approx(torch.tensor(N.reshape(n, n, n, n)), cutoff=cutoff)
                        finally:
                            if fault:
                                full_update.eigh = saved
                        runs += 1
                        judge(N, nz, n, dt, cutoff, what)
    return dict(checks=runs, stats={"norm_tensors": runs})


def judge(N, nz, n, dt, cutoff, what):
    """The square of the root is the norm tensor plus a small multiple of the identity, and is positive."""
    m = n * n
    eps = 1.2e-7 if is_single(dt) else 2.3e-16
    require(nz.dtype == TDT[dt] and tuple(nz.shape[:2]) == (n, n), f"{what}: the root has shape {tuple(nz.shape)} and dtype {nz.dtype}")
    Z = to_np(nz).astype(complex).reshape(m, -1)
    require(np.isfinite(Z).all(), f"{what}: the root is not finite")
    M = Z @ Z.conj().T
    lo, hi = np.linalg.eigvalsh(N.astype(complex))[[0, -1]]
    big = max(abs(lo), abs(hi))
    noise = 30 * m * eps * max(big, 1e-300)
    shift = np.trace(M - N).real / m
    dev = np.abs(M - N - shift * np.eye(m)).max()
    lim = 4 * max(-lo, cutoff, eps * big)
    require(dev < noise + 30 * m * eps * lim, f"{what}: the approximation differs from the norm tensor by more than a multiple of the identity ({dev:.1e})")
    require(-noise <= shift <= lim + noise, f"{what}: the norm tensor is shifted by {shift:.2e}; its lowest eigenvalue is {lo:.2e}")
    if lo > max(cutoff, eps * big) + noise:
        require(abs(shift) <= noise, f"{what}: a positive norm tensor is shifted by {shift:.2e}")
    low = np.linalg.eigvalsh(M)[0]
    require(low >= min(cutoff, max(cutoff - noise, 0)) - noise, f"{what}: the lowest eigenvalue becomes {low:.2e}")


def graded(c):
    """Norm tensors with entries graded down to the smallest numbers, as environments of product states give; the eigensolver can return nan for them."""
    positive_approx = function("positive_approx")
    if positive_approx is None:
        return dict(nontrivial=False)
    n, dt = c["n"], c["dtype"]
    eps = float(np.finfo(CDT[dt]).eps)
    m, runs = n * n, 0
    for ex in np.linspace(0.2, 6, c["steps"]):
        for rank in (m, 1, 3):
            for grade in ("binary", "linear", "one"):
                g = rng("c20r", n, dt, float(ex), rank, grade)
                k = np.array([{"binary": bin(i).count("1"), "linear": i, "one": int(i > 0)}[grade] for i in range(n)])
                w = (eps ** ex) ** k
                w = np.maximum(np.outer(w, w).flatten(), 1e-300)
                B = (randn(g, (m, rank), "complex128" if is_cplx(dt) else "float64") * w[:, None]).astype(CDT[dt])
                N = B @ B.conj().T
                N = N / np.abs(N).max()
                N = ((N + N.conj().T) / 2).astype(CDT[dt])
                runs += 1
                what = f"graded by {ex:.2f} orders of roundoff ({grade}), rank {rank}"
                judge(N, positive_approx(torch.tensor(N.reshape(n, n, n, n))), n, dt, 1e-12, what)
    return dict(checks=runs, stats={"graded_norm_tensors": runs})


def conditions(g, n, kind):
    d = np.logspace(0, -4, n)
    yield "skewed", np.einsum("yxYX,y,Y,x,X->yxYX", als.metric(g, n, "generic", kind), d, d, d[::-1], d[::-1]), 1e5
    for spec in ("generic", "identity", "product", "cond4", "small", "large"):
        yield spec, als.metric(g, n, spec, kind), {"product": 1e2, "cond4": 1e4}.get(spec, 20)


def gauge(c):
    gauge_fix = function("gauge_fix")
    n, p, dt = c["n"], c["p"], c["dtype"]
    kind = "complex128" if is_cplx(dt) else "float64"
    eps = 1.2e-7 if is_single(dt) else 2.3e-16
    g = rng("c20g", n, p, kind, c["v"])
    runs = 0
    for spec, N, cond in conditions(g, n, kind) if gauge_fix else ():
        if spec == "skewed" and is_single(dt):
            continue
        w, U = np.linalg.eigh(N.reshape(n * n, -1))
        roots = {"root": (U * np.sqrt(np.abs(w))).reshape(n, n, -1),
                 "wide": np.concatenate([(U * np.sqrt(np.abs(w) / 2)), (U * np.sqrt(np.abs(w) / 2)) @ np.linalg.qr(randn(g, (n * n,) * 2, kind))[0]], 1).reshape(n, n, -1)}
        if n > 1 and spec != "cond4":
            # a leg that carries nothing
            z = roots["root"].copy()
            z[-1] = 0
            roots["empty y"] = z
            z = roots["root"].copy()
            z[:, 0] = 0
            roots["empty x"] = z
        for form, z in roots.items():
            z = z.astype(CDT[dt])
            a = randn(g, (n, n, p, p), dt)
            if form == "wide":
                continue        # the code fixes the width
            what = f"metric {spec}, {form}"
            tz, ta = torch.tensor(z), torch.tensor(a)
            N2, a2, xi, yi = map(to_np, gauge_fix(tz, ta))
            require(torch.equal(tz, torch.tensor(z)) and torch.equal(ta, torch.tensor(a)), f"{what}: the input was modified")
            require(all(t.dtype == CDT[dt] for t in (N2, a2, xi, yi)), f"{what}: the dtype changed")
            require(all(np.isfinite(t).all() for t in (N2, a2, xi, yi)), f"{what}: not finite")
            Z = z.astype(complex).reshape(n * n, -1)
            M = (Z @ Z.conj().T).reshape(n, n, n, n)
            lim = tol(dt, 1e-10, 2e-4) * (cond if not is_single(dt) else 3 * np.sqrt(cond))
            top = als.dot(M, a.astype(complex), a.astype(complex)).real
            require(np.abs(N2 - N2.conj().transpose(2, 3, 0, 1)).max() < lim * np.abs(N2).max(), f"{what}: the gauge-fixed metric is not Hermitian")
            for i in range(4):
                # candidates around the target and anywhere
                cand = (a2 * (i < 2) + (0.5 ** i) * np.linalg.norm(a2) * unit(randn(g, (n, n, p, p), kind)) * (i != 1)).astype(complex)
                back = np.einsum("yz,xw,zwpq->yxpq", yi.astype(complex), xi.astype(complex), cand)
                d2 = als.dot(N2.astype(complex), cand - a2, cand - a2).real
                d1 = als.dot(M, back - a, back - a).real
                runs += 1
                require(abs(d1 - d2) < lim * (abs(d1) + abs(d2) + top), f"{what}: the squared distance of a candidate is {d2:.6e} after and {d1:.6e} before gauge fixing")
            back = np.einsum("yz,xw,zwpq->yxpq", yi, xi, a2).astype(complex)
            want = a.astype(complex)
            if form == "empty y":
                want = want.copy()
                want[-1] = 0
            if form == "empty x":
                want = want.copy()
                want[:, 0] = 0
            require(np.linalg.norm(back - want) < lim * np.linalg.norm(a), f"{what}: undoing the gauge gives another target ({np.linalg.norm(back - want):.1e})")
            runs += 1
    # the preconditioner as a whole, with and without gauge fixing
    for use in (True, False):
        for spec, N, cond in conditions(g, n, kind):
            if spec == "skewed" and is_single(dt):
                continue
            for neg in (0.0, 1e-3):
                N = N.astype(CDT[dt])
                M0 = N.astype(complex).reshape(n * n, -1)
                shiftable = neg * np.linalg.norm(M0, 2)
                Nn = (M0 - (np.linalg.eigvalsh(M0)[0] + shiftable) * np.eye(n * n) if neg else M0).reshape((n,) * 4).astype(CDT[dt])
                a = randn(g, (n, n, p, p), dt)
                up = updater(use)
                if up is None:
                    continue
                a_in = torch.tensor(a)
                N2, a2 = up.precondition_norm_tensor(torch.tensor(Nn), a_in)
                N2, a2 = to_np(N2).astype(complex), to_np(a2).astype(complex)
                if use and not hasattr(up, "nzyr_inv"):
                    continue
                I4 = np.eye(n * n).reshape((n,) * 4)
                lam = -np.linalg.eigvalsh(Nn.astype(complex).reshape(n * n, -1))[0]
                big = np.linalg.norm(Nn.reshape(n * n, -1), 2)
                # the shift is found from one candidate and must explain all others
                what = f"preconditioning, metric {spec}, negative part {neg}, gauge fixing {use}"
                lim = tol(dt, 1e-9, 1e-2) * (cond if not is_single(dt) else np.sqrt(cond)) * (30 if neg else 1)
                s = None
                for i in range(4):
                    cand = unit(randn(g, (n, n, p, p), kind)) * np.linalg.norm(a2) * (0.3 + 0.4 * i)
                    back = np.einsum("yz,xw,zwpq->yxpq", to_np(up.nzyr_inv), to_np(up.nzxr_inv), cand) if use else cand
                    e = back - a
                    d2 = als.dot(N2, cand - a2, cand - a2).real
                    d1, dI = als.dot(Nn.astype(complex), e, e).real, als.dot(I4, e, e).real
                    if s is None:
                        s = (d2 - d1) / dI
                        require(-lim * big <= s <= 4 * max(lam, 1e-12, eps * big) + lim * big, f"{what}: shifted by {s:.2e}, the lowest eigenvalue is {-lam:.2e}")
                    runs += 1
                    require(abs(d2 - d1 - s * dI) < lim * (abs(d2) + big * dI), f"{what}: the squared distance of a candidate is {d2:.6e}, expected {d1 + s * dI:.6e}")
    return dict(checks=runs, stats={"candidates": runs})


def updater(use):
    from acetn.evolution.full_update import FullUpdater
    if not all(hasattr(FullUpdater, m) for m in ("precondition_norm_tensor", "finalize_reduced_tensors")):
        return None

    class Net:
        dims = {}
    up = FullUpdater(Net(), None, als.options(use_gauge_fix=use))
    return up


def split(c):
    from acetn.evolution.full_update import FullUpdater
    if not all(hasattr(FullUpdater, m) for m in ("decompose_site_tensors", "recompose_site_tensors")):
        return dict(nontrivial=False)
    D, p, dt = c["D"], c["p"], c["dtype"]
    g = rng("c20s", D, p, dt)
    runs = 0
    for form in ("generic", "product", "padded", "zero column", "strided", "conjugated"):
        A = [randn(g, (D, D, D, D, p), dt) for _ in range(2)]
        if form == "product":
            A = [np.einsum("l,u,r,d,p->lurdp", *[randn(g, (D,), dt) for _ in range(4)], randn(g, (p,), dt)).astype(CDT[dt]) for _ in range(2)]
        if form == "padded":
            for a in A:
                a[D // 2 + 1:] = a[:, D // 2 + 1:] = a[:, :, D // 2 + 1:] = a[:, :, :, D // 2 + 1:] = 0
        if form == "zero column":
            for a in A:
                a[..., 0] = 0
        T = [torch.tensor(a) for a in A]
        if form == "strided":
            T = [t.permute(1, 2, 3, 0, 4) for t in T]
        if form == "conjugated":
            T = [t.conj() for t in T]
        A = [to_np(t).astype(complex) for t in T]
        parts = FullUpdater.decompose_site_tensors(*T)
        n = min(D**3, p * D)
        want = [(D, D, D, n), (n, D, p)] * 2
        require([tuple(x.shape) for x in parts] == want, f"{form}: the parts have shapes {[tuple(x.shape) for x in parts]}")
        B = [to_np(t).astype(complex) for t in FullUpdater.recompose_site_tensors(*parts)]
        for i in (0, 1):
            e = np.abs(A[i] - B[i]).max()
            require(e < tol(dt, 1e-12, 1e-5) * max(1, np.abs(A[i]).max()), f"{form}: splitting and rejoining changes tensor {i + 1} by {e:.1e}")
            q = to_np(parts[2 * i]).astype(complex).reshape(-1, n)
            e = np.abs(q.conj().T @ q - np.eye(n)).max()
            require(e < tol(dt, 1e-12, 1e-4), f"{form}: the surrounding part {i + 1} is not an isometry ({e:.1e})")
            runs += 2
        runs += 1
    return dict(checks=runs, stats={"tensors": runs}, nontrivial=D > 1)


def balance(c):
    n, p, b, dt = c["n"], c["p"], c["b"], c["dtype"]
    runs = 0
    for use in (False, True):
        up = updater(use)
        if up is None:
            return dict(nontrivial=False)
        g = rng("c20b", n, p, b, dt, use)
        for form in ("generic", "skewed", "rank one"):
            a1, a2 = randn(g, (n, b, p), dt), randn(g, (n, b, p), dt)
            if form == "skewed":
                s = np.logspace(-2, 2, b).reshape(1, b, 1)
                a1, a2 = (a1 * s).astype(CDT[dt]), (a2 / s).astype(CDT[dt])
            if form == "rank one":
                a1, a2 = [(x[:, :1] * randn(g, (1, b, 1), dt)).astype(CDT[dt]) for x in (a1, a2)]
            yi = xi = np.eye(n)
            if use:
                yi, xi = randn(g, (n, n), dt), randn(g, (n, n), dt)
                up.nzyr_inv, up.nzxr_inv = torch.tensor(yi), torch.tensor(xi)
            want = np.einsum("yz,xw,zup,wuq->yxpq", yi.astype(complex), xi, a1, a2)
            t1, t2 = torch.tensor(a1), torch.tensor(a2)
            f1, f2 = up.finalize_reduced_tensors(t1, t2)
            require(torch.equal(t1, torch.tensor(a1)) and torch.equal(t2, torch.tensor(a2)), f"{form}: the input was modified")
            f1, f2 = to_np(f1).astype(complex), to_np(f2).astype(complex)
            require(f1.shape == (n, b, p) and f2.shape == (n, b, p), f"{form}: shapes {f1.shape}, {f2.shape}")
            e = scaled_error(als.pair(f1, f2), want)
            lim = tol(dt, 1e-10, 1e-3)
            require(e < lim, f"{form}, gauge {use}: balancing changes the pair by {e:.1e}")
            G1 = np.einsum("yup,yvp->uv", f1.conj(), f1)
            G2 = np.einsum("yup,yvp->uv", f2.conj(), f2)
            require(np.abs(G1 - np.diag(np.diag(G1))).max() < 10 * lim and np.abs(G1 - G2).max() < 10 * lim, f"{form}, gauge {use}: the pair is not balanced")
            require(abs(np.linalg.norm(als.pair(f1, f2)) - 1) < 10 * lim, f"{form}, gauge {use}: the balanced pair has norm {np.linalg.norm(als.pair(f1, f2))}")
            runs += 3
    return dict(checks=runs, stats={"pairs": runs}, nontrivial=b > 1)


def run_case(c):
    return dict(positive=positive, graded=graded, gauge=gauge, split=split, balance=balance)[c["kind"]](c)
