"""The alternating least-squares solver over all small shapes, metric spectra, target classes, options and dtypes."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *
from .. import als

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of problem shapes, spectra, targets and solver options on the real solver, against the singular-value start, the normal equations and a reference iteration"
RULE = ("one case per (shape, dtype, linear solver); within it every metric spectrum x target class x iteration limit x tolerance x regularization of the tier; "
        "each returned pair is judged by its exact distance in the metric; non-trivial: the truncation loses something for at least one target")
ASSUMPTIONS = ["generic entries stand for all entries of the same spectrum class"]
NOTE = "Accuracy limits follow the condition number of the metric and the regularization; ill-conditioned single-precision problems are judged by distance only."
CASE_LIMIT = 600

LIMITS = (0, 1, 2, 3, 20)


def cases(tier, seed):
    deep = tier == "thorough"
    shapes = [(n, b, p) for n in range(1, 5 if deep else 4) for b in range(1, 4) for p in ((1, 2, 3) if deep else (1, 2)) if n * p >= b]
    if not deep:
        shapes += [(2, 2, 3), (4, 2, 2), (4, 3, 1)]
    if deep:
        shapes += [(5, 3, 2), (6, 3, 2), (8, 4, 2), (6, 2, 3), (8, 2, 4)]
    out = []
    for (n, b, p), dt, m in itertools.product(shapes, CDT, ("cholesky", "pinv")):
        for v in range(4 if deep else 1):
            out.append(dict(n=n, b=b, p=p, dtype=dt, method=m, v=v, deep=deep))
    return out


def solve(N, t, shape, dt, **opt):
    from acetn.evolution.als_solver import ALSSolver
    n12, a12g = to_t(N, dt), to_t(t, dt)
    keep = n12.clone(), a12g.clone()
    a1, a2 = ALSSolver(n12, a12g, shape, als.options(**opt)).solve()
    require(torch.equal(n12, keep[0]) and torch.equal(a12g, keep[1]), "the solver modified its input")
    n, b, p = shape
    for x in (a1, a2):
        require(tuple(x.shape) == (n, b, p), f"the solution has shape {tuple(x.shape)} instead of {(n, b, p)}")
        require(x.dtype == TDT[dt], f"the solution has dtype {x.dtype}")
        require(bool(torch.isfinite(x).all()), "the solution is not finite")
    return to_np(a1).astype(complex), to_np(a2).astype(complex)


def run_case(c):
    n, b, p, dt, m = c["n"], c["b"], c["p"], c["dtype"], c["method"]
    shape = (n, b, p)
    kind = "complex128" if is_cplx(dt) else "float64"
    eps = 2e-16 if not is_single(dt) else 1.2e-7
    runs, worst, lossy = 0, 0.0, False
    deep_limit = 400 if c['deep'] else 60
    for spec, tc in itertools.product(als.SPECTRA, als.TARGETS):
        if b == n * p and tc == "gapped":
            continue
        g = rng("c19", n, b, p, kind, spec, tc, c["v"])
        N = als.metric(g, n, spec, kind).astype(CDT[dt]).astype(complex)
        t = als.target(g, n, b, p, kind, tc)
        t = (t / np.linalg.norm(t) * (1 if spec != "large" else 30)).astype(CDT[dt]).astype(complex)
        size = als.dot(N, t, t).real
        top = np.linalg.norm(N.reshape(n * n, -1), 2) * np.linalg.norm(t)**2
        cond = {"cond4": 1e4, "cond8": 1e8, "singular": np.inf, "generic": 20.}.get(spec, 1e3 if spec == "product" else 20.)
        good = cond * eps < 1e-4        # the metric is known to many digits
        s1, s2 = als.svd_start(t, b)
        e_svd = als.dist2(N, s1, s2, t)
        lossy = lossy or e_svd > 1e-3 * size
        if n == 1 and spec not in ("generic", "small", "large"):
            continue
        for reg in (1e-12, 1e-8, 1e-5) if c["deep"] or spec == "generic" else (1e-12,):
            # what regularization and rounding may cost: a shift of every eigenvalue by reg, or their omission
            # (squares of the effective metric's condition enter through the factors, bounded by the largest scale)
            slack = top * (200 * max(reg, eps) + (30 * eps if good else 0)) * (1 if m == "cholesky" else 10)
            path = {}
            blurred = False
            for niter in LIMITS:
                a1, a2 = solve(N, t, shape, dt, als_niter=niter, als_tol=0.0, als_method=m, als_epsilon=reg)
                runs += 1
                e = als.dist2(N, a1, a2, t)
                path[niter] = (a1, a2, e)
                what = f"metric {spec}, target {tc}, {niter} iterations, epsilon {reg}"
                if niter == 0:
                    if b < n * p and np.linalg.svd(t.transpose(0, 2, 1, 3).reshape(n * p, -1), compute_uv=False)[b - 1:b + 1] @ [1, -1] < 1e-2 * np.linalg.norm(t) and tc != "representable":
                        continue
                    d = scaled_error(als.pair(a1, a2), als.pair(s1, s2))
                    require(d < tol(dt, 1e-10, 1e-4) , f"{what}: the start is not the truncated decomposition ({d:.1e})")
                    continue
                if blurred:
                    continue
                worst = max(worst, (e - e_svd) / top)
                require(e <= e_svd + slack, f"{what}: squared distance {e:.6e} exceeds that of the truncated decomposition, {e_svd:.6e} (scale {top:.1e})")
                if tc == "representable":
                    require(e <= slack, f"{what}: the target is representable but the distance is {e:.2e} (scale {top:.1e})")
            for i, j in zip(LIMITS[1:], LIMITS[2:]) if not blurred else ():
                require(path[j][2] <= path[i][2] + slack, f"metric {spec}, target {tc}, epsilon {reg}: {j} iterations give distance {path[j][2]:.6e}, {i} give {path[i][2]:.6e}")
            if not good or reg > 1e-8:
                continue
            # the second factor is optimal given the first
            for niter in LIMITS[1:]:
                a1, a2, e = path[niter]
                R, S = als.system2(N, t, a1)
                best = np.linalg.lstsq(R, S, rcond=1e-13)[0].reshape(shape)
                eb = als.dist2(N, a1, best, t)
                require(e <= eb + slack, f"metric {spec}, target {tc}, {niter} iterations: the second factor is not optimal ({e:.6e} instead of {eb:.6e})")
            # the first factor is once converged (slow convergence is recognised by its progress)
            before = als.dist2(N, *solve(N, t, shape, dt, als_niter=deep_limit // 2, als_tol=0.0, als_method=m, als_epsilon=reg), t)
            a1, a2 = solve(N, t, shape, dt, als_niter=deep_limit, als_tol=0.0, als_method=m, als_epsilon=reg)
            e = als.dist2(N, a1, a2, t)
            a1n, a2n = als.sweep(N, t, a1, a2)
            en = als.dist2(N, a1n, a2n, t)
            runs += 2
            require(e <= en + slack + 3 * max(before - e, 0) / (deep_limit // 2), f"metric {spec}, target {tc}: after {deep_limit} iterations another sweep lowers the distance from {e:.6e} to {en:.6e}")
            # iterates follow the reference iteration where both are well determined
            if spec in ("identity", "generic", "small", "large") and tc in ("gapped", "gated") and not is_single(dt):
                q1, q2 = s1, s2
                done = 0
                for niter in (1, 2, 3):
                    while done < niter:
                        q1, q2 = als.sweep(N, t, q1, q2)
                        done += 1
                    eq = als.dist2(N, q1, q2, t)
                    require(abs(path[niter][2] - eq) < slack * 10, f"metric {spec}, target {tc}: {niter} iterations give distance {path[niter][2]:.8e}, the reference iteration {eq:.8e}")
            # a tolerance stops the iteration once, and only once, the relative change is below it
            if not is_single(dt):
                cost = lambda r: r[2] - size
                if spec == "generic":
                    ends(c, N, t, shape, dt, m, reg, size, slack, f"metric {spec}, target {tc}")
                for lim in (1e-2, 1e-4, 1e-8) if spec in ("generic", "cond4") or c["deep"] else (1e-4,):
                    for cap in ((1, 2, 3, 20) if spec in ("generic", "product") or c["deep"] else (20,)):
                        a1, a2 = solve(N, t, shape, dt, als_niter=cap, als_tol=lim, als_method=m, als_epsilon=reg)
                        runs += 1
                        e = als.dist2(N, a1, a2, t)
                        require(e <= e_svd + slack, f"metric {spec}, target {tc}, tolerance {lim}: the distance exceeds that of the start")
                        require(e >= path[cap][2] - slack, f"metric {spec}, target {tc}, tolerance {lim}: more than {cap} iterations were made")
                        if cap == 20 and abs(e - path[20][2]) <= slack * 1e-3 and abs(solve_from(N, t, *path[20][:2]) - path[20][2]) > lim * abs(e - size):
                            continue        # the limit was reached first
                        if cap == 20:
                            q = solve_from(N, t, a1, a2)
                            require(abs(q - e) <= 3 * lim * abs(e - size) + slack,
                                    f"metric {spec}, target {tc}, tolerance {lim}: stopped although another sweep changes the cost by {abs(q - e) / abs(e - size):.1e}")
                        else:
                            require(e <= path[min(cap, 3)][2] + slack, f"metric {spec}, target {tc}, tolerance {lim}: fewer than {cap} iterations were made")
    return dict(checks=runs, nontrivial=lossy, stats={"solutions": runs, "max_excess_" + ("single" if is_single(dt) else "double"): float(worst)})


def solve_from(N, t, a1, a2):
    return als.dist2(N, *als.sweep(N, t, a1, a2), t)


def ends(c, N, t, shape, dt, m, reg, size, slack, what):
    """With a tolerance no sweeps are made after the relative change has fallen (clearly) below it."""
    d = [als.dist2(N, *solve(N, t, shape, dt, als_niter=k, als_tol=0.0, als_method=m, als_epsilon=reg), t) for k in range(1, 13)]
    for lim in (1e-2, 1e-4):
        k = next((k for k in range(3, 12) if abs(d[k - 1] - d[k - 2]) < lim / 2 * abs(d[k - 2] - size)), None)
        if k is None or d[k - 1] - d[11] < 100 * slack:
            continue
        e = als.dist2(N, *solve(N, t, shape, dt, als_niter=100, als_tol=lim, als_method=m, als_epsilon=reg), t)
        require(e >= d[k - 1] - 10 * slack, f"{what}, tolerance {lim}: iterated on after the change had fallen below it ({e:.8e} instead of {d[k - 1]:.8e})")
