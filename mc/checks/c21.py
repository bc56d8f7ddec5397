"""The compiled solver of csrc/, run on CPU implementations of the libraries it calls, against the Python solver."""
import itertools
import os
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *
from .. import als, cuda

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of problems, options, memory layouts and failing library calls on the compiled solver, linked to CPU "
             "implementations of cuTENSOR and cuSOLVER, against the Python solver")
RULE = ("one case per (shape, dtype, linear solver): every metric spectrum x target class x iteration limit x tolerance x regularization of the tier; one case per "
        "(shape, dtype, linear solver) for memory layouts and arguments, and one for every single library call failing; non-trivial: the shape has bond dimension above one")
ASSUMPTIONS = ["the libraries behave as documented (mc/cuda/stub.cpp implements the documented semantics of the calls used)"]
NOTE = "csrc/ is compiled from the working tree with the real headers of CUDA, cuTENSOR and torch; no GPU is needed. Kernel launch ordering and streams are not modelled."
CASE_LIMIT = 600

SO = None


def cases(tier, seed):
    global SO
    SO = cuda.build()
    deep = tier == "thorough"
    shapes = [(n, b, p) for n in range(1, 5) for b in range(1, 5 if deep else 4) for p in range(1, 4 if deep else 3) if n * p >= b]
    shapes += [(5, 3, 2), (6, 2, 3), (6, 4, 2)] if deep else [(2, 2, 3), (5, 3, 2)]
    out = []
    for s, dt, m in itertools.product(shapes, CDT, ("cholesky", "pinv")):
        for v in range(3 if deep else 1):
            out.append(dict(kind="agree", shape=s, dtype=dt, method=m, v=v, deep=deep))
    for s in ((1, 1, 1), (2, 2, 1), (3, 2, 2)) + (((4, 3, 2),) if deep else ()):
        for dt, m in itertools.product(CDT, ("cholesky", "pinv")):
            out.append(dict(kind="layout", shape=s, dtype=dt, method=m))
            for niter in (0, 1, 3):
                out.append(dict(kind="fault", shape=s, dtype=dt, method=m, niter=niter))
    return out


def solver(n12, a12g, shape, backend, **opt):
    from acetn.evolution.als_solver import ALSSolver
    return ALSSolver(n12, a12g, tuple(shape), als.options(backend=backend, **opt)).solve()


def outcome(f):
    """The tensors, or the kind of error."""
    try:
        a1, a2 = f()
    except RuntimeError as e:          # includes torch's error for singular systems
        return "error", str(e)[:100]
    return a1, a2


def problem(c, spec, tc):
    n, b, p = c["shape"]
    dt = c["dtype"]
    kind = "complex128" if is_cplx(dt) else "float64"
    g = rng("c21", n, b, p, kind, spec, tc, c.get("v", 0))
    if spec == "indefinite":
        U = np.linalg.qr(randn(g, (n * n,) * 2, kind))[0]
        w = (0.5 + g.random(n * n)) * np.where(np.arange(n * n) % 2 == 0, 1, -1)
        N = ((U * w) @ U.conj().T).reshape((n,) * 4)
    elif spec == "negative":
        N = -als.metric(g, n, "generic", kind)
    elif spec in ("empty y", "empty x"):
        N = als.metric(g, n, "generic", kind)
        if spec == "empty y":
            N[-1] = 0
            N[:, :, -1] = 0
        else:
            N[:, 0] = 0
            N[:, :, :, 0] = 0
    elif spec == "zero":
        N = np.zeros((n,) * 4)
    else:
        N = als.metric(g, n, spec, kind)
    t = als.target(g, n, b, p, kind, tc)
    return to_t(N, dt), to_t(t / np.linalg.norm(t), dt)


def compare(c, spec, tc, opt, what):
    dt = c["dtype"]
    N, t = problem(c, spec, tc)
    keep = N.clone(), t.clone()
    ref = outcome(lambda: solver(N.clone(), t.clone(), c["shape"], "torch", als_method=c["method"], **opt))
    got = outcome(lambda: solver(N, t, c["shape"], "cutensor", als_method=c["method"], **opt))
    require(torch.equal(N, keep[0]) and torch.equal(t, keep[1]), f"{what}: the compiled solver modified its input")
    if err(ref) or err(got):
        require(err(ref) and err(got), f"{what}: the Python solver gives {describe(ref)}, the compiled one {describe(got)}")
        return 0.0
    for x, y in zip(ref, got):
        require(x.shape == y.shape and x.dtype == y.dtype, f"{what}: shape {tuple(y.shape)} and dtype {y.dtype} instead of {tuple(x.shape)} and {x.dtype}")
    a, b = [to_np(x).astype(complex) for x in ref], [to_np(x).astype(complex) for x in got]
    if not all(np.isfinite(x).all() for x in a):
        return 0.0
    require(all(np.isfinite(x).all() for x in b), f"{what}: the result is not finite, that of the Python solver is")
    sharp = spec in ("identity", "generic", "small", "large", "indefinite", "negative", "empty y", "empty x")
    lim = tol(dt, 1e-8, 2e-2)
    if sharp and tc in ("gapped", "gated", "representable") and opt.get("als_tol", 0) == 0 and opt["als_niter"] <= (3 if spec in ("indefinite", "negative") or tc == "representable" else 20):
        e = max(np.linalg.norm(x - y) / max(np.linalg.norm(x), 1e-30) for x, y in zip(a, b))
        if tc == "representable" or spec.startswith("empty"):
            e = np.linalg.norm(als.pair(*a) - als.pair(*b)) / max(np.linalg.norm(als.pair(*a)), 1e-30)
        if spec in ("indefinite", "negative"):
            # how strongly the iteration amplifies roundoff
            eps = 1.2e-7 if is_single(dt) else 2.3e-16
            for i in range(2):
                g = rng("noise", i)
                noisy = [x * (1 + 3 * eps * torch.tensor(g.standard_normal(x.shape))).to(x.dtype) for x in (N, t)]
                r = outcome(lambda: solver(*noisy, c["shape"], "torch", als_method=c["method"], **opt))
                if err(r):
                    return 0.0
                s = np.linalg.norm(als.pair(*[to_np(x).astype(complex) for x in r]) - als.pair(*a)) / max(np.linalg.norm(als.pair(*a)), 1e-30)
                lim = max(lim, 100 * s)
            e = np.linalg.norm(als.pair(*a) - als.pair(*b)) / max(np.linalg.norm(als.pair(*a)), 1e-30)
            if lim > 0.01 * (1 if not is_single(dt) else 20):
                return 0.0
        require(e < lim, f"{what}: the results differ by {e:.1e}")
        return float(e)
    if spec in ("indefinite", "negative", "zero"):
        return 0.0
    if is_single(dt) and spec in ("cond8", "singular") and c["method"] == "cholesky":
        return 0.0
    M, T = to_np(N).astype(complex), to_np(t).astype(complex)
    top = np.linalg.norm(M.reshape(M.shape[0]**2, -1), 2) * np.linalg.norm(T)**2
    ea, eb = als.dist2(M, *a, T), als.dist2(M, *b, T)
    slack = top * (1e-9 + opt.get("als_epsilon", 1e-12) * 300 if not is_single(dt) else 2e-3)
    slack += 5 * opt.get("als_tol", 0) * abs(ea - als.dot(M, T, T).real)
    require(abs(ea - eb) <= slack, f"{what}: the squared distance is {eb:.8e}, that of the Python solver {ea:.8e}")
    return 0.0


def describe(r):
    return f"an error ({r[1]})" if err(r) else "a result"


def agree(c, lib):
    runs, worst = 0, 0.0
    for spec in als.SPECTRA + ("indefinite", "negative", "empty y", "empty x", "zero"):
        for tc in als.TARGETS:
            if tc == "gapped" and c["shape"][1] == c["shape"][0] * c["shape"][2]:
                continue
            opts = [dict(als_niter=k, als_tol=0.0) for k in (0, 1, 2, 3, 20)]
            if spec in ("generic", "cond4", "indefinite") or c["deep"]:
                opts += [dict(als_niter=30, als_tol=x) for x in (1e-15, 1e-6, 1e-3, 1e-1, 10.0)]
                opts += [dict(als_niter=3, als_tol=0.0, als_epsilon=x) for x in (0.0, 1e-6, 1e-2, 0.3)]
            if spec.startswith("empty"):
                opts += [dict(als_niter=2, als_tol=0.0, als_epsilon=0.0)]
            for o in opts:
                lib.stub_reset()
                worst = max(worst, compare(c, spec, tc, o, f"metric {spec}, target {tc}, {o}"))
                runs += 1
    # tolerances stop both after the same sweep: generic problem, every limit
    N, t = problem(c, "generic", "generic")
    if not is_single(c["dtype"]):
        for lim in (1.0, 0.1, 1e-2, 1e-3, 1e-4, 1e-6):
            lib.stub_reset()
            sweeps = len_of(c, N, t, lim)
            if sweeps is None:
                continue
            ref = solver(N, t, c["shape"], "torch", als_method=c["method"], als_niter=sweeps, als_tol=0.0)
            got = solver(N, t, c["shape"], "cutensor", als_method=c["method"], als_niter=40, als_tol=lim)
            e = float((einsum_pair(ref) - einsum_pair(got)).norm() / einsum_pair(ref).norm())
            require(e < 1e-6, f"tolerance {lim}: the compiled solver did not stop after {sweeps} sweeps (difference {e:.1e})")
            runs += 1
    return dict(checks=runs, nontrivial=c["shape"][1] > 1, stats={"solutions": runs, "max_difference_" + ("single" if is_single(c["dtype"]) else "double"): worst})


def einsum_pair(ar):
    return torch.einsum("yup,xuq->yxpq", *ar)


def len_of(c, N, t, lim):
    """After how many sweeps the relative change of the cost is first below lim; None if it is too close to call."""
    d = []
    M, T = to_np(N).astype(complex), to_np(t).astype(complex)
    size = als.dot(M, T, T).real
    for k in range(0, 14):
        a = [to_np(x).astype(complex) for x in solver(N, t, c["shape"], "torch", als_method=c["method"], als_niter=k, als_tol=0.0)]
        d.append(als.dist2(M, *a, T) - size)
        if k >= 3:
            r = abs(d[k] - d[k - 1]) / abs(d[k - 1])
            if abs(r - lim) < 0.05 * lim or r < 1e-11:
                return None
            if r < lim:
                return k
    return None


def layout(c, lib):
    """The same values in other memory layouts, direct calls, invalid arguments, workspaces."""
    from acetn.evolution._extensions import _C_cutensor
    n, b, p = c["shape"]
    dt = c["dtype"]
    runs = 0
    N, t = problem(c, "generic", "gated")
    opt = dict(als_niter=3, als_tol=0.0, als_method=c["method"])
    ref = solver(N, t, c["shape"], "torch", **opt)

    def same(got, what):
        nonlocal runs
        runs += 1
        for x, y in zip(ref, got):
            e = float((x - y).norm() / x.norm())
            require(e < tol(dt, 1e-8, 2e-2), f"{what}: the result differs by {e:.1e}")

    def forms(x):
        yield "contiguous", x
        yield "permuted", x.permute(*range(x.dim())[::-1]).contiguous().permute(*range(x.dim())[::-1])
        big = torch.zeros([k + 1 for k in x.shape], dtype=x.dtype)
        big[tuple(slice(1, None) for _ in x.shape)] = x
        yield "part of a larger tensor", big[tuple(slice(1, None) for _ in x.shape)]
        if x.is_complex():
            yield "lazily conjugated", x.conj().resolve_conj().conj()
    for (fa, a), (fb, y) in itertools.product(forms(N), forms(t)):
        keep = a.clone(), y.clone()
        same(solver(a, y, c["shape"], "cutensor", **opt), f"metric {fa}, target {fb}")
        require(torch.equal(a, keep[0]) and torch.equal(y, keep[1]), f"metric {fa}, target {fb}: the input was modified")
    # direct calls
    from acetn.evolution.als_solver import ALSSolver
    if hasattr(ALSSolver, "initialize_reduced_tensors"):
        s1, s2 = ALSSolver.initialize_reduced_tensors(t, c["shape"])
    else:
        n, b, q = c["shape"]
        U, w, Vh = torch.linalg.svd(t.permute(0, 2, 1, 3).reshape(n * q, n * q))
        w = torch.sqrt(w[:b] / w[0])
        s1 = (U[:, :b] * w).reshape(n, q, b).permute(0, 2, 1)
        s2 = (Vh[:b].mT * w).reshape(n, q, b).permute(0, 2, 1)
    ng = torch.einsum("yxYX,yxpq->YXpq", N, t)
    args = [s1, s2, ng, N, t]
    for i, x in enumerate(args):
        for f, y in forms(x):
            use = list(args)
            use[i] = y
            keep = [z.clone() for z in use]
            same(_C_cutensor.als_solve(*use, 3, 0.0, c["method"], 1e-12), f"argument {i} {f}")
            require(all(torch.equal(z, k) for z, k in zip(use, keep)), f"argument {i} {f}: the input was modified")
    # no state is kept between calls of different shape or dtype
    for other in CDT:
        for s in ((2, 2, 2), (3, 1, 2)):
            cc = dict(c, shape=s, dtype=other)
            M, u = problem(cc, "generic", "gated")
            solver(M, u, s, "cutensor", **opt)
        same(solver(N, t, c["shape"], "cutensor", **opt), f"after a call with dtype {other}")
    # solver names
    for bad in ("", "Cholesky", "lu", "pinv ", "cholesky2"):
        try:
            _C_cutensor.als_solve(*args, 3, 0.0, bad, 1e-12)
        except (RuntimeError, ValueError):
            runs += 1
            continue
        raise Violation(f"the unknown solver {bad!r} was accepted")
    # workspace: the default does not fit (there is no device memory at all), the minimum does
    lib.stub_reset()
    lib.stub_workspace(1 << 16, 0)
    same(solver(N, t, c["shape"], "cutensor", **opt), "default workspace not available")
    require(lib.stub_misuse() == 0, "a destroyed library object was used")
    lib.stub_workspace(1 << 16, 1 << 8)
    r = outcome(lambda: solver(N, t, c["shape"], "cutensor", **opt))
    require(err(r), "no workspace is available at all, but no error was raised")
    lib.stub_reset()
    before = lib.stub_live()
    same(solver(N, t, c["shape"], "cutensor", **opt), "after an error")
    require(lib.stub_misuse() == 0, "a destroyed library object was used")
    require(lib.stub_live() == before, f"{lib.stub_live() - before} library objects were not destroyed")
    return dict(checks=runs, nontrivial=b > 1, stats={"layouts": runs})


def fault(c, lib):
    """Every single library call fails in turn: an error is raised, and later calls are not affected."""
    N, t = problem(c, "generic", "gated")
    opt = dict(als_niter=c["niter"], als_tol=0.0, als_method=c["method"])
    lib.stub_reset()
    ref = solver(N, t, c["shape"], "cutensor", **opt)
    total = lib.stub_calls()
    for k in range(1, total + 1):
        lib.stub_reset()
        lib.stub_fail_at(k)
        r = outcome(lambda: solver(N, t, c["shape"], "cutensor", **opt))
        require(lib.stub_calls() >= k, "the calls of the solver are not reproducible")
        if not err(r):
            # an alternative route is fine if it leads to the right result
            require(all(float((x - y).norm() / x.norm()) < tol(c["dtype"], 1e-8, 2e-2) for x, y in zip(ref, r)), f"library call {k} of {total} failed, but a wrong result was returned")
        require(lib.stub_misuse() == 0, f"after library call {k} failed a destroyed library object was used")
        if k % 7 == 0 or k == total:
            lib.stub_reset()
            got = solver(N, t, c["shape"], "cutensor", **opt)
            require(all(torch.equal(x, y) or float((x - y).norm() / x.norm()) < tol(c["dtype"], 1e-8, 2e-2) for x, y in zip(ref, got)), f"after library call {k} failed, the next solution is wrong")
    lib.stub_reset()
    return dict(checks=total, nontrivial=c["shape"][1] > 1, stats={"injected_failures": total})


def run_case(c):
    lib = cuda.load(SO or cuda.build())
    lib.stub_reset()
    return dict(agree=agree, layout=layout, fault=fault)[c["kind"]](c, lib)


def err(r):
    return isinstance(r[0], str)
