"""The same infinite state written down in different ways: lattice symmetries, larger cells, scales, gauges, padding."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the lattice symmetries and unit-cell embeddings of small cells, and of gauges and scales, applied to generic entangled states run through the real code; results are compared after transforming them back"
RULE = ("one case per (kind, unit cell, dtype, update or boundary options); within it every transformation of the class is applied: all translations, the eight point symmetries and their products, all repetitions of the cell, "
        "scale factors, gauges and paddings; a state is one transformed network that was renormalized and measured or evolved; non-trivial: the transformation moves the tensors")
ASSUMPTIONS = ["a product state plus a random tensor of half its norm: the boundary converges to 1e-8 within the sweeps used", "full update: one step, compared within the convergence of the environment"]
NOTE = "Every site and bond density matrix, the measured averages, and the periodic wave function after an evolution are compared, not only the energy."
CASE_LIMIT = 600

CHI, SWEEPS = 8, 8


# ---------------------------------------------------------------- symmetries: (translation, point operation)

POINT = [(r, m) for m in (False, True) for r in range(4)]       # reflection x -> -x first, then r quarter turns


def point_dir(op, k):
    r, m = op
    if m and k in (0, 2):
        k = 2 - k
    return (k + r) % 4


def point_cell(op, nx, ny):
    return (ny, nx) if op[0] % 2 else (nx, ny)


def point_site(op, s):
    x, y = s
    if op[1]:
        x = -x
    for _ in range(op[0]):
        x, y = y, -x                                            # maps direction k to k+1
    return x, y


class Sym:
    def __init__(self, op, t, nx, ny):
        self.op, self.t, self.nx, self.ny = op, t, nx, ny
        self.mx, self.my = point_cell(op, nx, ny)

    def site(self, s):
        x, y = point_site(self.op, s)
        return (x + self.t[0]) % self.mx, (y + self.t[1]) % self.my

    def dir(self, k):
        return point_dir(self.op, k)

    def bond(self, b):
        return self.site(b[0]), self.site(b[1]), self.dir(b[2])

    def tensor(self, a):
        perm = [0] * 4
        for k in range(4):
            perm[self.dir(k)] = k
        return np.transpose(a, perm + [4])

    def __repr__(self):
        return f"rotation {self.op[0]*90}, reflection {self.op[1]}, translation {self.t}"


def symmetries(nx, ny, which):
    out = []
    for op in POINT:
        mx, my = point_cell(op, nx, ny)
        for t in sites(mx, my):
            if which == "all" or (which == "some" and (t == (0, 0) or op == (0, False) or t == (1, 1))):
                out.append(Sym(op, t, nx, ny))
    return out


# ---------------------------------------------------------------- states, terms, networks

def state(c, D=2, d=2, eps=0.5):
    dt, nx, ny = c["dtype"], c["nx"], c["ny"]
    kind = "complex128" if is_cplx(dt) else "float64"
    g = rng("c22", nx, ny, D, d, kind, c.get("seed", 0))
    As = {}
    for s in sites(nx, ny):
        b = np.zeros((D,) * 4 + (d,), dtype=CDT[kind])
        b[0, 0, 0, 0] = unit(randn(g, (d,), kind))
        As[s] = b + eps * unit(randn(g, b.shape, kind))
    return As


def swap(h, d):
    return h.reshape(d, d, d, d).transpose(1, 0, 3, 2).reshape(d * d, d * d)


class Terms:
    """A generic Hermitian operator for every site and bond (given in either direction)."""

    def __init__(self, c, d=2, what="h"):
        self.nx, self.ny, self.d = c["nx"], c["ny"], d
        kind = "complex128" if is_cplx(c["dtype"]) else "float64"
        g = rng("c22t", what, c["nx"], c["ny"], d, kind)
        self.s = {s: rand_herm(g, d, kind) for s in sites(c["nx"], c["ny"])}
        self.b = {}
        for b in bonds(c["nx"], c["ny"]):
            h = rand_herm(g, d * d, kind)
            self.b[b] = h
            self.b[b[1], b[0], (b[2] + 2) % 4] = swap(h, d)


def model(T, sym=None, fold=None):
    """The terms carried along by a symmetry, or repeated in a larger cell."""
    if sym is not None:
        one = {sym.site(s): m for s, m in T.s.items()}
        two = {sym.bond(b): m for b, m in T.b.items()}
        return make_model_class(site_h=lambda s: one[s], bond_h=lambda b: two[b], site_obs=lambda s: {"o": one[s]})
    fold = fold or (lambda s: s)
    f = lambda b: (fold(b[0]), fold(b[1]), b[2])
    return make_model_class(site_h=lambda s: T.s[fold(s)], bond_h=lambda b: T.b[f(b)], site_obs=lambda s: {"o": T.s[fold(s)]})


def network(c, nx, ny, As, cls=None, chi=CHI, steps=SWEEPS, D=2, **evolution):
    single = is_single(c["dtype"])
    ip = new_ipeps(nx=nx, ny=ny, D=D, d=next(iter(As.values())).shape[-1], chi=chi, dtype=c["dtype"],
                   ctmrg=dict(dict(steps=steps, projectors=c.get("projectors", "half-system"), svd_type=c.get("svd", "full-rank"), rsvd_niter=4, rsvd_oversampling=8),
                              **({"svd_cutoff": 1e-5} if single else {})),
                   evolution=evolution)
    set_tensors(ip, {s: a.astype(CDT[c["dtype"]]) for s, a in As.items()})
    if cls is not None:
        ip.set_model(cls, {})
    return ip


def view(ip):
    """All density matrices, and the averages."""
    one = {s: code_site_rdm(ip, s) for s in sites(ip.nx, ip.ny)}
    two = {}
    for s in one:
        for k in range(4):
            two[s, neighbour(s, k, ip.nx, ip.ny), k] = code_bond_rdm(ip, s, neighbour(s, k, ip.nx, ip.ny), k)
    return {s: r / np.trace(r) for s, r in one.items()}, {b: r / np.einsum("abab->", r) for b, r in two.items()}, {k: float(v) for k, v in ip.measure().items()}


def compare(ref, got, site, bond, lim, what):
    """site and bond map what is in the new description to what it is in the old one."""
    worst = 0.0
    for s, r in got[0].items():
        worst = max(worst, np.abs(r - ref[0][site(s)]).max())
        require(worst <= lim, f"{what}: the state of site {s} differs by {worst:.1e}")
    for b, r in got[1].items():
        worst = max(worst, np.abs(r - ref[1][bond(b)]).max())
        require(worst <= lim, f"{what}: the state of bond {b} differs by {worst:.1e}")
    require(set(ref[2]) == set(got[2]), f"{what}: different quantities are measured")
    for k in ref[2]:
        e = abs(ref[2][k] - got[2][k])
        require(e <= 10 * lim, f"{what}: {k} changes from {ref[2][k]} to {got[2][k]}")
    return worst


def gauged(As, nx, ny, g, dt, unitary=False):
    As = dict(As)
    D = next(iter(As.values())).shape[0]
    for s, t, k in bonds(nx, ny):
        m = np.linalg.qr(randn(g, (D, D), dt))[0] if unitary else np.eye(D) + 0.4 * unit(randn(g, (D, D), dt)) * np.sqrt(D)
        w = np.linalg.inv(m).T
        As[s] = np.moveaxis(np.tensordot(As[s], m, axes=(k, 0)), -1, k)
        j = (k + 2) % 4
        As[t] = np.moveaxis(np.tensordot(As[t], w, axes=(j, 0)), -1, j)
    return As


def padded(As, D):
    out = {}
    for s, a in As.items():
        b = np.zeros((D,) * 4 + a.shape[4:], dtype=a.dtype)
        n = a.shape[0]
        b[:n, :n, :n, :n] = a
        out[s] = b
    return out


# ---------------------------------------------------------------- cases

def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    dts = ("complex128", "complex64", "float64") + (("float32",) if deep else ())
    cells = [(1, 1), (1, 2), (2, 2), (3, 2)] + ([(2, 1), (2, 3), (3, 3), (1, 3), (4, 2), (3, 1)] if deep else [])
    opts = [("half-system", "full-rank"), ("full-system", "full-rank"), ("half-system", "rsvd"), ("full-system", "rsvd")]
    for dt in dts:
        for nx, ny in cells:
            for i, (pr, sv) in enumerate(opts):
                if not deep and dt != "complex128" and (nx, ny) == (3, 2):
                    continue
                if not deep and i and (dt != "complex128" or (nx, ny) not in ((2, 2), (3, 2), (1, 2)) or (i == 3 and nx == 3)):
                    continue
                for kind in ("symmetry", "repeat", "scale", "gauge", "pad"):
                    if not deep and i and kind not in ("symmetry", "pad", "gauge"):
                        continue
                    ops = [None]
                    if kind == "symmetry" and nx * ny > 2:
                        ops = list(range(8))
                    for op in ops:
                        out.append(dict(kind=kind, nx=nx, ny=ny, dtype=dt, projectors=pr, svd=sv, tier=tier, op=op))
    for dt in dts:
        for nx, ny in [(2, 2)] + ([(3, 2)] if deep or dt == "complex128" else []) + ([(2, 3), (3, 3), (4, 2)] if deep else []):
            for up in ("simple", "full"):
                for op in range(8):
                    out.append(dict(kind="evolve", nx=nx, ny=ny, dtype=dt, update=up, tier=tier, op=op))
            out.append(dict(kind="evolve_repeat", nx=nx, ny=ny, dtype=dt, tier=tier))
            out.append(dict(kind="evolve_gauge", nx=nx, ny=ny, dtype=dt, tier=tier))
    return out


def reference(c, T, As):
    ip = network(c, c["nx"], c["ny"], As, model(T))
    ip.renormalize()
    return view(ip)


def limit(c):
    return tol(c["dtype"], 1e-6, 2e-3)


def run_symmetry(c):
    nx, ny = c["nx"], c["ny"]
    T, As = Terms(c), state(c)
    ref = reference(c, T, As)
    n, worst = 0, 0.0
    for g in symmetries(nx, ny, "all" if c["tier"] == "thorough" or nx * ny <= 4 else "some"):
        if c["op"] is not None and POINT[c["op"]] != g.op:
            continue
        ip = network(c, g.mx, g.my, {g.site(s): g.tensor(a) for s, a in As.items()}, model(T, g))
        ip.renormalize()
        back = {g.site(s): s for s in As}
        bback = {g.bond(b): b for b in ref[1]}
        worst = max(worst, compare(ref, view(ip), lambda s: back[s], lambda b: bback[b], limit(c), str(g)))
        n += 1
    return dict(states=n, checks=n, nontrivial=True, sample=worst)


def run_repeat(c):
    nx, ny = c["nx"], c["ny"]
    T, As = Terms(c), state(c)
    ref = reference(c, T, As)
    n, worst = 0, 0.0
    fold = lambda s: (s[0] % nx, s[1] % ny)
    for fx, fy in ((2, 1), (1, 2), (2, 2), (3, 1), (1, 3)):
        mx, my = fx * nx, fy * ny
        if mx * my > (12 if c["tier"] == "thorough" else 8):
            continue
        ip = network(c, mx, my, {s: As[fold(s)] for s in sites(mx, my)}, model(T, fold=fold))
        ip.renormalize()
        worst = max(worst, compare(ref, view(ip), fold, lambda b: (fold(b[0]), fold(b[1]), b[2]), limit(c), f"repeated {fx}x{fy} times"))
        n += 1
    return dict(states=n, checks=n, nontrivial=True, sample=worst)


def same(c, As, variants, D=2):
    nx, ny = c["nx"], c["ny"]
    T = Terms(c)
    ref = reference(c, T, As)
    n, worst = 0, 0.0
    for what, Bs, kw in variants:
        ip = network(c, nx, ny, Bs, model(T), D=next(iter(Bs.values())).shape[0], **kw)
        ip.renormalize()
        worst = max(worst, compare(ref, view(ip), lambda s: s, lambda b: b, limit(c), what))
        n += 1
    return dict(states=n, checks=n, nontrivial=True, sample=worst)


def run_scale(c):
    As = state(c)
    ph = lambda i: np.exp(1.3j * (i + 1)) if is_cplx(c["dtype"]) else (-1.0) ** (i // 2)
    small, big = (1e-6, 1e6) if not is_single(c["dtype"]) else (1e-3, 1e3)
    variants = [(f"scaled by {f}", {s: f * a for s, a in As.items()}, {}) for f in (small, 1e-3, 1e3, big)]
    variants.append(("scaled site by site", {s: [small, 1.0, big][i % 3] * ph(i) * a for i, (s, a) in enumerate(As.items())}, {}))
    return same(c, As, variants)


def run_gauge(c):
    As = state(c)
    g = rng("c22g", str(c))
    variants = [(f"gauge {i}", gauged(As, c["nx"], c["ny"], g, c["dtype"], unitary=i == 1), {}) for i in range(3)]
    return same(c, As, variants)


def run_pad(c):
    As = state(c)
    g = rng("c22p", str(c))
    variants = [("padded to 3", padded(As, 3), {}), ("padded and rotated", gauged(padded(As, 3), c["nx"], c["ny"], g, c["dtype"], unitary=True), {}),
                ("with a larger boundary", As, dict(chi=CHI + 6)), ("with more sweeps", As, dict(steps=SWEEPS + 3))]
    return same(c, As, variants)


# ---------------------------------------------------------------- evolution

def evolved(c, nx, ny, As, cls, order, update, D=2, steps=1, dtau=0.2, **kw):
    from acetn.ipeps.bond import Bond
    ev = dict(update_type=update)
    if update == "full":
        ev.update(als_niter=30, als_tol=0.0 if not is_single(c["dtype"]) else 1e-7)
    ip = network(c, nx, ny, As, cls, D=D, **ev, **kw)
    ip.bond_list[:] = [Bond(*b) for b in order]
    ip.evolve(dtau, steps)
    return get_tensors(ip)


def run_evolve(c):
    nx, ny, up = c["nx"], c["ny"], c["update"]
    T, As = Terms(c), state(c, eps=1.0)
    order = bonds(nx, ny)
    steps = 2 if up == "simple" else 1
    ref = torus_state(evolved(c, nx, ny, As, model(T), order, up, steps=steps), nx, ny)
    start = torus_state(As, nx, ny)
    moved = state_error(start, ref)
    n, worst = 0, 0.0
    lim = tol(c["dtype"], 1e-8, 1e-3) if up == "simple" else tol(c["dtype"], 1e-4, 5e-2)
    for g in symmetries(nx, ny, "all" if nx * ny <= 4 else "some"):
        if POINT[c["op"]] != g.op:
            continue
        got = evolved(c, g.mx, g.my, {g.site(s): g.tensor(a) for s, a in As.items()}, model(T, g), [g.bond(b) for b in order], up, steps=steps)
        inv = Inverse(g)
        back = torus_state({s: inv(got[g.site(s)]) for s in As}, nx, ny)
        e = state_error(back, ref)
        require(e <= lim, f"{up} update, {g}: the evolved state differs by {e:.1e}")
        worst = max(worst, e)
        n += 1
    return dict(states=n, checks=n, nontrivial=moved > 1e-2, sample=dict(worst=worst, moved=moved))


class Inverse:
    def __init__(self, g):
        self.g = g

    def __call__(self, a):
        return np.transpose(a, [self.g.dir(k) for k in range(4)] + [4])


def run_evolve_repeat(c):
    nx, ny = c["nx"], c["ny"]
    T, As = Terms(c), state(c)
    fold = lambda s: (s[0] % nx, s[1] % ny)
    one = evolved(c, nx, ny, As, model(T), bonds(nx, ny), "simple", steps=2)
    n, worst = 0, 0.0
    for fx, fy in ((2, 1), (1, 2)) if nx * ny < 9 else ():
        mx, my = fx * nx, fy * ny
        order = []
        for s, _, k in bonds(nx, ny):
            for i, j in itertools.product(range(fx), range(fy)):
                a = (s[0] + i * nx, s[1] + j * ny)
                order.append((a, neighbour(a, k, mx, my), k))
        got = evolved(c, mx, my, {s: As[fold(s)] for s in sites(mx, my)}, model(T, fold=fold), order, "simple", steps=2)
        want = torus_state({s: one[fold(s)] for s in sites(mx, my)}, mx, my)
        e = state_error(torus_state(got, mx, my), want)
        require(e <= tol(c["dtype"], 1e-8, 1e-3), f"repeated {fx}x{fy} times: the evolved state differs by {e:.1e}")
        worst = max(worst, e)
        n += 1
    return dict(states=n, checks=n, nontrivial=True, sample=worst)


def run_evolve_gauge(c):
    """Rescaled and gauge-transformed networks evolve to the same state."""
    nx, ny = c["nx"], c["ny"]
    T, As = Terms(c), state(c, eps=1.0)
    g = rng("c22e", str(c))
    n, sample = 0, {}
    for up in ("simple", "full"):
        ref = torus_state(evolved(c, nx, ny, As, model(T), bonds(nx, ny), up), nx, ny)
        variants = [("scaled", {s: [1e-3, 1, 1e3][i % 3] * a for i, (s, a) in enumerate(As.items())}), ("unitary gauge", gauged(As, nx, ny, g, c["dtype"], unitary=True))]
        if up == "full":
            variants.append(("gauge", gauged(As, nx, ny, g, c["dtype"])))
        for what, Bs in variants:
            e = state_error(torus_state(evolved(c, nx, ny, Bs, model(T), bonds(nx, ny), up), nx, ny), ref)
            lim = tol(c["dtype"], 1e-8, 1e-3) if up == "simple" else tol(c["dtype"], 1e-3 if what == "gauge" else 1e-4, 5e-2)
            sample[f"{up} {what}"] = e
            require(e <= lim, f"{up} update, {what}: the evolved state differs by {e:.1e}")
            n += 1
    return dict(states=n, checks=n, nontrivial=True, sample=sample)


def run_case(c):
    return globals()["run_" + c["kind"]](c)
