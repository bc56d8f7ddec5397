"""Evolution under commuting models, against the exact two-dimensional classical model that the evolved state encodes."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *
from ..evo import edge_of, rand_unitary, swap, arrange

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of coupling patterns, axes, cells, schemes and step histories on the real code, against the exact transfer matrix of the encoded classical model"
RULE = ("one case per (class of model, coupling pattern, unit cell, update scheme, dtype, projectors, history of evolve calls); after every call the measured energy, one generic operator per site and "
        "one per bond are compared with their exact values; a state is one measured network; non-trivial: the evolution changed the energy and some bond is correlated")
ASSUMPTIONS = ["the exact values are those of an infinitely long cylinder whose circumference is large against the correlation length (checked by comparing two circumferences)",
               "the boundary dimension resolves the correlations of the chosen couplings"]
NOTE = ("A product state evolved under terms that are diagonal in a common product basis is sqrt(Boltzmann weight) of a classical model in a field, so that every expectation value on the infinite lattice is a ratio of "
        "classical partition functions. Only the public interface is used: set_model, evolve, renormalize, measure, save, load.")
CASE_LIMIT = 300
HIST = {"one": [(0.3, 1)], "split": [(0.1, 3)], "calls": [(0.1, 1), (0.2, 1)], "zero": [(0.1, 2), (0.1, 0), (0.1, 1)], "save": [(0.15, 1), "save", (0.15, 1)],
        "chi": [(0.15, 1), "chi", (0.15, 1)], "copy": [(0.15, 1), "copy", (0.15, 1)], "back": [(0.2, 2), (-0.1, 1)], "fine": [(0.02, 15)], "model": [(0.15, 1), "model", (0.15, 1)],
        "params": [(0.15, 1), "params", (0.15, 1)]}
UPD = {"simple": dict(update_type="simple"), "full": dict(update_type="full"), "plain": dict(update_type="full", use_gauge_fix=False, als_method="pinv")}
CELLS = [(2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)]


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    dts = list(CDT)
    # strong couplings on every subset of the eight bonds of the 2x2 cell
    for pat in range(256):
        for j, u in enumerate(UPD):
            for i, dt in enumerate(dts):
                if deep and (pat + i + j) % 2 == 0 or (pat * 3 + 5 * i + 7 * j) % (24 if u == "simple" else 48) == 0:
                    out.append(dict(cls="pattern", pattern=pat, nx=2, ny=2, upd=u, dtype=dt, hist=list(HIST)[(pat + i + j) % len(HIST)] if deep or u == "simple" else "one"))
    # Ising models along each axis
    for (nx, ny), axis, sign, u, dt in itertools.product(CELLS[:3] if not deep else CELLS, "xyz", (1, -1), UPD, dts):
        if axis == "y" and not is_cplx(dt):
            continue
        if deep or (nx, ny) == (2, 2) and u == "simple" or ("xyz".index(axis) + nx + 2 * ny + (sign > 0) + list(UPD).index(u) + dts.index(dt)) % 5 == 0:
            out.append(dict(cls="ising", axis=axis, sign=sign, pattern=-1, nx=nx, ny=ny, upd=u, dtype=dt, hist="one" if u != "simple" else "split"))
    # generic diagonal models, different on every bond
    for (nx, ny), u, dt in itertools.product(CELLS, UPD, dts):
        for d in (2, 3):
            for pr, sv in itertools.product(("half-system", "full-system"), ("rsvd", "full-rank")):
                n = CELLS.index((nx, ny)) + dts.index(dt) + 2 * list(UPD).index(u) + 3 * (pr == "full-system") + 5 * (sv == "rsvd") + d
                if (nx * ny > 6 and u != "simple" or d == 3 and u != "simple") and not deep:
                    continue
                if deep or n % 4 == 0 or (nx, ny) == (2, 2) and d == 2 and n % 2 == 0:
                    out.append(dict(cls="generic", pattern=-1, nx=nx, ny=ny, d=d, upd=u, dtype=dt, projectors=pr, svd=sv, hist="one" if d == 3 or u != "simple" else "calls"))
    # histories of calls
    for h, u, dt in itertools.product(HIST, UPD, dts):
        if deep or u == "simple" or (list(HIST).index(h) + list(UPD).index(u) + dts.index(dt)) % 4 == 0:
            for lst in ("built", "mixed") if deep or u == "simple" else ("mixed",):
                out.append(dict(cls="generic", pattern=-1, nx=2, ny=2, d=2, upd=u, dtype=dt, hist=h, list=lst))
    seen, uniq = set(), []
    for c in out:
        if repr(c) not in seen:
            seen.add(repr(c))
            uniq.append(c)
    return uniq


class Problem:
    def __init__(self, c, variant=0):
        nx, ny, dt = c["nx"], c["ny"], c["dtype"]
        self.nx, self.ny, self.d = nx, ny, c.get("d", 2)
        d = self.d
        cplx = is_cplx(dt)
        g = rng("c26", c["cls"], nx, ny, d, cplx, c["pattern"] if c["cls"] == "pattern" else 0)
        S = sites(nx, ny)
        E = sorted({edge_of(b, nx, ny) for b in bonds(nx, ny)})
        self.S, self.Ed = S, E
        self.wrap = "tensor"
        if c["cls"] == "ising":
            m = {"x": X, "y": Y, "z": Z}[c["axis"]]
            w, v = np.linalg.eigh(m)
            self.U = {s: v for s in S}
            phi = unit(np.array([1.0, 0.7 * (1j if cplx else 1.0)]))
            self.phi = {s: phi for s in S}
            e2 = -0.35 * c["sign"] * np.outer(w, w)
            self.e2 = {e: e2 for e in E}
            self.e1 = {s: 0.1 * w for s in S}
            self.wrap = "pauli"
        else:
            self.U = {s: rand_unitary(g, d, cplx) for s in S}
            self.phi = {s: unit((0.6 + g.random(d)) * (np.exp(2j * np.pi * g.random(d)) if cplx else np.sign(g.standard_normal(d)))) for s in S}
            self.e2 = {}
            for i, e in enumerate(E):
                m = g.standard_normal((d, d))
                m = (0.9 if d == 2 else 0.5) * (m - m.mean()) / np.abs(m - m.mean()).max()
                if c["cls"] == "pattern":
                    # strong or weak, of either sign; no bond is off, as the projectors do not represent clusters that bend around them (see C12)
                    m = (0.4 if c["pattern"] >> i & 1 else 0.1) * np.array([[1, -1], [-1, 1.0]]) * (1 if g.random() < 0.5 else -1)
                self.e2[e] = m
            self.e1 = {s: 0.5 * g.standard_normal(d) if i % 3 != 2 else None for i, s in enumerate(S)}
        if variant:                                         # another model with the same diagonal basis
            self.e2 = {e: -0.5 * self.e2[E[(i + 1) % len(E)]] for i, e in enumerate(E)}
            self.e1 = {s: 0.4 * g.standard_normal(d) for s in S}
        kind = "complex128" if cplx else "float64"
        g = rng("c26 operators", nx, ny, d, cplx)
        self.O1 = {s: rand_herm(g, d, kind) for s in S}
        self.O2 = {e: rand_herm(g, d * d, kind) for e in E}

    def other(self, e):
        return neighbour(e[0], e[1], self.nx, self.ny)

    # what the model hands out
    def site_h(self, s, scale=1.0):
        s = tuple(s)
        return None if self.e1[s] is None else scale * (self.U[s] * self.e1[s]) @ self.U[s].conj().T

    def oriented(self, b, f):
        e = edge_of(b, self.nx, self.ny)
        m = f(e)
        return m if (tuple(b[0]), b[2]) == e else swap(m, self.d)

    def bond_m(self, e, scale=1.0):
        V = np.kron(self.U[e[0]], self.U[self.other(e)])
        return scale * (V * self.e2[e].reshape(-1)) @ V.conj().T

    def model(self, wrap="tensor"):
        from acetn.model import Model
        P = self
        base = make_model_class(site_h=lambda s: P.site_h(s), bond_h=lambda b: P.oriented(b, P.bond_m),
                                site_obs=lambda s: {f"s{t}": P.O1[t] * (t == tuple(s)) for t in P.S},
                                bond_obs=lambda b: {f"b{e}": P.oriented(b, lambda q: P.O2[q] * (q == e)) for e in P.Ed}, wrap=wrap)

        class Scaled(base):
            """All terms times the parameter."""

            def one_site_hamiltonian(self, site):
                h = super().one_site_hamiltonian(site)
                return None if h is None else h * self.params.get("scale", 1.0)

            def two_site_hamiltonian(self, bond):
                return super().two_site_hamiltonian(bond) * self.params.get("scale", 1.0)
        return Scaled

    def initial(self, D):
        A = {}
        for s in self.S:
            a = np.zeros((D,) * 4 + (self.d,), complex if np.iscomplexobj(self.U[s]) or np.iscomplexobj(self.phi[s]) else float)
            a[0, 0, 0, 0] = self.U[s] @ self.phi[s]
            A[s] = a
        return A


class Classical:
    """Exact density matrices of prod phi exp(-sum t H), on an infinitely long cylinder of circumference L."""

    def __init__(self, P, logs, log1, L):
        self.P, self.L = P, L
        self.w2, self.w1 = logs, log1                       # exponents of the amplitude
        nx, ny, d = P.nx, P.ny, P.d
        self.top = self.fixed(+1)
        self.bot = self.fixed(-1)

    def amp(self, s):
        return self.P.phi[s] * np.exp(self.w1[s])

    def site_w(self, s, open_):
        a = self.amp(s)
        return np.outer(a, a.conj()).reshape(-1) if open_ else np.abs(a)**2

    def edge_w(self, e, o1, o2):
        """Weight of a bond between (possibly doubled) labels."""
        m = np.exp(self.w2[e])
        d = self.P.d
        full = np.einsum("ab,cd->acbd", m, m).reshape(d * d, d * d)
        dg = [i * d + i for i in range(d)]
        return full[np.ix_(range(d * d) if o1 else dg, range(d * d) if o2 else dg)]

    def row(self, v, y, opened=()):
        """Multiply the weights within row y; axes of v are the columns."""
        P, L = self.P, self.L
        o = [x in opened for x in range(L)]
        for x in range(L):
            s = (x % P.nx, y % P.ny)
            v = v * self.site_w(s, o[x]).reshape([-1 if i == x else 1 for i in range(v.ndim)])
            x2 = (x + 1) % L
            W = self.edge_w((s, 2), o[x], o[x2])
            if x2 < x:
                W = W.T
            shape = [1] * v.ndim
            shape[min(x, x2)], shape[max(x, x2)] = W.shape
            v = v * W.reshape(shape)
        return v

    def up(self, v, y, step, o1=(), o2=()):
        """From the labels of row y to those of row y+step."""
        P = self.P
        for x in range(self.L):
            s = (x % P.nx, y % P.ny) if step > 0 else (x % P.nx, (y - 1) % P.ny)
            W = self.edge_w((s, 1), x in (o1 if step > 0 else o2), x in (o2 if step > 0 else o1))
            W = W if step > 0 else W.T
            v = np.moveaxis(np.tensordot(v, W, axes=(x, 0)), -1, x)
        return v

    def fixed(self, step):
        """Vectors over the labels of each row y, carrying all rows below (step +1) or above (step -1), row y itself excluded."""
        P = self.P
        v = np.ones((P.d,) * self.L)
        out = {}
        for sweep in range(400):
            old = v
            for i in range(P.ny):
                y = i if step > 0 else (-i) % P.ny
                out[y] = v
                v = self.up(self.row(v, y), y, step)
                v = v / np.linalg.norm(v)
            if np.abs(v - old).max() < 1e-14:
                break
        return out

    def env(self, y, step, opened):
        """Environment vector of row y with some columns opened: applied through the vertical bonds once more."""
        P = self.P
        vecs = self.top if step > 0 else self.bot
        prev = (y - step) % P.ny
        v = self.row(vecs[prev], prev)
        v = self.up(v, prev, step, (), opened)
        return v / np.linalg.norm(v)

    def site(self, s):
        P = self.P
        x, y = s
        v = self.row(self.env(y, 1, (x,)) * self.env(y, -1, (x,)), y, (x,))
        r = v.sum(axis=tuple(i for i in range(self.L) if i != x)).reshape(P.d, P.d)
        return r / np.trace(r)

    def bond(self, e):
        P, d = self.P, self.P.d
        (x, y), k = e
        if k == 2:
            x2 = (x + 1) % self.L
            v = self.row(self.env(y, 1, (x, x2)) * self.env(y, -1, (x, x2)), y, (x, x2))
            r = v.sum(axis=tuple(i for i in range(self.L) if i not in (x, x2)))
            r = r if x < x2 else r.T
        else:
            v = self.row(self.env(y, 1, (x,)), y, (x,))
            v = np.moveaxis(v, x, -1)                       # keep the lower label, carry a copy to the upper row
            cols = [i for i in range(self.L) if i != x]
            for j, xx in enumerate(cols):
                s = (xx % P.nx, y % P.ny)
                v = np.moveaxis(np.tensordot(v, self.edge_w((s, 1), False, False), axes=(j, 0)), -1, j)
            W = self.edge_w(((x % P.nx, y % P.ny), 1), True, True)
            v = v[..., :, None] * W                         # axes: other columns, lower label, upper label
            v = np.moveaxis(v, -1, x)                       # upper label back in its column
            y2 = (y + 1) % P.ny
            e_up = self.env(y2, -1, (x,))
            v = v * e_up[..., None]
            v = self.row(v, y2, (x,))
            r = v.sum(axis=tuple(i for i in range(self.L) if i != x)).T
        r = r.reshape(d, d, d, d).transpose(0, 2, 1, 3)     # ket1 ket2 bra1 bra2
        r = r.reshape(d * d, d * d)
        return r / np.trace(r)


def exact(P, w2, w1, L, ham):
    """Energy per site of `ham` and the expectation values of the operators."""
    C = Classical(P, w2, w1, L)
    out = {}
    en = 0.0
    for s in P.S:
        r = P.U[s] @ C.site(s) @ P.U[s].conj().T
        out[f"s{s}"] = np.trace(r @ P.O1[s]).real / len(P.S)
        if ham.e1[s] is not None:
            en += np.trace(r @ ham.site_h(s)).real
    corr = 0.0
    for e in P.Ed:
        V = np.kron(P.U[e[0]], P.U[P.other(e)])
        q = C.bond(e)
        d = P.d
        t = q.reshape(d, d, d, d)
        corr = max(corr, np.abs(q - np.kron(np.einsum("abcb->ac", t), np.einsum("abad->bd", t))).max())
        r = V @ q @ V.conj().T
        out[f"b{e}"] = np.trace(r @ P.O2[e]).real / len(P.Ed)
        en += np.trace(r @ ham.bond_m(e)).real
    out["Energy"] = en / len(P.S)
    return out, corr


def run_case(c):
    import tempfile, os
    nx, ny, dt = c["nx"], c["ny"], c["dtype"]
    P = Problem(c)
    D = d = P.d
    chi = c.get("chi", 10 if d == 2 else 12)
    kw = dict(nx=nx, ny=ny, D=D, d=d, dtype=dt, evolution=UPD[c["upd"]],
              ctmrg=dict(steps=c.get("ctm", 12), projectors=c.get("projectors", "half-system"), svd_type=c.get("svd", "full-rank"), **({"svd_cutoff": 1e-6} if is_single(dt) else {})))
    ip = new_ipeps(chi=chi, **kw)
    arrange(ip, c.get("list", "built"))
    set_tensors(ip, {s: a.astype(CDT[dt]) for s, a in P.initial(D).items()})
    ip.set_model(P.model(), {})
    cur, scale = P, 1.0
    w2 = {e: np.zeros((d, d)) for e in P.Ed}
    w1 = {s: np.zeros(d) for s in P.S}
    Ls = {2: {2: (12, 8), 3: (12, 9), 4: (12, 8)}, 3: {2: (8, 6), 3: (9, 6), 4: (8, 4)}}[d][nx]
    lim = tol(dt, c.get("tol", 5e-5), 2e-3)
    worst = 0.0
    measured = 0
    steps_done = 0

    def weight(k):
        return {"E": 1, "s": len(P.S), "b": len(P.Ed)}[k[0]]
    corr = 0.0
    for h in HIST[c["hist"]]:
        if h == "save":
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "state.pt")
                ip.save(f)
                jp = new_ipeps(chi=chi, **kw)
                arrange(jp, c.get("list", "built"))
                jp.load(f)
            jp.set_model(P.model(), {})
            ip = jp
            continue
        if h == "chi":
            ip.set_chi(chi + 3)
            continue
        if h == "copy":
            from acetn.ipeps import Ipeps
            jp = Ipeps(config(chi=chi, **kw), ip)
            jp.set_model(P.model(), {})
            ip = jp
            continue
        if h == "model":
            cur = Problem(c, 1)
            ip.set_model(cur.model(), {})
            continue
        if h == "params":
            scale = -0.7
            ip.set_model_params(scale=scale)
            continue
        dtau, steps = h
        ip.evolve(dtau, steps)
        steps_done += steps
        for e in P.Ed:
            w2[e] = w2[e] - dtau * steps * scale * cur.e2[e]
        for s in P.S:
            if cur.e1[s] is not None:
                w1[s] = w1[s] - dtau * steps * scale * cur.e1[s]
        ref, corr = exact(P, w2, w1, Ls[0], cur)
        ref["Energy"] *= scale
        if is_single(dt) or measured == 0:
            ref2, _ = exact(P, w2, w1, Ls[1], cur)
            ref2["Energy"] *= scale
            # the error decays exponentially with the circumference
            gap = max(abs(ref[k] - ref2[k]) * weight(k) for k in ref)**(Ls[0] / Ls[1])
            assert gap < lim / 2, f"the reference is not converged: {gap}"
        got = ip.measure()
        measured += 1
        require(set(ref) <= set(got), f"measured {sorted(got)}")
        for k, v in ref.items():
            err = abs(float(got[k]) - v)
            n = weight(k)
            worst = max(worst, err * n)
            require(np.isfinite(float(got[k])) and err * n < lim, f"after {h} {'the energy' if k == 'Energy' else k} is {float(got[k]):.8f}, exactly {v:.8f}", error=err * n)
    return dict(states=measured, transitions=steps_done * len(P.Ed), traces=1, nontrivial=corr > 0.005,
                stats={"max_error_" + ("single" if is_single(dt) else "double"): worst})
