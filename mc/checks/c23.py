"""Measured values against averages of exact expectation values in the network as it stands."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of unit cells, dimensions, operator representations and dependence patterns on the real measurement, against an independent contraction of the same network"
RULE = ("one case per (unit cell, D, chi, d, dtype, kind of environment); within it every combination of operator representation, dependence pattern and normalization of the tensors is measured twice; "
        "a state is one measured network; non-trivial: the terms differ between sites and between bonds")
ASSUMPTIONS = ["environments: after one sweep, and independent random positive ones around every site", "Hermitian operators"]
NOTE = "The reference contracts A, C and E of the network with numpy; with positive random environments every corner and edge differs, so that a wrong tensor cannot cancel."

PATTERNS = ("uniform", "site", "direction", "bond", "mixed")
WRAPS = ("tensor", "four", "pauli", "strided", "lazy")
CELLS = {"quick": [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3)], "thorough": [(a, b) for a in range(1, 5) for b in range(1, 5) if a * b <= 12]}


def cases(tier, seed):
    out = []
    deep = tier == "thorough"
    for nx, ny in CELLS[tier]:
        for dt in ("float32", "float64", "complex64", "complex128"):
            for D, d in ((1, 2), (2, 2), (2, 3)) + (((1, 4), (3, 2), (2, 4)) if deep else ((1, 4),) if (nx, ny) == (2, 2) else ()):
                for env in ("sweep", "random"):
                    out.append(dict(nx=nx, ny=ny, D=D, d=d, dtype=dt, env=env, tier=tier))
    return out


class Terms:
    """Operators of a pattern: all Hermitian, generic, not symmetric under exchange of the two sites."""

    def __init__(self, pattern, nx, ny, d, dt, key):
        self.p, self.nx, self.ny, self.d, self.dt, self.key = pattern, nx, ny, d, dt, key
        self.cache = {}

    def op(self, n, *key):
        if key not in self.cache:
            self.cache[key] = rand_herm(rng("c23", self.key, self.d, is_cplx(self.dt), *key), n, self.dt)
        return self.cache[key]

    def site(self, s, what="h"):
        if self.p in ("uniform", "direction"):
            s = (0, 0)
        if self.p == "mixed" and what == "h" and sum(s) % 2:
            return None                                     # no term on some sites
        return self.op(self.d, what, tuple(s))

    def bond(self, b, what="H"):
        s1, s2, k = b
        flip = k in (0, 3)
        if flip:
            s1, s2, k = s2, s1, (k + 2) % 4
        key = {"uniform": (), "site": (sum(s1) % 2,), "direction": (k,), "bond": (s1, k), "mixed": (s1, k)}[self.p]
        m = self.op(self.d**2, what, *key)
        if self.p == "uniform":                             # the same in both directions along the bond
            t = m.reshape((self.d,) * 4)
            m = (t + t.transpose(1, 0, 3, 2)).reshape(self.d**2, -1) / 2
        if flip:
            m = m.reshape((self.d,) * 4).transpose(1, 0, 3, 2).reshape(self.d**2, -1)
        return m


def model_class(T, wrap, store):
    """Hands out the same tensor objects again and again, so that measuring must not change them."""
    from acetn.model import Model
    from acetn.model.pauli_matrix import PauliMatrix

    def give(m, key, two, dtype, device):
        if m is None:
            return None
        if key not in store:
            t = torch.tensor(np.asarray(m)).to(dtype)
            if wrap == "pauli":
                t = PauliMatrix('I', dtype, device, mat=t)
            elif wrap == "four" and two:
                t = t.reshape((int(round(len(m) ** 0.5)),) * 4)
            elif wrap == "strided":
                t = t.mT.contiguous().mT
            elif wrap == "lazy" and t.is_complex():
                t = t.conj().resolve_conj().conj()
            store[key] = (t, (t.mat if wrap == "pauli" else t).clone())
        return store[key][0]

    class Reference(Model):
        def one_site_hamiltonian(self, site):
            return give(T.site(tuple(site)), ("h", tuple(site)), False, self.dtype, self.device)

        def two_site_hamiltonian(self, bond):
            b = (tuple(bond.s1), tuple(bond.s2), bond.k)
            return give(T.bond(b), ("H",) + b, True, self.dtype, self.device)

        def one_site_observables(self, site):
            return {w: give(T.site(tuple(site), w), (w, tuple(site)), False, self.dtype, self.device) for w in ("m", "a longer name")}

        def two_site_observables(self, bond):
            b = (tuple(bond.s1), tuple(bond.s2), bond.k)
            return {w: give(T.bond(b, w), (w,) + b, True, self.dtype, self.device) for w in ("c", "Correlation 2")}

    return Reference


def densities(ip, d):
    """Normalized density matrices of every site and bond, from the tensors of the network."""
    env = Env.of(ip)
    for s in env.A:                                         # in double precision, of moderate size
        env.A[s] = unit(env.A[s].astype(np.complex128))
        env.C[s] = [unit(c.astype(np.complex128)) for c in env.C[s]]
        env.E[s] = [unit(e.astype(np.complex128)) for e in env.E[s]]
    norm = lambda r: r / np.trace(r).real
    return ({s: norm(env.site_rdm(s)) for s in sites(ip.nx, ip.ny)},
            {b: norm(env.bond_rdm(*b).reshape(d**2, d**2)) for b in bonds(ip.nx, ip.ny)})


def expectations(rho, T):
    """The documented averages."""
    ones, twos = rho
    ev = lambda r, m: 0.0 if m is None else np.trace(r @ m).real
    out = {"Energy": (sum(ev(r, T.site(s)) for s, r in ones.items()) + sum(ev(r, T.bond(b)) for b, r in twos.items())) / len(ones)}
    out.update({w: sum(ev(r, T.site(s, w)) for s, r in ones.items()) / len(ones) for w in ("m", "a longer name")})
    out.update({w: sum(ev(r, T.bond(b, w)) for b, r in twos.items()) / len(twos) for w in ("c", "Correlation 2")})
    return out


def random_environment(ip, g, dt):
    """Boundary tensors that are doubled random tensors: every density matrix is positive."""
    n = 2
    def double(a):
        t = np.einsum(*[a, list(range(a.ndim)), a.conj(), list(range(a.ndim, 2 * a.ndim))],
                      [i for j in range(a.ndim) for i in (j, a.ndim + j)])
        return t
    for s in ip.site_list:
        D = ip[s]['A'].shape
        # mixtures, so that no tensor is a product of ket and bra
        ip[s]['C'] = [to_t(unit(sum(double(randn(g, (n, n), dt)) for _ in range(2)).reshape(n * n, n * n)), dt) for _ in range(4)]
        ip[s]['E'] = [to_t(unit(sum(double(randn(g, (n, n, D[(k + 1) % 4]), dt)) for _ in range(2)).reshape(n * n, n * n, D[(k + 1) % 4], -1)), dt) for k in range(4)]


def install(ip, c, scale, g):
    nx, ny, D, d, dt = c["nx"], c["ny"], c["D"], c["d"], c["dtype"]
    As = {}
    for i, s in enumerate(sites(nx, ny)):
        f = 1.0 if scale == "unit" else 10.0 ** (3 * (-1) ** i) * (np.exp(1j * i) if is_cplx(dt) else (-1.0) ** i)
        As[s] = (f * unit(randn(g, (D,) * 4 + (d,), dt))).astype(CDT[dt])
    set_tensors(ip, As)
    if c["env"] == "sweep":
        ip.renormalize()
    else:
        random_environment(ip, g, dt)
        if scale != "unit":
            for s in ip.site_list:
                ip[s]['C'] = [x * 10.0 ** ((j - 1) * 2) for j, x in enumerate(ip[s]['C'])]
                ip[s]['E'] = [x * 10.0 ** ((2 - j) * 2) for j, x in enumerate(ip[s]['E'])]
    if scale != "unit":                                     # boundary tensors are determined up to their sign
        for s in ip.site_list:
            for key in ("C", "E"):
                ip[s][key] = [x * float(g.choice([-1, 1])) for x in ip[s][key]]


def run_case(c):
    nx, ny, D, d, dt = c["nx"], c["ny"], c["D"], c["d"], c["dtype"]
    n = 0
    for scale in ("unit", "scaled"):
        g = rng("c23", scale, *map(str, c.values()))
        # a boundary dimension that keeps the first sweep exact enough to be positive
        ip = new_ipeps(nx=nx, ny=ny, D=D, d=d, chi=max(4, D**2), dtype=dt, ctmrg=dict(steps=1))
        install(ip, c, scale, g)
        rho, before, lim = densities(ip, d), snapshot(ip), tol(dt, 1e-9, 1e-3)
        for pattern, wrap in itertools.product(PATTERNS, WRAPS):
            if wrap == "lazy" and not is_cplx(dt) or c["tier"] == "quick" and scale != "unit" and (wrap in ("strided", "lazy") or pattern not in ("uniform", "mixed")):
                continue
            T, store = Terms(pattern, nx, ny, d, dt, "t"), {}
            want = expectations(rho, T)
            ip.set_model(model_class(T, wrap, store), {})
            for again in range(2 if c['tier'] == 'thorough' or pattern in ('uniform', 'mixed') else 1):
                got = ip.measure()
                require(set(got) == set(want), f"the measured quantities are {sorted(got)}")
                for k in want:
                    v = float(got[k])
                    require(abs(v - want[k]) <= lim * (1 + abs(want[k])), f"{k} is {v} instead of {want[k]} ({pattern} terms as {wrap}, {scale} tensors, measurement {again + 1})")
            require(same_snapshot(before, snapshot(ip)), "measuring changes the network")
            for key, (t, copy) in store.items():
                require(torch.equal(t.mat if wrap == "pauli" else t, copy), f"measuring changes the operator {key}")
            n += 1
        # what is measured is the network as it is now, with the model as it is now
        T = Terms("bond", nx, ny, d, dt, "later")
        install(ip, c, scale, g)
        want = expectations(densities(ip, d), T)
        cls = model_class(T, "tensor", {})
        from acetn.model.model_factory import model_factory
        ip.set_model(cls, {})
        m = model_factory.create(ip.config.model)
        for how, got in (("set", ip.measure()), ("given", ip.measure(m)), ("given", ip.measure(model=m))):
            for k in want:
                require(abs(float(got[k]) - want[k]) <= lim * (1 + abs(want[k])), f"after a change of the network and the model {k} is {float(got[k])} instead of {want[k]} (model {how})")
        n += 1
    return dict(states=n, checks=n, nontrivial=nx * ny > 1)
