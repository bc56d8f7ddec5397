"""Trotter gates: the generators of all gates of a step add up to the Hamiltonian, over all histories of building gates."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of gate-building histories on the real code against the model Hamiltonian"
RULE = ("one case per (unit cell, physical dimension, dtype, operator format, pattern of sites with a one-site term); every history of "
        "gate constructions of the given depth over {model A, model B} x {two time steps}, where the models hand out the same stored "
        "objects each time; after every construction all gates built so far are compared; non-trivial: at least one site term or two models")
ASSUMPTIONS = ["generic Hermitian terms, different on every site and bond", "time steps of moderate size (the logarithm must be well conditioned)"]
NOTE = ("All patterns of present/absent one-site terms on cells up to 4 sites, representative patterns on larger cells, all operator "
        "formats and dtypes. A state is a set of gates in existence; a transition builds one more.")


def cases(tier, seed):
    out = []
    depth = 3 if tier == "thorough" else 2
    for nx, ny in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (4, 2)]:
        n = nx * ny
        pats = list(range(2**n)) if n <= 4 else [0, 2**n - 1, 1, 2**(n - 1), int("10" * n, 2) % 2**n, 2**n - 2]
        for d, fmt in ((2, "pauli"), (2, "tensor"), (2, "four"), (3, "tensor"), (3, "four"), (1, "tensor")):
            for dt in ("float32", "float64", "complex64", "complex128"):
                if tier == "quick" and n > 4 and (d == 3 or is_single(dt)):
                    continue
                for p in sorted(set(pats)):
                    if tier == "quick" and n == 4 and d != 2 and p % 5:
                        continue
                    out.append(dict(nx=nx, ny=ny, d=d, fmt=fmt, dtype=dt, pattern=p, depth=depth))
    return out


CHUNK = 16


def stored_model(c, g):
    """A model that hands out the very same objects on every call, and the reference terms."""
    nx, ny, d, dt = c["nx"], c["ny"], c["d"], c["dtype"]
    cplx = is_cplx(dt)
    kind = "complex128" if cplx else "float64"
    S = sites(nx, ny)
    h1 = {s: rand_herm(g, d, kind) if c["pattern"] >> i & 1 else None for i, s in enumerate(S)}
    h2 = {b: rand_herm(g, d * d, kind) for b in bonds(nx, ny)}
    from acetn.model import Model
    from acetn.model.pauli_matrix import PauliMatrix

    def obj(m, four):
        t = torch.tensor(m, dtype=TDT[dt])
        if c["fmt"] == "pauli":
            return PauliMatrix("XZ", TDT[dt], torch.device("cpu"), mat=t)
        return t.reshape((d,) * 4) if four and c["fmt"] == "four" else t
    o1 = {s: None if m is None else obj(m, False) for s, m in h1.items()}
    o2 = {b: obj(m, True) for b, m in h2.items()}

    class Stored(Model):
        def one_site_hamiltonian(self, site):
            return o1[tuple(site)]

        def two_site_hamiltonian(self, bond):
            return o2[(bond.s1, bond.s2, bond.k)]

    from acetn.ipeps.ipeps_config import ModelConfig
    model = Stored(ModelConfig(dtype=TDT[dt], device=torch.device("cpu"), dim=d))
    objs = [o for o in list(o1.values()) + list(o2.values()) if o is not None]
    raw = lambda o: o.mat if hasattr(o, "mat") else o
    keep = [(o, raw(o), raw(o).clone()) for o in objs]
    return model, h1, h2, keep, raw


def split(G, d):
    """G = c + a x 1 + 1 x b + t with a, b traceless and t traceless on either side."""
    G = G.reshape(d, d, d, d)
    a = np.einsum("pqrq->pr", G) / d
    b = np.einsum("pqpr->qr", G) / d
    c = np.trace(a) / d
    a, b = a - c * np.eye(d), b - c * np.eye(d)
    e = np.eye(d)
    t = G.reshape(d * d, d * d) - c * np.eye(d * d) - np.kron(a, e) - np.kron(e, b)
    return c, a, b, t


def decompose(terms1, terms2, d):
    const, one, two = 0, {}, {}
    for s, m in terms1.items():
        if m is not None:
            c = np.trace(m) / d
            const += c
            one[s] = one.get(s, 0) + m - c * np.eye(d)
    for (s1, s2, k), m in terms2.items():
        c, a, b, t = split(m, d)
        const += c
        one[s1] = one.get(s1, 0) + a
        one[s2] = one.get(s2, 0) + b
        two[(s1, s2, k)] = t
    return const, one, two


def generator(gate, key, d, n, dt):
    M = to_np(gate[key]).astype(np.complex128).reshape(d**n, d**n)
    require(gate[key].dtype == TDT[dt], f"the gate on {key} has dtype {gate[key].dtype}")
    herm = np.abs(M - M.conj().T).max()
    require(herm < tol(dt, 1e-10, 1e-4), f"the gate on {key} is not Hermitian (by {herm:.1e})")
    w, v = np.linalg.eigh((M + M.conj().T) / 2)
    require(w[0] > 0, f"the gate on {key} is not positive")
    return -(v * np.log(w)) @ v.conj().T


def check_gates(gate, dtau, h1, h2, c, ip):
    d, dt = c["d"], c["dtype"]
    t2 = {(b.s1, b.s2, b.k): generator(gate, b, d, 2, dt) for b in ip.bond_list}
    t1 = {}
    if not getattr(gate, "wrap_one_site", True):
        for s in ip.site_list:
            if h1[s] is not None:
                t1[s] = 4 * generator(gate, s, d, 1, dt)
    cg, og, tg = decompose(t1, t2, d)
    ch, oh, th = decompose(h1, h2, d)
    eps = tol(dt, 1e-9, 5e-5)
    for name, x, y in [("the constant", cg, dtau * ch)] \
            + [(f"the one-site term of {s}", og.get(s, 0), dtau * oh.get(s, 0)) for s in ip.site_list] \
            + [(f"the two-site term of bond {b}", tg[b], dtau * th[b]) for b in tg]:
        e = np.abs(x - y).max()
        require(e < eps, f"{name} in the gates differs from the Hamiltonian by {e:.2e} (dtau={dtau})", where=name)


def run_case(c):
    from acetn.evolution.gate import Gate
    g = rng("c02", sorted(c.items()))
    ip = new_ipeps(nx=c["nx"], ny=c["ny"], D=1, d=c["d"], chi=2, dtype=c["dtype"])
    models = [stored_model(c, g), stored_model(dict(c, pattern=c["pattern"] ^ (2**(c["nx"] * c["ny"]) - 1)), g)]
    menu = [(0, 0.25), (0, 0.05), (1, 0.25), (1, 0.0)]
    states = trans = 0
    for hist in itertools.product(menu, repeat=c["depth"]):
        gates = []
        states += 1
        for i, dtau in hist:
            gates.append((i, dtau, Gate(models[i][0], dtau, ip.bond_list, ip.site_list)))
            trans += 1
        # the last construction must not have changed what was there before
        for i, dtau, gate in gates:
            check_gates(gate, dtau, models[i][1], models[i][2], c, ip)
        for m in models:
            for o, t, before in m[3]:
                require(m[4](o) is t and torch.equal(t, before), "building gates changed an operator of the model")
    return dict(states=states, transitions=trans, traces=states, checks=trans, nontrivial=True)
