"""Built-in models against the Hamiltonians they stand for, term by term and through the networks that use them."""
import itertools
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of model parameters, precisions, unit cells, sites and bonds on the real models, and of product states measured through them, against independently built Hamiltonians"
RULE = ("one case per (kind, model, parameters, dtype, unit cell): every site and every bond of the cell in all four directions is compared; the measured cases enumerate every assignment of Pauli eigenstates to the two sublattices; "
        "a state is one compared operator or measured network; non-trivial: the Hamiltonian does not vanish")
ASSUMPTIONS = ["parameters from a grid of signs and magnitudes including integers and zero", "unit cells up to 4x4 for the terms, 2x2 for the measured networks"]
NOTE = "The Hamiltonians are written down with plain numpy matrices. Operators are accepted as spin operators or tensors, in matrix or four-index form."

S = {"X": X, "Y": Y, "Z": Z}
TERM_CELLS = {"quick": [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)], "thorough": [(a, b) for a in range(1, 5) for b in range(1, 5)]}
VALUES = {"quick": [1.0, -0.7, 0, 2, 1e3], "thorough": [1.0, -0.7, 0, 2, -3, 1e3, 1e-3, 0.1, 3.044, np.float64(0.5)]}
STATES = {"+z": [1, 0], "-z": [0, 1], "+x": [1, 1], "-x": [1, -1], "+y": [1, 1j], "-y": [1, -1j]}
DTYPES = ("float32", "float64", "complex64", "complex128")


def params(model, tier):
    if model == "heisenberg":
        return [{}] + [{"J": v} for v in VALUES[tier]]
    return [{"jz": a, "hx": b} for a, b in itertools.product(VALUES[tier], repeat=2)]


def cases(tier, seed):
    out = []
    for model in ("heisenberg", "ising"):
        for dt in DTYPES:
            for nx, ny in TERM_CELLS[tier]:
                out.append(dict(kind="terms", model=model, dtype=dt, nx=nx, ny=ny, tier=tier))
            for p in params(model, "quick"):
                out.append(dict(kind="measured", model=model, dtype=dt, params=p, tier=tier))
            out.append(dict(kind="initial", model=model, dtype=dt, tier=tier))
            out.append(dict(kind="parameters", model=model, dtype=dt, tier=tier))
    for dt in DTYPES:
        for d in (2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            out.append(dict(kind="custom", dtype=dt, d=d, tier=tier))
    out.append(dict(kind="directions", tier=tier))
    return out


def build(name, p, dtype, dim=2):
    from acetn.model.model_factory import model_factory
    from acetn.ipeps.ipeps_config import ModelConfig
    return model_factory.create(ModelConfig(dtype=TDT[dtype], device=torch.device("cpu"), dim=dim, name=name, params=dict(p)))


def matrix(op, n, dtype=None):
    """An operator handed out by a model as an n x n matrix."""
    t = op.mat if hasattr(op, "mat") else op
    require(isinstance(t, torch.Tensor), f"the model hands out {type(op).__name__}")
    if dtype is not None:
        require(t.dtype == TDT[dtype], f"the operator has dtype {t.dtype} in a {dtype} network")
    m = to_np(t)
    require(m.size == n * n, f"the operator has shape {m.shape} instead of {n}x{n}")
    return m.reshape(n, n)


def bond_reference(model, p):
    if model == "heisenberg":
        return 0.25 * p.get("J", 1.0) * sum(np.kron(a, a) for a in (X, Y, Z))
    return -p["jz"] * np.kron(Z, Z).astype(complex)


def site_reference(model, p):
    return np.zeros((2, 2)) if model == "heisenberg" else -p["hx"] * X


def observables_reference(model, s):
    sign = -1 if model == "heisenberg" and sum(s) % 2 else 1
    return {"sx": sign * X, "sz": sign * Z}


def close(a, b, dtype, scale=1.0):
    return np.abs(a - b).max() <= tol(dtype, 1e-14, 1e-6) * max(scale, np.abs(b).max())


def compare_terms(m, model, p, dt, nx, ny):
    from acetn.ipeps.bond import Bond
    n = 0
    for s in sites(nx, ny):
        h = m.one_site_hamiltonian(s)
        want = site_reference(model, p)
        if h is None:
            require(not np.any(want), f"{model} with {p} has no term on site {s}")
        else:
            require(close(matrix(h, 2, dt), want, dt), f"{model} with {p}: wrong term on site {s}")
        obs, want = m.one_site_observables(s), observables_reference(model, s)
        require(set(obs) == set(want), f"{model} measures {sorted(obs)}")
        for k in want:
            require(close(matrix(obs[k], 2, dt), want[k], dt), f"{model}: wrong observable {k} on site {s} of a {nx}x{ny} cell")
        n += 3
        for k in range(4):
            b = Bond(s, neighbour(s, k, nx, ny), k)
            require(close(matrix(m.two_site_hamiltonian(b), 4, dt), bond_reference(model, p), dt), f"{model} with {p}: wrong term on the bond {s} {k} of a {nx}x{ny} cell")
            require(dict(m.two_site_observables(b)) == {}, f"{model} has two-site observables")
            n += 2
    return n


def run_terms(c):
    dt, model, nx, ny = c["dtype"], c["model"], c["nx"], c["ny"]
    n = 0
    for p in params(model, c["tier"]):
        m = build(model, p, dt)
        n += compare_terms(m, model, p, dt, nx, ny)
        n += compare_terms(m, model, p, dt, nx, ny)         # asking again gives the same
        require(m.dim == 2 and m.dtype == TDT[dt] and m.name == model and dict(m.params) == p, "the model has a wrong name, dimension, dtype or parameters")
    return dict(states=n, checks=n, nontrivial=True)


def network(model, p, dt, nx=2, ny=2, **kw):
    from acetn.ipeps import Ipeps
    return Ipeps(config(nx=nx, ny=ny, D=1, chi=1, dtype=dt, model=dict(name=model, params=dict(p)), **kw))


def expect(model, p, states):
    """Energy and observables of a product state on the 2x2 cell."""
    S_ = sites(2, 2)
    ex = lambda v, m: (v.conj() @ m @ v).real / (v.conj() @ v).real
    E = sum(ex(states[s], site_reference(model, p)) for s in S_)
    for a, b, k in bonds(2, 2):
        E += ex(np.kron(states[a], states[b]), bond_reference(model, p))
    out = {"Energy": E / 4}
    for o in ("sx", "sz"):
        out[o] = sum(ex(states[s], observables_reference(model, s)[o]) for s in S_) / 4
    return out


def run_measured(c):
    dt, model, p = c["dtype"], c["model"], c["params"]
    ip = network(model, p, dt, ctmrg=dict(steps=1))
    names = [k for k in STATES if is_cplx(dt) or "y" not in k]
    n = 0
    for a, b in itertools.product(names, repeat=2):
        v = {s: np.array(STATES[(a, b)[sum(s) % 2]]) for s in sites(2, 2)}
        if not is_cplx(dt):
            v = {s: x.real for s, x in v.items()}
        set_tensors(ip, {s: unit(x).reshape(1, 1, 1, 1, 2).astype(CDT[dt]) for s, x in v.items()})
        ip.renormalize()
        got, want = ip.measure(), expect(model, p, v)
        require(set(got) == set(want), f"{model} measures {sorted(got)}")
        scale = 1 + sum(abs(float(x)) for x in p.values())
        for k in want:
            require(abs(float(got[k]) - want[k]) <= tol(dt, 1e-12, 1e-5) * scale, f"{model} with {p} in the state {a},{b}: {k} is {float(got[k])} instead of {want[k]}")
        n += 1
    return dict(states=n, checks=n, nontrivial=any(p.values()) or not p)


def run_initial(c):
    """The initial state: as reported by the model, and as found in a network that has made no steps."""
    dt, model = c["dtype"], c["model"]
    p = {"J": 1.0} if model == "heisenberg" else {"jz": 1.0, "hx": 0.5}
    m = build(model, p, dt)
    n = 0
    for nx, ny in TERM_CELLS[c["tier"]]:
        for s in sites(nx, ny):
            v = [float(x) for x in m.initial_site_state(s)]
            want = [0, 1] if model == "heisenberg" and sum(s) % 2 else [1, 0]
            require(v == want, f"{model} starts with {v} on site {s}")
            n += 1
    if model == "heisenberg":
        # Neel: neighbours are orthogonal on every bond of an even cell
        for a, b, k in bonds(2, 2):
            require(np.dot(m.initial_site_state(a), m.initial_site_state(b)) == 0, "the initial state is not the Neel state")
    from acetn.ipeps import Ipeps
    for nx, ny in ((2, 2), (2, 4), (4, 2)):
        ip = Ipeps(config(nx=nx, ny=ny, D=2, chi=4, dtype=dt, model=dict(name=model, params=p), ctmrg=dict(steps=2)))
        ip.evolve(0.0, 0)
        got = ip.measure()
        want = {"heisenberg": {"Energy": -0.5, "sx": 0, "sz": 1}, "ising": {"Energy": -2, "sx": 0, "sz": 1}}[model]
        for k in want:
            require(abs(float(got[k]) - want[k]) < 0.15, f"{model} starts on {nx}x{ny} with {k} = {float(got[k])} instead of about {want[k]}")
        n += 1
    return dict(states=n, checks=n, nontrivial=True)


def run_parameters(c):
    """Parameters changed while the network is in use act on the next measurement."""
    dt, model = c["dtype"], c["model"]
    ip = network(model, {"J": 5.0} if model == "heisenberg" else {"jz": 5.0, "hx": 7.0}, dt, ctmrg=dict(steps=1))
    v = {s: unit(np.array([1.0, 0.3 if sum(s) % 2 else -0.6])) for s in sites(2, 2)}
    set_tensors(ip, {s: x.reshape(1, 1, 1, 1, 2).astype(CDT[dt]) for s, x in v.items()})
    ip.renormalize()
    cur = {"J": 5.0} if model == "heisenberg" else {"jz": 5.0, "hx": 7.0}
    n = 0
    for val in VALUES[c["tier"]]:
        for key in list(cur):
            ip.set_model_params(**{key: val})
            cur[key] = val
            got, want = float(ip.measure()["Energy"]), expect(model, cur, v)["Energy"]
            require(abs(got - want) <= tol(dt, 1e-12, 1e-5) * (1 + sum(abs(float(x)) for x in cur.values())), f"{model} set to {cur} measures {got} instead of {want}")
            other = build(model, {"J": 1} if model == "heisenberg" else {"jz": 1, "hx": 1}, dt)
            compare_terms(other, model, {"J": 1} if model == "heisenberg" else {"jz": 1, "hx": 1}, dt, 2, 2)
            n += 2
    return dict(states=n, checks=n, nontrivial=True)


def run_custom(c):
    from acetn.ipeps import Ipeps
    from acetn.ipeps.bond import Bond
    from acetn.model import Model
    from acetn.model.model_factory import model_factory
    from acetn.ipeps.ipeps_config import ModelConfig
    dt, d = c["dtype"], c["d"]

    class Bare(Model):
        def two_site_hamiltonian(self, bond):
            return torch.eye(self.dim**2, dtype=self.dtype) * self.params.get("w", 1.0)

    m = Bare(ModelConfig(dtype=TDT[dt], device=torch.device("cpu"), dim=d, name="bare", params={"w": 2.0}))
    n = 0
    for s in sites(3, 2):
        require(m.one_site_hamiltonian(s) is None, "a custom model has a one-site term by default")
        require(dict(m.one_site_observables(s)) == {}, "a custom model has one-site observables by default")
        require([float(x) for x in m.initial_site_state(s)] == [1.0] + [0.0] * (d - 1), f"the default initial state is {m.initial_site_state(s)}")
        for k in range(4):
            b = Bond(s, neighbour(s, k, 3, 2), k)
            require(dict(m.two_site_observables(b)) == {}, "a custom model has two-site observables by default")
            require(m.bond_direction(b) == {0: "-x", 1: "+y", 2: "+x", 3: "-y"}[k], f"bond {b} is reported as {m.bond_direction(b)}")
        n += 1
    # through a network: only the bond term is there, and the state is the first basis state
    ip = Ipeps(config(nx=2, ny=2, D=1, chi=1, d=d, dtype=dt, ctmrg=dict(steps=1)))
    for name in (None, "Some Model"):
        ip.set_model(Bare, {"w": 3.0}, name=name)
        ip.site_states_initialized = False
        ip.evolve(0.0, 0)
        got = ip.measure()
        require(set(got) == {"Energy"} and abs(float(got["Energy"]) - 6.0) < tol(dt, 1e-12, 1e-4), f"a custom model measures {got}")
        for s in ip.site_list:
            v = np.abs(to_np(ip[s]["A"]).ravel())
            require(v.argmax() == 0 and (d == 1 or v[1:].max() < 0.2 * v[0]), f"the network starts with {v} on site {s}")
        n += 1
    # a model without a bond term cannot be made
    class Empty(Model):
        pass
    try:
        Empty(ModelConfig(dtype=TDT[dt], device=torch.device("cpu"), dim=d, name="empty", params={}))
    except TypeError:
        pass
    else:
        require(False, "a model without a two-site Hamiltonian is accepted")
    return dict(states=n, checks=n, nontrivial=True)


def run_directions(c):
    """Every bond of every network is reported with the direction its second site really has."""
    from acetn.ipeps import Ipeps
    n = 0
    for nx, ny in TERM_CELLS["thorough"]:
        ip = Ipeps(config(nx=nx, ny=ny, D=1, chi=1))
        m = build("heisenberg", {}, "float64")
        step = {"-x": (-1, 0), "+y": (0, 1), "+x": (1, 0), "-y": (0, -1)}
        for b in ip.bond_list:
            dx, dy = step[m.bond_direction(b)]
            s1, s2, k = b
            require(((s1[0] + dx) % nx, (s1[1] + dy) % ny) == tuple(s2), f"the bond {b} of a {nx}x{ny} cell is reported as {m.bond_direction(b)}")
            n += 1
        for s in sites(nx, ny):
            for k in range(4):
                require(m.bond_direction([s, neighbour(s, k, nx, ny), k]) == {0: "-x", 1: "+y", 2: "+x", 3: "-y"}[k], "wrong bond direction")
                n += 1
        require(m.bond_direction([(0, 0), (0, 0), 4]) is None, "an unknown direction is reported")
    return dict(states=n, checks=n, nontrivial=True)


def run_case(c):
    return globals()["run_" + c["kind"]](c)
