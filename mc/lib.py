"""Building blocks for the checks: networks, models, exact states and exact boundaries.

The reference side uses numpy only and never calls the code under test.
"""
import itertools
import numpy as np
import torch

CDT = {"float32": np.float32, "float64": np.float64, "complex64": np.complex64, "complex128": np.complex128}
TDT = {k: getattr(torch, k) for k in CDT}


def is_single(dtype):
    return dtype in ("float32", "complex64")


def is_cplx(dtype):
    return dtype.startswith("complex")


def tol(dtype, double, single):
    return single if is_single(dtype) else double


def quiet(**kw):
    kw.setdefault("disable_progressbar", True)
    return kw


def config(nx=2, ny=2, D=2, chi=8, d=2, dtype="float64", ctmrg=None, evolution=None, model=None):
    c = dict(dtype=dtype, device="cpu", TN=dict(nx=nx, ny=ny, dims=dict(phys=d, bond=D, chi=chi)),
             ctmrg=quiet(**(ctmrg or {})), evolution=quiet(**(evolution or {})))
    if model is not None:
        c["model"] = model
    return c


def new_ipeps(**kw):
    from acetn.ipeps import Ipeps
    return Ipeps(config(**kw))


def rng(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def randn(g, shape, dtype="float64"):
    a = g.standard_normal(shape)
    if is_cplx(dtype):
        a = a + 1j * g.standard_normal(shape)
    return a.astype(CDT[dtype])


def rand_herm(g, n, dtype="float64", scale=1.0):
    a = randn(g, (n, n), "complex128" if is_cplx(dtype) else "float64")
    return scale * (a + a.conj().T) / 2


def to_np(t):
    return t.detach().cpu().resolve_conj().resolve_neg().numpy()


def to_t(a, dtype):
    return torch.tensor(np.asarray(a), dtype=TDT[dtype])


def ein(spec, a, b):
    """Contraction of two tensors."""
    return np.einsum(spec, a, b, optimize=True)


def sites(nx, ny):
    return [(x, y) for x in range(nx) for y in range(ny)]


def bonds(nx, ny):
    """Every nearest-neighbour pair of the torus, by (first site, second site, direction)."""
    out = []
    for (x, y) in sites(nx, ny):
        out.append(((x, y), ((x + 1) % nx, y), 2))
        out.append(((x, y), (x, (y + 1) % ny), 1))
    return out


STEP = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


def neighbour(s, k, nx, ny):
    return ((s[0] + STEP[k][0]) % nx, (s[1] + STEP[k][1]) % ny)


def set_tensors(ip, As):
    """Put site tensors into the network and rebuild the initial boundary from them."""
    for s, a in As.items():
        ip[s]['A'] = torch.tensor(a)
        ip[s].initialize_corner_tensors()
        ip[s].initialize_edge_tensors()
    ip.site_states_initialized = True


def get_tensors(ip):
    return {s: to_np(ip[s]['A']) for s in ip.site_list}


def snapshot(ip):
    return {s: (ip[s]['A'].clone(), [c.clone() for c in ip[s]['C']], [e.clone() for e in ip[s]['E']])
            for s in ip.site_list}


def same_tensor(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)


def same_snapshot(p, q):
    return list(p) == list(q) and all(
        same_tensor(p[s][0], q[s][0]) and len(p[s][1]) == len(q[s][1]) and len(p[s][2]) == len(q[s][2])
        and all(map(same_tensor, p[s][1], q[s][1])) and all(map(same_tensor, p[s][2], q[s][2])) for s in p)


# ---------------------------------------------------------------- exact states on the torus

def torus_state(As, nx, ny):
    """Wave function of the unit cell closed periodically on itself: it is invariant under
    every gauge transformation of the bonds and fixes the tensors up to such."""
    S = sites(nx, ny)
    lab, n = {}, itertools.count()
    ops = []
    def leg(s, k):
        # the bond between s and its neighbour, named from its left or lower end
        if k == 0:
            s, k = neighbour(s, 0, nx, ny), 2
        if k == 3:
            s, k = neighbour(s, 3, nx, ny), 1
        if (s, k) not in lab:
            lab[(s, k)] = next(n)
        return lab[(s, k)]
    phys = []
    for s in S:
        p = next(n)
        phys.append(p)
        ops += [np.asarray(As[s]).astype(np.complex128), [leg(s, 0), leg(s, 1), leg(s, 2), leg(s, 3), p]]
    return np.einsum(*ops, phys, optimize="greedy")


def unit(v):
    v = np.asarray(v)
    return v / np.linalg.norm(v)


def state_error(a, b):
    """Distance of two vectors up to normalization and phase."""
    a, b = unit(np.ravel(a)), unit(np.ravel(b))
    ov = np.vdot(a, b)
    if abs(ov) < 1e-300:
        return 2.0
    return float(np.linalg.norm(a * (ov / abs(ov)) - b))


def expm_herm(h, t):
    """exp(-t h) of a Hermitian matrix."""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-t * w)) @ v.conj().T


def apply_one(psi, g, i):
    return np.moveaxis(np.tensordot(g, psi, axes=(1, i)), 0, i)


def apply_two(psi, g, i, j):
    d = psi.shape[i]
    g = np.asarray(g).reshape(d, d, d, d)
    return np.moveaxis(np.tensordot(g, psi, axes=((2, 3), (i, j))), (0, 1), (i, j))


def evolve_torus(psi, nx, ny, bond_order, site_h, bond_h, dtau, steps):
    """The state after `steps` Trotter steps; each site term is shared by the four bonds of its site."""
    S = sites(nx, ny)
    idx = {s: i for i, s in enumerate(S)}
    d = psi.shape[0]
    eye = np.eye(d)
    gates = {}
    for b in bond_order:
        h = np.array(bond_h(b), dtype=np.complex128).reshape(d * d, d * d)
        h1, h2 = site_h(b[0]), site_h(b[1])
        if h1 is not None:
            h = h + np.kron(np.asarray(h1), eye) / 4
        if h2 is not None:
            h = h + np.kron(eye, np.asarray(h2)) / 4
        gates[b] = expm_herm(h, dtau)
    order = list(bond_order)
    for _ in range(steps):
        for b in order:
            psi = unit(apply_two(psi, gates[b], idx[b[0]], idx[b[1]]))
        order.reverse()
    return psi


# ---------------------------------------------------------------- models

def make_model_class(site_h=None, bond_h=None, init=None, site_obs=None, bond_obs=None, wrap="tensor", name="ref"):
    """A custom model from plain numpy data. wrap: how operators are handed over."""
    from acetn.model import Model
    from acetn.model.pauli_matrix import PauliMatrix

    class RefModel(Model):
        def _op(self, m, four=False):
            if m is None:
                return None
            t = torch.tensor(np.asarray(m)).to(self.dtype) if not np.iscomplexobj(m) or self.dtype.is_complex \
                else torch.tensor(np.asarray(m).real).to(self.dtype)
            if wrap == "pauli":
                return PauliMatrix('I', self.dtype, self.device, mat=t)
            if four and wrap == "four":
                return t.reshape((self.dim,) * 4)
            return t

        def initial_site_state(self, site):
            return super().initial_site_state(site) if init is None else list(init(site))

        def one_site_hamiltonian(self, site):
            return None if site_h is None else self._op(site_h(tuple(site)))

        def two_site_hamiltonian(self, bond):
            m = np.zeros((self.dim**2, self.dim**2)) if bond_h is None else bond_h((bond.s1, bond.s2, bond.k))
            return self._op(m, four=True)

        def one_site_observables(self, site):
            return {} if site_obs is None else {k: self._op(v) for k, v in site_obs(tuple(site)).items()}

        def two_site_observables(self, bond):
            return {} if bond_obs is None else {k: self._op(v, four=True)
                                                for k, v in bond_obs((bond.s1, bond.s2, bond.k)).items()}

    RefModel.__name__ = name
    return RefModel


X = np.array([[0, 1], [1, 0.]])
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1.]])
I2 = np.eye(2)


# ---------------------------------------------------------------- exact boundaries

class Env:
    """Boundary tensors around every site, with moves that absorb rows and columns without any
    truncation (the enlarged legs are simply fused).

    Chain of legs around a site: C0 E0 C1 E1 C2 E2 C3 E3 (top-left corner, top edge, ...), second leg
    of each joined to the first leg of the next; edge 0 carries the site's up leg, 1 right, 2 down, 3 left.
    """

    def __init__(self, nx, ny, A, C, E):
        self.nx, self.ny, self.A, self.C, self.E = nx, ny, A, C, E

    @classmethod
    def of(cls, ip):
        return cls(ip.nx, ip.ny, {s: to_np(ip[s]['A']) for s in ip.site_list},
                   {s: [to_np(c) for c in ip[s]['C']] for s in ip.site_list},
                   {s: [to_np(e) for e in ip[s]['E']] for s in ip.site_list})

    def copy(self):
        return Env(self.nx, self.ny, dict(self.A), {s: list(c) for s, c in self.C.items()},
                   {s: list(e) for s, e in self.E.items()})

    # what a move in direction k (0 left, 1 up, 2 right, 3 down) at row or column i touches
    def sources(self, k, i):
        return [(i, y) for y in range(self.ny)] if k in (0, 2) else [(x, i) for x in range(self.nx)]

    def target(self, k, s):
        return neighbour(s, (k + 2) % 4, self.nx, self.ny)

    @staticmethod
    def slots(k):
        """(corner before the edge, edge, corner after the edge) of side k."""
        e = (k + 3) % 4
        return e, e, (e + 1) % 4

    def move(self, k, i):
        c_lo, e, c_hi = self.slots(k)       # the chain on side k runs c_lo, e, c_hi
        before, after = (e + 3) % 4, (e + 1) % 4
        new = []
        for s in self.sources(k, i):
            A = self.A[s]
            C, E = self.C[s], self.E[s]
            # corner after: C(a,b) E_after(b,c,u,U) -> ((a u U), c)
            t = ein("ab,bcuU->auUc", C[c_hi], E[after])
            hi = t.reshape(-1, t.shape[3])
            # corner before: E_before(a,b,d,D) C(b,c) -> (a, (c d D))
            t = ein("abdD,bc->acdD", E[before], C[c_lo])
            lo = t.reshape(t.shape[0], -1)
            # edge: the site's leg towards k is joined to the edge, the opposite leg stays open
            P = np.transpose(A, [(j + k) % 4 for j in range(4)] + [4])   # (k, k+1, k+2, k+3, p)
            # the first leg of the edge meets the corner before it: side k+3; the second leg: side k+1
            t = ein("ablL,lurdp->abLurdp", E[e], P)
            t = ein("abLurdp,LURDp->adDbuUrR", t, P.conj())
            sh = t.shape
            ed = t.reshape(sh[0] * sh[1] * sh[2], sh[3] * sh[4] * sh[5], sh[6], sh[7])
            new.append((self.target(k, s), lo, ed, hi))
        for t, lo, ed, hi in new:
            self.C[t][c_lo] = lo / np.linalg.norm(lo)
            self.E[t][e] = ed / np.linalg.norm(ed)
            self.C[t][c_hi] = hi / np.linalg.norm(hi)

    def exact(self, k, i, chi, projectors):
        """Whether the move truncates nothing for generic tensors: the enlarged leg n fits chi and is not
        larger than the spaces it is contracted with."""
        D = {s: a.shape for s, a in self.A.items()}
        for s in self.sources(k, i):
            c_lo, e, c_hi = self.slots(k)
            before, after = (e + 3) % 4, (e + 1) % 4
            t = neighbour(s, (k + 3) % 4, self.nx, self.ny)       # its partner across the projected leg
            n = self.E[s][e].shape[0] * D[s][(k + 3) % 4]**2
            # spaces reached on the far sides of the two quarters meeting at this leg
            m1 = self.E[s][after].shape[1] * D[s][(k + 2) % 4]**2
            m2 = self.E[t][before].shape[0] * D[t][(k + 2) % 4]**2
            if n > chi or n > m1 or n > m2:
                return False
            if projectors == "full-system":
                opp = (e + 2) % 4
                s2 = neighbour(s, (k + 2) % 4, self.nx, self.ny)
                t2 = neighbour(t, (k + 2) % 4, self.nx, self.ny)
                m3 = self.E[s2][opp].shape[1] * D[s2][(k + 3) % 4]**2
                m4 = self.E[t2][opp].shape[0] * D[t2][(k + 1) % 4]**2
                if n > m3 or n > m4:
                    return False
        return True

    # ------------------------------------------------ reduced density matrices, rho[p, P] = |ket p><bra P|
    @staticmethod
    def _half(ea, cab, eb, cbc, ec, A):
        """Three edges joined by two corners around a site with legs (open, a, b, c, p): [start, end, open, p, OPEN, P]."""
        t = ein("wxaA,xy->wyaA", ea, cab)
        t = ein("wyaA,yzbB->wzaAbB", t, eb)
        t = ein("wzaAbB,fabcp->wzABfcp", t, A)
        t = ein("wzABfcp,FABCP->wzfcpFCP", t, A.conj())
        u = ein("zx,xycC->zycC", cbc, ec)
        return ein("wzfcpFCP,zycC->wyfpFP", t, u)

    def site_rdm(self, s):
        C, E, A = self.C[s], self.E[s], self.A[s]
        t = self._half(E[3], C[0], E[0], C[1], E[1], np.transpose(A, (3, 0, 1, 2, 4)))     # open leg: down
        u = ein("yx,xzdD->yzdD", C[2], E[2])
        u = ein("yzdD,zw->ywdD", u, C[3])
        return np.einsum("wydpDP,ywdD->pP", t, u)

    def bond_rdm(self, s1, s2, k):
        """rho[p1, p2, P1, P2]; s2 lies in direction k of s1."""
        # with legs rotated by k the legs of a site are (towards s2, +1, away, +3)
        E1, C1, A1 = self.E[s1], self.C[s1], self.A[s1]
        E2, C2, A2 = self.E[s2], self.C[s2], self.A[s2]
        ed = lambda E, pos: E[(pos + k - 1) % 4]       # edge on the side of rotated position pos
        co = lambda C, pos: C[(pos + k) % 4]           # corner between rotated sides pos and pos+1
        rot = lambda A, *pos: np.transpose(A, [(j + k) % 4 for j in pos] + [4])
        h1 = self._half(ed(E1, 1), co(C1, 1), ed(E1, 2), co(C1, 2), ed(E1, 3), rot(A1, 0, 1, 2, 3))
        h2 = self._half(ed(E2, 3), co(C2, 3), ed(E2, 0), co(C2, 0), ed(E2, 1), rot(A2, 2, 3, 0, 1))
        return ein("wyfpFP,ywfqFQ->pqPQ", h1, h2)


def code_site_rdm(ip, s):
    """The code's one-site density matrix as rho[p, P] with p the ket index."""
    from acetn.measurement.rdm import RDM
    return to_np(RDM(ip)[s]).T


def code_bond_rdm(ip, s1, s2, k):
    from acetn.measurement.rdm import RDM
    from acetn.ipeps.bond import Bond
    return np.transpose(to_np(RDM(ip)[Bond(s1, s2, k)]), (2, 3, 0, 1))


def scaled_error(a, b):
    """Distance up to a positive factor."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.isfinite(a).all():
        return float("inf")
    return float(np.linalg.norm(a / np.linalg.norm(a) - b / np.linalg.norm(b)))
