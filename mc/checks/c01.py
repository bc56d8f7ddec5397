"""Spin-operator expressions: every expression tree up to a size bound against the operator it denotes."""
import numpy as np
import torch
from ..core import require
from ..lib import *

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of expression trees, each evaluated by the real operators and by a reference"
RULE = ("one case per (dtype, number of leaves, number of unary operations, root operation); within it every expression tree of that "
        "size over X, Y, Z, I with tensor product, sum, difference, negation, scaling and division is evaluated; sums only of equal "
        "dimension, in real precision only of equal Y-parity; non-trivial: the root result is not a multiple of the identity")
ASSUMPTIONS = ["scalars are represented by a few integers, floats and zero-dimensional tensors",
               "real-precision expressions whose summands differ in Y-parity, and odd results in real precision, are outside the property"]
NOTE = ("Every expression up to 4 leaves (thorough: 5 leaves, or 4 leaves with up to 2 unary operations) is decided exactly; "
        "trusts numpy.kron. Deeper expressions follow only by induction on the same overloads.")
CASE_LIMIT = 800

LEAF = {"X": X, "Y": Y, "Z": Z, "I": I2}
BIN = ["*", "+", "-"]
UN = ["neg", "lmul", "rmul", "div", "imul"]
SC = {"lmul": 2, "rmul": -0.5, "div": 4, "imul": 3.0}


def cases(tier, seed):
    sizes = [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0), (3, 1), (4, 0)]
    if tier == "thorough":
        sizes += [(2, 2), (3, 2), (4, 1), (5, 0)]
    out = []
    for dt in ("float32", "float64", "complex64", "complex128"):
        for n, u in sizes:
            if n == 5 and dt not in ("float64", "complex128"):
                continue
            for op in (BIN if n > 1 else []) + (UN if u else []) or ["leaf"]:
                out.append(dict(dtype=dt, leaves=n, unary=u, root=op))
        for n in (1, 2):
            for m in (1, 2, 3):
                out.append(dict(dtype=dt, leaves=n, inplace=m))
        out.append(dict(dtype=dt, scalars=True))
    return out


class Node:
    __slots__ = ("text", "op", "ref", "odd", "n")

    def __init__(self, text, op, ref, odd):
        self.text, self.op, self.ref, self.odd = text, op, ref, odd


def unary(u, a):
    s = SC.get(u)
    if u == "neg":
        return Node(f"(-{a.text})", -a.op, -a.ref, a.odd)
    if u == "lmul":
        return Node(f"({s}*{a.text})", s * a.op, s * a.ref, a.odd)
    if u == "rmul":
        return Node(f"({a.text}*{s})", a.op * s, s * a.ref, a.odd)
    if u == "imul":
        c = a.op
        c *= s
        return Node(f"({a.text} *= {s})", c, s * a.ref, a.odd)
    return Node(f"({a.text}/{s})", a.op / s, a.ref / s, a.odd)


def binary(o, a, b, real):
    if o == "*":
        return Node(f"({a.text}*{b.text})", a.op * b.op, np.kron(a.ref, b.ref), None if None in (a.odd, b.odd) else a.odd ^ b.odd)
    if a.ref.shape != b.ref.shape or (real and a.odd != b.odd):
        return None
    odd = a.odd if a.odd == b.odd else None
    if o == "+":
        return Node(f"({a.text}+{b.text})", a.op + b.op, a.ref + b.ref, odd)
    return Node(f"({a.text}-{b.text})", a.op - b.op, a.ref - b.ref, odd)


class Trees:
    """All expressions with n leaves and u unary operations, sharing subexpressions."""

    def __init__(self, dtype):
        from acetn.model.pauli_matrix import pauli_matrices
        self.real = not is_cplx(dtype)
        self.memo = {}
        ops = dict(zip("XYZI", pauli_matrices(TDT[dtype], torch.device("cpu"))))
        self.leaves = [Node(k, ops[k], LEAF[k].astype(complex), k == "Y") for k in "XYZI"]

    def all(self, n, u):
        if (n, u) not in self.memo:
            self.memo[(n, u)] = [t for op in (["leaf"] + BIN + UN) for t in self.rooted(n, u, op)]
        return self.memo[(n, u)]

    def rooted(self, n, u, op):
        if op == "leaf":
            yield from (self.leaves if (n, u) == (1, 0) else ())
        elif op in UN:
            if u:
                for a in self.all(n, u - 1):
                    yield unary(op, a)
        else:
            for i in range(1, n):
                for v in range(u + 1):
                    for a in self.all(i, v):
                        for b in self.all(n - i, u - v):
                            t = binary(op, a, b, self.real)
                            if t is not None:
                                yield t


def mat(op):
    return op.mat if hasattr(op, "mat") else op


def compare(t, dtype, tr):
    m = mat(t.op)
    require(isinstance(m, torch.Tensor) and m.dtype == TDT[dtype], f"{t.text} has dtype {getattr(m, 'dtype', type(m))}, not {dtype}")
    require(tuple(m.shape) == t.ref.shape, f"{t.text} has shape {tuple(m.shape)}")
    if tr.real:
        if t.odd:
            return False
        ref = t.ref.real
    else:
        ref = t.ref
    err = np.abs(m.numpy() - ref).max()
    require(err <= tol(dtype, 1e-12, 1e-5) * max(1.0, np.abs(ref).max()), f"{t.text} is off by {err:.2e}", expression=t.text, dtype=dtype)
    return True


def run_case(c):
    dt = c["dtype"]
    tr = Trees(dt)
    n = nontriv = 0
    if c.get("scalars"):
        ss = [0, 1, -1, 7, 0.25, -1.5, 1e3, True, torch.tensor(1.5, dtype=TDT[dt]), torch.tensor(-2)]
        if is_cplx(dt):
            ss += [1j, 2 - 0.5j, torch.tensor(0.5j, dtype=TDT[dt])]
        for a in tr.all(1, 0) + tr.all(2, 0):
            for s in ss:
                v = complex(s)
                for name, f, r in (("left", lambda: s * a.op, v * a.ref), ("right", lambda: a.op * s, v * a.ref),
                                   ("quotient", lambda: a.op / s, None)):
                    if name == "left" and isinstance(s, torch.Tensor):
                        continue            # torch decides the left product with a tensor
                    if r is None:
                        if v == 0:
                            continue
                        r = a.ref / v
                    compare(Node(f"{name} of {a.text} and {s}", f(), r, a.odd), dt, tr)
                    n += 1
    elif "inplace" in c:
        for a in tr.all(c["leaves"], 0):
            for b in tr.all(c["inplace"], 0):
                x = a.op
                x *= b.op
                odd = None if None in (a.odd, b.odd) else a.odd ^ b.odd
                compare(Node(f"({a.text} *= {b.text})", x, np.kron(a.ref, b.ref), odd), dt, tr)
                n += 1
    else:
        for t in tr.rooted(c["leaves"], c["unary"], c["root"]):
            if compare(t, dt, tr):
                n += 1
                nontriv += np.abs(t.ref - t.ref[0, 0] * np.eye(len(t.ref))).max() > 0
    # operands are what they were
    for ts in tr.memo.values():
        for t in ts:
            compare(t, dt, tr)
    for t in tr.leaves:
        ref = t.ref if not tr.real else (t.ref / 1j).real if t.odd else t.ref.real
        require(np.array_equal(mat(t.op).numpy(), ref), f"evaluating expressions changed the operator {t.text}")
    return dict(checks=n, nontrivial=bool(nontriv) or "inplace" in c or "scalars" in c, sample=dict(case=c, expressions=n),
                stats=dict(expressions=n))
