"""Life cycle of the process group over all histories of networks, and the environments that enable distribution."""
import contextlib
import gc
import io
import itertools
import os
import sys
import numpy as np
import torch
from .. import core, fakedist
from ..core import require
from ..lib import *

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all create/use/delete histories up to a depth on the real code with a monitored process group, against a reference count; table of all launcher environments"
RULE = ("one case per (environment) or per (world size, rank, first operations); every continuation up to the depth of the tier is run in a process of its own; the process group must exist exactly "
        "while networks live; non-trivial: a network was created in a distributed environment")
ASSUMPTIONS = ["the other ranks perform the same operations (mirrored stand-in for torch.distributed)", "up to two or three living networks; quick depth 5, thorough depth 6"]
NOTE = "Operations: create two kinds of networks, fail to create one, use each, copy each, delete each, delete copies. Environments: RANK x WORLD_SIZE x device."
FRESH = True
CASE_LIMIT = 600

OPS = ("new0", "new1", "new0b", "bad", "use0", "use1", "copy0", "del0", "del1", "delcopy")


def cases(tier, seed):
    depth = 6 if tier == "thorough" else 5
    out = []
    n = os.cpu_count()
    for rank in (None, 0, 1, 2):
        for ws in (None, 1, 2, 3, n, n + 1, 4 * n):
            if ws is not None and ws > 1 and rank is not None and rank >= ws:
                continue
            for dev in ("cpu", "cuda", "meta"):
                out.append(dict(kind="env", rank=rank, ws=ws, device=dev))
    for rank, ws in ((0, 2), (1, 2), (2, 3)):
        for first in itertools.product(OPS, repeat=2):
            if not first[0].startswith(("new", "bad")):
                continue
            out.append(dict(kind="history", rank=rank, ws=ws, first=list(first), depth=depth if (rank, ws) == (1, 2) else depth - 1))
    for rank in (0, 1, 2):
        for up in ("full", "simple"):
            out.append(dict(kind="output", rank=rank, ws=3, update=up))
    return out


@contextlib.contextmanager
def environment(rank, ws):
    # as set by a launcher on two nodes: the rank within the node differs from the rank
    per_node = None if ws is None else (ws + 1) // 2
    local = None if rank is None else rank % (per_node or 2)
    for k, v in (("RANK", rank), ("WORLD_SIZE", ws), ("LOCAL_RANK", local), ("LOCAL_WORLD_SIZE", per_node), ("GROUP_RANK", None if rank is None else rank // (per_node or 2))):
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = str(v)
    try:
        yield
    finally:
        for k in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "LOCAL_WORLD_SIZE", "GROUP_RANK"):
            os.environ.pop(k, None)


def fresh(nx=2, ny=1, device="cpu", **kw):
    from acetn.ipeps import Ipeps
    c = config(nx=nx, ny=ny, D=2, chi=2, ctmrg=dict(steps=1))
    c["device"] = device
    c["TN"].update(kw)
    return Ipeps(c)


def run_env(c):
    rank, ws = c["rank"], c["ws"]
    log = []
    on = rank is not None and ws is not None and ws > 1
    fakedist.activate(fakedist.mirrored(rank or 0, ws or 1, log))
    try:
        with environment(rank, ws):
            error = ip = None
            try:
                ip = fresh(device=c["device"])
            except Exception as e:
                error = type(e)
            dev = "cpu" if c["device"] == "cuda" and not torch.cuda.is_available() else c["device"]
            if on and dev != "cpu":
                require(error is not None, f"an unsupported device type ({dev}) is accepted for {ws} processes")
                return dict(states=1, transitions=1, nontrivial=True)
            if on and ws > os.cpu_count():
                require(error is not None, f"{ws} processes are accepted with {os.cpu_count()} devices")
                return dict(states=1, transitions=1, nontrivial=True)
            require(error is None, f"rank {rank} of {ws} on {dev} is refused with {error}")
            if on:
                require((ip.is_distributed, ip.rank, ip.world_size) == (True, rank, ws), f"rank {rank} of {ws} believes to be rank {ip.rank} of {ip.world_size}, distributed: {ip.is_distributed}")
                require(log.count("init") == 1, "no process group was created")
            else:
                require((ip.is_distributed, ip.rank, ip.world_size) == (False, 0, 1), f"RANK={rank}, WORLD_SIZE={ws} makes the network rank {ip.rank} of {ip.world_size}, distributed: {ip.is_distributed}")
                require(not log, f"a process group was created for RANK={rank}, WORLD_SIZE={ws}")
            require(str(ip.device) == dev, f"the network is on {ip.device}, not on {dev}")
            del ip
            gc.collect()
            require(log.count("destroy") == log.count("init"), "the process group outlives the network")
    finally:
        fakedist.activate(None)
    return dict(states=1, transitions=1, nontrivial=on)


def run_history(c):
    states = trans = 0
    nets, copies, log = {}, [], []
    sess = fakedist.mirrored(c["rank"], c["ws"], log)
    fakedist.activate(sess)

    def apply(op):
        """Perform one operation; False when it does not apply in this state."""
        if op in ("new0", "new1", "new0b"):
            k = op[3]
            if (op == "new0b") != (k in nets):
                return False
            # new0b replaces a living network
            nets[k] = fresh(nx=1 + int(k), ny=2)
        elif op == "bad":
            try:
                fresh(dims=dict(phys=2, bond="x"))
            except Exception:
                pass
            else:
                require(False, "a network with an invalid dimension is accepted")
        elif op.startswith("use"):
            if op[3] not in nets:
                return False
            nets[op[3]].renormalize()
        elif op.startswith("copy"):
            if op[4] not in nets:
                return False
            copies.append(nets[op[4]].copy())
        elif op == "delcopy":
            if not copies:
                return False
            copies.clear()
        else:
            if op[3] not in nets:
                return False
            del nets[op[3]]
        gc.collect(1)
        return True

    def monitor(seq):
        want = len(nets) > 0
        require(sess.up == want, f"after {' '.join(seq)}: the process group is {'alive' if sess.up else 'gone'} with {len(nets)} networks")
        ev = [e for e in log if e in ("init", "destroy")]
        require(all(e == ("init", "destroy")[i % 2] for i, e in enumerate(ev)), f"after {' '.join(seq)}: {ev}")

    try:
        with environment(c["rank"], c["ws"]):
            for rest in itertools.product(OPS, repeat=c["depth"] - 2):
                seq = list(c["first"]) + list(rest)
                done = []
                for op in seq:
                    if not apply(op):
                        break
                    done.append(op)
                    trans += 1
                    monitor(done)
                states += len(done) == len(seq)
                nets.clear()
                copies.clear()
                gc.collect(1)
                done.append("(all deleted)")
                monitor(done)
                log.clear()
    finally:
        fakedist.activate(None)
    return dict(states=states, transitions=trans, nontrivial=states > 0)


def run_output(c):
    """Standard output and error of a run on one rank, with progress bars enabled."""
    from tqdm import tqdm
    from acetn.ipeps import Ipeps
    tqdm.write = core.TQDM_WRITE
    import builtins
    log = []
    rank0 = fakedist.mirrored(c["rank"], c["ws"], log)
    fakedist.activate(rank0)
    out, err = io.StringIO(), io.StringIO()
    try:
        with environment(c["rank"], c["ws"]), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            conf = config(nx=2, ny=2, D=2, chi=2, ctmrg=dict(steps=1, disable_progressbar=False), evolution=dict(update_type=c["update"], disable_progressbar=False))
            ip = Ipeps(conf)
            ip.set_model(make_model_class(bond_h=lambda b: np.kron(Z, Z), site_obs=lambda s: {"m": Z}), {})
            ip.evolve(0.1, 1)
            ip.set_chi(3)
            ip.set_model_params(a=1.0)
            ip.renormalize()
            ip.measure()
            print("user output")
            del ip
    finally:
        fakedist.activate(None)
    if c["rank"] == 0:
        for word in ("Energy", "user output", "chi=3"):
            require(word in out.getvalue(), f"rank 0 does not write {word!r}")
        require("Renormalizing" in err.getvalue(), "rank 0 shows no progress bar")
    else:
        require(not out.getvalue().strip() and not err.getvalue().strip(), f"rank {c['rank']} writes {(out.getvalue() + err.getvalue()).strip()[:200]!r}")
    return dict(states=1, transitions=6, nontrivial=True)


def run_case(c):
    return dict(env=run_env, history=run_history, output=run_output)[c["kind"]](c)
