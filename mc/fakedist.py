"""Stand-in for torch.distributed.

install() puts dispatchers in front of the functions of torch.distributed before the code under test is
imported.  They call the originals unless a session is active in this process.  A session hands every
collective to `exchange(op, meta, payload)`, which returns the payloads of all ranks.
"""
import functools
import torch
import torch.distributed as dist

NAMES = ("init_process_group", "destroy_process_group", "is_initialized", "is_available", "get_rank", "get_world_size", "get_backend",
         "barrier", "monitored_barrier", "all_gather", "all_gather_into_tensor", "all_gather_object", "gather", "gather_object",
         "broadcast", "broadcast_object_list", "all_reduce", "reduce", "scatter", "scatter_object_list", "send", "recv",
         "isend", "irecv", "all_to_all", "reduce_scatter", "new_group")
_active = None
_orig = {}


def install():
    if _orig:
        return
    for name in NAMES:
        f = getattr(dist, name, None)
        if f is None:
            continue
        _orig[name] = f

        def make(name, f):
            @functools.wraps(f)
            def call(*a, **k):
                if _active is None:
                    return f(*a, **k)
                return getattr(_active, name)(*a, **k)
            return call
        setattr(dist, name, make(name, f))


def activate(session):
    global _active
    _active = session


class _Done:
    """Handle of an operation that has completed."""
    def wait(self, *a, **k):
        return True

    def is_completed(self):
        return True


def _meta(t):
    return tuple(t.shape), str(t.dtype)


class Session:
    """One rank. Semantics of gloo: tensors of a collective have equal shapes and dtypes on all ranks."""

    def __init__(self, rank, world_size, exchange, log=None):
        self.r, self.ws, self.exchange = rank, world_size, exchange
        self.up = False
        self.log = [] if log is None else log     # of process group events

    # life cycle
    def init_process_group(self, backend=None, init_method=None, timeout=None, world_size=-1, rank=-1, *a, **k):
        if self.up:
            raise ValueError("trying to initialize the default process group twice!")
        rank = self.r if rank == -1 else rank
        world_size = self.ws if world_size == -1 else world_size
        if rank != self.r or world_size != self.ws:
            raise RuntimeError(f"process group created as rank {rank} of {world_size} on rank {self.r} of {self.ws}")
        self.up = True
        self.log.append("init")
        self.exchange("init", (str(backend),), None)

    def destroy_process_group(self, group=None):
        if not self.up:
            raise AssertionError("the process group is not initialized")
        self.up = False
        self.log.append("destroy")

    def is_available(self):
        return True

    def is_initialized(self):
        return self.up

    def _need(self):
        if not self.up:
            raise ValueError("Default process group has not been initialized, please make sure to call init_process_group.")

    def get_rank(self, group=None):
        self._need()
        return self.r

    def get_world_size(self, group=None):
        self._need()
        return self.ws

    def get_backend(self, group=None):
        self._need()
        return "gloo"

    # collectives
    def _x(self, op, meta, payload):
        self._need()
        self.log.append(op)
        return self.exchange(op, meta, payload)

    @staticmethod
    def _raw(t):
        if not t.is_contiguous():
            raise ValueError("Tensors must be contiguous")
        return t.detach().clone()

    def barrier(self, *a, **k):
        self._x("barrier", (), None)

    monitored_barrier = barrier

    def all_gather(self, tensor_list, tensor, group=None, async_op=False):
        out = self._x("all_gather", _meta(tensor), tensor.detach().contiguous().clone())
        if len(tensor_list) != self.ws:
            raise ValueError("all_gather: the output list does not have one tensor per rank")
        for o, t in zip(tensor_list, out):
            if o.dtype != t.dtype or o.numel() != t.numel():
                raise ValueError(f"all_gather: output {_meta(o)} does not fit input {_meta(t)}")
            o.copy_(t.reshape(o.shape))
        return _Done() if async_op else None

    def all_gather_into_tensor(self, output, tensor, group=None, async_op=False):
        out = self._x("all_gather", _meta(tensor), tensor.detach().contiguous().clone())
        output.copy_(torch.stack(out).reshape(output.shape))
        return _Done() if async_op else None

    def all_gather_object(self, object_list, obj, group=None):
        out = self._x("all_gather_object", (), obj)
        object_list[:] = out

    def gather(self, tensor, gather_list=None, dst=0, group=None, async_op=False, group_dst=None):
        out = self._x("gather", _meta(tensor) + (dst,), self._raw(tensor))
        if self.r == dst:
            for o, t in zip(gather_list, out):
                o.copy_(t)
        return _Done() if async_op else None

    def gather_object(self, obj, object_gather_list=None, dst=0, group=None, group_dst=None):
        out = self._x("gather_object", (dst,), obj)
        if self.r == dst:
            object_gather_list[:] = out

    def broadcast(self, tensor, src=0, group=None, async_op=False, group_src=None):
        out = self._x("broadcast", _meta(tensor) + (src,), self._raw(tensor) if self.r == src else None)
        if self.r != src:
            self._raw(tensor)
            tensor.copy_(out[src])
        return _Done() if async_op else None

    def broadcast_object_list(self, object_list, src=0, group=None, device=None, group_src=None):
        out = self._x("broadcast_object", (len(object_list), src), list(object_list) if self.r == src else None)
        if self.r != src:
            object_list[:] = out[src]

    @staticmethod
    def _fold(out, op):
        name = str(op).lower()
        t = torch.stack(out)
        if "max" in name:
            return t.amax(0)
        if "min" in name:
            return t.amin(0)
        if "prod" in name:
            return t.prod(0)
        if "avg" in name:
            return t.mean(0)
        return t.sum(0)

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        out = self._x("all_reduce", _meta(tensor) + (str(op),), self._raw(tensor))
        tensor.copy_(self._fold(out, op))
        return _Done() if async_op else None

    def reduce(self, tensor, dst=0, op=None, group=None, async_op=False, group_dst=None):
        out = self._x("reduce", _meta(tensor) + (str(op), dst), self._raw(tensor))
        if self.r == dst:
            tensor.copy_(self._fold(out, op))
        return _Done() if async_op else None

    def scatter(self, tensor, scatter_list=None, src=0, group=None, async_op=False, group_src=None):
        out = self._x("scatter", _meta(tensor) + (src,), [self._raw(t) for t in scatter_list] if self.r == src else None)
        tensor.copy_(out[src][self.r])
        return _Done() if async_op else None

    def scatter_object_list(self, output, input=None, src=0, group=None, group_src=None):
        out = self._x("scatter_object", (src,), input if self.r == src else None)
        output[0] = out[src][self.r]

    def _unsupported(self, *a, **k):
        raise NotImplementedError("the stand-in for torch.distributed has no point-to-point operations")

    send = recv = isend = irecv = all_to_all = reduce_scatter = new_group = _unsupported


def mirrored(rank, world_size, log):
    """A session whose other ranks do the same as this one."""
    def exchange(op, meta, payload):
        if op == "broadcast" and payload is None:
            # from another rank: something finite of the right kind
            payload = torch.full(meta[0], 0.5, dtype=getattr(torch, meta[1].split(".")[1]))
        return [payload] * world_size
    return Session(rank, world_size, exchange, log)


# ---------------------------------------------------------------- all ranks in processes of their own

class Deadlock(Exception):
    pass


def run_ranks(ws, body, timeout=150, real_port=None, seed=lambda r: 1000 + r):
    """Run body(rank) on ws forked ranks and return (results, traces).

    Without real_port the ranks talk through the calling process, which completes a collective once all ranks have
    arrived at it with equal operations, shapes, dtypes and sources, and reports a rank that diverges.
    """
    import multiprocessing as mp
    import os
    import time
    import traceback
    import torch.multiprocessing.reductions  # noqa: F401
    pipes, pids = [], []
    for r in range(ws):
        here, there = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                here.close()
                for p in pipes:
                    p.close()
                import signal
                signal.alarm(0)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.environ.update(RANK=str(r), WORLD_SIZE=str(ws), LOCAL_RANK=str(r), LOCAL_WORLD_SIZE=str(ws))
                os.cpu_count = lambda: 64
                torch.manual_seed(seed(r))
                trace = []
                if real_port is None:
                    def exchange(op, meta, payload):
                        trace.append((op,) + tuple(meta))
                        there.send(("coll", (op,) + tuple(meta), pack(payload)))
                        ans = there.recv()
                        if ans is None:
                            os._exit(3)
                        return [unpack(x) for x in ans]
                    activate(Session(r, ws, exchange))
                else:
                    os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(real_port), GLOO_SOCKET_IFNAME="lo")
                    record_real(trace)
                res = body(r)
                there.send(("done", res, trace))
            except BaseException as e:
                try:
                    there.send(("error", f"{type(e).__name__}: {e}", traceback.format_exc(limit=-8)))
                except BaseException:
                    pass
                code = 1
            finally:
                os._exit(code)
        there.close()
        pipes.append(here)
        pids.append(pid)
    t0 = time.time()
    try:
        results, traces = [None] * ws, [None] * ws
        running = set(range(ws))
        while running:
            msgs = {}
            for r in sorted(running):
                if not pipes[r].poll(max(0.0, timeout - (time.time() - t0))):
                    raise Deadlock(f"rank {r} does not get on within {timeout} s")
                try:
                    msgs[r] = pipes[r].recv()
                except EOFError:
                    raise Deadlock(f"rank {r} died")
                if msgs[r][0] == "error":
                    raise Deadlock(f"rank {r} of {ws} raised {msgs[r][1]}\n{msgs[r][2]}")
            for r, m in msgs.items():
                if m[0] == "done":
                    results[r], traces[r] = m[1], m[2]
                    running.discard(r)
            if running:
                if len(running) < ws:
                    done = [r for r in range(ws) if r not in running]
                    raise Deadlock(f"ranks {done} are finished while rank {min(running)} waits in {msgs[min(running)][1]}")
                metas = [msgs[r][1] for r in range(ws)]
                for r in range(ws):
                    if metas[r] != metas[0]:
                        raise Deadlock(f"rank 0 takes part in {metas[0]} while rank {r} takes part in {metas[r]}")
                ans = [msgs[r][2] for r in range(ws)]
                for r in range(ws):
                    pipes[r].send(ans)
        return results, traces
    finally:
        import signal
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        for p in pipes:
            p.close()


def pack(x):
    if isinstance(x, torch.Tensor):
        return ("t", x.numpy())
    if isinstance(x, list) and x and all(isinstance(y, torch.Tensor) for y in x):
        return ("l", [y.numpy() for y in x])
    return ("o", x)


def unpack(x):
    kind, v = x
    if kind == "t":
        return torch.from_numpy(v.copy())
    if kind == "l":
        return [torch.from_numpy(y.copy()) for y in v]
    return v


def record_real(trace):
    """Let the dispatchers note the collectives that go to the real implementation."""
    class Recorder:
        def __getattr__(self, name):
            f = _orig[name]

            def call(*a, **k):
                if name == "all_gather":
                    t = a[1] if len(a) > 1 else k["tensor"]
                    trace.append((name,) + _meta(t))
                elif name == "broadcast":
                    src = a[1] if len(a) > 1 else k.get("src", 0)
                    trace.append((name,) + _meta(a[0] if a else k["tensor"]) + (src,))
                elif name == "init_process_group":
                    trace.append(("init", str(k.get("backend", a[0] if a else None))))
                elif name not in ("is_initialized", "is_available", "get_rank", "get_world_size", "get_backend", "destroy_process_group"):
                    trace.append((name,))
                return f(*a, **k)
            return call
    activate(Recorder())


def explore_traces(traces):
    """Every interleaving of ranks that follow their traces: a rank arrives at its next collective, which completes once all
    have arrived. Returns (states, transitions, stuck state or None)."""
    ws = len(traces)
    start = (0, (False,) * ws)          # completed collectives, who has arrived at the next one
    seen, todo, trans = {start}, [start], 0
    while todo:
        n, arr = todo.pop()
        succ = []
        for r in range(ws):
            if not arr[r] and n < len(traces[r]):
                a = arr[:r] + (True,) + arr[r + 1:]
                succ.append((n, a))
        if all(arr) and len({t[n] for t in traces}) == 1:
            succ.append((n + 1, (False,) * ws))
        if not succ and not all(n == len(t) for t in traces):
            return len(seen), trans, (n, arr)
        for s in succ:
            trans += 1
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return len(seen), trans, None
