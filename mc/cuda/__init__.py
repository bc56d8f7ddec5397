"""Builds csrc/ of the code under test against a CPU implementation of the CUDA libraries it calls, and loads the module."""
import ctypes
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from ..core import REPO, VERIF

HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    """Path of the built module; recompiles whatever changed in content."""
    import torch
    S = os.path.dirname(os.path.dirname(torch.__file__))
    csrc = os.path.join(REPO, "csrc")
    flags = ["-std=c++20", "-fPIC", "-O0", "-w", f"-I{csrc}", f"-I{csrc}/linalg", f"-I{csrc}/evolution", "-isystem", f"{S}/cutensor/include",
             "-isystem", f"{S}/nvidia/cu13/include", "-isystem", f"{S}/torch/include", "-isystem", f"{S}/torch/include/torch/csrc/api/include",
             "-isystem", f"/usr/include/python{sys.version_info.major}.{sys.version_info.minor}", "-DTORCH_EXTENSION_NAME=_C_cutensor", "-DTORCH_API_INCLUDE_EXTENSION_H"]
    cache = os.path.join(VERIF, ".cache", "cuda")
    os.makedirs(cache, exist_ok=True)
    read = lambda p: open(p, "rb").read()
    headers = b"".join(p.encode() + read(p) for ext in ("h", "hpp", "cuh") for p in sorted(glob.glob(f"{csrc}/**/*.{ext}", recursive=True)))
    sources = sorted(glob.glob(f"{csrc}/**/*.cpp", recursive=True)) + [os.path.join(HERE, "stub.cpp")]

    def compile(src):
        own = src.startswith(HERE)
        key = hashlib.sha256(repr(flags).encode() + (b"" if own else headers) + src.encode() + read(src)).hexdigest()[:24]
        obj = os.path.join(cache, f"{os.path.basename(src)}.{key}.o")
        if not os.path.exists(obj):
            tmp = tempfile.mktemp(dir=cache, suffix=".tmp")
            r = subprocess.run(["g++", *flags, *(["-O2"] if own else []), "-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"compiling {src} failed:\n{r.stderr[-3000:]}")
            os.replace(tmp, obj)
        return obj
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(compile, sources))
    key = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    so = os.path.join(cache, f"_C_cutensor.{key}.so")
    if not os.path.exists(so):
        tmp = so + f".{os.getpid()}"
        L = f"{S}/torch/lib"
        r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", tmp, *objs, f"-L{L}", "-lc10", "-lc10_cuda", "-ltorch", "-ltorch_cpu", "-ltorch_python",
                            f"-L{S}/nvidia/cu13/lib", "-l:libcudart.so.13", f"-Wl,-rpath,{L}:{S}/nvidia/cu13/lib"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"linking failed:\n{r.stderr[-3000:]}")
        os.replace(tmp, so)
    return so


def load(so):
    """Install the module where the code under test imports it from, and return the controls of the stub."""
    import acetn.evolution._extensions as ext
    name = "acetn.evolution._extensions._C_cutensor"
    if name not in sys.modules:
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        spec = importlib.util.spec_from_file_location(name, so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        sys.modules[name] = mod
        ext._C_cutensor = mod
    lib = ctypes.CDLL(so)
    for f in ("stub_calls", "stub_misuse", "stub_live", "stub_count"):
        getattr(lib, f).restype = ctypes.c_long
    lib.stub_fail_at.argtypes = [ctypes.c_long]
    lib.stub_workspace.argtypes = [ctypes.c_long, ctypes.c_long]
    lib.stub_count.argtypes = [ctypes.c_char_p]
    return lib
