"""Makes deepwave believe that CPU tensors are CUDA tensors, so that it calls the
propagators of the CUDA sources that build.build_cuda compiled for the CPU."""

import ctypes
import sys
import types

import torch

from .core import Violation

NOT_WAITED = "work on other streams is not waited for when the call returns"


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)


class _Str(metaclass=_StrMeta):
    """str, for which the CPU has another name."""

    def __new__(cls, x=""):
        return "cuda:0" if isinstance(x, torch.device) else str(x)


class _Stream:
    cuda_stream = 0
    _as_parameter_ = ctypes.c_void_p(0)


def _is_cuda(t):
    return True


class Emulation:
    """A context in which deepwave runs its CUDA code."""

    def __init__(self, seed, faults=False):
        import deepwave.acoustic
        import deepwave.backend_utils
        import deepwave.elastic
        import deepwave.scalar
        import deepwave.scalar_born

        self.dw = deepwave
        self.dll = deepwave.backend_utils.dll
        self.dll.dw_emu_seed.argtypes = [ctypes.c_uint64]
        self.dll.dw_emu_leftover.restype = ctypes.c_uint64
        self.dll.dw_emu_launches.restype = ctypes.c_uint64
        self.dll.dw_emu_choices.restype = ctypes.c_uint64
        self.seed = seed
        self.calls = 0
        self.faults = faults  # errors may be provoked
        self.problem = None

    def __enter__(self):
        dw, dll = self.dw, self.dll
        dll.dw_emu_seed(self.seed)
        self.choices0 = dll.dw_emu_choices()
        self.saved = []

        def put(obj, name, value):
            had = name in vars(obj)
            self.saved.append((obj, name, had, vars(obj).get(name)))
            setattr(obj, name, value)

        put(torch.Tensor, "is_cuda", property(_is_cuda))
        put(torch.Tensor, "get_device", lambda t: 0)
        put(torch.cuda, "current_stream", lambda device=None: _Stream())
        zeros, empty = torch.zeros, torch.empty

        def unpinned(f):
            def g(*a, pin_memory=False, **k):
                return f(*a, **k)

            return g

        put(torch, "zeros", unpinned(zeros))
        put(torch, "empty", unpinned(empty))
        for m in ("scalar", "scalar_born", "acoustic", "elastic"):
            # (deepwave.scalar is the function)
            put(sys.modules["deepwave." + m], "str", _Str)
        get = dw.backend_utils.get_backend_function

        def get_backend_function(*a, **k):
            f = get(*a, **k)

            def call(*args):
                r = f(*args)
                self.calls += 1
                dll.dw_emu_join()
                n = dll.dw_emu_leftover()
                if n and r == 0 and self.problem is None:
                    self.problem = f"{NOT_WAITED} ({n} operations)"
                if r != 0 and not self.faults and self.problem is None:
                    self.problem = f"the propagator reported error {r}"
                return r

            return call

        put(dw.backend_utils, "get_backend_function", get_backend_function)
        return self

    def __exit__(self, *exc):
        for obj, name, had, value in reversed(self.saved):
            if had:
                setattr(obj, name, value)
            else:
                delattr(obj, name)
        return False

    def choices(self):
        """How often more than one stream could go on."""
        return self.dll.dw_emu_choices() - self.choices0

    def require(self):
        if self.problem:
            raise Violation(self.problem)
