"""Running Pallas code without a GPU: the backend query is stubbed where the code under test gates on it, and concrete runs use Pallas interpret mode."""
import os
from unittest import mock

import jax

_real_backend = jax.default_backend
_gpu = [False]


def _backend():
    return "gpu" if _gpu[0] else _real_backend()


jax.default_backend = _backend  # the key/value kernel is gated on the backend name; only this query is stubbed

from jax._src.interpreters import mlir  # noqa: E402
from jax._src.pallas import pallas_call as _pc  # noqa: E402


def _cpu_lowering(ctx, *a, **p):
    p.update(interpret=True)
    return _pc._pallas_call_lowering(ctx, *a, **p)


mlir.register_lowering(_pc.pallas_call_p, _cpu_lowering, platform="cpu")


def wrap(f, gpu, env):
    def fn(*a):
        _gpu[0] = gpu
        try:
            with mock.patch.dict(os.environ, env):
                return f(*a)
        finally:
            _gpu[0] = False

    return fn
