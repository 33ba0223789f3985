"""Process set-up shared by every simulator process.  Import this before jax.

Everything that could make two executions of one seed differ is pinned here:
the device, the float width, XLA's thread pools, BLAS threads.
"""

import os
import sys

ENV = {
    "JAX_ENABLE_X64": "1",
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SMOLGP_SRC", "/repo/src")


def pin():
    for k, v in ENV.items():
        os.environ[k] = v
    os.environ.setdefault("PYTHONHASHSEED", "0")
    sys.dont_write_bytecode = True
    for p in (VERIF, SRC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


pin()
