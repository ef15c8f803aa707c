"""Process-wide set-up of a simulation worker (must run before jax is used)."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["XLA_FLAGS"] = ("--xla_force_host_platform_device_count=4 "
                           "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
                           "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True
REPO = os.environ.get("SIM_REPO", "/repo")
for p in (REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

import warnings  # noqa
warnings.filterwarnings("ignore")


def boot(cache_dir=None):
    import jax
    jax.config.update("jax_enable_x64", True)
    if cache_dir:
        jax.config.update("jax_compilation_cache_dir", cache_dir)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    # Building an MLIR context per lowering dominates the cost of small programs;
    # the contexts are interchangeable, so reuse one for a while.
    try:
        from jax._src.interpreters import mlir
        orig = mlir.make_ir_context
        state = [None, 0]

        def make_ir_context():
            if state[0] is None or state[1] > 400:
                state[0], state[1] = orig(), 0
            state[1] += 1
            return state[0]
        mlir.make_ir_context = make_ir_context
    except Exception:
        pass
    # Load every third-party module the package needs once, with the real clock; the
    # package itself (and what it binds at import) is imported afresh per simulated rank.
    # mpi4py is never initialised here: a throw-away one-rank world does the import.
    import flax  # noqa
    import h5py  # noqa
    from .world import World
    w = World(1, 1)
    w.run(lambda ctx: None)
    try:
        w.check_clean()
    except Exception as e:
        return str(e)
    return None
