"""Process environment of every check: imports the code under test from /repo/src.

* `goggles` (logging / event bus) is replaced by an inert stand-in: it opens a
  TCP port and starts threads on import, none of which is under test.  Its
  `load_configuration` is the real one, loaded from the installed source file.
* Inside modules of the code under test, `threading`, `queue` and `time` resolve
  to the controlled versions of mc.sched (which behave like the real ones for
  threads that no exploration controls).
"""
import builtins
import importlib.util
import logging
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_done = False


class _Logger:
    """Accepts any logging call and does nothing."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def _goggles_stub():
    g = types.ModuleType("goggles")
    g.__path__ = []
    g.get_logger = lambda *a, **k: _Logger()
    path = None
    for d in sys.path + ["/opt/venv/lib/python3.12/site-packages"]:
        p = os.path.join(d, "goggles", "config.py")
        if os.path.isfile(p):
            path = p
            break
    if path:
        spec = importlib.util.spec_from_file_location("goggles.config", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        g.config = m
        g.load_configuration = m.load_configuration
        g.save_configuration = m.save_configuration
        g.PrettyConfig = m.PrettyConfig
        sys.modules["goggles.config"] = m

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None

    g.__getattr__ = __getattr__
    return g


def base_environ(devices=1):
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    flags = [
        "--xla_backend_optimization_level=0",
        "--xla_llvm_disable_expensive_passes=true",
        "--xla_cpu_multi_thread_eigen=false",
    ]
    if devices > 1:
        flags.append(f"--xla_force_host_platform_device_count={devices}")
    os.environ["XLA_FLAGS"] = " ".join(flags)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"


def setup(devices=1, cache_dir=None, shim=True, strict=True):
    """Prepare this process; returns nothing.  Import synthpix afterwards."""
    global _done
    if _done:
        return
    _done = True
    base_environ(devices)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    sys.modules["goggles"] = _goggles_stub()
    import warnings

    warnings.filterwarnings("ignore")
    import jax  # noqa: F401

    if cache_dir:
        jax.config.update("jax_compilation_cache_dir", cache_dir)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    if shim:
        from . import sched

        real_import = builtins.__import__
        shims = sched.shim_modules()

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name in shims and globals is not None:
                mod = globals.get("__name__") or ""
                if mod == "synthpix" or mod.startswith("synthpix."):
                    return shims[name]
            return real_import(name, globals, locals, fromlist, level)

        builtins.__import__ = imp
    import synthpix

    assert os.path.realpath(synthpix.__file__).startswith(
        os.path.realpath(src) + os.sep
    ), synthpix.__file__
