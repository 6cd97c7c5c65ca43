"""Process set-up shared by every check: environment, and importing dsps from /repo."""
import os
import sys
import tempfile
import shutil
import atexit

REPO = os.environ.get("RVMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = dict(
    JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3",
)


def prepare_env():
    for k, v in ENV.items():
        os.environ[k] = v
    os.environ.pop("DSPS_DRN", None)
    os.environ.pop("JAX_ENABLE_X64", None)
    sys.dont_write_bytecode = True


def stub_version():
    """dsps/_version.py is generated and git-ignored: stand in for it if absent."""
    if not os.path.isfile(os.path.join(REPO, "dsps", "_version.py")):
        import types
        m = types.ModuleType("dsps._version")
        m.__version__ = "0.0.0"
        m.version = "0.0.0"
        sys.modules["dsps._version"] = m


def import_dsps():
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    stub_version()
    import dsps
    got = os.path.realpath(os.path.dirname(dsps.__file__))
    want = os.path.realpath(os.path.join(REPO, "dsps"))
    if got != want:
        raise RuntimeError("dsps imported from %s, not %s" % (got, want))
    return dsps


_SCRATCH = []


def scratch(prefix="rvmon_"):
    d = tempfile.mkdtemp(prefix=prefix)
    _SCRATCH.append(d)
    return d


@atexit.register
def _cleanup():
    for d in _SCRATCH:
        shutil.rmtree(d, ignore_errors=True)
