import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
_repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, _repo)
# third-party modules may come from their byte-code caches; the code under test never does
import numpy, pandas, scipy.stats, scipy.cluster, sklearn.metrics, joblib, pydantic  # noqa: E401,E402,F401
sys.pycache_prefix = os.path.join(os.environ.get("MC_SCRATCH", "/nonexistent"), "pyc")

from mc import core  # noqa: E402


def cli():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return core.main(pid, tier)


if __name__ == "__main__":
    sys.exit(cli())
