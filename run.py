#!/opt/venv/bin/python
"""run.py <property id> [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rvmon import boot  # noqa: E402

boot.prepare_env()

import importlib  # noqa: E402
import json  # noqa: E402
import threading  # noqa: E402
import traceback  # noqa: E402


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in argv:
        rep = json.load(open(argv[argv.index("--replay") + 1]))
        tier, seed, only = rep["tier"], rep["seed"], (rep["family"], rep["case"])
        if rep["family"] == "-":
            only = None
    limit = float(os.environ.get("RVMON_HARD", 3300 if tier == "thorough" else 840))

    def bark():
        print("INCONCLUSIVE: watchdog fired after %gs" % limit, flush=True)
        os._exit(3)

    t = threading.Timer(limit, bark)
    t.daemon = True
    t.start()
    from rvmon import core
    prop = importlib.import_module("rvmon.props." + pid.lower())
    R = core.Run(pid, tier, seed, only)
    err = None
    try:
        boot.import_dsps()
    except Exception as e:
        R.fail("package-import", dict(error=repr(e)[:500], trace=traceback.format_exc()[-1500:]))
    else:
        try:
            prop.workload(R)
        except core.CaseAbort:
            pass
        except Exception:
            err = traceback.format_exc()
    rc = R.finish(prop, err)
    sys.stdout.flush()
    sys.stderr.flush()
    boot._cleanup()
    os._exit(rc)


if __name__ == "__main__":
    main(sys.argv[1:])
