"""Worker: runs cases of one property against the code in /repo and reports what its monitors saw."""
import io
import json
import os
import random
import sys
import traceback

prop, fd = sys.argv[1], int(sys.argv[2])
sys.argv = ["worker", "--quiet", "--log-level", "40", "--errlog-level", "50"]
out = os.fdopen(fd, "w")
REPO = os.environ["VERIF_REPO"]

import numpy as np

np.set_printoptions(linewidth=160, precision=6)
import warnings

warnings.filterwarnings("ignore")

# Use the C library built from the current tree
_lib = os.environ.get("VERIF_LIBCORE")
if _lib:
    _orig = np.ctypeslib.load_library

    def _load(libname, loader_path):
        if os.path.abspath(loader_path) == os.path.join(REPO, "vayesta", "libs") and str(libname).startswith("libcore"):
            return _orig("libcore", os.path.dirname(_lib))
        return _orig(libname, loader_path)

    np.ctypeslib.load_library = _load


class HarnessError(Exception):
    pass


import importlib

from lib.mon import Mon, Unsupported, Skip

mod = None
mod_error = None
try:
    mod = importlib.import_module("props." + prop.lower())
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    import vayesta

    assert os.path.realpath(vayesta.__file__).startswith(os.path.realpath(REPO)), vayesta.__file__
except Exception:
    mod_error = traceback.format_exc()


def in_repo(tb):
    fr = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(REPO + os.sep) for f in fr)


for line in sys.stdin:
    line = line.strip()
    if not line:
        continue
    case = json.loads(line)
    random.seed(case["seed"])
    np.random.seed(case["seed"] % (1 << 31))
    m = Mon(case)
    res = {}
    if mod_error:
        res["harness_error"] = mod_error
    else:
        try:
            mod.run(case, m)
        except Skip as e:
            m.event("skipped:" + str(e)[:60])
        except Unsupported as e:
            res["unsupported"] = str(e)
        except MemoryError:
            res["harness_error"] = traceback.format_exc()
        except BaseException as e:
            tb = traceback.format_exc()
            if isinstance(e, KeyboardInterrupt):
                raise
            if isinstance(e, AttributeError) and "numpy.linalg" in str(e) and "pyscf/lib/diis" in tb:
                # PySCF's DIIS refers to a name removed from NumPy when its equations are singular
                m.event("skipped:singular DIIS equations in PySCF")
            elif in_repo(e.__traceback__):
                m.violate("exception:" + type(e).__name__, tb[-2500:])
            else:
                res["harness_error"] = tb
    res.update(m.result())
    out.write(json.dumps(res, default=str) + "\n")
    out.flush()
