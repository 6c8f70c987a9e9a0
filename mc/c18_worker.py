"""Runs catalogues of calls against the tree in PHILMC_TREE and writes what they return: c18_worker.py IN.pkl OUT.pkl"""
import os
import pickle
import sys
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def collect(job):
    import torch
    from mc import api, c18
    out = {}
    for k, c in c18.calls(job).items():
        out[k] = c18.outcome(c)
    return out


def main(src, dst):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ["PHILMC_TREE"])
    # the editable installation of the repository would supply its own extension
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in (getattr(f, "__module__", "") + getattr(f, "__name__", "")).lower()]
    if os.environ.get("PHILMC_NO_HELION"):
        class Block:
            def find_spec(self, name, path=None, target=None):
                if name == "helion" or name.startswith("helion."):
                    raise ImportError("blocked")
        sys.meta_path.insert(0, Block())
    with open(src, "rb") as f:
        jobs = pickle.load(f)
    import torch
    torch.set_num_threads(1)
    out = dict(error=None, warnings=[], results=[], loaded=None)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            import philtorch
            import philtorch.lti
            import philtorch.lpv
            import philtorch.mat
            import philtorch.poly
            import philtorch.lti.interp
            import philtorch.prototype.nl
            import philtorch.prototype.poly
            import philtorch.prototype.signal
        out["warnings"] = [str(w.message) for w in ws]
        out["loaded"] = philtorch.EXTENSION_LOADED
        assert philtorch.__file__.startswith(os.environ["PHILMC_TREE"]), philtorch.__file__
        warnings.filterwarnings("ignore")
        out["results"] = [collect(j) for j in jobs]
    except BaseException as e:
        out["error"] = f"{type(e).__name__}: {e}"
    with open(dst, "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main(*sys.argv[1:3])
