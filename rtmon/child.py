"""Evaluates model-specifications in a separate interpreter (optionally with blocked imports).

usage: child.py <repo/src> <blocked,modules> < specs.json > results.json
"""
import importlib.abc
import json
import os
import sys


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names, self.hits = names, []

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            self.hits.append(name)
            raise ImportError(f"No module named {name!r} (blocked)")
        return None


def build(rt1, spec):
    mod = rt1.volume if spec["kind"] == "V" else rt1.surface
    if spec["cls"] == "LinComb":
        return mod.LinComb([(w, build(rt1, s)) for w, s in spec["parts"]])
    kw = {k: spec[k] for k in ("t", "i", "a", "ncoefs") if spec.get(k) is not None}
    return getattr(mod, spec["cls"])(**kw)


def main():
    src, blocked = sys.argv[1:3]
    blocked = [i for i in blocked.split(",") if i]
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    blocker = Blocker(blocked)
    sys.meta_path.insert(0, blocker)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import rt1_model as rt1

    logging.getLogger("rt1_model").setLevel(logging.ERROR)
    out = dict(backend=rt1.get_lambda_backend(), blocked_hits=sorted(set(blocker.hits)),
               file=os.path.realpath(rt1.__file__), results=[])
    for job in json.load(sys.stdin):
        res = {}
        try:
            if job.get("pickle"):
                import pickle

                with open(job["pickle"], "rb") as f:
                    R = pickle.load(f)
            else:
                R = rt1.RT1(V=build(rt1, job["V"]), SRF=build(rt1, job["SRF"]), **job["kw"])
                for q, d in job["defs"].items():
                    setattr(R, q, d)
                if job["mono"]:
                    R.set_monostatic(**job["fixed"])
                else:
                    R.set_bistatic(**job["fixed"])
                if job["ang"]:
                    R.set_geometry(**{k: np.array(v) for k, v in job["ang"].items()})
                R.update_params(**{k: np.array(v) for k, v in job["P"].items()})
            res["calc"] = np.asarray(R.calc()).tolist()
            res["jac"] = [np.asarray(j).tolist() for j in R.jacobian(param_list=job["keys"])]
            res["V"] = np.asarray(R.V.calc(0.3, 0.5, 0.1, 2.0, param_dict={
                k: np.array(v) for k, v in job["P"].items()})).tolist()
            if job.get("roundtrip"):
                import cloudpickle

                C = cloudpickle.loads(cloudpickle.dumps(R))
                res["copy"] = np.asarray(C.calc()).tolist()
            res["plots"] = [hasattr(R, "analyze"), hasattr(R.V, "polarplot"),
                            hasattr(R.SRF, "hemreflect")]
        except Exception:
            import traceback

            res["error"] = traceback.format_exc()
        out["results"].append(res)
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
