"""Checks in separate interpreters (optional dependencies, transfer of models)."""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from .. import gen
from ..monitor import short
from ..runner import REPO, VERIF
from .state import jac_keys, smax
from .values import describe, geom_sig

CHECKS = {}


def job_of(ctx, R, keys, **over):
    sh = ctx.mon.shadow(R)
    need = ["t_0", "p_0"] if sh.mono else ["t_0", "t_ex", "p_0", "p_ex"]
    return dict(
        V=sh.V, SRF=sh.SRF, kw=dict(int_Q=sh.int_Q, sig0=sh.sig0, dB=sh.dB, I0=sh.I0),
        defs={q: d for q, d in sh.defs.items() if d != q}, mono=sh.mono,
        fixed={k: float(v) for k, v in sh.fixed.items()},
        ang={k: np.asarray(sh.ang[k]).tolist() for k in need if k not in sh.fixed},
        P={k: np.asarray(v).tolist() for k, v in sh.P.items()}, keys=keys, **over)


def run_child(jobs, blocked=(), timeout=400):
    with tempfile.TemporaryDirectory(prefix="rtmon_child_") as tmp:
        env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR=tmp, PYTHONPATH="",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"))
        r = subprocess.run(
            [sys.executable, "-B", os.path.join(VERIF, "rtmon", "child.py"),
             os.path.join(REPO, "src"), ",".join(blocked)],
            input=json.dumps(jobs, default=lambda o: np.asarray(o).tolist()),
            capture_output=True, text=True, env=env, cwd=tmp, timeout=timeout)
    return r


def plain(R, mon):
    """definitions must be transferable as JSON"""
    return all(isinstance(d, (str, int, float)) for d in mon.shadow(R).defs.values())


def optional_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    models, jobs = [], []
    for _ in range(4):
        g.names = [str(i) for i in ctx.rng.permutation(gen.NAMES)[:4]]
        mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
        grid = g.grid()
        R, _ = gen.build(g, mon, nV=2, nS=2, int_Q=g.chance(0.8), mode=mode)
        for q in gen.QUANT:
            if not isinstance(mon.shadow(R).defs[q], (str, int, float)):
                setattr(R, q, str(mon.shadow(R).defs[q]))
        describe(ctx, R)
        gen.set_geom(g, R, mode, grid)
        geom_sig(ctx, R)
        R.update_params(**gen.params_for(g, mon, R, grid))
        keys = jac_keys(ctx, R)
        models.append((R, keys))
        jobs.append(job_of(ctx, R, keys, roundtrip=g.chance(0.4)))
    blocked = [["symengine"], ["matplotlib"], ["symengine", "matplotlib", "mpl_toolkits"],
               []][ctx.index % 4]
    ctx.note("blocked", *blocked)
    r = run_child(jobs, blocked)
    ctx.check("the package can be imported and used", r.returncode == 0,
              stderr=r.stderr[-2500:], blocked=blocked)
    out = json.loads(r.stdout[r.stdout.index("{"):])
    assert out["file"].startswith(os.path.realpath(REPO)), out["file"]
    ctx.check("default backend", out["backend"] == (
        "sympy" if "symengine" in blocked else "symengine"), got=out["backend"],
        blocked=blocked)
    for (R, keys), job, res in zip(models, jobs, out["results"]):
        ctx.check("the model can be evaluated", "error" not in res, blocked=blocked,
                  error=res.get("error"))
        exp = R.calc()
        from .state import lin, noise

        got = np.array(res["calc"], dtype=float)
        a, b = lin(R, got), lin(R, exp)
        if R.dB:
            bad = ~(np.isfinite(got) & np.isfinite(exp))
            a, b = np.where(bad, 0, a), np.where(bad, 0, b)
        ctx.same("results do not depend on optional packages", a, b, rtol=1e-8,
                 atol=noise(ctx, R, b))
        for key, x, y in zip(keys, res["jac"], R.jacobian(param_list=keys)):
            x, y = np.array(x, dtype=float), np.asarray(y)
            m = np.abs(np.where(np.isfinite(y), y, 0)).max(initial=0)
            ctx.same("jacobian does not depend on optional packages", x, y, rtol=1e-7,
                     atol=1e-9 * max(m, 1e-3))
        if "copy" in res:
            ctx.same("copies do not depend on optional packages",
                     np.array(res["copy"], float), got, rtol=1e-9,
                     atol=1e-7 if R.dB else noise(ctx, R, b))
        if "matplotlib" not in blocked:
            ctx.check("plot-functions are available", all(res["plots"]), got=res["plots"])


CHECKS["C27"] = dict(
    case=optional_case, judge=(), n=dict(quick=24, thorough=400),
    min_cases=4,
    rule="random models are evaluated in separate interpreters in which the import of "
    "symengine and/or matplotlib fails (and in an unrestricted one); results, derivatives and "
    "copies must equal those of the complete installation; distinct by model and blocked "
    "packages")
