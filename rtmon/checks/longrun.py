"""Long-running use of models (no drift, no accumulation of memory)."""
import copy
import gc
import pickle
import tracemalloc
import weakref

import numpy as np

from .. import gen
from .state import jac_keys, smax
from .values import describe, geom_sig

CHECKS = {}


def result(R, keys):
    """all results of a model as list of arrays"""
    with np.errstate(all="ignore"):
        out = [R.calc(), R.surface(), R.volume(), *R.jacobian(param_list=list(keys))]
        if R.int_Q is True:
            out.append(R.interaction())
    return [np.array(i) for i in out]


def evaluations(ctx):
    """Many evaluations of one model, cycling through a set of states."""
    g, mon = ctx.g, ctx.mon
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    grid = g.pick([(1, 200), (12, 14), (150, 1)])
    nm = smax(ctx, mode)
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.6), mode=mode, symbolic=0.7)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    R.update_params(**gen.params_for(g, mon, R, grid))
    sh = mon.shadow(R)
    keys = jac_keys(ctx, R)
    # the states (parameters, dynamic angles, units) in a fixed sequence
    states = []
    for _ in range(int(ctx.rng.integers(2, 5))):
        names = sorted(sh.required())
        a = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
             if k not in sh.fixed]
        ang = {k: np.array(g.angle(k, grid)) for k in a}
        states.append(dict(
            P={k: np.array(g.value(k, grid)) for k in names}, ang=ang, sig0=g.chance(0.5),
            dB=g.chance(0.5), I0=g.pick([1.0, 2.0])))
    remode = g.chance(0.3) and R.int_Q is not True
    new = g.chance(0.7)
    fixed = dict(sh.fixed)
    n = int(ctx.rng.integers(25, 60))
    ctx.note("states", len(states), "cycles", n, "remode", remode, "new", new, "keys", *keys)
    first, base = None, None
    with mon.muted():
        for i in range(n):
            res = []
            for s in states:
                if remode:
                    if sh.mono:
                        R.set_monostatic(**fixed)
                    else:
                        R.set_bistatic(**fixed)
                R.sig0, R.dB, R.I0 = s["sig0"], s["dB"], s["I0"]
                if s["ang"]:
                    R.set_geometry(**s["ang"])
                R.update_params(**s["P"])
                res.append(result(R, keys))
                mon.counts["long-running evaluations"] += 1
            # (always changing values)
            if new:
                if states[0]["ang"]:
                    R.set_geometry(**{
                        k: v * ctx.rng.uniform(0.5, 1) for k, v in states[0]["ang"].items()})
                R.update_params(**{
                    k: v * ctx.rng.uniform(0.5, 1) for k, v in states[0]["P"].items()})
                result(R, keys)
            if first is None:
                first = res
            for x, y in zip(first, res):
                ctx.check("repeated states give identical results", len(x) == len(y) and all(
                    np.array_equal(u, v, equal_nan=True) for u, v in zip(x, y)), cycle=i)
            del res
            if i == 3:
                gc.collect()
                tracemalloc.start()
            elif i == 5:
                gc.collect()
                base = tracemalloc.get_traced_memory()[0]
        gc.collect()
        grown = tracemalloc.get_traced_memory()[0] - base
        tracemalloc.stop()
    ctx.notes.append(dict(grown=grown, evals=(n - 6) * len(states)))
    evals = (n - 6) * (len(states) + new)
    # (single retained values of the size of the results are significantly larger)
    ctx.check("memory does not accumulate with the number of evaluations",
              grown < 20e3 + 250 * evals, grown=grown, evaluations=evals)


def models(ctx):
    """Many models that are used one after the other."""
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    how = g.pick(["new", "new", "deepcopy", "cloudpickle"])
    n = 700
    ctx.note("models", how, mode)
    grid = g.grid()
    R, _ = gen.build(g, mon, nV=2, nS=2, int_Q=False, mode=mode, symbolic=0.6)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    R.update_params(**gen.params_for(g, mon, R, grid))
    keys = jac_keys(ctx, R)[:2]
    exp = result(R, keys)
    sh = mon.shadow(R)
    dyn = {k: v for k, v in sh.ang.items() if k not in sh.fixed
           and (not sh.mono or k in ("t_0", "p_0"))}
    refs, alive = [], []
    import cloudpickle

    data = cloudpickle.dumps(R)
    with mon.muted():
        for i in range(n):
            if how == "new":
                C = rt1.RT1(V=R.V, SRF=R.SRF, int_Q=False, sig0=sh.sig0, dB=sh.dB, I0=sh.I0)
                for q, d in sh.defs.items():
                    setattr(C, q, d)
                (C.set_monostatic if sh.mono else C.set_bistatic)(**sh.fixed)
                if dyn:
                    C.set_geometry(**dyn)
                C.update_params(**sh.P)
            elif how == "deepcopy":
                C = copy.deepcopy(R)
            else:
                C = pickle.loads(data)
            refs.append(weakref.ref(C))
            res = C.calc() if i % 100 else result(C, keys)[0]
            mon.counts["long-running models"] += 1
            ctx.check("equal models give identical results",
                      np.array_equal(res, exp[0], equal_nan=True), model=i)
            del C
            if i in (n // 2, n - 1):
                gc.collect()
                alive.append(sum(r() is not None for r in refs))
    ctx.notes.append(dict(alive=alive))
    ctx.check("models are released if they are no longer used", alive[1] - alive[0] <= 40,
              alive=alive)
    for a, b in zip(result(R, keys), exp):
        ctx.check("the first model still gives identical results",
                  np.array_equal(a, b, equal_nan=True))


def longrun_case(ctx):
    ctx.backend(0.2)
    if ctx.index % 10 == 3:
        models(ctx)
    else:
        evaluations(ctx)


CHECKS["C29"] = dict(
    case=longrun_case, judge=(), n=dict(quick=60, thorough=600),
    rule="random models whose complete state (parameters, angles, units, incident intensity, "
    "geometry mode) is cycled many times through a fixed sequence of states, and long series "
    "of models; results of repeated states must be bit-identical, the traced memory must not "
    "grow with the number of evaluations and unused models must be released; distinct by "
    "model, geometry, states and number of cycles")
