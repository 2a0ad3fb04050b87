"""Checks of configuration-, history- and isolation-properties."""
import copy
import logging
import os
import pickle
import random
import sys
import threading
import time
import warnings

import numpy as np

from .. import gen, ref
from ..monitor import short
from ..runner import Skip
from .values import RULE, describe, geom_sig

CHECKS = {}


def same_values(a, b):
    """Equality up to rounding (the summation order may depend on the memory-layout)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-13, equal_nan=True)


def smax(ctx, mode, extra=0):
    if ctx.rt1.get_lambda_backend() == "sympy":
        return 2
    return {"mono_f": 4, "mono": 3, "bi": 3, "bi_f": 3}[mode] + extra


def fresh_like(ctx, R, same_parts=False, **over):
    """A new model that is configured from scratch with the shadow-state of R."""
    sh = ctx.mon.shadow(R).copy()
    for k, v in over.items():
        setattr(sh, k, v)
    rt1 = ctx.rt1
    V = R.V if same_parts else make_scatter(rt1, sh.V)
    S = R.SRF if same_parts else make_scatter(rt1, sh.SRF)
    N = rt1.RT1(V=V, SRF=S, int_Q=sh.int_Q, sig0=sh.sig0, dB=sh.dB, I0=sh.I0)
    for q, d in sh.defs.items():
        if d != q:
            setattr(N, q, d)
    if sh.mono:
        N.set_monostatic(**sh.fixed)
        need = ["t_0", "p_0"]
    else:
        N.set_bistatic(**sh.fixed)
        need = ["t_0", "t_ex", "p_0", "p_ex"]
    dyn = {k: sh.ang[k] for k in need if k not in sh.fixed and k in sh.ang}
    if dyn:
        N.set_geometry(**dyn)
    if sh.P:
        N.update_params(**sh.P)
    return N


def make_scatter(rt1, spec):
    mod = rt1.volume if spec["kind"] == "V" else rt1.surface
    kw = {}
    if spec["cls"] == "LinComb":
        return mod.LinComb([(w, make_scatter(rt1, s)) for w, s in spec["parts"]])
    for k in ("t", "i", "a", "ncoefs"):
        if spec.get(k) is not None:
            kw[k] = spec[k]
    return getattr(mod, spec["cls"])(**kw)


def lin(R, val):
    return 10 ** (np.asarray(val) / 10) if R.dB is True else np.asarray(val)


def noise(ctx, R, ref_val):
    sh = ctx.mon.shadow(R)
    n = ref.own_ncoefs(sh.V) + ref.own_ncoefs(sh.SRF)
    m = np.abs(np.asarray(ref_val))
    m = float(np.nanmax(np.where(np.isfinite(m), m, 0), initial=0))
    return 1e-14 * 2.6**n * max(m, 1e-6)


def compare_models(ctx, what, A, B, jac=True, rtol=1e-8, keys=None, expand=False):
    """All results of both models agree (evaluated with the currently set parameters)."""
    a, b = A.calc(), B.calc()
    if expand and a.shape[0] == b.shape[0]:
        a, b = np.broadcast_arrays(a, b)
    if a.shape != b.shape:
        ctx.fail(f"{what}: results have different shapes {a.shape} / {b.shape}")
    la, lb = lin(A, a), lin(B, b)
    if A.dB is True:
        # negative (truncated) interaction-terms are undefined in dB
        bad = ~(np.isfinite(a) & np.isfinite(b))
        la, lb = np.where(bad, 0, la), np.where(bad, 0, lb)
    ctx.same(what, la, lb, rtol=rtol, atol=noise(ctx, A, lb))
    names = ["surface", "volume"] + (["interaction"] if a.shape[0] == 4 else [])
    k = ctx.g.pick(names)
    la, lb = lin(A, getattr(A, k)()), lin(B, getattr(B, k)())
    if A.dB is True:
        bad = ~(np.isfinite(la) & np.isfinite(lb))
        la, lb = np.where(bad, 0, la), np.where(bad, 0, lb)
    ctx.mon.compare(ctx.prop, f"{what}: {k}()", la, lb, rtol=rtol, atol=noise(ctx, A, lb))
    for q in gen.QUANT:
        ctx.mon.compare(ctx.prop, f"{what}: {q}", getattr(A, q), getattr(B, q), rtol=1e-12)
    for q in ("t_0", "t_ex", "p_0", "p_ex"):
        ctx.mon.compare(ctx.prop, f"{what}: {q}", getattr(A, q), getattr(B, q), rtol=1e-12)
    if jac:
        keys = keys or jac_keys(ctx, A)
        ja, jb = A.jacobian(param_list=keys), B.jacobian(param_list=keys)
        for key, x, y in zip(keys, ja, jb):
            x, y = np.asarray(x), np.asarray(y)
            m = np.abs(np.where(np.isfinite(y), y, 0)).max(initial=0)
            ctx.mon.compare(ctx.prop, f"{what}: jacobian", x, y, rtol=1e-7,
                            atol=1e-9 * max(m, 1e-3), key=key)
    return a


def jac_keys(ctx, R, n=3):
    req = sorted(ctx.mon.shadow(R).required())
    keys = sorted(set(req) | {q for q in gen.QUANT})
    return [str(k) for k in ctx.rng.permutation(keys)[:n]]


# --------------------------------------------------------------------------- C05 geometry
def earlier_geometry(ctx, M, p, fixed=()):
    """(sometimes) use the model with other geometries before it is re-configured"""
    g = ctx.g
    if fixed and g.chance(0.4):
        # the same kind of geometry with other fixed angles
        if "mono" in fixed:
            M.set_monostatic(p_0=g.pick([0.0, 1.1, -0.6]))
            M.set_geometry(t_0=0.4)
        else:
            M.set_bistatic(**{k: g.pick([0.0, 0.3, 1.1]) for k in fixed})
            rest = [k for k in ("t_0", "t_ex", "p_0", "p_ex") if k not in fixed]
            if rest:
                M.set_geometry(**{k: 0.5 for k in rest})
        M.calc(**p)
        ctx.note("other fixed angles before")
        return
    while g.chance(0.4):
        mode = g.pick(["mono", "mono_f", "bi", "bi_f", "bi_f"])
        gen.set_geom(g, M, mode, (1, 1))
        ctx.note("before", mode)
        if g.chance(0.5):
            M.calc(**p)


def geometry_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.1)
    grid = g.grid()
    nm = smax(ctx, "bi")
    # (azimuth-dependent also for monostatic geometries)
    a = g.pick(["random", "random", (-0.8, 1.0, 0.4), [0.5, -0.3, 1.0]])
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.85), mode="bi",
                     units=(g.chance(0.5), g.chance(0.2)), a=a)
    describe(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    if g.chance(0.6):
        # -------------------------------------------- monostatic equals special bistatic
        t_0, p_0 = np.array(g.angle("t_0", grid)), np.array(g.angle("p_0", grid))
        fix = g.chance(0.5)
        if fix:
            p_0 = g.pick([0.0, g.uni(-3, 6), -2.0, np.pi])
        ctx.note("mono-bi", fix, np.shape(t_0), np.shape(p_0))
        M = fresh_like(ctx, R)
        earlier_geometry(ctx, M, p, ["mono"] if fix else [])
        earlier_geometry(ctx, R, p)
        if fix:
            M.set_monostatic(p_0=p_0)
            M.set_geometry(t_0=t_0)
        else:
            M.set_monostatic()
            M.set_geometry(t_0=t_0, p_0=p_0)
        M.update_params(**p)
        R.set_bistatic()
        R.set_geometry(t_0=t_0, p_0=p_0, t_ex=t_0, p_ex=np.asarray(p_0) + np.pi)
        R.update_params(**p)
        compare_models(ctx, "monostatic equals bistatic with t_ex=t_0, p_ex=p_0+pi", M, R)
        ctx.same("exit zenith-angle of monostatic geometry", M.t_ex, M.t_0, rtol=0)
        ctx.same("exit azimuth-angle of monostatic geometry", M.p_ex, M.p_0 + np.pi,
                 rtol=1e-14)
        if fix:
            # fixed vs. dynamic p_0
            D = fresh_like(ctx, R)
            D.set_monostatic()
            D.set_geometry(t_0=t_0, p_0=p_0)
            compare_models(ctx, "fixed equals dynamic p_0", M, D, jac=False)
    # ------------------------------------------------- fixed angles equal dynamic ones
    names = ["t_0", "t_ex", "p_0", "p_ex"]
    fixed = [str(i) for i in ctx.rng.permutation(names)[: int(ctx.rng.integers(1, 5))]]
    vals = {}
    for k in names:
        if k in fixed:
            vals[k] = g.pick([g.uni(0.05, 1.3), 0, np.float64(g.uni(0.05, 1.3)), 1]) if k[
                0] == "t" else g.pick([0, g.uni(-3, 6), np.float64(g.uni(-3, 6)), 2])
        else:
            vals[k] = g.angle(k, grid)
    ctx.note("fixed", *sorted(fixed), *(f"{k}{np.shape(v)}" for k, v in vals.items()))
    F = fresh_like(ctx, R)
    earlier_geometry(ctx, F, p, fixed)
    F.set_bistatic(**{k: vals[k] for k in fixed})
    if len(fixed) < 4:
        F.set_geometry(**{k: v for k, v in vals.items() if k not in fixed})
    D = fresh_like(ctx, R)
    earlier_geometry(ctx, D, p)
    D.set_bistatic()
    D.set_geometry(**vals)
    F.update_params(**p)
    D.update_params(**p)
    compare_models(ctx, "fixed equal dynamic angles", F, D)
    for k in names:
        ctx.same(f"readable angle {k}", getattr(F, k), np.atleast_1d(vals[k]), rtol=1e-14)
    # change the mode of an already evaluated model
    F.set_bistatic()
    F.set_geometry(**vals)
    compare_models(ctx, "re-configured from fixed to dynamic", F, D, jac=False)
    if g.chance(0.4):
        # and (back) to a monostatic geometry
        F.set_monostatic()
        F.set_geometry(t_0=vals["t_0"], p_0=vals["p_0"])
        D.set_geometry(t_ex=vals["t_0"], p_ex=np.asarray(vals["p_0"]) + np.pi)
        compare_models(ctx, "re-configured from bistatic to monostatic", F, D, jac=False)


CHECKS["C05"] = dict(
    case=geometry_case, judge=(), n=dict(quick=300, thorough=2500),
    rule="pairs of models with identical physics that differ only in how the geometry was "
    "specified (monostatic/bistatic, fixed/dynamic angles, re-configured); all results, "
    "components, jacobians and readable angles are compared; distinct by model and geometry")


# -------------------------------------------------------------------------- C06 histories
def apply_random_op(ctx, R, grid, ops=None):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    sh = mon.shadow(R)
    op = g.pick(ops or [
        "update", "calc", "calc", "component", "jacobian", "geom", "geom", "mono", "mono_f",
        "bi", "bi_f", "def", "def", "units", "I0", "int_Q", "backend", "scatter", "other",
        "extra", "reject", "read", "refix", "parts",
    ])
    complete = sh.judgeable() is None
    if op in ("calc", "component", "jacobian") and not complete:
        op = "update"
    if op == "update":
        p = gen.next_params(g, mon, R, grid)
        keys = [str(k) for k in ctx.rng.permutation(sorted(p))]
        if g.chance(0.3):
            for k in keys:
                R.update_params(**{k: p[k]})
        else:
            R.update_params(**{k: p[k] for k in keys})
    elif op == "calc":
        p = gen.next_params(g, mon, R, grid)
        keys = [str(k) for k in ctx.rng.permutation(sorted(p))]
        R.calc(**{k: p[k] for k in keys if g.chance(0.5)})
    elif op == "component":
        n = g.pick(["surface", "volume"] + (["interaction"] if sh.int_Q is True else []))
        p = gen.params_for(g, mon, R, grid)
        getattr(R, n)(**{k: v for k, v in p.items() if g.chance(0.3)})
    elif op == "jacobian":
        if g.chance(0.3):
            R.jacobian()
        else:
            R.jacobian(param_list=jac_keys(ctx, R, 6))
    elif op == "geom":
        gen.next_geom(g, mon, R, grid)
    elif op in ("mono", "mono_f", "bi", "bi_f"):
        gen.set_geom(g, R, op, grid)
    elif op == "refix":
        # the same kind of geometry with other fixed angles
        if sh.mono:
            R.set_monostatic(p_0=g.pick([0.0, 0.8, -1.3, g.uni(-3, 6)]))
        elif sh.fixed:
            R.set_bistatic(**{k: g.uni(0, 1.3) for k in sh.fixed})
        need = [k for k in (("t_0",) if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
                if k not in sh.fixed]
        if need and g.chance(0.6):
            R.set_geometry(**g.angles(need, grid))
    elif op == "def":
        q = g.pick(gen.QUANT)
        d = g.definition(q)
        if ops and d is None and g.chance(0.7):
            d = g.expr(0.9)
        if sh.defs[q] == q and np.size(sh.P.get(q, ())) == 1 and g.chance(0.25):
            # a number that equals the current value of the parameter
            d = float(np.ravel(sh.P[q])[0])
        setattr(R, q, q if d is None else d)
        op = f"def {q}"
    elif op == "units":
        R.sig0, R.dB = g.chance(0.5), g.chance(0.3)
    elif op == "I0":
        R.I0 = g.pick([1.0, 2, 0.4, g.arr(0.3, 3.0, grid, 0.4)])
    elif op == "int_Q":
        R.int_Q = not R.int_Q
    elif op == "parts":
        # replace the scattering functions
        if g.chance(0.6):
            R.V = g.scatter("V", 2, 0.1)
        else:
            R.SRF = g.scatter("S", 2, 0.1)
    elif op == "backend":
        b = g.pick(["symengine", "symengine", "sympy"])
        rt1.set_lambda_backend(b)
    elif op == "scatter":
        for o, spec in ((R.V, sh.V), (R.SRF, sh.SRF)):
            o.calc(0.3, 0.4, 0.1, 0.2,
                   param_dict={k: np.asarray(g.value(k, (1, 1), 1.0)) for k in ref.spec_symbols(spec)})
    elif op == "other":
        # a second model that shares the scattering-functions
        O = rt1.RT1(V=R.V, SRF=R.SRF, int_Q=False, dB=False)
        gen.set_geom(g, O, g.pick(["mono", "bi"]), grid)
        O.calc(**gen.params_for(g, mon, O, grid))
    elif op == "extra":
        ex = [str(k) for k in ctx.rng.permutation(["unused", "zzz", "A1", "b2", "c3", "theta"])]
        p = {k: g.arr(0, 1, (1, 1), 1.0) for k in ex[: int(ctx.rng.integers(1, 7))]}
        (R.calc if complete and g.chance(0.4) else R.update_params)(**p)
    elif op == "reject":
        for call in (lambda: R.set_geometry(theta=1), lambda: R.jacobian(["nope"]),
                     lambda: R.set_geometry(t_0=None)):
            try:
                call()
            except Exception:
                pass
    elif op == "read":
        for q in gen.QUANT:
            if set(ref.names_in(sh.defs[q])) <= set(sh.P):
                getattr(R, q)
    return op


def complete_state(ctx, R, grid):
    g, mon = ctx.g, ctx.mon
    sh = mon.shadow(R)
    need = ["t_0", "p_0"] if sh.mono else ["t_0", "t_ex", "p_0", "p_ex"]
    for k in need:
        if k not in sh.ang:
            R.set_geometry(**{k: g.angle(k, grid)})
    miss = sh.missing()
    if miss:
        R.update_params(**gen.params_for(g, mon, R, grid, names=miss))


def history_case(ctx):
    g, mon = ctx.g, ctx.mon
    grid = g.grid()
    R, mode = gen.build(g, mon, nV=2, nS=2, int_Q=g.chance(0.7), lincomb=0.1,
                        a=g.pick(["random", "random", (-0.7, 1.0, 0.3)]))
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    if g.chance(0.8):
        R.calc(**p)
    if ctx.index % 2:
        return single_steps(ctx, R, grid)
    n_ops = int(ctx.rng.integers(4, 12))
    check_at = set(int(i) for i in ctx.rng.integers(0, n_ops, size=2)) | {n_ops - 1}
    for i in range(n_ops):
        ctx.note(apply_random_op(ctx, R, grid))
        if i in check_at:
            check_history(ctx, R, grid)


def check_history(ctx, R, grid):
    complete_state(ctx, R, grid)
    backend = ctx.rt1.get_lambda_backend()
    keys = jac_keys(ctx, R, 5)
    # (evaluate everything before other models might reset shared caches)
    got, jac = R.calc(), [np.array(j) for j in R.jacobian(param_list=keys)]
    ctx.rt1.set_lambda_backend("symengine")
    F = fresh_like(ctx, R)
    compare_models(ctx, "history-independent results", R, F, expand=True, keys=keys)
    for key, x, y in zip(keys, jac, F.jacobian(param_list=keys)):
        m = np.abs(np.where(np.isfinite(y), y, 0)).max(initial=0)
        ctx.mon.compare(ctx.prop, "history-independent derivatives", x, np.asarray(y),
                        rtol=1e-7, atol=1e-9 * max(m, 1e-3), key=key)
    exp = F.calc()
    if R.dB is not True:
        ctx.mon.compare(ctx.prop, "history-independent total", got[0], exp[0], rtol=1e-8,
                        atol=noise(ctx, R, exp))
    ctx.rt1.set_lambda_backend(backend)
    # evaluations are repeatable
    again = R.calc()
    ctx.check("evaluations are repeatable", same_values(got, again), got=str(got),
              again=str(again))


def single_steps(ctx, R, grid):
    """A single change of a model for which everything was already evaluated."""
    g = ctx.g
    for _ in range(5):
        complete_state(ctx, R, grid)
        R.calc()
        R.jacobian(param_list=jac_keys(ctx, R, 9))
        ctx.note(apply_random_op(ctx, R, grid, ops=[
            "update", "calc", "geom", "mono", "mono_f", "bi", "bi_f", "def", "def", "def",
            "units", "I0", "int_Q", "backend", "refix", "refix", "parts"]))
        check_history(ctx, R, grid)


CHECKS["C06"] = dict(
    case=history_case, judge=(), n=dict(quick=280, thorough=3000),
    rule="random histories of 4-12 operations (parameter updates in random order, partial "
    "evaluations, re-definitions, geometry- and mode-changes, unit- and backend-switches, "
    "jacobians, rejected calls, shared or replaced scattering functions); at random points the model is "
    "compared with a model that was configured from scratch with the final state (every second "
    "case: after each single change of a completely evaluated model); distinct "
    "by model and sequence of operations")


# ---------------------------------------------------------------------- C07 broadcasting
def broadcast_case(ctx):
    g, mon = ctx.g, ctx.mon
    ctx.backend(0.15)
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    nm = smax(ctx, mode)
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.8), mode=mode,
                     units=(g.chance(0.5), False))
    describe(ctx, R)
    if g.chance(0.2):
        # sizes that coincide with the number of coefficients
        n = gen.weight(mon, R) - 1
        grid = g.pick([(n, n), (n, 2), (2, n)])
    elif g.chance(0.15):
        grid = g.pick([(7, 11), (1, 40), (25, 1)])
    else:
        grid = g.grid()
    gen.set_geom(g, R, mode, grid, scalar=0.25)
    broadcast_round(ctx, R, mode, grid)
    fixed = dict(mon.shadow(R).fixed)
    g.p_structured = 0.7
    for _ in range(4):
        # (evaluations of the same model with other arrays)
        grid = g.pick([grid, g.grid(), (int(ctx.rng.integers(2, 4)), int(ctx.rng.integers(2, 4)))])
        names = ["t_0", "p_0"] if mode.startswith("mono") else ["t_0", "t_ex", "p_0", "p_ex"]
        dyn = [k for k in names if k not in fixed]
        if dyn:
            R.set_geometry(**g.angles(dyn, grid, 0.2))
        broadcast_round(ctx, R, mode, grid, 4)
    if g.chance(0.08):
        # (many observations)
        grid = g.pick([(300, 40), (1, 20000), (15000, 1)])
        if dyn:
            R.set_geometry(**g.angles(dyn, grid, 0.2))
        broadcast_round(ctx, R, mode, grid, 6)
    if g.chance(0.15):
        empty_round(ctx, R, grid)


def empty_round(ctx, R, grid):
    """Without any elements the result is empty (e.g. no observations are left)."""
    g, sh = ctx.g, ctx.mon.shadow(R)
    base = {k: v for k, v in sh.P.items()}
    R.I0 = 1.0
    shape = g.pick([(0,), (0, 1), (1, 0)])
    dyn = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
           if k not in sh.fixed]
    R.set_geometry(**{k: g.angle(k, grid, 1.0) for k in dyn})
    P = {k: float(np.asarray(v, dtype=float).flat[0]) for k, v in base.items()}
    if dyn and g.chance(0.5):
        R.set_geometry(**{g.pick(dyn): np.zeros(shape)})
    else:
        k = g.pick(sorted(P))
        P[k] = np.zeros(shape)
    res = R.calc(**P)
    n = 4 if R.int_Q else 3
    ctx.check("empty inputs give empty results", res.shape == (n, *shape),
              shape=str(res.shape), expected=str((n, *shape)))
    keys = jac_keys(ctx, R)
    ctx.check("empty inputs give empty derivatives",
              all(np.shape(j) == shape for j in R.jacobian(param_list=keys)), keys=str(keys))


def broadcast_round(ctx, R, mode, grid, n_max=8):
    g, mon = ctx.g, ctx.mon
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid, scalar=0.25)
    if g.chance(0.25):
        # three-dimensional parameters
        k = g.pick(sorted(p))
        p[k] = ctx.rng.uniform(0.06, 0.59, size=(2, g.pick([1, grid[0]]), g.pick([1, grid[1]])))
    if g.chance(0.2):
        R.I0 = g.arr(0.3, 3.0, grid, 0.0)
    elif np.ndim(R.I0):
        R.I0 = 1.7
    ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())), np.shape(R.I0))
    res = R.calc(**p)
    keys = jac_keys(ctx, R)
    jac = R.jacobian(param_list=keys)
    sh = mon.shadow(R).copy()
    shape = res.shape[1:]
    exp_shape = np.broadcast_shapes(
        *(np.shape(sh.P[k]) for k in sh.P), np.shape(sh.I0),
        *(np.shape(v) for v in sh.geometry().values()))
    ctx.check("shape of the result is the broadcasted shape of all inputs",
              shape == exp_shape, shape=str(res.shape), expected=str(exp_shape))
    for k, j in zip(keys, jac):
        ctx.check("jacobian entries can be broadcasted to the shape of the result",
                  np.broadcast_shapes(np.shape(j), shape) == shape, key=k,
                  shape=str(np.shape(j)))
    idx = list(np.ndindex(*shape))
    if len(idx) > n_max:
        idx = [idx[i] for i in {len(idx) - 1, *ctx.rng.choice(len(idx), n_max, replace=False)}]
    dyn = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
           if k not in sh.fixed]
    for i in idx:
        def at(v):
            return float(np.broadcast_to(v, shape)[i])

        if dyn:
            R.set_geometry(**{k: at(sh.ang[k]) for k in dyn})
        R.I0 = at(sh.I0)
        one = R.calc(**{k: at(v) for k, v in sh.P.items()})
        ctx.check("scalar inputs give a single value", np.size(one) == res.shape[0],
                  shape=str(one.shape))
        ctx.same("element equals scalar evaluation", res[(slice(None), *i)],
                 one.reshape(-1), rtol=1e-10, atol=noise(ctx, R, one))
        for k, a, b in zip(keys, jac, R.jacobian(param_list=keys)):
            mon.compare("C07", "jacobian element equals scalar evaluation",
                        np.broadcast_to(a, shape)[i], np.asarray(b).reshape(-1)[0],
                        rtol=1e-9, atol=1e-9, key=k)


CHECKS["C07"] = dict(
    case=broadcast_case, judge=(), n=dict(quick=300, thorough=3500),
    rule="random models evaluated with angles, parameters and incident intensities of mixed "
    "broadcastable shapes (0-3 dimensions, sizes that coincide with internal sizes); sampled "
    "elements of results and jacobians are compared with scalar evaluations of the same "
    "model; distinct by model and shapes")


# ------------------------------------------------------------------------- C08 backends
def backend_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    g.zeros = g.chance(0.2)
    rt1.set_lambda_backend("symengine")
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    nm = {"mono_f": 3, "mono": 3, "bi": 2, "bi_f": 2}[mode]
    grid = g.grid()
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.7), mode=mode,
                     units=(g.chance(0.5), g.chance(0.3)), symbolic=0.7)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    if g.chance(0.3):
        p["unused"] = g.arr(0, 1, grid)
    ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())))
    R.calc(**p)
    rt1.set_lambda_backend("sympy")
    ctx.check("selected backend is reported", rt1.get_lambda_backend() == "sympy")
    S = fresh_like(ctx, R)
    S.calc()
    if g.chance(0.5):
        rt1.set_lambda_backend(g.pick(["symengine", "sympy"]))
    compare_models(ctx, "symengine and sympy results agree", R, S)
    sh = mon.shadow(R)
    # scattering distributions for scalars and arrays
    for spec in (sh.V, sh.SRF):
        ang = [g.angle(k, grid) for k in ("t_0", "t_ex", "p_0", "p_ex")]
        ang = [np.array(v) for v in ang]
        P = {k: sh.P[k] for k in ref.spec_symbols(spec)}
        out = []
        for b in ("symengine", "sympy"):
            rt1.set_lambda_backend(b)
            out.append(np.asarray(make_scatter(rt1, spec).calc(*ang, param_dict=P)))
        ctx.same("scattering distribution", *out, rtol=1e-10, atol=1e-13)
    # only the documented backends are accepted
    for b in ("symengine", "sympy"):
        rt1.set_lambda_backend(b)
        name = g.pick(["SYMPY", "Symengine", "Sympy", "SymEngine", "numpy", "", None, "sympy ",
                       "sym", "lambda", 1, True])
        try:
            rt1.set_lambda_backend(name)
        except Exception:
            pass
        else:
            ctx.fail("an unknown backend was accepted", name=repr(name))
        mon.oracles["C08:unknown backends are rejected"] += 1
        ctx.check("the selected backend remains active", rt1.get_lambda_backend() == b,
                  got=rt1.get_lambda_backend(), name=repr(name))
    rt1.set_lambda_backend("symengine")


CHECKS["C08"] = dict(
    case=backend_case, judge=(), n=dict(quick=250, thorough=2000),
    rule="identical random models compiled with both backends; results, shapes, components, "
    "jacobians, quantities and scattering distributions are compared; distinct by model, "
    "geometry and shapes")


# --------------------------------------------------------------------- C16 invalid usage
def rejected(ctx, what, call, types=Exception, contains=(), must=True):
    try:
        ret = call()
    except types as ex:
        ctx.mon.oracles[f"C16:{what}"] += 1
        msg = str(ex)
        for c in contains:
            ctx.check(f"{what}: the error names '{'missing parameter'}'", c in msg, name=c,
                      error=msg)
        return True
    except Exception as ex:
        ctx.fail(f"{what}: rejected with an unexpected {type(ex).__name__}: {ex}")
    ctx.mon.oracles[f"C16:{what}"] += 1
    if must:
        ctx.fail(f"{what}: invalid specification was accepted", result=short(ret, 300))
    return False


def snapshot(R):
    with np.errstate(all="ignore"):
        return R.calc(), [np.array(getattr(R, k)) for k in ("t_0", "t_ex", "p_0", "p_ex")]


def unchanged(ctx, what, R, before):
    if ctx.g.chance(0.5):
        # angles that were fixed before the rejected call are still fixed
        for k in ctx.mon.shadow(R).fixed:
            rejected(ctx, f"{what}: value for a fixed angle after a rejected call",
                     lambda: R.set_geometry(**{k: 0.77}), ERR)
    after = snapshot(R)
    ctx.mon.oracles[f"C16:{what}: state unchanged"] += 1
    if not (before[0].shape == after[0].shape
            and same_values(before[0], after[0])
            and all(same_values(a, b) for a, b in zip(before[1], after[1]))):
        ctx.fail(f"{what}: a rejected call changed the model", before=short(before, 500),
                 after=short(after, 500))


ERR = (TypeError, AssertionError, ValueError, AttributeError, KeyError)


def invalid_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.4)
    grid = g.grid()
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    R, _ = gen.build(g, mon, nV=2, nS=2, int_Q=g.chance(0.4), mode=mode, symbolic=0.8)
    describe(ctx, R)
    # ------------------------------------------------------- incomplete geometry
    which = g.pick(["calc", "surface", "volume"])
    gen.set_geom(g, R, mode, grid)
    sh = mon.shadow(R)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    req = sorted(sh.required() - {"bsf"})
    # ---------------------------------------------------- missing parameters
    if req:
        k = int(ctx.rng.integers(1, len(req) + 1))
        miss = [str(i) for i in ctx.rng.permutation(req)[:k]]
        ctx.note("missing", *sorted(miss))
        part = {k: v for k, v in p.items() if k not in miss}
        R.update_params(**part)
        rejected(ctx, "evaluation with missing parameters", lambda: R.calc(**part), TypeError,
                 contains=[f"'{i}'" for i in miss])
        if g.chance(0.5):
            vs = ref.spec_symbols(sh.V) & set(miss)
            ss = ref.spec_symbols(sh.SRF) & set(miss)
            defs = {q: set(ref.names_in(sh.defs[q])) & set(miss) for q in gen.QUANT}
            if vs or defs["tau"] or defs["omega"] or defs["bsf"]:
                rejected(ctx, "volume() with missing parameters", R.volume, TypeError)
            if ss or defs["tau"] or defs["NormBRDF"] or defs["bsf"]:
                rejected(ctx, "surface() with missing parameters", R.surface, TypeError)
            if sh.int_Q is True and any(defs.values()):
                rejected(ctx, "interaction() with missing parameters", R.interaction,
                         (TypeError, KeyError))
            for o, m in ((R.V, vs), (R.SRF, ss)):
                if m:
                    rejected(ctx, "scattering function with missing parameters",
                             lambda: o.calc(0.1, 0.2, 0.3, 0.4, param_dict=part), TypeError)
            for q in gen.QUANT:
                if defs[q]:
                    rejected(ctx, "quantity with missing parameters",
                             lambda: getattr(R, q), TypeError)
        # the missing parameters can still be provided
        R.calc(**{k: v for k, v in p.items() if k in miss})
    else:
        R.calc(**p)
    before = snapshot(R)
    # ------------------------------------------------------------ invalid geometries
    dyn = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
           if k not in sh.fixed]
    good = {g.pick(dyn): 0.123} if dyn else {}
    bad = []
    bad.append(("unknown angle", {g.pick(["theta_0", "t0", "inc", "P_0"]): 0.3}))
    if dyn:
        bad.append(("angle set to None", {g.pick(dyn): None}))
    if sh.mono:
        bad.append(("exit-angle for monostatic geometry", {g.pick(["t_ex", "p_ex"]): 0.3}))
    for k in sh.fixed:
        bad.append(("value for a fixed angle", {k: 0.3}))
    for what, kw in bad:
        if g.chance(0.7):
            both = {**good, **kw} if g.chance(0.5) else {**kw, **good}
            both.update(kw)
            ctx.note(what, len(both))
            rejected(ctx, what, lambda: R.set_geometry(**both), ERR)
            unchanged(ctx, what, R, before)
    arr = g.pick([[0.1, 0.2], np.array([0.1]), "0.3", (1,)])
    if g.chance(0.6):
        rejected(ctx, "array as fixed monostatic angle", lambda: R.set_monostatic(p_0=arr),
                 ERR)
        unchanged(ctx, "array as fixed monostatic angle", R, before)
    if g.chance(0.6):
        kw = {g.pick(["t_0", "t_ex"]): 0.2, g.pick(["p_0", "p_ex"]): arr}
        rejected(ctx, "array as fixed bistatic angle", lambda: R.set_bistatic(**kw), ERR)
        unchanged(ctx, "array as fixed bistatic angle", R, before)
    # ------------------------------------------------------------ invalid jacobians
    rejected(ctx, "jacobian for an unknown parameter",
             lambda: R.jacobian(param_list=["omega", "not_a_param"]), ERR)
    fmt = g.pick(["nope", "scipy", "SCIPY_LEAST_SQUARES", "scipy_least_square", "List", "LIST",
                  "sparse", "", None, "array", 0, "scipy_least_squares "])
    with np.errstate(all="ignore"):
        rejected(ctx, "unknown jacobian format",
                 lambda: R.jacobian(param_list=["tau"], format=fmt), ERR)
    unchanged(ctx, "invalid jacobian", R, before)
    # ------------------------------------------------------------ invalid backend
    b = rt1.get_lambda_backend()
    rejected(ctx, "unknown backend", lambda: rt1.set_lambda_backend(g.pick(
        ["numpy", "", "SYMPY", None, "Symengine", "sympy "])), ERR)
    ctx.check("a rejected backend does not change the backend", rt1.get_lambda_backend() == b)
    unchanged(ctx, "unknown backend", R, before)
    # ------------------------------------------------------------ invalid definitions
    V, S = rt1.volume, rt1.surface
    inval = [
        ("model without volume-function", lambda: rt1.RT1(SRF=S.Isotropic())),
        ("model without surface-function", lambda: rt1.RT1(V=V.Isotropic())),
        ("CosineLobe without power", lambda: S.CosineLobe(ncoefs=3)),
        ("CosineLobe with fractional power", lambda: S.CosineLobe(i=1.5, ncoefs=3)),
        ("CosineLobe with negative power", lambda: S.CosineLobe(i=-1, ncoefs=3)),
    ]
    for mod, cls in ((V, "HenyeyGreenstein"), (V, "HGRayleigh"), (S, "HenyeyGreenstein"),
                     (S, "HG_nadirnorm")):
        inval.append((f"{cls} without asymmetry parameter",
                      lambda mod=mod, cls=cls: getattr(mod, cls)(ncoefs=3)))
        inval.append((f"{cls} with wrong number of generalization parameters",
                      lambda mod=mod, cls=cls: getattr(mod, cls)(
                          t=0.2, ncoefs=3, a=g.pick([[1, 1], [1, 1, 1, 1], []]))))
    for name in ("n", "theta_s", "phi_s"):
        mk = g.pick([
            lambda name=name: (V.LinComb([(name, V.Rayleigh()), (0.5, V.Isotropic())]),
                               S.Isotropic()),
            lambda name=name: (V.Rayleigh(), S.HG_nadirnorm(t=f"{name} / 2", ncoefs=3)),
            lambda name=name: (V.HGRayleigh(t=name, ncoefs=3), S.CosineLobe(i=2, ncoefs=2)),
            lambda name=name: (V.HenyeyGreenstein(t=0.3, ncoefs=2),
                               S.LinComb([(f"1 - {name}", S.Isotropic())])),
        ])

        def reserved(mk=mk, name=name):
            N = rt1.RT1(*mk())
            N.set_geometry(t_0=0.3, p_0=0.0)
            return N.calc(tau=0.2, omega=0.2, NormBRDF=0.2, **{name: 0.3})

        inval.append((f"interaction of a distribution with the reserved parameter '{name}'",
                      reserved))
    for i in ctx.rng.permutation(len(inval))[:4]:
        rejected(ctx, inval[i][0], inval[i][1], ERR)
    # ----------------------------------------- unknown number of expansion coefficients
    if g.chance(0.3):
        if g.chance(0.5):
            v, s = V.HenyeyGreenstein(t=0.2), S.Isotropic()
        else:
            v, s = V.Rayleigh(), S.HenyeyGreenstein(t=0.2)
        N = rt1.RT1(V=v, SRF=s)
        N.set_geometry(t_0=0.3, p_0=0.0)
        rejected(ctx, "interaction without number of coefficients",
                 lambda: N.calc(tau=0.2, omega=0.2, NormBRDF=0.2), ERR)
        N.int_Q = False
        ctx.check("coefficients are not required without interaction",
                  bool(np.isfinite(N.calc()).all()))
    # ----------------------------------------- angles must be set before they are used
    if g.chance(0.5):
        N = rt1.RT1(V=V.Isotropic(), SRF=S.Isotropic(), int_Q=False)
        k = g.pick(["t_0", "p_0"])
        if g.chance(0.5):
            N.set_bistatic()
            k = g.pick(["t_0", "t_ex", "p_0", "p_ex"])
        rejected(ctx, "angle that was not set", lambda: getattr(N, k), AttributeError)
        rejected(ctx, "evaluation without geometry",
                 lambda: N.calc(tau=0.2, omega=0.2, NormBRDF=0.2), ERR)
    # ------------------------------------------------ the model is still fully usable
    F = fresh_like(ctx, R)
    compare_models(ctx, "model after rejected calls", R, F, jac=False, expand=True)


CHECKS["C16"] = dict(
    case=invalid_case, judge=(), n=dict(quick=400, thorough=4000),
    rule="random models on which incomplete or contradictory specifications are attempted "
    "(random subsets of missing parameters, invalid / mixed geometry calls, fixed angles, "
    "arrays as fixed angles, unknown jacobian keys/formats/backends, invalid distribution "
    "definitions); every attempt must be rejected and leave results and angles bit-identical; "
    "distinct by model, geometry and attempts")


# ----------------------------------------------------------------------- C17 copies
def copy_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    import cloudpickle

    ctx.backend(0.35)
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    nm = smax(ctx, mode)
    grid = g.grid()
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.7), mode=mode)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    evaluated = g.chance(0.7)
    R.update_params(**p)
    before = None
    if evaluated:
        before = R.calc()
        if g.chance(0.5):
            R.jacobian(param_list=jac_keys(ctx, R))
    how = g.pick(["cloudpickle", "cloudpickle", "deepcopy"])
    keys = sorted(map(str, vars(R)))
    ctx.note(how, evaluated)
    if how == "cloudpickle":
        data = cloudpickle.dumps(R)
        if g.chance(0.3):
            rt1.set_lambda_backend(g.pick(["symengine", "sympy"]))
        C = pickle.loads(data)
    else:
        C = copy.deepcopy(R)
    mon.adopt(C, mon.shadow(R).copy())
    mon.specs[id(C.V)], mon.specs[id(C.SRF)] = mon.specs[id(R.V)], mon.specs[id(R.SRF)]
    ctx.check("the copied object is not changed", sorted(map(str, vars(R))) == keys)
    ctx.check("the copy is an independent object", C is not R and C.V is not R.V
              and C.SRF is not R.SRF and C.param_dict is not R.param_dict)
    for k in ("int_Q", "sig0", "dB"):
        ctx.check("settings are preserved", getattr(C, k) is getattr(R, k), name=k)
    ctx.check("parameters are preserved", sorted(C.param_dict) == sorted(R.param_dict))
    for name in ("analyze", "analyze3d"):
        for o, w in ((R, "original"), (C, "copy")):
            ctx.check(f"plot-functions are available on the {w}",
                      callable(getattr(o, name, None)))
    for o in (C.V, C.SRF):
        ctx.check("plot-functions of copied distributions", callable(o.polarplot))
    compare_models(ctx, "copy gives the same results", C, R)
    if how == "cloudpickle" and ctx.index % 12 == 0:
        other_process(ctx, R, data)
    if before is not None:
        ctx.same("results of the original are unchanged", R.calc(), before, rtol=1e-12)
    # changes of the copy have no effect on the original (and vice versa)
    base = R.calc()
    p2 = gen.params_for(g, mon, C, grid)
    C.update_params(**p2)
    q = g.pick(gen.QUANT)
    d = g.definition(q)
    setattr(C, q, q if d is None else d)
    complete_state(ctx, C, grid)
    m2 = g.pick(["mono", "bi"])
    gen.set_geom(g, C, m2, grid)
    C.dB = not C.dB
    C.calc()
    ctx.same("changes of the copy do not affect the original", R.calc(), base, rtol=1e-12)
    F = fresh_like(ctx, C)
    compare_models(ctx, "the copy is fully functional", C, F, jac=False, expand=True)
    cbase = C.calc()
    R.update_params(**gen.params_for(g, mon, R, grid))
    gen.set_geom(g, R, g.pick(["mono", "bi"]), grid)
    ctx.same("changes of the original do not affect the copy", C.calc(), cbase, rtol=1e-12)


def other_process(ctx, R, data):
    """un-pickle and evaluate the model in a different interpreter"""
    import json
    import tempfile

    from .infra import run_child

    ctx.note("other process")
    keys = jac_keys(ctx, R)
    with tempfile.NamedTemporaryFile(prefix="rtmon_model_") as f:
        f.write(data)
        f.flush()
        P = {k: np.asarray(v).tolist() for k, v in ctx.mon.shadow(R).P.items()}
        r = run_child([dict(pickle=f.name, keys=keys, P=P)])
    ctx.check("models can be transferred to other processes", r.returncode == 0,
              stderr=r.stderr[-2000:])
    res = json.loads(r.stdout[r.stdout.index("{"):])["results"][0]
    ctx.check("transferred models can be evaluated", "error" not in res,
              error=res.get("error"))
    exp = R.calc()
    got = np.array(res["calc"], dtype=float)
    a, b = lin(R, got), lin(R, exp)
    bad = ~(np.isfinite(got) & np.isfinite(exp))
    a, b = np.where(bad, 0, a), np.where(bad, 0, b)
    ctx.same("results in other processes", a, b, rtol=1e-8, atol=noise(ctx, R, b))


CHECKS["C17"] = dict(
    case=copy_case, judge=(), n=dict(quick=200, thorough=2500),
    rule="random models (evaluated or not, both backends) are pickled (cloudpickle) or "
    "deep-copied (some are sent to a separate interpreter); the copy must reproduce all results, be fully functional and independent; "
    "distinct by model, geometry, kind of copy",
    assumptions=["evaluated models contain compiled functions, so cloudpickle is used (as "
                 "in the tests of the repository)"])


# --------------------------------------------------------------------- C18 isolation
def isolation_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.3)
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    nm = smax(ctx, mode)
    grid = g.grid()
    mods = {n: m for n, m in sys.modules.items() if n.split(".")[0] == "rt1_model" and m}
    names_before = {n: set(vars(m)) for n, m in mods.items()}
    # (the settings of the user differ from those used in the other checks)
    user = {k: g.pick(["warn", "ignore"])
            for k in ("divide", "over", "under", "invalid")}
    harness = np.geterr()
    np.seterr(**user)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            warnings.filterwarnings(g.pick(["ignore", "default"]), message=g.pick(
                ["some", "other"]))
            isolation_ops(ctx, mode, nm, grid, mods, names_before)
    finally:
        np.seterr(**harness)


def global_state():
    root, own = logging.getLogger(), logging.getLogger("rt1_model")
    return dict(
        err=np.geterr(), callback=np.geterrcall(), printing=np.get_printoptions(),
        random=np.random.get_state()[1].tolist(), filters=list(warnings.filters),
        showwarning=warnings.showwarning, disabled=logging.root.manager.disable,
        levels=(root.level, own.level), handlers=(list(root.handlers), list(own.handlers)),
        propagate=own.propagate, recursion=sys.getrecursionlimit(), environ=dict(os.environ),
        cwd=os.getcwd(), switch=sys.getswitchinterval(), path=list(sys.path),
        py_random=random.getstate(), **matplotlib_state())


def matplotlib_state():
    if "matplotlib.pyplot" not in sys.modules:
        return {}
    import matplotlib as mpl

    return dict(matplotlib={k: str(mpl.rcParams._get(k)) for k in mpl.rcParams},
                interactive=mpl.is_interactive())


def draw_something(ctx, R):
    """Plots do not change global settings, the plotted objects or other figures."""
    g, rt1 = ctx.g, ctx.rt1
    import matplotlib.pyplot as plt

    mine = plt.figure("mine")
    mine.add_subplot().plot([1, 2], [3, 4])
    old = plt.get_fignums()
    sh = ctx.mon.shadow(R)
    which = g.pick(["polarplot", "hemreflect", "analyze", "analyze3d"])
    ctx.note(which)
    if which == "polarplot":
        o, spec = g.pick([(R.V, sh.V), (R.SRF, sh.SRF)])
        o.polarplot(param_dict={k: g.uni(0.1, 0.5) for k in ref.spec_symbols(spec)},
                    inc=[20.0, 50.0], aprox=g.chance(0.5))
    elif which == "hemreflect":
        R.SRF.hemreflect(param_dict={k: g.uni(0.1, 0.5) for k in ref.spec_symbols(sh.SRF)},
                         simps_N=20, t_0_step=30.0, returnarray=False)
    else:
        N = rt1.RT1(V=R.V, SRF=R.SRF, int_Q=False, dB=False)
        names = sorted(ctx.mon.shadow(N).required() - {"bsf"})
        kw = dict(samples=5) if which == "analyze3d" else {}
        getattr(N, which)(**kw, **{k: (0.1, 0.5) for k in names})
    ctx.check("other figures are not modified", plt.fignum_exists("mine")
              and len(mine.axes) == 1 and len(mine.axes[0].lines) == 1)
    for i in plt.get_fignums():
        if i not in old:
            plt.close(i)
    plt.close("mine")




def isolation_ops(ctx, mode, nm, grid, mods, names_before):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    drawing = g.chance(0.25)
    if drawing:
        import matplotlib.pyplot as plt

        plt.close("all")
    before = global_state()
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=g.chance(0.7), mode=mode, symbolic=0.8)
    describe(ctx, R)
    ang_store = []
    names = ["t_0", "p_0"] if mode.startswith("mono") else ["t_0", "t_ex", "p_0", "p_ex"]
    (R.set_monostatic if mode.startswith("mono") else R.set_bistatic)()
    for k in names:
        v = np.array(g.angle(k, grid, 0.2))
        ang_store.append((k, v, v.copy()))
        R.set_geometry(**{k: v})
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid, scalar=0.2)
    p_in = {k: np.array(v) for k, v in p.items()}
    p_copy = {k: v.copy() for k, v in p_in.items()}
    for v in (*p_in.values(), *(a[1] for a in ang_store)):
        if g.chance(0.5):
            v.flags.writeable = False
    ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())))
    first = R.calc(**p_in)
    base = first.copy()
    keys = jac_keys(ctx, R)
    jac = R.jacobian(param_list=keys)
    jbase = [np.array(j) for j in jac]
    for _ in range(2):
        same = [same_values(a, b) for a, b in zip(
            R.jacobian(), R.jacobian(param_list=["omega", "tau", "NormBRDF"]))]
        ctx.check("the default list of parameters is not modified", same == [True] * 3
                  and len(R.jacobian()) == 3, got=len(R.jacobian()))
    comp = {k: getattr(R, k)() for k in ("surface", "volume")}
    cbase = {k: np.array(v) for k, v in comp.items()}
    # ------------------------------------------------------------------ inputs untouched
    for k, v in p_in.items():
        ctx.check("parameter-arrays are not modified", np.array_equal(v, p_copy[k])
                  and v.shape == p_copy[k].shape, name=k)
    for k, v, c in ang_store:
        ctx.check("angle-arrays are not modified", np.array_equal(v, c), name=k)
    # ----------------------------------------------- returned values are independent
    for x in (first, *jac, *comp.values()):
        x = np.asarray(x)
        if x.flags.writeable and x.ndim:
            x[...] = -77.0
    ctx.check("modified results do not affect the model",
              same_values(R.calc(), base))
    for j, jb in zip(R.jacobian(param_list=keys), jbase):
        ctx.check("modified jacobians do not affect the model",
                  same_values(j, jb))
    for k, v in cbase.items():
        ctx.check("modified contributions do not affect the model",
                  same_values(getattr(R, k)(), v))
    for q in gen.QUANT:
        v = getattr(R, q)
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and not isinstance(
                mon.shadow(R).defs[q], np.ndarray):
            v = np.array(v, copy=True)
    # --------------------------------------------------------- independent instances
    O = fresh_like(ctx, R, same_parts=g.chance(0.6))
    O.calc()
    for _ in range(4):
        ctx.note(apply_random_op(ctx, O, grid))
    complete_state(ctx, O, grid)
    O.calc()
    if mon.shadow(O).int_Q is True and g.chance(0.5):
        O.interaction()
    ctx.check("other models do not affect the model",
              same_values(R.calc(), base), got=str(R.calc()),
              expected=str(base))
    N = rt1.RT1(V=R.V, SRF=R.SRF)
    ctx.check("new models start with default parameters only",
              set(N.param_dict) <= {"bsf"}, got=str(N.param_dict))
    # ----------------------------------------------- mutable arguments of distributions
    sh = mon.shadow(R)
    for o, spec in ((R.V, sh.V), (R.SRF, sh.SRF)):
        P = {k: np.array(sh.P[k]) for k in ref.spec_symbols(spec)}
        Pc = {k: v.copy() for k, v in P.items()}
        args = [np.array(g.angle(k, grid)) for k in ("t_0", "t_ex", "p_0", "p_ex")]
        ac = [a.copy() for a in args]
        o.calc(*args, param_dict=P)
        ctx.check("arguments of scattering functions are not modified",
                  list(P) == list(Pc) and all(np.array_equal(P[k], Pc[k]) for k in P)
                  and all(np.array_equal(a, b) for a, b in zip(args, ac)))
    # ---------------------------------------------------------- no global side-effects
    used = set(sh.P) | set(gen.NAMES)
    for n, m in mods.items():
        new = (set(vars(m)) - names_before[n]) & used
        ctx.check("parameter-names do not leak into modules", not new, module=n,
                  names=str(new))
    R.dB, R.sig0 = not R.dB, g.chance(0.5)
    R.calc()
    R.jacobian(param_list=keys)
    if g.chance(0.5):
        try:  # a rejected call
            R.calc(t_unknown_angle=1) if g.chance(0.5) else R.jacobian(param_list=["nope"])
        except Exception:
            pass
    if g.chance(0.3):
        copy.deepcopy(R).calc()
    if drawing:
        draw_something(ctx, R)
    after = global_state()
    for k in before:
        ctx.check(f"global settings are unchanged: {k}", before[k] == after[k],
                  got=str(after[k])[:300], expected=str(before[k])[:300])


CHECKS["C18"] = dict(
    case=isolation_case, judge=("C18",), n=dict(quick=220, thorough=2500),
    rule="random models with (partly read-only) input arrays; inputs must stay untouched, "
    "overwriting returned arrays and operating other models (sharing the scattering "
    "functions) must not change any result, and no global state may change; distinct by "
    "model, shapes and operations on the other model")


# --------------------------------------------------------------------- C25 concurrency
def thread_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.25)
    n_thr = int(ctx.rng.integers(2, 7))
    share = g.chance(0.6)
    grid = g.grid()
    models, jobs = [], []
    V = S = None
    for i in range(n_thr):
        mode = g.pick(["mono", "mono_f", "bi"])
        if V is None or not share:
            R, _ = gen.build(g, mon, nV=2, nS=2, int_Q=g.chance(0.6), mode=mode,
                             units=(g.chance(0.5), False))
            V, S = R.V, R.SRF
        else:
            R = rt1.RT1(V=V, SRF=S, int_Q=g.chance(0.6), dB=False)
            for q in gen.QUANT:
                d = g.definition(q)
                if d is not None:
                    setattr(R, q, d)
        gen.set_geom(g, R, mode, grid)
        sh = mon.shadow(R)
        dyn = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
               if k not in sh.fixed]
        steps = []
        for _ in range(int(ctx.rng.integers(4, 9))):
            geom = {k: g.angle(k, grid) for k in dyn if g.chance(0.8)}
            steps.append((geom, gen.params_for(g, mon, R, grid), jac_keys(ctx, R),
                          g.pick(["calc", "surface", "volume", "jacobian", "tau"])))
        models.append(R)
        jobs.append(steps)
    describe(ctx, models[0])
    ctx.note("threads", n_thr, "share", share)

    src = os.path.dirname(os.path.abspath(rt1.__file__))
    p_yield = g.pick([0.0, 0.02, 0.1, 0.3])
    seeds = ctx.rng.integers(1, 2**31, size=n_thr)
    forced = [0] * n_thr
    ctx.note("p_yield", p_yield)

    def preempt(tid):
        """hand over to other threads at random lines of the monitored code"""
        state = [int(seeds[tid])]

        def local(frame, event, arg):
            if event == "line":
                state[0] = (state[0] * 1103515245 + 12345) % 2**31
                if state[0] / 2**31 < p_yield:
                    forced[tid] += 1
                    time.sleep(0 if state[0] & 1024 else 2e-5)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                return local

        return trace

    def work(R, steps, out, order, tid, barrier):
        try:
            barrier.wait(60)
            if p_yield and barrier.parties > 1:
                sys.settrace(preempt(tid))
            for geom, p, keys, what in steps:
                if geom:
                    R.set_geometry(**geom)
                order.append(tid)
                R.update_params(**p)
                r = [np.array(R.calc())]
                if what == "jacobian":
                    r += [np.array(j) for j in R.jacobian(param_list=keys)]
                elif what == "tau":
                    r += [np.array(R.tau), np.array(R.omega)]
                elif what != "calc":
                    r += [np.array(getattr(R, what)())]
                order.append(tid)
                out.append(r)
        except Exception as ex:  # judged below
            out.append(ex)
        finally:
            sys.settrace(None)

    def run_all(ms, threads):
        outs, order = [[] for _ in ms], []
        if threads:
            bar = threading.Barrier(len(ms))
            ths = [threading.Thread(target=work, args=(m, j, o, order, i, bar))
                   for i, (m, j, o) in enumerate(zip(ms, jobs, outs))]
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                for t in ths:
                    t.start()
                for t in ths:
                    t.join(120)
            finally:
                sys.setswitchinterval(old)
            if any(t.is_alive() for t in ths):
                raise RuntimeError("threads did not finish")
        else:
            bar = threading.Barrier(1)
            for i, (m, j, o) in enumerate(zip(ms, jobs, outs)):
                work(m, j, o, order, i, bar)
        return outs, order

    # fresh models for the sequential reference
    with mon.muted():
        seq_models = []
        for R in models:
            sh = mon.shadow(R)
            seq_models.append(sh)
    refs = [fresh_like(ctx, R, same_parts=share) for R in models]
    mon.tl.depth = 1  # (only record the concurrent execution)
    try:
        exp, _ = run_all(refs, False)
    finally:
        mon.tl.depth = 0
    for e in exp:
        for r in e:
            if isinstance(r, Exception):
                raise r
    got, order = run_all(models, True)
    switches = sum(a != b for a, b in zip(order[:-1], order[1:]))
    mon.counts["thread switches between observed steps"] += switches
    mon.counts["injected preemptions inside of the monitored code"] += sum(forced)
    ctx.note("switches", switches, "order", hash(tuple(order)) % 10**6)
    if switches < n_thr:
        ctx.nontrivial = False
    for i, (a, b) in enumerate(zip(got, exp)):
        for k, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, Exception):
                ctx.fail(f"concurrent use failed with {type(x).__name__}: {x}", thread=i,
                         step=k)
            for u, v in zip(x, y):
                ctx.same("concurrent equals sequential evaluation", u, v, rtol=1e-10,
                         atol=1e-13)
        ctx.check("all steps were executed", len(a) == len(b))


CHECKS["C25"] = dict(
    case=thread_case, judge=(), n=dict(quick=150, thorough=1500),
    rule="2-6 threads (switch-interval 1e-5 s, common start-barrier, random preemptions "
    "injected at lines of the monitored code) operate their own model "
    "(optionally sharing the scattering functions) and every returned value is compared with "
    "a sequential execution of the same steps; non-trivial: at least as many observed "
    "thread-switches as threads; distinct by model and observed interleaving",
    assumptions=["the backend is not switched concurrently"])


# ------------------------------------------------------------------ C26 re-use of fn
def reuse_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.2)
    mode = g.pick(["mono", "mono_f", "bi", "bi", "bi_f"])
    nm = smax(ctx, mode)
    grid = g.grid()
    R, _ = gen.build(g, mon, nV=nm, nS=nm, int_Q=True, mode=mode, symbolic=0.8,
                     units=(g.chance(0.5), False))
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    R.calc(**gen.params_for(g, mon, R, grid))
    sh = mon.shadow(R)
    how = g.pick(["fn", "fnevals", "both"])
    ctx.note(how)
    kw = {}
    if how in ("fn", "both"):
        kw["fn_input"] = R._fn
    if how in ("fnevals", "both"):
        kw["fnevals_input"] = R._fnevals
        if how == "both":
            # "fn-coefficients have no effect once fnevals functions are provided"
            kw["fn_input"] = [0 * i for i in R._fn]
    N = rt1.RT1(V=R.V, SRF=R.SRF, sig0=sh.sig0, dB=sh.dB, I0=sh.I0, **kw)
    for q, d in sh.defs.items():
        setattr(N, q, d)
    if sh.mono:
        N.set_monostatic(**sh.fixed)
        dyn = [k for k in ("t_0", "p_0") if k not in sh.fixed]
    else:
        N.set_bistatic(**sh.fixed)
        dyn = [k for k in ("t_0", "t_ex", "p_0", "p_ex") if k not in sh.fixed]
    if dyn:
        N.set_geometry(**{k: sh.ang[k] for k in dyn})
    N.update_params(**sh.P)
    compare_models(ctx, "re-used coefficients give the same results", N, R)

    def independent():
        exp = mon.expected(N, ("interaction",))
        mon.compare("C26", "interaction with re-used coefficients", lin(N, N.interaction()),
                    exp["interaction"], rtol=1e-7, atol=exp["noise"])

    if not R.dB:
        independent()
    # different parameters and angles
    for _ in range(2):
        p = gen.params_for(g, mon, R, grid)
        geom = {k: g.angle(k, grid) for k in dyn}
        for M in (R, N):
            if geom:
                M.set_geometry(**geom)
            M.update_params(**p)
        compare_models(ctx, "re-used coefficients with other parameters", N, R, expand=True)
        if not R.dB and g.chance(0.5):
            independent()
    if how == "fn" and (sh.mono or not sh.fixed):
        # provided coefficients are used instead of evaluating them again
        D = rt1.RT1(V=R.V, SRF=R.SRF, sig0=sh.sig0, dB=sh.dB, I0=sh.I0,
                    fn_input=[2 * i for i in R._fn])
        for q, d in sh.defs.items():
            setattr(D, q, d)
        D.set_monostatic(**sh.fixed) if sh.mono else D.set_bistatic(**sh.fixed)
        if dyn:
            D.set_geometry(**geom)
        D.update_params(**sh.P)
        ref_i = np.asarray(R.interaction())
        ctx.same("provided coefficients are used", D.interaction(), 2 * ref_i, rtol=1e-9,
                 atol=1e-13 * float(np.max(np.abs(ref_i), initial=0)))
    if g.chance(0.3):
        N.int_Q = False
        ctx.check("no interaction-row if int_Q is disabled", N.calc().shape[0] == 3)


CHECKS["C26"] = dict(
    case=reuse_case, judge=(), n=dict(quick=240, thorough=2500),
    rule="coefficients (symbolic and/or compiled) of an evaluated random model are passed to "
    "a new model and all results are compared for several parameters and geometries; distinct "
    "by model, geometry and kind of re-used input")
