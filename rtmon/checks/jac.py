"""Checks of the derivatives (jacobian) and of the layout for parameter-retrievals."""
import numpy as np

from .. import gen, ref
from ..monitor import short
from ..runner import Skip
from .values import RULE, describe, geom_sig, vary_units

CHECKS = {}


def all_keys(ctx, R):
    sh = ctx.mon.shadow(R)
    return [str(k) for k in ctx.rng.permutation(sorted(sh.required() | set(gen.QUANT)))]


# ------------------------------------------------------------------------------- C09 values
def jacobian_case(ctx):
    g, mon = ctx.g, ctx.mon
    g.p_zero = 0.12
    g.zeros = g.chance(0.3)
    ctx.backend(0.3)
    g.shared = 0.25
    g.names = g.names[: int(ctx.rng.integers(1, 5))]  # (few names -> shared parameters)
    grid = g.grid()
    I0 = g.pick([1.0, 2.5, 0.3, np.array([1.7]), g.arr(0.3, 3.0, grid, 0.0)])
    R, mode = gen.build(g, mon, nV=6, nS=6, int_Q=False, I0=I0, symbolic=0.75)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())))
    if g.chance(0.5):
        R.calc(**p)
    else:
        R.update_params(**p)
    R.jacobian(param_list=all_keys(ctx, R))
    for _ in range(5):
        step = g.pick(["params", "params", "geom", "geom", "units", "units", "mode", "def",
                       "default", "extra"])
        ctx.note(step)
        if step == "params":
            R.update_params(**gen.next_params(g, mon, R, grid))
        elif step == "geom":
            gen.next_geom(g, mon, R, grid)
        elif step == "units":
            vary_units(g, R)
        elif step == "mode":
            gen.set_geom(g, R, g.pick(["mono", "mono_f", "bi", "bi_f"]), grid)
        elif step == "def":
            q = g.pick(gen.QUANT)
            d = g.definition(q)
            setattr(R, q, q if d is None else d)
            R.update_params(**gen.params_for(g, mon, R, grid))
        elif step == "extra":
            # parameters that are not used do not contribute
            R.update_params(unused=0.3)
            with np.errstate(all="ignore"):
                (j,) = R.jacobian(param_list=["unused"])
            ctx.check("unused parameters have no effect", not np.any(np.nan_to_num(j)), got=short(j))
        if step == "default":
            R.jacobian()
        keys = all_keys(ctx, R)
        with np.errstate(all="ignore"):
            R.jacobian(param_list=keys[: int(ctx.rng.integers(1, len(keys) + 1))])
    # the derivatives match the tendencies of the results of the same model
    tendency(ctx, R)


def tendency(ctx, R):
    """Central differences of calc() with respect to one parameter."""
    g, mon = ctx.g, ctx.mon
    sh = mon.shadow(R)
    if sh.int_Q is True:
        R.int_Q = False
    keys = [k for k in sorted(sh.required()) if k in sh.P and k != "bsf"]
    if not keys:
        return
    key = g.pick(keys)
    val = np.array(sh.P[key], dtype=float)
    if key == "tau" and np.any(val < 1e-2):
        return
    h = 1e-5
    with np.errstate(all="ignore"):
        (j,) = R.jacobian(param_list=[key])
        hi = R.calc(**{key: val + h})[0]
        lo = R.calc(**{key: val - h})[0]
        num = (hi - lo) / (2 * h)
        half = (R.calc(**{key: val + h / 2})[0] - R.calc(**{key: val - h / 2})[0]) / h
        R.update_params(**{key: val})
        num = (4 * half - num) / 3
    # (only where the results are smooth at the scale of the step)
    ok = np.isfinite(num) & np.isfinite(j) & (
        np.abs(num - half) <= 1e-4 * np.abs(half) + 1e-9 * np.abs(np.where(
            np.isfinite(hi), hi, 0)) / h)
    if any("CosineLobe" in str(s) for s in (sh.SRF,)):
        # (kinks at the edge of the lobe)
        ok &= np.abs(num - j) < 0.3 * np.abs(j) + 1e-2
    scale = np.max(np.abs(np.where(ok, j, 0)), initial=1e-3)
    base = np.max(np.abs(np.where(np.isfinite(hi), hi, 0)), initial=0)
    mon.compare(ctx.prop, "tendency of the results", np.where(ok, j, 0), np.where(ok, num, 0),
                rtol=2e-4, atol=2e-4 * scale + 1e-9 * base / h * 1e-1, key=key)


CHECKS["C09"] = dict(
    case=jacobian_case, judge=("C09",), n=dict(quick=600, thorough=12000),
    rule=RULE + "; every entry of every jacobian is compared with complex-step derivatives of "
    "an independent model (all parameter-names and quantities) and with central differences "
    "of the returned results")


# ------------------------------------------------------------- C10 layout for least-squares
def setup_retrieval(ctx, well_posed=False):
    g, mon = ctx.g, ctx.mon
    layout = g.pick(["2d", "2d", "2d-inc", "1d"])
    n, m = int(ctx.rng.integers(2, 6)), int(ctx.rng.integers(2, 6))
    if well_posed:
        layout, n, m = "2d", int(ctx.rng.integers(2, 5)), int(ctx.rng.integers(6, 9))
    return layout, n, m


def retrieval_geometry(ctx, R, layout, n, m, mode):
    g, rng = ctx.g, ctx.rng
    lo, hi = 0.25, 1.1
    if layout == "2d":
        t = np.linspace(lo, hi, m)[None] + rng.uniform(-0.05, 0.05, (n, m))
    elif layout == "2d-inc":
        t = np.linspace(lo, hi, m)
    else:
        t = rng.uniform(lo, hi, n)
    if mode == "mono":
        R.set_monostatic(p_0=0.0)
        R.set_geometry(t_0=t)
    else:
        R.set_bistatic(p_0=0.0)
        R.set_geometry(t_0=t, t_ex=0.9 * t + 0.05, p_ex=g.pick([np.pi, 2.5]))


def expected_matrix(ctx, R, keys, dyn, shape, layout):
    sh = ctx.mon.shadow(R)
    model = sh.model()
    cols = []
    for k in keys:
        d, _ = ctx.mon.expected_derivative(sh, model, k)
        if d is None:
            raise Skip("derivative undefined")
        d = np.broadcast_to(d, shape)
        if k in dyn:
            for i in range(shape[0]):
                c = np.zeros(shape)
                c[i] = d[i]
                cols.append(c.ravel())
        else:
            cols.append(d.ravel())
    return np.stack(cols, axis=1)


def layout_case(ctx):
    g, mon, rng = ctx.g, ctx.mon, ctx.rng
    ctx.backend(0.2)
    if ctx.index % 5 == 0:
        return closed_loop(ctx)
    g.shared = 0.2
    R, _ = gen.build(g, mon, nV=4, nS=4, int_Q=False, symbolic=0.9,
                     units=(g.chance(0.5), g.chance(0.4)))
    describe(ctx, R)
    layout, n, m = setup_retrieval(ctx)
    if g.chance(0.2):
        R.I0 = rng.uniform(0.3, 3.0, n if layout == "1d" else g.pick([(n, 1), (n, m)]))
    mode = g.pick(["mono", "bi"])
    retrieval_geometry(ctx, R, layout, n, m, mode)
    req = sorted(mon.shadow(R).required())
    shape = (n,) if layout == "1d" else (n, m)
    if not req:
        raise Skip("no parameters")
    dyn = {k for k in req if g.chance(0.45)}
    if not dyn and layout == "2d-inc":
        dyn = {g.pick(req)}
    p = {}
    for k in req:
        lo, hi = (0.05, 1.2) if k == "tau" else (0.06, 0.59)
        if k in dyn:
            p[k] = dynamic_values(ctx, lo, hi, n if layout == "1d" else (n, 1))
        else:
            p[k] = float(rng.uniform(lo, hi))
            if g.chance(0.3):
                p[k] = np.array([p[k]])
    res = R.calc(**p)
    keys = [str(k) for k in rng.permutation(req)]
    keys = keys[: int(rng.integers(1, len(keys) + 1))]
    ctx.note(layout, n, m, mode, "dyn", *[k in dyn for k in keys])
    if res.shape[1:] != shape:
        raise Skip("results do not depend on all dimensions")
    check_matrix(ctx, R, keys, dyn, shape, layout)
    # changed units, values and order of the parameters
    vary_units(g, R)
    keys = [str(k) for k in rng.permutation(keys)]
    k = keys[0]
    R.update_params(**{k: np.asarray(p[k]) * 0.9 if g.chance(0.5) or k not in dyn
                       else np.full(np.shape(p[k]), 0.31)})
    check_matrix(ctx, R, keys, dyn, shape, layout)


def dynamic_values(ctx, lo, hi, shape):
    """Values of a parameter for each observation (that do not necessarily differ)."""
    v = ctx.rng.uniform(lo, hi, shape)
    k = int(ctx.rng.integers(6))
    if k == 0:
        v[...] = v.flat[0]
    elif k == 1:
        v[-1] = v[0]
    elif k == 2:
        v[...] = np.sort(v, axis=None).reshape(v.shape)
    return v


def check_matrix(ctx, R, keys, dyn, shape, layout):
    J = R.jacobian(param_list=list(keys), format="scipy_least_squares")
    exp = expected_matrix(ctx, R, keys, dyn, shape, layout)
    got = J.toarray() if hasattr(J, "toarray") else np.asarray(J)
    ctx.check("sparse jacobian: rows = measurements, columns = parameter-values",
              got.shape == exp.shape, got=got.shape, expected=exp.shape)
    scale = np.abs(exp).max(axis=0, initial=1e-3)
    ctx.same("sparse jacobian", got, exp, rtol=1e-7, atol=1e-9 * scale[None])
    # the list-format represents the same derivatives
    L = R.jacobian(param_list=list(keys), format="list")
    col = 0
    for k, j in zip(keys, L):
        w = shape[0] if k in dyn else 1
        ctx.same("list jacobian equals the sums of the sparse columns",
                 np.asarray(j).ravel(), got[:, col:col + w].sum(axis=1), rtol=1e-10,
                 atol=1e-14)
        col += w
    return got


def closed_loop(ctx):
    """Retrieve known parameters with scipy.optimize.least_squares."""
    from scipy.optimize import least_squares

    g, mon, rt1, rng = ctx.g, ctx.mon, ctx.rt1, ctx.rng
    layout, n, m = setup_retrieval(ctx, True)
    Vt = g.pick([0.3, 0.1, "t_v"])
    V = g.pick([
        lambda: rt1.volume.HenyeyGreenstein(t=Vt, ncoefs=4),
        lambda: rt1.volume.Rayleigh(),
        lambda: rt1.volume.HGRayleigh(t=0.2, ncoefs=4),
    ])()
    S = g.pick([
        lambda: rt1.surface.HenyeyGreenstein(t="t_s", ncoefs=4),
        lambda: rt1.surface.HG_nadirnorm(t="t_s", ncoefs=4),
    ])()
    dB = g.chance(0.4)
    R = rt1.RT1(V=V, SRF=S, int_Q=False, sig0=g.chance(0.6), dB=dB)
    R.omega = g.pick([0.1, "om", 0.3])
    R.tau = g.pick(["tau", "0.3 * x"])
    R.NormBRDF = g.pick(["NormBRDF", "N"])
    describe(ctx, R)
    retrieval_geometry(ctx, R, layout, n, m, g.pick(["mono", "bi"]))
    req = sorted(mon.shadow(R).required())
    # well-posed subset: one dynamic amplitude and up to one static shape parameter
    amp = "NormBRDF" if "NormBRDF" in req else "N"
    fit = [amp] + ([g.pick(["t_s"] + (["tau"] if "tau" in req else []))] if g.chance(0.7)
                   else [])
    fit = [str(i) for i in rng.permutation(fit)]
    dyn = {amp}
    truth = {}
    for k in req:
        lo, hi = {"tau": (0.1, 0.6), "t_s": (0.2, 0.5), "t_v": (0.1, 0.4),
                  "x": (0.5, 1.5)}.get(k, (0.1, 0.5))
        truth[k] = rng.uniform(lo, hi, (n, 1)) if k in dyn else float(rng.uniform(lo, hi))
    data = R.calc(**truth)[0].ravel()
    ctx.note("retrieval", n, m, *fit)
    x_true = np.concatenate([np.ravel(truth[k]) for k in fit])

    def unpack(x):
        out, i = {}, 0
        for k in fit:
            w = n if k in dyn else 1
            out[k] = x[i:i + w].reshape(-1, 1) if k in dyn else float(x[i])
            i += w
        return out

    calls = []

    def fun(x):
        R.update_params(**unpack(x))
        return R.calc()[0].ravel() - data

    def jac(x):
        R.update_params(**unpack(x))
        calls.append(check_matrix(ctx, R, fit, dyn, (n, m), layout))
        return R.jacobian(param_list=fit, format="scipy_least_squares")

    x0 = x_true * rng.uniform(0.8, 1.2, x_true.shape)
    res = least_squares(fun, x0, jac=jac, bounds=(x_true * 0.3, x_true * 2.0 + 1e-3),
                        xtol=1e-13, ftol=1e-13, gtol=1e-13, max_nfev=60, x_scale=x_true)
    mon.oracles[f"{ctx.prop}:retrieval"] += 1
    ctx.check("retrieval used the jacobian", len(calls) > 1)
    cost0 = 0.5 * np.sum(fun(x0) ** 2)
    if not res.cost <= 1e-8 * cost0:
        ctx.fail("retrieval with the jacobian does not recover the parameters",
                 cost=res.cost, start=cost0, x=short(res.x), truth=short(x_true))


CHECKS["C10"] = dict(
    case=layout_case, judge=(), n=dict(quick=260, thorough=4000),
    rule="random models with random subsets and orders of static and per-observation "
    "parameters on 1D and 2D grids; the sparse matrix is compared element by element with "
    "reference-derivatives; every 5th case is a complete retrieval with scipy where each "
    "matrix that is handed to the optimizer is judged and known parameters must be recovered; "
    "distinct by model, layout and parameter-roles")
