"""Checks of the values of the model-contributions."""
import numpy as np

from .. import gen, ref
from ..runner import Skip

CHECKS = {}


def describe(ctx, R):
    """signature of the model"""
    sh = ctx.mon.shadow(R)

    def d(s):
        if s["cls"] == "LinComb":
            return "L(" + ",".join(d(p) for _, p in s["parts"]) + ")"
        sym = "".join(
            "s" if ref.names_in(i) else "c" for i in (s.get("t"),) if i is not None)
        return f"{s['cls']}{sym}{'a' if s.get('a') is not None else ''}{s.get('ncoefs') or ''}"

    ctx.note("V", d(sh.V), "S", d(sh.SRF))
    ctx.note("units", sh.sig0, sh.dB, "int", sh.int_Q)
    ctx.note("defs", *(f"{k}={v}" for k, v in sh.defs.items() if v != k))


def geom_sig(ctx, R):
    sh = ctx.mon.shadow(R)
    ctx.note("geom", "mono" if sh.mono else "bi", *sorted(sh.fixed),
             *(f"{k}{np.shape(v)}" for k, v in sorted(sh.ang.items())))


def vary_units(g, R):
    if g.chance(0.5):
        R.sig0 = not R.sig0
    if g.chance(0.4):
        R.dB = not R.dB
    if g.chance(0.3):
        R.I0 = g.pick([1, 0.5, 3.3])


def closed_form_case(which):
    """Workload for the single-scattering contributions."""

    def case(ctx):
        g, mon = ctx.g, ctx.mon
        g.p_zero = 0.12
        g.zeros = g.chance(0.3)
        ctx.backend(0.3)
        grid = g.grid()
        I0 = g.arr(0.3, 3.0, grid, 0.3) if g.chance(0.2) else None
        R, mode = gen.build(g, mon, nV=6, nS=6, int_Q=False, I0=I0)
        describe(ctx, R)
        gen.set_geom(g, R, mode, grid)
        geom_sig(ctx, R)
        p = gen.params_for(g, mon, R, grid)
        ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())))
        R.calc(**p)
        for _ in range(8):
            step = g.pick(["params", "params", "params", "geom", "geom", "geom", "units",
                           "mode", "def", "layer"])
            if step == "params":
                p = gen.next_params(g, mon, R, grid)
            elif step == "geom":
                gen.next_geom(g, mon, R, grid)
                p = {}
            elif step == "layer":
                # limiting cases of (parts of) the layer
                p = {k: g.arr(0, 0.9, grid, 0.3, special=(0.0, 1.0)) for k in ("bsf", "omega")
                     if k in mon.shadow(R).required() and g.chance(0.7)}
                if "tau" in mon.shadow(R).required():
                    p["tau"] = g.arr(0, 2, grid, 0.3, special=(0.0, 1e-9, 1e-4, 20.0, 200.0))
            elif step == "units":
                vary_units(g, R)
                p = {}
            elif step == "mode":
                gen.set_geom(g, R, g.pick(["mono", "mono_f", "bi", "bi_f"]), grid)
                p = {}
            else:
                q = g.pick(gen.QUANT)
                d = g.definition(q)
                setattr(R, q, q if d is None else d)
                p = gen.params_for(g, mon, R, grid)
            ctx.note(step)
            getattr(R, g.pick([which, which, "calc"]))(**p)
        # limiting cases of the layer
        if g.chance(0.3):
            R.tau = g.pick([0, 0.0, 1e-9, 40.0])
            R.bsf = g.pick([0, 1, 0.5, 1.0])
            ctx.note("limits")
            R.calc(**gen.params_for(g, mon, R, grid))

    return case


RULE = (
    "seeded random model (scattering functions with numeric/symbolic/shared parameters and "
    "generalized scattering angles, linear combinations, definitions of tau/omega/NormBRDF/"
    "bsf), geometry-mode, parameter- and angle-shapes, units and a short history of changes; "
    "non-trivial: finished with all returned values judged; distinct by the signature of "
    "model, definitions, geometry, shapes and steps"
)

CHECKS["C01"] = dict(
    case=closed_form_case("surface"), judge=("C01",), n=dict(quick=700, thorough=14000),
    rule=RULE,
)
CHECKS["C02"] = dict(
    case=closed_form_case("volume"), judge=("C02",), n=dict(quick=700, thorough=14000),
    rule=RULE,
)


def max_weight(tier, mode, backend):
    """Limits for ncoefs (V + SRF) to keep the symbolic expansion affordable."""
    if backend == "sympy":
        return {"mono_f": 6, "mono": 6, "bi": 5, "bi_f": 5}[mode] + (tier == "thorough")
    return {"mono_f": 12, "mono": 9, "bi": 7, "bi_f": 8}[mode] + 2 * (tier == "thorough")


def interaction_case(ctx):
    g, mon = ctx.g, ctx.mon
    g.p_zero = 0.12
    g.zeros = g.chance(0.2)
    backend = ctx.backend(0.15)
    mode = g.pick(["mono", "mono_f", "bi", "bi", "bi_f"])
    if backend == "symengine" and g.chance(0.15):
        return many_coefficients(ctx)
    w = max_weight(ctx.tier, mode, backend)
    nV = int(ctx.rng.integers(1, max(2, min(w - 1, 8) + 1)))
    nS = max(1, min(w - nV, int(ctx.rng.integers(1, 9))))
    grid = g.grid()
    R, _ = gen.build(g, mon, nV=nV, nS=nS, int_Q=True, mode=mode, lincomb=0.15,
                     units=(g.chance(0.5), g.chance(0.2)), symbolic=0.5)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    R.interaction(**gen.params_for(g, mon, R, grid))
    for _ in range(7):
        step = g.pick(["params", "params", "geom", "geom", "geom", "units", "tau", "taus",
                       "special"])
        ctx.note(step)
        p = {}
        if step == "params":
            p = gen.next_params(g, mon, R, grid)
        elif step == "units":
            vary_units(g, R)
        elif step == "taus" and "tau" in mon.shadow(R).required():
            p["tau"] = g.arr(0.0, 2, grid, 0.1,
                             special=(0.0, 0.0, 1e-9, 1e-4, 5.0, 20.0, 200.0))
            if g.chance(0.4):
                p["tau"] = g.tau_range(np.shape(p["tau"]))
        elif step == "tau":
            R.tau = g.pick([0.0, 1e-4, 0.01, 0.3, 8.0, 60.0, 500.0,
                            float(g.tau_range(()))])
        sh = mon.shadow(R)
        if step == "special":
            # grazing / nadir / coinciding directions
            if not sh.mono and not {"t_0", "t_ex"} & set(sh.fixed) and g.chance(0.5):
                v = g.angle("t_0", grid)
                R.set_geometry(t_0=v, t_ex=np.array(v))
                R.interaction()
                continue
            for k in ("t_0",) if sh.mono else ("t_0", "t_ex"):
                if k not in sh.fixed:
                    v = g.pick([0.0, 1e-8, 1e-5, 1e-3, 1.5, 1.56, 0.7])
                    R.set_geometry(**{k: v})
        elif step == "geom":
            gen.next_geom(g, mon, R, grid)
        getattr(R, g.pick(["interaction", "calc"]))(**p)


def many_coefficients(ctx):
    """Numbers of coefficients as used in practice (affordable for fixed azimuth angles)."""
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    total = int(ctx.rng.integers(12, 25 + 6 * (ctx.tier == "thorough")))
    nV = int(ctx.rng.integers(1, total))
    symbolic = g.pick([0.0, 0.0, 1.0]) if total < 15 else 0.0

    def scatter(kind, n):
        mod = rt1.volume if kind == "V" else rt1.surface
        cls = g.pick(["HenyeyGreenstein", "HGRayleigh"] if kind == "V"
                     else ["HenyeyGreenstein", "HG_nadirnorm", "CosineLobe"])
        kw = dict(ncoefs=n)
        if cls == "CosineLobe":
            kw["i"] = int(ctx.rng.integers(1, 12))
        else:
            kw["t"] = (g.pick(g.names) if g.chance(symbolic)
                       else g.uni(0.2, 0.65) * g.pick([1, 1, -1]))
        if g.chance(0.4):
            kw["a"] = [g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)]
        obj = getattr(mod, cls)(**kw)
        if g.chance(0.15):
            obj = mod.LinComb([(g.uni(0.1, 0.9), obj), (0.2, mod.Isotropic())])
        return obj

    R = rt1.RT1(scatter("V", nV), scatter("S", total - nV), sig0=g.chance(0.5), dB=False)
    describe(ctx, R)
    ctx.note("many", nV, total - nV)
    grid = g.pick([(1, 6), (5, 1)])
    R.set_monostatic(p_0=g.pick([0, g.uni(-3, 6)]))
    for _ in range(3):
        R.set_geometry(t_0=g.angle("t_0", grid, 0.1))
        R.interaction(**gen.params_for(g, mon, R, grid))


CHECKS["C03"] = dict(
    case=interaction_case, judge=("C03",), n=dict(quick=320, thorough=2500),
    rule=RULE + "; every returned interaction-value is compared with a numerical "
    "double-bounce integral (composite Gauss quadrature)",
    assumptions=[
        "sum of the number of expansion-coefficients limited (mono <= 12, bistatic <= 8, fixed "
        "monostatic azimuth <= 24; "
        "thorough: + 2) since the noise of the expanded closed-form solution and the run-time "
        "grow exponentially"],
)


def in_units(values, dB):
    """values (and absolute tolerance) in dB, without judging digits that get lost in
    denormalized numbers"""
    if not dB:
        return values, 0.0
    with np.errstate(all="ignore"):
        return 10 * np.log10(values), np.where(np.abs(values) < 1e-290, np.inf, 1e-9)


def assembly_case(ctx):
    g, mon = ctx.g, ctx.mon
    ctx.backend(0.15)
    grid = g.grid()
    int_Q = g.chance(0.75)
    mode = g.pick(["mono_f", "mono", "bi"])
    R, _ = gen.build(g, mon, nV=3, nS=3, int_Q=int_Q, mode=mode,
                     I0=g.pick([1.0, 1, 0.25, 7.5, np.float64(2.0)]))
    if g.chance(0.2):
        R.I0 = g.arr(0.3, 3.0, grid, 0.0)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    p = gen.params_for(g, mon, R, grid)
    ctx.note("P", *(f"{k}{np.shape(v)}" for k, v in sorted(p.items())))
    R.sig0, R.dB = False, False
    base = R.calc(**p)
    mu0 = np.cos(R.t_0)
    seq = [(s, d) for s in (True, False) for d in (True, False)]
    for i in ctx.rng.permutation(4):
        R.sig0, R.dB = seq[i]
        got = R.calc()
        exp = base * (4 * np.pi * mu0 / np.asarray(R.I0)) if seq[i][0] else base
        exp = np.broadcast_to(exp, np.broadcast_shapes(exp.shape, got.shape))
        exp, atol = in_units(exp, seq[i][1])
        ctx.same(f"unit conversion sig0={seq[i][0]} dB={seq[i][1]}", got, exp,
                 rtol=1e-10, atol=atol)
        names = ["surface", "volume"] + (["interaction"] if int_Q else [])
        for k, row in zip(names, got[1:]):
            c = getattr(R, k)()
            try:
                c = np.broadcast_to(c, row.shape)
            except ValueError:
                ctx.fail(f"{k}() has shape {np.shape(c)} but calc-rows {row.shape}")
            ctx.same(f"{k}() equals row of calc()", c, row, rtol=1e-12, atol=0.0)
    # the incident intensity scales intensities, but not sigma0
    old = np.asarray(R.I0)
    R.I0 = g.pick([0.2, 3, np.float64(1.3), g.arr(0.3, 3.0, grid, 0.0)])
    ctx.note("I0", np.shape(R.I0))
    for i in ctx.rng.permutation(4):
        R.sig0, R.dB = seq[i]
        got = R.calc()
        nd = max(map(np.ndim, (base[0], got[0], mu0, old, np.asarray(R.I0))))
        b, got = (i.reshape(len(i), *(1,) * (nd + 1 - i.ndim), *i.shape[1:])
                  for i in (base, got))
        exp = b * (4 * np.pi * mu0 / old) if seq[i][0] else b / old * np.asarray(R.I0)
        exp, atol = in_units(exp, seq[i][1])
        ctx.mon.compare("C04", f"changed I0: sig0={seq[i][0]} dB={seq[i][1]}", got, exp,
                        rtol=1e-10, atol=atol)
    R.sig0, R.dB = False, False
    base = R.calc()
    if int_Q:
        # without interaction: surface and volume are unchanged, total is their sum
        R.sig0, R.dB = False, False
        R.int_Q = False
        got = R.calc()
        ctx.check("3 rows without interaction", got.shape[0] == 3)
        ctx.same("surface/volume rows do not depend on int_Q", got[1:], base[1:3],
                 rtol=1e-12)
        ctx.same("total without interaction", got[0], base[1] + base[2], rtol=1e-12)
        R.int_Q = True
        ctx.same("re-enabled interaction", R.calc(), base, rtol=1e-12)


CHECKS["C04"] = dict(
    case=assembly_case, judge=("C04",), n=dict(quick=400, thorough=4000), rule=RULE)


def g_missing(g, mon, R, grid):
    return {k: g.value(k, grid) for k in mon.shadow(R).missing()}


def param_case(ctx):
    """definitions of tau, omega, NormBRDF and bsf"""
    g, mon = ctx.g, ctx.mon
    g.zeros = g.chance(0.2)
    ctx.backend(0.4)
    grid = g.grid()
    R, mode = gen.build(g, mon, nV=2, nS=2, int_Q=False, symbolic=0.4)
    gen.set_geom(g, R, mode, grid)
    describe(ctx, R)
    import sympy as sp

    for step in range(5):
        qs = [str(i) for i in ctx.rng.permutation(gen.QUANT)]
        extra = list(gen.QUANT) if g.chance(0.2) else []
        for q in qs[:1] if step and g.chance(0.4) else qs:
            r = ctx.rng.random()
            if r < 0.25:
                continue
            if r < 0.35:
                d = q
            elif r < 0.5:
                d = g.pick([0.3, 1, np.float64(0.2), "0.25", sp.Float(0.4), sp.Integer(0)
                            if q == "bsf" else sp.Rational(1, 3), "1/3", "sqrt(0.2)"])
            else:
                ex = [g.expr(0.95, 0.2, gen.QUANT) for _ in range(2)]
                d = g.pick([str(ex[0]), f"({ex[0]}) * ({ex[1]})",
                            f"0.1 + ({ex[0]}) ** 2 / (1 + {ex[1]})",
                            f"exp(-({ex[0]})) * ({ex[1]})"])
                if g.chance(0.25):
                    d = sp.parse_expr(d, local_dict={
                        k: sp.Symbol(k) for k in (*gen.NAMES, *gen.QUANT)})
            now = mon.shadow(R).P.get(q)
            if now is not None and np.size(now) == 1 and g.chance(0.2):
                d = float(np.ravel(now)[0])  # (keeps its value, whatever is passed for q)
                extra.append(q)
            ctx.note(f"{q}={d}")
            setattr(R, q, d)
            if g.chance(0.15):
                R.calc(**g_missing(g, mon, R, grid))
        p = (gen.next_params if step else gen.params_for)(g, mon, R, grid)
        for k in mon.shadow(R).missing() - set(p):
            p[k] = g.value(k, grid)
        if g.chance(0.3):
            p["unused_param"] = g.arr(0, 1, grid)
        if extra:
            q = g.pick(extra)  # (maybe defined otherwise)
            p[q] = g.value(q, grid)
        keys = [str(k) for k in ctx.rng.permutation(sorted(p))]
        p = {k: p[k] for k in keys}
        if g.chance(0.5):
            R.update_params(**p)
        else:
            R.calc(**p)
        mon.check_params(R)
        # stored parameter-values
        for k, v in p.items():
            ctx.check("stored value of a parameter", k in R.param_dict)
            ctx.same(f"stored value of {k}", np.asarray(R.param_dict[k], dtype=float),
                     np.asarray(np.atleast_1d(v), dtype=float), rtol=0)
        # the used values are the defined ones
        sh = mon.shadow(R)
        m = sh.model(linear=True)
        R.dB = False
        got = R.calc()
        exp = m.convert(m.surface()), m.convert(m.volume())
        mon.compare("C15", "surface with defined quantities", got[1], exp[0], rtol=1e-9,
                    atol=1e-14)
        mon.compare("C15", "volume with defined quantities", got[2], exp[1], rtol=1e-9,
                    atol=1e-13)
        if g.chance(0.7):
            # (and their derivatives correspond to the current definitions)
            mon.check_derivatives(R, "C15", "derivative with defined quantities",
                                  sorted(sh.required() | set(gen.QUANT)))


CHECKS["C15"] = dict(
    case=param_case, judge=("C15",), n=dict(quick=450, thorough=5000),
    rule="random definitions (names, numbers, numeric strings, expressions of own/shared "
    "symbols, sympy-objects) are (re-)assigned in random order to tau/omega/NormBRDF/bsf, "
    "values are provided in random order with unused ones mixed in; the readable quantities, "
    "the stored parameters and the effect on the contributions are compared with an "
    "independent evaluation of the expression; distinct by the sequence of definitions")


# --------------------------------------------------------------------------- limits (C19)
def limits_case(ctx):
    g, mon = ctx.g, ctx.mon
    ctx.backend(0.15)
    mode = g.pick(["mono_f", "mono", "bi", "bi_f"])
    g.shared = 0.0
    nmax = {"mono_f": 5, "mono": 4, "bi": 3, "bi_f": 3}[mode]
    if ctx.rt1.get_lambda_backend() == "sympy":
        nmax = 2
    R, _ = gen.build(g, mon, nV=nmax, nS=nmax, int_Q=True, mode=mode, units=(True, False),
                     defs=False, lincomb=0.1, symbolic=0.3, a=None)
    n = int(ctx.rng.integers(2, 9))
    grid = (1, n)
    gen.set_geom(g, R, mode, grid, scalar=0.0)
    sh = mon.shadow(R)
    ang = {}
    special = [0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.5, 1.2, 1.5, 1.55, 1.5707, np.pi / 2 - 1e-9]
    for k in ("t_0",) if sh.mono else ("t_0", "t_ex"):
        if k not in sh.fixed:
            ang[k] = ctx.rng.choice(special, size=n)
    if ang:
        R.set_geometry(**ang)
    base = gen.params_for(g, mon, R, (1, 1), scalar=1.0)
    taus = [0.0, 1e-300, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 10.0, 60.0, 300.0, 800.0, 1e4]
    base["tau"] = ctx.rng.choice(taus, size=n)
    base["omega"] = ctx.rng.choice([0.0, 1e-9, 0.3, 1.0], size=n)
    base["NormBRDF"] = ctx.rng.choice([0.0, 1e-6, 0.3, 1.0], size=n)
    base["bsf"] = ctx.rng.choice([0.0, 0.0, 0.5, 1.0], size=n)
    describe(ctx, R)
    geom_sig(ctx, R)
    ctx.note("tau", *base["tau"], "ang", *(str(v.tolist()) for v in ang.values()))
    res = R.calc(**base)
    P = {k: np.broadcast_to(np.atleast_1d(v), (n,)) for k, v in base.items()}
    tau, om, nb, bsf = (P[k] for k in ("tau", "omega", "NormBRDF", "bsf"))
    res = res.reshape(4, n)
    det = dict(result=str(res), params=str(P), angles=str(ang))
    ctx.check("all contributions are finite", bool(np.isfinite(res).all()), **det)
    # (the grid of the reference resolves neither layers nor angles beyond these limits)
    mu = np.minimum(*(np.broadcast_to(np.cos(i), (1, n))[0] for i in (R.t_0, R.t_ex)))
    ok = (mu > 1e-4) & ((tau == 0) | (tau >= 1e-6))
    exp = mon.expected(R)
    for name, got in zip(("surface", "volume", "interaction"), res[1:]):
        e = np.broadcast_to(exp[name], (1, n))[0]
        tol = np.broadcast_to(exp["noise"] if name == "interaction" else 1e-15 * np.abs(e), (1, n))
        use = ok | (name != "interaction")
        ctx.same(f"value of the {name} in the limits", np.where(use, got, 0), np.where(use, e, 0),
                 rtol=1e-7 if name == "interaction" else 1e-9,
                 atol=tol[0] + (1e-14 if name == "volume" else 1e-18), **det)
    vn = bool(np.all(res[1] >= 0) and np.all(res[2] >= 0))
    ctx.check("surface and volume contributions are not negative", vn, **det)
    z = tau == 0
    ctx.check("no volume/interaction without a layer (tau=0)",
              bool(np.all(res[2:, z] == 0)), **det)
    z = om == 0
    ctx.check("no volume/interaction without scattering (omega=0)",
              bool(np.all(res[2:, z] == 0)), **det)
    z = nb == 0
    ctx.check("no surface/interaction without a reflecting surface",
              bool(np.all(res[1, z] == 0) and np.all(res[3, z] == 0)), **det)
    z = bsf == 1
    ctx.check("bare soil only (bsf=1) has no volume/interaction",
              bool(np.all(res[2:, z] == 0)), **det)
    # bare soil: bsf=1 and tau=0 are the same
    bare = R.calc(**{**base, "bsf": 1.0, "tau": 0.7})
    zero = R.calc(**{**base, "bsf": 0.0, "tau": 0.0})
    ctx.same("bsf=1 equals tau=0", bare, np.broadcast_to(zero, bare.shape), rtol=1e-12)
    both = R.calc(**base)
    ctx.check("surface signal is attenuated by the layer",
              bool(np.all(both.reshape(4, n)[1] <= bare.reshape(4, -1)[1] * (1 + 1e-12))),
              **det)
    # monotonous saturation of the volume-contribution
    lo = R.calc(**{**base, "tau": 0.4, "bsf": 0.0})[2]
    hi = R.calc(**{**base, "tau": 0.9, "bsf": 0.0})[2]
    ctx.check("volume contribution increases with tau",
              bool(np.all(hi >= lo * (1 - 1e-12))), lo=str(lo), hi=str(hi), **det)
    # linear in omega / NormBRDF / (1 - bsf)
    a = R.calc(**{**base, "tau": 0.4, "bsf": 0.2, "omega": 0.2, "NormBRDF": 0.3})
    b = R.calc(**{**base, "tau": 0.4, "bsf": 0.2, "omega": 0.6, "NormBRDF": 0.3})
    c = R.calc(**{**base, "tau": 0.4, "bsf": 0.2, "omega": 0.2, "NormBRDF": 0.9})
    d = R.calc(**{**base, "tau": 0.4, "bsf": 0.6, "omega": 0.2, "NormBRDF": 0.3})
    ctx.same("volume is linear in omega", b[2], 3 * a[2], rtol=1e-10)
    ctx.same("interaction is linear in omega", b[3], 3 * a[3], rtol=1e-10)
    ctx.same("surface does not depend on omega", b[1], a[1], rtol=1e-12)
    ctx.same("surface is linear in NormBRDF", c[1], 3 * a[1], rtol=1e-10)
    ctx.same("interaction is linear in NormBRDF", c[3], 3 * a[3], rtol=1e-10)
    ctx.same("volume does not depend on NormBRDF", c[2], a[2], rtol=1e-12)
    ctx.same("volume scales with 1 - bsf", d[2], a[2] / 2, rtol=1e-10)
    ctx.same("interaction scales with 1 - bsf", d[3], a[3] / 2, rtol=1e-10)


CHECKS["C19"] = dict(
    case=limits_case, judge=(), n=dict(quick=400, thorough=3500),
    rule="random models evaluated at mixtures of extreme geometries (nadir ... grazing), "
    "optical depths (0 ... 1e4) and limiting parameter values; distinct by model, geometry "
    "and the drawn limits",
    assumptions=["scattering functions with the standard scattering angle and non-negative "
                 "weights", "angles below 90 deg"])


# ------------------------------------------------------------------------ symmetries (C20)
def symmetry_case(ctx):
    g, mon = ctx.g, ctx.mon
    ctx.backend(0.1)
    grid = (1, int(ctx.rng.integers(1, 5)))
    n = grid[1]
    y = g.uni(-1, 1)
    a = g.pick(["random", None, "random", None, (g.uni(-1, 1), y, y)])
    R, _ = gen.build(g, mon, nV=3, nS=3, int_Q=True, mode="bi", units=(False, False), a=a)
    describe(ctx, R)
    sh = mon.shadow(R)
    p = gen.params_for(g, mon, R, grid)
    ang = dict(
        t_0=ctx.rng.uniform(0, 1.4, n), t_ex=ctx.rng.uniform(0, 1.4, n),
        p_0=ctx.rng.uniform(-3, 6, n), p_ex=ctx.rng.uniform(-3, 6, n))
    R.set_bistatic()

    def val(**kw):
        R.set_geometry(**{**ang, **kw})
        return np.array(R.calc(**p))

    base = val()
    geom_sig(ctx, R)
    tol = dict(rtol=1e-8, atol=1e-9 * float(np.max(np.abs(base))))
    # reciprocity: I / cos(t_0) is symmetric with respect to interchanged directions
    swap = val(t_0=ang["t_ex"], t_ex=ang["t_0"], p_0=ang["p_ex"], p_ex=ang["p_0"])
    ctx.same("reciprocity", base / np.cos(ang["t_0"]), swap / np.cos(ang["t_ex"]), **tol)
    if g.chance(0.6):
        # the same for (partly) fixed angles
        i = int(ctx.rng.integers(n))
        names = ["t_0", "t_ex", "p_0", "p_ex"]
        one = {k: float(v[i]) for k, v in ang.items()}
        rev = dict(zip(names, (one["t_ex"], one["t_0"], one["p_ex"], one["p_0"])))
        for geom, exp, what in ((one, base, "forward"), (rev, swap, "reversed")):
            fixed = [str(k) for k in ctx.rng.permutation(names)[: int(ctx.rng.integers(1, 5))]]
            ctx.note("fixed", *sorted(fixed))
            R.set_bistatic(**{k: geom[k] for k in fixed})
            if len(fixed) < 4:
                R.set_geometry(**{k: v for k, v in geom.items() if k not in fixed})
            got = np.array(R.calc(**p))
            sel = np.broadcast_to(exp, (*exp.shape[:-1], n))[..., i:i + 1]
            try:
                got = np.broadcast_to(got, sel.shape)
            except ValueError:  # (elements of the parameters along the same axis)
                got = got[..., i:i + 1]
            ctx.same(f"reciprocity with fixed angles ({what})", got, sel, **tol)
        R.set_bistatic()
    # full rotations
    k = ctx.rng.integers(-2, 3, size=2)
    ctx.same("2 pi periodicity", val(p_0=ang["p_0"] + 2 * np.pi * k[0],
                                     p_ex=ang["p_ex"] + 2 * np.pi * k[1]), base, **tol)
    # mirror symmetry
    ctx.same("mirror symmetry of the azimuth",
             val(p_0=-ang["p_0"], p_ex=-ang["p_ex"]), base, **tol)
    # rotation by 180 deg
    ctx.same("rotation by 180 deg",
             val(p_0=ang["p_0"] + np.pi, p_ex=ang["p_ex"] + np.pi), base, **tol)

    def iso(spec):
        if spec["cls"] == "LinComb":
            return all(iso(s) for _, s in spec["parts"])
        av = ref.default_a(spec)
        return spec["cls"] == "Isotropic" or av[1] == av[2]

    if iso(sh.V) and iso(sh.SRF):
        d = g.uni(-6, 6)
        ctx.note("rotation")
        ctx.same("azimuthal rotation", val(p_0=ang["p_0"] + d, p_ex=ang["p_ex"] + d), base,
                 **tol)
    if a is None:
        # zenith direction: azimuth has no effect
        z = val(t_ex=0.0)
        ctx.same("azimuth has no effect for nadir directions",
                 val(t_ex=0.0, p_ex=ang["p_ex"] + 1.1), z,
                 rtol=1e-8, atol=1e-9 * float(np.max(np.abs(z))))


CHECKS["C20"] = dict(
    case=symmetry_case, judge=(), n=dict(quick=320, thorough=3000),
    rule="random bistatic models (incl. interaction); the real code is evaluated for "
    "transformed geometries (interchanged directions, full rotations, mirrored azimuths, "
    "rotations) and the results are compared; distinct by model and shapes")
