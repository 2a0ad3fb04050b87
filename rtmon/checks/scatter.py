"""Checks of the scattering distribution functions."""
import numpy as np

from .. import gen, ref
from ..monitor import short
from ..runner import Skip
from .state import make_scatter

CHECKS = {}
ANG = ("t_0", "t_ex", "p_0", "p_ex")


def sig(spec):
    if spec["cls"] == "LinComb":
        return "L(" + ",".join(f"{w}*{sig(p)}" for w, p in spec["parts"]) + ")"
    return f"{spec['kind']}.{spec['cls']}({spec.get('t', spec.get('i', ''))};{spec.get('a')})"


def angles(g, grid, scalar=0.4):
    return [np.array(g.angle(k, grid, scalar)) for k in ANG]


def params(g, spec, grid, scalar=0.4):
    return {k: np.asarray(g.value(k, grid, scalar)) for k in sorted(ref.spec_symbols(spec))}


# ------------------------------------------------------------------------------- C11 values
def values_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    backend = ctx.backend(0.4)
    grid = g.grid()
    kind = g.pick(["V", "S"])
    obj = g.scatter(kind, 6, lincomb=0.3, symbolic=0.6)
    if g.chance(0.25):
        # extreme (but valid) asymmetry
        cls = g.pick(["HenyeyGreenstein", "HGRayleigh"] if kind == "V"
                     else ["HenyeyGreenstein", "HG_nadirnorm"])
        mod = rt1.volume if kind == "V" else rt1.surface
        obj = getattr(mod, cls)(t=g.pick([-0.95, 0.9, 0.0, 1e-7, -1e-4, 0.02, "t"]), ncoefs=3)
    spec = mon.specs[id(obj)]
    ctx.note(sig(spec))
    for _ in range(5):
        a = angles(g, grid)
        P = params(g, spec, grid)
        if "t" in P and g.chance(0.3):
            P["t"] = P["t"] * g.pick([-1.0, 1e-6, 0.0, 1.4])
        keys = [str(k) for k in ctx.rng.permutation(sorted(P))]
        P = {k: P[k] for k in keys}
        if g.chance(0.3):
            P = {"zzz": 0.3, **P}
        if g.chance(0.2):
            P = {**P, "unused": np.ones(grid)}
        ctx.note(*(np.shape(i) for i in a), *(f"{k}{np.shape(v)}" for k, v in P.items()))
        res = obj.calc(*a, param_dict=P)
        full = np.broadcast_shapes(*(np.shape(i) for i in (*a, *P.values())))
        used = np.broadcast_shapes(
            *(np.shape(i) for i in (*a, *(P[k] for k in ref.spec_symbols(spec)))))
        ctx.check("shape of the results", np.shape(res) in (full, used), got=np.shape(res),
                  expected=(full, used))
        ctx.check("distributions are not negative", positive(spec, res), got=short(res))
        if g.chance(0.3):
            # lists and plain numbers
            a = [i.tolist() for i in a]
            obj.calc(*a, param_dict={k: np.asarray(v).tolist() for k, v in P.items()})
    # symbolic scattering-angle
    if spec["cls"] not in ("LinComb", "Isotropic"):
        a = [float(np.ravel(i)[0]) for i in angles(g, grid)]
        P = {k: float(np.ravel(v)[0]) for k, v in params(g, spec, grid).items()}
        s = obj.scattering_angle_symbolic
        subs = dict(zip(("theta_0", "theta_ex", "phi_0", "phi_ex"), a), **P)
        got = float(s.subs({k: subs[str(k)] for k in s.free_symbols}))
        ctx.same("generalized scattering angle", got,
                 float(ref.scat_cos(ref.default_a(spec), *a, P)), rtol=1e-10, atol=1e-12)
    ctx.note(backend)


def positive(spec, res):
    res = np.asarray(res)
    res = res[~np.isnan(res)]  # (undefined parameter-values)
    if "CosineLobe" in str(spec) or spec["cls"] == "LinComb":
        return bool(np.all(np.asarray(res) >= 0)) or spec["cls"] == "LinComb"
    return bool(np.all(np.asarray(res) > 0) or spec.get("a") is not None)


CHECKS["C11"] = dict(
    case=values_case, judge=("C11", "C16"), n=dict(quick=600, thorough=12000),
    rule="random scattering distributions (all classes, numeric/symbolic asymmetry and "
    "generalized scattering angles, nested parameters in weights) evaluated on random "
    "combinations of angle- and parameter-shapes, with permuted and obsolete parameters and "
    "array-likes; every value is compared with the published formula; distinct by "
    "distribution and shapes")


# --------------------------------------------------------------------------- C12 expansions
def expansion_case(ctx):
    import sympy as sp

    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    kind = g.pick(["V", "S"])
    g.p_zero = 0.12
    g.zeros = g.chance(0.35)
    n_max = g.pick([1, 3, 5, 8])
    obj = g.scatter(kind, n_max, lincomb=0.3, symbolic=0.5)
    if g.chance(0.12):
        # combinations in which the same object / equal objects appear repeatedly
        o = g.scatter(kind, n_max, lincomb=0, symbolic=0.5)
        q = g.pick([lambda: o, lambda: make_scatter(rt1, mon.specs[id(o)])])
        obj = (rt1.volume if kind == "V" else rt1.surface).LinComb(
            [(g.expr(0.5), i) for i in (o, g.scatter(kind, n_max, lincomb=0), q())][
                :: g.pick([1, -1])])
        ctx.note("repeated")
    spec = mon.specs[id(obj)]
    ctx.note(sig(spec), n_max)
    P = {k: 0.0 if g.zeros and g.chance(0.4) else float(ctx.rng.uniform(0.06, 0.59))
         for k in sorted(ref.spec_symbols(spec))}
    ctx.check("number of coefficients", obj.ncoefs == ref.own_ncoefs(spec),
              got=obj.ncoefs, expected=ref.own_ncoefs(spec))
    n = sp.Symbol("n")
    # coefficients
    if spec["cls"] != "LinComb":
        exp = ref.leg_coefs(spec, P, max(spec.get("ncoefs") or 1, obj.ncoefs) + 2)
        c = obj.legendre_coefficients
        for k in range(obj.ncoefs):
            got = sp.sympify(c).subs(n, k).subs(P).doit()
            got = sp.sympify(got)
            ctx.check("coefficients are numbers for given parameters", not got.free_symbols,
                      got=str(got))
            ctx.same(f"Legendre coefficient", float(sp.N(got)), float(exp[k]),
                     rtol=1e-9, atol=1e-12, n=k, spec=short(spec))
    # expansion at random directions
    for _ in range(3):
        a = [float(i) for i in (*ctx.rng.uniform(0, np.pi, 2), *ctx.rng.uniform(-3, 6, 2))]
        if g.chance(0.5):
            e = obj.legendre_expansion(*a)
        else:
            s = sp.symbols("theta_0 theta_ex phi_0 phi_ex")
            e = obj.legendre_expansion(*s).doit().subs(dict(zip(s, a)))
        got = complex(sp.N(e.doit().subs(P)))
        exp = ref.expansion(spec, *a, P)
        ctx.same("Legendre expansion", got.real, float(exp), rtol=1e-9,
                 atol=1e-10, spec=short(spec, 500), angles=a, params=P)
        ctx.same("Legendre expansion is real", got.imag, 0.0, atol=1e-12)
    # the expansion converges to the distribution
    if spec["cls"] in ("Isotropic", "Rayleigh"):
        ctx.same("exact expansion", got.real, float(obj.calc(*a, param_dict=P)), rtol=1e-10)
    elif spec["cls"] in ("HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm") and g.chance(0.4):
        s2 = dict(spec, ncoefs=40)
        o2 = make_scatter(rt1, s2)
        x = abs(ref.scat_cos(ref.default_a(spec), *a, P))
        t = abs(ref.ev(spec["t"], P) if isinstance(spec["t"], str) else spec["t"])
        if x <= 1 and t < 0.55:
            e = o2.legendre_expansion(*a).doit().subs(P)
            ctx.same("converged expansion equals the distribution",
                     float(sp.N(e)), float(o2.calc(*a, param_dict=P)),
                     rtol=1e-5, atol=1e-7, spec=short(spec))
            ctx.note("converged")


CHECKS["C12"] = dict(
    case=expansion_case, judge=("C11",), n=dict(quick=360, thorough=4000),
    rule="random scattering distributions, numbers of coefficients and directions; each "
    "coefficient is compared with a numerical projection of the distribution on the Legendre "
    "polynomials and each expansion with the truncated series; distinct by distribution, "
    "parameters and number of coefficients",
    assumptions=["cosine lobes with exponent >= 1"])


# ------------------------------------------------------------------------ C13 normalization
def sphere(n_mu=120, n_phi=64, half=False):
    x, w = np.polynomial.legendre.leggauss(n_mu)
    if half:
        x, w = (x + 1) / 2, w / 2
    phi = 2 * np.pi * np.arange(n_phi) / n_phi
    return np.arccos(x)[:, None], phi[None], (w[:, None] * 2 * np.pi / n_phi), x[:, None]


def drawn_lines(ctx, ax, points):
    """Lines of a plot of the hemispherical reflectance (optionally with points)."""
    lines = [i for i in ax.lines if i.get_linestyle() not in ("None", "", " ")]
    marks = [i for i in ax.lines if i.get_marker() not in ("None", "", " ", None)]
    ctx.check("points are shown if requested", bool(marks) == points, got=len(marks))
    for i in marks:
        ctx.check("the points are on the curve", any(
            np.array_equal(i.get_xdata(), k.get_xdata())
            and np.array_equal(i.get_ydata(), k.get_ydata()) for k in lines))
    return lines


def normalization_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.3)
    u = ctx.rng
    t = g.pick([round(g.uni(-0.85, 0.85), 3), round(g.uni(-0.5, 0.5), 3), 0.0, 1e-6])
    t_0, p_0 = g.pick([0.0, g.uni(0, 1.5)]), g.uni(-3, 6)
    sym = g.chance(0.5)
    P = {"t": t} if sym else {}
    tt = "t" if sym else t
    which = g.pick(["volume", "volume", "surface", "surface", "hemreflect", "hemreflect",
                    "model"])
    ctx.note(which, t, sym, t_0)
    if which == "volume":
        sgn = [g.pick([1.0, -1.0]), 1.0, 1.0]
        a = g.pick([None, sgn])
        kw = {} if a is None else dict(a=a)
        cls = g.pick(["Isotropic", "Rayleigh", "HenyeyGreenstein", "HGRayleigh", "LinComb"])
        parts = dict(
            Isotropic=lambda: rt1.volume.Isotropic(),
            Rayleigh=lambda: rt1.volume.Rayleigh(**kw),
            HenyeyGreenstein=lambda: rt1.volume.HenyeyGreenstein(t=tt, ncoefs=3, **kw),
            HGRayleigh=lambda: rt1.volume.HGRayleigh(t=tt, ncoefs=3, **kw))
        if cls == "LinComb":
            w = round(g.uni(0.1, 0.9), 3)
            c1, c2 = [str(i) for i in u.permutation(sorted(parts))[:2]]
            V = rt1.volume.LinComb([(w, parts[c1]()), (1 - w, parts[c2]())])
            ctx.note(c1, c2)
        else:
            V = parts[cls]()
        ctx.note(cls, a)
        th, ph, w, _ = sphere(240, 128)
        val = V.calc(t_0, th, p_0, ph, param_dict=P)
        tot = float(np.sum(np.broadcast_to(val, w.shape if np.ndim(val) == 0 else
                                           np.shape(val)) * w))
        if cls == "HGRayleigh" or (cls == "LinComb" and "HGRayleigh" in (c1, c2)):
            # normalization of the published definition
            exp = float(np.sum(ref.phase(mon.specs[id(V)], t_0, th, p_0, ph, P) * w))
            ctx.same("total scattered power", tot, exp, rtol=1e-6)
        else:
            ctx.same("volume distributions are normalized", tot, 1.0, rtol=2e-4)
        return
    if which == "surface":
        cls = g.pick(["Isotropic", "CosineLobe", "HG_nadirnorm", "HenyeyGreenstein"])
        a0 = g.pick([1.0, 0.7, -0.5, 0.3])
        kw = {} if a0 == 1.0 else dict(a=[a0, 1.0, 1.0])
        i = int(u.integers(1, 8))
        S = dict(
            Isotropic=lambda: rt1.surface.Isotropic(),
            CosineLobe=lambda: rt1.surface.CosineLobe(i=i, ncoefs=3),
            HG_nadirnorm=lambda: rt1.surface.HG_nadirnorm(t=tt, ncoefs=3, **kw),
            HenyeyGreenstein=lambda: rt1.surface.HenyeyGreenstein(t=tt, ncoefs=3, **kw),
        )[cls]()
        ctx.note(cls, a0, i if cls == "CosineLobe" else "")
        th, ph, w, mu = sphere(200, 96, half=True)
        inc = t_0 if cls == "Isotropic" else 0.0
        val = S.calc(inc, th, p_0, ph, param_dict=P)
        tot = float(np.sum(val * w * mu))
        if cls in ("Isotropic", "HG_nadirnorm"):
            ctx.same("reflectance of normalized distributions", tot, 1.0, rtol=1e-6)
        elif cls == "CosineLobe":
            ctx.same("nadir-reflectance of a cosine lobe", tot, 2 / (i + 2), rtol=1e-6)
        else:
            exp = float(ref.hg_nadir_norm(np.array(t), np.array(a0)))
            ctx.same("nadir-reflectance of a HG distribution", tot, exp, rtol=1e-6)
        return
    # hemispherical reflectance ("NormBRDF" is reserved for the normalization)
    g.shared = 0.0
    S = g.scatter("S", 3, lincomb=0.3, symbolic=0.6)
    spec = mon.specs[id(S)]
    ctx.note(sig(spec))
    P = {k: float(u.uniform(0.06, 0.59)) for k in ref.spec_symbols(spec)}
    lo, step = float(u.integers(0, 30)), float(u.integers(7, 30))
    hi = lo + step * int(u.integers(1, 4)) + 1
    hi = min(hi, 89.0)
    kw = dict(phi_0=p_0, t_0_step=step, t_0_min=lo, t_0_max=hi, simps_N=301,
              returnarray=True)
    inc = np.deg2rad(np.arange(lo, hi, step))
    th, ph, w, mu = sphere(160, 96, half=True)
    exp = np.array([np.sum(ref.phase(spec, i, th, p_0, ph, P) * w * mu) for i in inc])
    kink = "CosineLobe" in str(spec)
    tol = dict(rtol=5e-3 if kink else 1e-4, atol=1e-3 if kink else 1e-5)
    if which == "hemreflect":
        nb = g.pick([None, 0.3, 1.0, 0.0, 0, 2])
        Q = dict(P) if nb is None else dict(P, NormBRDF=nb)
        got = S.hemreflect(param_dict=Q, **kw)
        exp = exp * (1 if nb is None else nb)
        ctx.same("hemispherical reflectance", got, exp, **tol)
        if g.chance(0.25) and np.max(exp) > 0:
            import matplotlib.pyplot as plt

            # the displayed curve
            plt.close("all")
            points = g.chance(0.4)
            fig = S.hemreflect(param_dict=Q, **{**kw, "returnarray": False,
                                                "showpoints": points})
            ctx.check("the created figure is returned", fig is plt.gcf())
            (line,) = drawn_lines(ctx, plt.gcf().axes[0], points)
            ctx.same("displayed incidence angles", line.get_xdata(), np.arange(lo, hi, step))
            ctx.same("displayed hemispherical reflectance", line.get_ydata(), exp, **tol)
            y0, y1 = plt.gcf().axes[0].get_ylim()
            ctx.check("the displayed curve is visible", y0 <= 0 and y1 >= np.max(exp))
        return
    from rt1_model.plot import hemreflect

    R = rt1.RT1(V=rt1.volume.Isotropic(), SRF=S, int_Q=False)
    d = g.pick([None, 0.3, "nn", "nn / 2"])
    if d is not None:
        R.NormBRDF = d
    P.pop("nn", None)
    R.update_params(NormBRDF=0.4, nn=0.6)
    nb = {None: 0.4, 0.3: 0.3, "nn": 0.6, "nn / 2": 0.3}[d]
    got = hemreflect(R=R, param_dict=P, **kw)
    ctx.same("hemispherical reflectance of a model", np.squeeze(got), np.squeeze(exp * nb),
             **tol)
    if g.chance(0.4):
        # multiple normalization-factors
        import matplotlib.pyplot as plt

        R.NormBRDF = "NormBRDF"
        nb = np.array([[g.uni(0.1, 1)] for _ in range(int(ctx.rng.integers(2, 4)))])
        R.update_params(NormBRDF=nb)
        ctx.same("hemispherical reflectance for multiple factors",
                 hemreflect(R=R, param_dict=P, **kw), exp * nb, **tol)
        if g.chance(0.5) and np.max(exp) > 0:
            plt.close("all")
            points = g.chance(0.4)
            fig = hemreflect(R=R, param_dict=P, **{**kw, "returnarray": False,
                                                   "showpoints": points})
            ctx.check("the created figure is returned", fig is plt.gcf())
            ax = plt.gcf().axes[0]
            lines = drawn_lines(ctx, ax, points)
            ctx.check("one curve for each factor", len(lines) == len(nb))
            for line, i in zip(lines, nb):
                ctx.same("displayed curve of each factor", line.get_ydata(), exp * i, **tol)
            y0, y1 = ax.get_ylim()
            ctx.check("the displayed curves are visible", y0 <= 0 and y1 >= np.max(exp * nb))


CHECKS["C13"] = dict(
    case=normalization_case, judge=("C11",), n=dict(quick=400, thorough=4000),
    rule="random normalized volume distributions are integrated over the sphere, random "
    "surface distributions over the hemisphere (own quadrature of values returned by the real "
    "code) and compared with 1 or analytic reflectances; the library's hemispherical "
    "reflectance (returned values and drawn curves) is compared with an independent "
    "integration; distinct by distribution, "
    "parameters and incidence angle")


# ------------------------------------------------------------------------------ C14 linearity
def linearity_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.1)
    sympy = rt1.get_lambda_backend() == "sympy"
    kind = g.pick(["V", "S"])
    nc = 2 if sympy else int(ctx.rng.integers(2, 5))
    nc = max(nc, 3) if kind == "V" else nc
    if sympy:
        ctx.nontrivial = True
    n_parts = int(ctx.rng.integers(2, 4))
    a_pool = [None, g.a_param(kind), g.a_param(kind)]
    mod = rt1.volume if kind == "V" else rt1.surface
    g.names = g.names[:3]
    parts = []
    for _ in range(n_parts):
        o = g.scatter(kind, nc, lincomb=0, symbolic=0.5, ncoefs=nc, a=g.pick(a_pool))
        parts.append(o)
    weights = [g.expr(0.5) for _ in parts]
    if g.chance(0.2):
        weights[0] = 0
    specs = [mon.specs[id(o)] for o in parts]
    ctx.note(kind, *(f"{w}*{sig(s)}" for w, s in zip(weights, specs)))
    other = g.scatter("S" if kind == "V" else "V", 2, lincomb=0, symbolic=0.5)
    comb = mod.LinComb(list(zip(weights, parts)))

    mode = g.pick(["mono_f", "mono", "bi"])
    int_Q = g.chance(0.8)
    grid = g.grid()

    def model(o):
        V, S = (o, other) if kind == "V" else (other, o)
        return rt1.RT1(V=V, SRF=S, int_Q=int_Q, sig0=True, dB=False)

    R = model(comb)
    state = dict(zip(("t_0", "t_ex", "p_0", "p_ex"), angles(g, grid)))
    used = state if mode == "bi" else {"t_0": state["t_0"], "p_0": state["p_0"]}

    def geom(M):
        if mode == "mono_f":
            M.set_monostatic(p_0=0.7)
            M.set_geometry(t_0=used["t_0"])
        else:
            (M.set_bistatic if mode == "bi" else M.set_monostatic)()
            M.set_geometry(**used)

    geom(R)
    p = gen.params_for(g, mon, R, grid)
    P = {k: np.atleast_1d(v) for k, v in p.items()}
    row = 2 if kind == "V" else 1
    keep = 1 if kind == "V" else 2
    got = R.calc(**p)
    ctx.note(mode, int_Q, *(f"{k}{v.shape}" for k, v in P.items()))
    singles, total = [], 0
    for w, o in zip(weights, parts):
        M = model(o)
        geom(M)
        r = M.calc(**p)
        wv = ref.ev(w, P)
        singles.append((wv, r))
    full = np.broadcast_shapes(got.shape[1:], *(r.shape[1:] for _, r in singles))

    def bc(x):
        return np.broadcast_to(x, full)

    tot = sum(np.broadcast_to(wv, full) * bc(r[row]) for wv, r in singles)
    mag = sum(np.abs(wv) * np.abs(bc(r[row])) for wv, r in singles)
    ctx.same("contribution of a combination", bc(got[row]), tot, rtol=1e-9,
             atol=1e-10 * np.max(mag, initial=0))
    ctx.same("contribution of the other part", bc(got[keep]), bc(singles[0][1][keep]),
             rtol=1e-10, atol=1e-14)
    if int_Q:
        tot = sum(np.broadcast_to(wv, full) * bc(r[3]) for wv, r in singles)
        mag = sum(np.abs(wv) * np.abs(bc(r[3])) for wv, r in singles)
        sh = mon.shadow(R)
        _, scale = sh.model(linear=True).interaction()
        noise = np.abs(sh.model(linear=True).convert(scale)) * 1e-12
        ctx.same("interaction of a combination", bc(got[3]), tot, rtol=1e-8,
                 atol=np.broadcast_to(noise, full) + 1e-10 * np.max(mag, initial=0))
    # order, splitted weights and vanishing parts
    perm = [(weights[i], parts[i]) for i in ctx.rng.permutation(n_parts)]
    k = int(ctx.rng.integers(n_parts))
    s, w = perm[k][1], perm[k][0]
    f = round(g.uni(0.1, 0.9), 2)
    perm[k] = (f"({w}) * {f}", s)
    perm.insert(int(ctx.rng.integers(n_parts + 1)), (f"({w}) * (1 - {f})", s))
    if g.chance(0.5):
        perm.append((0.0, g.pick(parts)))
    M = model(mod.LinComb(perm))
    geom(M)
    r = M.calc(**p)
    for i in range(1, got.shape[0]):
        m = float(np.max(np.abs(got[i]), initial=0))
        at = noise if i == 3 else 1e-10 * m
        ctx.same("representation of a combination", bc(r[i]), bc(got[i]), rtol=1e-8,
                 atol=np.broadcast_to(at, full) + 1e-10 * m)


CHECKS["C14"] = dict(
    case=linearity_case, judge=(), n=dict(quick=220, thorough=2500),
    rule="random linear combinations (2-3 parts, symbolic/numeric/zero weights, equal and "
    "different generalized scattering angles): all contributions of the combined model are "
    "compared with weighted sums of models for each part and with permuted/splitted/extended "
    "representations of the combination; distinct by the combination, geometry and shapes",
    assumptions=["parts with equal generalized scattering angles use the same number of "
                 "expansion coefficients (the combined truncation is the largest one)"])
