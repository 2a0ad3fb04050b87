"""Scattering distributions that are implemented by users (subclasses of the base-classes)."""
import copy
import pickle
import sys

import numpy as np
from numpy.polynomial import legendre

from .. import gen, ref
from ..monitor import _expr, short
from .scatter import angles, params, sig
from .state import compare_models, jac_keys
from .values import describe, geom_sig, vary_units

CHECKS = {}


def classes(rt1):
    """Implementations of distributions on top of the public base-classes."""
    this = sys.modules[__name__]
    if hasattr(this, "PolyV"):
        return this
    import sympy as sp

    n = sp.Symbol("n")

    def symbolic(v):
        return sp.parse_expr(v, local_dict={k: sp.Symbol(k) for k in ref.names_in(v)}) \
            if isinstance(v, str) else v

    class Poly:
        """sum_k c_k cos(Theta)^k"""

        def __init__(self, c, ncoefs=None, **kwargs):
            super().__init__(ncoefs=len(c) if ncoefs is None else ncoefs, **kwargs)
            self.c = [symbolic(i) for i in c]

        @property
        def phase_function(self):
            x = self.scattering_angle_symbolic
            return sum((v * x**k for k, v in enumerate(self.c)), sp.Integer(0))

        @property
        def legendre_coefficients(self):
            rows = [legendre.poly2leg(i) for i in np.eye(len(self.c))]
            return sum(
                (c * sp.Float(float(v)) * sp.KroneckerDelta(k, n)
                 for c, row in zip(self.c, rows) for k, v in enumerate(row) if v),
                sp.Integer(0))

    class Exp:
        """w exp(k (cos(Theta) - 1))"""

        def __init__(self, w, k, ncoefs, a=None):
            if a is None:
                super().__init__(ncoefs)
            else:
                super().__init__(ncoefs, a)
            self.w, self.k = symbolic(w), k
            self.table = ref.leg_coefs(dict(cls="Exp", kind="V", w=1, k=k), {}, 12)

        @property
        def phase_function(self):
            return self.w * sp.exp(self.k * (self.scattering_angle_symbolic - 1))

        @property
        def legendre_coefficients(self):
            return sp.Piecewise(
                *((self.w * float(v), sp.Eq(n, i)) for i, v in enumerate(self.table)),
                (0, True))

    class Angles:
        """w cos(theta_0) cos(theta_ex)^2 + c (1 + sin(theta_0) cos(phi_0 - phi_ex - 0.3))"""

        ncoefs = 1
        legendre_coefficients = sp.KroneckerDelta(0, n)

        def __init__(self, w, c):
            super().__init__()
            self.w, self.c = symbolic(w), symbolic(c)

        @property
        def phase_function(self):
            t0, tex, p0, pex = sp.symbols("theta_0 theta_ex phi_0 phi_ex")
            return self.w * sp.cos(t0) * sp.cos(tex) ** 2 + self.c * (
                1 + sp.sin(t0) * sp.cos(p0 - pex - 0.3))

    for kind, mod, base in (("V", rt1.volume, rt1.volume.VolumeScatter),
                            ("S", rt1.surface, rt1.surface.SurfaceScatter)):
        for name, mixin in (("Poly", Poly), ("Exp", Exp), ("Angles", Angles)):
            ns = dict(__module__=__name__)
            setattr(this, name + kind, type(name + kind, (mixin, base), ns))
            # (another default for the generalization parameters)
            ns = dict(__module__=__name__, a=CLASS_A[kind])
            setattr(this, name + kind + "a", type(name + kind + "a", (mixin, base), ns))
        # a distribution without any parameters, defined with plain attributes
        val = sp.Rational(2, 5) / sp.pi
        setattr(this, "Plain" + kind, type("Plain" + kind, (base,), dict(
            __module__=__name__, phase_function=val, ncoefs=1,
            legendre_coefficients=val * sp.KroneckerDelta(0, n))))
    return this


CLASS_A = dict(V=[-0.7, 1.0, 1.0], S=[0.6, 1.0, 1.0])


def custom(g, mon, kind, nmax, symbolic=0.6, a="random", angles=False):
    """A random user-defined distribution (and its independent specification)."""
    this = classes(g.rt1)
    av = g.a_param(kind) if a == "random" else a
    cls = g.pick(["Poly", "Poly", "Poly", "Exp", "Exp", "Plain"])
    if cls == "Plain":
        obj = getattr(this, cls + kind)()
        spec = dict(kind=kind, cls="Poly", c=[0.4 / np.pi], a=None, ncoefs=1)
        mon.specs[id(obj)] = spec
        mon.keep.append(obj)
        return obj
    if angles and g.chance(0.6):
        w, c = g.expr(symbolic), g.expr(symbolic)
        obj = getattr(this, "Angles" + kind)(w, c)
        mon.specs[id(obj)] = dict(kind=kind, cls="Angles", a=None, ncoefs=1, w=_expr(w),
                                  c=[_expr(c)])
        mon.keep.append(obj)
        return obj
    kw, spec = {}, dict(kind=kind, cls=cls, a=av)
    suffix = ""
    if av is not None:
        kw["a"] = av
        spec["a"] = [_expr(i) for i in av]
    elif g.chance(0.3):
        suffix = "a"
        spec["a"] = list(CLASS_A[kind])
    if cls == "Poly":
        n = int(g.rng.integers(1, min(nmax, 4) + 1))
        c = [g.expr(symbolic) for _ in range(n)]
        if n > 2 and g.chance(0.3):
            c[1] = g.pick([0, 0.0])
        nc = g.pick([None, None, n, max(1, n - 1)])  # (truncated expansions)
        kw.update(c=c, ncoefs=nc)
        spec.update(c=[_expr(i) for i in c], ncoefs=n if nc is None else nc)
    else:
        kw.update(w=g.expr(symbolic), k=round(g.uni(0.2, 2.5), 3),
                  ncoefs=int(g.rng.integers(1, nmax + 1)))
        spec.update(w=_expr(kw["w"]), k=kw["k"], ncoefs=kw["ncoefs"])
    obj = getattr(this, cls + kind + suffix)(**kw)
    mon.specs[id(obj)] = spec
    mon.keep.append(obj)
    return obj


def custom_case(ctx):
    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    backend = ctx.backend(0.2)
    mode = g.pick(["mono", "mono_f", "bi", "bi_f"])
    nmax = 2 if backend == "sympy" else {"mono_f": 5, "mono": 4, "bi": 3, "bi_f": 3}[mode]
    grid = g.grid()
    # (functions of the individual angles have no expansion -> first-order results only)
    by_angles = g.chance(0.25)

    def scatter(kind, always=False):
        def one():
            return custom(g, mon, kind, nmax, angles=by_angles)

        if always or g.chance(0.5):
            if g.chance(0.3):
                # combinations of built-in and user-defined distributions
                mod = rt1.volume if kind == "V" else rt1.surface
                parts = [(g.expr(0.5), one()),
                         (g.expr(0.5), g.scatter(kind, nmax, lincomb=0))]
                if g.chance(0.3):
                    parts.append((g.expr(0.5), one()))
                obj = mod.LinComb(parts[:: g.pick([1, -1])])
            else:
                obj = one()
        else:
            obj = g.scatter(kind, nmax, lincomb=0.2)
        return obj

    first = g.pick(["V", "S"])
    objs = {first: scatter(first, True)}
    other = "S" if first == "V" else "V"
    objs[other] = scatter(other)
    # the distributions itself (values are judged by the monitor)
    for o in objs.values():
        spec = mon.specs[id(o)]
        ctx.note(sig(spec), spec.get("ncoefs"))
        ctx.check("plot-functions are available", callable(getattr(o, "polarplot", None)))
        a, P = angles(g, grid), params(g, spec, grid)
        o.calc(*a, param_dict=P)
        ctx.check("number of coefficients", o.ncoefs == ref.own_ncoefs(spec), got=o.ncoefs)
        if by_angles:
            continue
        import sympy as sp

        a = [float(i) for i in (*ctx.rng.uniform(0, np.pi, 2), *ctx.rng.uniform(-3, 6, 2))]
        P = {k: float(np.ravel(v)[0]) for k, v in P.items()}
        got = complex(sp.N(o.legendre_expansion(*a).doit().subs(P)))
        ctx.same("Legendre expansion", got.real, float(ref.expansion(spec, *a, P)), rtol=1e-8,
                 atol=1e-9, spec=short(spec, 400), params=P)
    # ... and in a model
    R = rt1.RT1(V=objs["V"], SRF=objs["S"], int_Q=not by_angles and g.chance(0.8), sig0=g.chance(0.5),
                dB=g.chance(0.2), I0=g.pick([1.0, 2.5]))
    for q in gen.QUANT:
        d = g.definition(q)
        if d is not None:
            setattr(R, q, d)
    describe(ctx, R)
    gen.set_geom(g, R, mode, grid)
    geom_sig(ctx, R)
    R.calc(**gen.params_for(g, mon, R, grid))
    for _ in range(3):
        step = g.pick(["params", "geom", "units", "copy", "replace"])
        ctx.note(step)
        if step == "params":
            R.update_params(**gen.next_params(g, mon, R, grid))
        elif step == "geom":
            gen.next_geom(g, mon, R, grid)
        elif step == "units":
            vary_units(g, R)
        elif step == "copy":
            import cloudpickle

            how = g.pick(["deepcopy", "cloudpickle"])
            with mon.muted():
                C = (copy.deepcopy(R) if how == "deepcopy"
                     else pickle.loads(cloudpickle.dumps(R)))
            mon.adopt(C, mon.shadow(R).copy())
            compare_models(ctx, "copies of models with user-defined distributions", C, R)
        else:
            kind = g.pick(["V", "S"])
            o = custom(g, mon, kind, nmax, angles=by_angles)
            setattr(R, "V" if kind == "V" else "SRF", o)
            R.update_params(**gen.params_for(g, mon, R, grid))
        with np.errstate(all="ignore"):
            if mon.shadow(R).int_Q is True:
                getattr(R, g.pick(["interaction", "calc"]))()
            else:
                R.calc()
            if g.chance(0.7):
                R.jacobian(param_list=jac_keys(ctx, R, 4))
    incomplete(ctx)


def incomplete(ctx):
    """Definitions that miss required parts cannot be used."""
    g, rt1 = ctx.g, ctx.rt1
    base = g.pick([rt1.volume.VolumeScatter, rt1.surface.SurfaceScatter])
    missing = g.pick(["phase_function", "legendre_coefficients", "both"])
    ns = {k: property(lambda self: 1) for k in ("phase_function", "legendre_coefficients")
          if missing not in (k, "both")}
    cls = type("Incomplete", (base,), ns) if missing != "both" else base
    try:
        cls(ncoefs=2)
    except TypeError:
        ok = True
    else:
        ok = False
    ctx.check("incomplete distributions are rejected", ok, missing=missing)


CHECKS["C28"] = dict(
    case=custom_case, judge=("C01", "C02", "C03", "C04", "C09", "C11"), claim=True,
    n=dict(quick=250, thorough=3000),
    rule="random user-defined distributions (polynomial and exponential functions of the "
    "scattering angle with symbolic coefficients, truncated expansions, class-level defaults, "
    "plain attributes), alone and in linear combinations with built-in ones; all values, "
    "expansions, contributions, derivatives and copies of the models are judged by the "
    "independent reference; distinct by distributions, geometry, definitions and steps")
