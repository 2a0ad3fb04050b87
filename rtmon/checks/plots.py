"""Checks of the visualizations (what is shown equals what the model calculates)."""
import io
import logging
import re

import numpy as np

from .. import gen, ref
from ..monitor import short
from ..runner import Skip
from .scatter import sig
from .state import make_scatter
from .values import describe

CHECKS = {}


class Widgets:
    """Records the matplotlib-widgets and 3D surfaces created while it is active."""

    def __enter__(self):
        import matplotlib.widgets as mw
        from mpl_toolkits.mplot3d import Axes3D

        self.sliders, self.radios, self.surfaces, self.undo = [], [], [], []
        rec = self

        def wrap(cls, name, store):
            orig = cls.__dict__[name]

            def wrapper(obj, *args, **kwargs):
                ret = orig(obj, *args, **kwargs)
                store(obj, args, kwargs, ret)
                return ret

            setattr(cls, name, wrapper)
            self.undo.append((cls, name, orig))

        wrap(mw.Slider, "__init__", lambda o, a, k, r: rec.sliders.append(o))
        wrap(mw.RadioButtons, "__init__", lambda o, a, k, r: rec.radios.append(o))
        wrap(Axes3D, "plot_surface", lambda o, a, k, r: rec.surfaces.append((o, a, k, r)))
        return self

    def __exit__(self, *args):
        for cls, name, orig in self.undo:
            setattr(cls, name, orig)


def slider_specs(g, names):
    """random (min, max, [start], [name]) tuples"""
    out, exp = {}, {}
    for k in names:
        lo = round(g.uni(0.05, 0.25), 3)
        hi = round(lo + g.uni(0.1, 0.35), 3)
        if g.chance(0.15):
            lo = 0
        if k == "tau" and g.chance(0.3):
            hi = round(hi * 4, 3)
        start = (lo + hi) / 2
        spec, label = (lo, hi), k
        if g.chance(0.5):
            start = round(lo + (hi - lo) * g.uni(0.1, 0.9), 4)
            if g.chance(0.25):
                start = g.pick([lo, hi])
            spec = (*spec, start)
            if g.chance(0.5):
                label = f"Name of {k}"
                spec = (*spec, label)
        if g.chance(0.3):
            spec = list(spec)
        out[k] = spec
        exp[k] = (lo, hi, start, label)
    return out, exp


def fresh(ctx, R, P, geom, **over):
    """A fresh model with the definitions of R and the given parameters"""
    sh = ctx.mon.shadow(R)
    rt1 = ctx.rt1
    with ctx.mon.muted():
        M = rt1.RT1(V=make_scatter(rt1, sh.V), SRF=make_scatter(rt1, sh.SRF),
                    **{**dict(int_Q=sh.int_Q, sig0=sh.sig0, dB=sh.dB, I0=sh.I0), **over})
        for q, d in sh.defs.items():
            if d != q:
                setattr(M, q, d)
        geom(M)
        M.update_params(**P)
    return M


def plot_model(ctx, int_Q=None, dB=None):
    g, mon = ctx.g, ctx.mon
    g.shared = 0.1
    R, mode = gen.build(g, mon, nV=3, nS=3, int_Q=g.chance(0.7) if int_Q is None else int_Q,
                        lincomb=0.2, symbolic=0.7,
                        units=(g.chance(0.5), g.chance(0.4) if dB is None else dB))
    describe(ctx, R)
    if g.chance(0.6):
        # a model that was used before
        grid = (1, 3) if g.chance(0.5) else (1, 1)
        gen.set_geom(g, R, mode, grid)
        R.calc(**gen.params_for(g, mon, R, grid))
    req = sorted(mon.shadow(R).required())
    names = [k for k in req if k != "bsf" or g.chance(0.4)]
    if "bsf" in req and "bsf" not in names:
        R.update_params(bsf=g.pick([0, 0.2]))
    static = {}
    keep = []
    for k in names:
        if g.chance(0.25) and len(names) > 1:
            static[k] = g.uni(0.1, 0.5)  # a parameter without slider
        else:
            keep.append(k)
    names = keep or names[:1]
    if not names:
        raise Skip("model without parameters")
    static = {k: v for k, v in static.items() if k not in names}
    R.update_params(**static)
    return R, [str(i) for i in ctx.rng.permutation(names)]


def check_sliders(ctx, rec, A, exp, extra=0):
    ctx.check("one slider for each parameter", len(rec.sliders) == len(exp) + extra
              and set(exp) <= set(A.sliders), got=list(A.sliders))
    for k, (lo, hi, start, label) in exp.items():
        s = A.sliders[k]
        ctx.check("range, start-value and label of the sliders",
                  np.isclose(s.valmin, lo) and np.isclose(s.valmax, hi)
                  and np.isclose(s.val, start) and s.label.get_text() == label,
                  slider=(s.valmin, s.valmax, s.val, s.label.get_text()),
                  expected=(lo, hi, start, label))


def same_curve(ctx, what, got, exp, dB, noise=0.0):
    """curves in linear units (elements that are undefined in dB are skipped)"""
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    ctx.check(f"{what}: number of points", got.shape == exp.shape, got=got.shape,
              expected=exp.shape)
    if dB:
        bad = ~(np.isfinite(got) & np.isfinite(exp))
        got = np.where(bad, 0, 10 ** (got / 10))
        exp = np.where(bad, 0, 10 ** (exp / 10))
    ctx.mon.compare(ctx.prop, what, got, exp, rtol=1e-7,
                    atol=1e-9 * np.max(np.abs(exp), initial=0) + noise)


# ------------------------------------------------------------------------------- C21 analyze
LABELS = ["Total", "Surface", "Volume", "Interaction"]


def curves(ctx, R, values, x, int_Q):
    def geom(M):
        M.set_monostatic(p_0=0)
        M.set_geometry(t_0=np.deg2rad(x)[None])

    if not hasattr(ctx, "ref_model"):
        ctx.ref_model = fresh(ctx, R, values, geom)
    with ctx.mon.muted():
        geom(ctx.ref_model)
        res = ctx.ref_model.calc(**values)
    return np.broadcast_to(res, (res.shape[0], *np.broadcast_shapes(
        res.shape[1:], (1, len(x)))))


def judge_analyze(ctx, R, A, static, rng_par):
    from matplotlib.collections import LineCollection, PolyCollection

    sh = ctx.mon.shadow(R)
    vals = {k: s.val for k, s in A.sliders.items()}
    P = {**{k: v for k, v in static.items()}, **vals}
    lines = {ln.get_label(): ln for ln in A.ax.lines}
    names = LABELS[: 4 if sh.int_Q is True else 3]
    ctx.check("one curve for each contribution", set(names) <= set(lines)
              and ("Interaction" in lines) == (sh.int_Q is True), got=list(lines))
    x = np.asarray(lines["Total"].get_xdata(), float)
    ctx.check("incidence angles of the curves", x.min() >= 0 and x.max() < 90
              and np.all(np.diff(x) > 0))
    exp = curves(ctx, R, P, x, sh.int_Q)[:, 0]
    for n, e in zip(names, exp):
        same_curve(ctx, f"curve of {n}", lines[n].get_ydata(), e, sh.dB)
    others = [ln for k, ln in lines.items() if k not in names]
    ctx.check("number of curves", len(others) == (1 if sh.int_Q is True else 0),
              got=list(lines))
    if sh.int_Q is True:
        lin = 10 ** (exp / 10) if sh.dB else exp
        sv = lin[1] + lin[2]
        if sh.dB:
            with np.errstate(all="ignore"):
                sv = 10 * np.log10(sv)
        same_curve(ctx, "curve without interaction", others[0].get_ydata(), sv, sh.dB)
    leg = A.ax.get_legend()
    ctx.check("legend lists the contributions", leg is not None
              and [t.get_text() for t in leg.get_texts()] == names)
    ctx.check("units are indicated", ("db" in A.ax.get_ylabel().lower()) == sh.dB
              and ("sigma" in A.ax.get_ylabel()) == sh.sig0, got=A.ax.get_ylabel())
    # range of a parameter
    fills = [c for c in A.ax.collections if isinstance(c, PolyCollection)]
    lcs = [c for c in A.ax.collections if isinstance(c, LineCollection)]
    if rng_par is None:
        ctx.check("no range without range-parameter", not fills and not lcs)
        return
    ctx.check("one range for each contribution",
              len(fills) == len(names) and len(lcs) == len(names),
              got=(len(fills), len(lcs)))
    s = A.sliders[rng_par]
    colors = {}
    for n in names:
        colors[n] = tuple(np.round(_rgb(lines[n].get_color()), 6))
    for n, e in zip(names, range(len(names))):
        mine = [c for c in lcs if tuple(np.round(c.get_edgecolor()[0][:3], 6)) == colors[n]]
        ctx.check("ranges use the colors of the curves", len(mine) == 1)
        seg = np.array([i.vertices for i in mine[0].get_paths()])
        k = len(seg)
        ctx.check("the range is sampled", k >= 3)
        pv = np.linspace(s.valmin, s.valmax, k)[:, None]
        exp_r = curves(ctx, R, {**P, rng_par: pv}, seg[0][:, 0], sh.int_Q)[e]
        exp_r = np.broadcast_to(exp_r, seg.shape[:2])
        same_curve(ctx, f"intermediate curves of {n}", seg[:, :, 1], exp_r, sh.dB)
        mine = [c for c in fills if tuple(np.round(c.get_facecolor()[0][:3], 6)) == colors[n]]
        ctx.check("one filled range in the color of each curve", len(mine) == 1)
        xs = seg[0][:, 0]
        lo, hi = exp_r.min(axis=0), exp_r.max(axis=0)
        if not (np.isfinite(lo).all() and np.isfinite(hi).all()):
            continue
        v = np.concatenate([p.vertices for p in mine[0].get_paths()])
        got_lo = np.array([v[np.isclose(v[:, 0], i), 1].min() for i in xs[1:-1]])
        got_hi = np.array([v[np.isclose(v[:, 0], i), 1].max() for i in xs[1:-1]])
        same_curve(ctx, f"lower limit of the range of {n}", got_lo, lo[1:-1], sh.dB)
        same_curve(ctx, f"upper limit of the range of {n}", got_hi, hi[1:-1], sh.dB)


def _rgb(c):
    from matplotlib.colors import to_rgb

    return to_rgb(c)


def missing_slider(ctx, R, names, sliders, call):
    """Parameters without slider and value must be reported."""
    g = ctx.g
    sh = ctx.mon.shadow(R)
    ks = [k for k in names if k not in sh.P]
    if not ks or not g.chance(0.3):
        return
    k = g.pick(ks)
    try:
        call(**{i: v for i, v in sliders.items() if i != k})
    except Exception as ex:
        ctx.check("missing parameters are named", k in str(ex), got=repr(ex)[:200], missing=k)
    else:
        ctx.fail("missing parameters were not reported", missing=k)


def analyze_case(ctx):
    g, mon = ctx.g, ctx.mon
    ctx.backend(0.1)
    R, names = plot_model(ctx)
    sh = mon.shadow(R)
    sliders, exp = slider_specs(g, names)
    rng_par = g.pick([None, g.pick(names)])
    kw = dict(sliders)
    if g.chance(0.3):
        kw["not_used"] = (0.1, 0.3)
    ctx.note("sliders", *(f"{k}:{len(v)}" for k, v in sliders.items()), "range", rng_par)
    if rng_par:
        kw["range_parameter"] = rng_par
    static = {k: v for k, v in sh.P.items() if k not in names}
    if any(np.size(v) > 1 for v in static.values()):
        raise Skip("static parameters with multiple values")
    missing_slider(ctx, R, names, sliders, R.analyze)
    with Widgets() as rec:
        A = R.analyze(**kw)
    check_sliders(ctx, rec, A, exp)
    judge_analyze(ctx, R, A, static, rng_par)
    opts = ["None", *names]
    for step in range(int(ctx.rng.integers(2, 5))):
        act = g.pick(["slide", "slide", "slide2", "radio"])
        ctx.note(act)
        if act.startswith("slide"):
            for _ in range(1 if act == "slide" else 3):
                k = g.pick(names)
                lo, hi = exp[k][:2]
                v = g.pick([lo, hi, round(g.uni(lo, hi), 4)])
                A.sliders[k].set_val(v)
                ctx.check("slider accepts values of its range",
                          np.isclose(A.sliders[k].val, v))
        else:
            labels = [t.get_text() for t in rec.radios[0].labels]
            ctx.check("all parameters can be selected as range",
                      sorted(labels) == sorted(opts), got=labels)
            new = g.pick(labels)
            rec.radios[0].set_active(labels.index(new))
            rng_par = None if new == "None" else new
        judge_analyze(ctx, R, A, static, rng_par)


CHECKS["C21"] = dict(
    case=analyze_case, judge=(), n=dict(quick=100, thorough=1500),
    rule="random models (fresh or used before, in any geometry) are opened in the analyzer "
    "with random slider-specifications; after random slider moves and range-selections, all "
    "displayed curves, ranges, labels and limits are compared with a freshly configured model; "
    "distinct by model, sliders and interactions")


# ----------------------------------------------------------------------------- C22 analyze3d
def analyze3d_case(ctx):
    g, mon = ctx.g, ctx.mon
    import warnings

    R, names = plot_model(ctx, dB=g.chance(0.2))
    sh = mon.shadow(R)
    int_before = sh.int_Q
    sliders, exp = slider_specs(g, names)
    contribs = g.pick(["ts", "t", "sv", "tsvi", "i", "vi", "v", "st", "isvt",
                     "vts", "ivs"])
    samples = int(ctx.rng.integers(6, 14))
    static = {k: v for k, v in sh.P.items() if k not in names}
    if any(np.size(v) > 1 for v in static.values()):
        raise Skip("static parameters with multiple values")
    ctx.note("sliders", *(f"{k}:{len(v)}" for k, v in sliders.items()), contribs, samples)
    with Widgets() as rec, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        missing_slider(ctx, R, names, sliders, R.analyze3d)
        A = R.analyze3d(samples=samples, contributions=contribs, **sliders)
        check_sliders(ctx, rec, A, exp, extra=1)
        ctx.check("linear units are used", R.dB is False)
        judge_3d(ctx, R, A, rec, static, contribs, samples)
        for step in range(int(ctx.rng.integers(1, 4))):
            rec.surfaces.clear()
            if g.chance(0.4):
                v = g.pick([0.1, 20.0, 45.0, 60.0, 77.7, 86.5, 89.9, g.uni(0.1, 89.9)])
                A.sliders["inc"].set_val(v)
                ctx.note("inc", v)
            else:
                k = g.pick(names)
                lo, hi = exp[k][:2]
                A.sliders[k].set_val(g.pick([lo, hi, round(g.uni(lo, hi), 4)]))
                ctx.note("slide", k)
            judge_3d(ctx, R, A, rec, static, contribs, samples)
    ctx.check("interaction-setting of the model is unchanged", R.int_Q is int_before)


def judge_3d(ctx, R, A, rec, static, contribs, samples):
    sh = ctx.mon.shadow(R)
    vals = {k: s.val for k, s in A.sliders.items()}
    inc = vals.pop("inc")
    P = {**static, **vals}
    t = np.deg2rad(np.linspace(0, 89, samples))
    p = np.deg2rad(np.linspace(-180, 180, samples))
    t, p = np.meshgrid(t, p)

    def geom(M):
        M.set_bistatic(p_0=0)
        M.set_geometry(t_0=np.full_like(t, np.deg2rad(inc)), t_ex=t, p_ex=p)

    if not hasattr(ctx, "ref_model"):
        ctx.ref_model = fresh(ctx, R, P, geom, dB=False, int_Q="i" in contribs)
    with ctx.mon.muted():
        geom(ctx.ref_model)
        res = ctx.ref_model.calc(**P)
    drawn = {}
    if not hasattr(ctx, "colors"):
        ctx.colors = {}
    for ax, args, kw, art in rec.surfaces:
        n = kw.get("label")
        if n in LABELS:
            ctx.check("surfaces are drawn once", n not in drawn)
            drawn[n] = (args, art)
            if kw.get("color") is not None:
                # the colors identify the contributions
                c = ctx.colors.setdefault(n, kw["color"])
                ctx.check("color of a contribution does not change", kw["color"] == c)
    ctx.check("contributions have different colors",
              len(set(map(str, ctx.colors.values()))) == len(ctx.colors), colors=str(ctx.colors))
    want = [LABELS["tsvi".index(i)] for i in contribs]
    ctx.check("requested contributions are drawn", sorted(drawn) == sorted(want),
              got=sorted(drawn), expected=sorted(want))
    shown = [c for c in A.ax.collections if c.get_label() in LABELS]
    ctx.check("only the current surfaces are visible", len(shown) == len(want)
              and all(any(a is c for _, a in drawn.values()) for c in shown),
              got=[c.get_label() for c in shown])
    leg = A.ax.get_legend()
    ctx.check("the legend shows the contributions", leg is not None
              and sorted(i.get_text() for i in leg.get_texts()) == sorted(want))
    # indicators for the incident and the specular direction
    angles = []
    for ln in A.ax.lines:
        d = np.array(ln.get_data_3d(), float)
        x, y, z = d[:, np.argmax(np.abs(d).sum(axis=0))]  # (the end of the line)
        ctx.check("indicators start at the origin and are in the plane of incidence",
                  np.any(np.all(d == 0, axis=0)) and abs(y) <= 1e-9 * (abs(x) + abs(z)))
        if x or z:
            angles.append(np.rad2deg(np.arctan2(x, z)))
    if angles:
        ctx.check("indicated directions", len(angles) == 2
                  and np.allclose(sorted(angles), [-inc, inc], rtol=0, atol=1e-6),
                  got=str(angles), inc=inc)
    for n, ((x, y, z), art) in drawn.items():
        r = res[LABELS.index(n)]
        scale = float(np.max(np.abs(r)))
        for what, got, exp in (
            ("x", x, r * np.sin(t) * np.cos(p)), ("y", y, r * np.sin(t) * np.sin(p)),
            ("z", z, r * np.cos(t)),
        ):
            ctx.mon.compare(ctx.prop, f"{what}-coordinates of {n}", np.asarray(got), exp,
                            rtol=1e-7, atol=1e-8 * scale + 1e-49, inc=inc)


CHECKS["C22"] = dict(
    case=analyze3d_case, judge=(), n=dict(quick=100, thorough=900),
    rule="random models are opened in the 3D analyzer with random sliders, contributions and "
    "resolutions; after each interaction the coordinates of all drawn surfaces (recorded at the "
    "plotting-library) are compared with a freshly configured bistatic model; distinct by "
    "model, sliders, contributions and interactions")


# ------------------------------------------------------------------------------ C23 polarplot
def fingerprint(obj, P):
    """values, scattering-angle weights and expansion of a scattering function"""
    val = obj.calc(0.3, 0.7, 0.2, 1.1, dict(P))
    return (np.asarray(val).tobytes(), str(obj.a), str(getattr(obj, "ncoefs", None)),
            str(obj.phase_function))


def polarplot_case(ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb

    g, mon, rt1 = ctx.g, ctx.mon, ctx.rt1
    ctx.backend(0.3)
    kind = g.pick(["V", "S"])
    obj = g.scatter(kind, 5, lincomb=0.25, symbolic=0.6)
    spec = mon.specs[id(obj)]
    has_n = True
    if spec["cls"] in ("HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm") and g.chance(0.2):
        s2 = dict(spec)
        s2.pop("ncoefs")
        obj = make_scatter(rt1, s2)
        spec, has_n = mon.specs[id(obj)], False
    ctx.note(sig(spec), has_n)
    req = sorted(ref.spec_symbols(spec))
    n_par = 1 if not req else int(ctx.rng.integers(1, 3))
    pars = [{k: float(ctx.rng.uniform(0.06, 0.59)) for k in req} for _ in range(n_par)]
    pars_in = [dict(p) for p in pars]
    inc = [float(i) for i in ctx.rng.choice(np.arange(0, 90, 5.0),
                                           size=int(ctx.rng.integers(1, 5)), replace=False)]
    aprox = g.pick([True, True, False])
    legend = g.chance(0.7)
    kw = dict(inc=inc, aprox=aprox, legend=legend)
    if pars != [{}] or g.chance(0.3):
        kw["param_dict"] = pars[0] if n_par == 1 and g.chance(0.6) else pars
    label = g.pick([None, "my label"])
    if label:
        kw["label"] = label
    own = g.chance(0.5)
    if own:
        fig = plt.figure()
        kw["ax"] = fig.add_subplot(111, projection="polar")
    ground = g.pick(["default", "default", "#ab12cd", None])
    if ground != "default":
        kw["groundcolor"] = ground
    ctx.note(len(inc), aprox, legend, n_par, own, ground)
    before = fingerprint(obj, pars[0])
    if g.chance(0.5):
        obj.polarplot(**kw)
    else:
        from rt1_model.plot import polarplot

        polarplot(V_SRF=obj, **kw)
    ax = kw["ax"] if own else plt.gcf().axes[0]
    solid = [ln for ln in ax.lines if ln.get_linestyle() == "-"]
    dashed = [ln for ln in ax.lines if ln.get_linestyle() == "--"]
    do_ap = aprox and has_n
    n_exp = len(inc) * n_par
    ctx.check("one curve per incidence angle and parameter-set",
              len(solid) == n_exp and len(dashed) == (n_exp if do_ap else 0),
              got=(len(solid), len(dashed)))
    cols = {}
    for lines, f, what in ((solid, ref.phase, "distribution"),
                           (dashed, ref.expansion, "approximation")):
        rest = list(lines)
        if not rest:
            continue
        for P in pars:
            for i in inc:
                best = None
                for ln in rest:
                    x = np.asarray(ln.get_xdata(), float)
                    y = np.asarray(ln.get_ydata(), float)
                    e = np.broadcast_to(f(spec, np.deg2rad(i), x, 0.0, 0.0, P), x.shape)
                    err = np.max(np.abs(y - e)) / (np.max(np.abs(e)) + 1e-12)
                    lo, hi = (-np.pi / 2, np.pi / 2) if kind == "S" else (0, 2 * np.pi)
                    if not (x.min() <= lo + 0.05 and x.max() >= hi - 0.05):
                        ctx.fail("curves do not cover all directions")
                    if best is None or err < best[0]:
                        best = (err, ln)
                ctx.check(f"curve of the {what}", best[0] < 1e-7, error=best[0], inc=i,
                          params=P, spec=short(spec, 500))
                rest.remove(best[1])
                cols.setdefault((what, i), set()).add(to_rgb(best[1].get_color()))
    # (the expansion may have negative values)
    top = max(float(np.max(ln.get_ydata())) for ln in (*solid, *dashed))
    ctx.check("all curves are inside of the displayed range",
              ax.get_rmin() <= 0 and ax.get_rmax() >= top * (1 - 1e-9),
              limits=(ax.get_rmin(), ax.get_rmax()), top=top)
    # labelled directions
    for x, t in zip(ax.get_xticks(), ax.get_xticklabels()):
        m = re.search(r"(-?[\d.]+)", t.get_text())
        if m:
            d = (np.rad2deg(x) - float(m.group(1)) + 180) % 360 - 180
            ctx.check("labels of the directions", abs(d) < 0.51, position=float(np.rad2deg(x)),
                      label=t.get_text())
    # arrows for the incident directions (against the displayed direction of scattering)
    arrows = [p for p in ax.patches if type(p).__name__ == "FancyArrow"]
    if arrows:
        got = []
        for p in arrows:
            v = np.asarray(p.get_xy(), float)
            v = v[np.abs(v[:, 1]) > 1e-12]
            got.append(float(np.rad2deg(v[np.argmax(v[:, 1]), 0])))
        ctx.check("indicators for the incident directions",
                  np.allclose(sorted(got), sorted(-i for i in inc), rtol=0, atol=0.2),
                  got=got, inc=inc)
    if ground == "#ab12cd" or kind == "V" or ground is None:
        want = kind == "S" and ground is not None
        found = []
        for p in (*ax.patches, *ax.collections):
            if type(p).__name__ == "FancyArrow":
                continue
            fc = np.atleast_2d(p.get_facecolor())
            if ground == "#ab12cd" and np.allclose(fc[0, :3], to_rgb("#ab12cd"), atol=1e-3):
                v = (p.get_path() if hasattr(p, "get_path") else p.get_paths()[0]).vertices
                found.append((np.rad2deg(v[:, 0].min()), np.rad2deg(v[:, 0].max())))
            elif ground is None or kind == "V":
                if type(p).__name__ == "Polygon":
                    found.append("polygon")
        ctx.check("the ground is shown for surfaces if requested", bool(found) == want,
                  got=found)
        if want:
            ctx.check("the ground is the lower hemisphere",
                      all(abs(a - 90) < 2 and abs(b - 270) < 2 for a, b in found), got=found)
    ctx.check("the plotted function is not modified",
              fingerprint(obj, pars[0]) == before and pars == pars_in)
    if label:
        ctx.check("label", label in ax.get_title(), got=ax.get_title())
    ctx.check("legend is optional", (ax.get_legend() is not None) == legend)
    if legend:
        # the legend assigns the colors to the incidence angles
        leg = ax.get_legend()
        entries = {}
        for h, t in zip(leg.legend_handles, leg.get_texts()):
            m = re.search(r"= *([\d.]+)", t.get_text())
            if m:
                entries[float(m.group(1))] = to_rgb(h.get_color())
        ctx.check("legend lists all incidence angles", sorted(entries) == sorted(inc),
                  got=sorted(entries), expected=sorted(inc))
        simple = len({tuple(c.get_ydata()) for c in solid}) == len(solid)
        for i in inc:
            if simple and spec["cls"] != "Isotropic":
                ctx.check("legend colors", cols[("distribution", i)] == {entries[i]},
                          inc=i)
    # missing parameters are reported
    if req:
        k = g.pick(req)
        bad = [dict(p) for p in pars]
        bad[-1].pop(k)
        try:
            obj.polarplot(inc=inc, param_dict=bad)
        except Exception:
            pass
        else:
            ctx.fail("missing parameters were not reported", missing=k)
        mon.oracles["C23:missing parameters are reported"] += 1


CHECKS["C23"] = dict(
    case=polarplot_case, judge=("C11",), n=dict(quick=200, thorough=2000),
    rule="random distributions, incidence angles and parameter-sets; every drawn curve is "
    "compared with the published distribution (solid) and its truncated expansion (dashed); "
    "distinct by distribution and plot-options")


# ------------------------------------------------------------------------------- C24 logging
PRESETS = {
    "plain": r"^MSG$",
    "minimal": r"^\d\d:\d\d:\d\d\.\d{3}: MSG$",
    "timed": r"^\d\d:\d\d:\d\d\.\d{3} LEVEL: MSG$",
    "debug": r"^\d\d:\d\d:\d\d\.\d{3} LEVEL: NAME: MSG$",
    "<<%(levelname)s>> %(message)s": r"^<<LEVEL>> MSG$",
    "%(name)s|%(message)s": r"^NAME\|MSG$",
}
LEVELS = ["debug", "info", "warning", "error", "critical"]


def loglevel_case(ctx):
    from rt1_model import set_loglevel

    g = ctx.g
    log = logging.getLogger("rt1_model")
    root = logging.getLogger()
    before = (log.level, log.propagate, list(root.handlers), root.level)
    foreign = logging.StreamHandler(io.StringIO())
    use_foreign = g.chance(0.3)
    if use_foreign:
        log.addHandler(foreign)
    # (the application has its own handlers)
    app_buf = io.StringIO()
    app = logging.StreamHandler(app_buf)
    app.setFormatter(logging.Formatter("app: %(message)s"))
    propagate = g.chance(0.6)
    log.propagate = propagate
    for h in before[2]:
        root.removeHandler(h)
    root.addHandler(app)
    fmt_now = None
    try:
        for step in range(int(ctx.rng.integers(2, 7))):
            level = g.pick(LEVELS)
            arg = g.pick([level, level.upper(), level.capitalize(),
                          getattr(logging, level.upper())])
            threshold = getattr(logging, level.upper())
            if g.chance(0.15):
                # (numeric levels are not limited to those with names)
                arg = threshold = g.pick([1, 15, 25, 31, 45, 60])
            elif g.chance(0.07):
                # (the level of the application is used)
                arg, threshold = g.pick(["notset", "NOTSET", 0]), root.level
            handler_level = 0 if str(arg).upper() in ("NOTSET", "0") else threshold
            fmt = g.pick([*PRESETS, None, "default"] if fmt_now else [*PRESETS, "default"])
            ctx.note(arg, fmt)
            if fmt is None:
                set_loglevel(arg, fmt=None)
            elif fmt == "default":
                fmt = "timed"
                set_loglevel(arg)
            elif g.chance(0.5):
                set_loglevel(arg, fmt=fmt)
            else:
                set_loglevel(arg, fmt)
            fmt_now = fmt or fmt_now
            own = [h for h in log.handlers if h is not foreign]
            ctx.check("exactly one handler is attached", len(own) == 1, got=str(own))
            ctx.check("other handlers are kept", (foreign in log.handlers) == use_foreign)
            ctx.check("the root logger is not changed",
                      root.handlers == [app] and root.level == before[3])
            ctx.check("handling of messages by the application is not changed",
                      log.propagate is propagate and not log.filters and not log.disabled
                      and app.level == 0 and app.formatter._fmt == "app: %(message)s")
            buf = io.StringIO()
            old = own[0].setStream(buf)
            try:
                # (modules with their own level are limited by the level of the handler)
                module = logging.getLogger("rt1_model.detailed")
                module.setLevel(1)
                for lv in LEVELS:
                    buf.seek(0)
                    buf.truncate()
                    num = getattr(logging, lv.upper())
                    module.log(num, "hello")
                    ctx.check("the level of the handler is set",
                              bool(buf.getvalue()) == (num >= handler_level),
                              got=buf.getvalue(), level=lv, requested=arg)
                for name in ("rt1_model", "rt1_model.sub"):
                    for lv in LEVELS:
                        buf.seek(0)
                        buf.truncate()
                        app_buf.seek(0)
                        app_buf.truncate()
                        logging.getLogger(name).log(getattr(logging, lv.upper()), "hello %d",
                                                    step)
                        got = buf.getvalue()
                        num = getattr(logging, lv.upper())
                        if num < threshold:
                            ctx.check("messages below the level are suppressed", got == "",
                                      got=got)
                            continue
                        ctx.check("messages are passed on to the application",
                                  app_buf.getvalue() == (f"app: hello {step}\n" * propagate),
                                  got=app_buf.getvalue())
                        pat = (PRESETS[fmt_now].replace("MSG", f"hello {step}")
                               .replace("LEVEL", lv.upper()).replace("NAME", re.escape(name)))
                        ctx.check("messages are shown once in the requested format",
                                  got.endswith("\n")
                                  and re.match(pat, got[:-1]) is not None,
                                  got=got, pattern=pat, level=level)
            finally:
                own[0].setStream(old)
    finally:
        log.removeHandler(foreign)
        root.removeHandler(app)
        for h in before[2]:
            root.addHandler(h)
        log.setLevel(before[0])
        log.propagate = before[1]


CHECKS["C24"] = dict(
    case=loglevel_case, judge=(), n=dict(quick=300, thorough=3000),
    rule="random sequences of log-level/format configurations (names in any case, numbers, "
    "presets and format-strings; with and without additional handlers); messages of all levels "
    "are emitted by the package-logger and a child after each call and the written text is "
    "compared with the requested configuration; distinct by the sequence")
