"""
Independent reference model used as oracle by the monitors.

Everything in here is plain numpy and implements the *published* definitions (scattering
distributions, closed-form surface/volume contributions, numerical double-bounce integral).
It shares no code (and no algorithm for the interaction-term) with the monitored package.
All functions accept complex numbers for the parameters so that derivatives can be obtained
with the complex-step method.
"""
import ast
import numpy as np
from numpy.polynomial.legendre import leggauss, legvander

_NS = dict(
    sin=np.sin, cos=np.cos, exp=np.exp, sqrt=np.sqrt, log=np.log, tan=np.tan,
    tanh=np.tanh, pi=np.pi,
)
_code_cache = {}


def names_in(expr):
    """Names of the free parameters of an expression (numbers have none)."""
    if isinstance(expr, str):
        return sorted(
            {n.id for n in ast.walk(ast.parse(expr, mode="eval")) if isinstance(n, ast.Name)}
            - set(_NS)
        )
    return []


def ev(expr, P):
    """Value of a number or an expression-string for the given parameter-values."""
    if isinstance(expr, str):
        code = _code_cache.get(expr)
        if code is None:
            code = _code_cache[expr] = (compile(expr, "<expr>", "eval"), names_in(expr))
        code, names = code
        return eval(code, {"__builtins__": {}},
                    {**_NS, **{k: double(P[k]) for k in names if k in P}})
    return expr


def double(v):
    """Numbers of any type as double-precision numbers."""
    dt = getattr(v, "dtype", None)
    if dt is None:
        return float(v) if isinstance(v, bool) else v
    return np.asarray(v, dtype=float) if dt != np.float64 and dt.kind in "biuf" else v


# --------------------------------------------------------------------------- distributions
def default_a(spec):
    if spec.get("a") is not None:
        return list(spec["a"])
    return [-1.0, 1.0, 1.0] if spec["kind"] == "V" else [1.0, 1.0, 1.0]


def spec_symbols(spec, skip_zero=False):
    """All parameter-names required to evaluate a scattering distribution."""
    out = set()
    if spec["cls"] == "LinComb":
        for w, part in spec["parts"]:
            if not (skip_zero and not names_in(w) and float(ev(w, {})) == 0):
                out |= set(names_in(w)) | spec_symbols(part, skip_zero)
        return out
    if spec["cls"] != "Isotropic":
        for i in default_a(spec):
            out |= set(names_in(i))
    for i in (spec.get("t"), spec.get("w"), *(spec.get("c") or ())):
        out |= set(names_in(i))
    return out


def scat_cos(a, t0, tex, p0, pex, P):
    a = [ev(i, P) for i in a]
    return (
        a[0] * np.cos(t0) * np.cos(tex)
        + np.sin(t0) * np.sin(tex)
        * (a[1] * np.cos(p0) * np.cos(pex) + a[2] * np.sin(p0) * np.sin(pex))
    )


def hg_nadir_norm(t, a0):
    """Hemispherical reflectance (nadir incidence) of (1-t^2)/(pi (1+t^2-2 t a0 mu)^1.5)."""
    # 2 int_0^1 mu (1-t^2) / (c - b mu)^1.5 dmu ;  c = 1 + t^2, b = 2 t a0
    # evaluated with a (machine-precision) Gauss quadrature to avoid cancellations
    x, w = _gl01(200)
    t = np.asarray(t)[..., None]
    a0 = np.asarray(a0)[..., None]
    val = 2 * x * (1 - t**2) / (1 + t**2 - 2 * t * a0 * x) ** 1.5
    return np.sum(w * val, axis=-1)


_gl_cache = {}


def _gl01(n):
    if n not in _gl_cache:
        x, w = leggauss(n)
        _gl_cache[n] = ((x + 1) / 2, w / 2)
    return _gl_cache[n]


def basic_func(spec, x, P):
    """Value of a (non-combined) distribution for a given cosine of the scattering angle."""
    cls, kind = spec["cls"], spec["kind"]
    if cls == "Isotropic":
        return np.full(np.shape(x), 1 / np.pi if kind == "S" else 1 / (4 * np.pi)) + 0 * x
    if cls == "Rayleigh":
        return 3 / (16 * np.pi) * (1 + x**2)
    if cls == "CosineLobe":
        pos = np.where(np.real(x) > 0, x, 0)
        if spec["i"] == 0:
            return np.where(np.real(x) == x, 1.0, 1.0) / np.pi + 0 * x
        return pos ** spec["i"] / np.pi
    if cls == "Poly":  # (user-defined distributions)
        return sum(ev(c, P) * x**k for k, c in enumerate(spec["c"]))
    if cls == "Exp":
        return ev(spec["w"], P) * np.exp(spec["k"] * (x - 1))
    t = ev(spec["t"], P)
    if cls == "HenyeyGreenstein":
        norm = np.pi if kind == "S" else 4 * np.pi
        return (1 - t**2) / norm / (1 + t**2 - 2 * t * x) ** 1.5
    if cls == "HGRayleigh":
        return (
            3 / (8 * np.pi) / (2 + t**2) * (1 + x**2) * (1 - t**2)
            / (1 + t**2 - 2 * t * x) ** 1.5
        )
    if cls == "HG_nadirnorm":
        a0 = ev(default_a(spec)[0], P)
        return (1 - t**2) / np.pi / (1 + t**2 - 2 * t * x) ** 1.5 / hg_nadir_norm(t, a0)
    raise NotImplementedError(cls)


def phase(spec, t0, tex, p0, pex, P):
    """Value of a scattering distribution."""
    if spec["cls"] == "LinComb":
        return sum(ev(w, P) * phase(s, t0, tex, p0, pex, P) for w, s in spec["parts"])
    if spec["cls"] == "Angles":  # (user-defined function of the individual angles)
        return ev(spec["w"], P) * np.cos(t0) * np.cos(tex) ** 2 + ev(spec["c"][0], P) * (
            1 + np.sin(t0) * np.cos(p0 - pex - 0.3))
    if spec["cls"] == "Isotropic":
        return basic_func(spec, 0.0 * (t0 + tex + p0 + pex), P)
    return basic_func(spec, scat_cos(default_a(spec), t0, tex, p0, pex, P), P)


# ---------------------------------------------------------------------- Legendre expansions
def own_ncoefs(spec):
    if spec["cls"] == "Isotropic":
        return 1
    if spec["cls"] == "Rayleigh":
        return 3
    if spec["cls"] == "LinComb":
        return max(own_ncoefs(s) for _, s in spec["parts"])
    return spec["ncoefs"]


def leg_coefs(spec, P, n):
    """First n Legendre-coefficients (numerical projection), shape (n,) + parameter-shape."""
    def proj(lo, hi, npts):
        x, w = _gl01(npts)
        x = lo + (hi - lo) * x
        w = (hi - lo) * w
        shape = np.broadcast_shapes(*(np.shape(v) for v in P.values()), ())
        xx = x.reshape((-1,) + (1,) * len(shape))
        f = basic_func(spec, xx, P)
        f = np.broadcast_to(f, (npts,) + np.broadcast_shapes(np.shape(f)[1:], shape))
        return np.einsum("i,in,i...->n...", w, legvander(x, n - 1), f)

    if spec["cls"] == "CosineLobe" :
        c = proj(0.0, 1.0, 60)
        if spec["i"] == 0:
            c = c  # the expansion represents the step-function
    elif spec["cls"] in ("Isotropic", "Rayleigh", "Poly", "Exp"):
        c = proj(-1.0, 1.0, 30)
    else:
        c = proj(-1.0, 1.0, 400)
    fac = (2 * np.arange(n) + 1) / 2
    return c * fac.reshape((-1,) + (1,) * (c.ndim - 1))


def groups(spec, P):
    """[(a, coefs)] for all groups of equal generalization parameters."""
    if spec["cls"] != "LinComb":
        return [(default_a(spec), leg_coefs(spec, P, own_ncoefs(spec)))]
    grp = {}
    for w, s in spec["parts"]:
        grp.setdefault(tuple(default_a(s)), []).append((w, s))
    out = []
    for a, parts in grp.items():
        n = max(own_ncoefs(s) for _, s in parts)
        out.append((list(a), sum(ev(w, P) * leg_coefs(s, P, n) for w, s in parts)))
    return out


def _legsum(c, x):
    """sum_n c_n P_n(x) for coefficients of shape (n, ...) broadcasting against x."""
    n = len(c)
    p0, p1 = np.ones_like(x), x
    res = c[0] * p0
    if n > 1:
        res = res + c[1] * p1
    for k in range(1, n - 1):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
        res = res + c[k + 1] * p1
    return res


def expansion(spec, t0, tex, p0, pex, P, grp=None):
    """Value of the truncated Legendre-expansion."""
    res = 0
    for a, c in grp if grp is not None else groups(spec, P):
        if len(c) == 1:  # (independent of the scattering angle)
            res = res + c[0] * np.ones_like(np.cos(t0 + tex + p0 + pex))
            continue
        res = res + _legsum(c, scat_cos(a, t0, tex, p0, pex, P))
    return res


# -------------------------------------------------------------------------- interaction term
def _mu_nodes():
    """Composite Gauss-nodes on [0, 1], geometrically refined towards 0 and 1."""
    if "mu" not in _gl_cache:
        x, w = _gl01(24)
        edges = [0.0] + [2.0 ** (-k) for k in range(24, 0, -1)]
        edges += [1.0 - 2.0 ** (-k) for k in range(2, 10)] + [1.0]
        X = np.concatenate([a + (b - a) * x for a, b in zip(edges[:-1], edges[1:])])
        W = np.concatenate([(b - a) * w for a, b in zip(edges[:-1], edges[1:])])
        _gl_cache["mu"] = (X, W)
    return _gl_cache["mu"]


def _kernel(mu, mu0, tau):
    """mu / (mu0 - mu) * (exp(-tau / mu0) - exp(-tau / mu)) without cancellations."""
    x = tau * (mu0 - mu) / (mu * mu0)
    xs = np.where(x == 0, 1.0, x)
    with np.errstate(over="ignore", invalid="ignore", under="ignore"):
        pos = np.exp(-tau / mu0) * np.where(x == 0, 1.0, -np.expm1(-xs) / xs)
        neg = np.exp(-tau / mu) * np.where(x == 0, 1.0, np.expm1(xs) / xs)
    return tau / mu0 * np.where(x >= 0, pos, neg)


def _poly_G(V, S, gV, gS, t0, tex, p0, pex, P, nV, nS):
    """
    phi-integrated product of the expansions at nV + nS + 2 Chebyshev nodes in mu.

    Elements are on the leading axis; returns (elements, nodes).
    """
    K = nV + nS + 2
    nodes = 0.5 + 0.5 * np.cos(np.pi * (np.arange(K) + 0.5) / K)
    nphi = nV + nS + 3
    phi = 2 * np.pi * np.arange(nphi) / nphi
    th = np.arccos(nodes)[None, :, None]
    ph = phi[None, None, :]

    def e(v):
        return v[:, None, None]

    Pe = {k: e(v) for k, v in P.items()}
    gVe = [(a, c[..., None, None] if np.ndim(c) > 1 else c[..., None, None, None]) for a, c in gV]
    gSe = [(a, c[..., None, None] if np.ndim(c) > 1 else c[..., None, None, None]) for a, c in gS]
    f = expansion(V, np.pi - e(t0), th, e(p0), ph, Pe, gVe) * expansion(
        S, th, e(tex), ph, e(pex), Pe, gSe
    )
    return nodes, 2 * np.pi * f.mean(axis=-1)


def _bary(nodes, vals, x):
    """Evaluate the interpolating polynomials (Chebyshev nodes) at x."""
    K = len(nodes)
    w = (-1.0) ** np.arange(K) * np.sin(np.pi * (np.arange(K) + 0.5) / K)
    d = x[:, None] - nodes[None]
    hit = d == 0
    d = np.where(hit, 1.0, d)
    c = w / d
    M = c / c.sum(axis=1, keepdims=True)
    rows = hit.any(axis=1)
    M[rows] = hit[rows].astype(float)
    return vals @ M.T


def interaction_elements(V, S, t0, tex, p0, pex, tau, P):
    """
    The (un-normalized) double-bounce sum for 1D arrays of equal length.

    exp(-tau/mu_ex) F(0 -> ex) + exp(-tau/mu_0) F(ex -> 0)

    Returns the value and a scale (an upper bound for the magnitude of all terms of the
    expanded solution that is used to judge numerical noise).
    """
    nV, nS = own_ncoefs(V), own_ncoefs(S)
    gV, gS = groups(V, P), groups(S, P)
    mu, w = _mu_nodes()
    mu0, muex = np.cos(t0), np.cos(tex)
    # (the coefficients of the monomials in the n-th Legendre polynomial grow as 2.41**n)
    absV = sum(sum(np.abs(i) * 2.6**n for n, i in enumerate(c)) for _, c in gV)
    absS = sum(sum(np.abs(i) * 2.6**n for n, i in enumerate(c)) for _, c in gS)
    val, scale = 0, 0
    for a_t0, a_tex, a_p0, a_pex, m_in, m_out in (
        (t0, tex, p0, pex, mu0, muex),
        (tex, t0, pex, p0, muex, mu0),
    ):
        nodes, G = _poly_G(V, S, gV, gS, a_t0, a_tex, a_p0, a_pex, P, nV, nS)
        k = _kernel(mu[None], m_in[:, None], tau[:, None])
        F = np.sum(w * k * _bary(nodes, G, mu), axis=1)
        att = np.exp(-tau / m_out)
        val = val + att * F
        scale = scale + att * np.sum(w * k, axis=1) * absV * absS * 2 * np.pi
        # noise of the closed-form solution: expn/expi terms of order one
        scale = scale + att * absV * absS * 2 * np.pi * np.exp(-tau)
    return val, scale


# --------------------------------------------------------------------------- complete model
class RefModel:
    """
    Reference evaluation of a complete model-state.

    state: dict(V, S, t_0, t_ex, p_0, p_ex (resolved), P (param values), defs (tau, omega,
    NormBRDF, bsf), I0, sig0, dB)
    """

    def __init__(self, state):
        self.s = state

    def q(self, name, P=None):
        return ev(self.s["defs"][name], self.s["P"] if P is None else P)

    def surface(self, P=None):
        s = self.s
        P = s["P"] if P is None else P
        mu0, muex = np.cos(s["t_0"]), np.cos(s["t_ex"])
        tau, bsf = self.q("tau", P), self.q("bsf", P)
        br = phase(s["S"], s["t_0"], s["t_ex"], s["p_0"], s["p_ex"], P)
        return (
            self.q("NormBRDF", P) * s["I0"] * mu0 * br
            * ((1 - bsf) * np.exp(-tau / mu0 - tau / muex) + bsf)
        )

    def volume(self, P=None):
        s = self.s
        P = s["P"] if P is None else P
        mu0, muex = np.cos(s["t_0"]), np.cos(s["t_ex"])
        tau, bsf = self.q("tau", P), self.q("bsf", P)
        p = phase(s["V"], s["t_0"], s["t_ex"], s["p_0"], s["p_ex"], P)
        x = tau / mu0 + tau / muex
        att = -np.expm1(-x) if not np.iscomplexobj(x) else 1 - np.exp(-x)
        return (1 - bsf) * s["I0"] * self.q("omega", P) * mu0 / (mu0 + muex) * att * p

    def interaction(self):
        s = self.s
        P = s["P"]
        tau = self.q("tau")
        keys = sorted(
            (spec_symbols(s["V"]) | spec_symbols(s["S"])) & set(P)
        )
        arrs = [np.asarray(v, dtype=float) for v in
                (s["t_0"], s["t_ex"], s["p_0"], s["p_ex"], tau, *(P[k] for k in keys))]
        shape = np.broadcast_shapes(*(np.shape(i) for i in arrs))
        flat = [np.broadcast_to(i, shape).reshape(-1) for i in arrs]
        val, scale = interaction_elements(
            s["V"], s["S"], *flat[:4], flat[4], dict(zip(keys, flat[5:]))
        )
        val, scale = val.reshape(shape), scale.reshape(shape)
        fac = (
            self.q("NormBRDF") * (1 - self.q("bsf")) * s["I0"] * np.cos(s["t_0"])
            * self.q("omega")
        )
        zero = np.equal(np.broadcast_to(tau, shape), 0)
        return fac * np.where(zero, 0.0, val), np.abs(fac) * scale

    def convert(self, val, linear=False):
        s = self.s
        if s["sig0"]:
            val = val * (4 * np.pi * np.cos(s["t_0"]) / s["I0"])
        if s["dB"] and not linear:
            with np.errstate(all="ignore"):
                val = 10 * np.log10(val)
        return val

    def derivative(self, key, quantity=False):
        """d (surface + volume) / d key in the requested units."""
        s = self.s
        h = 1e-30
        if quantity:
            defs = dict(s["defs"])
            tmp = RefModel({**s, "defs": {**defs, key: np.asarray(self.q(key)) + 1j * h}})
            P = s["P"]
        else:
            tmp = self
            P = dict(s["P"])
            P[key] = np.asarray(P[key], dtype=complex) + 1j * h
        val = tmp.surface(P) + tmp.volume(P)
        if s["sig0"]:
            val = val * (4 * np.pi * np.cos(s["t_0"]) / s["I0"])
        if s["dB"]:
            return np.imag(val) / h / np.real(val) * 10 / np.log(10)
        return np.imag(val) / h
