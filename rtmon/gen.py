"""Seeded generators for model specifications, parameters, geometries and histories."""
import numpy as np

from . import ref

NAMES = ["x", "y", "t", "t_v", "N", "S", "Q", "k1", "np", "a", "frc", "VWC", "w2", "t_0",
         "p_ex", "param", "key", "mu", "func", "i"]
QUANT = ["tau", "omega", "NormBRDF", "bsf"]


class Gen:
    def __init__(self, rng, rt1):
        self.rng = rng
        self.rt1 = rt1
        self.names = [str(i) for i in rng.permutation(NAMES)[:4]]
        self.shared = 0.1
        self.p_structured = 0.3
        self.zeros = False  # (parameters of scattering functions can be 0)
        self.p_zero = 0.0  # (special weights of combinations)

    # ------------------------------------------------------------------------- helpers
    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return self.rng.random() < p

    def uni(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    # --------------------------------------------------------------- expressions (0..0.8)
    def expr(self, symbolic=0.6, shared=None, quant=("omega", "NormBRDF")):
        """A scalar-definition with values in (0, 0.8) if all symbols are in (0.05, 0.6)."""
        if not self.chance(symbolic):
            v = round(self.uni(0.05, 0.7), 3)
            return self.pick([v, v, str(v)])
        x = self.pick(self.names)
        y = self.pick(list(quant) if self.chance(
            self.shared if shared is None else shared) else self.names)
        # (the square root can not be differentiated at 0)
        root = f"sin({x}) * {y}" if self.zeros else f"sqrt({x}) * 0.9"
        return self.pick([
            x, x, x, f"{x} / 2", f"{x} * {y}", f"0.1 + {x} / 4", f"({x} + {y}) / 2",
            root, f"sin({x})", f"{x} ** 2", f"exp(-{y}) * {x}",
            f"1 - {x} - 0.35", f"{x} / (1 + {y})",
        ])

    def a_param(self, kind):
        r = self.rng.random()
        s = -1.0 if kind == "V" else 1.0
        if r < 0.55:
            return None
        if r < 0.7:
            return [s * self.pick([1.0, 0.8, 0.5, -1.0]), 1.0, 1.0]
        if r < 0.8:
            return [s, self.pick([1.0, 0.6]), self.pick([1.0, 0.3, -0.5])]
        if r < 0.9:
            y = round(self.uni(-1, 1), 2)
            # (equal parameters: rotationally symmetric distributions)
            return (s * round(self.uni(0.3, 1), 2), y,
                    y if self.chance(0.4) else round(self.uni(-1, 1), 2))
        return [self.pick(self.names), 1.0, self.pick([1.0, 0.7])]

    # ------------------------------------------------------------------------- scattering
    def scatter(self, kind, nmax, lincomb=0.2, symbolic=0.6, ncoefs=None, a="random",
                cls=None):
        rng = self.rng
        mod = self.rt1.volume if kind == "V" else self.rt1.surface
        if cls is None and lincomb and self.chance(lincomb):
            n = int(rng.integers(2, 4))
            parts = [
                (self.pick([0, 0.0, 1, 1.0, 2]) if self.chance(self.p_zero)
                 else self.expr(symbolic * 0.7),
                 self.scatter(kind, nmax, lincomb=0, symbolic=symbolic, ncoefs=ncoefs, a=a))
                for _ in range(n)
            ]
            return mod.LinComb(parts)
        if cls is None:
            pool = (
                ["Isotropic", "Rayleigh", "HenyeyGreenstein", "HenyeyGreenstein",
                 "HGRayleigh"]
                if kind == "V"
                else ["Isotropic", "HenyeyGreenstein", "HenyeyGreenstein", "CosineLobe",
                      "HG_nadirnorm"]
            )
            if nmax < 3:
                pool = [i for i in pool if i != "Rayleigh"]
            cls = self.pick(pool)
        kw = {}
        if cls not in ("Isotropic", "Rayleigh"):
            kw["ncoefs"] = ncoefs or int(rng.integers(1, nmax + 1))
        if cls == "CosineLobe":
            kw["i"] = int(rng.integers(1, 7))
        elif cls not in ("Isotropic", "Rayleigh"):
            t = self.expr(symbolic)
            if isinstance(t, float) and self.chance(0.4):
                t = -t
            elif isinstance(t, float) and self.chance(0.35 if self.zeros else 0.06):
                t = self.pick([0.0, 0, 1e-4, "0"])
            kw["t"] = t
        av = self.a_param(kind) if a == "random" else a
        if cls == "HG_nadirnorm" and av is not None and isinstance(av[0], str):
            av = [0.9, *av[1:]]
        if av is not None:
            kw["a"] = av
        return getattr(mod, cls)(**kw)

    # ---------------------------------------------------------------------- model parts
    def definition(self, q, symbolic=0.5):
        """A definition for tau, omega, NormBRDF or bsf; None keeps the default name."""
        r = self.rng.random()
        if r < 0.55:
            return None
        e = self.expr(symbolic=0.75, shared=0.15, quant=QUANT)
        if isinstance(e, str) and self.chance(0.2):
            import sympy as sp

            return sp.parse_expr(
                e, local_dict={k: sp.Symbol(k) for k in (*NAMES, *QUANT)})
        return e

    def grid(self):
        """Shape-family for parameters and angles."""
        n, m = int(self.rng.integers(1, 4)), int(self.rng.integers(1, 5))
        return n, m

    def arr(self, lo, hi, grid, scalar=0.4, special=()):
        """Random numbers with a shape that is broadcastable to the grid."""
        n, m = grid
        if self.chance(scalar):
            shape = ()
        else:
            shape = self.pick([(1,), (m,), (n, 1), (n, m), (1, m), (m,), (n, 1)])
        v = self.rng.uniform(lo, hi, size=shape)
        if len(special) and self.chance(0.25):
            mask = self.rng.random(shape) < 0.5
            v = np.where(mask, self.pick(list(special)), v)
        if np.size(v) > 1 and self.chance(self.p_structured):
            v = self.structured(v)
        if shape == ():
            v = float(v)
            return self.pick([v, v, np.float64(v), np.array(v), [v]])
        if self.chance(0.2):
            return np.asarray(v).tolist()
        v = np.array(v)
        return self.layout(v) if self.chance(0.1) else v

    def layout(self, v):
        """The same values with another memory layout."""
        k = int(self.rng.integers(5))
        if k == 0:
            return np.asfortranarray(v)
        if k == 1:
            return np.repeat(v, 2, axis=-1)[..., ::2]  # strided view
        if k == 2:
            return v[::-1].copy()[::-1]  # negative strides
        if k == 3:
            v = v.copy()
            v.flags.writeable = False
            return v
        return np.ascontiguousarray(v.T).T

    def dtype(self, v):
        """(Rounded) numbers that are represented by another type."""
        dt = self.pick([np.float32, np.float32, np.float16, np.dtype(">f8")])
        return np.asarray(v).astype(dt) if np.ndim(v) else dt.type(v) if isinstance(
            dt, np.dtype) else dt(v)

    def structured(self, v):
        """Coinciding / ordered elements (to hit short-cuts for special arrays)."""
        v = np.array(v)
        k = int(self.rng.integers(9))
        if k == 0:
            v[..., 0] = v.flat[0]  # constant first column
        elif k == 1:
            v[0] = v.flat[0]  # constant first row
        elif k == 2:
            v.flat[-1] = v.flat[0]  # first equals last
        elif k == 3:
            v[...] = v.flat[0]  # all equal
        elif k == 4:
            v = self.rng.choice(v.ravel()[:2], size=v.shape)  # only two values
        elif k == 5:
            v = np.sort(v, axis=None).reshape(v.shape)
        elif k == 6:
            v = np.sort(v, axis=None)[::-1].reshape(v.shape)
        elif k == 7:
            v = np.broadcast_to(v[..., :1], v.shape).copy()  # constant rows
        else:
            v = np.broadcast_to(v[:1], v.shape).copy()  # constant columns
        return v

    def perturb(self, v, name=""):
        """A modification of known values (e.g. changes that are easily overlooked)."""
        v = np.array(v, dtype=float)
        k = int(self.rng.integers(7 if v.size > 1 else 2))
        lo, hi = (0.02, 0.55) if not name.startswith("t_") else (0.05, 1.4)
        if k == 0:
            return v * (1 - self.uni(2, 8) * 1e-6)  # almost identical
        if k == 1:
            return v.flat[int(self.rng.integers(v.size))] * 1.0  # a scalar
        if k == 2:
            return v.ravel()[::-1].reshape(v.shape)  # the same values in reversed order
        if k == 3:
            v.flat[-1] = self.uni(lo, hi)  # only the last value
        elif k == 4:
            v.flat[0] = self.uni(lo, hi)  # only the first value
        elif k == 5:
            v = np.roll(v, 1)  # the same values in a different order
        else:
            v.flat[int(self.rng.integers(v.size))] *= 0.9  # a single value
        return v

    def value(self, name, grid, scalar=0.4):
        v = self._value(name, grid, scalar)
        return self.dtype(v) if self.chance(0.04) else v

    def _value(self, name, grid, scalar=0.4):
        if name == "bsf" and self.chance(0.02):
            return self.pick([False, True, np.array([False]), np.array([True])])
        if name in ("tau", "bsf") and self.chance(0.05):
            # integers
            v = self.arr(0, 2, grid, scalar)
            return np.asarray(np.round(v)).astype(int) if np.ndim(v) else int(round(float(v)))
        if name == "tau":
            v = self.arr(0.01, 2.5, grid, scalar, special=(0.0, 1e-3, 5.0))
            return self.tau_range(np.shape(v)) if self.chance(0.1) else v
        if name in ("omega", "NormBRDF"):
            return self.arr(0.02, 0.9, grid, scalar, special=self.pick(
                [(), (), (0.0, 1.0) + (2.5,) * (name == "NormBRDF")]))
        if name == "bsf":
            return self.arr(0.0, 0.9, grid, scalar, special=(0.0, 1.0))
        return self.arr(0.06, 0.59, grid, scalar, special=(0.0,) if self.zeros else ())

    def tau_range(self, shape):
        """Optical depths from negligible to opaque (on a logarithmic scale)."""
        v = 10.0 ** self.rng.uniform(-9, 2.9, shape)
        return v if shape else float(v)

    def angle(self, name, grid, scalar=0.4):
        if name.startswith("t"):
            # (nadir and grazing angles)
            return self.arr(0.02, 1.45, grid, scalar, special=(0.0, 0.0, 1.5, 1.55, 1.57))
        return self.arr(-np.pi, 2 * np.pi, grid, scalar, special=(0.0, np.pi))

    def angles(self, names, grid, scalar=0.4):
        """Angles that are (partly) related to each other."""
        out = {k: self.angle(k, grid, scalar) for k in names}
        if "t_0" in out and "t_ex" in out and self.chance(0.2):
            a, b = np.broadcast_arrays(out["t_0"], out["t_ex"])
            out["t_ex"] = a.copy() if self.chance(0.4) else np.where(
                self.rng.random(a.shape) < 0.5, a, b)
        if "p_0" in out and "p_ex" in out and self.chance(0.2):
            a, b = np.broadcast_arrays(out["p_0"], out["p_ex"])
            a = a + self.pick([0.0, np.pi, np.pi, np.pi / 2])
            out["p_ex"] = a if self.chance(0.4) else np.where(
                self.rng.random(a.shape) < 0.5, a, b)
        return out

    def quantity_symbols(self):
        return QUANT


def build(g, mon, nV=4, nS=4, mode=None, int_Q=None, units=None, defs=True, lincomb=0.2,
          symbolic=0.6, I0=None, a="random"):
    """Construct a random (un-evaluated) model with the real API; returns (R, mode)."""
    V = g.scatter("V", nV, lincomb, symbolic, a=a)
    S = g.scatter("S", nS, lincomb, symbolic, a=a)
    sig0, dB = units or (g.chance(0.5), g.chance(0.4))
    kw = dict(sig0=sig0, dB=dB)
    if int_Q is not None:
        kw["int_Q"] = int_Q
    if I0 is None:
        I0 = g.pick([1.0, 1.0, 2.5, 0.3])
    kw["I0"] = I0
    R = g.rt1.RT1(V=V, SRF=S, **kw)
    if defs:
        for q in QUANT:
            d = g.definition(q)
            if d is not None:
                setattr(R, q, d)
    if mode is None:
        mode = g.pick(["mono", "mono", "mono_f", "bi", "bi_f"])
    return R, mode


def set_geom(g, R, mode, grid, scalar=0.4, fixed=None):
    """Configure the geometry of a model and set all dynamic angles."""
    if mode == "mono":
        R.set_monostatic()
        R.set_geometry(t_0=g.angle("t_0", grid, scalar), p_0=g.angle("p_0", grid, scalar))
    elif mode == "mono_f":
        R.set_monostatic(p_0=g.pick([0, 0.0, 0.7, -1.2, g.uni(-3, 6), np.float64(2.1)]))
        R.set_geometry(t_0=g.angle("t_0", grid, scalar))
    else:
        names = ["t_0", "t_ex", "p_0", "p_ex"]
        if fixed is None:
            fixed = [] if mode == "bi" else list(
                g.rng.permutation(names)[: int(g.rng.integers(1, 5))])
        vals = {}
        for k in fixed:
            vals[k] = (g.pick([round(g.uni(0.05, 1.3), 3), g.uni(0.05, 1.3)])
                       if k.startswith("t")
                       else g.pick([0, round(g.uni(-3, 6), 3), g.uni(-3, 6), np.float64(1.5)]))
        R.set_bistatic(**vals)
        dyn = g.angles([k for k in names if k not in fixed], grid, scalar)
        if dyn and g.chance(0.3):
            for k, v in dyn.items():
                R.set_geometry(**{k: v})
        elif dyn:
            R.set_geometry(**dyn)
    return R


def params_for(g, mon, R, grid, scalar=0.4, names=None):
    sh = mon.shadow(R)
    req = sorted(sh.required() if names is None else names)
    out = {}
    for k in req:
        if k == "bsf" and sh.defs["bsf"] == "bsf" and g.chance(0.4):
            continue
        out[k] = g.value(k, grid, scalar)
    return out


def next_params(g, mon, R, grid, scalar=0.4):
    """New values for (some of) the parameters of a model that was already evaluated."""
    sh = mon.shadow(R)
    new = params_for(g, mon, R, grid, scalar)
    if g.chance(0.5):
        return new
    for k in list(new):
        if k in sh.P:
            if g.chance(0.4):
                new[k] = g.perturb(sh.P[k])
            elif len(new) > 1:
                del new[k]
    return new


def next_geom(g, mon, R, grid, scalar=0.4):
    """Set new values for (some of) the dynamic angles."""
    sh = mon.shadow(R)
    names = [k for k in (("t_0", "p_0") if sh.mono else ("t_0", "t_ex", "p_0", "p_ex"))
             if k not in sh.fixed]
    r = g.rng.random()
    if r < 0.4:
        new = g.angles(names, grid, scalar)
        new = {k: v for k, v in new.items() if k not in sh.ang or g.chance(0.7)}
    elif r < 0.7:
        new = {k: g.perturb(sh.ang[k], k) if k in sh.ang else g.angle(k, grid)
               for k in names if k not in sh.ang or g.chance(0.5)}
    else:
        new = {k: g.angle(k, grid, scalar) for k in names}
        if g.chance(0.5):
            for k in [str(k) for k in g.rng.permutation(names)]:
                R.set_geometry(**{k: new.pop(k)})
    if new:
        R.set_geometry(**new)


def weight(mon, R):
    sh = mon.shadow(R)
    return ref.own_ncoefs(sh.V) + ref.own_ncoefs(sh.SRF)
