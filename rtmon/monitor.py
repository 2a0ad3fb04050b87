"""
Runtime monitor: observes the public API of rt1_model and keeps a shadow state.

The monitor wraps the public entry-points (constructors, geometry / parameter / unit
setters, evaluations) of the *real* code, records every call and return event, maintains a
shadow copy of what a user told the model, and judges every returned value with the
independent reference model in `ref.py`.

It never reads internal state of the observed objects; everything is re-constructed
from the observed calls.
"""
import collections
import functools
import threading

import numpy as np

from . import ref


class Violation(Exception):
    """A property was observed to be violated (raised by oracles, recorded by the runner)."""

    def __init__(self, prop, msg, **details):
        super().__init__(f"{prop}: {msg}")
        self.prop, self.msg, self.details = prop, msg, details


def _numbers(v):
    return ref.double(np.atleast_1d(np.array(v)))


def short(x, n=160):
    try:
        if isinstance(x, np.ndarray):
            x = np.array2string(x, precision=9, threshold=12, separator=",")
        s = str(x)
    except Exception as ex:  # pragma: no cover
        s = f"<{type(ex).__name__}>"
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


def _expr(x):
    """normalize parameter-definitions (numbers stay numbers, anything else -> str)"""
    if isinstance(x, str):
        return x
    if isinstance(x, (int, float, np.number, np.ndarray, list, tuple)):
        return x
    return str(x)


class Shadow:
    """What the user told one RT1 instance."""

    def __init__(self, V, SRF, int_Q, sig0, dB, I0, custom_fn):
        self.V, self.SRF = V, SRF
        self.int_Q, self.sig0, self.dB, self.I0 = int_Q, sig0, dB, I0
        self.custom_fn = custom_fn
        self.defs = dict(tau="tau", omega="omega", NormBRDF="NormBRDF", bsf="bsf")
        self.P = dict(bsf=np.array([0]))
        self.mono = True
        self.fixed = {}
        self.ang = {}
        self.tainted = None  # reason why judging is not possible

    def copy(self):
        new = Shadow.__new__(Shadow)
        new.__dict__.update(self.__dict__)
        for k in ("defs", "P", "fixed", "ang"):
            setattr(new, k, dict(getattr(self, k)))
        return new

    def geometry(self):
        a = self.ang
        if self.mono:
            return dict(t_0=a["t_0"], t_ex=a["t_0"], p_0=a["p_0"], p_ex=a["p_0"] + np.pi)
        return {k: a[k] for k in ("t_0", "t_ex", "p_0", "p_ex")}

    def required(self, skip_zero=False):
        """names of all parameters (without those of parts that do not contribute)"""
        out = ref.spec_symbols(self.V, skip_zero) | ref.spec_symbols(self.SRF, skip_zero)
        for v in self.defs.values():
            out |= set(ref.names_in(v))
        return out

    def missing(self):
        return self.required() - set(self.P)

    def judgeable(self):
        if self.V is None or self.SRF is None:
            return "unknown scattering function"
        if self.tainted:
            return self.tainted
        need = ["t_0", "p_0"] if self.mono else ["t_0", "t_ex", "p_0", "p_ex"]
        if any(k not in self.ang for k in need):
            return "geometry incomplete"
        if self.missing():
            return "parameters incomplete"
        return None

    def model(self, linear=False):
        return ref.RefModel(
            dict(
                V=self.V, S=self.SRF, P=dict(self.P), defs=dict(self.defs),
                I0=np.asarray(self.I0, dtype=float) if not np.isscalar(self.I0) else self.I0,
                sig0=self.sig0 is True,
                dB=self.dB is True and not linear, **self.geometry(),
            )
        )


CLASSES = ("Isotropic", "Rayleigh", "HenyeyGreenstein", "HGRayleigh", "CosineLobe",
           "HG_nadirnorm", "LinComb")
VALUE_PROPS = {"surface": "C01", "volume": "C02", "interaction": "C03"}


class Monitor:
    """Attach with `install(rt1_module)`; events and oracle-evaluations are counted."""

    def __init__(self, judge=("C01", "C02", "C03", "C04", "C09", "C11", "C15")):
        self.judge = set(judge)
        self.tl = threading.local()
        self.counts = collections.Counter()
        self.oracles = collections.Counter()
        self.skipped = collections.Counter()
        self.violations = []
        self.raise_on_violation = True
        self.claim = False
        self.own = None  # the property that is decided (deviations of others are noted)
        self.log = collections.deque(maxlen=400)
        self.shadows = {}
        self.keep = []  # keep observed objects alive (shadows are identified by id)
        self.specs = {}
        self.max_interaction = 400  # max. elements to judge per event
        self._undo = []
        self.max_err = collections.defaultdict(float)

    # ------------------------------------------------------------------ infrastructure
    def reset(self):
        self.shadows.clear()
        self.specs.clear()
        self.keep.clear()
        self.log.clear()

    @property
    def depth(self):
        return getattr(self.tl, "depth", 0)

    def _enter(self):
        self.tl.depth = self.depth + 1

    def _exit(self):
        self.tl.depth = self.depth - 1

    def muted(self):
        mon = self

        class _M:
            def __enter__(self):
                mon._enter()

            def __exit__(self, *a):
                mon._exit()

        return _M()

    def claimed(self, prop):
        """(checks can judge the values of a part of the inputs as their own property)"""
        return self.own if self.claim and prop in self.judge and self.own else prop

    def violate(self, prop, msg, **details):
        prop = self.claimed(prop)
        v = Violation(prop, msg, events=list(self.log)[-60:], **details)
        self.violations.append(v)
        if self.raise_on_violation and self.own in (None, prop):
            raise v

    def event(self, name, obj, args, kwargs):
        self.counts[name] += 1
        self.log.append(
            f"{name} obj={id(obj) % 100000} args={short(args)} kwargs={short(kwargs, 300)}"
        )

    def _wrap(self, cls, name, pre=None, post=None, label=None):
        orig = getattr(cls, name)
        mon = self
        label = label or f"{cls.__name__}.{name}"

        @functools.wraps(orig)
        def wrapper(obj, *args, **kwargs):
            if mon.depth:
                return orig(obj, *args, **kwargs)
            mon.event(label, obj, args, kwargs)
            token = pre(obj, args, kwargs) if pre else None
            mon._enter()
            try:
                ret = orig(obj, *args, **kwargs)
            except BaseException as ex:
                mon.counts[label + ":raised"] += 1
                mon.log.append(f"  raised {type(ex).__name__}: {short(ex)}")
                raise
            finally:
                mon._exit()
            if post:
                mon._enter()
                try:
                    post(obj, args, kwargs, ret, token)
                finally:
                    mon._exit()
            return ret

        self._undo.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, wrapper)

    def uninstall(self):
        for cls, name, orig in reversed(self._undo):
            if orig is None:
                delattr(cls, name)
            else:
                setattr(cls, name, orig)
        self._undo.clear()

    # ------------------------------------------------------------------------- install
    def install(self, rt1):
        self.rt1 = rt1
        for kind, mod in (("V", rt1.volume), ("S", rt1.surface)):
            for cname in CLASSES:
                cls = getattr(mod, cname, None)
                if cls is None:
                    continue
                self._wrap_ctor(cls, kind, cname)

        owners = []
        for mod in (rt1.volume, rt1.surface):
            for cname in CLASSES:
                for c in getattr(getattr(mod, cname, None), "__mro__", ()):
                    if "calc" in c.__dict__ and c not in owners:
                        owners.append(c)
        for c in owners:
            self._wrap(c, "calc", post=self._post_scatter_calc, label="scatter.calc")

        R = rt1.RT1
        self._wrap_rt1_init(R)
        self._wrap_setattr(R)
        self._wrap(R, "set_monostatic", post=self._post_mono)
        self._wrap(R, "set_bistatic", post=self._post_bi)
        self._wrap(R, "set_geometry", post=self._post_geom)
        self._wrap(R, "update_params", post=self._post_update)
        self._wrap(R, "calc", pre=self._pre_eval, post=self._post_calc)
        for n in ("surface", "volume", "interaction"):
            self._wrap(R, n, pre=self._pre_eval,
                       post=functools.partial(self._post_contrib, n))
        self._wrap(R, "jacobian", pre=self._pre_jac, post=self._post_jac)
        return self

    def _wrap_ctor(self, cls, kind, cname):
        orig = cls.__init__
        mon = self

        @functools.wraps(orig)
        def wrapper(obj, *args, **kwargs):
            if mon.depth:
                return orig(obj, *args, **kwargs)
            mon.event(f"{kind}.{cname}", obj, args, kwargs)
            mon._enter()
            try:
                orig(obj, *args, **kwargs)
            finally:
                mon._exit()
            try:
                spec = mon._spec_from_args(kind, cname, args, kwargs)
            except Exception:
                spec = None
            mon.keep.append(obj)
            mon.specs[id(obj)] = spec

        self._undo.append((cls, "__init__", cls.__dict__.get("__init__")))
        cls.__init__ = wrapper

    def _spec_from_args(self, kind, cname, args, kwargs):
        kw = dict(kwargs)
        if args:
            first = {"CosineLobe": "i", "LinComb": "choices"}.get(cname, "t")
            kw[first] = args[0]
            if len(args) > 1:
                return None
        spec = dict(kind=kind, cls=cname, a=kw.get("a"), ncoefs=kw.get("ncoefs"))
        if spec["a"] is not None:
            spec["a"] = [_expr(i) for i in spec["a"]]
        if cname == "LinComb":
            parts = []
            for w, o in kw["choices"]:
                s = self.specs.get(id(o))
                if s is None:
                    return None
                parts.append((_expr(w), s))
            spec["parts"] = parts
        if "t" in kw:
            spec["t"] = _expr(kw["t"])
        if "i" in kw:
            spec["i"] = kw["i"]
        return spec

    def _wrap_rt1_init(self, R):
        orig = R.__init__
        mon = self
        names = ["V", "SRF", "int_Q", "sig0", "dB", "fn_input", "fnevals_input", "I0"]
        defaults = dict(V=None, SRF=None, int_Q=True, sig0=True, dB=True, fn_input=None,
                        fnevals_input=None, I0=1.0)

        @functools.wraps(orig)
        def wrapper(obj, *args, **kwargs):
            if mon.depth:
                return orig(obj, *args, **kwargs)
            mon.event("RT1.__init__", obj, args, kwargs)
            mon._enter()
            try:
                orig(obj, *args, **kwargs)
            finally:
                mon._exit()
            a = {**defaults, **dict(zip(names, args)), **kwargs}
            sh = Shadow(
                mon.specs.get(id(a["V"])), mon.specs.get(id(a["SRF"])), a["int_Q"],
                a["sig0"], a["dB"], a["I0"],
                a["fn_input"] is not None or a["fnevals_input"] is not None,
            )
            mon.shadows[id(obj)] = sh
            mon.keep.append(obj)

        self._undo.append((R, "__init__", R.__dict__.get("__init__")))
        R.__init__ = wrapper

    def _wrap_setattr(self, R):
        mon = self
        orig = R.__setattr__

        def wrapper(obj, name, value):
            orig(obj, name, value)
            if mon.depth:
                return
            sh = mon.shadows.get(id(obj))
            if sh is None:
                return
            if name in sh.defs:
                mon.event(f"set {name}", obj, (value,), {})
                sh.defs[name] = _expr(value)
            elif name in ("int_Q", "sig0", "dB", "I0"):
                mon.event(f"set {name}", obj, (value,), {})
                setattr(sh, name, value)
            elif name in ("V", "SRF"):
                mon.event(f"set {name}", obj, (value,), {})
                setattr(sh, name, mon.specs.get(id(value)))
                mon.keep.append(value)
            elif name in ("fn_input", "fnevals_input"):
                sh.custom_fn = True

        self._undo.append((R, "__setattr__", R.__dict__.get("__setattr__")))
        R.__setattr__ = wrapper

    # --------------------------------------------------------------- shadow transitions
    def shadow(self, obj):
        return self.shadows.get(id(obj))

    def adopt(self, obj, shadow):
        """register an object that was created by other means (copy, unpickle)"""
        self.shadows[id(obj)] = shadow
        self.keep.append(obj)

    def _post_mono(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if sh is None:
            return
        p_0 = args[0] if args else kwargs.get("p_0")
        sh.mono = True
        sh.fixed = {}
        if p_0 is not None:
            sh.fixed["p_0"] = p_0
            sh.ang["p_0"] = np.atleast_1d(np.array(p_0, dtype=float))

    def _post_bi(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if sh is None:
            return
        a = {**dict(zip(("t_0", "t_ex", "p_0", "p_ex"), args)), **kwargs}
        sh.mono = False
        sh.fixed = {k: v for k, v in a.items() if v is not None}
        for k, v in sh.fixed.items():
            sh.ang[k] = np.atleast_1d(np.array(v, dtype=float))

    def _post_geom(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if sh is None:
            return
        for k, v in kwargs.items():
            sh.ang[k] = np.atleast_1d(np.array(v, dtype=float))

    def _post_update(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if sh is None:
            return
        for k, v in kwargs.items():
            sh.P[k] = _numbers(v)

    def _pre_eval(self, obj, args, kwargs):
        # parameters passed to an evaluation are stored even if the evaluation fails
        self._post_update(obj, args, kwargs, None, None)

    # -------------------------------------------------------------------------- oracles
    def compare(self, prop, what, got, exp, rtol=1e-9, atol=0.0, **details):
        prop = self.claimed(prop)
        self.oracles[f"{prop}:{what}"] += 1
        got, exp = np.asarray(got), np.asarray(exp)
        if got.dtype == object or not np.issubdtype(got.dtype, np.number):
            return self.violate(prop, f"{what}: result is not numeric ({got.dtype})",
                                got=short(got), expected=short(exp), **details)
        try:
            # (shapes are judged separately)
            shape = np.broadcast_shapes(got.shape, exp.shape)
        except ValueError:
            return self.violate(
                prop, f"{what}: shape {got.shape} instead of {exp.shape}",
                got=short(got), expected=short(exp), **details)
        shape = shape or (1,)
        got, exp = np.broadcast_to(got, shape), np.broadcast_to(exp, shape)
        with np.errstate(all="ignore"):
            tol = rtol * np.abs(exp) + np.maximum(atol, 1e-300)  # (denormalized numbers)
            err = np.abs(got - exp)
            bad = ~((err <= tol) | (got == exp) | (np.isnan(got) & np.isnan(exp)))
            rel = np.where(np.isfinite(err), err / np.where(tol > 0, tol, 1), 0)
            if rel.size and not bad.any():
                self.max_err[f"{prop}:{what}"] = max(
                    self.max_err[f"{prop}:{what}"], float(rel.max()))
        if bad.any():
            i = tuple(int(k[0]) for k in np.nonzero(bad))
            self.violate(
                prop, f"{what}: {int(bad.sum())} of {bad.size} values differ, e.g. at {i}: "
                f"{got[i]!r} instead of {exp[i]!r}", got=short(got, 400),
                expected=short(exp, 400), **details)

    def _state_text(self, sh):
        return short(dict(V=sh.V, SRF=sh.SRF, P=sh.P, defs=sh.defs, I0=sh.I0, sig0=sh.sig0,
                          dB=sh.dB, int_Q=sh.int_Q, mono=sh.mono, fixed=sh.fixed,
                          ang=sh.ang), 3000)

    def expected(self, obj, parts=("surface", "volume", "interaction")):
        """linear (unit-converted) reference contributions and noise-scale"""
        sh = self.shadow(obj)
        m = sh.model(linear=True)
        out = {}
        if "surface" in parts:
            out["surface"] = m.convert(m.surface())
        if "volume" in parts:
            out["volume"] = m.convert(m.volume())
        if "interaction" in parts:
            val, scale = m.interaction()
            out["interaction"] = m.convert(val)
            # numerical noise of the (expanded) closed-form solution
            out["noise"] = np.abs(m.convert(scale)) * 1e-13
        return out

    def _judge_reason(self, sh, label):
        r = "no shadow" if sh is None else sh.judgeable()
        if r:
            self.skipped[f"{label}: {r}"] += 1
        return r

    def _to_linear(self, sh, val):
        if sh.dB is True:
            return 10.0 ** (np.asarray(val, dtype=float) / 10.0)
        return val

    def _post_calc(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if self._judge_reason(sh, "calc"):
            return
        st = self._state_text(sh)
        want_int = sh.int_Q is True
        want = [p for p in ("surface", "volume") if VALUE_PROPS[p] in self.judge]
        do_int = (want_int and not sh.custom_fn and "C03" in self.judge
                  and np.size(ret) <= 4 * self.max_interaction)
        ret = np.asarray(ret)
        if "C04" in self.judge:
            self.oracles["C04:rows"] += 1
            base = [np.shape(v) for v in (sh.I0, *sh.geometry().values())]
            req = np.broadcast_shapes(*base, *(np.shape(sh.P[k]) for k in sh.required()))
            full = np.broadcast_shapes(*base, *(np.shape(v) for v in sh.P.values()))
            if ret.shape[0] != (4 if want_int else 3):
                self.violate("C04", f"calc returned {ret.shape[0]} rows for int_Q={sh.int_Q}",
                             state=st)
            if ret.shape[1:] not in (req, full):
                self.violate("C04", f"calc returned shape {ret.shape} instead of {req}",
                             state=st)
            if sh.dB is True:
                lin = 10.0 ** (ret / 10.0)
                ok = np.isfinite(ret[1:]).all(axis=0)
                with np.errstate(all="ignore"):
                    tot = np.where(ok, lin[1:].sum(axis=0), np.nan)
                    got = np.where(ok, lin[0], np.nan)
                self.compare("C04", "total (dB)", got, tot, rtol=1e-9, state=st)
            else:
                self.compare("C04", "total", ret[0], ret[1:].sum(axis=0), rtol=1e-9,
                             atol=1e-12 * np.abs(ret[1:]).max(initial=0), state=st)
        if do_int:
            want.append("interaction")
        exp = self.expected(obj, want)
        for i, name in enumerate(("surface", "volume", "interaction")):
            if name in exp:
                self._cmp_contrib(sh, name, ret[i + 1], exp, st, "calc")
        if "C15" in self.judge:
            self.check_params(obj)

    def _cmp_contrib(self, sh, name, got, exp, st, src):
        prop = VALUE_PROPS[name]
        atol = 0.0
        rtol = 1e-9
        e = exp[name]
        if name == "volume":
            atol = 1e-15 * np.abs(np.max(np.abs(e), initial=0)) + 1e-16 * np.abs(
                np.max(4 * np.pi * np.abs(np.asarray(sh.I0)), initial=1))
        if name == "interaction":
            atol = exp["noise"]
            rtol = 1e-7
        if sh.dB is True:
            with np.errstate(all="ignore"):
                neg = e < -atol
                small = np.abs(e) <= np.maximum(atol * 10, 1e-300)
                lin = 10.0 ** (np.asarray(got, dtype=float) / 10.0)
            # negative values are undefined in dB; skip values below the noise-level
            shape = np.broadcast_shapes(np.shape(lin), np.shape(e))
            skip = np.broadcast_to(neg | small, shape)
            g = np.where(skip, 0.0, lin)
            x = np.where(skip, 0.0, e)
            at = np.where(skip, 0.0, atol)
            self.compare(prop, f"{name} [{src}, dB]", g, x, rtol=max(rtol, 1e-9), atol=at,
                         state=st)
        else:
            self.compare(prop, f"{name} [{src}]", got, e, rtol=rtol, atol=atol, state=st)

    def _post_contrib(self, name, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        if VALUE_PROPS[name] not in self.judge or self._judge_reason(sh, name):
            return
        if name == "interaction" and (sh.custom_fn or sh.int_Q is not True
                                      or np.size(ret) > self.max_interaction):
            self.skipped["interaction: not judged"] += 1
            return
        exp = self.expected(obj, (name,))
        self._cmp_contrib(sh, name, np.asarray(ret), exp, self._state_text(sh), name)

    def check_params(self, obj):
        """the readable model-quantities equal their definitions"""
        sh = self.shadow(obj)
        for k, d in sh.defs.items():
            if not set(ref.names_in(d)) <= set(sh.P):
                continue
            exp = ref.ev(d, sh.P)
            self.compare("C15", f"value of {k}", getattr(obj, k), np.asarray(exp, float),
                         rtol=1e-11, atol=1e-14, state=self._state_text(sh))

    def _pre_jac(self, obj, args, kwargs):
        a = {**dict(zip(("param_list", "format"), args)), **kwargs}
        return list(a["param_list"]) if "param_list" in a else None

    def _post_jac(self, obj, args, kwargs, ret, token):
        sh = self.shadow(obj)
        a = {**dict(zip(("param_list", "format"), args)), **kwargs}
        if token is not None:
            self.oracles["C18:lists are not modified"] += 1
            if list(a["param_list"]) != token:
                self.violate("C18", "jacobian modified the passed list of parameters",
                             before=token, after=list(a["param_list"]))
            a["param_list"] = token
        if "C09" not in self.judge or self._judge_reason(sh, "jacobian"):
            return
        plist = a.get("param_list", ["omega", "tau", "NormBRDF"])
        if a.get("format", "list") != "list":
            return
        st = self._state_text(sh)
        m = sh.model()
        if len(ret) != len(plist):
            self.violate("C09", "jacobian has a wrong number of entries", state=st)
        self._cmp_derivatives(sh, m, plist, ret, "C09", "derivative", st)

    def _cmp_derivatives(self, sh, m, keys, ret, prop, what, st):
        for key, got in zip(keys, ret):
            exp, scale = self.expected_derivative(sh, m, key)
            if exp is None:
                self.skipped["jacobian: derivative undefined"] += 1
                continue
            self.compare(prop, what, np.asarray(got), exp, rtol=1e-7,
                         atol=1e-10 * scale, key=key, state=st)

    def check_derivatives(self, obj, prop, what, keys):
        """the derivatives correspond to the current definitions of the quantities"""
        sh = self.shadow(obj)
        if self._judge_reason(sh, "jacobian"):
            return
        with np.errstate(all="ignore"):
            ret = obj.jacobian(param_list=list(keys))
        self._cmp_derivatives(sh, sh.model(), keys, ret, prop, what, self._state_text(sh))

    def expected_derivative(self, sh, m, key):
        symbol = key in sh.required()
        quantity = not symbol and key in sh.defs
        if key in sh.defs and symbol and key not in sh.required(skip_zero=True):
            # (ambiguous: a quantity and the name of a parameter without any effect)
            return None, None
        with np.errstate(all="ignore"):
            if sh.dB is True and np.any(m.surface() + m.volume() == 0):
                return None, None  # (-inf dB)
        if not symbol and not quantity:
            return np.zeros(()), 1.0
        with np.errstate(all="ignore"):
            exp = m.derivative(key, quantity=quantity)
        if not np.all(np.isfinite(exp)):
            return None, None
        return exp, max(1e-3, float(np.max(np.abs(exp))))

    def _post_scatter_calc(self, obj, args, kwargs, ret, token):
        spec = self.specs.get(id(obj))
        if "C11" not in self.judge or spec is None:
            self.skipped["scatter.calc: not judged"] += 1
            return
        names = ["t_0", "t_ex", "p_0", "p_ex", "param_dict"]
        a = {**dict(zip(names, args)), **kwargs}
        P = {k: np.asarray(v) for k, v in a.get("param_dict", {}).items()}
        if not ref.spec_symbols(spec) <= set(P):
            self.skipped["scatter.calc: incomplete parameters accepted"] += 1
            return self.violate("C16", "scattering function evaluated with missing parameters",
                                spec=short(spec), params=short(P))
        with np.errstate(all="ignore"):
            exp = ref.phase(spec, *(np.asarray(a[k], float) for k in names[:4]), P)
        self.compare("C11", "scattering distribution", ret, exp, rtol=1e-9,
                     atol=1e-12 * float(np.max(np.abs(exp), initial=0)), spec=short(spec, 600),
                     args=short(a, 600))
