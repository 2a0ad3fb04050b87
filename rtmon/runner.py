"""Runs the cases of a check in parallel, collects evidence and reports the verdict."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RTMON_REPO", "/repo")
MAX_VIOLATIONS = 3


def setup_env():
    """Import the code of the current working tree (never stale bytecode)."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "rtmon_mpl"))
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"rtmon_pyc_{os.getpid()}")
    sys.path.insert(0, os.path.join(REPO, "src"))


class Skip(Exception):
    """The generated case turned out to be trivial / not usable."""


class Ctx:
    """Context of one case."""

    def __init__(self, prop, tier, seed, index, rt1, mon):
        import numpy as np

        from .gen import Gen

        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        h = hashlib.sha256(f"{prop}:{seed}:{index}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "big"))
        self.rt1, self.mon = rt1, mon
        self.g = Gen(self.rng, rt1)
        self.sig = []
        self.notes = []
        self.nontrivial = True

    def note(self, *sig):
        """Add to the signature that identifies (the class of) this case."""
        self.sig.append(" ".join(map(str, sig)))

    def fail(self, msg, **details):
        self.mon.violate(self.prop, msg, **details)

    def check(self, what, ok, **details):
        self.mon.oracles[f"{self.prop}:{what}"] += 1
        if not ok:
            self.fail(what, **details)

    def same(self, what, got, exp, rtol=1e-9, atol=0.0, **details):
        import numpy as np

        got, exp = np.asarray(got), np.asarray(exp)
        if got.shape != exp.shape:
            self.mon.oracles[f"{self.prop}:{what}"] += 1
            self.fail(f"{what}: shape {got.shape} instead of {exp.shape}", **details)
        self.mon.compare(self.prop, what, got, exp, rtol=rtol, atol=atol, **details)

    def backend(self, p_sympy=0.2):
        b = "sympy" if self.rng.random() < p_sympy else "symengine"
        self.rt1.set_lambda_backend(b)
        self.note("backend", b)
        return b


# The harness handles every value that the unchanged code returns: if values can not be
# processed any more (missing entries, changed types...), the observed result is wrong.
PROCESSING = (ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError,
              ArithmeticError)


def from_repo(tb):
    """True if the exception passed through code of the monitored repository."""
    root = os.path.realpath(os.path.join(REPO, "src")) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


def run_case(check, ctx):
    """-> (status, info)"""
    from .monitor import Violation

    mon = ctx.mon
    mon.reset()
    mon.violations.clear()
    mon.tl.depth = 0
    mon.own = ctx.prop
    ctx.rt1.set_lambda_backend("symengine")
    try:
        check["case"](ctx)
    except Skip as ex:
        return "skip", str(ex)
    except Violation as v:
        if v.prop != ctx.prop:
            return "other", dict(prop=v.prop, msg=v.msg)
        return "violation", dict(msg=v.msg, details=v.details)
    except Exception as ex:
        tb = traceback.format_exc()
        if from_repo(ex.__traceback__):
            return "violation", dict(
                msg=f"valid use failed with {type(ex).__name__}: {str(ex)[:300]}",
                details=dict(traceback=tb[-3000:], events=list(mon.log)[-60:]))
        if isinstance(ex, PROCESSING):
            return "violation", dict(
                msg=f"returned values cannot be processed: {type(ex).__name__}: "
                    f"{str(ex)[:300]}",
                details=dict(traceback=tb[-3000:], events=list(mon.log)[-60:]))
        return "error", tb
    else:
        mine = [v for v in mon.violations if v.prop == ctx.prop]
        if mine:  # (raised inside of a callback that swallows exceptions)
            return "violation", dict(msg=mine[0].msg, details=mine[0].details)
        if mon.violations:
            v = mon.violations[0]
            return "other", dict(prop=v.prop, msg=v.msg)
    finally:
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return "ok", None


def _boot(check):
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import rt1_model

    logging.getLogger("rt1_model").setLevel(logging.ERROR)
    from .monitor import Monitor

    mon = Monitor(judge=check.get("judge", ()))
    mon.claim = check.get("claim", False)
    mon.install(rt1_model)
    return rt1_model, mon


def _worker(check, prop, tier, seed, jobs, out, deadline):
    try:
        rt1, mon = _boot(check)
        while time.time() < deadline:
            try:
                i = jobs.get_nowait()
            except queue_mod.Empty:
                break
            ctx = Ctx(prop, tier, seed, i, rt1, mon)
            t = time.time()
            status, info = run_case(check, ctx)
            out.put(("case", i, status, info, ctx.sig, ctx.nontrivial, ctx.notes,
                     time.time() - t))
        out.put(("done", dict(mon.counts), dict(mon.oracles), dict(mon.skipped),
                 dict(mon.max_err)))
    except Exception:
        out.put(("crash", traceback.format_exc()))


def load_known():
    """known findings: lines 'known: property=<id> key=<substring> | <text>'"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                head, text = line[len("known: "):].rstrip("\n").split(" | ", 1)
                kv = dict(i.split("=", 1) for i in head.split(" ", 1))
                out.append((kv["property"], kv["key"], text))
    return out


def run(prop, check, tier, seed, only=None):
    t_start = time.time()
    n = check["n"][tier]
    budget = check.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    if os.path.exists(ev_path):
        os.remove(ev_path)

    if only is not None:
        rt1, mon = _boot(check)
        ctx = Ctx(prop, tier, seed, only, rt1, mon)
        status, info = run_case(check, ctx)
        print("case", only, "->", status)
        print(info if isinstance(info, str) else json.dumps(info, indent=1, default=str))
        print("signature:", ctx.sig)
        print("oracles:", dict(mon.oracles), "skipped:", dict(mon.skipped))
        return 1 if status == "violation" else 0 if status in ("ok", "skip", "other") else 2

    mpc = mp.get_context("fork")
    jobs, out = mpc.Queue(), mpc.Queue()
    for i in range(n):
        jobs.put(i)
    nproc = min(int(os.environ.get("RTMON_PROCS", 8)), os.cpu_count() or 1, n)
    deadline = t_start + budget
    # heavy imports are shared by all workers
    _preimport()
    time.sleep(0.05)
    procs = [
        mpc.Process(target=_worker, args=(check, prop, tier, seed, jobs, out, deadline),
                    daemon=True)
        for _ in range(nproc)
    ]
    for p in procs:
        p.start()

    counts, oracles, skipped = (collections.Counter() for _ in range(3))
    max_err = {}
    sigs, samples = collections.Counter(), []
    status_n = collections.Counter()
    violations, errors, others = [], [], []
    known = [k for k in load_known() if k[0] == prop]
    known_hit = collections.Counter()
    cases, slow, running = 0, 0.0, len(procs)
    hard = deadline + (120 if tier == "quick" else 300)
    while running > 0 and time.time() < hard:
        try:
            m = out.get(timeout=1)
        except queue_mod.Empty:
            if not any(p.is_alive() for p in procs) and out.empty():
                break
            continue
        if m[0] == "case":
            _, i, status, info, sig, nontrivial, notes, dt = m
            cases += 1
            slow = max(slow, dt)
            status_n[status] += 1
            if status in ("ok", "other") and nontrivial:
                sigs[" | ".join(sig)] += 1
                if len(samples) < 6:
                    samples.append(dict(case=i, signature=sig[:12], notes=notes[:6]))
            elif status == "violation":
                hit = [k for k in known if k[1] in info["msg"]]
                if hit:
                    known_hit[hit[0][2]] += 1
                else:
                    violations.append((i, info))
            elif status == "error":
                errors.append((i, info))
            elif status == "other":
                others.append((i, info))
            if len(violations) >= MAX_VIOLATIONS:
                break
        elif m[0] == "done":
            running -= 1
            counts.update(m[1])
            oracles.update(m[2])
            skipped.update(m[3])
            for k, v in m[4].items():
                max_err[k] = max(max_err.get(k, 0), v)
        else:
            running -= 1
            errors.append(("worker", m[1]))
    hung = [p for p in procs if p.is_alive()]
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()

    n_oracle = sum(v for k, v in oracles.items() if k.startswith(prop + ":"))
    distinct = len(sigs)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=cases,
            distinct_nontrivial=distinct,
            rule=check["rule"],
            samples=samples or [dict(note="no case finished without a finding")],
            case_outcomes=dict(status_n),
            deciding_oracle_evaluations=n_oracle,
            oracle_evaluations=dict(sorted(oracles.items())),
            observed_events=dict(sorted(counts.items())),
            not_judged=dict(sorted(skipped.items())),
            largest_error_relative_to_tolerance={
                k: float(f"{v:.3g}") for k, v in sorted(max_err.items())},
            slowest_case_s=round(slow, 2),
        ),
        assumptions=check.get("assumptions", []),
        wall_s=round(time.time() - t_start, 2),
        violations=len(violations),
    )
    text = json.dumps(evidence, indent=1, default=str)
    if len(text) > 60000:
        evidence["coverage"]["observed_events"] = dict(total=sum(counts.values()))
        evidence["coverage"]["samples"] = samples[:1]
        text = json.dumps(evidence, indent=1, default=str)
    with open(ev_path, "w") as f:
        f.write(text + "\n")

    for text_, k in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {text_} (seen {k}x)")
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, info in violations[:MAX_VIOLATIONS]:
            path = os.path.join(rdir, f"{prop}_{seed}_{i}.json")
            with open(path, "w") as f:
                json.dump(dict(
                    property=prop, tier=tier, seed=seed, case=i, **info,
                    replay=f"cd /verif && VERIF_SEED={seed} /opt/venv/bin/python check.py "
                           f"{prop} --tier {tier} --case {i}"), f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
            print(f"  case {i}: {info['msg'][:600]}")
        return 1
    print(f"{prop} [{tier}, seed {seed}]: {cases} cases ({dict(status_n)}), {distinct} distinct, "
          f"{n_oracle} deciding oracle evaluations, {sum(counts.values())} observed events, "
          f"{time.time() - t_start:.1f} s, slowest case {slow:.1f} s")
    for i, info in errors[:3]:
        print(f"HARNESS ERROR in case {i}:\n{info}")
    for i, info in others[:3]:
        print(f"note: case {i} also showed a deviation that belongs to {info['prop']}: "
              f"{info['msg'][:200]}")
    if errors:
        return 2
    if hung and cases < n:
        print("INCONCLUSIVE: workers did not finish in time")
        return 3
    min_cases = max(1, min(n, check.get("min_cases", n // 4)))
    if n_oracle == 0 or status_n["ok"] + status_n["other"] == 0 or cases < min_cases:
        print("INCONCLUSIVE: too few executions were observed by the deciding monitor")
        return 3
    return 0


def _preimport():
    import matplotlib

    matplotlib.use("Agg")
    import numpy, scipy.special, scipy.sparse, sympy  # noqa
    try:
        import symengine  # noqa
    except ImportError:
        pass
