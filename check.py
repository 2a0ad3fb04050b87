"""Run one check: python check.py <property> [--tier quick|thorough] [--seed N] [--case N]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from rtmon import runner

runner.setup_env()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", type=int, default=None)
    a = ap.parse_args()
    from rtmon import checks

    if a.self_test:  # (nothing is built in advance, checks import from /repo at run time)
        import cloudpickle, matplotlib, numpy, scipy, symengine, sympy  # noqa

        print("checks:", *sorted(checks.CHECKS))
        return 0
    check = checks.CHECKS[a.prop]
    if "main" in check:
        return check["main"](a)
    return runner.run(a.prop, check, a.tier, a.seed, a.case)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 4
    sys.stdout.flush()
    sys.exit(code)
