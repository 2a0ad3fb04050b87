"""Registry of all checks."""
CHECKS = {}

from . import values, state, jac, scatter, plots, infra, custom, longrun  # noqa

for _m in (values, state, jac, scatter, plots, infra, custom, longrun):
    CHECKS.update(_m.CHECKS)
