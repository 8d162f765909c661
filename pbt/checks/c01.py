"""C01: every evaluated point and the returned x satisfy the bounds exactly."""
import numpy as np

from .. import boot  # noqa: F401
from ..engine import Suite
from .. import gen, spec as S, oracle as O

LEVEL = 'exploration'
RULE = ("finite bounds were given, at least npt points were evaluated, and either the starting point was infeasible or at "
        "least one evaluated component was exactly on a bound (so clipping was exercised)")
ASSUMPTIONS = ["bounds as the user passes them; missing sides are unbounded (the solver uses +-1e20)"]
SHARED_CORPUS_SUITE = 'solve'


def run(spec, ctx):
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec):
        return
    touching = O.check_bounds(rec)
    lo, up = S.user_bounds(spec)
    x0 = np.array(spec['x0'])
    infeas = bool(np.any(x0 < lo) or np.any(x0 > up))
    if infeas:
        ctx.label('x0-infeasible')
    if touching:
        ctx.label('touching-bound')
    has = spec.get('lower') is not None or spec.get('upper') is not None
    npt = spec.get('npt') or len(x0) + 1
    ctx.nontrivial(has and len(rec.calls) >= npt and (infeas or touching > 0))


SUITES = [
    Suite('solve', gen.solver_specs(reg=0.04, scaling=0.35), run, 9000, 400000),
    Suite('box', gen.solver_specs(reg=0.0, scaling=0.5, boxkind='both', avg=0.1,
                                  fams=('lin', 'quad', 'rosen', 'exp', 'sin'), x0mags=(1.0, 1e6, 1e-2, 1e3, 1e9)),
          run, 6000, 300000),
    Suite('reg', gen.solver_specs(reg=1.0, scaling=0.4, boxkind='both'), run, 700, 20000),
]
