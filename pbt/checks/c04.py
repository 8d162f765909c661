"""C04: the best point ever evaluated is never lost (deterministic objective, no sample averaging)."""
import math

import numpy as np

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O

LEVEL = 'exploration'
RULE = ("at least npt+1 points were evaluated and the best one is neither the first nor the last evaluated, or the run was restarted, "
        "or it ended by a warning or error exit")
ASSUMPTIONS = ["objective values of the recorded calls are recomputed as sum(r^2)+h(x) and compared with 1e-12 relative slack",
               "only finite objective values compete"]
SHARED_CORPUS_SUITE = 'solve'


def adapt_shared(spec):
    spec = S.clone(spec)
    spec.pop('nsamples', None)
    if (spec.get('noise') or {}).get('kind') == 'call':
        spec['noise']['kind'] = 'det'
    if spec.get('fault'):
        return None
    return spec


def run(spec, ctx):
    firsts = []
    bad = []

    def objectives(rec, upto):
        while len(rec.objs) < upto:
            v = O.objective_of_call(rec, len(rec.objs))
            rec.objs.append(v)
            rec.best.append(min(rec.best[-1], v) if rec.best and math.isfinite(v) else
                            (v if math.isfinite(v) else (rec.best[-1] if rec.best else math.inf)))
        return rec.best[upto - 1] if upto else math.inf

    def slack(rec, best):
        # stored points may sit an ulp from the evaluated ones: h can differ by lh*ulp
        return 1e-12 * abs(best) + 1e-300 + (O.lip(rec) * 1e-12 * max([float(np.max(np.abs(c[0]))) for c in rec.calls[:1]] + [1.0]) if rec.reg else 0.0)

    def snap(model, rec):
        if not hasattr(rec, 'objs'):
            rec.objs, rec.best = [], []
        try:
            if not firsts:
                firsts.append(model)
            if model is not firsts[0]:
                return          # hard restart: the older result lives in the driver, only the end-of-run form applies
            have = float(model.objopt())
            if model.objsave is not None and not math.isnan(model.objsave) and not (have <= model.objsave):
                have = float(model.objsave)
        except (AttributeError, TypeError):
            return
        best = objectives(rec, len(rec.calls))
        if math.isfinite(best) and not have <= best + slack(rec, best):
            bad.append((rec.iters, len(rec.calls), have, best))

    rec = S.run_spec(spec, log=False, snapshots=snap)
    if not hasattr(rec, 'objs'):
        rec.objs, rec.best = [], []
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec) or not rec.calls:
        return
    if bad:
        raise Violation('lost-during-run', "at iteration %d (after %d evaluations) the best stored objective is %r but %r was evaluated" % bad[0])
    if rec.soln is None:
        return
    best = objectives(rec, len(rec.calls))
    obj = float(rec.soln.obj)
    if math.isfinite(best) and not obj <= best + slack(rec, best):
        k = int(np.nanargmin([v if math.isfinite(v) else math.nan for v in rec.objs]))
        raise Violation('best-lost', "soln.obj = %r but evaluation %d of %d gave %r (exit: %s)" % (obj, k + 1, len(rec.calls), best, rec.soln.msg))
    f0 = rec.objs[0]
    if math.isfinite(f0) and not obj <= f0 + slack(rec, f0):
        raise Violation('worse-than-start', "soln.obj = %r > f(x0) = %r" % (obj, f0))
    npt = spec.get('npt') or len(spec['x0']) + 1
    if math.isfinite(best):
        k = rec.objs.index(best)
        where = 'first' if k == 0 else ('last' if k == len(rec.objs) - 1 else 'middle')
        ctx.label('best=' + where)
        ctx.nontrivial(len(rec.calls) > npt and (where == 'middle' or rec.soln.nruns > 1 or rec.soln.flag != 0))


_det = dict(avg=0.0, call_noise=False)
SUITES = [
    Suite('solve', gen.solver_specs(reg=0.03, noise=0.35, cliff=0.12, **_det), run, 12000, 500000),
    Suite('reg', gen.solver_specs(reg=1.0, noise=0.2, scaling=0.15, **_det), run, 700, 20000),
    Suite('proj', gen.solver_specs(reg=0.15, proj=1.0, noise=0.2, medium=40, big=60, **_det), run, 700, 20000),
]
