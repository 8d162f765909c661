"""C03: the returned solution (and every stored point at every iteration) was really evaluated."""
import numpy as np

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from dfols.util import remove_scaling

LEVEL = 'exploration'
RULE = ("a solution was returned after at least npt+1 evaluated points, and it is neither the first nor the last point evaluated, "
        "or the run was restarted, averaged or scaled")
ASSUMPTIONS = ["evaluation point numbers are read from the INFO log records",
               "'up to rounding of the base-point arithmetic' is taken as 1e-12 of the largest coordinate seen"]
SHARED_CORPUS_SUITE = 'solve'


def run(spec, ctx):
    snaps = []

    def snap(model, rec):
        if len(snaps) >= 60 and len(rec.calls) % 7:
            return
        try:
            sc = getattr(model, 'scaling_changes', None)
            npt = model.npt()
            snaps.append(dict(X=[remove_scaling(model.xpt(k, abs_coordinates=True), sc) for k in range(npt)],
                              R=model.fval_v[:npt].copy(), f=model.objval[:npt].copy(), ev=model.eval_num[:npt].copy(),
                              ns=model.nsamples[:npt].copy(), it=rec.iters,
                              sv=None if model.xsave is None else (remove_scaling(model.xsave, sc), model.rsave.copy(), model.objsave, model.eval_num_save, model.nsamples_save)))
        except (AttributeError, TypeError, AssertionError):
            pass    # internals renamed: only the end-of-run form is checked

    rec = S.run_spec(spec, log=True, snapshots=snap)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec) or not rec.calls:
        return
    if not O.log_usable(rec):
        if rec.exc is None and not rec.nonterm and not rec.blown:
            raise Violation('log-count', "%d log records for %d calls" % (len(rec.evals), len(rec.calls)))
        return
    pts = O.by_point(rec)
    tol = O.xtol(rec)
    s = rec.soln
    if s is not None:
        O.check_stored_point(rec, pts, int(s.xmin_eval_num), s.x, s.resid, s.obj, None, 'solution', tol)
        npt = spec.get('npt') or len(spec['x0']) + 1
        k = int(s.xmin_eval_num)
        ctx.label('xmin=first' if k == 1 else ('xmin=last' if k == len(pts) else 'xmin=middle'))
        ctx.nontrivial(len(pts) > npt and (1 < k < len(pts) or s.nruns > 1 or bool(spec.get('nsamples')) or bool(spec.get('scaling'))))
    for sn in snaps:
        for k in range(len(sn['ev'])):
            O.check_stored_point(rec, pts, int(sn['ev'][k]), sn['X'][k], sn['R'][k], sn['f'][k], sn['ns'][k],
                                 'stored-point', tol)
        if sn['sv'] is not None:
            x, r, f, e, ns = sn['sv']
            O.check_stored_point(rec, pts, int(e), x, r, f, ns, 'saved-point', tol)
    ctx.label('iterations-observed' if snaps else 'no-iterations')


SUITES = [
    Suite('solve', gen.solver_specs(reg=0.03, avg=0.35, noise=0.4, cliff=0.03), run, 9000, 400000),
    Suite('reg', gen.solver_specs(reg=1.0, avg=0.2, noise=0.3, scaling=0.3), run, 600, 15000),
    Suite('proj', gen.solver_specs(reg=0.2, proj=1.0, avg=0.2, medium=40, big=60), run, 500, 12000),
]
