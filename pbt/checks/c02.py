"""C02: budget, counters and sample counts."""
from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O

LEVEL = 'exploration'
RULE = ("more evaluations than the initial set were made and at least one of: sample averaging asked for 2+ samples, the run was "
        "restarted, or the budget ran out")
ASSUMPTIONS = ["evaluation and point numbers are read from the INFO log records 'Function eval i at point j'",
               "the nsamples callback's most recent return value before a point's first evaluation is its request (at least 1)"]
SHARED_CORPUS_SUITE = 'solve'


def run(spec, ctx):
    rec = S.run_spec(spec, log=True)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec):
        if rec.calls or rec.soln.nf != 0:
            raise Violation('input-error-evals', "input error but %d evaluations (nf=%r)" % (len(rec.calls), rec.soln.nf))
        return
    O.check_budget(rec)
    mf = O.maxfun_of(spec)
    calls = rec.calls
    ev = rec.evals
    if len(ev) > len(calls) or (rec.exc is None and not rec.nonterm and not rec.blown and len(ev) != len(calls)):
        raise Violation('log-count', "%d evaluations in the log, %d calls of objfun" % (len(ev), len(calls)))
    prev = 0
    for i, (e, p, ncalls, ns) in enumerate(ev):
        if e != i + 1 or ncalls != i + 1:
            raise Violation('eval-number', "call %d was logged as evaluation %d" % (ncalls, e))
        if p not in (prev, prev + 1) or p == 0:
            raise Violation('point-number', "evaluation %d has point number %d after %d" % (e, p, prev))
        prev = p
    pts = O.by_point(rec)
    for p, idxs in pts.items():
        x = calls[idxs[0]][0]
        for i in idxs[1:]:
            if calls[i][0].tobytes() != x.tobytes():
                raise Violation('point-x-differs', "evaluations %d and %d share point number %d but not x" % (idxs[0] + 1, i + 1, p))
    finished = rec.exc is None and not rec.nonterm and not rec.blown
    asked_many = False
    for p, idxs in pts.items():
        want = 1
        if spec.get('nsamples'):
            v = ev[idxs[0]][3]
            want = max(int(v), 1) if v is not None else 1
        asked_many = asked_many or want > 1
        if len(idxs) > want:
            raise Violation('too-many-samples', "point %d got %d samples, %d were asked for" % (p, len(idxs), want))
        if len(idxs) < want and finished:
            if p != prev or len(calls) < mf:
                raise Violation('too-few-samples', "point %d got %d samples, %d were asked for (nf=%d of %d)" % (p, len(idxs), want, len(calls), mf))
    if finished:
        s = rec.soln
        if s.nf != len(calls):
            raise Violation('nf', "soln.nf = %r, objfun was called %d times" % (s.nf, len(calls)))
        if s.nx != prev:
            raise Violation('nx', "soln.nx = %r, last point number is %d" % (s.nx, prev))
        if not spec.get('nsamples') and s.nx != s.nf:
            raise Violation('nx-nf', "nx = %r != nf = %r without averaging" % (s.nx, s.nf))
        npt = spec.get('npt') or len(spec['x0']) + 1
        if len(calls) == mf:
            ctx.label('budget-exhausted')
        ctx.nontrivial(len(calls) > npt and (asked_many or s.nruns > 1 or len(calls) == mf))


SUITES = [
    Suite('solve', gen.solver_specs(reg=0.03, avg=0.5, cliff=0.05, call_noise=True), run, 12000, 500000),
    Suite('proj', gen.solver_specs(reg=0.2, proj=1.0, avg=0.5, medium=40, big=60), run, 500, 12000),
]
