"""C08: bad objective values at any evaluation are survived gracefully."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'fault_enumeration'
RULE = "the fault was really injected (the run reached evaluation k); in the enumeration suite: at least three different indices were reached"
ASSUMPTIONS = ["a finite evaluation is one whose recomputed sum(r^2)+h is finite; with averaging a point counts when all its samples are finite and it was "
               "complete before the fault", "a run is called non-terminating after 3000+60*maxfun main-loop iterations"]
SHARED_CORPUS_SUITE = 'random'

KINDS = ('nan', 'inf', '-inf', '1e200', 'raise')
# the class of the exception must not matter: among them everything that NumPy/SciPy/Python arithmetic can raise inside dfols itself
RAISES = ('raise',) + tuple('raise:' + c for c in sorted(S.EXCEPTIONS))


def adapt_shared(spec):
    if (spec.get('params') or {}).get('interpolation.throw_error_on_nans'):
        return None
    spec = S.clone(spec)
    if not spec.get('fault'):
        spec['fault'] = dict(k=max(1, min(spec.get('maxfun') or 10, 8)), kind='nan')
    return spec


def judge(rec, spec, ctx):
    """oracle for one faulted run; returns True when the fault was reached"""
    fa = spec['fault']
    k = fa['k']
    reached = len(rec.calls) >= k
    throw = bool(O.param(spec, 'interpolation.throw_error_on_nans', False))
    where = "fault %s at evaluation %d%s" % (fa['kind'], k, ' and after' if fa.get('all_after') else '')
    O.check_bounds(rec, 'bound-after-fault')
    O.check_budget(rec)
    if fa['kind'].startswith('raise') and reached:
        if rec.exc is None or rec.exc is not rec.obj.raised:
            raise Violation('exception-lost', "%s: the caller got %r instead of the exception raised by the residual function" % (where, rec.exc if rec.exc is not None else rec.soln.msg if rec.soln is not None else None))
        if len(rec.calls) != k:
            raise Violation('eval-after-exception', "%s: %d evaluations were requested" % (where, len(rec.calls)))
        return True
    if rec.exc is not None:
        if throw and isinstance(rec.exc, np.linalg.LinAlgError) and reached:
            ctx.label('throw_error_on_nans')
            return True
        raise Violation('exception:' + type(rec.exc).__name__, "%s: solve raised %s: %s" % (where, type(rec.exc).__name__, str(rec.exc)[:300]))
    if rec.nonterm:
        raise Violation('no-termination', "%s: more than %d iterations with %d evaluations" % (where, rec.iters - 1, len(rec.calls)))
    s = rec.soln
    if O.input_error(rec):
        return False
    if s.x is None or np.shape(s.x) != np.shape(rec.x0) or not np.all(np.isfinite(s.x)):
        raise Violation('x-not-finite', "%s: x = %r" % (where, s.x))
    tol = O.xtol(rec)
    if not any(np.all(np.abs(np.asarray(s.x) - c[0]) <= tol) for c in rec.calls):
        raise Violation('x-not-evaluated', "%s: x = %r was never evaluated" % (where, s.x.tolist()))
    # finite evaluations before the fault
    before = rec.calls[:k - 1] if reached else rec.calls
    if spec.get('nsamples'):
        groups = []
        for x, r in before:
            if groups and np.array_equal(groups[-1][0], x):
                groups[-1][1].append(r)
            else:
                groups.append((x, [r]))
        if reached and groups and np.array_equal(groups[-1][0], rec.calls[k - 1][0]):
            groups.pop()        # the faulty sample belongs to this point
        fin = [g for g in groups if all(math.isfinite(S.sumsq(r)) for r in g[1])]
        if fin and not math.isfinite(float(s.obj)):
            raise Violation('finite-lost', "%s: obj = %r although %d complete points before it were finite (%s)" % (where, float(s.obj), len(fin), s.msg))
    else:
        best = math.inf
        for i in range(len(before)):
            v = O.objective_of_call(rec, i)
            if math.isfinite(v) and v < best:
                best = v
        if math.isfinite(best):
            slack = 1e-12 * abs(best) + 1e-300
            if rec.reg is not None:
                slack += O.lip(rec) * 1e-12 * float(max(1.0, np.max(np.abs([c[0] for c in rec.calls]))))
            if not (math.isfinite(float(s.obj)) and float(s.obj) <= best + slack):
                raise Violation('finite-lost', "%s: obj = %r although %r was evaluated before it (%s)" % (where, float(s.obj), best, s.msg))
    return reached


def run(spec, ctx):
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    reached = judge(rec, spec, ctx)
    if reached and spec['fault'].get('all_after'):
        ctx.label('all-after')
    ctx.nontrivial(reached)


def run_enum(spec, ctx):
    base = S.run_spec(spec, log=False)
    if base.exc is not None or base.nonterm or base.blown or O.input_error(base):
        return
    nf = len(base.calls)
    reached = set()
    kinds = spec.get('kinds') or KINDS
    for k in range(1, nf + 1):
        for kind in kinds:
            sp = dict(spec)
            sp['fault'] = dict(k=k, kind=kind, whole=(k % 2 == 0), j=k)
            rec = S.run_spec(sp, log=False)
            if judge(rec, sp, ctx):
                reached.add(k)
                ctx.label('enum:' + kind)
                if rec.soln is not None:
                    ctx.label('end:' + str(rec.soln.msg)[:40])
    ctx.label('nf=%d' % (10 * (nf // 10)))
    ctx.nontrivial(len(reached) >= 3)


@st.composite
def random_specs(draw, **kw):
    spec = draw(gen.solver_specs(**kw))
    npt = spec.get('npt') or len(spec['x0']) + 1
    w = pick(draw, 'init', 'first', 'any', 'late')
    mf = spec['maxfun']
    k = draw(I(1, npt)) if w == 'init' else 1 if w == 'first' else draw(I(1, max(1, mf))) if w == 'any' else max(1, mf - draw(I(0, 4)))
    spec['fault'] = dict(k=k, kind=pick(draw, 'nan', 'inf', '-inf', '1e200', '1e308', 'raise', '-1e200', '1e160', 'raise'))
    if spec['fault']['kind'] == 'raise':
        spec['fault']['kind'] = pick(draw, *RAISES)
    if chance(draw, 0.4):
        spec['fault']['whole'] = True
    elif chance(draw, 0.3):
        spec['fault']['j'] = draw(I(0, 5))
    if chance(draw, 0.25):
        spec['fault']['all_after'] = True
    if chance(draw, 0.06):
        spec['params']['interpolation.throw_error_on_nans'] = True
    return spec


@st.composite
def enum_specs(draw):
    spec = draw(gen.solver_specs(nmax=3, medium=22, big=26, reg=0.0, proj=0.1, avg=0.25, noise=0.1, restart_p=0.6))
    spec['maxfun'] = min(spec['maxfun'], 26)
    if spec.get('proj'):
        spec['maxfun'] = min(spec['maxfun'], 10)
        spec['kinds'] = ['nan']
        return spec
    if chance(draw, 0.5):
        spec['kinds'] = [pick(draw, 'nan', 'inf', '-inf', '1e200', pick(draw, *RAISES))]
    return spec


def run_runs(spec, ctx):
    """restarts: everything from evaluation k on is bad, for every k"""
    base = S.run_spec(spec, log=False)
    if base.exc is not None or base.nonterm or base.blown or O.input_error(base):
        return
    nf = len(base.calls)
    ctx.label('runs:%d' % min(int(base.soln.nruns), 6))
    reached = 0
    for k in range(1, nf + 1):
        for all_after in (True, False):
            sp = dict(spec)
            sp['fault'] = dict(k=k, kind=spec['kinds'][k % len(spec['kinds'])], whole=True, all_after=all_after)
            rec = S.run_spec(sp, log=False)
            reached += bool(judge(rec, sp, ctx))
            if rec.soln is not None:
                ctx.label('end:' + str(rec.soln.msg)[:40])
    ctx.nontrivial(reached >= 3 and base.soln.nruns > 1)


@st.composite
def runs_specs(draw):
    n = draw(I(1, 2))
    spec = dict(x0=[num(draw, 2.0) for _ in range(n)], lower=None, upper=None, rhobeg=0.5, rhoend=0.5 * pick(draw, 0.5, 0.1, 1e-2), maxfun=draw(I(12, 34)))
    spec['obj'] = gen.draw_objective(draw, n, ('lin', 'rosen', 'sin', 'exp') if n > 1 else ('lin', 'sin', 'exp'), 3)
    if draw(B):
        spec['lower'] = [v - pick(draw, 0.0, 0.6, 3.0) for v in spec['x0']]
        spec['upper'] = [v + pick(draw, 1.0, 3.0) for v in spec['x0']]
    P = {}
    gen.p_restarts(draw, P, soft=chance(draw, 0.4), n=n, npt=n + 1)
    P.setdefault('restarts.max_unsuccessful_restarts', 3)
    spec['params'] = P
    if chance(draw, 0.2):
        spec['nsamples'] = dict(kind='const', v=2)
    spec['kinds'] = [pick(draw, 'nan', 'inf'), pick(draw, 'nan', '1e200', '-inf')]
    return spec


SUITES = [
    Suite('runs', runs_specs(), run_runs, 250, 10000, case_limit_s=120),
    Suite('random', random_specs(proj=0.05, reg=0.03, nmax=4, noise=0.1), run, 9000, 400000),
    Suite('proj', random_specs(proj=1.0, reg=0.1, noise=0.1, medium=30, big=40), run, 600, 20000),
    Suite('reg', random_specs(reg=1.0, proj=0.15, noise=0.1, nmax=3, medium=20, big=25), run, 1200, 40000),
    Suite('enumerate', enum_specs(), run_enum, 400, 15000, case_limit_s=120),
]
