"""C10: exit flags and messages tell the truth."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = "the run ended by one of the five constrained exits after at least npt evaluations or at least one restart (not merely at x0)"
ASSUMPTIONS = ["restarts performed = restart announcements in the log; a soft restart that was cut off by the end of the run before its first iteration may be "
               "counted or not", "f(x0) is the objective of the averaged residuals at the first evaluation point (with hard restarts that re-evaluate under "
               "noise: the largest of the runs' starting values)", "rho of the last iteration is read from the diagnostic table"]
SHARED_CORPUS_SUITE = 'solve'


def adapt_shared(spec):
    spec = S.clone(spec)
    spec['params'] = dict(spec.get('params') or {})
    spec['params']['logging.save_diagnostic_info'] = True
    spec['params']['logging.save_poisedness'] = False
    return spec


def run(spec, ctx):
    spec = adapt_shared(spec)
    rec = S.run_spec(spec, log=True)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if rec.soln is None or O.input_error(rec) or not rec.calls:
        return
    s = rec.soln
    P = spec['params']
    msg = str(s.msg)
    low = msg.lower()
    soft = bool(P.get('restarts.use_soft_restarts', True))
    success = s.flag == s.EXIT_SUCCESS
    obj = float(s.obj)
    hit = False
    if success and not math.isfinite(obj):
        raise Violation('success-nonfinite', "flag success (%s) with obj = %r" % (msg, obj))
    if success and 'sufficiently small' in low:
        hit = True
        pts = O.by_point(rec)
        if O.log_usable(rec) and 1 in pts:
            idx = pts[1]
        else:
            idx = [i for i, c in enumerate(rec.calls) if np.array_equal(c[0], rec.calls[0][0])][:1]
        rm, rs = O.mean_resid(rec, idx)
        f0 = S.sumsq(rm) + S.hval(rec, rec.calls[0][0])
        if rec.restart_msgs and not soft and not P.get('restarts.hard.use_old_rk', True):
            for m in rec.restart_msgs:
                if m[1] < len(rec.calls):
                    # this run's own starting point (all samples)
                    x = rec.calls[m[1]][0]
                    j = m[1]
                    ids = []
                    while j < len(rec.calls) and np.array_equal(rec.calls[j][0], x):
                        ids.append(j)
                        j += 1
                    for c in range(1, len(ids) + 1):
                        q, _ = O.mean_resid(rec, ids[:c])
                        f0 = max(f0, S.sumsq(q) + S.hval(rec, x))
        thr = max(P.get('model.abs_tol', 1e-12), P.get('model.rel_tol', 1e-20) * f0)
        hx = abs(S.hval(rec, np.asarray(s.x)))
        slack = 1e-10 * (thr + (S.sumsq(rs) * 1e-3 if spec.get('nsamples') else 0.0)) + 1e-14 * hx + O.lip(rec) * float(np.linalg.norm(O.xtol(rec)))
        if math.isfinite(f0) and not obj <= thr + slack:
            raise Violation('not-small', "%s but obj = %r > max(abs_tol, rel_tol*f(x0)) = %r (f(x0) = %r)" % (msg, obj, thr, f0))
    df = s.diagnostic_info
    if df is not None and len(df) > 0:
        cols = list(df.columns)
        if success and 'reached rhoend' in low and 'rho' in cols:
            hit = True
            rho = float(df['rho'].iloc[-1])
            want = [spec['rhoend'] * P.get('restarts.rhoend_scale', 1.0) ** (s.nruns - 1)] if spec.get('rhoend') else [1e-8 * P.get('restarts.rhoend_scale', 1.0) ** (s.nruns - 1)]
            if not any(abs(rho - w) <= 1e-9 * w for w in want):
                raise Violation('rho-not-rhoend', "%s but rho = %r at the last iteration, rhoend = %r (nruns = %d)" % (msg, rho, want[0], s.nruns))
        if 'nruns' in cols:
            top = int(np.max(np.asarray(df['nruns'])))
            if top > s.nruns:
                raise Violation('nruns-table', "diagnostic table counts %d runs, soln.nruns = %d" % (top, s.nruns))
    elif success and 'reached rhoend' in low and rec.iters == 0:
        raise Violation('rho-no-iteration', "%s without a single iteration" % msg)
    if s.flag == s.EXIT_MAXFUN_WARNING:
        hit = True
        mf = O.maxfun_of(spec)
        if s.nf != mf or len(rec.calls) != mf:
            raise Violation('not-maxfun', "%s but nf = %d, %d calls were made and maxfun = %d" % (msg, s.nf, len(rec.calls), mf))
    if success and 'unsuccessful restarts' in low:
        hit = True
        need = P.get('restarts.max_unsuccessful_restarts', 10)
        if s.nruns < need:
            raise Violation('too-few-runs', "%s but nruns = %d < %d" % (msg, s.nruns, need))
        if not P.get('restarts.use_restarts', spec.get('has_noise', False)):
            raise Violation('no-restarts', "%s without restarts enabled" % msg)
    if not P.get('restarts.use_restarts', bool(spec.get('has_noise'))):
        if s.nruns != 1:
            raise Violation('nruns', "nruns = %d without restarts" % s.nruns)
    nres = len(rec.restart_msgs)
    ok = {1 + nres}
    if nres and soft and rec.restart_msgs[-1][2] == rec.iters:
        ok.add(nres)
        ctx.label('interrupted-soft-restart')
    if s.nruns not in ok:
        raise Violation('nruns', "nruns = %d but %d restarts were performed (%s)" % (s.nruns, nres, msg))
    npt = spec.get('npt') or len(spec['x0']) + 1
    ctx.nontrivial(hit and (len(rec.calls) > npt or s.nruns > 1))


@st.composite
def specs(draw, **kw):
    spec = draw(gen.solver_specs(**kw))
    if chance(draw, 0.2):
        gen.p_tol(draw, spec['params'])
    return spec


@st.composite
def target_specs(draw):
    """averaged noisy samples whose spread is about the size of the target value: single samples and averages disagree about it"""
    spec = draw(gen.solver_specs(reg=0.08, diag=0.0, nmax=3, noise=0.0, avg=0.0, default_params=0.0, fams=('lin', 'quad', 'rosen', 'abs', 'exp'),
                                 x0mags=(1.0, 1.0, 0.1)))
    sg = pick(draw, 0.1, 1.0, 0.01)
    spec['noise'] = dict(kind='call', sigma=sg, mult=False, seed=draw(I(0, 10000)))
    spec['nsamples'] = dict(kind=pick(draw, 'const', 'const', 'iter', 'runs'), v=draw(I(2, 4)))
    m = len(spec['obj'].get('b', [0, 0]))
    spec['params']['model.abs_tol'] = m * sg * sg * pick(draw, 0.03, 0.1, 0.3, 1.0)
    spec['params']['model.rel_tol'] = 0.0
    spec['maxfun'] = draw(I(20, 120))
    return spec


SUITES = [
    Suite('target', target_specs(), run, 2000, 80000),
    Suite('solve', specs(reg=0.03, noise=0.3, cliff=0.07, diag=0.0, avg=0.25), run, 5500, 300000),
    Suite('restarts', specs(reg=0.0, noise=0.3, restart_p=1.0, diag=0.0, nmax=3, avg=0.2, default_params=0.0, group_p=0.12), run, 3000, 150000),
    Suite('reg', specs(reg=1.0, noise=0.2, diag=0.0), run, 300, 10000),
    Suite('proj', specs(reg=0.1, proj=1.0, noise=0.2, diag=0.0, medium=40, big=60), run, 400, 15000),
]
