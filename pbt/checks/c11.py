"""C11: the returned Jacobian is the fit through the evaluations it names."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = "a Jacobian was compared (all points evaluated and finite, conditioning of the named points below 1e7) and it is not zero"
ASSUMPTIONS = ["point numbers are mapped to recorded evaluations through the log; residuals of a repeatedly sampled point are averaged",
               "tolerance 200*(eps*(10+|x|/spread))*(kappa*|R| + kappa^2*|fit residual|)/spread + 20*eps*(10+|x|/spread)*kappa*|J|, kappa = condition number of the scaled design matrix"]
SHARED_CORPUS_SUITE = 'solve'


def adapt_shared(spec):
    return None if spec.get('proj') else spec


def design(X, scale):
    """centred, scaled design matrix"""
    Z = X / scale
    c = Z[0]
    D = Z - c
    h = float(np.max(np.linalg.norm(D, axis=1)))
    return D, h


def run(spec, ctx):
    rec = S.run_spec(spec, log=True)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if rec.soln is None or O.input_error(rec) or not rec.calls:
        return
    s = rec.soln
    n = len(spec['x0'])
    if s.jacobian is None:
        ctx.label('no-jacobian')
        return
    J = np.asarray(s.jacobian, dtype=float)
    if s.jacmin_eval_nums is None:
        raise Violation('no-eval-nums', "a Jacobian was returned but jacmin_eval_nums is None (%s)" % s.msg)
    nums = [int(v) for v in s.jacmin_eval_nums]
    if len(nums) < n + 1 or 0 in nums:
        ctx.label('still-growing')
        return
    if not O.log_usable(rec):
        ctx.label('log-not-usable')
        return
    pts = O.by_point(rec)
    bad = [v for v in nums if v not in pts]
    if bad:
        raise Violation('eval-num', "jacmin_eval_nums = %r but points 1..%d were evaluated" % (nums, len(pts)))
    X = np.array([rec.calls[pts[v][0]][0] for v in nums])
    R = np.array([O.mean_resid(rec, pts[v])[0] for v in nums])
    if not np.all(np.isfinite(R)) or np.max(np.abs(R)) > 1e100:
        ctx.label('non-finite-data')
        return
    lo, up = S.user_bounds(spec)
    scaled = bool(spec.get('scaling')) and np.all(up - lo < 1e19)
    scale = (up - lo) if scaled else np.ones(n)
    D, h = design(X, scale)
    if not h > 0:
        ctx.label('coincident')
        return
    M = np.column_stack([np.ones(len(nums)), D / h])
    kap = np.linalg.cond(M)
    if spec['params'].get('interpolation.precondition', True) is False:
        kap = max(kap, np.linalg.cond(np.column_stack([np.ones(len(nums)), D])))
    if not kap < 1e7:
        ctx.label('ill-conditioned')
        return
    Q, T = np.linalg.qr(M)
    coef = np.linalg.solve(T, Q.T @ R)
    fit = R - M @ coef
    Jref = coef[1:].T / h / scale
    rmax = np.max(np.abs(R)) + 1e-300
    xm = float(np.max(np.abs(X / scale)))
    if scaled:
        xm = max(xm, float(np.max(np.abs(lo / scale))), 1.0)
    # the solver works relative to a base point no farther than the evaluated points
    xm = max(xm, float(np.max(np.abs(np.array([c[0] for c in rec.calls]) / scale))))
    e = 2.2e-16 * (10.0 + xm / h)
    if e * kap * kap > 1e-3:
        ctx.label('ill-conditioned')
        return
    tol = 200.0 * e * (kap * rmax + kap * kap * np.max(np.abs(fit))) / h + 20.0 * e * kap * float(np.max(np.abs(Jref) * scale))
    err = np.abs(J - Jref) * scale
    if J.shape != Jref.shape or not np.max(err) <= tol:
        raise Violation('jacobian', "Jacobian differs from the fit through points %r by %.3g (tolerance %.3g, kappa %.3g, spread %.3g)\nJ = %r\nfit = %r" % (
            nums, float(np.max(err)) if J.shape == Jref.shape else math.nan, tol, kap, h, J.tolist(), Jref.tolist()))
    if spec['obj']['fam'] == 'lin' and not spec.get('noise') and not spec.get('cliff') and not spec.get('fault'):
        A = np.array(spec['obj']['A']) * spec['obj'].get('s', 1.0)
        er2 = np.abs(J - A) * scale
        if not np.max(er2) <= 2.0 * tol + 1e-13 * float(np.max(np.abs(A * scale))) * kap:
            raise Violation('linear', "linear residuals but J differs from A by %.3g (tolerance %.3g)" % (float(np.max(er2)), 2 * tol))
        ctx.label('linear')
    ctx.label('regression-fit' if len(nums) > n + 1 else 'interpolation-fit')
    rel = float(tol / (np.max(np.abs(J) * scale) + 1e-300))
    ctx.label('tolerance<1e-6' if rel < 1e-6 else 'tolerance<1e-2' if rel < 1e-2 else 'tolerance-weak')
    ctx.nontrivial(rel < 1e-2)


_fams = ('lin', 'quad', 'rosen', 'exp', 'sin', 'rat')
SUITES = [
    Suite('solve', gen.solver_specs(reg=0.02, noise=0.2, fams=_fams, diag=0.05, scaling=0.35, regression=0.4, avg=0.15), run, 7000, 300000),
    Suite('restarts', gen.solver_specs(reg=0.0, noise=0.25, fams=_fams, restart_p=1.0, default_params=0.0, diag=0.0, scaling=0.3, nmax=3, group_p=0.12), run, 3500, 150000),
    Suite('reg', gen.solver_specs(reg=1.0, noise=0.1, fams=_fams), run, 300, 10000),
]
