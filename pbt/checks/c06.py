"""C06: convex regularised linear least squares converges to the regularised optimum."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, num, pick, chance

LEVEL = 'exploration'
RULE = ("the start is not already optimal (F(x0) > F* + 1e-2(1+F*)) and the regulariser matters (the minimiser of the smooth part alone is "
        "worse than F* by more than 1e-3(1+F*))")
ASSUMPTIONS = ["the reference value is the best feasible point found by a long accelerated proximal-gradient run and by smoothed L-BFGS-B; any feasible "
               "point's value bounds F* from above, so the comparison is sound even if the reference were inexact",
               "domain: n <= 4, cond(A) <= 10, singular values within [0.3, 5], lambda 1e-3..30, default parameters"]


def n_of(sp):
    return sp['n']


@st.composite
def specs(draw, box=None, scaling=False, kinds=('l1', 'l1', 'l2')):
    n = draw(I(1, 4))
    sp = dict(n=n, m=n + draw(I(0, 4)), seed=draw(I(0, 10 ** 6)), cond=pick(draw, 1.0, 3.0, 10.0), amp=pick(draw, 1.0, 1.5, 0.9),
              x0mag=pick(draw, 1.0, 0.0, 3.0, 10.0), dist=pick(draw, 1.0, 0.3, 3.0), rnoise=pick(draw, 0.0, 1.0, 0.1),
              kind=pick(draw, *kinds), lam=pick(draw, 1.0, 0.1, 0.01, 1e-3, 3.0, 10.0, 30.0), sparse=draw(I(0, 2)))
    sp['box'] = box if box is not None else pick(draw, 'none', 'both', 'both', 'lower', 'upper')
    if sp['box'] != 'none':
        sp['bw'] = [pick(draw, 1.0, 3.0, 10.0) for _ in range(n)]
        sp['bp'] = [draw(I(-12, 12)) / 8.0 for _ in range(n)]
        sp['xp'] = [pick(draw, 'in', 'atl', 'atu', 'below', 'above') for _ in range(n)]
    sp['scaling'] = bool(scaling)
    if chance(draw, 0.2):
        sp['c'] = True
    sp['mode'] = pick(draw, 'closure', 'args', 'args2')
    if chance(draw, 0.2):
        sp['npt'] = draw(I(n + 1, min(2 * n + 1, (n + 1) * (n + 2) // 2)))
    if chance(draw, 0.3):
        sp['rhobeg'] = pick(draw, 0.1, 0.5)
    if chance(draw, 0.12) and not scaling:
        sp['hit'] = draw(I(0, n))
        sp['rhobeg'] = 0.5
    if chance(draw, 0.3):
        sp['rhoend'] = pick(draw, 1e-5, 1e-6, 1e-8)
    return sp


def build(sp):
    rs = np.random.RandomState(sp['seed'])
    n, m = sp['n'], sp['m']
    U, _ = np.linalg.qr(rs.normal(size=(m, n)))
    V, _ = np.linalg.qr(rs.normal(size=(n, n)))
    k = np.linspace(0, 1, n) if n > 1 else np.full(1, 0.5)
    A = (U * (sp['amp'] * sp['cond'] ** (0.5 - k))) @ V.T
    x0 = rs.uniform(-1, 1, size=n) * sp['x0mag']
    xs = x0 + rs.uniform(-1, 1, size=n) * sp['dist']
    if sp['sparse']:
        xs[rs.uniform(size=n) < 0.5 * sp['sparse']] = 0.0
    b = A @ xs + sp['rnoise'] * rs.normal(size=m)
    c = rs.uniform(-1, 1, size=n) if sp.get('c') else None
    lo = up = None
    if sp['box'] != 'none':
        rb = sp.get('rhobeg') or (0.1 if sp['scaling'] else 0.1 * max(np.max(np.abs(x0)) + 6.0 * max(sp['dist'], 1), 1.0))
        w = np.array(sp['bw']) * max(sp['dist'], 0.5)
        if not sp['scaling']:
            w = np.maximum(w, 2.5 * rb)
        mid = xs + np.array(sp['bp']) * w / 2
        lo = mid - w / 2
        up = mid + w / 2
        for i, p in enumerate(sp['xp']):
            if p == 'atl':
                x0[i] = lo[i]
            elif p == 'atu':
                x0[i] = up[i]
            elif p == 'below':
                x0[i] = lo[i] - 0.2 * w[i]
            elif p == 'above':
                x0[i] = up[i] + 0.2 * w[i]
            elif not lo[i] <= x0[i] <= up[i]:
                x0[i] = mid[i]
        if sp['box'] == 'lower':
            up = None
        elif sp['box'] == 'upper':
            lo = None
    if sp.get('hit') is not None:
        # the residuals vanish exactly at x0 or at one of the first points, where the regulariser does not
        xh = x0.copy()
        if lo is not None:
            xh = np.maximum(xh, lo)
        if up is not None:
            xh = np.minimum(xh, up)
        if sp['hit'] < n:
            xh[sp['hit']] += sp['rhobeg']
        b = A @ xh
    return A, b, x0, lo, up, c


def reference(A, b, lo, up, reg, x0):
    n = A.shape[1]
    l = lo if lo is not None else np.full(n, -np.inf)
    u = up if up is not None else np.full(n, np.inf)

    def F(x):
        return float(np.sum((A @ x - b) ** 2)) + reg.value(x)
    best = [F(np.clip(x0, l, u)), np.clip(x0, l, u)]

    def offer(x):
        x = np.clip(x, l, u)
        f = F(x)
        if f < best[0]:
            best[0], best[1] = f, x
    offer(np.linalg.lstsq(A, b, rcond=None)[0])
    offer(reg.c)
    L = 2 * np.linalg.norm(A, 2) ** 2
    if reg.kind == 'l1' or (lo is None and up is None):
        x = best[1].copy()
        y, t = x.copy(), 1.0
        for it in range(20000):
            xn = np.clip(reg.proxval(y - 2 * A.T @ (A @ y - b) / L, 1 / L), l, u)   # separable: exact for l1 + box
            if np.dot(y - xn, xn - x) > 0:
                t = 1.0
            tn = (1 + math.sqrt(1 + 4 * t * t)) / 2
            y = xn + (t - 1) / tn * (xn - x)
            if np.max(np.abs(xn - x)) < 1e-14 * (1 + np.max(np.abs(x))) and it > 20:
                break
            x, t = xn, tn
        offer(x)
    if reg.kind == 'l2':
        x = best[1].copy()
        for eps in (1e-1, 1e-3, 1e-5, 1e-7):
            def sm(x):
                z = x - reg.c
                s = math.sqrt(float(z @ z) + eps * eps)
                r = A @ x - b
                return float(r @ r) + reg.lam * s, 2 * A.T @ r + reg.lam * z / s
            res = minimize(sm, x, jac=True, method='L-BFGS-B', bounds=list(zip(l, u)), options=dict(maxiter=2000, ftol=1e-15, gtol=1e-12))
            x = res.x
            offer(x)
    return best[0], best[1]


def run(sp, ctx):
    A, b, x0, lo, up, c = build(sp)
    rg = dict(kind=sp['kind'], lam=sp['lam'], mode='closure' if sp['mode'] == 'closure' else 'args')
    if c is not None:
        rg['c'] = c.tolist()
    if sp['mode'] == 'args2':
        rg['extra_h'] = ['eh', 2]
        rg['extra_p'] = ['ep', 3.5]
    spec = dict(x0=x0.tolist(), lower=None if lo is None else lo.tolist(), upper=None if up is None else up.tolist(),
                obj=dict(fam='lin', A=A.tolist(), b=b.tolist(), s=1.0), reg=rg, npt=sp.get('npt'), rhobeg=None if sp['scaling'] else sp.get('rhobeg'),
                rhoend=sp.get('rhoend'), maxfun=None, scaling=sp['scaling'], params=None)
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    if rec.exc is not None or rec.nonterm or rec.blown:
        raise Violation('no-result', "no result for a regularised linear problem: %r nonterm=%s blown=%s" % (rec.exc, rec.nonterm, rec.blown))
    if O.input_error(rec):
        ctx.exclude('input-error')
        return
    s = rec.soln
    if rec.reg.args_errors:
        raise Violation('args', "h/prox_uh were called with wrong extra arguments: %r" % (rec.reg.args_errors[0],))
    lo_, up_ = S.user_bounds(spec)
    if np.any(s.x < lo_) or np.any(s.x > up_):
        raise Violation('infeasible', "x = %r" % (s.x.tolist(),))
    fstar, xstar = reference(A, b, lo, up, rec.reg, x0)
    f = float(np.sum((A @ s.x - b) ** 2)) + rec.reg.value(s.x)
    ctx.label('reg:' + sp['kind'], 'lam=%g' % sp['lam'], 'box:' + sp['box'], 'args:' + sp['mode'])
    if sp['scaling']:
        ctx.label('scaling')
    tol = 1e-3 * (1.0 + fstar)
    if not (s.obj <= fstar + tol and f <= fstar + tol):
        raise Violation('not-optimal', "obj = %r (recomputed %r), true minimum <= %r; flag %r, %s, nf=%d" % (float(s.obj), f, fstar, s.flag, s.msg, s.nf))
    if s.flag == s.EXIT_SLOW_WARNING and sp['lam'] <= 0.1 and f <= fstar + 1e-4 * (1.0 + fstar) and len(rec.calls) > 20 * n_of(sp):
        # see known_findings.json: converged, but the weakly regularised subproblem is solved so inexactly that the
        # slow-progress test ends the run (20n consecutive slow iterations) before rho reaches rhoend
        raise Violation('slow-exit-after-convergence', "flag %r (%s), obj=%r F*=%r lam=%g nf=%d" % (s.flag, s.msg, float(s.obj), fstar, sp['lam'], s.nf))
    if s.flag != s.EXIT_SUCCESS:
        raise Violation('not-success', "flag %r (%s), obj=%r F*=%r nf=%d" % (s.flag, s.msg, float(s.obj), fstar, s.nf))
    f0 = O.objective_of_call(rec, 0)
    xl = np.clip(np.linalg.lstsq(A, b, rcond=None)[0], lo_, up_)
    fl = float(np.sum((A @ xl - b) ** 2)) + rec.reg.value(xl)
    ctx.nontrivial(f0 > fstar + 1e-2 * (1 + fstar) and fl > fstar + 1e-3 * (1 + fstar))


SUITES = [
    Suite('free', specs(box='none', kinds=('l1', 'l1', 'l2', 'linf')), run, 300, 10000, case_limit_s=200),
    Suite('boxed', specs(), run, 400, 15000, case_limit_s=200),
    Suite('scaled', specs(box='both', scaling=True), run, 200, 8000, case_limit_s=200),
]
