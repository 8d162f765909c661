"""C18: trust-region radii and the diagnostic table obey their invariants."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = "the table has at least three rows, and the radius rho or delta changed or a second run started"
ASSUMPTIONS = ["restarts.rhoend_scale is documented as a factor to reduce rhoend, so only values in (0, 1] are generated",
               "one row per iteration: an iteration is one successful fit of the residual models (a fit that fails ends the iteration or the run before its row)",
               "growing.reset_rho exempts only the monotonicity of rho, for runs that really start with fewer points than npt",
               "fk: slack 1e-12 relative for deterministic objectives that are averaged (running mean) plus rounding of re-evaluated regularisers",
               "additional columns would be accepted; documented ones must be there"]
COLS = ('fk', 'rho', 'delta', 'norm_sk', 'npt', 'interpolation_error', 'interpolation_condition_number', 'interpolation_change_J_norm',
        'interpolation_total_residual', 'poisedness', 'max_distance_xk', 'norm_gk', 'nruns', 'nf', 'nx', 'nsamples', 'iter_this_run', 'iters_total',
        'iter_type', 'ratio', 'slow_iter')
SHARED_CORPUS_SUITE = 'solve'


def adapt_shared(spec):
    spec = S.clone(spec)
    P = spec['params'] = dict(spec.get('params') or {})
    P['logging.save_diagnostic_info'] = True
    P.setdefault('logging.save_poisedness', False)
    return spec


def default_rhobeg(spec):
    if spec.get('scaling'):
        return 0.1
    lo, up = S.user_bounds(spec)
    x0 = np.minimum(np.maximum(np.array(spec['x0'], dtype=float), lo), up)
    vals = [0.1 * max(float(np.max(np.abs(v))), 1.0) for v in (x0, np.array(spec['x0'], dtype=float))]
    return max(vals)


def run(spec, ctx):
    spec = adapt_shared(spec)
    P = spec['params']
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if rec.soln is None or O.input_error(rec) or not rec.calls:
        return
    s = rec.soln
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1
    df = s.diagnostic_info
    rows = rec.iters - rec.fits_failed
    if df is None:
        if rows > 0:
            raise Violation('no-table', "%d iterations but no diagnostic table" % rows)
        return
    cols = [str(c) for c in df.columns]
    missing = [c for c in COLS if c not in cols]
    if missing:
        raise Violation('columns', "documented columns missing: %r" % missing)
    for c, key in (('xk', 'logging.save_xk'), ('rk', 'logging.save_rk')):
        if (c in cols) != bool(P.get(key)):
            raise Violation('columns-optional', "column %s present: %r, %s = %r" % (c, c in cols, key, P.get(key)))
    N = len(df)
    if N != rows:
        raise Violation('rows', "%d rows for %d iterations" % (N, rows))
    if N == 0:
        ctx.label('empty-table')
        return
    T = {c: np.asarray(df[c], dtype=float) for c in ('fk', 'rho', 'delta', 'npt', 'nruns', 'nf', 'nx', 'iter_this_run', 'iters_total')}
    rho, delta = T['rho'], T['delta']
    rhobeg = spec['rhobeg'] if spec.get('rhobeg') is not None else default_rhobeg(spec)
    rhoend = spec['rhoend'] if spec.get('rhoend') is not None else 1e-8
    scale = float(P.get('restarts.rhoend_scale', 1.0))
    maxpts = max(npt, int(P.get('restarts.max_npt', npt))) if P.get('restarts.increase_npt') else npt
    det = O.deterministic(spec)
    reset_rho = (bool(P.get('growing.reset_rho')) and P.get('growing.ndirs_initial', npt - 1) < npt - 1)
    fslack = 1e-12 if spec.get('nsamples') else 0.0
    hx = 1e-12 * abs(S.hval(rec, np.asarray(s.x))) + O.lip(rec) * 10 * float(np.linalg.norm(O.xtol(rec))) if spec.get('reg') else 0.0

    def bad(i, sig, text):
        raise Violation(sig, "row %d of %d (run %d, iteration %d): %s" % (i, N, int(T['nruns'][i]), int(T['iter_this_run'][i]), text))
    for i in range(N):
        if not (math.isfinite(rho[i]) and rho[i] > 0):
            bad(i, 'rho-positive', "rho = %r" % rho[i])
        if not delta[i] >= rho[i]:
            bad(i, 'delta-below-rho', "delta = %r < rho = %r" % (delta[i], rho[i]))
        if not delta[i] <= 1e10:
            bad(i, 'delta-cap', "delta = %r" % delta[i])
        lowest = rhoend * scale ** T['nruns'][i]
        if not rho[i] >= lowest * (1 - 1e-12):
            bad(i, 'rho-below-rhoend', "rho = %r < rhoend = %r" % (rho[i], lowest))
        if not rho[i] <= rhobeg * (1 + 1e-15):
            bad(i, 'rho-above-rhobeg', "rho = %r > rhobeg = %r" % (rho[i], rhobeg))
        if not 2 <= T['npt'][i] <= maxpts:
            bad(i, 'npt', "%d interpolation points, allowed 2..%d" % (T['npt'][i], maxpts))
        if int(T['iters_total'][i]) != i + int(T['iters_total'][0]) or T['iters_total'][0] not in (0, 1):
            bad(i, 'iters-total', "iters_total = %r" % T['iters_total'][i])
        for c, fin in (('nf', s.nf), ('nx', s.nx), ('nruns', s.nruns)):
            if T[c][i] > fin:
                bad(i, c + '-bound', "%s = %d exceeds the final %d" % (c, T[c][i], fin))
            if i and T[c][i] < T[c][i - 1]:
                bad(i, c + '-decreases', "%s = %d after %d" % (c, T[c][i], T[c][i - 1]))
            if T[c][i] < (0 if c == 'nruns' else 1) or T[c][i] != int(T[c][i]):
                bad(i, c + '-value', "%s = %r" % (c, T[c][i]))
        if T['nx'][i] > T['nf'][i]:
            bad(i, 'nx-nf', "nx = %d > nf = %d" % (T['nx'][i], T['nf'][i]))
        if i == 0 or T['nruns'][i] != T['nruns'][i - 1]:
            if T['iter_this_run'][i] != T['iter_this_run'][0] or T['iter_this_run'][0] not in (0, 1):
                bad(i, 'iter-first', "first iteration of the run is numbered %r" % T['iter_this_run'][i])
            continue
        if T['iter_this_run'][i] != T['iter_this_run'][i - 1] + 1:
            bad(i, 'iter-this-run', "iteration %r follows iteration %r of the same run" % (T['iter_this_run'][i], T['iter_this_run'][i - 1]))
        if not reset_rho and not rho[i] <= rho[i - 1]:
            bad(i, 'rho-increases', "rho = %r after %r in the same run" % (rho[i], rho[i - 1]))
        if det:
            a, b = T['fk'][i - 1], T['fk'][i]
            if (math.isnan(b) and not math.isnan(a)) or b > a + fslack * abs(a) + hx:
                bad(i, 'fk-increases', "best objective %r after %r in the same run" % (b, a))
    if np.any(delta == 1e10):
        ctx.label('delta-at-cap')
    if np.any(T['nruns'] > 0):
        ctx.label('several-runs-in-table')
        if scale < 1 and np.any(rho < rhoend):
            ctx.label('rho-below-original-rhoend')
    if np.any(T['npt'] < npt):
        ctx.label('rows-while-growing')
    if np.any(T['npt'] > npt):
        ctx.label('rows-with-more-points')
    if det:
        ctx.label('fk-checked')
    ctx.nontrivial(N >= 3 and (len(set(rho)) > 1 or len(set(delta)) > 1 or np.any(T['nruns'] > 0)))


@st.composite
def huge_specs(draw):
    """solutions very far away: the radius grows up to its cap"""
    n = draw(I(1, 2))
    spec = dict(x0=[num(draw, 1.0) for _ in range(n)])
    spec['rhobeg'] = pick(draw, 0.1, 1e3, 1e6, 1e9, 1e10)
    spec['rhoend'] = spec['rhobeg'] * pick(draw, 1e-2, 1e-8, 0.5)
    f = 10.0 ** draw(I(8, 14))
    spec['obj'] = dict(fam=pick(draw, 'lin', 'lin', 'quad', 'abs'), q=1.0 / f, s=1.0, A=[[1.0 if i == j else num(draw, 0.3) for j in range(n)] for i in range(n)],
                       b=[f * pick(draw, 1.0, -1.0, 0.3) for _ in range(n)])
    P = {'logging.n_to_print_whole_x_vector': 0}
    if draw(B):
        P['tr_radius.gamma_inc'] = pick(draw, 5.0, 100.0)
        P['tr_radius.gamma_inc_overline'] = pick(draw, 10.0, 1000.0, 1e6)
    gen.maybe(draw, P, 'tr_radius.gamma_dec', 0.3, 0.9, 0.1)
    if draw(B):
        gen.p_restarts(draw, P, n=n, npt=n + 1)
    if n == 2 and chance(draw, 0.3):
        gen.p_growing(draw, P, n, 3)
    spec['params'] = P
    if chance(draw, 0.3):
        spec['lower'] = [-10.0 ** draw(I(11, 15))] * n
    if chance(draw, 0.2):
        spec['reg'] = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 1e3, 1e6), mode='closure')
        P['func_tol.max_iters'] = 10
    spec['maxfun'] = draw(I(10, 60))
    spec['rng'] = draw(I(0, 1000))
    return spec


@st.composite
def default_radius(draw, base):
    spec = draw(base)
    if chance(draw, 0.15):
        lo, up = S.user_bounds(spec)
        gap = float(np.min(up - lo))
        if not spec.get('scaling') and gap >= 2 * default_rhobeg(spec):
            spec['rhobeg'] = None
            if spec['rhoend'] >= default_rhobeg(spec) or draw(B):
                spec['rhoend'] = None
    P = spec['params']
    if chance(draw, 0.1):
        P['logging.save_xk'] = True
    if chance(draw, 0.1):
        P['logging.save_rk'] = True
    return spec


SUITES = [
    Suite('solve', default_radius(gen.solver_specs(diag=0.0)), run, 5000, 250000),
    Suite('det', default_radius(gen.solver_specs(diag=0.0, call_noise=False, cliff=0.05, group_p=0.3)), run, 3000, 200000),
    Suite('growing', gen.solver_specs(groups=('restarts', 'growing', 'growing', 'tr'), group_p=0.7, diag=0.0, regression=0.5, noise=0.1), run, 2000, 100000),
    Suite('huge', huge_specs(), run, 1500, 60000),
    Suite('reg', gen.solver_specs(reg=1.0, diag=0.0), run, 200, 8000),
    Suite('proj', gen.solver_specs(proj=1.0, reg=0.0, diag=0.0, medium=30, big=45), run, 200, 8000),
]
