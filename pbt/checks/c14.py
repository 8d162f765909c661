"""C14: the initial interpolation set is feasible and well poised next to bounds."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols
import dfols.util as U
from ..engine import Suite, Violation
from ..capture import Capture
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance, pos

LEVEL = 'exploration'
RULE = ("initialisation: all npt points were evaluated and x0 is within 2*rhobeg of a bound in some coordinate, or infeasible; generators: a bound is active or "
        "shortens a direction; solver cases: a generator was called")
ASSUMPTIONS = ["with scaling_within_bounds distances and conditioning are measured in the scaled coordinates (x-lower)/(upper-lower)",
               "interpolation matrix: rows (1, (y-x0)/rhobeg); distances compared with 1e-9 relative slack plus rounding of the coordinates",
               "runs that end before npt evaluations (objective already small) are only checked on the points they evaluated",
               "boxes keep gap >= 2*rhobeg and coordinates are at most 1e6*rhobeg in modulus"]


def scaled(spec, X):
    if spec.get('scaling'):
        lo, up = S.user_bounds(spec)
        return (X - lo) / (up - lo)
    return X


def run_init(spec, ctx):
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec) or not rec.calls:
        ctx.label('no-evaluations')
        return
    if rec.exc is not None:
        raise Violation('exception', "%s: %s" % (type(rec.exc).__name__, rec.exc))
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1
    lo, up = S.user_bounds(spec)
    rho = spec['rhobeg']
    O.check_bounds(rec, 'infeasible-initial-point')
    x0 = np.array(spec['x0'], dtype=float)
    p0 = np.minimum(np.maximum(x0, lo), up)
    X = np.array([c[0] for c in rec.calls])
    if len(X) > npt:
        raise Violation('too-many', "%d evaluations with maxfun = npt = %d" % (len(X), npt))
    sc = np.maximum(np.abs(p0), np.where(np.abs(lo) < 1e19, np.abs(lo), 0))
    sc = np.maximum(sc, np.where(np.abs(up) < 1e19, np.abs(up), 0))
    if not np.all(np.abs(X[0] - p0) <= 1e-13 * (sc + 1e-300)):
        raise Violation('first-point', "first evaluation at %r, projected x0 = %r" % (X[0].tolist(), p0.tolist()))
    Z = scaled(spec, X)
    D = Z[1:] - Z[0]
    rd = 8 * O.EPS * (float(np.max(sc / (up - lo))) if spec.get('scaling') else float(np.max(sc)))
    for k, d in enumerate(D):
        nd = float(np.linalg.norm(d))
        if nd < 0.01 * rho * (1 - 1e-9) - rd or nd > 2 * rho * (1 + 1e-9) + rd * math.sqrt(n):
            raise Violation('distance', "evaluation %d is %.17g*rhobeg away from x0 (rhobeg = %r): %r" % (k + 2, nd / rho, rho, X[k + 1].tolist()))
    near = bool(np.any((x0 < lo) | (x0 > up) | (x0 - lo < 2 * rho * ((up - lo) if spec.get('scaling') else 1)) |
                       (up - x0 < 2 * rho * ((up - lo) if spec.get('scaling') else 1))))
    if len(X) < npt:
        ctx.label('ended-early')
        if rec.soln.flag not in (rec.soln.EXIT_SUCCESS,):
            raise Violation('too-few', "only %d of npt = %d points were evaluated: %r" % (len(X), npt, rec.soln.msg))
        return
    W = np.hstack([np.ones((npt, 1)), (Z - Z[0]) / rho])
    sv = np.linalg.svd(W, compute_uv=False)
    cond = float(sv[0] / sv[-1]) if sv[-1] > 0 else float('inf')
    if not cond < 1e4:
        raise Violation('conditioning', "initial interpolation matrix has condition number %.3g; points %r" % (cond, X.tolist()))
    ctx.label('npt=n+1' if npt == n + 1 else 'npt=2n+1' if npt == 2 * n + 1 else 'npt>2n+1' if npt > 2 * n + 1 else 'npt-between')
    ctx.label('cond<10' if cond < 10 else 'cond<100' if cond < 100 else 'cond<1000' if cond < 1000 else 'cond<10000')
    ctx.nontrivial(near)


@st.composite
def init_specs(draw):
    n = draw(I(1, 8))
    scaling = chance(draw, 0.2)
    if scaling:
        rhobeg = pick(draw, 0.1, 0.05, 0.3, 0.5, 0.01)
    else:
        rhobeg = pick(draw, 0.1, 1.0, 1e-3, 10.0, 1e3) * pick(draw, 1.0, 1.37, 0.71)
    lo, up, x0 = gen.draw_box(draw, n, pick(draw, 1.0, 1.0, 10.0, 0.0) * max(rhobeg, 0.1), rhobeg, scaling, pick(draw, 'both', 'both', 'both', 'lower', 'upper'))
    spec = dict(x0=x0, lower=lo, upper=up, rhobeg=rhobeg, rhoend=rhobeg * 1e-3)
    if scaling:
        spec['scaling'] = True
    cap = (n + 1) * (n + 2) // 2
    npt = pick(draw, n + 1, 2 * n + 1, draw(I(n + 1, 2 * n + 1)), draw(I(2 * n + 1, max(cap, 2 * n + 1))))
    npt = min(npt, cap)
    spec['npt'] = npt
    spec['maxfun'] = npt
    spec['obj'] = gen.draw_objective(draw, n, ('lin', 'rosen', 'sin', 'const', 'quad'), 4)
    P = {'logging.n_to_print_whole_x_vector': 0}
    spec['params'] = P
    spec['rng'] = draw(I(0, 1000))
    return spec


# ----------------------------------------------------------------------------------------------- direction generators
def check_dirs(D, num_pts, delta, lower, upper, name):
    D = np.asarray(D, dtype=float)
    n = len(lower)
    if D.shape != (num_pts, n):
        raise Violation(name + '-count', "shape %r, expected (%d, %d)" % (D.shape, num_pts, n))
    if not np.all(np.isfinite(D)):
        raise Violation(name + '-nonfinite', "%r" % D.tolist())
    short = False
    for i in range(num_pts):
        d = D[i]
        if not np.all((d >= lower) & (d <= upper)):
            j = int(np.argmin((d >= lower) & (d <= upper)))
            raise Violation(name + '-bounds', "direction %d component %d = %r outside [%r, %r]" % (i, j, float(d[j]), float(lower[j]), float(upper[j])))
        nd = float(np.linalg.norm(d))
        if nd > delta * (1 + 1e-12):
            raise Violation(name + '-length', "direction %d has length %r > %r" % (i, nd, delta))
        short = short or nd < delta * (1 - 1e-9)
    return short


def run_dirs(spec, ctx):
    n = len(spec['l'])
    delta = spec['delta']
    lower = np.array([{'act': 0.0, 'far': -1e20}.get(k, -delta * v) for k, v in spec['l']], dtype=float)
    upper = np.array([{'act': 0.0, 'far': 1e20}.get(k, delta * v) for k, v in spec['u']], dtype=float)
    np.random.seed(spec['rng'])
    try:
        if spec['fn'] == 'orthog':
            D = U.random_orthog_directions_within_bounds(spec['num'], delta, lower.copy(), upper.copy(), with_neg_dirns=spec['neg'])
        else:
            D = U.random_directions_within_bounds(spec['num'], delta, lower.copy(), upper.copy())
    except Exception as e:
        raise Violation(spec['fn'] + '-exception', "%s: %s" % (type(e).__name__, e))
    short = check_dirs(D, spec['num'], delta, lower, upper, spec['fn'])
    act = int(np.sum((lower == 0) | (upper == 0)))
    ctx.label(spec['fn'], 'active:%s' % ('none' if act == 0 else 'all' if act == n else 'some'))
    if short:
        ctx.label('shortened')
    ctx.label('num<=n' if spec['num'] <= n else 'num<=2n' if spec['num'] <= 2 * n else 'num>2n')
    ctx.nontrivial(act > 0 or short)


@st.composite
def dir_specs(draw):
    n = draw(I(1, 8))
    spec = dict(fn=pick(draw, 'orthog', 'plain'), neg=draw(B), num=draw(I(1, 3 * n + 2)), rng=draw(I(0, 10 ** 6)))
    spec['delta'] = 10.0 ** draw(I(-8, 3)) * pick(draw, 1.0, 1.7, 5.3)

    def side():
        k = pick(draw, 'far', 'act', 'frac', 'near')
        return [k, draw(I(1, 30)) / 10.0 if k == 'frac' else 10.0 ** (-draw(I(1, 12))) if k == 'near' else 0]
    l, u = [], []
    for _ in range(n):
        a, b = side(), side()
        if a[0] == 'act' and b[0] == 'act':
            b = ['far', 0] if draw(B) else ['frac', draw(I(1, 30)) / 10.0]
        l.append(a)
        u.append(b)
    spec['l'], spec['u'] = l, u
    return spec


def run_solver(spec, ctx):
    s = dict(viol=None, n=0)

    def make(name):
        def w(orig, a, k):
            D = orig(*a, **k)
            d = dict(zip(('num_pts', 'delta', 'lower', 'upper'), a))
            d.update({q: v for q, v in k.items() if q in ('num_pts', 'delta', 'lower', 'upper')})
            if s['viol'] is None and len(d) == 4:
                try:
                    check_dirs(D, int(d['num_pts']), float(d['delta']), np.asarray(d['lower']), np.asarray(d['upper']), name)
                except Violation as e:
                    s['viol'] = Violation(e.sig + '-in-solve', e.msg)
                s['n'] += 1
                s.setdefault('names', set()).add(name)
            return D
        return w
    with Capture('util', 'random_orthog_directions_within_bounds', make('orthog'), True), \
            Capture('util', 'random_directions_within_bounds', make('plain'), True):
        rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if s['viol'] is not None:
        raise s['viol']
    ctx.label('generators:' + '+'.join(sorted(s.get('names', ['none']))))
    ctx.nontrivial(s['n'] > 0)


SUITES = [
    Suite('init', init_specs(), run_init, 20000, 400000),
    Suite('dirs', dir_specs(), run_dirs, 30000, 600000),
    Suite('solve', gen.solver_specs(reg=0.0, group_p=0.5, medium=30, big=60), run_solver, 8000, 300000),
]
