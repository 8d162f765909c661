"""Oracle helpers shared by the solver-level checks."""
import math

import numpy as np

from .engine import Violation
from . import spec as S

EPS = float(np.finfo(float).eps)
BIG_OK = 1e140      # |r| below this never overflows when squared and summed


def input_error(rec):
    return rec.soln is not None and rec.soln.flag == rec.soln.EXIT_INPUT_ERROR


def outcome_labels(rec, ctx):
    if rec.nonterm:
        ctx.label('outcome:nonterm')
    elif rec.blown:
        ctx.label('outcome:budget-blown')
    elif rec.exc is not None:
        ctx.label('outcome:exc:' + type(rec.exc).__name__)
    else:
        ctx.label('outcome:' + str(rec.soln.msg)[:46])
        if rec.soln.nruns > 1:
            ctx.label('nruns>1')


def spec_labels(spec, ctx):
    if spec.get('scaling'):
        ctx.label('scaling')
    if spec.get('nsamples'):
        ctx.label('averaging')
    if spec.get('reg'):
        ctx.label('reg')
    if spec.get('proj'):
        ctx.label('projections')
    if spec.get('noise'):
        ctx.label('noise:' + spec['noise']['kind'])
    if spec.get('fault'):
        ctx.label('fault:' + spec['fault']['kind'])
    P = spec.get('params') or {}
    for k in ('restarts.use_restarts', 'growing.ndirs_initial', 'regression.num_extra_steps',
              'init.random_initial_directions', 'init.run_in_parallel', 'noise.quit_on_noise_level',
              'restarts.increase_npt', 'regression.momentum_extra_steps'):
        if P.get(k):
            ctx.label(k)
    if spec.get('npt') and spec['npt'] > len(spec['x0']) + 1:
        ctx.label('regression-npt')


def check_bounds(rec, sig='bound-violated'):
    """every recorded point and soln.x inside the user's box, exactly; returns number of components on a bound"""
    lo, up = S.user_bounds(rec.spec)
    touching = 0
    for k, (x, _) in enumerate(rec.calls):
        ok = (x >= lo) & (x <= up)
        if not np.all(ok):
            i = int(np.argmin(ok))
            raise Violation(sig, "evaluation %d: x[%d] = %r outside [%r, %r]" % (k + 1, i, float(x[i]), float(lo[i]), float(up[i])))
        touching += int(np.sum((x == lo) | (x == up)))
    if rec.soln is not None and rec.soln.x is not None:
        x = np.asarray(rec.soln.x)
        ok = (x >= lo) & (x <= up)
        if not np.all(ok):
            i = int(np.argmin(ok))
            raise Violation(sig + '-solution', "soln.x[%d] = %r outside [%r, %r]" % (i, float(x[i]), float(lo[i]), float(up[i])))
    return touching


def maxfun_of(spec):
    n = len(spec['x0'])
    return int(spec['maxfun']) if spec.get('maxfun') is not None else min(100 * (n + 1), 1000)


def check_budget(rec):
    mf = maxfun_of(rec.spec)
    if len(rec.calls) > mf:
        raise Violation('budget-exceeded', "objfun called %d times%s, maxfun = %d" % (len(rec.calls), ' (cut off)' if rec.blown else '', mf))


def xtol(rec):
    """componentwise tolerance of the base-point arithmetic (a few hundred ulps of the largest coordinate seen)"""
    X = np.abs(np.array([c[0] for c in rec.calls]))
    t = np.max(X, axis=0)
    if rec.spec.get('scaling'):
        lo, up = S.user_bounds(rec.spec)
        t = np.maximum(t, np.maximum(np.abs(lo), np.abs(up)))
    return 1e-12 * np.maximum(t, 1e-290) + 1e-300


def by_point(rec):
    """point number -> list of call indices, from the log"""
    pts = {}
    for i, (ev, pt, ncalls, _) in enumerate(rec.evals):
        pts.setdefault(pt, []).append(i)
    return pts


def log_usable(rec):
    return len(rec.evals) == len(rec.calls)


def same_vec(a, b, scale_fac=1e-11, scale=None):
    """entrywise equal up to relative rounding of `scale`; non-finite entries must match"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    nf = ~fin
    if np.any(nf) and not np.all((np.isnan(a[nf]) & np.isnan(b[nf])) | (a[nf] == b[nf])):
        return False
    if not np.any(fin):
        return True
    s = np.abs(b) if scale is None else scale
    return bool(np.all(np.abs(a[fin] - b[fin]) <= scale_fac * (np.zeros_like(b) + s)[fin] + 1e-300))


def mean_resid(rec, idxs):
    R = np.array([rec.calls[i][1] for i in idxs])
    with np.errstate(all='ignore'):
        return np.mean(R, axis=0), np.max(np.abs(R), axis=0)


def objective_of_call(rec, i):
    x, r = rec.calls[i]
    with np.errstate(all='ignore'):
        return S.sumsq(r) + S.hval(rec, x)


def lip(rec):
    return rec.reg.lip if rec.reg is not None else 0.0


def deterministic(spec):
    """objective depends on x only"""
    no = spec.get('noise')
    return not (no and no['kind'] == 'call') and not spec.get('fault')


def param(spec, key, default):
    v = (spec.get('params') or {}).get(key)
    return default if v is None else v


def check_stored_point(rec, pts, evnum, x, r, obj, nsamples, what, tol):
    """x, r, obj claimed to belong to evaluation point number evnum"""
    if evnum not in pts:
        raise Violation(what + '-evalnum', "names evaluation point %r, but points 1..%d were evaluated" % (evnum, len(pts)))
    idxs = pts[evnum]
    xe = rec.calls[idxs[0]][0]
    if not np.all(np.abs(np.asarray(x) - xe) <= tol):
        raise Violation(what + '-x', "x = %r is not evaluation point %d = %r (tolerance %r)" % (list(map(float, x)), evnum, xe.tolist(), tol.tolist()))
    rm, rs = mean_resid(rec, idxs)
    if not same_vec(r, rm, 1e-11, rs):
        raise Violation(what + '-resid', "resid = %r but mean of the %d sample(s) at point %d is %r" % (np.asarray(r).tolist(), len(idxs), evnum, rm.tolist()))
    with np.errstate(all='ignore'):
        ss = S.sumsq(rm)
        sc = S.sumsq(rs)
    hx = S.hval(rec, xe)
    want = ss + hx
    if math.isfinite(want):
        allow = 1e-10 * sc + 1e-12 * abs(hx) + lip(rec) * float(np.linalg.norm(tol)) + 1e-300
        if not abs(obj - want) <= allow:
            raise Violation(what + '-obj', "obj = %r but sum(resid^2)+h = %r at point %d" % (float(obj), want, evnum))
    elif math.isfinite(obj) and float(obj) < 1e300:
        raise Violation(what + '-obj', "obj = %r is finite but sum(resid^2)+h = %r at point %d" % (float(obj), want, evnum))
    if nsamples is not None and int(nsamples) != len(idxs):
        raise Violation(what + '-nsamples', "sample count %r, but point %d was evaluated %d time(s)" % (int(nsamples), evnum, len(idxs)))
