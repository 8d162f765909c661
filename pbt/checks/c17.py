"""C17: model bookkeeping stays consistent under any sequence of updates."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O, modelops as MO
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = "at least four operations took effect, of at least three kinds"
ASSUMPTIONS = ["tolerances: 1e-12 relative for sums of squares and running means, ulps of the base point for coordinates",
               "finite residual entries are at most 1e200; 1e200 squares to inf, which is an ordinary (worst) objective value",
               "add_new_point is only called on a complete point set, as in the solver",
               "ties: any index with the smallest stored objective is accepted; while the incumbent has been overwritten by something worse than another point, "
               "either keeping it or searching again is accepted"]


def mean_of(samples):
    with np.errstate(all='ignore'):
        R = np.array(samples)
        return np.mean(R, axis=0), np.max(np.abs(R), axis=0)


def check_state(H, excused, after, fresh=None):
    try:
        return check_state_(H, excused, after, fresh)
    except IndexError as e:
        M = H.model
        raise Violation('lengths', "after %s: the per-point arrays do not have one entry per point (%d points, %s): %s" % (
            after, H.npt, ', '.join('%s %d' % (k, len(getattr(M, k))) for k in ('fval_v', 'objval', 'nsamples', 'eval_num') if hasattr(M, k)), e))


def check_state_(H, excused, after, fresh=None):
    M = H.model
    if M.npt() != H.npt:
        raise Violation('npt', "npt() = %d, %d points were supplied (after %s)" % (M.npt(), H.npt, after))
    objs = []
    for k, p in enumerate(H.pts):
        rm, rs = mean_of(p['samples'])
        r = np.array(M.fval_v[k, :], dtype=float)
        if not O.same_vec(r, rm, 1e-12 * (2 + len(p['samples'])), rs):
            raise Violation('resid', "after %s: stored residual of point %d is %r, mean of its %d sample(s) is %r" % (after, k, r.tolist(), len(p['samples']), rm.tolist()))
        if int(M.nsamples[k]) != len(p['samples']):
            raise Violation('nsamples', "after %s: point %d has sample count %d, expected %d" % (after, k, int(M.nsamples[k]), len(p['samples'])))
        if int(M.eval_num[k]) != p['ev']:
            raise Violation('eval-num', "after %s: point %d has evaluation number %d, expected %d" % (after, k, int(M.eval_num[k]), p['ev']))
        x = np.array(M.xpt(k, abs_coordinates=True), dtype=float)
        xt = H.clip(p['x'])
        sc = np.max(np.abs(p['x'])) + np.max(np.abs(H.base)) + H.spread
        if not np.all(np.abs(x - xt) <= 1e-13 * sc * (1 + len(H.spec['ops']))):
            raise Violation('coords', "after %s: point %d is at %r, expected %r" % (after, k, x.tolist(), xt.tolist()))
        with np.errstate(all='ignore'):
            ss = float(np.dot(r, r))
        hx = H.hval(x)
        want = ss + hx
        ob = float(M.objval[k])
        if math.isnan(want) != math.isnan(ob) or (not math.isnan(want) and not (ob == want or abs(ob - want) <= 1e-12 * (abs(ss) + abs(hx)) + H.spec_lip * 1e-13 * sc * (1 + len(H.spec['ops'])))):
            raise Violation('objval', "after %s: stored objective of point %d is %r, sum(resid^2)+h = %r" % (after, k, ob, want))
        objs.append(ob)
    kopt = int(M.kopt)
    if not 0 <= kopt < H.npt:
        raise Violation('kopt-range', "after %s: incumbent index %d of %d points" % (after, kopt, H.npt))
    ob = np.array(objs)
    if np.all(np.isnan(ob)):
        return True
    best = float(np.nanmin(ob))
    is_best = float(ob[kopt]) == best or (math.isnan(ob[kopt]) and best == math.inf)
    if fresh is not None and not (ob[kopt] <= ob[fresh] or math.isnan(ob[fresh]) or (math.isnan(ob[kopt]) and ob[fresh] == math.inf)):
        raise Violation('incumbent-new', "after %s: incumbent %d has objective %r, the new point %d has %r" % (after, kopt, objs[kopt], fresh, objs[fresh]))
    if not is_best and not excused:
        raise Violation('incumbent', "after %s: incumbent %d has objective %r, point %d has %r" % (after, kopt, objs[kopt], int(np.nanargmin(ob)), best))
    if float(M.objopt()) != objs[kopt] and not math.isnan(objs[kopt]):
        raise Violation('objopt', "after %s: objopt() = %r, stored objective of the incumbent = %r" % (after, float(M.objopt()), objs[kopt]))
    return is_best


def check_final(H, after):
    M = H.model
    x, r, ob, _, ns, ev = M.get_final_results()[:6]
    ob = float(ob)
    cands = []
    k = int(M.kopt)
    cands.append(('incumbent', np.array(M.xpt(k, abs_coordinates=True)), np.array(M.fval_v[k, :]), float(M.objval[k]), int(M.nsamples[k]), int(M.eval_num[k])))
    bestsaved = None
    for s in H.saved:
        with np.errstate(all='ignore'):
            o = float(np.dot(s['r'], s['r'])) + H.hval(s['x'])
        cands.append(('saved point %d' % s['ev'], s['x'], s['r'], o, s['ns'], s['ev']))
    match = [c for c in cands if c[5] == int(ev)]
    if not match:
        raise Violation('final-source', "after %s: final result has evaluation number %d, which is neither the incumbent's nor a saved one" % (after, int(ev)))
    name, xc, rc, oc, nc, _ = match[0]
    sc = np.max(np.abs(xc)) + np.max(np.abs(H.base)) + H.spread
    if not np.all(np.abs(np.asarray(x) - xc) <= 1e-13 * sc * (1 + len(H.spec['ops']))):
        raise Violation('final-x', "after %s: final x = %r, %s is at %r" % (after, np.asarray(x).tolist(), name, xc.tolist()))
    if not O.same_vec(r, rc, 0.0):
        raise Violation('final-resid', "after %s: final residual %r, %s has %r" % (after, np.asarray(r).tolist(), name, rc.tolist()))
    tol = 1e-12 * abs(oc) + H.spec_lip * 1e-12 * sc * (1 + len(H.spec['ops'])) if math.isfinite(oc) else 0.0
    if not (ob == oc or (math.isnan(ob) and math.isnan(oc)) or abs(ob - oc) <= tol):
        raise Violation('final-obj', "after %s: final objective %r, %s has %r" % (after, ob, name, oc))
    if int(ns) != nc:
        raise Violation('final-nsamples', "after %s: final sample count %d, %s has %d" % (after, int(ns), name, nc))
    vals = [c[3] for c in cands]
    fin = [v for v in vals if not math.isnan(v)]
    if fin:
        best = min(fin)
        if math.isnan(ob):
            if math.isfinite(best):
                raise Violation('final-nan', "after %s: final objective is NaN although %r is available" % (after, best))
        elif ob > best + (1e-12 * abs(best) + H.spec_lip * 1e-12 * sc * (1 + len(H.spec['ops'])) if math.isfinite(best) else 0.0):
            raise Violation('final-not-best', "after %s: final objective %r, but %r is available" % (after, ob, best))


def run(spec, ctx):
    H = MO.Hist(spec)
    H.spec_lip = 0.0
    if H.reg is not None:
        H.spec_lip = H.reg.lip * (float(np.max(H.scal[1])) if H.scal is not None else 1.0)
    check_state(H, False, 'construction')
    excused = False
    kinds = set()
    eff = 0
    for i, op in enumerate(spec['ops']):
        if op['op'] in ('query', 'lagrange', 'fit'):
            if op['op'] == 'fit':
                try:
                    H.model.interpolate_mini_models_svd()
                except np.linalg.LinAlgError:
                    pass
            desc = (op['op'], None)
        else:
            k_before = int(H.model.kopt)
            try:
                desc = H.step(op)
            except Exception as e:
                raise Violation('exception', "operation %d %r: %s: %s" % (i, op, type(e).__name__, e))
            if desc is None:
                continue
            if desc[0] == 'change' and desc[1] == k_before:
                excused = True          # the incumbent itself was overwritten (harmless if still the best: re-armed below)
            if desc[0] == 'sample':
                excused = False
        eff += 1
        kinds.add(desc[0])
        after = "operation %d (%s %s)" % (i, desc[0], desc[1] if not isinstance(desc[1], np.ndarray) else '')
        fresh = desc[1] if desc[0] == 'add' or (desc[0] == 'change' and desc[1] != k_before) else None
        if check_state(H, excused, after, fresh):
            excused = False
        check_final(H, after)
    ctx.label('growing-at-end' if H.growing else 'complete')
    for k in kinds:
        ctx.label('op:' + k)
    if any(not np.all(np.isfinite(s)) for p in H.pts for s in p['samples']):
        ctx.label('non-finite-data')
    if H.reg is not None:
        ctx.label('reg')
    ctx.nontrivial(eff >= 4 and len(kinds) >= 3)


@st.composite
def specs(draw, special=0.15):
    ties = draw(B)
    spec = MO.draw_common(draw, 3, 3, special, ties, lambda n: draw(I(n + 1, n + 4)), 0.4)
    kinds = ('change', 'change', 'change', 'sample', 'swap', 'shift', 'save', 'add', 'fit')
    k = draw(I(1, 50)) if chance(draw, 0.3) else draw(I(1, 14))
    spec['ops'] = [MO.draw_op(draw, spec['n'], spec['m'], kinds, special, ties, (1.0, 0.1, 3.0)) for _ in range(k)]
    return spec


SUITES = [
    Suite('histories', specs(), run, 8000, 400000),
    Suite('finite', specs(special=0.0), run, 3000, 100000),
]
