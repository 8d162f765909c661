"""C05: linear least squares is solved to global optimality."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import lsq_linear

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, num, pick, chance

LEVEL = 'exploration'
RULE = ("the start is not already optimal (f(x0) > f* + 1e-3(1+f*)) and either some bound is active at the reference minimiser, or the "
        "problem is unconstrained with n >= 2")
ASSUMPTIONS = ["the reference optimum is the best feasible point found by scipy's bounded-variable least squares and an active-set polish; "
               "any feasible point's value is an upper bound of f*, so the comparison is sound even if the reference were inexact",
               "domain: n <= 6, singular values of A within [0.03, 30] (cond <= 1e3), |x0|, box and minimiser within about 20 (some 1e3), default budget and rhoend"]


@st.composite
def specs(draw, box=None, scaling=None, under=False):
    n = draw(I(2, 7)) if under else draw(I(1, 8))
    m = draw(I(1, n - 1)) if under else n + draw(I(0, 6))
    seed = draw(I(0, 10 ** 6))
    cond = pick(draw, 1.0, 3.0, 10.0, 100.0, 1000.0)
    amp = pick(draw, 1.0, 0.1, 10.0)
    x0mag = pick(draw, 1.0, 0.0, 5.0, 30.0, 1000.0)
    dist = pick(draw, 1.0, 0.1, 5.0, 20.0)
    rnoise = pick(draw, 0.0, 1.0, 0.1, 10.0)
    sp = dict(n=n, m=m, seed=seed, cond=cond, amp=amp, x0mag=x0mag, dist=dist, rnoise=rnoise)
    sp['box'] = box if box is not None else pick(draw, 'none', 'both', 'both', 'lower', 'upper')
    if sp['box'] != 'none':
        sp['bw'] = [pick(draw, 1.0, 3.0, 10.0, 0.3) for _ in range(n)]
        sp['bp'] = [draw(I(-12, 12)) / 8.0 for _ in range(n)]
        sp['xp'] = [pick(draw, 'in', 'atl', 'atu', 'below', 'above', 'hair') for _ in range(n)]
    sp['scaling'] = bool(sp['box'] == 'both' and (scaling if scaling is not None else chance(draw, 0.4)))
    if chance(draw, 0.4):
        sp['npt'] = draw(I(n + 1, min(2 * n + 1, (n + 1) * (n + 2) // 2)))
    if chance(draw, 0.25):
        sp['rhobeg'] = pick(draw, 0.1, 0.5, 0.02)
    return sp


@st.composite
def kkt_specs(draw):
    """Problems designed from their optimality conditions: active bounds with multipliers of very different sizes."""
    n = draw(I(1, 6))
    return dict(kind='kkt', n=n, m=n + draw(I(0, 3)), seed=draw(I(0, 10 ** 6)), mat=pick(draw, 'diag', 'qr', 'tri'),
                amp=pick(draw, 1.0, 10.0, 30.0), cond=pick(draw, 1.0, 3.0, 30.0), noise=pick(draw, 0.0, 1.0),
                act=[pick(draw, 'free', 'lower', 'upper', 'free') for _ in range(n)],
                lam=[pick(draw, 0, -3, -2, -1, 1, 2, 3) + draw(I(0, 9)) / 10.0 for _ in range(n)],
                w=[pick(draw, 1.0, 2.0, 10.0, 100.0) for _ in range(n)], xs=[draw(I(-20, 20)) / 4.0 for _ in range(n)],
                pos=[draw(I(0, 8)) / 8.0 for _ in range(n)], x0=[pick(draw, 'atl', 'atu', 'in', 'opt', 'out') for _ in range(n)],
                rb=pick(draw, None, 0.1, 0.02, 0.4), scaling=chance(draw, 0.3),
                side=pick(draw, 'both', 'both', 'lower', 'upper'), extra=chance(draw, 0.25), box='kkt')


def build_kkt(sp):
    rs = np.random.RandomState(sp['seed'])
    n, m = sp['n'], sp['m']
    k = np.linspace(0, 1, n) if n > 1 else np.zeros(1)
    s = sp['amp'] * sp['cond'] ** (-k)
    A = np.zeros((m, n))
    if sp['mat'] == 'diag':
        A[:n, :] = np.diag(rs.permutation(s))
    elif sp['mat'] == 'tri':
        A[:n, :] = np.diag(rs.permutation(s))
        for i in range(n):
            for j in range(i):
                A[j, i] = rs.randint(-1, 2) * 0.3 * min(A[i, i], A[j, j])
    else:
        U, _ = np.linalg.qr(rs.normal(size=(m, n)))
        V, _ = np.linalg.qr(rs.normal(size=(n, n)))
        A = (U * s) @ V.T
    act = list(sp['act'])
    side = sp['side']
    act = ['free' if (a == 'lower' and side == 'upper') or (a == 'upper' and side == 'lower') else a for a in act]
    rb = None if sp['scaling'] and side == 'both' else sp['rb']
    xs = np.array(sp['xs'])
    w = np.array(sp['w'])
    if rb is None and not (sp['scaling'] and side == 'both'):
        w = np.maximum(w, 4.0)
    lo, up = np.zeros(n), np.zeros(n)
    lam = np.zeros(n)
    for i in range(n):
        if act[i] == 'lower':
            lo[i], lam[i] = xs[i], 10.0 ** sp['lam'][i]
        elif act[i] == 'upper':
            lo[i], lam[i] = xs[i] - w[i], -10.0 ** sp['lam'][i]
        else:
            lo[i] = xs[i] - (0.1 + 0.8 * sp['pos'][i]) * w[i]
        up[i] = lo[i] + w[i]
        if act[i] == 'upper':
            up[i] = xs[i]
    r = A @ np.linalg.solve(A.T @ A, lam / 2)
    if m > n and sp['noise']:
        z = rs.normal(size=m)
        r = r + sp['noise'] * (z - A @ np.linalg.lstsq(A, z, rcond=None)[0])
    b = A @ xs - r
    x0 = np.zeros(n)
    for i in range(n):
        x0[i] = {'atl': lo[i], 'atu': up[i], 'opt': xs[i], 'in': lo[i] + w[i] * (0.1 + 0.8 * sp['pos'][-1 - i]),
                 'out': lo[i] - 0.25 * w[i]}[sp['x0'][i]]
    if rb is None and not (sp['scaling'] and side == 'both'):
        # default rhobeg is 0.1*max(|x0|, 1), keep the problem legal
        d = 0.1 * max(np.max(np.abs(x0)), 1.0)
        if 2.0 * d > np.min(w):
            rb = 0.4 * float(np.min(w))
    elif rb is not None:
        rb = min(rb, 0.4 * float(np.min(w)))
    sp = dict(sp, rhobeg=rb, scaling=sp['scaling'] and side == 'both', npt=(n + 2 if sp['extra'] and n >= 2 else None))
    return sp, A, b, x0, (lo if side != 'upper' else None), (up if side != 'lower' else None), xs


def build(sp):
    rs = np.random.RandomState(sp['seed'])
    n, m = sp['n'], sp['m']
    r = min(m, n)
    U, _ = np.linalg.qr(rs.normal(size=(m, r)))
    V, _ = np.linalg.qr(rs.normal(size=(n, r)))
    k = np.linspace(0, 1, r) if r > 1 else np.zeros(1)
    s = sp['amp'] * sp['cond'] ** (0.5 - k)
    s = s / max(1.0, np.max(s) / 31.0)
    A = (U * s) @ V.T
    x0 = rs.uniform(-1, 1, size=n) * sp['x0mag']
    xs = x0 + rs.uniform(-1, 1, size=n) * sp['dist']
    b = A @ xs + sp['rnoise'] * rs.normal(size=m)
    rhobeg = sp.get('rhobeg')
    lo = up = None
    if sp['box'] != 'none':
        w = np.array(sp['bw']) * max(sp['dist'], 0.5)
        # default rhobeg is 0.1*max(|x0|, 1): make every box legal for it, with room for x0 being moved
        if not sp['scaling']:
            rb = rhobeg if rhobeg is not None else 0.1 * max(np.max(np.abs(x0)) + 1.5 * np.max(w), 1.0)
            if sp['x0mag'] > 100 and rhobeg is None:
                rb = 0.15 * sp['x0mag']
                w = np.maximum(w, 4 * rb)
            w = np.maximum(w, 2.2 * rb)
        c = xs + np.array(sp['bp']) * w / 2
        lo = c - w / 2
        up = c + w / 2
        for i, p in enumerate(sp['xp']):
            if p == 'atl':
                x0[i] = lo[i]
            elif p == 'atu':
                x0[i] = up[i]
            elif p == 'below':
                x0[i] = lo[i] - 0.3 * w[i]
            elif p == 'above':
                x0[i] = up[i] + 0.3 * w[i]
            elif p == 'hair':
                x0[i] = lo[i] + 1e-9 * w[i]
            elif not lo[i] <= x0[i] <= up[i]:
                x0[i] = c[i]
        if sp['box'] == 'lower':
            up = None
        elif sp['box'] == 'upper':
            lo = None
    return A, b, x0, lo, up


def reference(A, b, lo, up):
    n = A.shape[1]
    l = lo if lo is not None else np.full(n, -np.inf)
    u = up if up is not None else np.full(n, np.inf)
    cands = [np.linalg.lstsq(A, b, rcond=None)[0]]
    if lo is not None or up is not None:
        for meth in ('bvls', 'trf'):
            try:
                cands.append(lsq_linear(A, b, bounds=(l, u), method=meth, tol=1e-14, lsq_solver='exact').x)
            except Exception:
                pass
        x = np.clip(cands[1] if len(cands) > 1 else cands[0], l, u)
        # active-set polish
        act = (np.abs(x - l) < 1e-7 * (1 + np.abs(x))) | (np.abs(x - u) < 1e-7 * (1 + np.abs(x)))
        y = np.where(np.abs(x - l) < np.abs(x - u), l, u)
        y = np.where(act, y, x)
        if not np.all(act):
            fr = ~act
            y[fr] = np.linalg.lstsq(A[:, fr], b - A[:, act] @ y[act], rcond=None)[0]
        cands.append(y)
    best, xb = math.inf, None
    for x in cands:
        x = np.clip(x, l, u)
        f = float(np.sum((A @ x - b) ** 2))
        if f < best:
            best, xb = f, x
    return best, xb


def run(sp, ctx):
    xdes = None
    if sp.get('kind') == 'kkt':
        sp, A, b, x0, lo, up, xdes = build_kkt(sp)
    else:
        A, b, x0, lo, up = build(sp)
    spec = dict(x0=x0.tolist(), lower=None if lo is None else lo.tolist(), upper=None if up is None else up.tolist(),
                obj=dict(fam='lin', A=A.tolist(), b=b.tolist(), s=1.0), scaling=sp['scaling'], npt=sp.get('npt'),
                rhobeg=None if sp['scaling'] else sp.get('rhobeg'), maxfun=None, params=None)
    fstar, xstar = reference(A, b, lo, up)
    if xdes is not None:
        fdes = float(np.sum((A @ xdes - b) ** 2))
        if fdes < fstar:
            fstar, xstar = fdes, xdes
    rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    if rec.exc is not None or rec.nonterm or rec.blown:
        raise Violation('no-result', "no result for a linear problem: %r nonterm=%s blown=%s" % (rec.exc, rec.nonterm, rec.blown))
    s = rec.soln
    if O.input_error(rec):
        ctx.exclude('input-error')
        return
    lo_, up_ = S.user_bounds(spec)
    if np.any(s.x < lo_) or np.any(s.x > up_):
        raise Violation('infeasible', "x = %r" % (s.x.tolist(),))
    f = float(np.sum((A @ s.x - b) ** 2))
    ctx.label('m=n' if sp['m'] == sp['n'] else ('m>n' if sp['m'] > sp['n'] else 'm<n'), 'cond=%g' % sp['cond'], 'box:' + sp['box'])
    if sp['scaling']:
        ctx.label('scaling')
    if (sp.get('npt') or 0) > sp['n'] + 1:
        ctx.label('npt>n+1')
    tol = 1e-6 * (1.0 + fstar)
    if not (s.obj <= fstar + tol and f <= fstar + tol):
        raise Violation('not-optimal', "obj = %r (recomputed %r), true minimum <= %r; flag %r, %s, nf=%d" % (float(s.obj), f, fstar, s.flag, s.msg, s.nf))
    if s.flag != s.EXIT_SUCCESS:
        raise Violation('not-success', "flag %r (%s), obj=%r f*=%r nf=%d" % (s.flag, s.msg, float(s.obj), fstar, s.nf))
    f0 = O.objective_of_call(rec, 0)
    active = bool(np.any((xstar <= lo_ + 1e-9) | (xstar >= up_ - 1e-9)))
    if active:
        ctx.label('active-bound-at-optimum')
    ctx.nontrivial(f0 > fstar + 1e-3 * (1 + fstar) and (active or (sp['box'] == 'none' and sp['n'] >= 2)))


SUITES = [
    Suite('free', specs(box='none'), run, 1500, 80000),
    Suite('boxed', specs(), run, 3500, 200000),
    Suite('under', specs(under=True), run, 1500, 80000),
    Suite('kkt', kkt_specs(), run, 3000, 150000),
    Suite('scaled', specs(box='both', scaling=True), run, 1500, 80000),
]
