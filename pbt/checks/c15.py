"""C15: Dykstra's projection is feasible, near-optimal and respects its stopping rule."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols.util as U
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance, pos

LEVEL = 'exploration'
RULE = "the starting point is outside at least one set and the routine stopped by its tolerance rule"
ASSUMPTIONS = ["a run stopped by its rule iff it used fewer sweeps than max_iter (counted through the first projector)",
               "reference projection: a long independent Dykstra run whose distance to the true projection is bounded by a duality certificate; "
               "uncertified references (bound above 1e-4) are not compared",
               "the 1e-3 claim is tested for tolerances up to 1e-8; for looser user tolerances 20*sqrt(p*tol) is allowed",
               "intersections contain a ball of radius at least 1e-3; wedges of two half-spaces have angle at least 0.05"]


def ref_certified(projs, supp, x0, z, sweeps):
    """(reference point, certified bound on its distance to the projection of x0); z: point in the interior"""
    x = x0.copy()
    p = len(projs)
    lam = np.zeros((p, len(x0)))
    sc = 1.0 + float(np.max(np.abs(x0)))
    best = (None, float('inf'))
    for it in range(1, sweeps + 1):
        c = 0.0
        for i in range(p):
            w = x + lam[i]
            x = projs[i](w)
            new = w - x
            c += float(np.sum((new - lam[i]) ** 2))
            lam[i] = new
        if c < (1e-15 * sc) ** 2 or it in (200, 1000, 5000, sweeps):
            y = x0 - lam.sum(axis=0)
            gap = sum(max(supp[i](lam[i]) - float(lam[i] @ y), 0.0) for i in range(p))
            # feasible point q on the segment from y to the interior point z
            lo_, hi_ = 0.0, 1.0
            ok = lambda q: all(float(np.linalg.norm(P(q) - q)) <= 1e-14 * sc for P in projs)
            for _ in range(50):
                m = 0.5 * (lo_ + hi_)
                if ok(y + m * (z - y)):
                    hi_ = m
                else:
                    lo_ = m
            q = y + hi_ * (z - y)
            dq, dy = q - x0, y - x0
            e2 = float((dq - dy) @ (dq + dy)) + 2 * gap
            err = math.sqrt(max(e2, 0.0) + 1e-15 * sc * sc)
            if err < best[1]:
                best = (x.copy(), err + float(np.linalg.norm(x - y)))
            if c < (1e-15 * sc) ** 2 or best[1] < 1e-6:
                break
    return best


def support(s):
    if s['kind'] == 'ball':
        c, r = np.array(s['c']), s['r']
        return lambda l: float(c @ l) + r * float(np.linalg.norm(l))
    if s['kind'] == 'half':
        a = np.array(s['a'])
        aa = float(a @ a)

        def f(l):
            t = float(a @ l) / aa
            off = float(np.linalg.norm(l - t * a))
            return t * s['b'] + off * 1e3 if t >= 0 else -t * 1e6
        return f
    lo, up = np.array(s['l']), np.array(s['u'])
    return lambda l: float(np.sum(np.where(l > 0, l * up, np.where(l < 0, l * lo, 0.0))))


def run(spec, ctx):
    n = len(spec['x0'])
    x0 = np.array(spec['x0'], dtype=float)
    z = np.array(spec['z'], dtype=float)
    pairs = [S.make_set(s) for s in spec['sets']]
    p = len(pairs)
    cnt = [0] * p
    seen_bad = []

    def counted(i):
        f = pairs[i][0]

        def g(x):
            cnt[i] += 1
            if not np.all(np.isfinite(x)):
                seen_bad.append(i)
            return f(x)
        return g
    kw = {}
    tol, mi = 1e-10, 100
    if spec.get('tol') is not None:
        kw['tol'] = tol = spec['tol']
    if spec.get('maxit') is not None:
        kw['max_iter'] = mi = spec['maxit']
    xin = x0.copy()
    try:
        x = U.dykstra([counted(i) for i in range(p)], xin, **kw)
    except Exception as e:
        raise Violation('exception', "%s: %s" % (type(e).__name__, e))
    x = np.asarray(x, dtype=float)
    if not np.array_equal(xin, x0):
        raise Violation('input-modified', "starting point changed from %r to %r" % (x0.tolist(), xin.tolist()))
    if x.shape != (n,) or not np.all(np.isfinite(x)) or seen_bad:
        raise Violation('nonfinite', "result %r" % x.tolist())
    sweeps = max(cnt)
    if sweeps > mi:
        raise Violation('too-many-sweeps', "%d sweeps, max_iter = %d" % (sweeps, mi))
    last = spec['sets'][-1]
    if last['kind'] == 'box' and mi > 0:
        lo, up = np.array(last['l']), np.array(last['u'])
        if not np.all((x >= lo) & (x <= up)):
            i = int(np.argmin((x >= lo) & (x <= up)))
            raise Violation('last-box', "x[%d] = %r outside [%r, %r] of the last set" % (i, float(x[i]), float(lo[i]), float(up[i])))
    sc = 1.0 + float(np.max(np.abs(x0))) + max(float(np.max(np.abs(s['c']))) + s['r'] if s['kind'] == 'ball' else 0.0 for s in spec['sets'])
    d0 = max(d(x0) for _, d in pairs)
    if d0 == 0.0:
        ctx.label('start-feasible')
        if float(np.max(np.abs(x - x0))) > 1e-13 * sc:
            raise Violation('feasible-moved', "feasible point %r was moved to %r" % (x0.tolist(), x.tolist()))
        return
    ctx.label('p=%d' % p, 'tol:%g' % tol)
    if sweeps >= mi:
        ctx.label('ran-out-of-sweeps')
        return
    ds = [d(x) for _, d in pairs]
    allow = math.sqrt(p * tol)
    if max(ds) > allow * (1 + 1e-9) + 1e-13 * sc:
        j = int(np.argmax(ds))
        raise Violation('infeasible', "stopped after %d < %d sweeps, but the result is %.3g away from set %d (allowed %.3g)" % (sweeps, mi, ds[j], j, allow))
    ctx.nontrivial()
    ctx.label('sweeps:%s' % ('1-3' if sweeps < 4 else '4-20' if sweeps <= 20 else '>20'))
    y, err = ref_certified([q for q, _ in pairs], [support(s) for s in spec['sets']], x0, z, 5000)
    if not err < 1e-4:
        ctx.label('reference-uncertified')
        return
    ctx.label('projection-compared')
    far = float(np.linalg.norm(x - y))
    lim = (1e-3 if tol <= 1e-8 else max(1e-3, 20 * allow)) + err
    if far > lim:
        raise Violation('not-the-projection', "result %r is %.3g away from the projection %r (allowed %.3g, %d sweeps, tol %g)" % (x.tolist(), far, y.tolist(), lim, sweeps, tol))
    ctx.label('error:%s' % ('<1e-6' if far < 1e-6 else '<1e-5' if far < 1e-5 else '<1e-4' if far < 1e-4 else '<1e-3' if far < 1e-3 else '>=1e-3'))


@st.composite
def specs(draw, rmin=0.05):
    n = draw(I(1, 6))
    z = [num(draw, 3.0) for _ in range(n)]
    rad = pick(draw, 1.0, 0.3, 0.1, 3.0, 1.0, 0.1, 1e-2, 1e-3)
    sets = []
    p = draw(I(1, 4))
    for i in range(p):
        kind = pick(draw, 'ball', 'half', 'box')
        if i == p - 1 and draw(B):
            kind = 'box'
        if kind == 'ball':
            off = [num(draw, pick(draw, 1.0, 5.0)) for _ in range(n)]
            r = float(np.linalg.norm(off)) + rad * pick(draw, 1.0, 2.0, 1.3)
            sets.append(dict(kind='ball', c=[a + b for a, b in zip(z, off)], r=r))
        elif kind == 'half':
            a = [draw(I(-9, 9)) / pick(draw, 1.0, 4.0) for _ in range(n)]
            if not any(a):
                a[0] = 1.0
            sets.append(dict(kind='half', a=a, b=float(np.dot(a, z)) + float(np.linalg.norm(a)) * rad * pick(draw, 1.0, 1.5, 3.0)))
        else:
            sets.append(dict(kind='box', l=[v - rad * pick(draw, 1.0, 2.0, 7.0) if draw(I(0, 5)) else -1e20 for v in z],
                             u=[v + rad * pick(draw, 1.0, 2.0, 7.0) if draw(I(0, 5)) else 1e20 for v in z]))
    if n >= 2 and p >= 2 and chance(draw, 0.12):      # wedge: two half-spaces meeting at a small angle (slow convergence)
        ang = pick(draw, 0.5, 0.2, 0.1, 0.05) * pick(draw, 1.0, 1.3)
        a1 = [1.0, 0.0] + [0.0] * (n - 2)
        a2 = [pick(draw, 1.0, -1.0) * math.cos(ang), math.sin(ang)] + [0.0] * (n - 2)
        for j, a in ((0, a1), (1, a2)):
            sets[j] = dict(kind='half', a=a, b=float(np.dot(a, z)) + rad)
    spec = dict(z=z, sets=sets)
    w = pick(draw, 'near', 'far', 'mid', 'far', 'far', 'mid', 'mid', 'feas', 'bdry', 'bdry')
    mag = dict(near=2.0, far=50.0, mid=10.0, feas=0.0, bdry=20.0)[w] * max(rad, 0.3)
    x0 = [v + num(draw, mag) for v in z]
    if w == 'feas':
        t = [num(draw, rad / math.sqrt(n)) * 0.999 for _ in range(n)]
        x0 = [v + s for v, s in zip(z, t)]
    elif w == 'bdry':
        q, _ = S.make_set(sets[draw(I(0, p - 1))])
        y = q(np.array(x0))
        x0 = [float(v) for v in y + (np.array(x0) - y) * pick(draw, 0.0, 1e-9, 1e-6, 1e-3)]
    spec['x0'] = x0
    spec['tol'] = pick(draw, None, None, None, 1e-12, 1e-8, 1e-14, 1e-4, 1e-6, 1e-2)
    spec['maxit'] = pick(draw, None, None, None, 1000, 20, 5, 1, 2)
    return spec


# ----------------------------------------------------------------------------------------------- projectors shipped with the package
def run_proj(spec, ctx):
    x, c = np.array(spec['x'], dtype=float), np.array(spec['c'], dtype=float)
    r = spec['r']
    sc = float(np.max(np.abs(x))) + float(np.max(np.abs(c))) + r
    if spec['kind'] == 'ball':
        y = U.pball(x.copy(), c.copy(), r)
        d = float(np.linalg.norm(x - c))
        w = x if d <= r else c + (x - c) * (r / d)
        if not np.all(np.abs(y - w) <= 1e-13 * sc):
            raise Violation('pball', "pball(%r, %r, %r) = %r, projection is %r" % (x.tolist(), c.tolist(), r, y.tolist(), w.tolist()))
        ctx.nontrivial(d > r)
        ctx.label('ball:' + ('outside' if d > r else 'inside'))
        return
    u = c + np.array(spec['gap'], dtype=float)
    y = U.pbox(x.copy(), c.copy(), u.copy())
    w = np.array([ci if xi < ci else ui if xi > ui else xi for xi, ci, ui in zip(x, c, u)])
    if not np.array_equal(y, w):
        raise Violation('pbox', "pbox(%r, %r, %r) = %r, projection is %r" % (x.tolist(), c.tolist(), u.tolist(), y.tolist(), w.tolist()))
    ctx.nontrivial(not np.array_equal(w, x))
    ctx.label('box')


@st.composite
def proj_specs(draw):
    n = draw(I(1, 6))
    m = pick(draw, 1.0, 1e-3, 1e4)
    return dict(kind=pick(draw, 'ball', 'box'), x=[num(draw, m) for _ in range(n)], c=[num(draw, m) for _ in range(n)],
                r=m * pick(draw, 1.0, 0.1, 3.0, 1e-8), gap=[m * pick(draw, 1.0, 0.0, 0.1, 1e-9, 5.0) for _ in range(n)])


SUITES = [
    Suite('dykstra', specs(), run, 12000, 500000),
    Suite('projectors', proj_specs(), run_proj, 3000, 50000),
]
