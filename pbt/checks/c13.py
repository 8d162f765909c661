"""C13: geometry and convex-constrained step solvers stay inside their regions."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols
import dfols.trust_region as TR
from ..engine import Suite, Violation
from ..capture import Capture
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance, pos

LEVEL = 'exploration'
RULE = ("geometry: g is non-zero and some bound or the ball restricts the maximiser; convex steps: a non-zero step was returned; "
        "controller/solver cases: at least one non-zero step was examined")
ASSUMPTIONS = ["the maximiser of +-g's over box and ball is clip(+-t g): t found by bisection, independent of the code under test",
               "box tolerance 1e-12 relative to the largest of the finite bounds and the centre, plus 2e-14 absolute (the solver widens boxes by 1e-14)",
               "gradient entries are zero or larger than 1e-13 in modulus (the solver treats entries below 1e-14 as zero)",
               "predicted reduction recomputed in the same floating-point order, slack 1e-13 relative to h and the model terms"]


# ----------------------------------------------------------------------------------------------- geometry step
def ref_max(g, lo, up, Delta):
    """max g.s over lo <= s <= up, ||s|| <= Delta (0 inside the box)"""
    def s_of(t):
        with np.errstate(over='ignore', invalid='ignore'):
            return np.where(g == 0.0, 0.0, np.minimum(np.maximum(t * g, lo), up))
    gmax = float(np.max(np.abs(g)))
    if gmax == 0.0:
        return 0.0
    nz = np.abs(g[g != 0.0])
    t_hi = 2 * Delta / float(np.min(nz))       # every component with |g_i| is at a bound or its own |s_i| >= 2 Delta
    if float(np.linalg.norm(s_of(t_hi))) <= Delta:
        return float(g @ s_of(t_hi))
    a, b = 0.0, t_hi
    # bisection on a logarithmic scale first: components may differ by many decades
    a = Delta / (gmax * math.sqrt(len(g))) * 0.5
    if float(np.linalg.norm(s_of(a))) > Delta:
        a = 0.0
    for _ in range(200):
        m = math.sqrt(a * b) if a > 0 else 0.5 * (a + b)
        if not a < m < b:
            break
        if float(np.linalg.norm(s_of(m))) <= Delta:
            a = m
        else:
            b = m
    return float(g @ s_of(a))


def check_geometry(xbase, c, g, lower, upper, Delta, x, what=''):
    x = np.asarray(x, dtype=float)
    if x.shape != xbase.shape or not np.all(np.isfinite(x)):
        raise Violation('geom-nonfinite', what + "x = %r" % (x.tolist(),))
    fin = lambda v: np.where(np.abs(v) >= 1e19, 0.0, np.abs(v))
    sc = np.maximum(np.maximum(fin(lower), fin(upper)), np.abs(xbase))
    slack = 1e-12 * sc + 2e-14
    if not np.all((x >= lower - slack) & (x <= upper + slack)):
        i = int(np.argmin((x >= lower - slack) & (x <= upper + slack)))
        raise Violation('geom-box', what + "x[%d] = %r outside [%r, %r]" % (i, float(x[i]), float(lower[i]), float(upper[i])))
    s = x - xbase
    rd = 4 * O.EPS * (np.abs(xbase) + np.abs(s))
    ns = float(np.linalg.norm(s))
    if ns > Delta * (1 + 1e-8) + float(np.linalg.norm(rd)) + 2e-14 * math.sqrt(len(g)):
        raise Violation('geom-ball', what + "||s|| = %r > Delta = %r" % (ns, Delta))
    val = abs(c + float(g @ s))
    lo, up = np.minimum(lower - xbase, 0.0), np.maximum(upper - xbase, 0.0)
    p, q = ref_max(g, lo, up, Delta), ref_max(-g, lo, up, Delta)
    ref = max(abs(c + p), abs(c - q))
    gn = float(np.linalg.norm(g))
    tol = float(np.abs(g) @ rd) + 1e-13 * gn * ns + 1e-15 * abs(c) + 3e-14 * float(np.sum(np.abs(g)))
    if val < ref * (1 - 1e-6) - tol:
        raise Violation('geom-not-optimal', what + "|c+g's| = %r, maximum over box and ball is %r" % (val, ref))
    if val < abs(c) * (1 - 1e-12) - tol:
        raise Violation('geom-worse-than-staying', what + "|c+g's| = %r < |c| = %r" % (val, abs(c)))
    return p, q


def run_geom(spec, ctx):
    n = spec['n']
    xb = np.array(spec['x'], dtype=float) * spec['xs']
    Delta = spec['Delta']
    g = np.array(spec['g'], dtype=float) * spec['gs']
    c = spec['c']
    lower, upper = np.empty(n), np.empty(n)
    for i in range(n):
        for side, arr, sg in (('l', lower, -1.0), ('u', upper, 1.0)):
            kind, v = spec['b' + side][i]
            w = {'act': 0.0, 'near': Delta * 10.0 ** (-v), 'frac': Delta * v / 10.0, 'abs': 10.0 ** (-v), 'far': 1e20}[kind]
            arr[i] = sg * 1e20 if kind == 'far' else xb[i] + sg * w
    try:
        x = TR.trsbox_geometry(xb.copy(), c, g.copy(), lower.copy(), upper.copy(), Delta)
    except Exception as e:
        raise Violation('geom-exception', "%s: %s" % (type(e).__name__, e))
    p, q = check_geometry(xb, c, g, lower, upper, Delta, x)
    s = np.asarray(x) - xb
    if float(np.linalg.norm(s)) >= Delta * (1 - 1e-6):
        ctx.label('on-ball')
    nb = int(np.sum((np.abs(x - lower) < 1e-13 + 1e-13 * Delta) | (np.abs(x - upper) < 1e-13 + 1e-13 * Delta)))
    ctx.label('sides-hit:%d' % min(nb, 4))
    if np.any(upper == lower):
        ctx.label('degenerate-side')
    if np.any(g == 0):
        ctx.label('zero-in-g')
    ctx.label('c0' if c == 0 else 'c-dominant' if abs(c) > 10 * max(p, q) else 'c-comparable' if abs(c) > 0.1 * max(p, q) else 'c-small')
    ctx.nontrivial(np.any(g != 0) and (nb > 0 or float(np.linalg.norm(s)) >= Delta * (1 - 1e-6)))


@st.composite
def geom_specs(draw):
    n = draw(I(1, 8))
    spec = dict(n=n)
    gk = pick(draw, 'rand', 'rand', 'sparse', 'spread', 'equal')
    if gk == 'rand':
        g = [num(draw, 1.0) for _ in range(n)]
    elif gk == 'sparse':
        g = [float(draw(I(-1, 1))) for _ in range(n)]
    elif gk == 'spread':
        g = [draw(I(-9, 9)) * 10.0 ** draw(I(-8, 0)) for _ in range(n)]
    else:
        v = float(pick(draw, 1.0, -1.0))
        g = [v] * n
    spec['g'] = g
    spec['gs'] = 10.0 ** draw(I(-4, 6))
    spec['Delta'] = 10.0 ** draw(I(-5, 1)) * pick(draw, 1.0, 1.7, 5.3)
    gd = float(np.linalg.norm(g)) * spec['gs'] * spec['Delta']
    spec['c'] = pick(draw, 0.0, 1.0, -1.0) * pick(draw, 1.0, gd if gd > 0 else 1.0, 0.3 * gd if gd > 0 else 1.0, 1e-3, 100.0)
    spec['x'] = [num(draw, 1.0) for _ in range(n)]
    spec['xs'] = pick(draw, 0.0, 1.0, 10.0) * (1.0 if spec['Delta'] >= 1e-3 and draw(B) else spec['Delta'])
    bk = pick(draw, 'mix', 'mix', 'mix', 'far', 'tight', 'degen')
    for s in 'lu':
        bb = []
        for i in range(n):
            if bk == 'far':
                bb.append(['far', 0])
            elif bk == 'tight':
                bb.append(['frac', draw(I(1, 10))])
            else:
                k = pick(draw, 'far', 'act', 'frac', 'near', 'abs')
                if bk == 'degen' and i % 2 == 0:
                    k = 'act'
                bb.append([k, draw(I(1, 14)) if k in ('near', 'frac', 'abs') else 0])
        spec['b' + s] = bb
    return spec


# ----------------------------------------------------------------------------------------------- convex steps
def check_norm(d, xopt, delta, name):
    d = np.asarray(d, dtype=float)
    if not np.all(np.isfinite(d)):
        raise Violation(name + '-nonfinite', "d = %r" % d.tolist())
    nd = float(np.linalg.norm(d))
    if nd > delta * (1 + 1e-8) + float(np.linalg.norm(4 * O.EPS * (np.abs(xopt) + np.abs(d)))):
        raise Violation(name + '-too-long', "||d|| = %r > %r = radius" % (nd, delta))
    return nd


def convex_case(spec):
    n = spec['n']
    x = np.array(spec['x'], dtype=float)
    sets = [S.make_set(s) for s in spec['sets']]
    g = np.array(spec['g'], dtype=float) * spec['gs']
    A = np.array(spec['A'], dtype=float).reshape((-1, n))
    H = spec['hs'] * (A.T @ A)
    if spec['hneg']:
        H = -H
    return n, x, [p for p, _ in sets], g, 0.5 * (H + H.T)


def run_convex(spec, ctx):
    n, x, P, g, H = convex_case(spec)
    delta = spec['delta']
    ctx.label('solver:' + spec['solver'], 'sets:%d' % len(P), 'H:%s' % ('0' if not H.any() else 'neg' if spec['hneg'] else 'psd'))
    kw = dict(d_max_iters=spec['dmax'], d_tol=spec['dtol'])
    try:
        if spec['solver'] == 'pgd':
            d = TR.ctrsbox_pgd(x.copy(), g.copy(), H.copy(), list(P), delta, **kw)[0]
        elif spec['solver'] == 'sfista':
            reg = S.Reg(spec['reg'], n)
            d = TR.ctrsbox_sfista(x.copy(), g.copy(), H.copy(), list(P), delta, reg.h, reg.lip, reg.prox, func_tol=spec['ftol'], max_iters=spec['maxit'],
                                  **kw)[0]
        else:
            d = TR.ctrsbox_geometry(x.copy(), spec['c'], g.copy(), list(P), delta, **kw)
    except Exception as e:
        raise Violation(spec['solver'] + '-exception', "%s: %s" % (type(e).__name__, e))
    nd = check_norm(d, x, delta, spec['solver'])
    if nd >= delta * (1 - 1e-6):
        ctx.label('on-ball')
    ctx.nontrivial(nd > 0)


@st.composite
def corner_specs(draw):
    """two to four flat or curved sets that all bite inside the ball: the alternating projections need many sweeps, so where the ball
    stands among them decides whether the step respects the radius"""
    n = draw(I(3, 6))
    spec = dict(n=n, solver=pick(draw, 'pgd', 'sfista', 'geometry'))
    x = [draw(I(-2000, 2000)) / 1000.0 for _ in range(n)]
    spec['x'] = x
    delta = pick(draw, 1.0, 1.0, 0.1, 5.0, 1e-3)
    spec['delta'] = delta
    sets = []
    for _ in range(draw(I(2, 4))):
        kind = pick(draw, 'half', 'half', 'half', 'box', 'ball')
        gap = delta * pick(draw, 0.05, 0.2, 0.4, 0.6) * (1.0 + draw(I(0, 100)) / 1000.0)
        u = [draw(I(-1000, 1000)) / 500.0 for _ in range(n)]
        if kind == 'half':
            u = u if any(u) else [1.0] * n
            sets.append(dict(kind='half', a=u, b=float(np.dot(u, x)) + gap * float(np.linalg.norm(u))))
        elif kind == 'ball':
            off = [delta * v for v in u]
            sets.append(dict(kind='ball', c=[a + b for a, b in zip(x, off)], r=float(np.linalg.norm(off)) + gap))
        else:
            sets.append(dict(kind='box', l=[v - pick(draw, gap, 10.0 * delta, 0.0) for v in x], u=[v + pick(draw, gap, 10.0 * delta) for v in x]))
    spec['sets'] = sets
    spec['g'] = [draw(I(-1000, 1000)) / 500.0 for _ in range(n)]
    spec['gs'] = pick(draw, 1.0, 3.0, 30.0) * (delta if spec['solver'] == 'geometry' else pick(draw, 1.0, 1e-3, 1e3))
    spec['A'] = [[draw(I(-1000, 1000)) / 500.0 for _ in range(n)] for _ in range(draw(I(0, n)))]
    spec['hs'] = spec['gs'] / delta * pick(draw, 1e-3, 1e-2, 0.1, 1.0)
    spec['hneg'] = False
    spec['dmax'] = pick(draw, 100, 100, 30)
    spec['dtol'] = pick(draw, 1e-10, 1e-10, 1e-6, 1e-4)
    if spec['solver'] == 'geometry':
        spec['c'] = pick(draw, 0.0, 1.0, -1.0)
    if spec['solver'] == 'sfista':
        spec['reg'] = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 0.1, 10.0, 1e-3))
        spec['reg']['c'] = [v + draw(I(-2000, 2000)) / 1000.0 * pick(draw, 1.0, delta) for v in x]
        spec['ftol'] = 1e-3 * delta
        spec['maxit'] = draw(I(1, 12))
    return spec


@st.composite
def convex_specs(draw):
    n = draw(I(1, 5))
    spec = dict(n=n, solver=pick(draw, 'pgd', 'sfista', 'geometry'))
    x = [num(draw, 2.0) for _ in range(n)]
    spec['x'] = x
    delta = 10.0 ** draw(I(-4, 1)) * pick(draw, 1.0, 2.3)
    spec['delta'] = delta
    sets = []
    for _ in range(draw(I(0, 3))):
        kind = pick(draw, 'ball', 'half', 'box')
        gap = pick(draw, 0.0, 0.0, delta * draw(I(1, 20)) / 10.0, 1e-6, 1.0)
        if kind == 'ball':
            off = [num(draw, 2.0) for _ in range(n)]
            sets.append(dict(kind='ball', c=[a + b for a, b in zip(x, off)], r=float(np.linalg.norm(off)) * (1 + 1e-15) + gap + 1e-300))
        elif kind == 'half':
            a = [draw(I(-5, 5)) / 2.0 for _ in range(n)]
            if not any(a):
                a[0] = 1.0
            sets.append(dict(kind='half', a=a, b=float(np.dot(a, x)) + gap * float(np.linalg.norm(a))))
        else:
            sets.append(dict(kind='box', l=[v - pick(draw, 0.0, gap, 10.0) for v in x], u=[v + pick(draw, 0.0, gap, 10.0) for v in x]))
    if draw(B) or not sets:
        sets.append(dict(kind='box', l=[-1e20] * n, u=[1e20] * n))
    spec['sets'] = sets
    spec['g'] = [num(draw, 1.0) if draw(I(0, 4)) else 0.0 for _ in range(n)]
    spec['gs'] = 10.0 ** draw(I(-3, 4))
    r = draw(I(0, n + 1))
    spec['A'] = [[num(draw, 2.0, 200) for _ in range(n)] for _ in range(r)]
    spec['hs'] = spec['gs'] / delta * 10.0 ** draw(I(-3, 3))
    spec['hneg'] = chance(draw, 0.08)
    spec['dmax'] = pick(draw, 100, 100, 1, 5, 30)
    spec['dtol'] = pick(draw, 1e-10, 1e-10, 1e-4, 1e-13)
    if spec['solver'] == 'geometry':
        spec['c'] = pick(draw, 0.0, 1.0, -1.0)
    if spec['solver'] == 'sfista':
        spec['reg'] = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 0.1, 10.0, 1e-3))
        spec['ftol'] = pick(draw, 1e-3, 1.0, 1e-6)
        spec['maxit'] = pick(draw, 20, 1, 60)
    return spec


# ----------------------------------------------------------------------------------------------- regularised step of the controller
def check_pred(ctrl, hfun, scal, out, what=''):
    d, gopt, H = [np.asarray(v, dtype=float) for v in out[:3]]
    if not (np.all(np.isfinite(gopt)) and np.all(np.isfinite(H))):
        return 0.0
    x = np.asarray(ctrl.model.xopt(abs_coordinates=True), dtype=float)
    user = (lambda v: v) if scal is None else (lambda v: scal[0] + v * scal[1])
    h0, h1 = hfun(user(x)), hfun(user(x + d))
    red = h0 - (float(d @ (gopt + 0.5 * (H @ d))) + h1)
    slack = 1e-13 * (abs(h0) + abs(h1) + abs(float(d @ gopt)) + abs(float(d @ (H @ d))))
    if not red >= -slack:
        raise Violation('negative-predicted-reduction', what + "predicted reduction of the step d = %r is %r" % (d.tolist(), red))
    return float(np.linalg.norm(d))


def run_controller(spec, ctx):
    n, x, P, g, H = convex_case(spec)
    del g, H
    from dfols.controller import Controller
    from dfols.params import ParameterList
    m = spec['m']
    npt = n + 1
    reg = S.Reg(spec['reg'], n)
    params = ParameterList(n, npt, 1000, False)
    params('func_tol.max_iters', new_value=spec['maxit'])
    scal = None
    if spec['scal']:
        scal = (np.array(spec['shift'], dtype=float), np.array(spec['scale'], dtype=float))
    R = np.array(spec['R'], dtype=float).reshape((npt, m)) * spec['rs']
    lo = x - np.array(spec['gl'], dtype=float)
    up = x + np.array(spec['gu'], dtype=float)
    projs = list(P) + [lambda w: np.minimum(np.maximum(w, lo), up)] if P else []
    try:
        c = Controller(None, (), x.copy(), R[0].copy(), 1, lo.copy(), up.copy(), projs, npt, spec['delta'], 1e-8, 1, 1, 1000, params, scal, False,
                       h=reg.h, lh=reg.lip, argsh=(), prox_uh=reg.prox, argsprox=())
        for k in range(1, npt):
            e = np.zeros(n)
            i = k - 1
            sgn = 1.0 if up[i] - x[i] >= x[i] - lo[i] else -1.0
            e[i] = sgn * min(spec['delta'] * abs(spec['st'][i]), max(up[i] - x[i], x[i] - lo[i]))
            c.model.change_point(k, e, R[k].copy(), k)
        if not c.model.interpolate_mini_models_svd()[0]:
            ctx.label('fit-failed')
            return
        c.delta = spec['delta']
        crit = spec['crit']
        if crit is None:
            crit = c.evaluate_criticality_measure(params)
        out = c.trust_region_step(params, crit)
    except (TypeError, AttributeError) as e:
        ctx.label('harness-could-not-drive-controller:' + type(e).__name__)
        return
    nd = check_pred(c, reg.value, scal, out)
    nd2 = check_norm(out[0], np.asarray(c.model.xopt(abs_coordinates=True)), c.delta, 'regularised-step')
    ctx.label('zero-step' if nd == 0 else 'non-zero-step', 'reg:' + reg.kind)
    if scal is not None:
        ctx.label('scaling')
    ctx.nontrivial(nd > 0 and nd2 > 0)


@st.composite
def controller_specs(draw):
    spec = draw(convex_specs())
    spec['solver'] = 'sfista'
    n = spec['n']
    spec['sets'] = spec['sets'] if chance(draw, 0.35) else []
    spec['m'] = draw(I(1, 4))
    spec['R'] = [num(draw, 3.0) for _ in range((n + 1) * spec['m'])]
    spec['rs'] = pick(draw, 1.0, 1e-2, 1e2)
    spec['st'] = [pick(draw, 1.0, -1.0, 0.5) for _ in range(n)]
    spec['reg'] = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 0.1, 10.0, 100.0, 1e-3), lhfac=pick(draw, 1.0, 1.0, 2.0))
    if draw(B):
        spec['reg']['c'] = [v + pick(draw, 0.0, 1e-3, 0.5) for v in spec['x']]
    spec['maxit'] = pick(draw, 20, 1, 3, 60)
    spec['gl'] = [pick(draw, 1e20, 0.0, 1.0, spec['delta'] * 0.3) for _ in range(n)]
    spec['gu'] = [pick(draw, 1e20, 1.0, spec['delta'] * 0.3, 0.0) for _ in range(n)]
    for i in range(n):
        if spec['gl'][i] == 0.0 and spec['gu'][i] == 0.0:
            spec['gu'][i] = 1.0
    spec['crit'] = pick(draw, None, 1e-2, 1.0, 100.0)
    spec['scal'] = chance(draw, 0.2)
    spec['shift'] = [num(draw, 3.0) for _ in range(n)]
    spec['scale'] = [pick(draw, 1.0, 0.1, 10.0) for _ in range(n)]
    return spec


# ----------------------------------------------------------------------------------------------- captured in whole solves
def run_solver(spec, ctx):
    st_ = dict(n=0, viol=None, nz=0)

    def guard(fun):
        def w(orig, a, k):
            out = orig(*a, **k)
            if st_['viol'] is None:
                try:
                    fun(a, k, out)
                except Violation as e:
                    st_['viol'] = Violation(e.sig + '-in-solve', e.msg)
            return out
        return w

    def named(a, k, names):
        d = dict(zip(names, a))
        d.update({q: v for q, v in k.items() if q in names})
        return d if len(d) == len(names) else None

    def geom(a, k, out):
        d = named(a, k, ('xbase', 'c', 'g', 'lower', 'upper', 'Delta'))
        if d is None:
            return
        g = np.asarray(d['g'], dtype=float)
        if not (np.all(np.isfinite(g)) and np.isfinite(d['c'])):
            return
        if np.any((g != 0) & (np.abs(g) < 1e-13)) or np.max(np.abs(g)) > 1e12:
            return
        check_geometry(np.asarray(d['xbase']), float(d['c']), g, np.asarray(d['lower']), np.asarray(d['upper']), float(d['Delta']), out,
                       'captured geometry problem %r: ' % {q: np.asarray(v).tolist() for q, v in d.items()})
        st_['n'] += 1
        st_['nz'] += 1

    def norm_of(name, names):
        def f(a, k, out):
            d = named(a, k, names)
            if d is None:
                return
            if name == 'geometry':
                step, x, r = out, d['xbase'], d['Delta']
            else:
                step, x, r = out[0], d['xopt'], d['delta']
            if not np.all(np.isfinite(np.asarray(d['g']))) or np.max(np.abs(d['g'])) > 1e30:
                return
            if 'H' in d and np.max(np.abs(d['H'])) > 1e100:
                return
            nd = check_norm(step, np.asarray(x), float(r), name)
            st_['n'] += 1
            st_['nz'] += nd > 0
        return guard(f)
    C = dfols.controller.Controller
    orig_step = getattr(C, 'trust_region_step', None)

    def step(self, *a, **k):
        out = orig_step(self, *a, **k)
        if st_['viol'] is None and getattr(self, 'h', None) is not None:
            try:
                reg = S.Reg(spec['reg'], len(spec['x0']))
                nd = check_pred(self, reg.value, getattr(self, 'scaling_changes', None), out, 'step %d of the run: ' % (st_['n'] + 1))
                st_['n'] += 1
                st_['nz'] += nd > 0
            except Violation as e:
                st_['viol'] = Violation(e.sig + '-in-solve', e.msg)
        return out
    if orig_step is not None:
        C.trust_region_step = step
    try:
        with Capture('trust_region', 'trsbox_geometry', guard(geom), True), \
                Capture('trust_region', 'ctrsbox_geometry', norm_of('geometry', ('xbase', 'c', 'g', 'projections', 'Delta')), True), \
                Capture('trust_region', 'ctrsbox_pgd', norm_of('pgd', ('xopt', 'g', 'H', 'projections', 'delta')), True), \
                Capture('trust_region', 'ctrsbox_sfista', norm_of('sfista', ('xopt', 'g', 'H', 'projections', 'delta')), True):
            rec = S.run_spec(spec, log=False)
    finally:
        if orig_step is not None:
            C.trust_region_step = orig_step
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if st_['viol'] is not None:
        raise st_['viol']
    ctx.label('steps-checked:%s' % ('0' if not st_['n'] else '1-9' if st_['n'] < 10 else '10+'))
    ctx.nontrivial(st_['nz'] > 0)


SHARED_CORPUS_SUITE = 'solve'

SUITES = [
    Suite('geom', geom_specs(), run_geom, 30000, 1500000),
    Suite('convex', convex_specs(), run_convex, 4000, 150000),
    Suite('corner', corner_specs(), run_convex, 6000, 200000),
    Suite('controller', controller_specs(), run_controller, 6000, 100000),
    Suite('solve', gen.solver_specs(reg=0.0, medium=40, big=80), run_solver, 6000, 200000),
    Suite('solve-proj', gen.solver_specs(reg=0.0, proj=1.0, scaling=0.0, medium=25, big=40), run_solver, 300, 12000),
    Suite('solve-reg', gen.solver_specs(reg=1.0, medium=20, big=30), run_solver, 200, 6000),
]
