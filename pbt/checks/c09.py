"""C09: general convex constraints hold at every evaluation up to Dykstra's tolerance."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = ("at least three points were evaluated and either x0 was infeasible or some evaluated point lies on the boundary of one of the user's sets "
        "or of the bound box (within 1e-6)")
ASSUMPTIONS = ["distances to balls, half-spaces and boxes are closed-form; slack 1e-11 relative for their rounding",
               "an infeasible evaluation is excused only when it is the output of a projection run that used all its sweeps (counted by wrapping the routine as "
               "imported by each module)",
               "reference projection of x0: Dykstra run to 1e-13, only compared when it converged and the solver's own run stopped by tolerance"]
SHARED_CORPUS_SUITE = 'solve'


def adapt_shared(spec):
    return spec if spec.get('proj') else None


class Watch(object):
    """wraps the projection routine as imported by each module of the package; records outputs and sweeps"""

    def __init__(self):
        self.outputs = {}
        self.unconverged = []
        self.patched = []
        self.calls = 0
        self.overrun = None

    def __enter__(self):
        mods = [getattr(dfols, m, None) for m in ('util', 'model', 'controller', 'solver', 'trust_region')]
        orig = getattr(dfols.util, 'dykstra', None)
        if orig is None:
            return self
        me = self

        def dykstra(P, x0, *a, **k):
            cnt = [0]
            first = P[0]

            def counted(x):
                cnt[0] += 1
                return first(x)
            max_iter = k.get('max_iter', a[0] if a else 100)
            x = orig([counted] + list(P[1:]), x0, *a, **k)
            me.calls += 1
            if cnt[0] > max_iter and me.overrun is None:
                me.overrun = (cnt[0], max_iter)
            xx = np.array(x, dtype=float)
            me.outputs[xx.tobytes()] = cnt[0]
            if cnt[0] >= max_iter:
                me.unconverged.append(xx)
            return x
        for m in mods:
            if m is not None and getattr(m, 'dykstra', None) is orig:
                self.patched.append((m, orig))
                m.dykstra = dykstra
        return self

    def __exit__(self, *a):
        for m, o in self.patched:
            m.dykstra = o
        return False


def ref_projection(projs, x0, iters=4000):
    """Dykstra to (near) machine precision; (point, converged)"""
    x = x0.copy()
    p = len(projs)
    y = np.zeros((p, len(x0)))
    sc = 1.0 + float(np.max(np.abs(x0)))
    for it in range(iters):
        c = 0.0
        for i in range(p):
            z = x - y[i]
            xn = projs[i](z)
            yn = xn - z
            c += float(np.sum((yn - y[i]) ** 2))
            y[i] = yn
            x = xn
        if c < (1e-13 * sc) ** 2:
            return x, True
    return x, False


def run(spec, ctx):
    with Watch() as w:
        rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if O.input_error(rec) or not rec.calls:
        return
    lo, up = S.user_bounds(spec)
    tol = O.param(spec, 'dykstra.d_tol', 1e-10)
    p = len(rec.sets) + 1
    allow = math.sqrt(p * tol)
    if w.overrun:
        raise Violation('too-many-sweeps', "projection run used %d sweeps, dykstra.max_iters = %d" % w.overrun)
    x0 = np.array(spec['x0'], dtype=float)
    infeas0 = max([d(x0) for _, d in rec.sets] + [float(np.max(np.maximum(lo - x0, x0 - up))), 0.0])
    touched = 0
    pts = [('evaluation %d' % (k + 1), x) for k, (x, _) in enumerate(rec.calls)]
    if rec.soln is not None and rec.soln.x is not None:
        pts.append(('soln.x', np.asarray(rec.soln.x)))
    for k, (name, x) in enumerate(pts):
        if not np.all((x >= lo) & (x <= up)):
            i = int(np.argmin((x >= lo) & (x <= up)))
            raise Violation('box', "%s: x[%d] = %r outside [%r, %r]" % (name, i, float(x[i]), float(lo[i]), float(up[i])))
        ds = [d(x) for _, d in rec.sets]
        sc = 1.0 + float(np.max(np.abs(x)))
        if max(ds) > allow + 1e-11 * sc:
            if any(np.max(np.abs(u - x)) <= 1e-9 * sc for u in w.unconverged):
                ctx.label('excused-unconverged')
            else:
                j = int(np.argmax(ds))
                raise Violation('infeasible', "%s: x = %r is %.3g away from set %d %r (allowed sqrt(%d*%g) = %.3g)%s" % (
                    name, x.tolist(), ds[j], j, spec['proj'][j], p, tol, allow, ''))
        if w.patched and w.outputs and k > 0 and k < len(rec.calls) and x.tobytes() not in w.outputs:
            # "is an output of the alternating projection routine": tolerate base-point rounding
            near = min(float(np.max(np.abs(np.frombuffer(b) - x))) for b in w.outputs)
            if near > 1e-9 * sc:
                raise Violation('not-an-output', "%s: x = %r is no output of the projection routine (nearest %.3g away)" % (name, x.tolist(), near))
            ctx.label('output-up-to-rounding')
        if any(abs_boundary(s, x) for s in spec['proj']) or np.any(np.abs(x - lo) < 1e-6) or np.any(np.abs(x - up) < 1e-6):
            touched += 1
    x1 = rec.calls[0][0]
    sc = 1.0 + float(np.max(np.abs(x0)))
    if infeas0 <= 1e-13 * sc:
        if float(np.max(np.abs(x1 - x0))) > 1e-9 * sc:
            raise Violation('x0-moved', "feasible x0 = %r was replaced by %r" % (x0.tolist(), x1.tolist()))
    else:
        ctx.label('x0-infeasible')
        if not any(np.max(np.abs(u - x1)) <= 1e-9 * sc for u in w.unconverged):
            projs = [q for q, _ in rec.sets] + [lambda v: np.minimum(np.maximum(v, lo), up)]
            xr, conv = ref_projection(projs, x0)
            err = float(np.linalg.norm(xr - x1))
            if conv and err > max(1e-3, 20.0 * allow) * sc:
                raise Violation('x0-projection', "x0 = %r was replaced by %r, its projection is %r (distance %.3g)" % (x0.tolist(), x1.tolist(), xr.tolist(), err))
            ctx.label('x0-projection-checked' if conv else 'x0-reference-unconverged')
    if touched:
        ctx.label('boundary-touched')
    ctx.nontrivial(len(rec.calls) >= 3 and (infeas0 > 1e-9 or touched > 0))


def abs_boundary(s, x):
    if s['kind'] == 'ball':
        return abs(float(np.linalg.norm(x - np.array(s['c']))) - s['r']) < 1e-6
    if s['kind'] == 'half':
        a = np.array(s['a'])
        return abs(float(a @ x) - s['b']) < 1e-6 * (1 + float(np.linalg.norm(a)))
    return bool(np.any(np.abs(x - np.array(s['l'])) < 1e-6) or np.any(np.abs(x - np.array(s['u'])) < 1e-6))


@st.composite
def specs(draw, **kw):
    kw.setdefault('groups', tuple(g for g in gen.GROUPS if g not in ('growing', 'init')))
    spec = draw(gen.solver_specs(proj=1.0, scaling=0.0, regression=0.0, medium=30, big=60, **kw))
    P = spec['params']
    w = draw(I(0, 9))
    if w >= 8:
        P['dykstra.d_tol'] = pick(draw, 1e-4, 1e-3, 1e-12)
    elif w == 7:
        P['dykstra.max_iters'] = pick(draw, 1, 2, 5, 1000)
    # a bound box as tight as the trust region around a point of all sets, with bounds that are not round numbers
    if chance(draw, 0.4):
        z = np.array(spec['x0'])
        zf, conv = ref_projection([S.make_set(s)[0] for s in spec['proj']], z)
        if conv:
            lo = [-math.inf] * len(z) if spec['lower'] is None else list(spec['lower'])
            up = [math.inf] * len(z) if spec['upper'] is None else list(spec['upper'])
            for i in range(len(z)):
                if chance(draw, 0.7):
                    lo[i] = float(zf[i]) - spec['rhobeg'] * pick(draw, 0.31, 0.97, 2.3, 0.0071)
                if chance(draw, 0.7):
                    up[i] = float(zf[i]) + spec['rhobeg'] * pick(draw, 0.37, 0.93, 2.1, 0.0067)
            spec['lower'], spec['upper'] = lo, up
    # starting points: far away, on the boundary of a set, slightly outside a set
    w = draw(I(0, 5))
    if w in (3, 4, 5) and spec['proj']:
        s = spec['proj'][draw(I(0, len(spec['proj']) - 1))]
        x = np.array(spec['x0'])
        q, _ = S.make_set(s)
        far = x + np.array([num(draw, 5.0) for _ in x])
        y = q(far)
        if w == 4:
            y = y + (far - y) * 10.0 ** (-draw(I(3, 12)))
        elif w == 5:
            y = x + (far - x) * draw(I(1, 20))
        spec['x0'] = [float(v) for v in y]
    return spec


@st.composite
def points_specs(draw):
    """growing, regression and restarts that add points, together with convex constraints"""
    spec = draw(specs(reg=0.0, restart_p=0.8, noise=0.1, avg=0.1))
    P = spec['params']
    n = len(spec['x0'])
    npt = n + 1
    if chance(draw, 0.4):
        npt = spec['npt'] = n + 1 + draw(I(0, 3))
    if npt > 2 and chance(draw, 0.4):
        P['growing.ndirs_initial'] = draw(I(1, min(n, npt - 1)))
        if chance(draw, 0.5):
            P['growing.num_new_dirns_each_iter'] = draw(I(1, 2))
    if chance(draw, 0.5):
        P['restarts.use_restarts'] = True
        P['restarts.increase_npt'] = True
        P['restarts.increase_npt_amt'] = draw(I(1, 2))
        P['restarts.max_npt'] = npt + draw(I(1, 4))
    if chance(draw, 0.4):
        P['regression.num_extra_steps'] = draw(I(1, 2))
        P['regression.momentum_extra_steps'] = draw(B)
    return spec


@st.composite
def tight_specs(draw):
    """one simple set, a tight box with bounds that are not round numbers, short runs that end at rhoend"""
    n = draw(I(1, 3))
    spec = dict(x0=[num(draw, 2.0) for _ in range(n)], rhobeg=pick(draw, 0.1, 0.5, 1.0, 0.02), nsamples=None, rng=draw(I(0, 999)))
    r = spec['rhobeg']
    spec['rhoend'] = r * pick(draw, 0.2, 0.05, 1e-2, 1e-3)
    x0 = spec['x0']
    spec['lower'] = [v - r * pick(draw, 0.31, 0.97, 2.3, 1.13, 0.0071, 0.0, 50.0) for v in x0]
    spec['upper'] = [v + r * pick(draw, 0.37, 0.93, 2.1, 1.17, 0.0067, 50.0) for v in x0]
    spec['obj'] = gen.draw_objective(draw, n, gen.FAMS, 4)
    if chance(draw, 0.5):
        spec['proj'] = [dict(kind='ball', c=[v + num(draw, 1.0) for v in x0], r=pick(draw, 2.0, 5.0, 0.7))]
    else:
        a = [num(draw, 1.0) for _ in range(n)]
        if not any(a):
            a[0] = 1.0
        spec['proj'] = [dict(kind='half', a=a, b=float(np.dot(a, x0)) + pick(draw, 0.0, 0.13, 1.7) * r)]
    spec['maxfun'] = draw(I(n + 2, 40))
    spec['params'] = {}
    if chance(draw, 0.25):
        spec['params']['restarts.use_restarts'] = True
    spec['log'] = False
    return spec


SUITES = [
    Suite('tight', tight_specs(), run, 1000, 60000),
    Suite('solve', specs(reg=0.0, noise=0.1, avg=0.1), run, 1300, 100000),
    Suite('reg', specs(reg=1.0, noise=0.1, avg=0.05), run, 160, 8000),
    Suite('points', points_specs(), run, 900, 30000),
    Suite('restarts', specs(reg=0.0, restart_p=1.0, noise=0.1, avg=0.1), run, 900, 60000),
]
