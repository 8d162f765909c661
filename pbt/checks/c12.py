"""C12: the box trust-region subproblem solver returns feasible, decreasing steps."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols.trust_region as TR
from ..engine import Suite, Violation
from ..capture import Capture
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance, pos

LEVEL = 'exploration'
RULE = ("direct cases: the projected gradient is non-zero, so a non-zero step is required; solver cases: at least one captured subproblem with that property")
ASSUMPTIONS = ["box test exact, in the coordinates of the step: fl(sl-xopt) <= d <= fl(su-xopt)",
               "rounding of xopt+d-xopt (a few ulps of |xopt|) is allowed in the norm, the model value and the returned gradient",
               "steepest descent moves the variables not held at a bound by the sign of the gradient",
               "the pure Python implementation is the one exercised (the Fortran package trustregion is not installed)"]


def mval(g, H, d):
    return float(g @ d + 0.5 * d @ (H @ d))


def cauchy(xopt, g, H, sl, su, delta):
    """steepest-descent step in the free variables, truncated at the first bound or the trust-region boundary"""
    free = ~(((xopt <= sl) & (g >= 0)) | ((xopt >= su) & (g <= 0)))
    s = np.where(free, -g, 0.0)
    ns = float(np.linalg.norm(s))
    if ns == 0.0:
        return np.zeros_like(g)
    t = delta / ns
    shs = float(s @ (H @ s))
    if shs > 0:
        t = min(t, ns * ns / shs)
    for i in range(len(g)):
        if s[i] > 0:
            t = min(t, (su[i] - xopt[i]) / s[i])
        elif s[i] < 0:
            t = min(t, (sl[i] - xopt[i]) / s[i])
    return max(t, 0.0) * s


def check_step(xopt, g, H, sl, su, delta, out, what=''):
    d, gnew = np.asarray(out[0], dtype=float), np.asarray(out[1], dtype=float)
    n = len(xopt)
    if d.shape != (n,) or gnew.shape != (n,):
        raise Violation('shape', what + "d has shape %r, gnew %r" % (d.shape, gnew.shape))
    if not np.all(np.isfinite(d)):
        raise Violation('nonfinite', what + "d = %r" % d.tolist())
    a, b = sl - xopt, su - xopt
    if not np.all((d >= a) & (d <= b)):
        i = int(np.argmin((d >= a) & (d <= b)))
        raise Violation('box', what + "d[%d] = %r outside [%r, %r]" % (i, float(d[i]), float(a[i]), float(b[i])))
    rd = 4 * O.EPS * np.abs(xopt)              # rounding of d = fl(fl(xopt+d) - xopt)
    nd = float(np.linalg.norm(d))
    if nd > delta * (1 + 1e-8) + float(np.linalg.norm(rd)):
        raise Violation('too-long', what + "||d|| = %r > delta = %r" % (nd, delta))
    nH = float(np.linalg.norm(H, 2)) if n else 0.0
    gs = float(np.linalg.norm(g))
    # model arithmetic: rounding relative to the size of the terms
    terms = gs * nd + 0.5 * nH * nd * nd
    tol = 1e-11 * terms + (np.abs(g) + nH * nd) @ rd
    m = mval(g, H, d)
    if m > tol:
        raise Violation('increase', what + "model value of the step is %r > 0 (rounding allowance %.3g)" % (m, tol))
    dc = cauchy(xopt, g, H, sl, su, delta)
    mc = mval(g, H, dc)
    tolc = tol + 1e-11 * (gs * float(np.linalg.norm(dc)) + 0.5 * nH * float(dc @ dc))
    if m > mc + 1e-8 * abs(mc) + tolc:
        raise Violation('cauchy', what + "model value %r, steepest-descent step achieves %r" % (m, mc))
    gt = g + H @ d
    tg = 1e-8 * (gs + nH * nd) + nH * float(np.linalg.norm(rd))
    if not float(np.linalg.norm(gnew - gt)) <= tg:
        raise Violation('gradient', what + "returned gradient %r, g+Hd = %r" % (gnew.tolist(), gt.tolist()))
    return mc


def build(spec):
    n = spec['n']
    s = spec['gs']
    g = np.array(spec['g'], dtype=float) * s
    A = np.array(spec['A'], dtype=float).reshape((-1, n))
    delta = spec['delta']
    hs = spec['hs'] * s / delta
    k = spec['hk']
    if k == 'psd':
        H = A.T @ A
    elif k == 'zero':
        H = np.zeros((n, n))
    elif k == 'diff':
        h = len(A) // 2
        H = A[:h].T @ A[:h] - A[h:].T @ A[h:]
    elif k == 'neg':
        H = -(A.T @ A)
    else:
        H = A[:n] + A[:n].T if len(A) >= n else A.T @ A
    H = hs * 0.5 * (H + H.T)
    xopt = np.array(spec['x'], dtype=float) * spec['xs']
    sl, su = np.empty(n), np.empty(n)
    for i in range(n):
        for side, arr, sg in (('l', sl, -1.0), ('u', su, 1.0)):
            kind, v = spec['b' + side][i]
            if kind == 'act':
                w = 0.0
            elif kind == 'near':
                w = delta * 10.0 ** (-v)
            elif kind == 'frac':
                w = delta * v / 10.0
            else:
                w = 1e20
            arr[i] = sg * 1e20 if kind == 'far' else xopt[i] + sg * w
    return xopt, g, H, sl, su, delta


def run_direct(spec, ctx):
    xopt, g, H, sl, su, delta = build(spec)
    a = [v.copy() for v in (xopt, g, H, sl, su)]
    try:
        out = TR.trsbox(xopt, g, H, sl, su, delta)
    except Exception as e:
        raise Violation('exception', "%s: %s" % (type(e).__name__, e))
    for v, w, nm in zip((xopt, g, H, sl, su), a, ('xopt', 'g', 'H', 'sl', 'su')):
        if not np.array_equal(v, w):
            raise Violation('input-modified', nm)
    mc = check_step(xopt, g, H, sl, su, delta, out)
    ctx.label('H:' + spec['hk'])
    d = np.asarray(out[0])
    if float(np.linalg.norm(d)) >= delta * (1 - 1e-8):
        ctx.label('on-ball')
    nb = int(np.sum((d == sl - xopt) | (d == su - xopt)))
    ctx.label('bounds-hit:%d' % min(nb, 3))
    if np.any((xopt == sl) | (xopt == su)):
        ctx.label('active-at-start')
    if np.any(((xopt == sl) & (g < 0)) | ((xopt == su) & (g > 0))):
        ctx.label('active-at-start-inward')
    r = np.linalg.matrix_rank(H) if H.any() else 0
    ctx.label('rank-deficient' if r < len(g) else 'full-rank')
    ctx.nontrivial(mc < 0)


@st.composite
def direct_specs(draw):
    n = draw(I(1, 8))
    spec = dict(n=n)
    gk = pick(draw, 'rand', 'rand', 'sparse', 'spread', 'zero')
    if gk == 'rand':
        g = [num(draw, 1.0) for _ in range(n)]
    elif gk == 'sparse':
        g = [float(draw(I(-1, 1))) for _ in range(n)]
    elif gk == 'spread':
        g = [draw(I(-9, 9)) * 10.0 ** draw(I(-8, 0)) for _ in range(n)]
    else:
        g = [0.0] * n
        if B and draw(B):
            g[draw(I(0, n - 1))] = 1.0
    spec['g'] = g
    spec['gs'] = 10.0 ** draw(I(-3, 3))
    spec['hk'] = pick(draw, 'psd', 'psd', 'psd', 'zero', 'diff', 'neg', 'sym')
    r = draw(I(1, n + 2)) if spec['hk'] != 'sym' else n
    style = pick(draw, 'rand', 'small-int', 'cols')
    if style == 'rand':
        A = [[num(draw, 2.0, 200) for _ in range(n)] for _ in range(r)]
    elif style == 'small-int':
        A = [[float(draw(I(-1, 1))) for _ in range(n)] for _ in range(r)]
    else:
        cs = [10.0 ** draw(I(-4, 1)) for _ in range(n)]
        A = [[draw(I(-9, 9)) / 5.0 * cs[j] for j in range(n)] for _ in range(r)]
    spec['A'] = A
    spec['hs'] = 10.0 ** draw(I(-6, 6)) if draw(B) else pick(draw, 1.0, 0.3, 3.0)
    spec['delta'] = 10.0 ** draw(I(-8, 0)) * pick(draw, 1.0, 1.7, 5.3)
    spec['x'] = [num(draw, 1.0) for _ in range(n)]
    spec['xs'] = pick(draw, 0.0, 1.0, 10.0) if spec['delta'] > 1e-4 and draw(B) else pick(draw, 0.0, 1.0, 10.0) * spec['delta']
    bk = pick(draw, 'far', 'mix', 'mix', 'mix', 'tight')
    for s in 'lu':
        bb = []
        for _ in range(n):
            if bk == 'far':
                bb.append(['far', 0])
            elif bk == 'tight':
                bb.append(['frac', draw(I(1, 10))])
            else:
                k = pick(draw, 'far', 'act', 'frac', 'near')
                bb.append([k, draw(I(1, 14)) if k in ('near', 'frac') else 0])
        spec['b' + s] = bb
    return spec


def run_solver(spec, ctx):
    state = dict(n=0, nt=0, viol=None)

    def wrapper(orig, a, k):
        out = orig(*a, **k)
        try:
            args = dict(zip(('xopt', 'g', 'H', 'sl', 'su', 'delta'), a))
            args.update({q: v for q, v in k.items() if q in ('xopt', 'g', 'H', 'sl', 'su', 'delta')})
            v = [np.array(args[q], dtype=float) for q in ('xopt', 'g', 'H', 'sl', 'su')]
            if len(args) == 6 and state['viol'] is None and all(np.all(np.isfinite(w)) for w in v):
                gn, Hn = float(np.linalg.norm(v[1])), float(np.linalg.norm(v[2]))
                # the property quantifies over 6 decades of g and 8 of delta; overflowing objectives produce gradients of 1e20 and more
                if 1e-12 < gn < 1e9 and Hn < 1e18 and 1e-13 < float(args['delta']) < 1e9:
                    state['n'] += 1
                    mc = check_step(v[0], v[1], v[2], v[3], v[4], float(args['delta']), out, 'subproblem %d of the run: ' % state['n'])
                    if mc < 0:
                        state['nt'] += 1
        except Violation as e:
            state['viol'] = Violation(e.sig + '-in-solve', e.msg + ' args=%r' % {q: np.asarray(w).tolist() for q, w in args.items()})
        return out
    with Capture('trust_region', 'trsbox', wrapper, skip_home=True):
        rec = S.run_spec(spec, log=False)
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if state['viol'] is not None:
        raise state['viol']
    ctx.label('subproblems:%s' % ('0' if not state['n'] else '1-9' if state['n'] < 10 else '10+'))
    ctx.nontrivial(state['nt'] > 0)


SHARED_CORPUS_SUITE = 'solve'

SUITES = [
    Suite('direct', direct_specs(), run_direct, 30000, 1500000),
    Suite('solve', gen.solver_specs(reg=0.0, x0mags=(1.0, 10.0, 1e-2)), run_solver, 6000, 200000),
]
