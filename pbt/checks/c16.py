"""C16: interpolation models reproduce their data and survive base shifts."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O, modelops as MO
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = ("histories: at least one fit or Lagrange evaluation was compared after a mutation of a point set with at least two points; solver cases: at least one fit "
        "inside the run was compared")
ASSUMPTIONS = ["W = rows [1, (y_k - xopt)/s] with s the largest distance (and s = 1 when preconditioning is off); point sets with cond(W) > 1e9 are skipped",
               "tolerance 2000*eps*(n+2)*(cond(W)*max|r| + |const| + |J||y|): linear in the conditioning, as the property states",
               "fits with full-rank completion (while the set is still growing, to more than n+1 points too): the completion may change values by floor*distance with floor = max(sigma1/max_jac_cond, min_sing_val), the "
               "documented floors on the singular values, and not at all at the incumbent",
               "only finite data of modulus <= 1e100 are compared"]
FAC = 2000.0 * O.EPS
CMAX = 1e9


def geometry(M, precond):
    npt, n = M.npt(), M.n()
    Y = np.array([np.array(M.xpt(k), dtype=float) for k in range(npt)]).reshape((npt, n))
    xo = np.array(M.xopt(), dtype=float)
    D = Y - xo
    s = float(np.max(np.linalg.norm(D, axis=1))) if npt > 1 else 0.0
    if s == 0.0:
        s = 1.0
    W = np.hstack([np.ones((npt, 1)), D / s])
    sv = np.linalg.svd(W, compute_uv=False)
    cond = float(sv[0] / sv[-1]) if sv[-1] > 0 else math.inf
    if not precond:
        sv2 = np.linalg.svd(np.hstack([np.ones((npt, 1)), D]), compute_uv=False)
        cond = max(cond, float(sv2[0] / sv2[-1]) if sv2[-1] > 0 else math.inf)
    return Y, xo, D, s, W, cond


def data(M):
    return np.array(M.fval_v[:M.npt(), :], dtype=float)


def check_fit(M, G, R, opts, what):
    """M has just been fitted; G, R = geometry and data before the fit"""
    Y, xo, D, s, W, cond = G
    npt, n = Y.shape
    m = R.shape[1]
    J = np.array(M.model_jac, dtype=float)
    c = np.array(M.model_const, dtype=float)
    if J.shape != (m, n) or c.shape != (m,):
        raise Violation('shape', what + "Jacobian %r and constant %r for %d residuals in %d variables" % (J.shape, c.shape, m, n))
    if not (np.array_equal(np.array(M.xopt(), dtype=float), xo) and np.array_equal(data(M), R)):
        raise Violation('fit-changed-data', what + "the fit changed the interpolation data")
    rmax = np.max(np.abs(R), axis=0)
    size = rmax * cond + np.abs(c) + np.max(np.abs(Y) @ np.abs(J).T, axis=0)
    tol = FAC * (n + 2) * size
    V = np.array([np.asarray(M.model_value(Y[k], d_based_at_xopt=False, with_const_term=True), dtype=float) for k in range(npt)])
    V2 = np.array([np.asarray(M.model_value(D[k], d_based_at_xopt=True, with_const_term=True), dtype=float) for k in range(npt)])
    if not np.all(np.abs(V - V2) <= tol):
        raise Violation('model-value', what + "model values based at xbase and at xopt differ: %r and %r" % (V.tolist(), V2.tolist()))
    E = V - R
    extra = np.zeros((npt, 1))
    if opts.get('full_rank'):
        s1 = float(np.linalg.norm(J, 2)) if m else 0.0
        fl = max(s1 / opts['max_cond'], opts['min_sing'])
        extra = (fl * np.linalg.norm(D, axis=1) * (1 + 1e-6)).reshape((npt, 1))
    if npt <= n + 1:
        bad = ~(np.abs(E) <= tol + extra)
        if np.any(bad):
            k, i = [int(v[0]) for v in np.nonzero(bad)]
            raise Violation('interpolation%s' % ('-growing' if npt <= n else ''), what + "residual model %d at interpolation point %d%s is %r, the stored residual is %r "
                            "(difference %.3g, allowed %.3g; %d points, n = %d, cond = %.3g)"
                            % (i, k, ' (the incumbent)' if not D[k].any() else '', float(V[k, i]), float(R[k, i]), float(E[k, i]), float(tol[i] + extra[k, 0]), npt, n, cond))
    else:
        orth = W.T @ E
        bad = ~(np.abs(orth) <= tol * npt + np.abs(W).T @ (extra * np.ones((1, m))))
        if np.any(bad):
            raise Violation('least-squares', what + "residual of the fit is not orthogonal to the design columns: %r, allowed %r (%d points, n = %d, cond = %.3g)"
                            % (orth.tolist(), (tol * npt).tolist(), npt, n, cond))
        sol = np.linalg.lstsq(W, R, rcond=None)[0]
        dv = W @ sol - V
        if not np.all(np.abs(dv) <= tol * npt + extra):
            raise Violation('least-squares-values', what + "fit differs from the least-squares solution at the points by %r" % dv.tolist())
    return tol


def check_full_model(M, what):
    J = np.array(M.model_jac, dtype=float)
    n = M.n()
    g, H = M.build_full_model()
    g, H = np.array(g, dtype=float), np.array(H, dtype=float)
    xo = np.array(M.xopt(), dtype=float)
    rng = np.random.RandomState(3)
    r0 = np.asarray(M.model_value(np.zeros(n), d_based_at_xopt=True, with_const_term=True), dtype=float)
    mag = np.abs(np.array(M.model_const, dtype=float)) + np.abs(J) @ np.abs(xo)
    for _ in range(2):
        d = rng.uniform(-1, 1, n) * (1.0 + 0.0)
        r = np.asarray(M.model_value(d, d_based_at_xopt=True, with_const_term=True), dtype=float)
        q = float(r0 @ r0 + g @ d + 0.5 * d @ (H @ d))
        mg = mag + np.abs(J) @ np.abs(d)
        if not abs(float(r @ r) - q) <= 1e-11 * (n + 2) * float(mg @ mg):
            raise Violation('full-model', what + "assembled quadratic is %r at d = %r, sum of squares of the residual models is %r" % (q, d.tolist(), float(r @ r)))
    return g, H, mag


def check_lagrange(M, what, single=None):
    G = geometry(M, M.precondition if hasattr(M, 'precondition') else True)
    Y, xo, D, s, W, cond = G
    npt, n = Y.shape
    if not cond <= CMAX:
        return False
    cs, gs = M.lagrange_gradient()
    cs, gs = np.array(cs, dtype=float), np.array(gs, dtype=float)
    if cs.shape != (npt,) or gs.shape != (n, npt):
        raise Violation('lagrange-shape', what + "shapes %r and %r for %d points" % (cs.shape, gs.shape, npt))
    L = cs[None, :] + D @ gs                # L[j, k] = L_k(y_j)
    tol = FAC * (n + 2) * (cond + np.max(np.abs(cs)) + np.max(np.abs(D) @ np.abs(gs)))
    if npt <= n + 1:
        E = L - np.eye(npt)
        if not np.all(np.abs(E) <= tol):
            j, k = [int(v[0]) for v in np.nonzero(~(np.abs(E) <= tol))]
            raise Violation('lagrange', what + "L_%d at point %d is %r (%d points, n = %d, cond = %.3g)" % (k, j, float(L[j, k]), npt, n, cond))
    else:
        t = tol * npt
        if not (abs(float(np.sum(cs)) - 1.0) <= t and np.all(np.abs(np.sum(gs, axis=1)) * s <= t)):
            raise Violation('lagrange-sum', what + "Lagrange functions sum to %r + %r.(y-xopt), not to one" % (float(np.sum(cs)), np.sum(gs, axis=1).tolist()))
        orth = W.T @ (L - np.eye(npt))
        if not np.all(np.abs(orth) <= t):
            raise Violation('lagrange-least-squares', what + "Lagrange functions are not least-squares fits of the unit data: %r" % orth.tolist())
    if single is not None:
        k = single % npt
        c1, g1 = M.lagrange_gradient(k)
        if not (abs(float(c1) - cs[k]) <= tol and np.all(np.abs(np.asarray(g1) - gs[:, k]) * s <= tol)):
            raise Violation('lagrange-single', what + "lagrange_gradient(%d) = %r, %r differs from column %d of the full set %r, %r"
                            % (k, float(c1), np.asarray(g1).tolist(), k, float(cs[k]), gs[:, k].tolist()))
    return True


def probe(M, Z, base):
    return np.array([np.asarray(M.model_value(z - base, d_based_at_xopt=False, with_const_term=True), dtype=float) for z in Z])


def do_shift(H, op, what):
    M = H.model
    xo = np.array(M.xopt(abs_coordinates=True), dtype=float)
    rng = np.random.RandomState(op.get('k', 0))
    Z = [xo] + [np.array(M.xpt(k, abs_coordinates=True), dtype=float) for k in range(H.npt)] + [xo + H.spread * rng.uniform(-2, 2, H.n) for _ in range(2)]
    base0 = np.array(M.xbase, dtype=float)
    V0 = probe(M, Z, base0)
    g0, H0 = [np.array(v, dtype=float) for v in M.build_full_model()]
    J0, c0 = np.array(M.model_jac, dtype=float), np.array(M.model_const, dtype=float)
    G0 = geometry(M, M.precondition if hasattr(M, 'precondition') else True)
    L0 = M.lagrange_gradient() if op.get('lag') and G0[-1] <= 1e6 else None
    desc = H.step(op)
    sh = desc[1]
    base1 = np.array(M.xbase, dtype=float)
    if not np.all(np.abs(base1 - (base0 + sh)) <= 4 * O.EPS * (np.abs(base0) + np.abs(sh))):
        raise Violation('shift-base', what + "base moved from %r to %r, requested shift %r" % (base0.tolist(), base1.tolist(), sh.tolist()))
    V1 = probe(M, Z, base1)
    zmax = np.max(np.abs(np.array(Z)), axis=0) + np.abs(base0) + np.abs(base1) + np.abs(sh)
    tol = 200 * O.EPS * (np.abs(c0) + np.abs(np.array(M.model_const, dtype=float)) + np.abs(J0) @ zmax)
    if not np.all(np.abs(V1 - V0) <= tol):
        i = int(np.argmax(np.max(np.abs(V1 - V0) - tol, axis=0)))
        k = int(np.argmax(np.abs(V1 - V0)[:, i]))
        raise Violation('shift-values', what + "base shift %r changed residual model %d at the fixed point %r from %r to %r" % (sh.tolist(), i, Z[k].tolist(), float(V0[k, i]), float(V1[k, i])))
    g1, H1 = [np.array(v, dtype=float) for v in M.build_full_model()]
    if not np.all(np.abs(H1 - H0) <= 1e-13 * (np.abs(J0).T @ np.abs(J0))):
        raise Violation('shift-hessian', what + "base shift changed the Hessian from %r to %r" % (H0.tolist(), H1.tolist()))
    if not np.all(np.abs(g1 - g0) <= 2 * np.abs(J0).T @ (tol + 1e-13 * np.abs(V0[0])) * 4):
        raise Violation('shift-gradient', what + "base shift changed the gradient from %r to %r" % (g0.tolist(), g1.tolist()))
    if L0 is not None:
        L1 = M.lagrange_gradient()
        s = G0[3]
        rel = float(np.max(zmax)) / s
        t = FAC * (H.n + 2) * G0[-1] ** 2 * (1 + rel)
        if not (np.all(np.abs(np.asarray(L1[0]) - np.asarray(L0[0])) <= t) and np.all(np.abs(np.asarray(L1[1]) - np.asarray(L0[1])) * s <= t)):
            raise Violation('shift-lagrange', what + "base shift changed the Lagrange functions from %r to %r" % (np.asarray(L0[1]).tolist(), np.asarray(L1[1]).tolist()))
    return desc


def run(spec, ctx):
    H = MO.Hist(spec)
    M = H.model
    compared = 0
    mutated = False
    for i, op in enumerate(spec['ops']):
        what = "operation %d (%s): " % (i, op['op'])
        if op['op'] == 'fit':
            R = data(M)
            if not (np.all(np.isfinite(R)) and np.max(np.abs(R)) <= 1e100):
                ctx.label('non-finite-data')
                continue
            G = geometry(M, spec.get('precond', True))
            kw = {}
            opts = dict(op.get('o') or {})
            if opts.get('full_rank') and H.growing and H.npt > 1:
                kw = dict(make_full_rank=True, min_sing_val=opts['min_sing'], sing_val_frac=opts['frac'], max_jac_cond=opts['max_cond'])
            else:
                opts.pop('full_rank', None)
            if opts.get('verbose'):
                kw['verbose'] = True
            if opts.get('chg'):
                kw['get_chg_J'] = True
            try:
                ok = bool(M.interpolate_mini_models_svd(**kw)[0])
            except Exception as e:
                raise Violation('fit-exception', what + "%s: %s" % (type(e).__name__, e))
            if not G[-1] <= CMAX:
                ctx.label('ill-conditioned')
                continue
            if not ok:
                raise Violation('fit-failed', what + "fit reported failure for %d points with cond = %.3g" % (H.npt, G[-1]))
            check_fit(M, G, R, opts, what)
            check_full_model(M, what)
            ctx.label('fit:' + ('growing-full-rank' if opts.get('full_rank') else 'growing' if H.npt <= H.n else 'square' if H.npt == H.n + 1 else 'regression'))
            if np.any(np.array(M.xopt()) != 0):
                ctx.label('xopt-off-base')
            compared += H.npt > 1 and mutated
        elif op['op'] == 'lagrange':
            try:
                done = check_lagrange(M, what, op.get('k'))
            except Violation:
                raise
            except Exception as e:
                raise Violation('lagrange-exception', what + "%s: %s" % (type(e).__name__, e))
            if done:
                ctx.label('lagrange:' + ('growing' if H.npt <= H.n else 'square' if H.npt == H.n + 1 else 'regression'))
                compared += H.npt > 1 and mutated
        elif op['op'] == 'shift':
            if not np.all(np.isfinite(np.array(M.model_jac))):
                continue
            do_shift(H, op, what)
            ctx.label('shift')
            mutated = True
        else:
            try:
                desc = H.step(op)
            except Exception as e:
                raise Violation('update-exception', what + "%s: %s" % (type(e).__name__, e))
            if desc is not None:
                mutated = True
                ctx.label('op:' + op['op'])
    ctx.nontrivial(compared > 0)


@st.composite
def specs(draw):
    ties = chance(draw, 0.2)
    spec = MO.draw_common(draw, 5, 4, 0.0, ties, lambda n: draw(I(n + 1, n + 4)), 0.15)
    n, m = spec['n'], spec['m']
    if chance(draw, 0.1):
        spec['precond'] = False
    ops = []
    sc = (1.0, 1.0, 0.1, 3.0)
    if chance(draw, 0.8):
        cnt = draw(I(1, spec['npt'] - 1))
        for k in range(cnt):
            op = MO.draw_op(draw, n, m, ('change',), 0.0, ties, (1.0, 1.0, 0.3))
            op['grow'] = True
            op.pop('out', None)
            op['about'] = -1
            if chance(draw, 0.8):
                d = [0.0] * n
                d[k % n] = pick(draw, 1.0, -1.0) * (1.0 if k < n else -0.7)
                op['d'] = [v + num(draw, 0.4) for v in d] if draw(B) else d
            ops.append(op)
    kinds = ('fit', 'fit', 'fit', 'lagrange', 'lagrange', 'change', 'change', 'sample', 'swap', 'shift', 'shift', 'add')
    for _ in range(draw(I(2, 30)) if chance(draw, 0.3) else draw(I(2, 9))):
        op = MO.draw_op(draw, n, m, kinds, 0.0, ties, sc)
        if op['op'] == 'fit':
            op = dict(op='fit', o=dict(verbose=draw(B), chg=draw(B)))
            if draw(B):
                op['o'].update(full_rank=True, min_sing=pick(draw, 1e-6, 1e-10, 1e-3), frac=pick(draw, 1.0, 0.01), max_cond=pick(draw, 1e8, 1e3))
        elif op['op'] == 'lagrange':
            op = dict(op='lagrange', k=draw(I(0, 12)))
        elif op['op'] == 'shift' and draw(B):
            op['lag'] = True
        ops.append(op)
    spec['ops'] = ops
    if chance(draw, 0.1):
        f = 10.0 ** draw(I(-8, 8))
        spec['r0'] = [v * f for v in spec['r0']]
        for op in ops:
            if 'r' in op:
                op['r'] = [v * f for v in op['r']]
    return spec


# ----------------------------------------------------------------------------------------------- fits inside whole solves
def run_solver(spec, ctx):
    M = dfols.model.Model
    st_ = dict(viol=None, fits=0, growing=0, reg=0, lag=0, shifts=0, off=0)
    orig_fit, orig_shift, orig_lag = M.interpolate_mini_models_svd, M.shift_base, M.lagrange_gradient
    busy = [False]

    def guarded(f):
        if st_['viol'] is None:
            try:
                f()
            except Violation as e:
                st_['viol'] = Violation(e.sig + '-in-solve', e.msg)

    def fit(self, *a, **k):
        busy[0] = True
        try:
            R = data(self)
            G = geometry(self, getattr(self, 'precondition', True)) if np.all(np.isfinite(R)) and np.max(np.abs(R)) <= 1e100 else None
            out = orig_fit(self, *a, **k)
            names = ('verbose', 'make_full_rank', 'min_sing_val', 'sing_val_frac', 'max_jac_cond')
            kk = dict(zip(names, a))
            kk.update(k)
            if G is not None and G[-1] <= CMAX:
                def f():
                    what = "fit %d of the run (%d points, n = %d): " % (st_['fits'] + 1, R.shape[0], self.n())
                    if not out[0]:
                        raise Violation('fit-failed', what + "reported failure, cond = %.3g" % G[-1])
                    check_fit(self, G, R, dict(full_rank=bool(kk.get('make_full_rank')), max_cond=kk.get('max_jac_cond', 1e8), min_sing=kk.get('min_sing_val', 1e-6)), what)
                    check_full_model(self, what)
                    st_['fits'] += 1
                    st_['growing'] += R.shape[0] <= self.n()
                    st_['reg'] += R.shape[0] > self.n() + 1
                    st_['off'] += bool(np.any(np.array(self.xopt()) != 0))
                guarded(f)
            return out
        finally:
            busy[0] = False

    def shift(self, s):
        ok = np.all(np.isfinite(self.model_jac)) and np.all(np.isfinite(self.model_const))
        if ok:
            Z = [np.array(self.xpt(k, abs_coordinates=True), dtype=float) for k in range(self.npt())]
            V0, b0, sh = probe(self, Z, np.array(self.xbase)), np.array(self.xbase), np.array(s, dtype=float)
            c0, J0 = np.array(self.model_const), np.array(self.model_jac)
        orig_shift(self, s)
        if ok:
            def f():
                V1 = probe(self, Z, np.array(self.xbase))
                zmax = np.max(np.abs(np.array(Z)), axis=0) + np.abs(b0) + np.abs(sh)
                tol = 200 * O.EPS * (np.abs(c0) + np.abs(self.model_const) + np.abs(J0) @ zmax)
                if not np.all(np.abs(V1 - V0) <= tol):
                    raise Violation('shift-values', "base shift %d of the run changed model values at fixed points by %r" % (st_['shifts'] + 1, (V1 - V0).tolist()))
                st_['shifts'] += 1
            guarded(f)

    def lag(self, k=None, factorise_first=True):
        out = orig_lag(self, k=k, factorise_first=factorise_first)
        if factorise_first and k is not None and st_['lag'] < 60:
            def f():
                Y, xo, D, s, W, cond = geometry(self, getattr(self, 'precondition', True))
                n = D.shape[1]
                if cond > CMAX or D.shape[0] > n + 1:
                    return
                c, g = float(out[0]), np.asarray(out[1], dtype=float)
                L = c + D @ g
                e = np.zeros(D.shape[0])
                e[k] = 1.0
                if not np.all(np.abs(L - e) <= FAC * (n + 2) * (cond + abs(c) + np.max(np.abs(D) @ np.abs(g)))):
                    raise Violation('lagrange', "Lagrange function %d has values %r at the interpolation points (cond = %.3g)" % (k, L.tolist(), cond))
                st_['lag'] += 1
            guarded(f)
        return out
    M.interpolate_mini_models_svd, M.shift_base, M.lagrange_gradient = fit, shift, lag
    try:
        rec = S.run_spec(spec, log=False)
    finally:
        M.interpolate_mini_models_svd, M.shift_base, M.lagrange_gradient = orig_fit, orig_shift, orig_lag
    O.outcome_labels(rec, ctx)
    O.spec_labels(spec, ctx)
    if st_['viol'] is not None:
        raise st_['viol']
    for q in ('growing', 'reg', 'lag', 'shifts', 'off'):
        if st_[q]:
            ctx.label('checked:' + q)
    ctx.nontrivial(st_['fits'] > 0)


SHARED_CORPUS_SUITE = 'solve'

SUITES = [
    Suite('histories', specs(), run, 6000, 400000),
    Suite('solve', gen.solver_specs(medium=40, big=80), run_solver, 1500, 50000),
]
