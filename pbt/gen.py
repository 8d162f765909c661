"""Hypothesis strategies producing solver-level specs (plain JSON dicts interpreted by pbt.spec)."""
import math

from . import boot  # noqa: F401
import numpy as np
from hypothesis import strategies as st

I = st.integers
B = st.booleans()


def num(draw, mag=1.0, k=3000):
    """float in [-mag, mag] with a full mantissa; shrinks to 0"""
    return draw(I(-k, k)) * (mag / k)


def pos(draw, lo, hi, k=200):
    """log-uniform-ish float in [lo, hi]; shrinks to hi"""
    t = draw(I(0, k)) / float(k)
    return float(hi * (lo / hi) ** t)


def chance(draw, p):
    """True with probability about p; shrinks to False"""
    return draw(I(0, 99)) >= 100 - int(round(100 * p))


def pick(draw, *xs):
    return draw(st.sampled_from(xs))


FAMS = ('lin', 'quad', 'rosen', 'exp', 'sin', 'const', 'floor', 'abs', 'rat')


def draw_objective(draw, n, fams=FAMS, mmax=6):
    fam = pick(draw, *fams)
    ob = dict(fam=fam)
    ob['q'] = pick(draw, 1.0, 0.1, 3.0, 10.0)
    ob['s'] = pick(draw, 1.0, 1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6)
    if fam == 'rosen':
        return ob
    m = draw(I(1, mmax))
    style = pick(draw, 'rand', 'rand', 'diag', 'rank1', 'big', 'zero')
    if style == 'rand':
        A = [[draw(I(-20, 20)) / 7.0 for _ in range(n)] for _ in range(m)]
    elif style == 'diag':
        A = [[(pick(draw, 1.0, 0.1, 10.0, 3.7) if i % n == j else 0.0) for j in range(n)] for i in range(m)]
    elif style == 'rank1':
        u = [draw(I(-9, 9)) / 3.0 for _ in range(m)]
        v = [draw(I(-9, 9)) / 3.0 for _ in range(n)]
        A = [[a * b for b in v] for a in u]
    elif style == 'big':
        A = [[draw(I(-20, 20)) * 13.7 for _ in range(n)] for _ in range(m)]
    else:
        A = [[0.0] * n for _ in range(m)]
    if chance(draw, 0.35):
        c = [num(draw, 3.0) for _ in range(n)]
        b = [float(v) for v in (np.array(A) @ np.array(c))]
    else:
        b = [num(draw, 5.0) for _ in range(m)]
    ob['A'] = A
    ob['b'] = b
    return ob


def draw_box(draw, n, x0mag, rhobeg, scaling, kinds=None):
    """bounds and x0; returns (lower, upper, x0). rhobeg is the radius in internal coordinates."""
    kind = kinds if kinds is not None else pick(draw, 'none', 'both', 'both', 'both', 'lower', 'upper', 'wide')
    if scaling:
        kind = 'both'
    x0 = [num(draw, x0mag) for _ in range(n)]
    if kind == 'none':
        return None, None, x0
    if kind == 'wide':
        lo = [-(10.0 ** draw(I(1, 20))) for _ in range(n)]
        up = [(10.0 ** draw(I(1, 20))) for _ in range(n)]
        return lo, up, [min(max(v, l), u) for v, l, u in zip(x0, lo, up)]
    lo, up = [], []
    xs = []
    for i in range(n):
        base = x0[i]
        if scaling:
            gap = pick(draw, 1.0, 0.3, 7.0, 100.0, 1e-3, 1e4) * (1.0 + draw(I(0, 900)) / 1000.0)
        else:
            gap = 2.0 * rhobeg * pick(draw, 1.0, 1.0000001, 1.1, 2.0, 5.0, 50.0, 1000.0)
            if pick(draw, False, True):
                gap *= 1.0 + draw(I(0, 900)) / 1000.0
        place = pick(draw, 'in', 'atl', 'atu', 'nearl', 'nearu', 'ulpl', 'ulpu', 'below', 'above', 'midl', 'midu')
        h = gap if scaling else rhobeg
        if place == 'in':
            t = draw(I(0, 1000)) / 1000.0
            l = base - t * gap
        elif place in ('atl', 'ulpl'):
            l = base
        elif place in ('atu', 'ulpu'):
            l = base - gap
        elif place == 'nearl':
            l = base - h * 10.0 ** (-draw(I(1, 14)))
        elif place == 'nearu':
            l = base - gap + h * 10.0 ** (-draw(I(1, 14)))
        elif place == 'midl':
            l = base - h * draw(I(1, 30)) / 20.0
        elif place == 'midu':
            l = base - gap + h * draw(I(1, 30)) / 20.0
        elif place == 'below':
            l = base + h * 10.0 ** (-draw(I(-1, 12)))
        else:
            l = base - gap - h * 10.0 ** (-draw(I(-1, 12)))
        l = float(l)
        u = float(l + gap)
        if not scaling:
            while u - l < 2.0 * rhobeg:
                u = float(np.nextafter(u, np.inf))
        x = base
        if place in ('atl', 'ulpl'):
            x = l if place == 'atl' else float(np.nextafter(l, pick(draw, -np.inf, np.inf)))
        elif place in ('atu', 'ulpu'):
            x = u if place == 'atu' else float(np.nextafter(u, pick(draw, -np.inf, np.inf)))
        lo.append(l)
        up.append(u)
        xs.append(float(x))
    if kind == 'lower':
        return lo, None, xs
    if kind == 'upper':
        return None, up, xs
    return lo, up, xs


def maybe(draw, d, key, p, *vals):
    if chance(draw, p):
        d[key] = pick(draw, *vals)


def p_restarts(draw, P, soft=None, n=2, npt=3, grow_npt=True):
    P['restarts.use_restarts'] = True
    if soft is None:
        soft = pick(draw, True, False)
    if not soft:
        P['restarts.use_soft_restarts'] = False
    maybe(draw, P, 'restarts.max_unsuccessful_restarts', 0.6, 2, 3, 1, 5, 0)
    maybe(draw, P, 'restarts.rhoend_scale', 0.4, 1.0, 0.5, 0.1, 0.9)
    maybe(draw, P, 'restarts.auto_detect', 0.5, True, False)
    if P.get('restarts.auto_detect', True):
        if chance(draw, 0.5):
            P['restarts.auto_detect.history'] = pick(draw, 3, 2, 4, 6)
            P['restarts.auto_detect.min_chgJ_slope'] = pick(draw, 0.0, 1.5e-2)
            P['restarts.auto_detect.min_correl'] = pick(draw, 0.0, 0.1)
    if soft:
        maybe(draw, P, 'restarts.soft.num_geom_steps', 0.5, 1, 0, 2, 4, 7)
        maybe(draw, P, 'restarts.soft.move_xk', 0.5, False, True)
        maybe(draw, P, 'restarts.soft.max_fake_successful_steps', 0.4, 1, 2, 3)
    else:
        maybe(draw, P, 'restarts.hard.use_old_rk', 0.5, False, True)
        maybe(draw, P, 'restarts.hard.increase_ndirs_initial_amt', 0.4, 0, 1, 2)
    if grow_npt and chance(draw, 0.35):
        P['restarts.increase_npt'] = True
        maybe(draw, P, 'restarts.increase_npt_amt', 0.5, 1, 2, 0)
        cap = (n + 1) * (n + 2) // 2
        top = npt + draw(I(0, 3))
        if not soft:
            top = max(npt, min(top, cap))
        P['restarts.max_npt'] = top


def p_growing(draw, P, n, npt):
    if npt < 3:
        return
    P['growing.ndirs_initial'] = draw(I(1, npt - 2))
    maybe(draw, P, 'growing.num_new_dirns_each_iter', 0.5, 1, 2, 0)
    maybe(draw, P, 'growing.delta_scale_new_dirns', 0.4, 0.5, 0.1, 2.0)
    maybe(draw, P, 'growing.do_geom_steps', 0.4, True, False)
    if chance(draw, 0.4):
        P['growing.reset_delta'] = True
        maybe(draw, P, 'growing.reset_rho', 0.5, True)
    maybe(draw, P, 'growing.gamma_dec', 0.3, 0.9, 0.1)
    maybe(draw, P, 'growing.safety.do_safety_step', 0.3, False)
    w = pick(draw, 0, 1, 2)
    if w == 1:
        P['growing.safety.reduce_delta'] = True
    elif w == 2:
        P['growing.safety.full_geom_step'] = True
    w = pick(draw, 0, 1, 2)
    if w == 1:
        P['growing.full_rank.use_full_rank_interp'] = True
        maybe(draw, P, 'growing.full_rank.min_sing_val', 0.3, 1e-3)
        maybe(draw, P, 'growing.full_rank.svd_max_jac_cond', 0.3, 1e2)
        maybe(draw, P, 'growing.full_rank.svd_scale_factor', 0.3, 0.1)
    elif w == 2:
        P['growing.full_rank.use_full_rank_interp'] = False
        P['growing.perturb_trust_region_step'] = True


def p_regression(draw, P, random_ok=True):
    P['regression.num_extra_steps'] = draw(I(1, 3))
    maybe(draw, P, 'regression.increase_num_extra_steps_with_restart', 0.3, 1)
    if random_ok:
        maybe(draw, P, 'regression.momentum_extra_steps', 0.5, True)


def p_slow(draw, P):
    P['slow.max_slow_iters'] = draw(I(1, 4))
    maybe(draw, P, 'slow.thresh_for_slow', 0.7, 0.1, 1.0, 10.0)
    maybe(draw, P, 'slow.history_for_slow', 0.7, 1, 2, 3)


def p_noise(draw, P):
    P['noise.quit_on_noise_level'] = True
    w = pick(draw, 'add', 'mult', 'none')
    if w == 'add':
        P['noise.additive_noise_level'] = pick(draw, 1e-2, 1e-4, 1.0, 100.0)
    elif w == 'mult':
        P['noise.multiplicative_noise_level'] = pick(draw, 1e-2, 1e-4, 0.5)
    maybe(draw, P, 'noise.scale_factor_for_quit', 0.4, 2.0, 0.5, 10.0)


def p_tol(draw, P):
    maybe(draw, P, 'model.abs_tol', 0.6, 1e-6, 1e-2, 1.0, 30.0, 0.0, 1e-20)
    maybe(draw, P, 'model.rel_tol', 0.6, 1e-3, 0.1, 0.5, 0.9, 0.0)


def p_tr(draw, P):
    maybe(draw, P, 'tr_radius.eta1', 0.4, 0.01, 0.3)
    maybe(draw, P, 'tr_radius.eta2', 0.4, 0.5, 0.9)
    maybe(draw, P, 'tr_radius.gamma_dec', 0.4, 0.1, 0.9, 0.98)
    maybe(draw, P, 'tr_radius.gamma_inc', 0.4, 1.5, 5.0, 100.0)
    maybe(draw, P, 'tr_radius.gamma_inc_overline', 0.4, 2.0, 10.0, 1000.0)
    maybe(draw, P, 'tr_radius.alpha1', 0.4, 0.5, 0.02, 0.9)
    maybe(draw, P, 'tr_radius.alpha2', 0.4, 0.1, 0.95, 1.0)


def p_init(draw, P):
    P['init.random_initial_directions'] = True
    maybe(draw, P, 'init.random_directions_make_orthogonal', 0.4, False)
    maybe(draw, P, 'init.run_in_parallel', 0.4, True)


def p_misc(draw, P):
    maybe(draw, P, 'general.rounding_error_constant', 0.4, 1e-3, 10.0, 1e6, 0.0)
    maybe(draw, P, 'general.safety_step_thresh', 0.4, 0.1, 0.9, 2.0)
    maybe(draw, P, 'interpolation.precondition', 0.5, False)
    maybe(draw, P, 'general.check_objfun_for_overflow', 0.3, False)


GROUPS = ('restarts', 'growing', 'regression', 'slow', 'noise', 'tol', 'tr', 'init', 'misc')


def draw_sets(draw, n, x0, rhobeg):
    """convex sets with a common interior point z; returns (list, z, radius)"""
    z = [x0[i] + num(draw, 2.0) for i in range(n)]
    rad = pick(draw, 0.5, 1.0, 3.0, 0.1)
    k = draw(I(1, 3))
    sets = []
    for _ in range(k):
        kind = pick(draw, 'ball', 'half', 'box')
        if kind == 'ball':
            off = [num(draw, 1.0) for _ in range(n)]
            c = [z[i] + off[i] for i in range(n)]
            r = float(np.linalg.norm(off)) + rad * pick(draw, 1.0, 2.0, 1.05)
            sets.append(dict(kind='ball', c=c, r=r))
        elif kind == 'half':
            a = [draw(I(-5, 5)) / 2.0 for _ in range(n)]
            if not any(a):
                a[0] = 1.0
            b = float(np.dot(a, z)) + float(np.linalg.norm(a)) * rad * pick(draw, 1.0, 1.05, 3.0)
            sets.append(dict(kind='half', a=a, b=b))
        else:
            sets.append(dict(kind='box', l=[v - rad * pick(draw, 1.0, 2.0) for v in z],
                             u=[v + rad * pick(draw, 1.0, 2.0) for v in z]))
    return sets, z, rad


@st.composite
def solver_specs(draw, nmax=4, groups=GROUPS, reg=0.12, proj=0.0, avg=0.2, noise=0.25, scaling=0.25, cliff=0.0,
                 fams=FAMS, regression=0.25, boxkind=None, medium=70, big=160, diag=0.15, group_p=0.22, has_noise=0.1,
                 call_noise=True, default_params=0.15, restart_p=0.45, x0mags=(1.0, 1.0, 10.0, 1e3, 1e-2, 1e6), mmax=6):
    spec = {}
    n = draw(I(1, nmax))
    use_proj = chance(draw, proj)
    use_scal = (not use_proj) and chance(draw, scaling)
    x0mag = pick(draw, *x0mags)
    # radius
    if use_scal:
        rhobeg = pick(draw, 0.1, 0.05, 0.3, 0.5, 0.01)
    else:
        rhobeg = pick(draw, 0.1, 1.0, 0.01, 10.0) * pick(draw, 1.0, 1.37, 0.71)
    if use_proj:
        rhobeg = pick(draw, 0.1, 0.5, 0.02)
    rhoend = rhobeg * pick(draw, 1e-2, 0.5, 1e-3, 1e-1, 1e-4, 1e-6, 1e-8, 0.9)
    spec['rhobeg'] = rhobeg
    spec['rhoend'] = rhoend
    if use_proj:
        x0 = [num(draw, 2.0) for _ in range(n)]
        sets, z, rad = draw_sets(draw, n, x0, rhobeg)
        spec['proj'] = sets
        lo = up = None
        if chance(draw, 0.5):
            lo = [v - rad * pick(draw, 1.0, 0.9, 4.0) - 2 * rhobeg for v in z]
            up = [v + rad * pick(draw, 1.0, 0.9, 4.0) + 2 * rhobeg for v in z]
            w = pick(draw, 'both', 'lower', 'upper')
            if w == 'lower':
                up = None
            elif w == 'upper':
                lo = None
        if chance(draw, 0.5):
            x0 = list(z)
    else:
        lo, up, x0 = draw_box(draw, n, x0mag, rhobeg, use_scal, boxkind)
    spec['x0'] = [float(v) for v in x0]
    spec['lower'] = lo
    spec['upper'] = up
    if use_scal:
        spec['scaling'] = True
    # objective; for large offsets, re-centre the linear part so that something happens near x0
    ob = draw_objective(draw, n, fams, mmax)
    if 'A' in ob and x0mag > 1.0 and chance(draw, 0.7):
        xc = [v if lo is None or up is None else min(max(v, l), u) for v, l, u in zip(x0, lo or x0, up or x0)]
        ob['b'] = [float(b + v) for b, v in zip(ob['b'], np.array(ob['A']) @ np.array(xc))]
    spec['obj'] = ob
    # points
    npt = n + 1
    cap = (n + 1) * (n + 2) // 2
    if (not use_proj) and chance(draw, regression):
        npt = draw(I(n + 1, max(min(2 * n + 1, cap), n + 1)))
        if chance(draw, 0.15):
            npt = draw(I(n + 1, cap + 2))
    if npt != n + 1:
        spec['npt'] = npt
    P = {}
    nodefault = not chance(draw, default_params)
    if nodefault:
        for g in groups:
            if not chance(draw, restart_p if g == 'restarts' else group_p):
                continue
            if g == 'restarts':
                p_restarts(draw, P, n=n, npt=npt, grow_npt=not use_proj)
            elif g == 'growing':
                if not use_proj:
                    p_growing(draw, P, n, npt)
            elif g == 'regression':
                p_regression(draw, P, random_ok=not use_proj)
            elif g == 'slow':
                p_slow(draw, P)
            elif g == 'noise':
                p_noise(draw, P)
            elif g == 'tol':
                p_tol(draw, P)
            elif g == 'tr':
                p_tr(draw, P)
            elif g == 'init':
                if not use_proj:
                    p_init(draw, P)
            elif g == 'misc':
                p_misc(draw, P)
        if use_proj and chance(draw, 0.3):
            P['dykstra.d_tol'] = pick(draw, 1e-10, 1e-6, 1e-14)
            maybe(draw, P, 'dykstra.max_iters', 0.4, 100, 20, 500)
        if chance(draw, diag):
            P['logging.save_diagnostic_info'] = True
            maybe(draw, P, 'logging.save_poisedness', 0.7, False)
        if chance(draw, has_noise):
            spec['has_noise'] = True
    P['logging.n_to_print_whole_x_vector'] = 0
    spec['params'] = P
    # budget
    w = draw(I(0, 99))
    if w < 12:
        mf = draw(I(1, npt + 2))
    elif w < 35:
        mf = npt + draw(I(0, 12))
    elif w < 88:
        mf = draw(I(npt, max(npt, medium)))
    else:
        mf = draw(I(medium, big))
    spec['maxfun'] = mf
    if chance(draw, avg):
        k = pick(draw, 'const', 'cycle', 'iter', 'runs', 'rho', 'zero')
        ns = dict(kind=k)
        if k in ('const', 'iter', 'runs'):
            ns['v'] = draw(I(1, 4))
        elif k == 'rho':
            ns['v'] = draw(I(2, 6))
        elif k == 'cycle':
            ns['v'] = [draw(I(0, 4)) for _ in range(draw(I(1, 4)))]
        spec['nsamples'] = ns
    if chance(draw, noise):
        sg = pick(draw, 1e-2, 1e-1, 1e-4, 1.0, 1e-6)
        spec['noise'] = dict(kind=pick(draw, 'det', 'call') if call_noise else 'det', sigma=sg,
                             mult=pick(draw, False, True), seed=draw(I(0, 10000)))
    if chance(draw, cliff):
        w_ = [draw(I(-3, 3)) * 1.0 for _ in range(n)]
        if not any(w_):
            w_[0] = 1.0
        spec['cliff'] = dict(w=w_, t=float(np.dot(w_, x0)) + abs(num(draw, 3.0)) * rhobeg,
                             val=pick(draw, 'nan', 'inf', '-inf', '1e200'), j=draw(I(0, 5)))
    if chance(draw, reg):
        rg = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 0.1, 10.0, 1e-3), mode='closure')
        if chance(draw, 0.3):
            rg['c'] = [num(draw, 2.0) for _ in range(n)]
        if chance(draw, 0.4):
            rg['mode'] = 'args'
            if chance(draw, 0.5):
                rg['extra_h'] = ['eh', 2]
                rg['extra_p'] = ['ep', 3.5]
        spec['reg'] = rg
        if not P.get('func_tol.max_iters'):
            P['func_tol.max_iters'] = pick(draw, 10, 40, 25)
        spec['maxfun'] = min(spec['maxfun'], 45)
    spec['rng'] = draw(I(0, 1000))
    return spec
