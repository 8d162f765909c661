"""C07: solve always returns a well-formed result; bad input is reported, not raised."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = ("valid suites: at least one user parameter is set to a non-default in-range value or the run ended other than by success; "
        "invalid suite: the faulty argument was really passed (always)")
ASSUMPTIONS = ["documented parameter types and ranges are transcribed by hand into TABLE",
               "not demanded either way: None or bool passed for an integer, an int passed for a float, parallel initialisation with coordinate "
               "directions, convex constraints with a non-default point set, range end points at which the method is meaningless"]
SHARED_CORPUS_SUITE = 'solve'

CONSTANTS = ('EXIT_SUCCESS', 'EXIT_MAXFUN_WARNING', 'EXIT_SLOW_WARNING', 'EXIT_FALSE_SUCCESS_WARNING', 'EXIT_AUTO_DETECT_RESTART_WARNING',
             'EXIT_TR_INCREASE_WARNING', 'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_EVAL_ERROR')

# key: (type, lower, upper, None allowed, extra in-range values)
TABLE = {
    'general.rounding_error_constant': ('float', 0.0, None, False, (0.1, 1e-3, 1e6)),
    'general.safety_step_thresh': ('float', 0.0, None, False, (0.5, 0.9, 2.0)),
    'general.check_objfun_for_overflow': ('bool',),
    'init.random_initial_directions': ('bool',),
    'init.run_in_parallel': ('bool',),
    'init.random_directions_make_orthogonal': ('bool',),
    'interpolation.precondition': ('bool',),
    'interpolation.throw_error_on_nans': ('bool',),
    'logging.n_to_print_whole_x_vector': ('int', 0, None, False, (6, 1, 100)),
    'logging.save_diagnostic_info': ('bool',),
    'logging.save_poisedness': ('bool',),
    'logging.save_xk': ('bool',),
    'logging.save_rk': ('bool',),
    'tr_radius.eta1': ('float', 0.0, 1.0, False, (0.1, 0.3)),
    'tr_radius.eta2': ('float', 0.0, 1.0, False, (0.7, 0.9)),
    'tr_radius.gamma_dec': ('float', 0.0, 1.0, False, (0.5, 0.98)),
    'tr_radius.gamma_inc': ('float', 1.0, None, False, (2.0, 100.0)),
    'tr_radius.gamma_inc_overline': ('float', 1.0, None, False, (4.0, 1e4)),
    'tr_radius.alpha1': ('float', 0.0, 1.0, False, (0.1, 0.9)),
    'tr_radius.alpha2': ('float', 0.0, 1.0, False, (0.5, 0.95)),
    'model.abs_tol': ('float', 0.0, None, False, (1e-12, 1.0, 1e10)),
    'model.rel_tol': ('float', 0.0, 1.0, False, (1e-20, 0.5)),
    'slow.history_for_slow': ('int', 1, None, False, (5, 2, 50)),
    'slow.thresh_for_slow': ('float', 0.0, None, False, (1e-4, 1.0)),
    'slow.max_slow_iters': ('int', 0, None, False, (1, 20)),
    'noise.quit_on_noise_level': ('bool',),
    'noise.scale_factor_for_quit': ('float', 0.0, None, False, (1.0, 10.0)),
    'noise.multiplicative_noise_level': ('float', 0.0, None, True, (1e-2, 2.0)),
    'noise.additive_noise_level': ('float', 0.0, None, True, (1e-2, 100.0)),
    'regression.num_extra_steps': ('int', 0, None, False, (1, 3, 10)),
    'regression.increase_num_extra_steps_with_restart': ('int', 0, None, False, (1, 3)),
    'regression.momentum_extra_steps': ('bool',),
    'restarts.use_restarts': ('bool',),
    'restarts.max_unsuccessful_restarts': ('int', 0, None, False, (1, 10)),
    'restarts.rhoend_scale': ('float', 0.0, None, False, (1.0, 0.1)),
    'restarts.use_soft_restarts': ('bool',),
    'restarts.soft.num_geom_steps': ('int', 0, None, False, (1, 3, 20)),
    'restarts.soft.move_xk': ('bool',),
    'restarts.soft.max_fake_successful_steps': ('int', 1, None, False, (2, 10)),
    'restarts.hard.use_old_rk': ('bool',),
    'restarts.increase_npt': ('bool',),
    'restarts.increase_npt_amt': ('int', 0, None, False, (1, 3)),
    'restarts.hard.increase_ndirs_initial_amt': ('int', 0, None, False, (1, 2)),
    'restarts.max_npt': ('int', 'npt', None, False, ('npt+1', 'npt+2', 'npt+6')),
    'restarts.auto_detect': ('bool',),
    'restarts.auto_detect.history': ('int', 1, None, False, (2, 3, 30)),
    'restarts.auto_detect.min_chgJ_slope': ('float', 0.0, None, False, (1.5e-2, 10.0)),
    'restarts.auto_detect.min_correl': ('float', 0.0, 1.0, False, (0.1,)),
    'growing.ndirs_initial': ('int', 1, 'npt-1', False, ()),
    'growing.num_new_dirns_each_iter': ('int', 0, None, False, (1, 3)),
    'growing.delta_scale_new_dirns': ('float', 0.0, None, False, (1.0, 0.1, 2.0)),
    'growing.do_geom_steps': ('bool',),
    'growing.reset_delta': ('bool',),
    'growing.reset_rho': ('bool',),
    'growing.gamma_dec': ('float', 0.0, 1.0, False, (0.5, 0.9)),
    'growing.safety.do_safety_step': ('bool',),
    'growing.safety.reduce_delta': ('bool',),
    'growing.safety.full_geom_step': ('bool',),
    'growing.full_rank.use_full_rank_interp': ('bool',),
    'growing.full_rank.scale_factor': ('float', 0.0, None, True, (1e-2,)),
    'growing.full_rank.min_sing_val': ('float', 0.0, 1.0, True, (1e-6, 1e-2)),
    'growing.full_rank.svd_scale_factor': ('float', 0.0, 1.0, True, (0.5,)),
    'growing.full_rank.svd_max_jac_cond': ('float', 1.0, None, True, (1e8, 10.0)),
    'growing.perturb_trust_region_step': ('bool',),
    'dykstra.d_tol': ('float', 0.0, None, False, (1e-10, 1e-4)),
    'dykstra.max_iters': ('int', 1, None, False, (100, 7)),
    'matrix_rank.r_tol': ('float', 0.0, None, False, (1e-18, 1e-10)),
    'func_tol.criticality_measure': ('float', 0.0, 1.0, False, (1e-3, 0.5)),
    'func_tol.tr_step': ('float', 0.0, 1.0, False, (0.9, 0.5)),
    'func_tol.max_iters': ('int', 1, None, False, (20, 50)),
    'sfista.max_iters_scaling': ('float', 1.0, None, False, (2.0,)),
}
KEYS = sorted(TABLE)
GROUPS = {}
for _k in KEYS:
    GROUPS.setdefault(_k.split('.')[0], []).append(_k)


def rng_of(key, npt):
    t = TABLE[key]

    def ev(v):
        return eval(v, {'npt': npt}) if isinstance(v, str) else v
    return ev(t[1]), ev(t[2]), t[3], [ev(v) for v in t[4]]


def draw_inrange(draw, key, npt):
    t = TABLE[key]
    if t[0] == 'bool':
        return draw(B)
    lo, up, none_ok, extra = rng_of(key, npt)
    vals = list(extra) + [lo]
    if up is not None:
        vals.append(up)
    if t[0] == 'int':
        vals.append(lo + 1 if up is None or lo + 1 <= up else lo)
        vals = [v for v in vals if up is None or v <= up]
    else:
        vals.append(lo + 1e-9)
        vals.append(lo + (0.37 * (up - lo) if up is not None else 0.37))
    return draw(st.sampled_from(vals))


def must_accept(spec):
    """True when every argument is inside the documented domain and no documented contradiction is present"""
    P = dict(spec.get('params') or {})
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1

    def g(k, d):
        return P.get(k, d)
    if spec.get('proj'):
        if npt != n + 1 or g('growing.ndirs_initial', npt - 1) != npt - 1 or g('init.random_initial_directions', False) or \
                g('init.run_in_parallel', False) or g('restarts.increase_npt', False):
            return False
        if spec.get('lower') is not None and spec.get('upper') is not None:
            # the gap test for convex constraints is made on the bounds that were replaced by a projection
            pass
    if spec.get('scaling') and spec.get('lower') is not None and spec.get('upper') is not None and \
            np.all(np.isfinite(spec['lower'] + spec['upper'])):
        if (spec.get('rhobeg') or 0.1) > 0.5 or (spec.get('rhoend') or 1e-8) >= (spec.get('rhobeg') or 0.1):
            return False
    elif not spec.get('proj'):
        lo, up = S.user_bounds(spec)
        if not np.min(up - lo) >= 2.0 * (spec.get('rhobeg') or 0.1 * max(np.max(np.abs(spec['x0'])), 1.0)):
            return False
    if npt > (n + 1) * (n + 2) // 2 and not g('init.random_initial_directions', True):
        return False
    if g('init.run_in_parallel', False) and not g('init.random_initial_directions', npt > (n + 1) * (n + 2) // 2):
        return False
    if g('restarts.rhoend_scale', 1.0) <= 0 or g('tr_radius.alpha1', 0.1) >= 1.0 or g('growing.delta_scale_new_dirns', 1.0) <= 0:
        return False
    if g('tr_radius.alpha1', 0.1) <= 0 or g('tr_radius.alpha2', 0.1) <= 0 or g('tr_radius.gamma_dec', 0.5) <= 0 or g('growing.gamma_dec', 0.5) <= 0:
        return False        # meaningless end points: reported or survived
    if g('tr_radius.gamma_dec', 0.5) >= 1 or g('growing.gamma_dec', 0.5) >= 1:
        return False
    if g('dykstra.d_tol', 1) <= 0 or g('func_tol.tr_step', 0.9) >= 1 or g('func_tol.tr_step', 0.9) <= 0 or g('func_tol.criticality_measure', 1e-3) <= 0:
        return False
    if g('tr_radius.eta1', 0.1) > g('tr_radius.eta2', 0.7):
        return False
    if contradictory(P, spec.get('has_noise', False)):
        return False
    return True


def contradictory(P, has_noise):
    g = P.get
    if g('growing.safety.full_geom_step', False) and g('growing.safety.reduce_delta', False):
        return True
    if g('growing.full_rank.use_full_rank_interp', True) and g('growing.perturb_trust_region_step', False):
        return True
    if g('noise.quit_on_noise_level', has_noise) and g('noise.multiplicative_noise_level') is not None and g('noise.additive_noise_level') is not None:
        return True
    if g('growing.reset_rho', False) and not g('growing.reset_delta', False):
        return True
    return False


def check_result(rec, ctx, n):
    """the parts of the statement that hold for every result"""
    s = rec.soln
    vals = {}
    for c in CONSTANTS:
        try:
            vals[c] = getattr(s, c)
        except AttributeError:
            raise Violation('missing-constant', "the results object has no attribute %s" % c)
    if len(set(vals.values())) != len(vals):
        raise Violation('constants-clash', "exit constants are not distinct: %r" % vals)
    if s.flag not in vals.values() or isinstance(s.flag, bool):
        raise Violation('unknown-flag', "flag %r is not a documented exit code; msg %r" % (s.flag, s.msg))
    if not isinstance(s.msg, str) or not s.msg.strip():
        raise Violation('empty-message', "msg = %r" % (s.msg,))
    if s.msg.lower().startswith('unknown'):
        raise Violation('unknown-message', "msg = %r" % (s.msg,))
    try:
        txt = str(s)
    except Exception as e:
        raise Violation('print', "str(soln) raised %s: %s" % (type(e).__name__, e))
    if not isinstance(txt, str) or not txt.strip():
        raise Violation('print', "str(soln) = %r" % (txt,))
    if s.flag == s.EXIT_INPUT_ERROR:
        if len(rec.calls) != 0:
            raise Violation('input-error-evals', "input error (%s) after %d evaluations" % (s.msg, len(rec.calls)))
        if s.nf != 0:
            raise Violation('input-error-nf', "input error with nf = %r" % (s.nf,))
        return
    if len(rec.calls) == 0:
        raise Violation('no-evals', "no evaluations although the input was accepted (%s)" % s.msg)
    if np.shape(s.x) != (n,):
        raise Violation('shape', "soln.x has shape %r" % (np.shape(s.x),))
    m = len(rec.calls[0][1]) if rec.calls[0][1] is not None else None
    if np.ndim(s.resid) != 1 or (m is not None and len(s.resid) != m):
        raise Violation('shape', "soln.resid has shape %r" % (np.shape(s.resid),))
    if s.jacobian is not None and np.shape(s.jacobian) != (m, n):
        raise Violation('shape', "soln.jacobian has shape %r, expected %r" % (np.shape(s.jacobian), (m, n)))
    if s.jacobian is not None and (s.jacmin_eval_nums is None or np.ndim(s.jacmin_eval_nums) != 1):
        raise Violation('shape', "soln.jacmin_eval_nums = %r" % (s.jacmin_eval_nums,))
    float(s.obj)
    for name in ('nf', 'nx', 'nruns'):
        v = getattr(s, name)
        if int(v) != v or v < 1:
            raise Violation('counter', "%s = %r" % (name, v))


def execute(spec, mutate=None, pp=False):
    out = io.StringIO()

    def mut(kw):
        if pp:
            kw['print_progress'] = True
        return mutate(kw) if mutate else None
    with contextlib.redirect_stdout(out):
        rec = S.run_spec(spec, log=bool(spec.get('log', False)), mutate_kw=mut)
    rec.printed = out.getvalue()
    return rec


def common(rec, ctx):
    O.outcome_labels(rec, ctx)
    if rec.exc is not None:
        raise Violation('exception:' + type(rec.exc).__name__, "solve raised %s: %s" % (type(rec.exc).__name__, str(rec.exc)[:300]))
    if rec.nonterm:
        raise Violation('no-termination', "more than %d iterations with %d evaluations; no result" % (rec.iters - 1, len(rec.calls)))


def run_valid(spec, ctx):
    if (spec.get('params') or {}).get('interpolation.throw_error_on_nans') and (spec.get('fault') or spec.get('cliff')):
        ctx.exclude('throw_error_on_nans')
        return
    rec = execute(spec, pp=bool(spec.get('pp')))
    O.spec_labels(spec, ctx)
    if rec.blown:
        return      # budget overrun is C02's business
    common(rec, ctx)
    n = len(spec['x0'])
    check_result(rec, ctx, n)
    s = rec.soln
    if spec.get('pp') and s.flag != s.EXIT_INPUT_ERROR:
        ctx.label('print_progress')
    if s.flag == s.EXIT_INPUT_ERROR:
        ctx.label('rejected')
        if must_accept(spec):
            raise Violation('valid-rejected', "input in the documented domain was rejected: %s" % s.msg)
    P = spec.get('params') or {}
    if contradictory(P, spec.get('has_noise', False)) and s.flag != s.EXIT_INPUT_ERROR:
        raise Violation('contradiction-accepted', "contradictory options accepted: %r" % (P,))
    ctx.nontrivial(len([k for k in P if k != 'logging.n_to_print_whole_x_vector']) > 0 or s.flag != 0)


@st.composite
def param_specs(draw):
    """small problem plus a random choice of documented keys with in-range and boundary values"""
    spec = draw(gen.solver_specs(nmax=3, medium=40, big=60, reg=0.15, proj=0.12, group_p=0.08, restart_p=0.25, avg=0.15))
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1
    P = spec['params']
    P.pop('logging.n_to_print_whole_x_vector', None)
    k = draw(I(1, 5))
    pool = draw(st.sampled_from(['all'] + sorted(GROUPS)))
    pool = KEYS if pool == 'all' else GROUPS[pool] + ['restarts.use_restarts']
    for _ in range(k):
        key = draw(st.sampled_from(pool))
        if key == 'growing.ndirs_initial' and npt < 2:
            continue
        P[key] = draw_inrange(draw, key, npt)
    if P.get('noise.quit_on_noise_level') and P.get('noise.additive_noise_level') is not None and P.get('noise.multiplicative_noise_level') is not None:
        if chance(draw, 0.7):
            del P['noise.additive_noise_level']
    if spec.get('reg') and 'func_tol.max_iters' not in P:
        P['func_tol.max_iters'] = 20
    spec['log'] = draw(B)
    spec['pp'] = chance(draw, 0.3)
    return spec


SWITCHES = ['growing.safety.full_geom_step', 'growing.safety.reduce_delta', 'growing.full_rank.use_full_rank_interp',
            'growing.perturb_trust_region_step', 'noise.quit_on_noise_level', 'growing.reset_rho', 'growing.reset_delta',
            'init.run_in_parallel', 'init.random_initial_directions', 'growing.do_geom_steps', 'growing.safety.do_safety_step',
            'restarts.use_restarts', 'restarts.use_soft_restarts', 'restarts.increase_npt', 'logging.save_diagnostic_info']


@st.composite
def switch_specs(draw):
    """all combinations of the switches that can contradict each other, tiny budgets"""
    n = draw(I(1, 3))
    spec = dict(x0=[num(draw, 2.0) for _ in range(n)], lower=None, upper=None, rhobeg=0.5, rhoend=1e-3, maxfun=draw(I(1, 8)))
    spec['obj'] = gen.draw_objective(draw, n, gen.FAMS, 4)
    spec['has_noise'] = chance(draw, 0.3)
    P = {}
    for k in SWITCHES:
        w = draw(I(0, 2))
        if w:
            P[k] = w == 2
    for k in ('noise.multiplicative_noise_level', 'noise.additive_noise_level'):
        if draw(B):
            P[k] = pick(draw, 0.0, None, 0.1, 1e-3, 2.0)
    spec['params'] = P
    spec['log'] = False
    return spec


@st.composite
def box_specs(draw):
    """argument grid: every combination of optional arguments, exact gap 2*rhobeg, defaults for everything else"""
    n = draw(I(1, 4))
    spec = dict(x0=[num(draw, pick(draw, 1.0, 10.0, 1e-3)) for _ in range(n)])
    spec['obj'] = gen.draw_objective(draw, n, gen.FAMS, 5)
    rb = pick(draw, None, 0.1, 0.5, 1.0, 2.0)
    if rb is not None:
        spec['rhobeg'] = rb
    re_ = pick(draw, None, 1e-3, 1e-8, 'hair')
    if re_ == 'hair':
        re_ = float(np.nextafter(rb, 0)) if rb is not None else None
    if re_ is not None:
        spec['rhoend'] = re_
    eff = rb if rb is not None else 0.1 * max(np.max(np.abs(spec['x0'])), 1.0)
    kind = pick(draw, 'none', 'both', 'lower', 'upper', 'inf', 'mixed')
    scal = chance(draw, 0.3)
    lo = [v - eff * pick(draw, 1.0, 0.0, 2.0, -0.5) for v in spec['x0']]
    up = []
    for l in lo:
        u = l + 2.0 * eff
        while u - l < 2.0 * eff:
            u = float(np.nextafter(u, np.inf))
        up.append(u if chance(draw, 0.5) else u + 3.0)
    if kind == 'inf':
        lo = [-math.inf] * n
        up = [math.inf] * n
    elif kind == 'mixed':
        lo = [(-math.inf if chance(draw, 0.4) else v) for v in lo]
        up = [(math.inf if chance(draw, 0.4) else v) for v in up]
    spec['lower'] = lo if kind in ('both', 'lower', 'inf', 'mixed') else None
    spec['upper'] = up if kind in ('both', 'upper', 'inf', 'mixed') else None
    if scal:
        spec['scaling'] = True
        if kind == 'both' and rb is not None and rb > 0.5:
            spec['rhobeg'] = 0.5
            if re_ is not None and re_ >= 0.5:
                spec['rhoend'] = 1e-3
        elif kind == 'both' and rb is None and re_ is not None and re_ >= 0.1:
            spec['rhoend'] = 1e-3
    if chance(draw, 0.3):
        spec['npt'] = draw(I(n + 1, (n + 1) * (n + 2) // 2 + 2))
    spec['maxfun'] = pick(draw, None, 1, 2, 30, 5, 80)
    spec['has_noise'] = chance(draw, 0.2)
    if chance(draw, 0.3):
        spec['params'] = {}
    if chance(draw, 0.2):
        spec['nsamples'] = dict(kind='const', v=draw(I(0, 3)))
    if chance(draw, 0.15):
        rg = dict(kind=pick(draw, 'l1', 'l2'), lam=pick(draw, 1.0, 0.1), mode=pick(draw, 'closure', 'args'))
        spec['reg'] = rg
        spec['params'] = {'func_tol.max_iters': 15}
        spec['maxfun'] = 20
    spec['log'] = draw(B)
    spec['pp'] = chance(draw, 0.2)
    return spec


# ------------------------------------------------------------------------------------------------ invalid input
WRONG = {'int': ['three', 2.5, [1], (), {}], 'float': ['0.5', [0.1], (), {}, 1j], 'bool': ['True', 1.5, [], 'yes']}


def draw_fault(draw, spec):
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1
    cat = pick(draw, 'param-range', 'param-type', 'radius', 'npt', 'bounds', 'reg', 'contra', 'maxfun', 'x0', 'param-none')
    if cat in ('param-range', 'param-type', 'param-none'):
        while True:
            key = draw(st.sampled_from(KEYS))
            t = TABLE[key]
            if cat == 'param-type':
                return dict(kind='param', key=key, val=draw(I(0, len(WRONG[t[0]]) - 1)), wrong=t[0])
            if cat == 'param-none':
                return dict(kind='param', key=key, val='object', wrong='object')
            if t[0] == 'bool':
                continue
            lo, up, none_ok, extra = rng_of(key, npt)
            opts = []
            if t[0] == 'int':
                opts += [lo - 1, lo - 7]
                if up is not None:
                    opts += [up + 1, up + 5]
            else:
                opts += [float(np.nextafter(lo, -np.inf)) if lo != 0 else -1e-9, lo - 1.0, 'nan', '-inf']
                if up is not None:
                    opts += [float(np.nextafter(up, np.inf)), up + 1.0, 'inf']
            return dict(kind='param', key=key, val=draw(st.sampled_from(opts)))
    if cat == 'radius':
        return dict(kind='radius', how=pick(draw, 'rhobeg0', 'rhobeg-', 'rhobegnan', 'rhoend0', 'rhoend-', 'rhoendnan', 'equal', 'swapped', 'rhobeg-inf', 'hair'))
    if cat == 'npt':
        return dict(kind='npt', val=n + 1 - draw(I(1, n + 3)))
    if cat == 'maxfun':
        return dict(kind='maxfun', val=-draw(I(0, 5)))
    if cat == 'bounds':
        f = dict(kind='bounds', how=pick(draw, 'narrow', 'hair', 'equal', 'inverted', 'nan', 'short', 'long', 'matrix', 'onenarrow'), i=draw(I(0, n - 1)))
        if f['how'] in ('equal', 'inverted', 'nan', 'short', 'long'):
            f['keep'] = pick(draw, '', 'scaling', 'given', 'ball' if f['how'] != 'equal' else '')
        return f
    if cat == 'reg':
        return dict(kind='reg', how=pick(draw, 'noprox', 'nolh', 'lh0', 'lh-', 'lhnan', 'neither'))
    if cat == 'x0':
        return dict(kind='x0', how=pick(draw, 'column', 'matrix'))
    return dict(kind='contra', how=draw(I(0, 3)))


@st.composite
def invalid_specs(draw):
    spec = draw(gen.solver_specs(nmax=3, medium=30, big=40, reg=0.1, proj=0.1, group_p=0.1, restart_p=0.2))
    if spec.get('reg'):
        spec['params']['func_tol.max_iters'] = 10
    spec['bad'] = draw_fault(draw, spec)
    if chance(draw, 0.15):
        spec['bad2'] = draw_fault(draw, spec)
    return spec


CONTRA = [
    {'growing.safety.full_geom_step': True, 'growing.safety.reduce_delta': True},
    {'growing.full_rank.use_full_rank_interp': True, 'growing.perturb_trust_region_step': True},
    {'noise.quit_on_noise_level': True, 'noise.multiplicative_noise_level': 0.1, 'noise.additive_noise_level': 0.1},
    {'growing.reset_rho': True, 'growing.reset_delta': False},
]


def apply_fault(f, kw, spec, x0):
    """returns replacement x0 or None"""
    n = len(spec['x0'])
    P = kw.setdefault('user_params', {})
    rb = kw.get('rhobeg')
    if f['kind'] == 'param':
        v = f['val']
        if f.get('wrong') == 'object':
            v = object()
        elif f.get('wrong'):
            v = WRONG[f['wrong']][v]
        elif isinstance(v, str):
            v = float(v)
        P[f['key']] = v
    elif f['kind'] == 'radius':
        h = f['how']
        if h.startswith('rhobeg'):
            kw['rhobeg'] = {'rhobeg0': 0.0, 'rhobeg-': -0.1, 'rhobegnan': math.nan, 'rhobeg-inf': -math.inf}[h]
        elif h.startswith('rhoend'):
            kw['rhoend'] = {'rhoend0': 0.0, 'rhoend-': -1e-8, 'rhoendnan': math.nan}[h]
        elif h == 'equal':
            kw['rhoend'] = kw['rhobeg']
        elif h == 'swapped':
            kw['rhobeg'], kw['rhoend'] = min(kw['rhobeg'], kw['rhoend']), max(kw['rhobeg'], kw['rhoend'])
        else:
            kw['rhoend'] = float(np.nextafter(kw['rhobeg'], np.inf))
    elif f['kind'] == 'npt':
        kw['npt'] = f['val']
    elif f['kind'] == 'maxfun':
        kw['maxfun'] = f['val']
    elif f['kind'] == 'bounds':
        keep = f.get('keep', '')
        if keep != 'given' or f['how'] == 'equal':
            kw.pop('projections', None)
        if keep != 'given':
            kw.pop('scaling_within_bounds', None)
        if keep == 'scaling':
            kw['scaling_within_bounds'] = True
        elif keep == 'ball':
            kw['projections'] = [S.make_set(dict(kind='ball', c=[float(v) for v in x0], r=2.0 * rb))[0]]
        i = f['i']
        lo = np.array(x0, dtype=float) - 2 * rb
        up = np.array(x0, dtype=float) + 2 * rb
        h = f['how']
        if h == 'narrow':
            up = lo + 1.9 * rb
        elif h == 'onenarrow':
            up[i] = lo[i] + 1.5 * rb
        elif h == 'hair':
            lo[i], up[i] = 0.0, float(np.nextafter(2.0 * rb, 0.0))
        elif h == 'equal':
            up[i] = lo[i]
        elif h == 'inverted':
            lo[i], up[i] = up[i], lo[i]
        elif h == 'nan':
            (lo if i % 2 else up)[i] = math.nan
        elif h == 'short':
            lo = lo[:-1]
        elif h == 'long':
            up = np.append(up, 1.0)
        elif h == 'matrix':
            lo = lo.reshape((n, 1))
        kw['bounds'] = (lo, up)
    elif f['kind'] == 'reg':
        r = S.Reg(dict(kind='l1', lam=1.0), n)
        k = r.kwargs()
        kw.pop('argsh', None)
        kw.pop('argsprox', None)
        h = f['how']
        if h in ('noprox', 'neither'):
            k['prox_uh'] = None
        if h in ('nolh', 'neither'):
            k['lh'] = None
        if h == 'lh0':
            k['lh'] = 0.0
        if h == 'lh-':
            k['lh'] = -1.0
        if h == 'lhnan':
            k['lh'] = math.nan
        kw.update(k)
    elif f['kind'] == 'contra':
        P.update(CONTRA[f['how']])
    elif f['kind'] == 'x0':
        return np.array(x0, dtype=float).reshape((-1, 1)) if f['how'] == 'column' else np.ones((n, 2))
    return None


def run_invalid(spec, ctx):
    x0 = np.array(spec['x0'], dtype=float)
    repl = []

    def mut(kw):
        out = None
        for key in ('bad', 'bad2'):
            if spec.get(key):
                r = apply_fault(spec[key], kw, spec, x0)
                out = r if r is not None else out
        repl.append(kw)
        return out
    f = spec['bad']
    two = spec.get('bad2')
    # a second fault may undo the first one (e.g. both set rhobeg)
    if two and (two['kind'] == f['kind'] or {two['kind'], f['kind']} & {'radius', 'bounds', 'npt', 'contra', 'x0'}):
        spec = dict(spec)
        spec.pop('bad2')
        two = None
    if f['kind'] == 'bounds' and spec.get('rhobeg') is None:
        return
    rec = execute(spec, mut)
    ctx.label('bad:' + f['kind'] + (':' + str(f.get('how')) if f.get('how') is not None and f['kind'] != 'contra' else ''))
    if rec.exc is not None:
        raise Violation('raised:' + f['kind'], "invalid input %r raised %s: %s" % (f, type(rec.exc).__name__, str(rec.exc)[:300]))
    if rec.nonterm or rec.blown:
        raise Violation('accepted:' + f['kind'], "invalid input %r was accepted" % (f,))
    check_result(rec, ctx, len(spec['x0']))
    if rec.soln.flag != rec.soln.EXIT_INPUT_ERROR:
        raise Violation('accepted:' + f['kind'], "invalid input %r was accepted: flag %r %s, %d evaluations" % (f, rec.soln.flag, rec.soln.msg, len(rec.calls)))
    ctx.nontrivial()


@st.composite
def unknown_specs(draw):
    spec = draw(gen.solver_specs(nmax=2, medium=10, big=12, reg=0.0, proj=0.1))
    key = draw(st.sampled_from(KEYS))
    how = pick(draw, 'suffix', 'upper', 'drop', 'random', 'space', 'empty', 'group')
    if how == 'suffix':
        key += draw(st.sampled_from(['s', '_', '.x']))
    elif how == 'upper':
        key = key.upper()
    elif how == 'drop':
        i = draw(I(0, len(key) - 1))
        key = key[:i] + key[i + 1:]
    elif how == 'space':
        key = ' ' + key
    elif how == 'empty':
        key = ''
    elif how == 'group':
        key = key.split('.')[0]
    else:
        key = draw(st.text(max_size=12))
    spec['unknown'] = key
    spec['uval'] = pick(draw, 1, 0.5, True, 'a')
    spec['first'] = draw(B)
    if chance(draw, 0.2):
        spec['bad'] = dict(kind='npt', val=1)
    return spec


def run_unknown(spec, ctx):
    if spec['unknown'] in TABLE:
        return

    def mut(kw):
        old = dict(kw.get('user_params') or {})
        new = {spec['unknown']: spec['uval']}
        kw['user_params'] = dict(list(new.items()) + list(old.items())) if spec['first'] else dict(list(old.items()) + list(new.items()))
        if spec.get('bad'):
            return apply_fault(spec['bad'], kw, spec, np.array(spec['x0']))
    rec = execute(spec, mut)
    if not isinstance(rec.exc, ValueError):
        raise Violation('unknown-key', "unknown parameter %r: expected ValueError, got %s" % (spec['unknown'], type(rec.exc).__name__ if rec.exc else 'result ' + str(rec.soln.msg if rec.soln else None)))
    if rec.calls:
        raise Violation('unknown-key-evals', "%d evaluations before ValueError" % len(rec.calls))
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ systematic sweep
def all_faults(n, npt):
    out = []
    for key in KEYS:
        t = TABLE[key]
        out += [dict(kind='param', key=key, val=i, wrong=t[0]) for i in range(len(WRONG[t[0]]))]
        out.append(dict(kind='param', key=key, val='object', wrong='object'))
        if t[0] == 'bool':
            continue
        lo, up, none_ok, extra = rng_of(key, npt)
        if t[0] == 'int':
            vals = [lo - 1, lo - 7] + ([up + 1, up + 5] if up is not None else [])
        else:
            vals = [float(np.nextafter(lo, -np.inf)) if lo != 0 else -1e-9, lo - 1.0, 'nan', '-inf']
            vals += [float(np.nextafter(up, np.inf)), up + 1.0, 'inf'] if up is not None else []
        out += [dict(kind='param', key=key, val=v) for v in vals]
    out += [dict(kind='radius', how=h) for h in ('rhobeg0', 'rhobeg-', 'rhobegnan', 'rhoend0', 'rhoend-', 'rhoendnan', 'equal', 'swapped', 'rhobeg-inf', 'hair')]
    out += [dict(kind='npt', val=v) for v in range(-1, n + 1)]
    out += [dict(kind='maxfun', val=v) for v in (0, -1, -5)]
    out += [dict(kind='bounds', how=h, i=i) for h in ('narrow', 'hair', 'equal', 'inverted', 'nan', 'short', 'long', 'matrix', 'onenarrow') for i in range(n)]
    out += [dict(kind='bounds', how=h, i=i, keep=k) for h in ('equal', 'inverted', 'nan', 'short', 'long') for k in ('scaling', 'ball') for i in range(n)
            if (h, k) != ('equal', 'ball')]
    out += [dict(kind='reg', how=h) for h in ('noprox', 'nolh', 'lh0', 'lh-', 'lhnan', 'neither')]
    out += [dict(kind='x0', how=h) for h in ('column', 'matrix')]
    out += [dict(kind='contra', how=i) for i in range(len(CONTRA))]
    return out


def run_sweep(spec, ctx):
    """every single fault, and every key alone at each of its in-range and boundary values, on one small problem"""
    n = len(spec['x0'])
    npt = spec.get('npt') or n + 1
    for f in all_faults(n, npt):
        sp = S.clone(spec)
        sp['bad'] = f
        run_invalid(sp, ctx)
    for key in KEYS:
        t = TABLE[key]
        if t[0] == 'bool':
            vals = [True, False]
        else:
            lo, up, none_ok, extra = rng_of(key, npt)
            vals = list(extra) + [lo] + ([up] if up is not None else []) + ([None] if none_ok else [])
        for v in vals:
            sp = S.clone(spec)
            sp['params'][key] = v
            try:
                run_valid(sp, ctx)
            except Violation as e:
                raise Violation(e.sig, "%s = %r alone: %s" % (key, v, e.msg))
    # printing: few/many residuals, small/large Jacobian, each with and without a model at the end
    for m in (1, 99, 100, 101, 250):
        for maxfun in (1, 2, npt - 1, npt + 2):
            for diag in (False, True):
                sp = S.clone(spec)
                sp['obj'] = dict(fam='lin', q=1.0, s=1.0, A=[[float((3 * i + 5 * j) % 7 - 3 + (i % n == j)) for j in range(n)] for i in range(m)],
                                 b=[float(i % 5) + 0.25 for i in range(m)])
                sp['maxfun'] = max(1, maxfun)
                if diag:
                    sp['params'].update({'logging.save_diagnostic_info': True, 'logging.save_xk': True, 'logging.save_rk': True})
                try:
                    run_valid(sp, ctx)
                except Violation as e:
                    raise Violation(e.sig, "%d residuals, maxfun = %d: %s" % (m, sp['maxfun'], e.msg))
    ctx.nontrivial()


@st.composite
def sweep_specs(draw):
    n = draw(I(1, 3))
    spec = dict(x0=[num(draw, 2.0) for _ in range(n)], rhobeg=0.5, rhoend=1e-3, maxfun=draw(I(n + 3, 12)), params={}, log=False)
    spec['lower'] = spec['upper'] = None
    if draw(B):
        spec['lower'] = [v - 1.0 for v in spec['x0']]
        spec['upper'] = [v + 3.0 for v in spec['x0']]
    spec['obj'] = gen.draw_objective(draw, n, gen.FAMS, 4)
    if chance(draw, 0.3):
        spec['npt'] = draw(I(n + 1, 2 * n + 1 if n > 1 else 3))
    spec['has_noise'] = chance(draw, 0.3)
    return spec


SUITES = [
    Suite('sweep', sweep_specs(), run_sweep, 24, 400, case_limit_s=120),
    Suite('params', param_specs(), run_valid, 4000, 300000),
    Suite('solve', gen.solver_specs(reg=0.06, proj=0.06, cliff=0.05, nmax=5), run_valid, 1800, 150000),
    Suite('switches', switch_specs(), run_valid, 2500, 150000),
    Suite('args', box_specs(), run_valid, 2000, 100000),
    Suite('invalid', invalid_specs(), run_invalid, 3000, 100000),
    Suite('unknown', unknown_specs(), run_unknown, 600, 10000),
]
