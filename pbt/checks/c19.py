"""C19: results are reproducible and caller data are never modified."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = ("reproducibility: the three runs made more evaluations than the initial set, or restarted; caller data: the run got past the input checks and at least one "
        "of x0 / bounds had to be changed internally (projected, scaled, shifted) or options were passed")
ASSUMPTIONS = ["options documented as random: init.random_initial_directions, the growing phase (ndirs_initial < npt-1: random new directions), "
               "regression.momentum_extra_steps, restarts.increase_npt, npt > (n+1)(n+2)/2; none of them is enabled in the reproducibility suites",
               "objective functions are functions of the point and of the call number, with the same call numbers in every run"]
SHARED_CORPUS_SUITE = 'callers'


def fingerprint(rec):
    f = [('evaluation %d' % (i + 1), x.tobytes() + (b'' if r is None else r.tobytes())) for i, (x, r) in enumerate(rec.calls)]
    f.append(('number of evaluations', len(rec.calls)))
    f.append(('exception', repr(rec.exc)))
    s = rec.soln
    if s is not None:
        for k in ('x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'xmin_eval_num', 'jacmin_eval_nums'):
            v = getattr(s, k)
            f.append(('soln.' + k, v.tobytes() if isinstance(v, np.ndarray) else repr(v)))
        if s.diagnostic_info is not None:
            for c in s.diagnostic_info.columns:
                f.append(('diagnostic column ' + str(c), repr([np.asarray(v).tolist() if isinstance(v, np.ndarray) else v for v in s.diagnostic_info[c]])))
    return f


def differ(f1, f2):
    for (k1, v1), (k2, v2) in zip(f1, f2):
        if k1 != k2 or v1 != v2:
            return k1 if k1 == k2 else '%s / %s' % (k1, k2)
    return None if len(f1) == len(f2) else 'number of items'


def strip_random(spec):
    P = spec['params']
    n = len(spec['x0'])
    cap = (n + 1) * (n + 2) // 2
    if spec.get('npt') and spec['npt'] > cap:
        spec['npt'] = cap
    for k in list(P):
        if k.startswith('growing.') or k.startswith('init.') or k in ('regression.momentum_extra_steps', 'restarts.increase_npt', 'restarts.increase_npt_amt',
                                                                      'restarts.max_npt', 'restarts.hard.increase_ndirs_initial_amt'):
            del P[k]
    return spec


def run_repro(spec, ctx):
    S_, other = spec['main'], spec['other']
    np.random.seed(spec['s1'])
    a = S.run_spec(S_, log=False, seed_rng=False)
    np.random.seed(spec['s2'])
    np.random.normal(size=spec['burn'])
    b = S.run_spec(S_, log=False, seed_rng=False)
    if other is not None:
        S.run_spec(other, log=False, seed_rng=False)
    else:
        np.random.seed(spec['s1'] + 17)
    c = S.run_spec(S_, log=False, seed_rng=False)
    O.outcome_labels(a, ctx)
    O.spec_labels(S_, ctx)
    if a.nonterm or a.blown or b.nonterm or b.blown or c.nonterm or c.blown:
        if len({(r.nonterm, r.blown) for r in (a, b, c)}) > 1:
            raise Violation('not-reproducible', "one of three identical calls did not terminate")
        return
    fa, fb, fc = fingerprint(a), fingerprint(b), fingerprint(c)
    d = differ(fa, fb)
    if d is not None:
        raise Violation('not-reproducible', "two identical calls differ (global random generator in different states): first difference: %s; %s evaluations and %r / %s and %r"
                        % (d, len(a.calls), a.soln and str(a.soln.msg), len(b.calls), b.soln and str(b.soln.msg)))
    d = differ(fa, fc)
    if d is not None:
        raise Violation('not-reproducible-after-other', "two identical calls differ (another call of solve in between): first difference: %s" % d)
    if other is not None:
        ctx.label('other-solve-between')
    if a.soln is None or O.input_error(a):
        return
    npt = S_.get('npt') or len(S_['x0']) + 1
    ctx.nontrivial(len(a.calls) > npt or a.soln.nruns > 1)


@st.composite
def repro_specs(draw, **kw):
    main = strip_random(draw(gen.solver_specs(groups=('restarts', 'regression', 'slow', 'noise', 'tol', 'tr', 'misc'), group_p=0.3, **kw)))
    other = None
    if chance(draw, 0.5):
        other = draw(gen.solver_specs(medium=15, big=20, reg=0.0))
    return dict(main=main, other=other, s1=draw(I(0, 10 ** 6)), s2=draw(I(0, 10 ** 6)), burn=draw(I(0, 7)))


# ----------------------------------------------------------------------------------------------- caller data
def variant(v, kind):
    """returns (object handed to solve, list of arrays to be watched)"""
    a = np.array(v, dtype=float)
    if kind == 'int' and np.all(a == np.floor(a)) and np.all(np.abs(a) < 1e9):
        a = a.astype(int)
        return a, [a]
    if kind == 'view':
        big = np.zeros(2 * len(a) + 1)
        big[::2][:len(a)] = a
        v = big[::2][:len(a)]
        return v, [big, v]
    if kind == 'readonly':
        a.flags.writeable = False
        return a, [a]
    return a, [a]


def run_callers(spec, ctx):
    if 'main' not in spec:
        spec = dict(main=spec, x0k='plain', bk='plain', pk='dict')
    S_ = spec['main']
    watch = []
    state = {}

    def mutate(kw):
        x0, w = variant(S_['x0'], spec['x0k'])
        watch.extend(('x0', q) for q in w)
        if 'bounds' in kw:
            nb = []
            for name, q in zip(('lower bound', 'upper bound'), kw['bounds']):
                if q is None:
                    nb.append(None)
                    continue
                q, w = variant(q, spec['bk'])
                watch.extend((name, z) for z in w)
                nb.append(q)
            kw['bounds'] = tuple(nb) if spec.get('btuple', True) else nb
            state['bounds'] = kw['bounds']
            state['bounds_items'] = list(nb)
        if S_.get('params') is not None:
            kw['user_params'] = dict(S_['params'])
        elif spec['pk'] == 'empty':
            kw['user_params'] = {}
        state['params'] = kw.get('user_params')
        state['params0'] = copy.deepcopy(kw.get('user_params'))
        state['projs'] = kw.get('projections')
        state['projs0'] = list(kw['projections']) if kw.get('projections') is not None else None
        for i, (name, q) in enumerate(watch):
            watch[i] = (name, q, q.copy(), q.dtype, q.shape, q.flags.writeable)
        return x0
    rec = S.run_spec(S_, log=False, mutate_kw=mutate)
    O.outcome_labels(rec, ctx)
    O.spec_labels(S_, ctx)
    ctx.label('x0:' + spec['x0k'], 'bounds:' + (spec['bk'] if 'bounds' in state else 'none'))
    for name, q, q0, dt, sh, wr in watch:
        if q.dtype != dt or q.shape != sh or q.flags.writeable != wr or q.tobytes() != q0.tobytes():
            raise Violation('caller-data', "%s was %r before the call and is %r after it" % (name, q0.tolist(), q.tolist()))
    if 'bounds' in state:
        b = state['bounds']
        if len(b) != 2 or any(p is not q for p, q in zip(b, state['bounds_items'])):
            raise Violation('caller-bounds', "the bounds sequence itself was changed")
    if state['params'] is not None:
        p, p0 = state['params'], state['params0']
        if list(p) != list(p0) or any(type(p[k]) is not type(p0[k]) or p[k] != p0[k] for k in p0):
            ch = sorted(set(k for k in set(p) | set(p0) if k not in p or k not in p0 or p[k] != p0[k] or type(p[k]) is not type(p0[k])))
            raise Violation('caller-params', "user_params changed during the call: %r" % [(k, p0.get(k, 'absent'), p.get(k, 'absent')) for k in ch])
    if state['projs'] is not None and (len(state['projs']) != len(state['projs0']) or any(p is not q for p, q in zip(state['projs'], state['projs0']))):
        raise Violation('caller-projections', "the list of projections was changed: %d entries before, %d after" % (len(state['projs0']), len(state['projs'])))
    if rec.exc is not None and isinstance(rec.exc, ValueError) and 'read-only' in str(rec.exc):
        raise Violation('caller-data-write', "solve tried to write into a read-only array of the caller: %s" % rec.exc)
    if rec.calls:
        lo, up = S.user_bounds(S_)
        x0 = np.array(S_['x0'], dtype=float)
        moved = bool(np.any((x0 < lo) | (x0 > up))) or bool(S_.get('scaling')) or bool(np.any((x0 - lo < S_['rhobeg']) | (up - x0 < S_['rhobeg']))) if S_.get('rhobeg') else True
        ctx.nontrivial(moved or len(S_.get('params') or {}) > 1)


@st.composite
def caller_specs(draw, **kw):
    main = draw(gen.solver_specs(**kw))
    if chance(draw, 0.2):
        # integer-valued problem data, so that integer arrays can be passed
        main['x0'] = [float(round(v)) for v in main['x0']]
        for k in ('lower', 'upper'):
            if main.get(k) is not None:
                main[k] = [float(np.floor(v) if k == 'lower' else np.ceil(v)) for v in main[k]]
    return dict(main=main, x0k=pick(draw, 'plain', 'readonly', 'view', 'int'), bk=pick(draw, 'plain', 'readonly', 'view', 'int'),
                pk=pick(draw, 'dict', 'empty'), btuple=draw(B))


SUITES = [
    Suite('repro', repro_specs(reg=0.05, cliff=0.05), run_repro, 2500, 120000),
    Suite('repro-reg', repro_specs(reg=1.0, medium=25, big=40), run_repro, 100, 4000),
    Suite('repro-proj', repro_specs(proj=1.0, reg=0.1, medium=25, big=40), run_repro, 100, 4000),
    Suite('callers', caller_specs(reg=0.08, medium=30, big=60), run_callers, 4000, 150000),
    Suite('callers-proj', caller_specs(proj=1.0, reg=0.1, medium=20, big=30), run_callers, 300, 8000),
]
