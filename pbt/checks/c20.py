"""C20: results survive a JSON round trip and always print."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from .. import boot  # noqa: F401
import dfols
from ..engine import Suite, Violation
from .. import gen, spec as S, oracle as O
from ..gen import I, B, num, pick, chance

LEVEL = 'exploration'
RULE = ("solver cases: the result carries a solution and has a diagnostic table, a NaN or infinite entry, no Jacobian, or at least two runs; synthetic results: at "
        "least one of these, or sizes beyond a printing threshold")
ASSUMPTIONS = ["'None mapped back to NaN' holds for numeric data; missing iter_type entries (text column) may come back as None or NaN",
               "numeric table entries that are None in the original (iteration not completed) count as NaN",
               "without NaN replacement Python's json (NaN and Infinity literals) must round-trip",
               "synthetic results use values solve can produce: float arrays, integer counters, documented flags, the table columns of the solver"]
SHARED_CORPUS_SUITE = 'solve'
SCAL = ('nf', 'nx', 'nruns', 'flag', 'xmin_eval_num')


def veq(a, b):
    """exact equality of two numbers, None and NaN identified"""
    an = a is None or (isinstance(a, (float, np.floating)) and math.isnan(a))
    bn = b is None or (isinstance(b, (float, np.floating)) and math.isnan(b))
    if an or bn:
        return an and bn
    return a == b and (a != 0 or not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, float(b)))


def arr_eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind == 'f':
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)))) and bool(np.all(np.signbit(a[~np.isnan(a)]) == np.signbit(b[~np.isnan(b)])))
    return bool(np.array_equal(a, b))


def check_result(s, replace, what):
    t0 = str(s)
    if not isinstance(t0, str) or not t0:
        raise Violation('str', what + "str() gives %r" % (t0,))
    before = {k: None if getattr(s, k) is None else np.array(getattr(s, k), copy=True) for k in ('x', 'resid', 'jacobian', 'jacmin_eval_nums')}
    try:
        d = s.to_dict() if replace is None else s.to_dict(replace_nan=replace)
    except Exception as e:
        raise Violation('to-dict', what + "to_dict: %s: %s" % (type(e).__name__, e))
    try:
        if replace is False:
            text = json.dumps(d)
        else:
            text = json.dumps(d, allow_nan=False)
    except Exception as e:
        raise Violation('not-serialisable', what + "json.dumps%s: %s: %s" % ('' if replace is False else ' (strict)', type(e).__name__, e))
    try:
        q = dfols.OptimResults.from_dict(json.loads(text))
    except Exception as e:
        raise Violation('from-dict', what + "from_dict: %s: %s" % (type(e).__name__, e))
    for k in ('x', 'resid', 'jacobian', 'jacmin_eval_nums'):
        if not arr_eq(before[k], getattr(s, k)):
            raise Violation('changed-original', what + "to_dict changed %s of the original" % k)
        if not arr_eq(getattr(s, k), getattr(q, k)):
            raise Violation('field', what + "%s = %r comes back as %r" % (k, None if getattr(s, k) is None else np.asarray(getattr(s, k)).tolist(), None if getattr(q, k) is None else np.asarray(getattr(q, k)).tolist()))
    if not veq(float(s.obj), q.obj):
        raise Violation('field', what + "obj = %r comes back as %r" % (s.obj, q.obj))
    for k in SCAL:
        if not veq(getattr(s, k), getattr(q, k)):
            raise Violation('field', what + "%s = %r comes back as %r" % (k, getattr(s, k), getattr(q, k)))
    if q.msg != s.msg:
        raise Violation('field', what + "msg = %r comes back as %r" % (s.msg, q.msg))
    check_table(s.diagnostic_info, q.diagnostic_info, what)
    try:
        t1 = str(q)
    except Exception as e:
        raise Violation('str-reloaded', what + "str() of the reloaded result: %s: %s" % (type(e).__name__, e))
    if t1 != t0 or str(s) != t0:
        raise Violation('str-differs', what + "str() differs:\n%s\n%s" % (t0, t1))
    return q


def check_table(a, b, what):
    if a is None or b is None:
        if a is not b:
            raise Violation('table', what + "diagnostic table %s comes back as %s" % ('None' if a is None else 'present', 'None' if b is None else 'present'))
        return
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        raise Violation('table', what + "table of %d rows and columns %r comes back with %d rows and columns %r" % (len(a), list(a.columns), len(b), list(b.columns)))
    if [int(v) for v in a.index] != [int(v) if str(v).lstrip('-').isdigit() else v for v in b.index] or (len(a) and not all(isinstance(v, (int, np.integer)) for v in b.index)):
        raise Violation('table', what + "row labels %r come back as %r" % (list(a.index)[:5], list(b.index)[:5]))
    for c in a.columns:
        for i in range(len(a)):
            u, v = a[c].iloc[i], b[c].iloc[i]
            if c in ('xk', 'rk'):
                ok = v is not None and not isinstance(v, float) and arr_eq(np.asarray(u, dtype=float), np.asarray(v, dtype=float))
            else:
                ok = veq(u, v)
            if not ok:
                raise Violation('table-entry', what + "table entry %s[%d] = %r comes back as %r" % (c, i, u, v))


def run_solver(spec, ctx):
    if 'main' not in spec:
        m = S.clone(spec)
        m['params'] = dict(m.get('params') or {})
        m['params']['logging.save_diagnostic_info'] = True
        spec = dict(main=m, replace=None)
    rec = S.run_spec(spec['main'], log=False)
    O.outcome_labels(rec, ctx)
    s = rec.soln
    if s is None:
        return
    if O.input_error(rec):
        str(s)
        return
    q = check_result(s, spec['replace'], '')
    check_result(q, spec['replace'], 'second round trip: ')
    P = spec['main']['params']
    tags = []
    if s.diagnostic_info is not None:
        tags.append('table' if len(s.diagnostic_info) else 'empty-table')
        if P.get('logging.save_xk') or P.get('logging.save_rk'):
            tags.append('table-with-xk/rk')
        if len(s.diagnostic_info) and s.diagnostic_info.isnull().any().any():
            tags.append('table-with-missing')
    if s.jacobian is None:
        tags.append('no-jacobian')
    if not np.all(np.isfinite(np.asarray(s.resid))) or not math.isfinite(s.obj):
        tags.append('non-finite-solution')
    if s.nruns > 1:
        tags.append('several-runs')
    ctx.label(*tags)
    ctx.label('replace_nan:%s' % spec['replace'])
    ctx.nontrivial(bool(tags))


@st.composite
def solve_specs(draw):
    m = draw(gen.solver_specs(diag=0.6, cliff=0.12, medium=25, big=50, reg=0.06))
    P = m['params']
    if P.get('logging.save_diagnostic_info'):
        if draw(B):
            P['logging.save_xk'] = True
        if draw(B):
            P['logging.save_rk'] = True
    if chance(draw, 0.2):
        m['fault'] = dict(kind=pick(draw, 'nan', 'inf', '-inf', '1e200'), k=draw(I(1, 12)), whole=draw(B), all_after=draw(B), j=draw(I(0, 3)))
        if chance(draw, 0.4):
            P['interpolation.throw_error_on_nans'] = False
    if chance(draw, 0.08):
        m['obj']['s'] = pick(draw, 1e-200, 1e150, 1e-160)
    return dict(main=m, replace=pick(draw, None, True, False))


# ----------------------------------------------------------------------------------------------- synthetic results
SPECIALS = [0.0, -0.0, 1.0, -1.0, 1e-320, 5e-324, 1.7976931348623157e308, 0.1, 1e16, 1e22, 123456789.123456789, 2.0 ** 53, float('nan'), float('inf'), float('-inf')]


def f_of(code):
    return SPECIALS[code[1]] if code[0] else code[1]


@st.composite
def synth_specs(draw):
    spf = draw(I(0, 3))

    def fl():
        if spf and draw(I(0, 9)) < spf:
            return [1, draw(I(0, len(SPECIALS) - 1))]
        return [0, draw(I(-10 ** 9, 10 ** 9)) * 10.0 ** draw(I(-20, 8))]
    n = pick(draw, 1, 2, 3, 5, 20, 30)
    m = pick(draw, 1, 2, 4, 9, 99, 100, 101)
    if n * m > 300:
        m = pick(draw, 1, 6, 7, 10)
    spec = dict(n=n, m=m, x=[fl() for _ in range(n)], resid=[fl() for _ in range(m)], obj=fl(), flag=draw(I(-4, 5)), msg=pick(draw, 'Success: Objective is sufficiently small',
                'Warning (max evals): Objective has been called MAXFUN times', 'x "quoted" \\ \u00e9\n'), nf=draw(I(1, 10 ** 6)), nx=draw(I(1, 10 ** 6)), nruns=draw(I(1, 12)),
                xmin=draw(I(1, 10 ** 6)), replace=pick(draw, None, True, False))
    if draw(B):
        spec['jac'] = [fl() for _ in range(min(n * m, 40))]
    if draw(B):
        spec['jacnums'] = [draw(I(0, 500)) for _ in range(pick(draw, n + 1, 2 * n + 1, 99, 100, 120))]
    w = draw(I(0, 3))
    if w:
        R = draw(I(0, 4)) if w < 3 else draw(I(9, 12))
        spec['rows'] = [[fl() for _ in range(11)] for _ in range(R)]
        spec['miss'] = draw(I(0, 3))
        spec['xk'], spec['rk'] = draw(B), draw(B)
        spec['np_types'] = draw(B)
    return spec


def run_synth(spec, ctx):
    from dfols.diagnostic_info import DiagnosticInfo
    n, m = spec['n'], spec['m']
    x = np.array([f_of(c) for c in spec['x']], dtype=float)
    resid = np.array([f_of(c) for c in spec['resid']], dtype=float)
    jac = None
    if spec.get('jac') is not None:
        v = np.array([f_of(c) for c in spec['jac']], dtype=float)
        jac = np.resize(v, (m, n))
    nums = np.array(spec['jacnums'], dtype=int) if spec.get('jacnums') is not None else None
    s = dfols.OptimResults(x, resid, np.float64(f_of(spec['obj'])), jac, spec['nf'], spec['nx'], spec['nruns'], spec['flag'], spec['msg'], np.int64(spec['xmin']), nums)
    if s.flag == s.EXIT_INPUT_ERROR:
        str(s)
        return
    if spec.get('rows') is not None:
        di = DiagnosticInfo()
        R = len(spec['rows'])
        ints = ('nruns', 'nf', 'nx', 'npt', 'nsamples', 'iter_this_run', 'iters_total', 'slow_iter')
        floats = [k for k in di.data if k not in ints and k not in ('xk', 'rk', 'iter_type')]
        for i, row in enumerate(spec['rows']):
            vals = [f_of(c) for c in row]
            last = i == R - 1
            for j, k in enumerate(floats):
                v = vals[j % len(vals)]
                if spec['miss'] == 1 and last and k in ('ratio', 'slow_iter'):
                    v = None
                elif spec['miss'] == 2 and k in ('ratio',):
                    v = None
                elif spec['np_types']:
                    v = np.float64(v)
                di.data[k].append(v)
            for k in ints:
                v = (i * 7 + len(k)) % 13
                di.data[k].append(None if k == 'slow_iter' and (spec['miss'] == 2 or (spec['miss'] == 1 and last)) else np.int64(v) if spec['np_types'] else v)
            di.data['iter_type'].append(None if spec['miss'] == 2 or (spec['miss'] == 1 and last) else 'Safety')
            di.data['xk'].append(x + i)
            di.data['rk'].append(resid.copy())
        s.diagnostic_info = di.to_dataframe(with_xk=spec['xk'], with_rk=spec['rk'])
    q = check_result(s, spec['replace'], '')
    check_result(q, spec['replace'], 'second round trip: ')
    tags = []
    if s.diagnostic_info is not None:
        tags.append('table')
    if jac is None:
        tags.append('no-jacobian')
    elif jac.size >= 200:
        tags.append('long-jacobian')
    if m >= 100:
        tags.append('long-residual')
    if nums is not None and len(nums) >= 100:
        tags.append('long-jacnums')
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(resid)) and np.isfinite(s.obj)):
        tags.append('non-finite')
    ctx.label(*tags)
    ctx.nontrivial(bool(tags))


SUITES = [
    Suite('solve', solve_specs(), run_solver, 5000, 200000),
    Suite('synthetic', synth_specs(), run_synth, 6000, 300000),
]
