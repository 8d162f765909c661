"""Interpretation of solver-level specs: plain JSON -> call of dfols.solve with recording wrappers."""
import copy
import hashlib
import logging
import math
import re
import struct
import warnings

from . import boot  # noqa: F401
import numpy as np
import dfols
from dfols import solve


class ObjFault(Exception):
    """Raised from inside the user's residual function (fault kind 'raise')."""


EXCEPTIONS = {c.__name__: c for c in (ValueError, TypeError, OverflowError, ZeroDivisionError, FloatingPointError, ArithmeticError, np.linalg.LinAlgError,
                                      RuntimeError, KeyError, IndexError, AttributeError, AssertionError, NotImplementedError, StopIteration,
                                      MemoryError, OSError, UserWarning, KeyboardInterrupt, SystemExit, GeneratorExit)}


class NonTermination(BaseException):
    """The solver performed far more main-loop iterations than its evaluation budget can explain."""


class BudgetBlown(BaseException):
    """objfun was called more often than maxfun + slack; the run is cut short so that it terminates."""


# ----------------------------------------------------------------------------------------------- objective
def _u(seed, k, j):
    """deterministic uniform(-1, 1) from integers"""
    h = hashlib.md5(struct.pack('<qqq', int(seed), int(k), int(j))).digest()
    return struct.unpack('<Q', h[:8])[0] / 2.0 ** 63 - 1.0


def _ux(seed, xb, j):
    h = hashlib.md5(struct.pack('<qq', int(seed), int(j)) + xb).digest()
    return struct.unpack('<Q', h[:8])[0] / 2.0 ** 63 - 1.0


def base_residual(ob, n):
    fam = ob['fam']
    s = float(ob.get('s', 1.0))
    q = float(ob.get('q', 1.0))
    if fam == 'rosen':
        def f(x):
            if len(x) == 1:
                return s * np.array([10.0 * (1.0 - x[0] ** 2) * q, 1.0 - x[0]])
            out = []
            for i in range(len(x) - 1):
                out += [10.0 * q * (x[i + 1] - x[i] ** 2), 1.0 - x[i]]
            return s * np.array(out)
        return f
    A = np.array(ob['A'], dtype=float).reshape((-1, n))
    b = np.array(ob['b'], dtype=float)
    if fam == 'lin':
        return lambda x: s * (A @ x - b)
    if fam == 'quad':
        def f(x):
            t = A @ x - b
            return s * (t + 0.3 * q * t * t)
        return f
    if fam == 'exp':
        return lambda x: s * (np.exp(np.clip(0.5 * (A @ x), -30, 30)) - b)
    if fam == 'sin':
        def f(x):
            t = A @ x
            return s * (t - b + q * np.sin(3.0 * t))
        return f
    if fam == 'const':
        return lambda x: s * (b + 0.0 * x[0])
    if fam == 'floor':
        return lambda x: s * np.floor(4.0 * (A @ x - b)) / 4.0
    if fam == 'abs':
        return lambda x: s * (np.abs(A @ x - b) + 0.1 * q)
    if fam == 'rat':
        def f(x):
            t = A @ x - b
            return s * (1.0 + t) / (1.0 + q * t * t)
        return f
    raise ValueError(fam)


class Objective(object):
    """deterministic function of (x, call index); records every call"""

    def __init__(self, spec):
        self.spec = spec
        n = len(spec['x0'])
        self.f = base_residual(spec['obj'], n)
        self.noise = spec.get('noise')
        self.cliff = spec.get('cliff')
        self.fault = spec.get('fault')
        self.cap = int(spec['maxfun'] if spec.get('maxfun') is not None else min(100 * (n + 1), 1000)) + 25
        self.calls = []     # (x copy, r copy or None)
        self.args_seen = None
        self.raised = None

    def value(self, x, k):
        r = np.asarray(self.f(x), dtype=float).copy()
        no = self.noise
        if no:
            sg = no['sigma']
            if no['kind'] == 'det':
                xb = (np.asarray(x, dtype=float) + 0.0).tobytes()
                e = np.array([_ux(no['seed'], xb, j) for j in range(len(r))])
            else:
                e = np.array([_u(no['seed'], k, j) for j in range(len(r))])
            r = r * (1.0 + sg * e) if no.get('mult') else r + sg * e
        cl = self.cliff
        if cl and float(np.dot(np.array(cl['w']), x)) > cl['t']:
            r[cl.get('j', 0) % len(r)] = float(cl['val'])
        fa = self.fault
        if fa and (fa['k'] == k or (fa.get('all_after') and k >= fa['k'])):
            v = fa['kind']
            if v.startswith('raise'):
                self.raised = EXCEPTIONS.get(v[6:], ObjFault)("injected at evaluation %d" % k)
                raise self.raised
            val = float(v)
            if fa.get('whole'):
                r[:] = val
            else:
                r[fa.get('j', 0) % len(r)] = val
        return r

    def __call__(self, x, *args):
        k = len(self.calls) + 1
        if k > self.cap:
            raise BudgetBlown()
        xc = np.array(x, dtype=float, copy=True)
        self.args_seen = args
        self.calls.append([xc, None])
        r = self.value(xc, k)
        self.calls[-1][1] = r.copy()
        return r


# ----------------------------------------------------------------------------------------------- regularisers
class Reg(object):
    """lam*||x-c||_1, lam*||x-c||_2 or lam*max|x-c| with exact prox"""

    def __init__(self, rg, n):
        self.kind = rg['kind']
        self.lam = float(rg['lam'])
        self.c = np.array(rg.get('c') or [0.0] * n, dtype=float)
        self.n = n
        self.mode = rg.get('mode', 'closure')
        self.args_errors = []
        if self.kind == 'l1':
            self.lip = self.lam * math.sqrt(n)
        else:
            self.lip = self.lam
        self.lip *= float(rg.get('lhfac', 1.0))
        self.extra_h = tuple(rg.get('extra_h', ()))
        self.extra_p = tuple(rg.get('extra_p', ()))

    def value(self, x, lam=None):
        lam = self.lam if lam is None else lam
        z = np.asarray(x, dtype=float) - self.c
        if self.kind == 'l1':
            return float(lam * np.sum(np.abs(z)))
        if self.kind == 'l2':
            return float(lam * np.linalg.norm(z))
        return float(lam * np.max(np.abs(z)))

    def proxval(self, x, u, lam=None):
        lam = self.lam if lam is None else lam
        z = np.asarray(x, dtype=float) - self.c
        t = lam * u
        if self.kind == 'l1':
            p = np.sign(z) * np.maximum(np.abs(z) - t, 0.0)
        elif self.kind == 'l2':
            nz = np.linalg.norm(z)
            p = z * (max(1.0 - t / nz, 0.0) if nz > 0 else 0.0)
        else:
            p = z - proj_l1ball(z, t)
        return p + self.c

    def h(self, x, *args):
        if self.mode == 'closure':
            if args != ():
                self.args_errors.append(('h', repr(args)))
            return self.value(x)
        if args != (self.lam,) + self.extra_h:
            self.args_errors.append(('h', repr(args)))
        return self.value(x, args[0] if args and isinstance(args[0], float) else None)

    def prox(self, x, u, *args):
        if self.mode == 'closure':
            if args != ():
                self.args_errors.append(('prox', repr(args)))
            return self.proxval(x, u)
        if args != (self.lam,) + self.extra_p:
            self.args_errors.append(('prox', repr(args)))
        return self.proxval(x, u, args[0] if args and isinstance(args[0], float) else None)

    def kwargs(self):
        kw = dict(h=self.h, lh=self.lip, prox_uh=self.prox)
        if self.mode != 'closure':
            kw['argsh'] = (self.lam,) + self.extra_h
            kw['argsprox'] = (self.lam,) + self.extra_p
        return kw


def proj_l1ball(z, r):
    if r <= 0:
        return np.zeros_like(z)
    a = np.abs(z)
    if a.sum() <= r:
        return z.copy()
    s = np.sort(a)[::-1]
    cs = np.cumsum(s)
    k = int(max(np.nonzero(s * np.arange(1, len(s) + 1) > (cs - r))[0], default=0))
    th = (cs[k] - r) / (k + 1.0)
    return np.sign(z) * np.maximum(a - th, 0.0)


# ----------------------------------------------------------------------------------------------- convex sets
def make_set(st):
    """(projector, distance) of a convex set spec"""
    k = st['kind']
    if k == 'ball':
        c = np.array(st['c'], dtype=float)
        r = float(st['r'])

        def proj(x):
            d = x - c
            nd = np.linalg.norm(d)
            return x.copy() if nd <= r else c + d * (r / nd)

        return proj, lambda x: max(0.0, float(np.linalg.norm(x - c)) - r)
    if k == 'half':    # a.x <= b
        a = np.array(st['a'], dtype=float)
        b = float(st['b'])
        aa = float(a @ a)

        def proj(x):
            v = float(a @ x) - b
            return x.copy() if v <= 0 else x - (v / aa) * a

        return proj, lambda x: max(0.0, float(a @ x) - b) / math.sqrt(aa)
    if k == 'box':
        l = np.array(st['l'], dtype=float)
        u = np.array(st['u'], dtype=float)
        return (lambda x: np.minimum(np.maximum(x, l), u)), \
            (lambda x: float(np.linalg.norm(x - np.minimum(np.maximum(x, l), u))))
    raise ValueError(k)


# ----------------------------------------------------------------------------------------------- nsamples
def make_nsamples(rule, log):
    if rule is None:
        return None
    k = rule['kind']

    def ns(delta, rho, it, nruns):
        if k == 'const':
            v = rule['v']
        elif k == 'cycle':
            v = rule['v'][len(log) % len(rule['v'])]
        elif k == 'iter':
            v = 1 + (it % rule['v'])
        elif k == 'runs':
            v = 1 + nruns * rule['v']
        elif k == 'rho':
            v = int(min(rule['v'], max(1, math.ceil(0.2 / max(rho, 1e-3)))))
        elif k == 'zero':
            v = 0
        else:
            raise ValueError(k)
        log.append(v)
        return v
    return ns


# ----------------------------------------------------------------------------------------------- run
EVAL_RE = re.compile(r'Function eval (-?\d+) at point (-?\d+) has obj = (\S+)')


class _LogHandler(logging.Handler):
    def __init__(self, rec):
        logging.Handler.__init__(self, level=logging.INFO)
        self.rec = rec

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception:
            return
        m = EVAL_RE.search(msg)
        if m:
            self.rec.evals.append((int(m.group(1)), int(m.group(2)), len(self.rec.obj.calls),
                                   (self.rec.ns_log[-1] if self.rec.ns_log else None)))
        elif msg.startswith('Soft restart [') or msg.startswith('Restarting from finish point'):
            self.rec.restart_msgs.append((msg.split()[0], len(self.rec.obj.calls), self.rec.iters))


class RunRecord(object):
    pass


_dlog = logging.getLogger('dfols')
_dlog.propagate = False
_dlog.addHandler(logging.NullHandler())


def build_kwargs(spec, rec):
    n = len(spec['x0'])
    kw = {}
    lo, up = spec.get('lower'), spec.get('upper')
    if lo is not None or up is not None:
        kw['bounds'] = (None if lo is None else np.array(lo, dtype=float),
                        None if up is None else np.array(up, dtype=float))
    for k in ('npt', 'rhobeg', 'rhoend', 'maxfun'):
        if spec.get(k) is not None:
            kw[k] = spec[k]
    if spec.get('scaling'):
        kw['scaling_within_bounds'] = True
    if spec.get('has_noise'):
        kw['objfun_has_noise'] = True
    if spec.get('params') is not None:
        kw['user_params'] = dict(spec['params'])
    ns = make_nsamples(spec.get('nsamples'), rec.ns_log)
    if ns is not None:
        kw['nsamples'] = ns
    rec.reg = None
    if spec.get('reg'):
        rec.reg = Reg(spec['reg'], n)
        kw.update(rec.reg.kwargs())
    rec.sets = []
    if spec.get('proj'):
        rec.sets = [make_set(s) for s in spec['proj']]
        kw['projections'] = [p for p, _ in rec.sets]
    return kw


def run_spec(spec, log=True, snapshots=None, seed_rng=True, mutate_kw=None, iter_cap=True):
    """Execute one solver spec against the real dfols.solve and record everything observable."""
    rec = RunRecord()
    rec.spec = spec
    rec.obj = Objective(spec)
    rec.calls = rec.obj.calls
    rec.harness_error = None
    rec.evals = []
    rec.restart_msgs = []
    rec.ns_log = []
    rec.exc = None
    rec.soln = None
    rec.nonterm = False
    rec.blown = False
    rec.iters = 0
    rec.fits_failed = 0
    kw = build_kwargs(spec, rec)
    x0 = np.array(spec['x0'], dtype=float)
    rec.x0 = x0
    rec.kw = kw
    kw['do_logging'] = bool(log)
    if mutate_kw:
        repl = mutate_kw(kw)
        if repl is not None:
            x0 = repl
    if seed_rng:
        np.random.seed(int(spec.get('rng', 0)) % (2 ** 32))
    handler = None
    if log:
        handler = _LogHandler(rec)
        _dlog.addHandler(handler)
        _dlog.setLevel(logging.INFO)
    else:
        _dlog.setLevel(logging.CRITICAL + 1)
    maxfun = rec.obj.cap - 25
    cap = 3000 + 60 * maxfun
    restore = None
    if iter_cap or snapshots is not None:
        Model = getattr(dfols.model, 'Model', None)
        orig = getattr(Model, 'interpolate_mini_models_svd', None)
        if orig is not None:
            def wrapped(self, *a, **k):
                rec.iters += 1
                if rec.iters > cap:
                    raise NonTermination()
                if snapshots is not None and rec.harness_error is None:
                    try:
                        snapshots(self, rec)
                    except Exception as e:
                        rec.harness_error = e
                res = orig(self, *a, **k)
                if isinstance(res, tuple) and res and not res[0]:
                    rec.fits_failed += 1
                return res
            Model.interpolate_mini_models_svd = wrapped
            restore = (Model, orig)
    try:
        with warnings.catch_warnings(record=True) as wlist:
            warnings.simplefilter('always')
            rec.soln = solve(rec.obj, x0, **kw)
    except NonTermination:
        rec.nonterm = True
    except BudgetBlown:
        rec.blown = True
    except Exception as e:      # the solver raised; whether that is allowed is for the check to decide
        rec.exc = e
    except BaseException as e:
        if e is not rec.obj.raised:
            raise
        rec.exc = e
    finally:
        if restore:
            restore[0].interpolate_mini_models_svd = restore[1]
        if handler:
            _dlog.removeHandler(handler)
        _dlog.setLevel(logging.CRITICAL + 1)
    rec.warnings = [str(w.message) for w in wlist]
    if rec.harness_error is not None:
        raise rec.harness_error
    return rec


def user_bounds(spec):
    n = len(spec['x0'])
    lo = np.array(spec['lower'], dtype=float) if spec.get('lower') is not None else np.full(n, -1e20)
    up = np.array(spec['upper'], dtype=float) if spec.get('upper') is not None else np.full(n, 1e20)
    return lo, up


def hval(rec, x):
    return rec.reg.value(x) if rec.reg is not None else 0.0


def sumsq(r):
    return float(np.dot(r, r))


def clone(spec):
    return copy.deepcopy(spec)
