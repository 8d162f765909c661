"""Operation histories on the Model class, shared by C16 and C17."""
import numpy as np

from . import boot  # noqa: F401
from dfols.model import Model
from hypothesis import strategies as st
from . import spec as S
from .gen import I, B, num, pick, chance


class Hist(object):
    """a Model plus the harness's own record of what it was told"""

    def __init__(self, spec):
        self.spec = spec
        n, m = spec['n'], spec['m']
        self.n, self.m = n, m
        x0 = np.array(spec['x0'], dtype=float)
        self.lo = np.full(n, -1e20) if spec.get('lo') is None else x0 - np.array(spec['lo'], dtype=float)
        self.up = np.full(n, 1e20) if spec.get('up') is None else x0 + np.array(spec['up'], dtype=float)
        self.scal = None
        if spec.get('scal'):
            self.scal = (np.array(spec['shift'], dtype=float), np.array(spec['scale'], dtype=float))
        self.reg = S.Reg(spec['reg'], n) if spec.get('reg') else None
        projs = []
        if spec.get('proj'):
            projs = [lambda x: np.minimum(np.maximum(x, self.lo), self.up)]
        kw = {}
        if self.reg is not None:
            kw = dict(h=self.reg.h)
            if self.reg.mode != 'closure':
                kw['argsh'] = (self.reg.lam,) + self.reg.extra_h
        r0 = self.res(spec['r0'])
        self.model = Model(spec['npt'], x0.copy(), r0.copy(), self.lo.copy(), self.up.copy(), projs, 1, precondition=spec.get('precond', True),
                           do_logging=False, scaling_changes=self.scal, **kw)
        self.base = x0.copy()          # absolute position of the base point
        self.npt_max = spec['npt']
        self.pts = [dict(x=x0.copy(), samples=[r0], ev=1)]
        self.nx = 1
        self.saved = []                # every save_point call
        self.spread = spec['spread']

    def res(self, r):
        return np.array([float(v) for v in r], dtype=float)

    @property
    def npt(self):
        return len(self.pts)

    @property
    def growing(self):
        return len(self.pts) < self.npt_max

    def user(self, x):
        return x if self.scal is None else self.scal[0] + x * self.scal[1]

    def hval(self, x):
        return self.reg.value(self.user(x)) if self.reg is not None else 0.0

    def clip(self, x):
        return np.minimum(np.maximum(x, self.lo), self.up)

    def rel(self, xabs):
        return xabs - self.base

    def place(self, op):
        """absolute coordinates of the point described by an op"""
        d = np.array(op['d'], dtype=float) * self.spread * op.get('s', 1.0)
        k = op.get('about', 0)
        c = self.pts[k % self.npt]['x'] if k >= 0 else np.array(self.spec['x0'], dtype=float)
        x = c + d
        return x if op.get('out') else self.clip(x)

    def step(self, op):
        """applies one mutating op to the model and to the record; returns a short description"""
        M = self.model
        o = op['op']
        if o == 'change':
            lim = self.npt + (1 if self.growing else 0)
            k = op['k'] % lim
            if op.get('grow') and self.growing:
                k = self.npt
            xabs = self.place(op)
            r = self.res(op['r'])
            same = op.get('same', '') if k < self.npt else ''
            if 'x' in same:              # replaced by a point at the same place / with the same residuals / the same number
                xabs = self.pts[k]['x'].copy()
            if 'r' in same:
                r = self.pts[k]['samples'][0].copy()
            if 'e' in same:
                ev = self.pts[k]['ev']
            else:
                self.nx += 1
                ev = self.nx
            xr = self.rel(xabs)
            keep = xr.copy()
            M.change_point(k, xr, r, ev)
            entry = dict(x=self.base + keep, samples=[r.copy()], ev=ev)
            if k == self.npt:
                self.pts.append(entry)
            else:
                self.pts[k] = entry
            xr += 1.0                    # the model must have taken copies
            r += 1.0
            return 'change', k
        if o == 'sample':
            k = op['k'] % self.npt
            r = self.res(op['r'])
            M.add_new_sample(k, rvec_extra=r)
            self.pts[k]['samples'].append(r)
            return 'sample', k
        if o == 'add':
            if self.growing or self.npt >= self.spec['npt'] + 4:
                return None
            xabs = self.place(op)
            r = self.res(op['r'])
            self.nx += 1
            M.add_new_point(self.rel(xabs), r, self.nx)
            self.pts.append(dict(x=xabs, samples=[r], ev=self.nx))
            self.npt_max += 1
            return 'add', self.npt - 1
        if o == 'swap':
            a, b = op['k'] % self.npt, op['k2'] % self.npt
            if a == b:
                return None
            M.swap_points(a, b)
            self.pts[a], self.pts[b] = self.pts[b], self.pts[a]
            return 'swap', (a, b)
        if o == 'shift':
            if op.get('to', 0) >= 0:
                s = np.array(M.xpt(op['to'] % self.npt), dtype=float) if op.get('to', 0) != 99 else np.array(M.xopt(), dtype=float)
            else:
                s = np.array(op['d'], dtype=float) * self.spread * op.get('s', 1.0)
            M.shift_base(s.copy())
            self.base = self.base + s
            return 'shift', s
        if o == 'save':
            xabs = self.clip(self.place(op))
            r = self.res(op['r'])
            self.nx += 1
            ns = 1 + op['k'] % 3
            if op.get('relc'):
                x_in = self.rel(xabs)
                M.save_point(x_in, r, ns, self.nx, x_in_abs_coords=False)
            else:
                M.save_point(xabs.copy(), r, ns, self.nx, x_in_abs_coords=True)
            self.saved.append(dict(x=xabs, r=r.copy(), ns=ns, ev=self.nx))
            return 'save', None
        raise ValueError(o)


SPECIAL = ('nan', 'inf', '-inf', '1e200')


def draw_resid(draw, m, special=0.0, ties=False):
    if ties:
        r = [float(draw(I(-2, 2))) for _ in range(m)]
    else:
        r = [num(draw, 10.0) for _ in range(m)]
    if special and chance(draw, special):
        r[draw(I(0, m - 1))] = pick(draw, *SPECIAL)
    return r


def draw_dir(draw, n):
    if draw(B):
        return [num(draw, 1.0, 200) for _ in range(n)]
    d = [0.0] * n
    d[draw(I(0, n - 1))] = pick(draw, 1.0, -1.0, 0.5)
    return d


def draw_op(draw, n, m, kinds, special, ties, scales):
    o = pick(draw, *kinds)
    op = dict(op=o)
    if o in ('change', 'add', 'save'):
        op['d'] = draw_dir(draw, n)
        op['s'] = pick(draw, *scales)
        op['about'] = draw(I(-1, 12))
        op['r'] = draw_resid(draw, m, special, ties)
        op['k'] = draw(I(0, 12))
        if o == 'change' and chance(draw, 0.35):
            op['grow'] = True
        if o == 'change' and chance(draw, 0.15):
            op['same'] = pick(draw, 'x', 'r', 'e', 'xr', 'xre', 'xe')
        if chance(draw, 0.1):
            op['out'] = True
        if o == 'save' and draw(B):
            op['relc'] = True
    elif o == 'sample':
        op['k'] = draw(I(0, 12))
        op['r'] = draw_resid(draw, m, special, ties)
    elif o == 'swap':
        op['k'], op['k2'] = draw(I(0, 12)), draw(I(0, 12))
    elif o == 'shift':
        op['to'] = pick(draw, 99, -1, draw(I(0, 12)))
        op['d'] = draw_dir(draw, n)
        op['s'] = pick(draw, *scales)
    else:
        op['k'] = draw(I(0, 12))
        op['u'] = [num(draw, 2.0, 50) for _ in range(n)]
    return op


def draw_common(draw, nmax, mmax, special, ties, nptfun, reg_p):
    n = draw(I(1, nmax))
    m = draw(I(1, mmax))
    spec = dict(n=n, m=m)
    spread = 10.0 ** draw(I(-3, 1)) * pick(draw, 1.0, 2.7)
    spec['spread'] = spread
    off = pick(draw, 0.0, 1.0, 100.0, 1e4)
    spec['x0'] = [num(draw, 1.0) * off for _ in range(n)]
    spec['npt'] = nptfun(n)
    spec['r0'] = draw_resid(draw, m, special, ties)
    if chance(draw, 0.4):
        spec['lo'] = [spread * pick(draw, 3.0, 0.0, 0.5, 1e6) for _ in range(n)]
        spec['up'] = [spread * pick(draw, 3.0, 1.0, 0.5, 1e6) for _ in range(n)]
        if chance(draw, 0.2):
            spec['proj'] = True
    if chance(draw, 0.25):
        spec['scal'] = True
        spec['shift'] = [num(draw, 3.0) for _ in range(n)]
        spec['scale'] = [pick(draw, 1.0, 0.1, 10.0) for _ in range(n)]
    if chance(draw, reg_p):
        rg = dict(kind=pick(draw, 'l1', 'l2', 'linf'), lam=pick(draw, 1.0, 0.1, 10.0), mode=pick(draw, 'closure', 'args'))
        rg['c'] = [v + num(draw, 2.0) * spread for v in spec['x0']]
        spec['reg'] = rg
    return spec
