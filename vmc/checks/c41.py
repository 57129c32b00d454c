"""C41: line fits (six regressions, fits with known errors, fits with scatter) against their definitions, for every small data set of a lattice."""
import cmath
import itertools
import os
from fractions import Fraction as Fr
from math import sqrt

PROP = 'C41'
LEVEL = 'exploration'
RULE = ('every multiset of points of a lattice up to the size bound, under every shift, scale and reflection of a list, with every error assignment of a list: slopes and intercepts against exact normal equations or principal axes, '
        'standard errors against the infinitesimal jackknife (the derivative of the estimate with respect to the weight of each point), refusals, and that the data given are left alone')
ASSUMPTIONS = ['data sets whose estimates are defined: nonzero covariance and, with known errors, spread larger than the errors', 'the alternative error estimate serr_IFAB is not claimed',
               'the Fortran part is built from its own f2py signature at run time; when that is impossible the check says so']

M = None
WHY = None
HERE = ('sandbox', 'regress')


def setup():
    global M, WHY
    from .. import cext
    d = os.path.join(cext.REPO, *HERE)
    try:
        cext.fext('_regress', os.path.join(d, '_regress.pyf'), [os.path.join(d, '_regress.f')], register=True)
        M = cext.pymod('regress', os.path.join(d, 'regress.py'))
    except cext.CannotBuild as x:
        WHY = str(x)


PTS = [(x, y) for x in (0, 1, 3) for y in (0, 1, 4)]
MAPS = [(1, 0, 1, 0), (1, 5, -1, 2), (-.5, -2, 3, 100)]
ERRS = [(0., 0., 0.), (.25, .125, 0.), (.125, .5, .0625), (.5, .75, -.375), (.5, .75, .375)]


def units(tier):
    top = 6 if tier == 'thorough' else 5
    u = []
    for kind in ('six', 'bces', 'wlss'):
        for n in range(2, top + 1):
            for first in range(len(PTS)):
                for m in range(len(MAPS)):
                    u.append({'t': kind, 'n': n, 'first': first, 'map': m})
    return u + [{'t': 'refuse'}, {'t': 'big'}]


def run_unit(unit, ctx):
    import numpy as np
    if M is None:
        ctx.note('the extension cannot be built here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def datasets(unit):
    sx, ox, sy, oy = MAPS[unit['map']]
    n = unit['n']
    for rest in itertools.combinations_with_replacement(range(unit['first'], len(PTS)), n - 1):
        pts = [PTS[i] for i in (unit['first'],) + rest]
        if unit['map'] == 1:
            pts = pts[::-1]
        yield [float(sx*p[0] + ox) for p in pts], [float(sy*p[1] + oy) for p in pts]


def moments(x, y):
    n = len(x)
    x, y = [Fr(v) for v in x], [Fr(v) for v in y]
    mx, my = sum(x)/n, sum(y)/n
    return (mx, my, sum((a - mx)**2 for a in x)/n, sum((b - my)**2 for b in y)/n, sum((a - mx)*(b - my) for a, b in zip(x, y))/n)


def slopes(V, W, C):
    """All six slopes from two variances and a covariance (complex arguments allowed)."""
    b1, b2 = C/V, W/C
    b3 = cmath.tan(.5*(cmath.atan(b1) + cmath.atan(b2)))
    b4 = (W - V + cmath.sqrt((W - V)**2 + 4*C*C))/(2*C)
    b5 = cmath.sqrt(W/V)*(1 if complex(C).real > 0 else -1)
    return [b1, b2, b3, b4, b5, .5*(b1 + b2)]


def weighted(w, x, y, e1, e2, e12):
    s = sum(w)
    mx, my = sum(a*b for a, b in zip(w, x))/s, sum(a*b for a, b in zip(w, y))/s
    V = sum(a*((b - mx)**2 - e*e) for a, b, e in zip(w, x, e1))/s
    W = sum(a*((b - my)**2 - e*e) for a, b, e in zip(w, y, e2))/s
    C = sum(a*((b - mx)*(c - my) - e) for a, b, c, e in zip(w, x, y, e12))/s
    b = slopes(V, W, C)
    return b, [my - v*mx for v in b]


def jackknife(x, y, e1=None, e2=None, e12=None):
    n = len(x)
    z = [0.]*n
    e1, e2, e12 = e1 or z, e2 or z, e12 or z
    b, a = weighted([1.]*n, x, y, e1, e2, e12)
    vb, va = [0.]*6, [0.]*6
    h = 1e-30
    for i in range(n):
        w = [complex(1., h if j == i else 0.) for j in range(n)]
        db, da = weighted(w, x, y, e1, e2, e12)
        for k in range(6):
            vb[k] += (db[k].imag/h)**2
            va[k] += (da[k].imag/h)**2
    return [v.real for v in b], [v.real for v in a], [sqrt(v) for v in vb], [sqrt(v) for v in va]


def near(g, e, scale, tol=1e-8):
    g = float(g)
    return abs(g - e) <= tol*(scale + abs(e))


def judge(ctx, case, r, b, a, sb, sa, size, x, y, np, tol=1e-8):
    if not near(r.slope, b, 1., tol):
        ctx.fail('the slope is %r, it should be %r' % (float(r.slope), b), case)
    if not near(r.inter, a, size, tol):
        ctx.fail('the intercept is %r, it should be %r' % (float(r.inter), a), case)
    if sb is not None:
        # a perfect fit has errors of rounding size, in variance: their roots are compared
        if not (near(r.serr, sb, 1., tol) or abs(sb) < 1e-6 and not r.serr > 1e-6):
            ctx.fail('the standard error of the slope is %r, it should be %r' % (float(r.serr), sb), case)
        if not (near(r.ierr, sa, size, tol) or abs(sa) < 1e-6*size and not r.ierr > 1e-6*size):
            ctx.fail('the standard error of the intercept is %r, it should be %r' % (float(r.ierr), sa), case)
    if list(r.x) != list(x) or list(r.y) != list(y) or r.npts != len(x):
        ctx.fail('the result does not hold the data it was made from', case)


NAMES = ['yonx', 'xony', 'bisect', 'orthog', 'rma', 'mols']


def six(unit, ctx, np):
    for x, y in datasets(unit):
        mx, my, V, W, C = moments(x, y)
        if C == 0:
            continue
        case = {'x': x, 'y': y}
        ctx.at(case)
        ctx.step()
        ctx.state((tuple(x), tuple(y)))
        b, a, sb, sa = jackknife(x, y)
        size = 1. + max(abs(v) for v in x + y)*(1. + max(abs(v) for v in b))
        for how in ('array', 'list'):
            ax, ay = (np.array(x), np.array(y)) if how == 'array' else (list(x), list(y))
            case['given'] = how
            r = M.SixLin(ax, ay)
            for k, name in enumerate(NAMES):
                one = getattr(r, name)
                judge(ctx, dict(case, fit=name), one, b[k], a[k], sb[k]if len(x) > 2 else None, sa[k], size, x, y, np)
                if (one.xmin, one.xmax, one.ymin, one.ymax) != (min(x), max(x), min(y), max(y)):
                    ctx.fail('the ranges of the data are wrong', case)
            st = M.bistats(ax, ay)
            ob = M.BiStats(ax, ay)
            want = (float(mx), sqrt(V), float(my), sqrt(W), float(C), float(C)/sqrt(V*W))
            for nm, g, g2, e in zip(('xbar', 'xstd', 'ybar', 'ystd', 'covar', 'rho'), st, (ob.xbar, ob.xstd, ob.ybar, ob.ystd, ob.covar, ob.rho), want):
                if not near(g, e, 1.) or not near(g2, e, 1.):
                    ctx.fail('%s is %r (%r), it should be %r' % (nm, g, g2, e), case)
            if list(ax) != x or list(ay) != y:
                ctx.fail('the data given were changed', case)
            if list(ob.x) != x or list(ob.y) != y:
                ctx.fail('the data kept differ from those given', case)
            if how == 'array':
                ref = M.BiStats(ax, ay, True)
                ax[0] += 1.
                ay[-1] += 1.
                if list(ob.x) != x or list(ob.y) != y:
                    ctx.fail('the copies of the data kept follow later changes of the arrays', case)
                if list(ref.x) != list(ax) or list(ref.y) != list(ay):
                    ctx.fail('asked not to copy, the object does not refer to the arrays given', case)
        ctx.trace()
        ctx.outcome(tuple(round(v, 6) for v in b + sb))
    ctx.sample(unit)


def bces(unit, ctx, np):
    for x, y in datasets(unit):
        n = len(x)
        mx, my, V, W, C = moments(x, y)
        for which, (ex, ey, exy) in enumerate(ERRS):
            for vary in (0, 1):
                e1 = [ex*(1 + vary*(i % 3)/2.) for i in range(n)]
                e2 = [ey*(1 + vary*((i + 1) % 2)) for i in range(n)]
                e12 = [exy*(1 + vary*(i % 2)/2.)*(-1 if C < 0 and which == 2 else 1) for i in range(n)]
                v1, v2, c = float(V) - sum(e*e for e in e1)/n, float(W) - sum(e*e for e in e2)/n, float(C) - sum(e12)/n
                if v1 < .05 or v2 < .05 or abs(c) < .05:
                    continue
                case = {'x': x, 'xerr': e1, 'y': y, 'yerr': e2, 'covar': e12}
                ctx.at(case)
                ctx.step()
                ctx.state((tuple(x), tuple(y), which, vary))
                b, a, sb, sa = jackknife(x, y, e1, e2, e12)
                size = 1. + max(abs(v) for v in x + y)*(1. + max(abs(v) for v in b))
                ax, ay, a1, a2, a12 = [np.array(v) for v in (x, y, e1, e2, e12)]
                if not vary and unit['n'] % 2:
                    a1, a2, a12 = e1[0], e2[0], e12[0]
                r = M.BCES(ax, a1, ay, a2, a12)
                for k, name in enumerate(NAMES[:4]):
                    one = getattr(r, name)
                    judge(ctx, dict(case, fit=name), one, b[k], a[k], sb[k] if n > 2 else None, sa[k], size, x, y, np, 1e-6)
                    if not (near(one.xmin, min(p - q for p, q in zip(x, e1)), 1.) and near(one.xmax, max(p + q for p, q in zip(x, e1)), 1.)
                            and near(one.ymin, min(p - q for p, q in zip(y, e2)), 1.) and near(one.ymax, max(p + q for p, q in zip(y, e2)), 1.)):
                        ctx.fail('the ranges of the data with their errors are wrong', case)
                if list(ax) != x or list(ay) != y or np.any(a1 != np.array(e1)) or np.any(a2 != np.array(e2)) or np.any(a12 != np.array(e12)):
                    ctx.fail('the data given were changed', case)
                ctx.outcome(tuple(round(v, 6) for v in b + sb))
        ctx.trace()
    ctx.sample(unit)


def wlss(unit, ctx, np):
    for x, y in datasets(unit):
        n = len(x)
        mx, my, V, W, C = moments(x, y)
        if C == 0:
            continue
        b0 = C/V
        res = [Fr(q) - my - b0*(Fr(p) - mx) for p, q in zip(x, y)]
        rv = sum(r*r for r in res)/n
        for which, err in enumerate([[.0625]*n, [.125*(1 + i % 3) for i in range(n)], [.5 if i == n - 1 else .0625 for i in range(n)]]):
            ev = rv - sum(Fr(e)**2 for e in err)/n
            if ev < Fr(1, 100):
                continue
            w = [1/(ev + Fr(e)**2) for e in err]
            S, Sx, Sy = sum(w), sum(a*Fr(p) for a, p in zip(w, x)), sum(a*Fr(q) for a, q in zip(w, y))
            Sxx, Sxy = sum(a*Fr(p)**2 for a, p in zip(w, x)), sum(a*Fr(p)*Fr(q) for a, p, q in zip(w, x, y))
            D = S*Sxx - Sx*Sx
            b, a = float((S*Sxy - Sx*Sy)/D), float((Sxx*Sy - Sx*Sxy)/D)
            case = {'x': x, 'y': y, 'yerr': err}
            ctx.at(case)
            ctx.step()
            ctx.state((tuple(x), tuple(y), which))
            size = 1. + max(abs(v) for v in x + y)*(1. + abs(b))
            ax, ay = np.array(x), np.array(y)
            given = err[0] if which == 0 else np.array(err) if which == 1 else list(err)
            r = M.wlss(ax, ay, given)
            judge(ctx, case, r, b, a, sqrt(S/D), sqrt(Sxx/D), size, x, y, np)
            if not near(r.scat, sqrt(ev), 1.):
                ctx.fail('the scatter is %r, it should be %r' % (float(r.scat), sqrt(ev)), case)
            if not (near(r.ymin, min(p - q for p, q in zip(y, err)), 1.) and near(r.ymax, max(p + q for p, q in zip(y, err)), 1.) and (r.xmin, r.xmax) == (min(x), max(x))):
                ctx.fail('the ranges of the data are wrong', case)
            if list(ax) != x or list(ay) != y:
                ctx.fail('the data given were changed', case)
            ctx.outcome((round(b, 6), round(a, 6), which))
        ctx.trace()
    ctx.sample(unit)


def refuse(unit, ctx, np):
    """Undefined fits and mismatched lengths are refused, never answered."""
    x4 = [0., 1., 2., 3.]
    flat = [([0., 2., 0., 2.], [0., 0., 2., 2.]), (x4, [1.]*4), ([5.]*4, x4), ([1.], [1.])]
    for x, y in flat:
        calls = [('SixLin', lambda: M.SixLin(np.array(x), np.array(y))), ('bistats', lambda: M.bistats(np.array(x), np.array(y))),
                 ('BiStats', lambda: M.BiStats(np.array(x), np.array(y))), ('wlss', lambda: M.wlss(np.array(x), np.array(y), .1))]
        for name, f in calls:
            refused(ctx, name, f, {'x': x, 'y': y})
    x3 = np.array([0., 1., 2.])
    for name, f in [('SixLin', lambda: M.SixLin(np.array(x4), x3)), ('bistats', lambda: M.bistats(x3, np.array(x4))), ('BiStats', lambda: M.BiStats(x3, np.array(x4))),
                    ('wlss y', lambda: M.wlss(x3, np.array(x4), .1)), ('wlss yerr', lambda: M.wlss(x3, x3, np.array([.1, .1]))),
                    ('BCES y', lambda: M.BCES(x3, .1, np.array(x4), .1, 0.)), ('BCES xerr', lambda: M.BCES(x3, np.array([.1]*4), x3, .1, 0.)),
                    ('BCES yerr', lambda: M.BCES(x3, .1, x3, np.array([.1]*2), 0.)), ('BCES covar', lambda: M.BCES(x3, .1, x3, .1, np.array([.1]*2)))]:
        refused(ctx, name, f, {'lengths': 'different'})
    ctx.trace()
    ctx.sample({'undefined': flat})


def refused(ctx, name, f, case):
    ctx.at(dict(case, call=name))
    ctx.step()
    ctx.state((name, repr(case)))
    try:
        f()
    except ValueError as x:
        ctx.outcome((name, 'refused'))
        return
    ctx.fail('%s gave an answer where none is defined' % name, dict(case, call=name))


def big(unit, ctx, np):
    """Exact lines, of any length: every fit finds the line."""
    for n in (2, 3, 10, 500):
        for b in (.25, -2., 3.):
            for a in (0., -4., 100.):
                x = np.arange(n)*.5 - 3.
                y = a + b*x
                case = {'n': n, 'slope': b, 'intercept': a}
                ctx.at(case)
                ctx.step()
                ctx.state((n, a, b))
                r = M.SixLin(x, y)
                for name in NAMES:
                    one = getattr(r, name)
                    if not near(one.slope, b, 1.) or not near(one.inter, a, 100.):
                        ctx.fail('%s of an exact line gives slope %r and intercept %r' % (name, one.slope, one.inter), case)
                r = M.BCES(x, 0., y, 0., 0.)
                for name in NAMES[:4]:
                    one = getattr(r, name)
                    if not near(one.slope, b, 1.) or not near(one.inter, a, 100.):
                        ctx.fail('%s of an exact line gives slope %r and intercept %r' % (name, one.slope, one.inter), case)
                ctx.outcome((a, b))
    ctx.trace()
    ctx.sample({'lines': 9})
