"""C39: Rayleigh statistic of event times, its frequency grid by trigonometric recurrence, and the von Mises marginal likelihood, against their definitions."""
import itertools
import os
from math import cos, fsum, log, pi, sin, sqrt

PROP = 'C39'
LEVEL = 'exploration'
RULE = ('every set of event times over a lattice (coinciding, negative, zero, large) up to the length bound with every frequency of a lattice: sums and power against the definition; every frequency grid (one point, two, many, descending, '
        'through zero) against the statistic at each of its points; and the marginal likelihood at every point of a lattice of concentrations, counts and resultants against a series for the Bessel function and against the phase integral of the likelihood')
ASSUMPTIONS = ['at least one event', 'the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so',
               'the Bessel function is documented as a polynomial approximation (relative accuracy 2e-7)']

TIMES = [0., .3, 1.1, -2.4, 17.5, 3e3]
W = [0., .1, 1., 2.2, -1.3, 2*pi, 40.]
R = None
WHY = None


def setup():
    global R, WHY
    from .. import cext
    try:
        R = cext.build('_rayleigh', 'init_rayleigh', os.path.join(cext.REPO, 'sandbox', 'point', 'periodic', '_rayleigh.c'))
    except cext.CannotBuild as x:
        WHY = str(x)


def units(tier):
    n = 6 if tier == 'thorough' else 5
    u = [{'t': 'stat', 'n': k, 'first': f} for k in range(1, n + 1) for f in TIMES]
    u += [{'t': 'grid', 'n': k} for k in range(1, n + 1)]
    u += [{'t': 'like', 'k': k} for k in KAPPA]
    u += [{'t': 'joint'}]
    return u


def run_unit(unit, ctx):
    import numpy as np
    if R is None:
        ctx.note('the C part cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def stats(w, ts):
    S, C = fsum(sin(w*t) for t in ts), fsum(cos(w*t) for t in ts)
    return S, C, (S*S + C*C)/len(ts)


def forms(np, ts):
    wide = np.zeros((len(ts), 2))
    wide[:, 0] = ts
    yield 'array', np.array(ts)
    yield 'list', list(ts)
    yield 'strided', wide[:, 0]


def stat(unit, ctx, np):
    n = unit['n']
    for rest in itertools.combinations_with_replacement(TIMES, n - 1):
        ts = (unit['first'],) + rest
        for w in W:
            want = stats(w, ts)
            for how, arg in forms(np, ts):
                case = {'times': ts, 'w': w, 'given': how}
                ctx.at(case)
                got = R.rayleigh(w, arg)
                ctx.step()
                ctx.state((ts, w, how))
                for name, g, e in zip(('sine sum', 'cosine sum', 'power'), got, want):
                    if not abs(g - e) <= 1e-9*(n + 1):
                        ctx.fail('the %s is %r, it should be %r' % (name, g, e), case)
                if not np.array_equal(np.array(arg), np.array(ts)):
                    ctx.fail('the times given were changed', case)
            ctx.trace()
            ctx.outcome((w,) + tuple(round(x, 9) for x in want))
    got = R.rayleigh(2., np.array([1, 2, 5]))
    if not all(abs(a - b) <= 1e-9 for a, b in zip(got, stats(2., [1, 2, 5]))):
        ctx.fail('the statistics of integer times are %r' % (got,), {'times': [1, 2, 5], 'w': 2.})
    ctx.sample({'n': n, 'first': unit['first']})


GRIDS = [(1, .7, .7), (1, .5, 2.), (2, .5, 2.), (3, 0., 1.), (7, -1., 1.), (5, 2., .5), (40, .01, 9.), (1000, 1., 4.), (11, 3., 3.)]


def grid(unit, ctx, np):
    n = unit['n']
    for ts in itertools.combinations_with_replacement(TIMES, n):
        for nw, lo, hi in GRIDS:
            if nw > 100 and n > 2 and len(set(ts)) < n:
                continue
            case = {'times': ts, 'grid': (nw, lo, hi)}
            ctx.at(case)
            keep = np.array(ts)
            ws, P = R.rsgrid(nw, lo, hi, keep)
            ctx.step()
            ctx.state((ts, nw, lo, hi))
            if np.shape(ws) != (nw,) or np.shape(P) != (nw,):
                ctx.fail('the grid has shapes %r and %r' % (np.shape(ws), np.shape(P)), case)
            if not (keep == np.array(ts)).all():
                ctx.fail('the times given were changed', case)
            big = max(abs(t) for t in ts)
            for i in sorted(set(list(range(min(nw, 60))) + list(range(0, nw, 37)) + [nw - 1])):
                w = lo + (hi - lo)*i/(nw - 1.) if nw > 1 else lo
                if not abs(ws[i] - w) <= 1e-12*nw*(1. + abs(lo) + abs(hi)):
                    ctx.fail('frequency %d is %r, it should be %r' % (i, float(ws[i]), w), case)
                e = stats(w, ts)[2]
                tol = 1e-11*(n + 1)**2*(nw + 1)*(1. + 1e-3*big*(abs(lo) + abs(hi)))
                if not abs(P[i] - e) <= tol:
                    ctx.fail('the power at %r is %r, it should be %r' % (w, float(P[i]), e), case)
                ctx.outcome((n, nw, round(e, 6)))
            ctx.trace()
    ctx.sample({'n': n, 'grids': GRIDS})


# ---------------------------------------------------------------------- von Mises marginal likelihood
KAPPA = [0., 1e-3, .1, .5, 1., 2., 3.7, 3.8, 5., 10., 50., 700.]


def logi0(x):
    """log I0(x), from its power series summed relative to its largest term, or from the asymptotic series."""
    x = abs(x)
    if x > 400.:
        term = tot = 1.
        for k in range(1, 30):
            term *= (2*k - 1)**2/(8.*x*k)
            tot += term
        return x - .5*log(2*pi*x) + log(tot)
    from decimal import Decimal, getcontext
    getcontext().prec = 60
    q = (Decimal(x)/2)**2
    term = tot = Decimal(1)
    k = 1
    while term > tot*Decimal('1e-40') or k < 5:
        term *= q/(k*k)
        tot += term
        k += 1
    return float(tot.ln())


def like(unit, ctx, np):
    k = unit['k']
    l1 = logi0(k)
    for n in (1, 2, 5, 30, 1000):
        for r in (0., .01, .3, .5, .9, 1.):
            S = r*n
            case = {'kappa': k, 'n': n, 'resultant': S}
            ctx.at(case)
            g = R.lml_wk(k, n, S)
            e = logi0(k*S) - n*l1
            ctx.step()
            ctx.state((k, n, r))
            ctx.outcome((k, n, r, round(e, 6)))
            if not abs(g - e) <= 3e-7*(n + 1) + 1e-12*abs(k*S):
                ctx.fail('the log marginal likelihood is %r, it should be %r' % (g, e), case)
            if not abs(R.lml_wk(k, n, -S) - g) <= 1e-9*(1 + abs(g)):
                ctx.fail('the likelihood depends on the sign of the resultant', case)
    ctx.trace()
    ctx.sample({'kappa': k})


def joint(unit, ctx, np):
    """Statistic and likelihood together are the phase-averaged von Mises likelihood of the events."""
    for ts in itertools.combinations_with_replacement(TIMES[:5], 3):
        for w in (.1, 1., 2.2):
            S, C, P = R.rayleigh(w, np.array(ts))
            for k in (.1, 1., 5.):
                case = {'times': ts, 'w': w, 'kappa': k}
                ctx.at(case)
                m = 400
                v = [k*fsum(cos(w*t - 2*pi*j/m) for t in ts) for j in range(m)]
                top = max(v)
                e = top + log(fsum(2.718281828459045**(x - top) for x in v)/m) - len(ts)*logi0(k)
                ctx.step()
                ctx.state((ts, w, k))
                for g in (R.lml_wk(k, len(ts), sqrt(S*S + C*C)), R.lml_wk(k, len(ts), sqrt(P*len(ts)))):
                    if not abs(g - e) <= 2e-6*(len(ts) + 1):
                        ctx.fail('the log marginal likelihood of the events is %r, the phase average of their likelihood gives %r' % (g, e), case)
                ctx.outcome((w, k, round(e, 6)))
        ctx.trace()
    ctx.sample({'events': 3})
