"""C43: harmonic and multiplet sinusoid analysis (bhacalc) against explicit least squares on the sampled sinusoids."""
import itertools
import os
from fractions import Fraction
from math import pi

PROP = 'C43'
LEVEL = 'exploration'
RULE = ('every series length, number of harmonics and fundamental, and every set of distinct frequencies in every order, of a lattice, with every data vector of a list: metric, its factor and determinant, amplitudes, the quadratic form '
        'and covariances against sums over the samples themselves; singular sets and inconsistent sizes are refused; earlier results are not touched by later calls')
ASSUMPTIONS = ['frequencies strictly between zero and half the sampling rate, more samples than amplitudes, and a well conditioned metric (ratio of eigenvalues below 1e7)',
               'the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so']

B = None
WHY = None


def setup():
    global B, WHY
    from .. import cext
    try:
        B = cext.build('bhacalc', 'initbhacalc', os.path.join(cext.REPO, 'sandbox', 'bha', 'bhacalc.c'))
    except cext.CannotBuild as x:
        WHY = str(x)


FREQ = [.05, .3, .31, pi/4, 1., pi/2, 2.2, 2.9]
NS = [3, 4, 5, 8, 9, 16, 40, 257]


def units(tier):
    top = 4 if tier == 'thorough' else 3
    u = [{'t': 'harmonic', 'n': n} for n in NS]
    u += [{'t': 'multiplet', 'n': n, 'm': m} for n in NS for m in range(1, top + 1)]
    u += [{'t': 'refuse'}, {'t': 'history'}]
    return u


def run_unit(unit, ctx):
    import numpy as np
    if B is None:
        ctx.note('the C part cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def series(np, n, gs):
    t = np.arange(n)
    yield 'constant', np.ones(n)
    yield 'ramp', t - .3*n
    yield 'spike', np.where(t == n//2, 5., 0.)
    yield 'pure', sum((k + 1.)*np.cos(g*t - .4*k) for k, g in enumerate(gs))
    yield 'mixed', np.cos(1.234*t) + .1*((7*t) % 5) - 2.


def design(np, n, gs):
    t = np.arange(n)
    return np.array([f(g*t) for g in gs for f in (np.cos, np.sin)]).T


def judge(ctx, np, case, got, n, gs, d, hold):
    G = design(np, n, gs)
    A = G.T.dot(G)
    p = G.T.dot(d)
    cond = np.linalg.cond(A)
    metric, L, rdet, amps, S = got
    m = 2*len(gs)
    for name, v, shape in (('metric', metric, (m, m)), ('factor', L, (m, m)), ('amplitudes', amps, (m,))):
        if np.shape(v) != shape:
            ctx.fail('the %s has shape %r' % (name, np.shape(v)), case)
    eps = 1e-10*n*(1 + 1/min(min(abs(np.sin(a)), 1.) for a in seps(gs)))
    if not np.abs(metric - A).max() <= eps:
        ctx.fail('the metric is\n%r\nbut the sums over the samples give\n%r' % (metric, A), case)
    if not (np.abs(np.triu(L, 1)).max() == 0. if m > 1 else True) or not np.abs(L.dot(L.T) - A).max() <= 2*eps or not (np.diag(L) > 0).all():
        ctx.fail('the factor is not the lower triangular root of the metric: %r' % (L,), case)
    det = np.exp(.5*np.linalg.slogdet(A)[1])
    if not abs(rdet - det) <= 1e-8*cond**.5*det:
        ctx.fail('the root of the determinant is %r, it should be %r' % (rdet, det), case)
    want, res = np.linalg.lstsq(G, d, rcond=None)[:2]
    big = 1e-13*cond*eps/1e-10*(np.abs(want).max() + np.abs(p).max()/n + 1) + 1e-9
    if not np.abs(amps - want).max() <= big:
        ctx.fail('the amplitudes are %r, least squares gives %r' % (amps, want), case)
    fit = G.dot(want)
    if not abs(S - fit.dot(fit)) <= 1e-9*(1 + d.dot(d)) + big*np.abs(p).sum():
        ctx.fail('the sufficient statistic is %r, the fitted power is %r' % (S, fit.dot(fit)), case)
    if hold:
        C = B.covar(L)
        inv = np.linalg.inv(A)
        if np.shape(C) != (m, m) or not np.abs(C - inv).max() <= 1e-13*cond*eps/1e-10*np.abs(inv).max() + 1e-12:
            ctx.fail('the covariances are\n%r\nthe inverse metric is\n%r' % (C, inv), case)


def seps(gs):
    out = []
    for i, a in enumerate(gs):
        out.append(a)
        for b in gs[i + 1:]:
            out += [.5*(a + b), .5*(a - b)]
    return out


def ok(np, n, gs):
    if n < 2*len(gs) or any(not 0 < g < pi for g in gs):
        return False
    G = design(np, n, gs)
    return np.linalg.cond(G.T.dot(G)) < 1e7


def harmonic(unit, ctx, np):
    n = unit['n']
    for g in FREQ:
        for m in range(1, 6):
            gs = [k*g for k in range(1, m + 1)]
            if not ok(np, n, gs):
                continue
            G = design(np, n, gs)
            for name, d in series(np, n, gs):
                case = {'n': n, 'gamma': g, 'harmonics': m, 'data': name}
                ctx.at(case)
                ctx.step()
                ctx.state((n, g, m, name))
                p = G.T.dot(d)
                keep = p.copy()
                r = B.harmonicAnalysis(m, n, g, p)
                if (p != keep).any():
                    ctx.fail('the projections given were changed', case)
                judge(ctx, np, case, r, n, gs, d, name == 'constant')
                two = B.multipletAnalysis(n, np.array(gs), list(p))
                for a, b in zip(r, two):
                    if not np.allclose(a, b, rtol=1e-6, atol=1e-6*(1 + np.abs(p).max())):
                        ctx.fail('harmonics given as a multiplet give %r instead of %r' % (b, a), case)
                ctx.outcome((n, m, round(float(r[4]), 5)))
            ctx.trace()
    ctx.sample(unit)


def multiplet(unit, ctx, np):
    n, m = unit['n'], unit['m']
    for gs in itertools.permutations(FREQ, m):
        if m > 2 and list(gs) not in (sorted(gs), sorted(gs, reverse=True)) and n > 9:
            continue
        if not ok(np, n, gs):
            continue
        G = design(np, n, gs)
        for name, d in series(np, n, gs):
            case = {'n': n, 'gammas': gs, 'data': name}
            ctx.at(case)
            ctx.step()
            ctx.state((n, gs, name))
            p, q = G.T.dot(d), np.array(gs)
            keep = p.copy()
            r = B.multipletAnalysis(n, q, p)
            if (p != keep).any() or tuple(q) != gs:
                ctx.fail('the arguments were changed', case)
            judge(ctx, np, case, r, n, gs, d, name == 'constant')
            ctx.outcome((n, m, round(float(r[4]), 5)))
        ctx.trace()
    ctx.sample(unit)


def refuse(unit, ctx, np):
    p4 = np.array([1., 2., 3., 4.])
    calls = [('equal frequencies', lambda: B.multipletAnalysis(20, np.array([.3, .3]), p4)), ('zero frequency', lambda: B.multipletAnalysis(20, np.array([0., .3]), p4)),
             ('zero frequency last', lambda: B.multipletAnalysis(20, np.array([.3, 0.]), p4)), ('zero fundamental', lambda: B.harmonicAnalysis(2, 20, 0., p4)),
             ('odd projections', lambda: B.multipletAnalysis(20, np.array([.3, .5]), p4[:3])), ('too many frequencies', lambda: B.multipletAnalysis(20, np.array([.3, .5, .7]), p4)),
             ('too many harmonics', lambda: B.harmonicAnalysis(3, 20, .3, p4)), ('too few harmonics', lambda: B.harmonicAnalysis(1, 20, .3, p4)),
             ('table of projections', lambda: B.harmonicAnalysis(1, 20, .3, np.ones((2, 2)))), ('table of frequencies', lambda: B.multipletAnalysis(20, np.ones((2, 2)), p4)),
             ('factor not a table', lambda: B.covar(p4))]
    for name, f in calls:
        for again in range(3):
            ctx.at(name)
            ctx.step()
            ctx.state((name, again))
            try:
                f()
            except (ValueError, TypeError):
                ctx.outcome(name)
                continue
            ctx.fail('an answer was given for: %s' % name, {'case': name})
    ctx.trace()
    ctx.sample({'refused': [c[0] for c in calls]})


def history(unit, ctx, np):
    """Results belong to their call: every ordered pair of calls, the first result unchanged by the second (and by the covariance of its factor)."""
    sets = [(12, (.3, .9)), (12, (1., 2.2)), (30, (.3, .9)), (9, (.7,)), (40, (.3, .6, .9))]
    for (n, gs), (n2, gs2) in itertools.product(sets, repeat=2):
        for first in ('m', 'h'):
            def call(n, gs, how):
                p = design(np, n, gs).T.dot(np.cos(.77*np.arange(n)))
                return B.multipletAnalysis(n, np.array(gs), p) if how == 'm' else B.harmonicAnalysis(len(gs), n, gs[0], p)
            case = {'first': (n, gs, first), 'second': (n2, gs2)}
            ctx.at(case)
            ctx.step()
            ctx.state((n, gs, n2, gs2, first))
            r = call(n, gs, first)
            keep = [np.array(v, copy=True) for v in r]
            c = B.covar(r[1])
            ck = c.copy()
            call(n2, gs2, 'm')
            B.covar(call(n2, gs2, 'h')[1])
            if any((np.asarray(a) != b).any() for a, b in zip(r, keep)) or (c != ck).any():
                ctx.fail('a later call changed an earlier result', case)
            again = call(n, gs, first)
            if any((np.asarray(a) != b).any() for a, b in zip(again, keep)):
                ctx.fail('the same call gives another answer the second time', case)
            ctx.outcome((n, gs, first))
        ctx.trace()
    ctx.sample({'calls': len(sets)})
