"""C42: directions with Fisher uncertainties: coordinates, normalised likelihoods, coincidence Bayes factors and best common directions, against integrals over the sphere."""
import itertools
import os
from math import acos, cos, exp, expm1, fsum, log, pi, sin, sinh, sqrt

PROP = 'C42'
LEVEL = 'exploration'
RULE = ('every direction of a lattice of the sphere (poles, seams, antipodes) in every way of giving it, with every concentration of a lattice (from nearly isotropic to very narrow): unit vectors, likelihoods and their integral over the '
        'sphere; every pair, triple and multiset of such directions up to the bound: Bayes factors in every order and through every function against the defining integral, and best fits against every rival direction')
ASSUMPTIONS = ['the 68.3% radius is below 1.9 radians (larger ones belong to no Fisher distribution)', 'best fits where the weighted directions do not cancel',
               'the Fortran part is built from its own f2py signature at run time; when that is impossible the check says so']

M = None
WHY = None


def setup():
    global M, WHY
    from .. import cext
    d = os.path.join(cext.REPO, 'sandbox', 'drxn')
    try:
        cext.fext('fisher_coinc', os.path.join(d, 'fisher_coinc.pyf'), [os.path.join(d, 'fisher_coinc.f')], register=True)
        M = cext.pymod('drxn', os.path.join(d, 'drxn.py'))
    except cext.CannotBuild as x:
        WHY = str(x)


DEG = [(0., 0.), (90., 0.), (0., 90.), (123., -90.), (180., 0.), (-30., 45.), (330., 44.), (200., -10.), (359.5, 12.), (20., 10.), (20.5, 10.)]
KAPPA = [1e-6, .003, .01, .3, 1., 2.5, 10., 19.9, 20.1, 60., 1e3, 1e6]
SIGMA = [1e-4, .01, .05, .1, .3, .7, 1., 1.5, 1.9]


def units(tier):
    u = [{'t': 'coords'}, {'t': 'sigma'}, {'t': 'lsinhc'}, {'t': 'refuse'}]
    u += [{'t': 'norm', 'k': k} for k in KAPPA]
    n = 5 if tier == 'thorough' else 4
    for m in range(1, n + 1):
        u += [{'t': 'coinc', 'm': m, 'first': i} for i in range(len(DEG))]
    u += [{'t': 'fit', 'm': m} for m in range(1, n + 1)]
    return u


def run_unit(unit, ctx):
    import numpy as np
    if M is None:
        ctx.note('the extension cannot be built here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def vec(lng, lat):
    return (cos(lng)*cos(lat), sin(lng)*cos(lat), sin(lat))


def lsc(x):
    """log(sinh(x)/x)"""
    if x < 1e-2:
        return x*x/6 - x**4/180
    if x < 30:
        return log(sinh(x)/x)
    return x - log(2*x)


def ways(l, b, **kw):
    """Every way to give a direction (degrees)."""
    r, d = l*pi/180, b*pi/180
    import numpy as np
    yield 'lng,lat', dict(kw, lng=r, lat=d)
    yield 'ra,dec', dict(kw, ra=r, dec=d)
    yield 'lng,lat deg', dict(kw, lng=l, lat=b, deg=True)
    yield 'ra,dec deg', dict(kw, ra=l, dec=b, deg=True)
    yield 'uvec', dict(kw, uvec=np.array(vec(r, d)))
    yield 'uvec deg', dict(kw, uvec=np.array(vec(r, d)), deg=True)


def coords(unit, ctx, np):
    for (l, b), (l2, b2) in itertools.product(DEG, repeat=2):
        v, v2 = vec(l*pi/180, b*pi/180), vec(l2*pi/180, b2*pi/180)
        dot = fsum(p*q for p, q in zip(v, v2))
        for (how, kw), (how2, kw2) in itertools.product(ways(l, b), ways(l2, b2)):
            case = {'direction': (l, b), 'given': how, 'other': (l2, b2), 'other given': how2}
            ctx.at(case)
            ctx.step()
            ctx.state((l, b, how, l2, b2, how2))
            one, two = M.Direction(**kw), M.FDirection(kappa=3., **kw2)
            if not np.allclose(one.uvec, v, atol=1e-12) or not np.allclose(two.uvec, v2, atol=1e-12):
                ctx.fail('the unit vectors are %r and %r, they should be %r and %r' % (one.uvec, two.uvec, v, v2), case)
            for g in (one*two, two*one):
                if not abs(g - dot) <= 1e-12:
                    ctx.fail('the product of the directions is %r, it should be %r' % (g, dot), case)
            str(one), str(two)
        ctx.outcome(round(dot, 9))
        ctx.trace()
    ctx.sample({'directions': DEG})


def sigma(unit, ctx, np):
    """The radius given holds 68.3% of the probability, in either unit."""
    for s in SIGMA:
        for l, b in DEG[:7]:
            for how, kw in ways(l, b):
                deg = kw.get('deg')
                case = {'sigma': s, 'direction': (l, b), 'given': how}
                ctx.at(case)
                ctx.step()
                ctx.state((s, l, b, how))
                d = M.FDirection(sig=s*180/pi if deg else s, **kw)
                k = d.kappa
                p = expm1(k*(cos(s) - 1))/expm1(-2*k) if k else .5*(1 - cos(s))
                if not abs(p - .683) <= 2e-6:
                    ctx.fail('%r of the probability lies within the 68.3%% radius' % p, case)
        ctx.outcome(s)
        ctx.trace()
    ctx.sample({'sigma': SIGMA})


def lsinhc(unit, ctx, np):
    for d in (0., 1e-12, 1e-8, 1e-4, .005, .00999, .01, .02, .1, .5, 1., 2., 5., 10., 19.99, 20., 20.01, 50., 700., 1e4, 1e8):
        case = {'kappa': d}
        ctx.at(case)
        ctx.step()
        ctx.state(d)
        g = M.fc.lsinhc(d)
        if not abs(g - lsc(d)) <= 1e-10*(1 + abs(lsc(d))):
            ctx.fail('the log normalisation is %r, it should be %r' % (g, lsc(d)), case)
        ctx.outcome(round(lsc(d), 9))
    ctx.trace()
    ctx.sample({'from': 0., 'to': 1e8})


def refuse(unit, ctx, np):
    u = np.array([1., 0., 0.])
    for kw in (dict(), dict(lng=1.), dict(dec=.1), dict(lng=1., lat=.1, ra=1.), dict(lng=0., lat=0., ra=0., dec=0.), dict(uvec=u, lng=0.), dict(uvec=u, dec=0.), dict(ra=.1, lat=.2), dict(uvec=u, lng=1., lat=1.)):
        for f in (M.Direction, lambda **k: M.FDirection(kappa=2., **k)):
            ctx.at(repr(kw))
            ctx.step()
            ctx.state(repr(sorted(kw)))
            try:
                f(**kw)
            except ValueError:
                ctx.outcome(repr(sorted(kw)))
                continue
            ctx.fail('an ambiguous or incomplete direction was accepted', {'given': sorted(kw)})
    ctx.trace()
    ctx.sample({'kinds': 9})


def nodes(np, k):
    """Gauss-Legendre nodes in sin(lat), uniform ones in longitude."""
    n = 40 if k < 12 else 72
    x, w = np.polynomial.legendre.leggauss(n)
    for z, a in zip(x, w):
        for j in range(n):
            yield (2*pi*(j + .5)/n, float(np.arcsin(z))), float(a)*2*pi/n


def norm(unit, ctx, np):
    k = unit['k']
    for (l, b) in DEG:
        r, d = l*pi/180, b*pi/180
        me = M.FDirection(kappa=k, lng=r, lat=d)
        v = vec(r, d)
        for l2, b2 in DEG + [(l + 1e-3, b), (l + 180., -b)]:
            r2, d2 = l2*pi/180, b2*pi/180
            e = k*fsum(p*q for p, q in zip(v, vec(r2, d2))) - lsc(k) - log(4*pi)
            calls = [('drxn', dict(drxn=M.Direction(lng=r2, lat=d2))), ('fisher drxn', dict(drxn=M.FDirection(kappa=5., ra=r2, dec=d2))), ('lng,lat', dict(lng=r2, lat=d2)),
                     ('ra,dec', dict(ra=r2, dec=d2)), ('uvec', dict(uvec=np.array(vec(r2, d2))))]
            for how, kw in calls:
                case = {'kappa': k, 'direction': (l, b), 'at': (l2, b2), 'given': how}
                ctx.at(case)
                ctx.step()
                ctx.state((k, l, b, l2, b2, how))
                g = me.llike(**kw)
                if not abs(g - e) <= 1e-9*(1 + k):
                    ctx.fail('the log likelihood is %r, it should be %r' % (float(g), e), case)
            ctx.outcome(round(e, 7))
        if k <= 20.1:
            tot = fsum(w*exp(me.llike(lng=p[0], lat=p[1])) for p, w in nodes(np, k))
            ctx.step()
            if not abs(tot - 1) <= 1e-6:
                ctx.fail('the likelihood integrates to %r over the sphere' % tot, {'kappa': k, 'direction': (l, b)})
        ctx.trace()
    ctx.sample({'kappa': k})


KSETS = {1: [(1e-6,), (.3,), (40.,), (1e5,)], 2: [(2., 2.), (.01, 5.), (15., 4.), (300., 1e5)], 3: [(2., 2., 2.), (.003, 1., 12.), (100., 3e4, .5)],
         4: [(1., 1., 1., 1.), (.1, 3., 6., 400.)], 5: [(1., 2., .5, 3., .01)]}


def coinc(unit, ctx, np):
    m = unit['m']
    for rest in itertools.combinations_with_replacement(range(len(DEG)), m - 1):
        which = (unit['first'],) + rest
        if m >= 4 and any(a > b for a, b in zip(which, which[1:])):
            continue
        for ks in KSETS[m]:
            ds = [M.FDirection(kappa=k, lng=DEG[i][0]*pi/180, lat=DEG[i][1]*pi/180) for i, k in zip(which, ks)]
            vs = [vec(DEG[i][0]*pi/180, DEG[i][1]*pi/180) for i in which]
            R = sqrt(fsum(fsum(k*v[a] for k, v in zip(ks, vs))**2 for a in range(3)))
            e = lsc(R) - fsum(lsc(k) for k in ks)
            case = {'directions': [DEG[i] for i in which], 'kappas': ks}
            ctx.at(case)
            ctx.step()
            ctx.state((which, ks))
            got = [('multiplet', M.multiplet_lbf(ds)), ('multiplet reversed', M.multiplet_lbf(ds[::-1])), ('multiplet of a tuple', M.multiplet_lbf(tuple(ds)))]
            if m == 2:
                got += [('doublet', M.doublet_lbf(*ds)), ('doublet reversed', M.doublet_lbf(ds[1], ds[0]))]
            if m == 3:
                got += [('triplet %r' % (p,), M.triplet_lbf(*[ds[i] for i in p])) for p in itertools.permutations(range(3))]
            tol = 1e-9*(1 + sum(ks))
            for name, g in got:
                if not abs(g - e) <= tol:
                    ctx.fail('%s: the log Bayes factor is %r, it should be %r' % (name, float(g), e), case)
            if m <= 3 and sum(ks) <= 20 and (m < 3 or unit['first'] in (0, 5) and which[1] < which[2]) and (m < 2 or unit['first'] % 2 == 0):
                big = fsum(ks)
                tot = fsum(w*exp(sum(k*(p[0]*v[0] + p[1]*v[1] + p[2]*v[2]) for k, v in zip(ks, vs)) - big) for p, w in ((vec(*p), w) for p, w in nodes(np, big)))
                q = log(tot/(4*pi)) + big - fsum(lsc(k) for k in ks)
                if not abs(got[0][1] - q) <= 1e-6:
                    ctx.fail('the log Bayes factor is %r, the integral over the common direction gives %r' % (float(got[0][1]), q), case)
            ctx.outcome(round(e, 6))
        ctx.trace()
    ctx.sample(unit)


def fit(unit, ctx, np):
    m = unit['m']
    rivals = [np.array(vec(l*pi/180, b*pi/180)) for l, b in DEG]
    for which in itertools.combinations_with_replacement(range(len(DEG)), m):
        for ks in KSETS[m]:
            vs = [vec(DEG[i][0]*pi/180, DEG[i][1]*pi/180) for i in which]
            tot = [fsum(k*v[a] for k, v in zip(ks, vs)) for a in range(3)]
            R = sqrt(fsum(t*t for t in tot))
            if R < 1e-3*sum(ks):
                continue
            case = {'directions': [DEG[i] for i in which], 'kappas': ks}
            ctx.at(case)
            ctx.step()
            ctx.state((which, ks))
            ds = [M.FDirection(kappa=k, lng=DEG[i][0]*pi/180, lat=DEG[i][1]*pi/180) for i, k in zip(which, ks)]
            once = {}
            for i, k, d in zip(which, ks, ds):
                once.setdefault((i, k), d)
            shared = [once[i, k] for i, k in zip(which, ks)]
            lml, best = M.fisher_fit(ds)
            e = fsum(ks) - R
            tol = 1e-9*(1 + sum(ks))
            for g in (lml, M.fisher_lml(ds), M.fisher_lml(shared), M.fisher_fit(shared)[0]):
                if not abs(g - e) <= tol:
                    ctx.fail('the log likelihood ratio is %r, it should be %r' % (float(g), e), case)
            if not abs(fsum(c*c for c in best.uvec) - 1) <= 1e-9 or not abs(best.kappa - R) <= tol:
                ctx.fail('the best direction has length %r and concentration %r (expected %r)' % (sqrt(fsum(c*c for c in best.uvec)), best.kappa, R), case)
            top = fsum(d.llike(drxn=best) for d in ds)
            # the ratio is that between each direction at its own best and all at the common one
            own = fsum(d.llike(drxn=d) for d in ds)
            if not abs(own - top - lml) <= 10*tol:
                ctx.fail('the ratio reported is %r, the likelihoods give %r' % (float(lml), own - top), case)
            for r in rivals:
                if fsum(d.llike(uvec=r) for d in ds) > top + 10*tol:
                    ctx.fail('direction %r fits better than the best fit %r' % (r, best.uvec), case)
            ctx.outcome(round(e, 6))
        ctx.trace()
    ctx.sample(unit)
