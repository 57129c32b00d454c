"""C34: conversions between numbers of standard deviations, probabilities and relative densities of normal regions."""
from math import erf, erfc, exp, gamma, pi, sqrt, isinf

PROP = 'C34'
LEVEL = 'exploration'
RULE = ('every dimension up to the bound and every point of lattices of numbers of standard deviations and probabilities, given as Python numbers, NumPy scalars and arrays of every shape, in both modules that '
        'provide the conversions, compared with closed forms of the content of a normal ball and with each other: forwards, backwards and round trips')
ASSUMPTIONS = ['dimensions from 1 up', 'inverse conversions are judged through the forward closed form, so that nearly full regions are not judged more sharply than floating point allows']
SIG = [0., 1e-3, .1, .5, 1., 1.5, 2., 2.5, 3., 4., 5., 6., 8.]
PR = [0., 1e-6, .01, .1, .25, .5, .6826894921370859, .9, .95, .9544997361036416, .99, .9973002039367398, .9999, 1 - 1e-9, 1.]


def outside(nd, s):
    """Probability beyond s standard deviations of the mean of an nd-dimensional normal."""
    t = .5*s*s
    if nd % 2:
        q, term = erfc(sqrt(t)), sqrt(t)*exp(-t)/gamma(1.5) if t else 0.
        k = 1
        while k < nd:
            q += term
            term *= t/(k/2. + 1.)
            k += 2
        return q
    q, term, k = 0., exp(-t), 1
    while 2*(k - 1) < nd:
        q += term
        term *= t/k
        k += 1
    return q


def inside(nd, s):
    q = outside(nd, s)
    if q < .9:
        return 1. - q
    # series of the lower incomplete gamma function, for small contents
    t, a = .5*s*s, .5*nd
    if t == 0.:
        return 0.
    term = t**a*exp(-t)/gamma(a + 1.)
    tot, n = 0., 1
    while term > 1e-18*tot or n < 5:
        tot += term
        term *= t/(a + n)
        n += 1
        if n > 500:
            break
    return tot


def units(tier):
    n = 24 if tier == 'thorough' else 10
    u = [{'nd': d, 'fine': tier == 'thorough'} for d in range(1, n + 1)]
    return u + [{'nd': 0}]


def run_unit(unit, ctx):
    import numpy as np
    from inference.grid import hpd, hpdgrid
    from inference.utils.plot_bivar import normal_plevels
    mods = {'hpd': hpd, 'hpdgrid': hpdgrid}
    nd = unit['nd']

    def close(a, b, rel=1e-9, tiny=1e-15):
        return abs(a - b) <= rel*abs(b) + tiny

    if nd == 0:
        for m, cls, d in (('hpd', 'HPD1D', 1), ('hpd', 'HPD2D', 2), ('hpdgrid', 'HPDGrid1D', 1), ('hpdgrid', 'HPDGrid2D', 2)):
            c = getattr(mods[m], cls)
            for k in (1, 2, 3):
                ctx.case()
                case = {'class': cls, 'sigmas': k}
                p, r = float(getattr(c, 'p%dsig' % k)), float(getattr(c, 'ratio%d' % k))
                if not close(p, inside(d, float(k))):
                    ctx.fail('the class says %r for the content, it is %r' % (p, inside(d, float(k))), case)
                if not close(r, exp(-.5*k*k)):
                    ctx.fail('the class says %r for the relative density, it is %r' % (r, exp(-.5*k*k)), case)
        for n in range(0, 9):
            ctx.case()
            v = normal_plevels(n)
            if len(v) != n or any(not close(float(v[k]), inside(1, k + 1.)) for k in range(n)):
                ctx.fail('levels for %d sigmas are %r' % (n, v), {'n': n})
        return
    sig = SIG + ([i*.05 for i in range(1, 200)] if unit['fine'] else [i*.37 for i in range(1, 17)])
    pr = PR + ([i/400. for i in range(1, 400)] if unit['fine'] else [i/23. for i in range(1, 23)])

    def forms(vals):
        """The same numbers in the forms callers use; each with a function giving back a flat list of floats."""
        yield 'float', [(v, lambda o: [float(o)], [v]) for v in vals]
        yield 'numpy scalar', [(np.float64(v), lambda o: [float(o)], [v]) for v in vals]
        yield 'integer', [(int(v), lambda o: [float(o)], [v]) for v in vals if v == int(v)]
        flat = lambda o: [float(x) for x in np.asarray(o).ravel()]
        yield 'array', [(np.array(vals), flat, vals), (np.array(vals[:1]), flat, vals[:1]), (np.array(vals[:6]).reshape(2, 3), flat, vals[:6]), (np.array(vals[::-1])[::2], flat, vals[::-1][::2])]

    def check(name, vals, judge):
        for mn, mod in mods.items():
            f = getattr(mod, name)
            for form, lst in forms(vals):
                for arg, out, ref in lst:
                    case = {'module': mn, 'call': '%s(%d, %r)' % (name, nd, arg)}
                    ctx.at(case)
                    ctx.case()
                    before = np.array(arg, copy=True)
                    o = f(nd, arg)
                    if form == 'array' and np.shape(o) != np.shape(arg):
                        ctx.fail('the result has shape %r, the argument %r' % (np.shape(o), np.shape(arg)), case)
                    if not np.array_equal(before, arg):
                        ctx.fail('the argument was changed', case)
                    got = out(o)
                    for v, g in zip(ref, got):
                        why = judge(v, g)
                        if why:
                            ctx.fail('for %r: %s' % (v, why), case)
                        ctx.outcome((name, nd, v))

    check('sig2prob', sig, lambda s, p: None if close(p, inside(nd, s)) and close(1 - p, outside(nd, s), 1e-6, 1e-14) else 'content is %r, it should be %r' % (p, inside(nd, s)))
    check('sig2ratio', sig, lambda s, r: None if close(r, exp(-.5*s*s)) else 'relative density is %r, it should be %r' % (r, exp(-.5*s*s)))

    def is_sig(p, s):
        if p == 1.:
            return None if isinf(s) and s > 0 else 'a full region needs infinitely many standard deviations, got %r' % s
        if not s >= 0.:
            return 'got %r standard deviations' % s
        if close(inside(nd, s), p, 1e-8, 1e-13) and close(outside(nd, s), 1 - p, 1e-6, 1e-15):
            return None
        return 'got %r standard deviations, which hold %r' % (s, inside(nd, s))

    def is_ratio(p, r, scale=1.):
        if p == 1.:
            return None if r == 0. else 'got %r for a full region' % r
        r = r/scale
        if not 0. < r <= 1. + 1e-12:
            return 'got a relative density of %r' % r
        from math import log
        return is_sig(p, sqrt(max(0., -2.*log(min(r, 1.)))) if p > 1e-3 else s_of(p, r))

    def s_of(p, r):
        # tiny regions: the relative density is 1 to rounding, so it can only be compared with that of the right size
        lo, hi = 0., 40.
        for _ in range(200):
            mid = .5*(lo + hi)
            lo, hi = (mid, hi) if inside(nd, mid) < p else (lo, mid)
        return lo if abs(r - exp(-.5*lo*lo)) < 1e-12 else 99.

    check('prob2sig', pr, is_sig)
    check('prob2ratio', pr, is_ratio)
    check('prob2dens', pr, lambda p, d: is_ratio(p, d, (2*pi)**(-.5*nd)))
    ctx.sample({'dimension': nd})
