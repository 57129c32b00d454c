"""C28: adaptive integration over boxes."""
import itertools
from math import exp, sin, cos, erf, sqrt, pi, log

PROP = 'C28'
LEVEL = 'exploration'
RULE = ('every product integrand of a lattice of one-dimensional factors (monomials, exponentials, oscillations, peaks, rational functions), 2-5 dimensions (1 and 21 refused), several boxes (reversed and empty ones included), '
        'requested accuracies, evaluation and storage limits, all rules, scalar and vector valued, against exact integrals; failures must be reported, limits kept, and errors of the integrand passed on without '
        'affecting later integrations')
ASSUMPTIONS = ['the error estimate of ADAPT is heuristic: its results are held to 1000 times the requested accuracy on smooth integrands, those of DCUHRE (adapt_vec) to the requested accuracy (ten times it where the integrand changes sign)',
               'for adapt(), products of several narrow peaks in four and more dimensions are judged on limits and reports, not on accuracy']
UNIT_TIMEOUT = 150.


def mon(p):
    return (lambda x: x**p), (lambda a, b: (b**(p + 1) - a**(p + 1))/(p + 1.)), 'x^%d' % p


def expo(k):
    return (lambda x: exp(k*x)), (lambda a, b: (exp(k*b) - exp(k*a))/k), 'exp(%gx)' % k


def osc(k):
    return (lambda x: 1.2 + cos(k*x)), (lambda a, b: 1.2*(b - a) + (sin(k*b) - sin(k*a))/k), '1.2+cos(%gx)' % k


def peak(c, s):
    return (lambda x: exp(-.5*((x - c)/s)**2)), (lambda a, b: s*sqrt(pi/2)*(erf((b - c)/s/sqrt(2)) - erf((a - c)/s/sqrt(2)))), 'peak(%g,%g)' % (c, s)


def rat(d):
    return (lambda x: 1./(d + x)), (lambda a, b: log((d + b)/(d + a))), '1/(%g+x)' % d


FACT = [mon(0), mon(1), mon(2), mon(3), mon(5), expo(-1.), expo(.7), osc(2.), peak(.4, .5), peak(.2, .2), rat(3.)]
BOXES = [(0., 1.), (-1., 2.), (1, 0), (.25, .5), 'mixed']
MIXED = [(0., 1.), (-1., 2.), (.75, .25), (0., .5), (.5, 1.5)]
EPS = [1e-2, 1e-4, 1e-6]


def sides(box, nd):
    return MIXED[:nd] if box == 'mixed' else [box]*nd


def units(tier):
    u = [{'t': 'misc'}]
    for nd in (2, 3, 4, 5):
        for b in range(len(BOXES)):
            for f in range(len(FACT)):
                u.append({'t': 'prod', 'nd': nd, 'box': b, 'first': f})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from inference.integrate import adapt as A, adapt_vec as AV
    from inference.integrate.adapt import adapt
    from inference.integrate.adapt_vec import adapt_vec
    if not callable(A) and not hasattr(A, 'adapt'):
        ctx.fail('inference.integrate.adapt is not there', None)

    class Boom(Exception):
        pass

    def do_adapt(fs, box, nd, eps, kw, case, key=None):
        calls = [0]
        pts = []

        def f(x):
            calls[0] += 1
            if len(x) != nd:
                raise Boom('the integrand got %d coordinates' % len(x))
            r = 1.
            for g, xi, bx in zip(fs, x, sides(box, nd)):
                lo, hi = min(bx), max(bx)
                if not lo - 1e-12 <= xi <= hi + 1e-12:
                    raise Boom('the integrand was evaluated at %r' % (list(x),))
                r *= g[0](xi)
            return r
        rul = 2**nd + 2*nd**2 + 6*nd + 1
        lim = int(kw.get('maxfac', 100)*rul)
        ctx.at(case)
        lower, upper = [b[0] for b in sides(box, nd)], [b[1] for b in sides(box, nd)]
        try:
            r = adapt(f, lower, upper, eps, **kw)
        except RuntimeError as e:
            r = None
        ctx.case()
        if calls[0] > 1.15*lim + 3*rul:
            ctx.fail('%d evaluations with a limit of %d' % (calls[0], lim), case)
        if r is None:
            ctx.note('adapt said it failed')
            if not calls[0]:
                ctx.fail('integration failed without evaluating anything', case)
            return None
        res, err, npts = r
        exact = 1.
        for g, bx in zip(fs, sides(box, nd)):
            exact *= g[1](bx[0], bx[1])
        if npts > lim + 2*rul or not abs(npts - calls[0]) <= .2*calls[0] + 2:
            ctx.fail('%d evaluations were reported, %d made, with a limit of %d' % (npts, calls[0], lim), case)
        if not (0 <= err < eps):
            ctx.fail('success was reported with error %r for a requested %r' % (err, eps), case)
        peaked = any(g[2].startswith('peak') for g in fs)
        tol = (.5 if peaked else 1000*eps)*abs(exact)
        if key is not None:
            tol = 10*eps*abs(exact)
        narrow = [g[2] for g in fs].count('peak(0.2,0.2)')
        if nd > 3 and narrow > 1:
            # a small part of the volume holds the integral: the first rules may all miss it, and the estimate with them
            ctx.note('adapt(): several narrow peaks at once, accuracy not judged')
        elif not abs(res - exact) <= tol + 1e-14:
            ctx.fail('the integral is %r, the exact value %r, requested accuracy %r' % (res, exact, eps), case, key)
        if not peaked and not abs(res - exact) <= 2*eps*abs(exact):
            ctx.note('adapt(): error above twice the requested one')
        return res

    def do_vec(sets, box, nd, rel, absl, key, maxpts, minpts, form, case):
        calls = [0]

        def val(x):
            calls[0] += 1
            if len(x) != nd:
                raise Boom('the integrand got %d coordinates' % len(x))
            out = []
            for fs in sets:
                r = 1.
                for g, xi in zip(fs, x):
                    r *= g[0](xi)
                out.append(r)
            return out

        def v1(x):
            return val(x)

        def v3(x, n, res):
            if n != len(sets) or len(res) != n:
                raise Boom('wrong number of integrands %r' % n)
            res[:] = val(x)
            return res
        ctx.at(case)
        bad = key not in (0, 1, 2, 3, 4) or (key == 1 and nd != 2) or (key == 2 and nd != 3)
        if not bad:
            num = 65 if nd == 2 and key in (0, 1) else 127 if nd == 3 and key in (0, 2) else \
                1 + 6*nd + 2*nd*(nd - 1) + 2**nd if key == 4 else 1 + 8*nd + 6*nd*(nd - 1) + 4*nd*(nd - 1)*(nd - 2)//3 + 2**nd
            bad = maxpts < 3*num or maxpts < minpts or box[0] == box[1]
        ctx.case()
        try:
            r = adapt_vec(len(sets), (v1, v3)[form], [b[0] for b in sides(box, nd)], [b[1] for b in sides(box, nd)], rel, abseps=absl, key=key, maxpts=maxpts, minpts=minpts)
        except ValueError as e:
            if bad:
                if calls[0]:
                    ctx.fail('invalid arguments were found after %d evaluations' % calls[0], case)
                return None
            if calls[0] > maxpts:
                ctx.fail('%d evaluations with a limit of %d' % (calls[0], maxpts), case)
            if calls[0] < maxpts - 2*num*len(sets) - 2*num:
                ctx.fail('integration gave up after %d of %d evaluations (%s)' % (calls[0], maxpts, e), case)
            ctx.note('adapt_vec said it failed')
            return None
        if bad:
            ctx.fail('invalid arguments were not refused: %r' % (r,), case)
        res, err, n = r
        if n != calls[0] or n > maxpts or n < minpts:
            ctx.fail('%r evaluations were reported, %d made, limits %d and %d' % (n, calls[0], minpts, maxpts), case)
        for k, fs in enumerate(sets):
            exact = 1.
            for g, bx in zip(fs, sides(box, nd)):
                exact *= g[1](bx[0], bx[1])
            tol = max(absl, rel*abs(exact))
            if not err[k] <= max(absl, rel*abs(res[k]))*(1 + 1e-9):
                ctx.fail('success was reported with error %r for integral %r' % (err[k], res[k]), case)
            if not abs(res[k] - exact) <= (10 if box == 'mixed' else 1.01)*tol + 1e-13*abs(exact) + 1e-15:
                ctx.fail('integral %d is %r, the exact value %r, requested accuracy %r' % (k, res[k], exact, tol), case)
        return res

    if unit['t'] == 'misc':
        one = [mon(0)]
        for nd in (0, 1, 21, 25):
            try:
                r = adapt(lambda x: 1., [0.]*nd, [1.]*nd, 1e-3)
            except ValueError:
                pass
            else:
                ctx.fail('adapt() in %d dimensions gave %r' % (nd, r), nd)
        for nd in (0, 1, 16, 30):
            try:
                r = adapt_vec(1, lambda x: [1.], [0.]*nd, [1.]*nd, 1e-3)
            except ValueError:
                pass
            else:
                ctx.fail('adapt_vec() in %d dimensions gave %r' % (nd, r), nd)
        for key in (-1, 5, 6):
            do_vec([one*2], (0., 1.), 2, 1e-3, 0., key, 10000, 0, 0, ('key', key))
        for nd in (2, 3, 6, 10):
            do_adapt([mon(0)]*nd, (0., 2.), nd, 1e-3, {}, ('constant', nd))
        for nd in (2, 3, 6):
            do_vec([[mon(0)]*nd, [mon(2)]*nd], (0., 2.), nd, 1e-3, 0., 0, 100000, 0, 0, ('constant', nd))
        # integrals that cannot be done within the limit say so
        spike = [peak(.5, .002)]*3
        for kw in (dict(maxfac=3), dict(maxfac=20, wrkfac=.2), {}, dict(maxfac=2.5)):
            try:
                r = adapt(lambda x: exp(-.5*sum(((np.asarray(x) - .4)/.03)**2)), [0.]*3, [1.]*3, 1e-10, **kw)
            except RuntimeError:
                pass
            else:
                ctx.fail('a narrow peak to 1e-10 within %r gave %r' % (kw, r), kw)
        # zero integrals and empty boxes have no relative accuracy
        for lo, hi, f in (([0., 0.], [0., 1.], lambda x: 1.), ([-1., -1.], [1., 1.], lambda x: x[0])):
            try:
                r = adapt(f, lo, hi, 1e-3)
                if not abs(r[0]) <= 1e-12:
                    ctx.fail('an integral that is zero is %r' % (r,), (lo, hi))
            except (RuntimeError, ValueError):
                pass
        try:
            r = adapt_vec(1, lambda x: [1.], [0., 0.], [0., 1.], 1e-3)
            ctx.fail('an empty box gave %r' % (r,), None)
        except ValueError:
            pass
        try:
            r = adapt_vec(0, lambda x: [], [0., 0.], [1., 1.], 1e-3)
            ctx.fail('no integrands gave %r' % (r,), None)
        except ValueError:
            pass
        # the finding: an error estimate far too small
        do_adapt([mon(2), peak(.2, .2)], (-1., 2.), 2, 1e-2, {}, 'x^2 peak(y)', 'adapt-estimate-x2peak')
        # more room lets more difficult integrals succeed, and costs no more where less does
        fs = [peak(.3, .05), peak(.6, .05)]
        got = []
        for kw in (dict(maxfac=2), dict(maxfac=10), dict(maxfac=100), dict(maxfac=1000, wrkfac=2)):
            got.append(do_adapt(fs, (0., 1.), 2, 1e-7, kw, ('room', str(kw))))
        if got[-1] is None or got[0] is not None:
            ctx.fail('integrals of a peak with growing limits: %r' % got, None)
        got = [do_adapt([peak(.3, .02)]*2, (0., 1.), 2, 1e-9, dict(maxfac=400, wrkfac=w), ('storage', w)) for w in (.05, .3, 1, 4)]
        if got[-1] is None or got[0] is not None:
            ctx.fail('integrals of a peak with growing storage: %r' % got, None)
        # errors of the integrand
        for k in (1, 7, 30):
            c = [0]

            def f(x, *a):
                c[0] += 1
                if c[0] == k:
                    raise Boom('here')
                return exp(-x[0]*x[1]*3)
            try:
                adapt(f, [0., 0.], [5., 5.], 1e-9)
                ctx.fail('an error of the integrand was lost', k)
            except Boom:
                pass
            c[0] = 0
            try:
                adapt_vec(1, lambda x: [f(x)], [0., 0.], [5., 5.], 1e-9)
                ctx.fail('an error of the integrand was lost', k)
            except Boom:
                pass
            do_adapt([expo(-1.)]*2, (0., 1.), 2, 1e-5, {}, 'after an error')
            do_vec([[expo(-1.)]*2], (0., 1.), 2, 1e-5, 0., 0, 10000, 0, 0, 'after an error')
        ctx.outcome('misc')
        ctx.outcome(tuple(map(str, got)))
        return
    nd, box = unit['nd'], BOXES[unit['box']]
    k0 = unit['first']
    others = range(len(FACT)) if nd == 2 or ctx.tier == 'thorough' else range(k0 % 2, len(FACT), 3 if nd == 5 else 2)
    for k in others:
        fs = [FACT[k0]] + [FACT[(k + 3*j*(j > 0)) % len(FACT)] for j in range(nd - 1)]
        names = [g[2] for g in fs]
        exact = 1.
        for g, bx in zip(fs, sides(box, nd)):
            exact *= g[1](bx[0], bx[1])
        for eps in EPS:
            if nd > 3 and eps < 1e-5 and ctx.tier != 'thorough':
                continue
            for kw in ({}, dict(maxfac=4), dict(maxfac=200, wrkfac=3)) if eps > 1e-5 else ({}, dict(maxfac=150, wrkfac=2)):
                r = do_adapt(fs, box, nd, eps, kw, {'integrand': names, 'box': box, 'eps': eps, 'limits': kw})
                ctx.outcome((names, box, eps, str(kw), None if r is None else '%.6g' % r))
                if all(n in ('x^0', 'x^1', 'x^2') for n in names) and not abs(exact) <= 1e-3 and (r is None or not abs(r/exact - 1) <= 1e-9):
                    ctx.fail('the integral of a polynomial is %r, exactly %r' % (r, exact), {'integrand': names, 'box': box})
        for key in range(5):
            for rel, maxpts in ((1e-3, 20000), (1e-7, 4000 if nd > 3 else 20000), (1e-5, 200)):
                if ctx.tier != 'thorough' and nd > 3 and rel < 1e-6 and k % 2:
                    continue
                # the second integrand is the product in the reverse order, the third constant
                sets = [fs, fs[::-1], [mon(0)]*nd][:1 + (k + key) % 3]
                absl = 0. if not abs(exact) <= 1e-6 else 1e-6
                r = do_vec(sets, box, nd, rel, absl, key, maxpts, (0, 500)[nd == 2] if rel == 1e-3 else 15000 if rel == 1e-7 and maxpts == 20000 and k % 2 else 0, key % 2, {'integrand': names, 'box': box, 'rel': rel, 'key': key, 'maxpts': maxpts, 'n': len(sets)})
                ctx.outcome((names, box, rel, key, maxpts, None if r is None else [('%.5g' % v) for v in r]))
    ctx.sample({'integrand': names, 'box': box})
