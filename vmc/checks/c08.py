"""C08: optimisation returns a consistent optimum, no worse than the start and in range."""
import itertools

PROP = 'C08'
LEVEL = 'model_checking'
RULE = ('every problem of a lattice of least-squares problems in 1-3 parameters (scales, correlations, noise floor, optimum inside, on and '
        'outside the ranges) for every kind of inference, start, step scale and with or without mapped bounds; two fits in a row; '
        'all orders of declaration with own range and scale per parameter, and all pairs of changes made before and between two fits; '
        'every parameter value at which the model was evaluated is recorded')
ASSUMPTIONS = ['with mapped bounds the optimum is only required where coordinate searches do not run onto a bound: the map has zero slope there', 'scores are quadratic with condition number up to about 1e4', 'the optimum is required to 1e-3 of the score (plus 1e-4 absolute)']

MATS = {1: [[[1.], [0.], [0.]], [[.01], [0.], [0.]], [[100.], [1.], [0.]]],
        2: [[[1., 0.], [0., 1.], [0., 0.]], [[1., 0.], [0., 30.], [0., 0.]], [[1., .9], [0., .3], [0., 0.]],
            [[1., 1.], [1., -1.], [.5, 2.]], [[1., 1.], [0., .05], [0., 0.]]],
        3: [[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [[1., .5, .2], [0., 1., .5], [0., 0., 1.]], [[1., -.8, .3], [.4, .1, 1.], [0., 2., .5]]]}
FLOORS = [0., 3.]
RANGE = {'in': (-10., 10.), 'one-sided': (0., 10.), 'narrow': (-1., 4.)}


def units(tier):
    u = []
    for nd in (1, 2, 3):
        for m in range(len(MATS[nd])):
            for kind in ('chi2', 'like', 'bayes'):
                for mapped in (False, True):
                    u.append({'nd': nd, 'm': m, 'kind': kind, 'mapped': mapped})
    for kind in ('chi2', 'like', 'bayes'):
        for m in range(len(MATS[3])):
            for order in ORDERS:
                u.append({'order': order, 'm': m, 'kind': kind})
    return u


# orders in which some of the parameters are declared varying; each parameter has its own range and scale
ORDERS = ['pqr', 'rqp', 'qrp', 'qp', 'rp', 'r', 'rq']
OWN = {'p': ((-40., 30.), 1.), 'q': ((-25., 60.), .2), 'r': ((-60., 35.), 3.)}
START = {'p': -1.5, 'q': 4., 'r': 2.}
OPTIONS = [{}, {'method': 'powell'}, {'method': 'Powell', 'tol': 1e-8}, {'tol': 1e-9}]


def run_mixed(unit, ctx):
    """Histories of fits with other declarations, fixed values and settings in between."""
    import numpy as np
    from vmc import piemodels
    kind = unit['kind']
    M = MATS[3][unit['m']]
    A = np.array(M)
    sign = 1. if kind == 'chi2' else -.5

    def optimum(target, vary, now):
        x = np.array([now[n] for n in 'pqr'])
        idx = ['pqr'.index(n) for n in vary]
        x[idx] = 0.
        x[idx] = np.linalg.lstsq(A[:, idx], target - A @ x, rcond=None)[0]
        r = A @ x - target
        return sign*float(r @ r), x

    # what is done between the fits
    between = [(), ('fixed',), ('start',), ('map',), ('again',), ('drop',), ('more',), ('refused',), ('map', 'unmap'), ('fixed', 'more'), ('sim',)]
    order = unit['order']
    for opt, (first, second), o in itertools.product(([1., -2., 3.], [0., 0., 0.], [2.5, 4., -1.]), itertools.product(between, between), range(len(OPTIONS))):
        if o and (first or opt[0]) or first and opt[0] != 1. and ctx.tier != 'thorough':
            continue
        target = A @ np.array(opt)
        inf = piemodels.mapinf(kind, M, target)
        case = {'kind': kind, 'order': order, 'optimum': opt, 'before': first, 'between': second, 'options': OPTIONS[o], 'matrix': M}
        ctx.at(case)
        ctx.state(case)
        now = {'p': .5, 'q': -.5, 'r': 1.}
        for n, v in now.items():
            setattr(inf, n, v)
        vary = []
        for n in order:
            getattr(inf, n).vary(START[n], OWN[n][1], OWN[n][0])
            now[n] = START[n]
            vary.append(n)
        mapped = False
        for what in (first, second):
            for w in what:
                if w == 'fixed':
                    for n in 'pqr':
                        if n not in vary:
                            now[n] += 1.25
                            setattr(inf, n, now[n])
                elif w == 'start':
                    getattr(inf, vary[-1]).vary(3.)
                    now[vary[-1]] = 3.
                elif w == 'map':
                    inf.map_bounds()
                    mapped = True
                elif w == 'unmap':
                    inf.unmap_bounds()
                    mapped = False
                elif w == 'again':
                    n = vary[0]
                    getattr(inf, n).vary(1., OWN[n][1]*2., OWN[n][0])
                    now[n] = 1.
                elif w == 'drop':
                    if len(vary) > 1:
                        n = vary.pop(0)
                        getattr(inf, n).fix()
                elif w == 'more':
                    for n in 'rqp':
                        if n not in vary:
                            getattr(inf, n).vary(START[n], OWN[n][1], OWN[n][0])
                            now[n] = START[n]
                            vary.append(n)
                            break
                elif w == 'refused':
                    for bad in ({'method': 'nosuch'}, {'method': 'simplex'}):
                        try:
                            inf.fit(**bad)
                        except Exception:
                            continue
                        ctx.fail('a fit with %r was accepted' % (bad,), case)
                elif w == 'sim':
                    target = np.array([.5, -.75, 2.])
                    inf.d1.vals[:] = target
            f0 = float(inf.score())
            pars, ext = inf.fit(**OPTIONS[o])
            ctx.step()
            ctx.trace()
            pars, ext = [float(x) for x in pars], float(ext)
            if len(pars) != len(vary):
                ctx.fail('fit of %r returned %r' % (vary, pars), case)
            for n, v in zip(vary, pars):
                now[n] = v
            for n in 'pqr':
                v = float(getattr(inf, n))
                if not abs(v - now[n]) <= 1e-12*max(1., abs(now[n])):
                    ctx.fail('fit of %r returned %r but %s is %r' % (vary, pars, n, v), case)
                if n in vary and not OWN[n][0][0] <= v <= OWN[n][0][1]:
                    ctx.fail('%s = %r is outside its range' % (n, v), case)
            r = A @ np.array([now[n] for n in 'pqr']) - target
            back = sign*float(r @ r)
            if not abs(back - ext) <= 1e-9*max(1., abs(back)):
                ctx.fail('fit returned %r with score %r, but their score is %r' % (pars, ext, back), case)
            if (ext - f0)*sign > 1e-9*max(1., abs(f0)):
                ctx.fail('fit returned score %r, the start had %r' % (ext, f0), case)
            best, at = optimum(target, vary, now)
            if all(OWN[n][0][0] + 5. <= at['pqr'.index(n)] <= OWN[n][0][1] - 5. for n in vary) and not abs(ext - best) <= 1e-4 + 1e-3*abs(best):
                ctx.fail('fit of %r returned score %r at %r, the optimum is %r at %r' % (vary, ext, pars, best, at.tolist()), case)
            ctx.outcome((round(ext, 4), tuple(vary)))
    # nothing to vary: the score; no way to optimise
    inf = piemodels.mapinf(kind, M, A @ np.array([1., 2., 3.]))
    ctx.step()
    if float(inf.fit()) != float(inf.score()):
        ctx.fail('a fit with all parameters fixed gave %r, the score is %r' % (inf.fit(), inf.score()), {'kind': kind, 'fixed': True})
    try:
        inf.optimize()
    except Exception:
        pass
    else:
        ctx.fail('an optimisation over no parameters was accepted', {'kind': kind, 'fixed': True})
    ctx.sample({'kind': kind, 'order': order})


def run_unit(unit, ctx):
    if 'order' in unit:
        return run_mixed(unit, ctx)
    import numpy as np
    from vmc import piemodels
    from inference.pie.param import ParamRangeError
    nd, kind, mapped = unit['nd'], unit['kind'], unit['mapped']
    M = MATS[nd][unit['m']]
    A = np.array(M)
    names = 'pqr'[:nd]
    lim = RANGE
    thorough = ctx.tier == 'thorough'
    opts = list(itertools.product({1: (-3., 0., .5, 2., 9.9, 10., 14.), 2: (-3., 1., 12.) + ((.5,) if thorough else ()), 3: (-2., 1.)}[nd], repeat=nd))
    starts = list(itertools.product({1: (-10., -9.99, -1., 0., .3, 3., 10.), 2: (-1., 3.), 3: (0., 2.)}[nd], repeat=nd))
    if nd == 2:
        starts += [(10., -10.), (0., 0.), (-10., 1.), (9.75, 9.75)]
    deltas = (.01, .25, 5., 50.) if nd < 3 or thorough else (.25, 5.)

    def score(v):
        r = A @ np.array(v) - np.array(inf.target)
        c = float(r @ r)
        return c if kind == 'chi2' else -.5*c

    def inside(target, v, rng):
        """Minimising one coordinate after another, in either order, stays away from the bounds.

        The map flattens the score at the bounds, so a search that is once carried onto a bound stays there."""
        m = .05*(rng[1] - rng[0])
        for order in (range(nd), range(nd - 1, -1, -1)):
            x = np.array(v)
            for sweep in range(30):
                for i in order:
                    x[i] += A[:, i] @ (target - A @ x)/(A[:, i] @ A[:, i])
                    if not rng[0] + m <= x[i] <= rng[1] - m:
                        return False
        return True

    better = (lambda a, b: a <= b) if kind == 'chi2' else (lambda a, b: a >= b)
    for opt, floor, (rn, rng), start, delta in itertools.product(opts, FLOORS, lim.items(), starts, deltas):
        if any(not rng[0] <= s <= rng[1] for s in start):
            continue
        if nd > 1 and rn == 'one-sided' and not thorough:
            continue
        target = A @ np.array(opt)
        null = [i for i in range(3) if not A[i].any()]
        if floor and not null:
            continue
        if null:
            target[null[-1]] = floor
        fmin = floor**2 if null else 0.
        if kind != 'chi2':
            fmin *= -.5
        interior = all(rng[0] + .05*(rng[1] - rng[0]) <= o <= rng[1] - .05*(rng[1] - rng[0]) for o in opt)
        case = {'kind': kind, 'matrix': M, 'optimum': opt, 'floor': floor, 'range': rng, 'start': start, 'delta': delta, 'mapped': mapped}
        ctx.at(case)
        inf = piemodels.mapinf(kind, M, target)
        inf.target = target
        for n, s in zip(names, start):
            getattr(inf, n).vary(s, delta, rng)
        if mapped:
            inf.map_bounds()
        f0 = float(inf.score())
        inf.tried = []
        ctx.state(case)
        try:
            for again in (0, 1):
                if again and not (nd == 1 or delta == .25):
                    break
                pars, ext = inf.fit()
                ctx.step()
                ctx.trace()
                pars, ext = [float(x) for x in pars], float(ext)
                back = score(pars)
                if not abs(back - ext) <= 1e-9*max(1., abs(back), 1e-3*abs(f0)):
                    ctx.fail('fit returned %r with score %r, but their score is %r' % (pars, ext, back), case)
                if not better(ext, f0 + (1 if kind == 'chi2' else -1)*1e-9*max(1., abs(f0))):
                    ctx.fail('fit returned score %r, the start had %r' % (ext, f0), case)
                if any(not (rng[0] <= x <= rng[1]) for x in pars):
                    ctx.fail('fit returned %r outside the range %r' % (pars, rng), case)
                if [float(getattr(inf, n)) for n in names] != pars:
                    now = [float(getattr(inf, n)) for n in names]
                    if not np.allclose(now, pars, rtol=1e-12, atol=1e-300):
                        ctx.fail('fit returned %r but left the parameters at %r' % (pars, now), case)
                easy = not mapped or (not any(s in rng for s in start) and inside(target, start, rng))
                if interior and easy and not abs(ext - fmin) <= 1e-4 + 1e-3*abs(fmin):
                    ctx.fail('fit returned score %r at %r, the optimum is %r at %r' % (ext, pars, fmin, opt), case)
                f0 = ext
                ctx.outcome((round(ext, 4), interior))
        except ParamRangeError:
            if mapped:
                ctx.fail('a fit with mapped bounds left the range', case)
            ctx.note('unmapped search left the range')
        for v in inf.tried:
            if any(not (rng[0] <= x <= rng[1]) for x in v):
                ctx.fail('the model was evaluated at %r outside the range %r' % (v, rng), case)
        ctx.sample(case)
