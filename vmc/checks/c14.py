"""C14: dllsteps and obsinfo on every quadratic (and quartic perturbations) of a lattice; faults at every callback."""
import itertools

PROP = 'C14'
LEVEL = 'model_checking'
RULE = ('every function of a lattice of negative-definite quadratics in 1-4 dimensions, with and without quartic and cubic terms, offsets up to 1e6, step guesses over 8 decades and both '
        'signs, dll, iteration counts, with the maximum given or not; then for a subset an exception raised at every single function evaluation, and points that are not maxima, flat or undefined functions; '
        'the arrays of the caller are compared before and after every call')
ASSUMPTIONS = ['functions that are not quadratic: errors allowed 10 times the reported error plus 1e-5 relative (quartics) or 1e-8 (others, mixed terms also the relative errors of the unmixed ones)', 'a guess so small that the change of the function drowns in rounding may be refused']

HESS = {1: [[[1.]], [[1e-4]], [[2500.]]],
        2: [[[1., 0.], [0., 1.]], [[4., 1.], [1., .5]], [[1., -.9], [-.9, 1.]], [[1e-3, 0.], [0., 400.]], [[100., 9.], [9., 1.]]],
        3: [[[1., 0., 0.], [0., 4., 0.], [0., 0., 9.]], [[2., 1., .5], [1., 3., -1.], [.5, -1., 5.]], [[1., .5, .5], [.5, 1., .5], [.5, .5, 1.]]],
        4: [[[2., .1, .2, .3], [.1, 5., .4, -.5], [.2, .4, 1., .6], [.3, -.5, .6, 9.]]]}


def units(tier):
    u = [{'t': 'quad', 'nd': nd, 'm': m, 'off': off} for nd in HESS for m in range(len(HESS[nd])) for off in (0., -3.25, 1e6)]
    u += [{'t': 'fault', 'nd': nd, 'm': m} for nd in (1, 2, 3) for m in range(2)]
    u += [{'t': 'smooth', 'nd': nd, 'm': m} for nd in HESS for m in range(len(HESS[nd]))]
    u += [{'t': 'bad'}]
    return u


class Boom(Exception):
    pass


def func(np, H, c, off, quart=0., cubic=0.):
    d = np.sqrt(np.diag(H))

    def f(x):
        y = np.array(x, float) - c
        z = d*y
        return float(off - .5*(y @ H @ y) - quart*(z**4).sum() - quart*(z.sum())**4/16. + cubic*(z**3).sum())
    return f


def run_unit(unit, ctx):
    import numpy as np
    from inference.deriv import dllsteps, obsinfo
    if unit['t'] == 'bad':
        return bad(ctx, np, dllsteps, obsinfo)
    nd = unit['nd']
    H = np.array(HESS[nd][unit['m']])
    s = np.sqrt(np.diag(H))
    if unit['t'] == 'smooth':
        return smooth(ctx, np, obsinfo, H, s, nd)
    if unit['t'] == 'fault':
        return fault(ctx, np, dllsteps, obsinfo, H, s, nd)
    off = unit['off']
    thorough = ctx.tier == 'thorough'
    for cen, gs, sg, dll, given, quart, cubic in itertools.product((0., 1.5, -40.), (1e-4, .01, .3, 1., 10., 1e4), (1., -1.), (1., .1, 5.), (True, False), (0., .01, .03), (0., .01)):
        if cubic and (not quart or abs(gs) > 1. or dll > 1.):
            continue
        if quart and gs > 10.:
            continue
        c = np.array([cen*(1 + i) for i in range(nd)])
        f = func(np, H, c, off, quart, cubic)
        guess = sg*gs/s
        g0, c0 = guess.copy(), c.copy()
        case = {'H': H.tolist(), 'centre': cen, 'guess': guess.tolist(), 'dll': dll, 'offset': off, 'quartic': quart, 'cubic': cubic, 'given': given}
        ctx.at(case)
        ctx.state(case)
        ctx.step()
        noise = 1e-15*(abs(off) + (cen*nd)**2*1e-3)
        eps = 2.3e-16*max(1., abs(off)) + 1e-15*abs(cen)*nd
        small = .5*gs*gs < 1e4*eps
        try:
            deltas = dllsteps(f, c, guess, dll, f(c) if given else None)
        except (RuntimeError, ValueError):
            deltas = None
            if not small and gs <= 1.:
                ctx.fail('dllsteps failed for a function at its maximum', case)
            if not small and not quart:
                ctx.fail('dllsteps failed for a quadratic at its maximum', case)
            ctx.note('refused')
        if (guess != g0).any() or (c != c0).any():
            ctx.fail('dllsteps changed its arguments: %r %r' % (guess.tolist(), c.tolist()), case)
        if deltas is not None:
            ctx.trace()
            deltas = np.array(deltas)
            for i in range(nd):
                x = c.copy()
                x[i] += deltas[i]
                drop = f(c) - f(x)
                if not abs(drop - dll) <= .0101*dll + 1e-15*abs(off):
                    ctx.fail('step %r of coordinate %d lowers the function by %r instead of %r' % (deltas[i], i, drop, dll), case)
        # information matrix, with steps of the right size
        for niter in (0, 1, 2, 3, 5):
            if gs not in (.3, 1.) or (not thorough and dll == 5.):
                continue
            steps = guess if dll != .1 else (deltas if deltas is not None else guess)
            s0 = steps.copy()
            info, err = obsinfo(f, c, steps, f(c) if given else None, niter)
            info, err = np.array(info), np.array(err)
            ctx.step()
            ctx.trace()
            if (steps != s0).any() or (c != c0).any():
                ctx.fail('obsinfo changed its arguments', case)
            if not np.array_equal(info, info.T) or not np.array_equal(err, err.T):
                ctx.fail('information or errors not symmetric: %r %r' % (info.tolist(), err.tolist()), case)
            if niter == 0 and err.any():
                ctx.fail('errors reported without extrapolation: %r' % err.tolist(), case)
            sc = np.outer(s, s)
            rnd = sc*(1e-13*(abs(off) + 1. + cen*cen)*4.**niter/.09 + 1e-7)
            if not quart:
                tol = rnd + 10*err
                if niter and not (err <= 10*rnd + 1e-5*sc).all():
                    ctx.fail('errors %r reported for a quadratic' % err.tolist(), case)
            elif niter == 0:
                tol = None
            else:
                tol = rnd + 10*err + 1e-5*sc
            if tol is not None and not (np.abs(info - H) <= tol).all():
                ctx.fail('niter %d: information %r, expected %r, reported errors %r' % (niter, info.tolist(), H.tolist(), err.tolist()), case)
            if quart and niter >= 2 and abs(off) < 10. and not (np.abs(info - H) <= 1e-4*sc + rnd).all():
                ctx.fail('niter %d: extrapolated information %r, expected %r' % (niter, info.tolist(), H.tolist()), case)
            ctx.outcome((info.round(4).tolist(), niter))
        ctx.sample(case)


SHAPES = {'log cosh': lambda np, z, q: -np.log(np.cosh(np.sqrt(2*q))) if q < 1e4 else -np.sqrt(2*q),
          'Cauchy': lambda np, z, q: -np.log1p(q),
          'sixth power': lambda np, z, q: -q - .05*(z.sum())**6 - .02*q**3,
          'product of powers': lambda np, z, q: -q - .05*q**4 - .1*float(np.prod(1. + z*z) - 1. - (z*z).sum())}


def smooth(ctx, np, obsinfo, H, s, nd):
    """Functions that extrapolation does not make exact: the reported errors are truthful and not idle, and scale with the coordinates."""
    # (x, y, ... measured in the units 2^-k_i: then every number is the same up to powers of two)
    scales = [np.ones(nd), 2.**-np.array([7*(i + 1) for i in range(nd)]), 2.**np.array([9 - 6*i for i in range(nd)])]
    for name, niter, step, cen in itertools.product(sorted(SHAPES), (1, 2, 3, 4), (.25, .5, 1., -.5), (0., 1.)):
        shape = SHAPES[name]
        base = None
        for k, sc in enumerate(scales):
            c = cen*sc*np.array([1. + i for i in range(nd)])

            def f(x):
                y = (np.array(x, float) - c)/sc
                return float(shape(np, y*s, .5*(y @ H @ y)))
            case = {'H': H.tolist(), 'function': name, 'centre': c.tolist(), 'units': sc.tolist(), 'step': step, 'niter': niter}
            ctx.at(case)
            ctx.state(case)
            ctx.step()
            info, err = obsinfo(f, c, step*sc/s, f(c), niter)
            u = np.outer(sc, sc)
            info, err = np.array(info)*u, np.array(err)*u
            ss = np.outer(s, s)
            # the terms of the product have mixed fourth order only, so the information is H for every shape
            e = np.abs(info - H)
            # mixed derivatives are measured in units of the unmixed ones, whose errors they share
            dg = np.diag(err)/np.diag(H)
            if not (e <= 10*(err + ss*np.maximum.outer(dg, dg)) + 1e-8*ss).all():
                ctx.fail('information %r, expected %r, reported errors %r' % (info.tolist(), H.tolist(), err.tolist()), case)
            # (the mixed ones use steps of their own, of one standard deviation)
            if abs(step) <= .5 and not (np.diag(err) <= .3*np.diag(ss)).all():
                ctx.fail('errors %r of the information %r are far too large' % (err.tolist(), info.tolist()), case)
            if base is None:
                base = info, err
            elif not (np.abs(info - base[0]) <= 1e-7*ss).all() or not (np.abs(err - base[1]) <= 1e-7*ss + 1e-3*base[1]).all():
                ctx.fail('in other units the information and errors are %r instead of %r' % ([info.tolist(), err.tolist()], [base[0].tolist(), base[1].tolist()]), case)
            ctx.trace()
            ctx.outcome((name, niter, err.round(6).tolist()))


def fault(ctx, np, dllsteps, obsinfo, H, s, nd):
    c0 = np.array([1.5*(i + 1) for i in range(nd)])
    for which in ('steps', 'info'):
        for quart in (0., .02):
            base = func(np, H, c0, -2., quart)

            def run(c, g, k):
                n = [0]

                def f(x):
                    n[0] += 1
                    if n[0] == k:
                        raise Boom('at call %d' % k)
                    return base(x)
                if which == 'steps':
                    return n, dllsteps(f, c, g, 1., -2.)
                return n, obsinfo(f, c, g, -2., 2)

            n, clean = run(c0.copy(), .5/s, -1)
            for k in range(1, n[0] + 1):
                case = {'H': H.tolist(), 'which': which, 'raise at evaluation': k, 'quartic': quart}
                ctx.at(case)
                ctx.state(case)
                ctx.step()
                c, g = c0.copy(), .5/s
                g0 = g.copy()
                try:
                    run(c, g, k)
                except Boom:
                    pass
                else:
                    ctx.fail('an exception of the user function at evaluation %d was swallowed' % k, case)
                if (c != c0).any() or (g != g0).any():
                    ctx.fail('after a failure the arguments are %r %r' % (c.tolist(), g.tolist()), case)
                again = run(c, g, -1)[1]
                if not np.allclose(np.array(again), np.array(clean), rtol=0, atol=0):
                    ctx.fail('after a failure the next call gave %r instead of %r' % (again, clean), case)
                ctx.trace()
                ctx.outcome((k, which))
            ctx.note('fault points', n[0])


def bad(ctx, np, dllsteps, obsinfo):
    nan = float('nan')
    cases = [('flat', lambda x: 1., False), ('flat direction', lambda x: -(x[0]**2), False), ('minimum', lambda x: x[0]**2 + x[1]**2, False),
             ('saddle', lambda x: x[0]**2 - x[1]**2, False), ('undefined away from the point', lambda x: 0. if (x[0], x[1]) == (0., 0.) else nan, False),
             ('saturating', lambda x: -.4*(1 - np.exp(-x[0]**2 - x[1]**2)), False), ('rising', lambda x: x[0] + x[1], False)]
    for name, f, ok in cases:
        for guess in ((1., 1.), (.01, .01), (1e-3, 10.)):
            for maxiter in (1, 5, 20):
                x, g = np.array([0., 0.]), np.array(guess)
                case = {'function': name, 'guess': guess, 'maxiter': maxiter}
                ctx.at(case)
                ctx.state(case)
                ctx.step()
                try:
                    d = dllsteps(f, x, g, 1., maxiter=maxiter)
                except (RuntimeError, ValueError):
                    pass
                else:
                    ctx.fail('dllsteps returned %r for a function (%s) that has no such steps' % (d, name), case)
                if x.tolist() != [0., 0.] or g.tolist() != list(guess):
                    ctx.fail('after a failure the arguments are %r %r' % (x.tolist(), g.tolist()), case)
                ctx.trace()
                ctx.outcome(name)
