"""C13: observed information of a Bayesian inference: minus the Hessian at the mode; nothing moves."""
import itertools

PROP = 'C13'
LEVEL = 'model_checking'
RULE = ('every posterior of a lattice (design matrices, sigmas, modes, numbers of varying parameters and the order they were made varying, step scales over 8 '
        'decades, logp changes, iteration counts), with the parameters at the mode reached directly, by a fit, or with other evaluations made since; '
        'two calls in a row; matrices compared with the exact second derivatives, all parameters compared before and after, also when the call fails')
ASSUMPTIONS = ['tolerance 1e-5 relative to the matrix scale plus 10 times the reported error']

MATS = {1: [[[1.], [0.], [0.]], [[.01], [0.], [0.]], [[100.], [1.], [0.]]],
        2: [[[1., 0.], [0., 1.], [0., 0.]], [[1., 0.], [0., 30.], [0., 0.]], [[1., .9], [0., .3], [0., 0.]], [[1., 1.], [1., -1.], [.5, 2.]]],
        3: [[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [[1., .5, .2], [0., 1., .5], [0., 0., 1.]], [[1., -.8, .3], [.4, .1, 1.], [0., 2., .5]]]}
MODES = [(0., 0., 0.), (1., -2., .5), (-30., 7., 40.)]
SIG = [(1., 1., 1.), (.1, 2., 5.)]


# coefficients of x^3, y^3, x^2 y, x^4, y^4 next to the quadratic form
CURVES = [(0., 0., 0., .2, .1), (.1, -.2, .1, .3, .2), (0., 0., 0., 2., 0.), (.3, .1, 0., .1, .1), (0., 0., 0., 0., 0.)]


def units(tier):
    return [{'nd': nd, 'm': m, 'via': via} for nd in (1, 2, 3) for m in range(len(MATS[nd]))
            for via in ('set', 'fit', 'moved', 'unscored')] + [{'nd': 3, 'm': m, 'via': 'notmode'} for m in range(3)] + [{'curved': k, 'order': o} for k in range(len(CURVES)) for o in ([0], [1], [0, 1], [1, 0])]


def curved(unit, ctx):
    """Posteriors that are not normal: the options of obs_info do what they do in obsinfo and dllsteps on the same function, steps given or not."""
    import numpy as np
    from vmc import piemodels
    from inference.deriv.obsinfo import dllsteps, obsinfo
    c, order = CURVES[unit['curved']], unit['order']
    for H in ([[1., 0.], [0., 1.]], [[4., 1.], [1., .5]]):
        H = np.array(H)
        for mode in ((0., 0.), (1.5, -2.)):
            def logp(v):
                x, y = v[0] - mode[0], v[1] - mode[1]
                return -(.5*(H[0, 0]*x*x + 2*H[0, 1]*x*y + H[1, 1]*y*y) + c[0]*x**3 + c[1]*y**3 + c[2]*x*x*y + c[3]*x**4 + c[4]*y**4) - 5.
            base = type(piemodels.mapinf('bayes', [[1., 0.], [0., 1.], [0., 0.]], (0., 0., 0.)))
            cls = type('Curved', (base,), {'score': lambda self: logp((float(self.p), float(self.q)))})

            def part(z):
                v = list(mode)
                for i, a in zip(order, z):
                    v[i] = a
                return logp(v)
            for steps, dlogp, n in itertools.product((None, .1, 1., .5), (None, 1., .3, .05), (None, 3, 1, 2)):
                case = {'coefficients': c, 'quadratic': H.tolist(), 'mode': mode, 'varying': order, 'steps': steps, 'dlogp': dlogp, 'n': n}
                ctx.at(case)
                ctx.state(case)
                inf = cls()
                inf.p, inf.q = mode
                for i in order:
                    getattr(inf, 'pq'[i]).vary(mode[i], .2*(i + 1), (-1e9, 1e9))
                kw = {}
                if dlogp is not None:
                    kw['dlogp'] = dlogp
                if n is not None:
                    kw['n'] = n
                given = None if steps is None else [steps*(k + 1) for k in range(len(order))]
                keep = None if given is None else list(given)
                z = [mode[i] for i in order]
                top = part(z)
                guess = [.2*(i + 1) for i in order] if given is None else keep
                try:
                    d = dllsteps(part, z, guess, 1. if dlogp is None else dlogp, top)
                except RuntimeError:
                    ctx.note('no scale found')
                    continue
                want, werr = obsinfo(part, z, d, top, niter=3 if n is None else n)
                info, err = inf.obs_info(steps=given, err=True, **kw)
                ctx.step()
                s = np.sqrt(np.diag(H)[order])
                if not np.allclose(info, want, rtol=1e-7, atol=1e-7*s.min()**2) or not np.allclose(err, werr, rtol=1e-5, atol=1e-7*s.min()**2):
                    ctx.fail('information %r +- %r; the same function has %r +- %r by obsinfo() with these options' % (np.array(info).tolist(), np.array(err).tolist(), np.array(want).tolist(), np.array(werr).tolist()), case)
                plain = inf.obs_info(steps=given, **kw)
                if not np.allclose(plain, info, rtol=1e-12, atol=0):
                    ctx.fail('without errors the information is %r' % np.array(plain).tolist(), case)
                if given != keep:
                    ctx.fail('the steps given were changed to %r' % given, case)
                if [float(inf.p), float(inf.q)] != list(mode):
                    ctx.fail('obs_info moved the parameters to %r' % [float(inf.p), float(inf.q)], case)
                ctx.trace()
                ctx.outcome((tuple(np.round(np.array(info).ravel(), 6)),))
    ctx.sample({'coefficients': c, 'varying': order})


def run_unit(unit, ctx):
    if 'curved' in unit:
        return curved(unit, ctx)
    import numpy as np
    from vmc import piemodels
    nd, via = unit['nd'], unit['via']
    M = MATS[nd][unit['m']]
    A = np.array(M)
    names = 'pqr'[:nd]
    thorough = ctx.tier == 'thorough'
    orders = [o for k in range(1, nd + 1) for o in itertools.permutations(range(nd), k)]
    for mode, sig, order, scale, dlogp, n in itertools.product(MODES, SIG, orders, (1e-4, .01, 1., 100., 1e4), (1., .1, 4.) if thorough or nd < 3 else (1., .1), (3, 1, 0, 5) if thorough else (3, 1)):
        mode = mode[:nd]
        W = A/np.array(sig)[:, None]
        H = (W.T @ W)[np.ix_(order, order)]
        case = {'matrix': M, 'mode': mode, 'sigmas': sig, 'varying': order, 'scale': scale, 'dlogp': dlogp, 'n': n, 'via': via}
        ctx.at(case)
        ctx.state(case)
        inf = piemodels.mapinf('bayes', M, A @ np.array(mode), sig)
        for i in range(nd):
            setattr(inf, names[i], mode[i])
        for i in order:
            getattr(inf, names[i]).vary(mode[i], scale/np.sqrt((W.T @ W)[i, i]), (-1e9, 1e9))
        if via == 'fit':
            if not 1e-2 <= scale <= 100.:
                continue
            inf.fit()
            # the exact mode, so that the check is not about the precision of the fit
            for i in order:
                getattr(inf, names[i]).set_value(mode[i])
            inf.score()
        elif via == 'set':
            inf.score()
        elif via == 'moved':
            inf.score()
            for i in order:
                getattr(inf, names[i]).set_value(mode[i] + 3.)
            inf.score()
            for i in order:
                getattr(inf, names[i]).set_value(mode[i])
        elif via == 'notmode':
            for i in order:
                getattr(inf, names[i]).set_value(mode[i] - 2.)
            inf.score()
        before = [float(getattr(inf, x)) for x in names]
        scores = inf.score() if via != 'unscored' else None
        outs = []
        for again in (0, 1):
            ctx.step()
            try:
                info, err = inf.obs_info(dlogp=dlogp, n=n, err=True)
            except Exception as e:
                if via != 'notmode':
                    ctx.fail('obs_info failed at the mode: %r' % e, case)
                info = None
            now = [float(getattr(inf, x)) for x in names]
            if now != before:
                ctx.fail('obs_info moved the parameters from %r to %r' % (before, now), case)
            if scores is not None and inf.score() != scores:
                ctx.fail('obs_info changed the score', case)
            if info is None:
                ctx.note('refused away from a mode')
                continue
            if via == 'notmode':
                continue
            info, err = np.array(info), np.array(err)
            k = len(order)
            if info.shape != (k, k):
                ctx.fail('information has shape %r for %d varying parameters' % (info.shape, k), case)
            s = np.sqrt(np.diag(H))
            tol = (1e-5*np.outer(s, s) + 10*np.abs(err))
            if not (np.abs(info - H) <= tol).all():
                ctx.fail('information %r, expected %r (reported error %r)' % (info.tolist(), H.tolist(), err.tolist()), case)
            if not (np.abs(err) <= 1e-2*np.outer(s, s)).all():
                ctx.fail('reported error %r is not that of a quadratic with information %r' % (err.tolist(), H.tolist()), case)
            outs.append(info)
            ctx.trace()
        if len(outs) == 2 and not np.allclose(outs[0], outs[1], rtol=1e-12, atol=0):
            ctx.fail('a second call gave %r after %r' % (outs[1].tolist(), outs[0].tolist()), case)
        if outs:
            plain = np.array(inf.obs_info(dlogp=dlogp, n=n))
            if not np.allclose(plain, outs[0], rtol=1e-12, atol=0):
                ctx.fail('without errors the information is %r' % plain.tolist(), case)
        ctx.outcome((H.tolist(), via))
        ctx.sample(case)
