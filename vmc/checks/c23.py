"""C23: two-dimensional credible regions on grids."""
import itertools

PROP = 'C23'
LEVEL = 'model_checking'
RULE = ('every density with values from a small lattice (zero included) on 2x2 to 3x3 grids, plus flat, truncated, multimodal, correlated and spiky families on grids up to 40x30; all combinations of linear and '
        'logarithmic axes; for each, the normalisation, the fraction above a lattice of levels and the critical levels for a lattice of probabilities asked in sequence on one object, given as a grid and as a '
        'function, are compared with direct sums; normalisation must not change under transposition and must scale with the axes')
ASSUMPTIONS = ['the fraction above a level is the documented trapezoid quadrature: exact along y for the piecewise linear density, trapezoid along x']

AXES = [('linear', -3., 5.), ('log', .5, 8.), ('lin', 0, 2), ('logarithmic', 1e-2, 10.)]
PAIRS = [(0, 0), (0, 1), (1, 0), (1, 3), (2, 0), (3, 2)]
PS = [.5, .05, .683, .954, .99]
OFFS = [0., -700., 500., -3.5]


def families():
    from math import exp, cos
    out = []
    for nx, ny in ((2, 7), (7, 2), (5, 5), (12, 9), (40, 30)):
        xs = [i/(nx - 1.) for i in range(nx)]
        ys = [i/(ny - 1.) for i in range(ny)]
        for f in (lambda x, y: exp(-.5*((x - .5)/.15)**2 - .5*((y - .4)/.1)**2), lambda x, y: exp(-8*((x - .5)**2 + (y - .5)**2 - 1.6*(x - .5)*(y - .5))),
                  lambda x, y: exp(-3*x - 2*y), lambda x, y: 1. + .02*x - .01*y, lambda x, y: 1., lambda x, y: 1. if abs(x - .5) < .3 and y > .4 else .2,
                  lambda x, y: 1. if abs(x - .5) < .3 and y > .4 else 0., lambda x, y: 1. + .9*cos(15*x)*cos(9*y), lambda x, y: 1. if x == 0. and y == 0. else 0.,
                  lambda x, y: exp(-.5*((x - .2)/.1)**2 - .5*((y - .2)/.1)**2) + .3*exp(-.5*((x - .8)/.1)**2 - .5*((y - .7)/.2)**2)):
            out.append([[f(x, y) for y in ys] for x in xs])
    return out


def units(tier):
    u = []
    for p in range(len(PAIRS)):
        for i in range(len(families())):
            u.append({'p': p, 'family': i})
        u.append({'p': p, 'shape': [2, 2], 'vals': [0., 1., 2., 5.], 'head': []})
        for h in (0., 1., 3.):
            u.append({'p': p, 'shape': [2, 3], 'vals': [0., 1., 3.], 'head': [h]})
            u.append({'p': p, 'shape': [3, 2], 'vals': [0., 1., 3.], 'head': [h]})
        if tier == 'thorough':
            for h in itertools.product((0., 1., 3.), repeat=2):
                u.append({'p': p, 'shape': [3, 3], 'vals': [0., 1., 3.], 'head': list(h)})
        else:
            for h in itertools.product((1., 3.), repeat=2):
                u.append({'p': p, 'shape': [3, 3], 'vals': [1., 3.], 'head': list(h)})
    return u + [{'p': 0, 'refuse': True}]


def refuse(ctx, np):
    """Unknown kinds of steps, grids of another dimension and contradictory requests are refused, and leave no trace."""
    from inference.grid.hpd import HPD2D
    from inference.grid.hpdgrid import HPDGrid2D
    lp = -np.add.outer(np.arange(4.)**2, np.arange(5.))
    for bad in ('cubic', '', 'linlog', 'li', None, 2):
        for where in (0, 1):
            st = ['lin', 'lin']
            st[where] = bad
            for name, make in (('HPD2D', lambda: HPD2D(lp, 1., 2., 1., 3., *st)), ('HPDGrid2D', lambda: HPDGrid2D(lambda x, y: -x*y, 1., 2., 4, 1., 3., 5, *st))):
                ctx.at({'class': name, 'steps': st})
                ctx.step()
                ctx.state((name, tuple(st)))
                try:
                    make()
                except ValueError:
                    continue
                ctx.fail('steps %r are accepted' % (st,), {'class': name})
    for shape in ((6,), (1, 2, 3), ()):
        ctx.at({'shape': shape})
        try:
            HPD2D(np.zeros(shape), 0., 1., 0., 1.)
        except (ValueError, IndexError):
            continue
        ctx.fail('a grid of shape %r is accepted' % (shape,), {'shape': shape})
    for h in (HPD2D(lp, 1., 2., 1., 3.), HPDGrid2D(lambda x, y: -x*y, 1., 2., 4, 1., 3., 5), HPD2D(lp, 1., 2., 1., 3., 'log', 'log')):
        a = h.critlevel(p=.5)
        n = len(h.probs)
        ctx.step()
        try:
            h.critlevel(p=.5, snsig=1.)
        except ValueError:
            pass
        else:
            ctx.fail('a probability and a number of sigmas are accepted together', {'class': type(h).__name__})
        b = h.critlevel(p=.5)
        if len(h.probs) != n + 1 or not abs(a - b) <= 1e-9:
            ctx.fail('the refused request changed the results', {'class': type(h).__name__})
        ctx.trace()
    ctx.sample({'refused': 'steps, shapes, requests'})


def run_unit(unit, ctx):
    import numpy as np
    if 'refuse' in unit:
        return refuse(ctx, np)
    from math import log, exp
    from scipy import stats
    from inference.grid.hpd import HPD2D
    from inference.grid.hpdgrid import HPDGrid2D
    A = [AXES[i] for i in PAIRS[unit['p']]]

    def axis(a, n):
        s, lo, hi = a
        if s.startswith('lin'):
            return [lo + (hi - lo)*i/(n - 1.) for i in range(n)], (hi - lo)/(n - 1.), False
        return [lo*(hi/lo)**(i/(n - 1.)) for i in range(n)], log(hi/lo)/(n - 1.), True

    def frac(q, ratio):
        lo, hi = np.minimum(q[:, :-1], q[:, 1:]), np.maximum(q[:, :-1], q[:, 1:])
        d = np.where(hi > lo, hi - lo, 1.)
        part = np.where(lo > ratio, .5*(lo + hi), np.where(hi > ratio, .5*(hi + ratio)*(hi - ratio)/d, 0.))
        rows = part.sum(axis=1)
        return float(rows.sum() - .5*(rows[0] + rows[-1]))

    def one(w, off, ps, deep):
        w = np.array(w, float)
        nx, ny = w.shape
        case = {'weights': w.tolist() if w.size < 20 else 'family', 'offset': off, 'axes': A, 'shape': [nx, ny]}
        ctx.at(case)
        m = w.max()
        xs, dx, xl = axis(A[0], nx)
        ys, dy, yl = axis(A[1], ny)
        q = w/m
        if xl:
            q = q*np.array(xs)[:, None]
        if yl:
            q = q*np.array(ys)[None, :]
        tot = frac(q, -1.)
        if tot <= 0.:
            return
        with np.errstate(all='ignore'):
            given = np.log(w) + off
            lg = np.log(q)
        keep = given.copy()
        objs = [('grid', HPD2D(given, A[0][1], A[0][2], A[1][1], A[1][2], A[0][0], A[1][0]), q)]
        if deep:
            def f(x, y):
                i = int(np.argmin(abs(np.array(xs) - x)))
                j = int(np.argmin(abs(np.array(ys) - y)))
                return float(given[i, j])
            objs.append(('function', HPDGrid2D(f, A[0][1], A[0][2], nx, A[1][1], A[1][2], ny, A[0][0], A[1][0]), q))
            objs.append(('transposed', HPD2D(given.T.copy(), A[1][1], A[1][2], A[0][1], A[0][2], A[1][0], A[0][0]), q.T))
            objs.append(('fortran order', HPD2D(np.asfortranarray(given), A[0][1], A[0][2], A[1][1], A[1][2], A[0][0], A[1][0]), q))
        lnorm = log(tot*dx*dy) + off + log(m)
        ctx.state((w.tobytes(), w.shape, off, unit['p']))
        fin = sorted({float(v) for v in lg.ravel() if v > -1e9})
        levels = [fin[0] - 2., fin[-1] + 1e-3, fin[-1] + 3.] + [a + g*(b - a) for a, b in zip(fin[:-1], fin[1:]) if b - a > 1e-6 for g in (.25, .9)][:10]
        for tag, h, qq in objs:
            if not abs(h.lml - lnorm) <= 1e-9*max(1., abs(lnorm)):
                ctx.fail('lml is %r, the log integral is %r (%s)' % (h.lml, lnorm, tag), case)
            if tag != 'transposed' and not (np.allclose(h.xvals, xs, rtol=1e-12) and np.allclose(h.yvals, ys, rtol=1e-12)):
                ctx.fail('grid points %r %r (%s)' % (h.xvals, h.yvals, tag), case)
            last = None
            for l in sorted(levels):
                want = frac(qq, exp(l))/frac(qq, -1.)
                got = float(h.fracgt(l))
                if not abs(got - want) <= 1e-10:
                    ctx.fail('fraction above log ratio %r is %r, expected %r (%s)' % (l, got, want, tag), case)
                if last is not None and got > last + 1e-12:
                    ctx.fail('the fraction rises with the level (%s)' % tag, case)
                last = got
                ctx.step()
            ans = {}
            for p in list(ps) + list(ps[:1]):
                for kw in ({'p': p},) + (({'snsig': 1.5}, {'p': p, 'tol': 1e-9}) if p == ps[0] and deep else ()):
                    tol = kw.get('tol', 3e-4)
                    n0 = len(h.probs)
                    l = h.critlevel(**kw)
                    ctx.step()
                    target = kw['p'] if 'p' in kw else float(h.probs[-1])
                    if 'p' not in kw and not min(abs(target - t) for t in (0.8663855974622838, 0.6753475326416503)) <= 1e-9:
                        ctx.fail('1.5 sigma taken for probability %r' % target, case)
                    up, dn = frac(qq, exp(l - 2*tol - 1e-9))/frac(qq, -1.), frac(qq, exp(l + 2*tol + 1e-9))/frac(qq, -1.)
                    if not (up >= target - 1e-9 and dn <= target + 1e-9):
                        ctx.fail('log ratio %r for %r encloses between %r and %r (%s)' % (l, kw, up, dn, tag), case)
                    if not len(h.probs) == len(h.levels) == len(h.deltas) == n0 + 1 or not abs(h.probs[-1] - target) <= 1e-12 or h.deltas[-1] != l or not abs(h.levels[-1] - (l + off + log(m))) <= 1e-9*max(1., abs(off)):
                        ctx.fail('the recorded result %r %r %r does not match %r' % (h.probs[-1], h.deltas[-1], h.levels[-1], (kw, l)), case)
                    k = repr(kw)
                    if k in ans and not abs(ans[k] - l) <= 1e-9:
                        ctx.fail('asking again for %r gives %r, before it was %r' % (kw, l, ans[k]), case)
                    ans[k] = l
                    ctx.outcome(round(l, 3))
        # rescaled axis
        if deep and not xl:
            h = HPD2D(given, 2*A[0][1], 2*A[0][2], A[1][1], A[1][2], A[0][0], A[1][0])
            if not abs(h.lml - lnorm - log(2.)) <= 1e-9*max(1., abs(lnorm)):
                ctx.fail('doubling the x scale changes lml from %r to %r' % (lnorm, h.lml), case)
        if not (given == keep).all():
            ctx.fail('the array of log densities was changed', case)
        ctx.trace()
        ctx.sample(case)

    if 'family' in unit:
        w = families()[unit['family']]
        for off in OFFS:
            one(w, off, PS, True)
    else:
        nx, ny = unit['shape']
        k = 0
        for t in itertools.product(unit['vals'], repeat=nx*ny - len(unit['head'])):
            t = tuple(unit['head']) + t
            if max(t) <= 0.:
                continue
            k += 1
            one([t[i*ny:(i + 1)*ny] for i in range(nx)], OFFS[k % 4], PS if k % 5 == 0 else PS[:2], k % 5 == 0)
