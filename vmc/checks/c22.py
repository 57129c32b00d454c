"""C22: one-dimensional credible regions on grids."""
import itertools

PROP = 'C22'
LEVEL = 'model_checking'
RULE = ('every density with values from a small lattice (zero included) on 2-5 grid points, plus families of flat, truncated, multimodal, spiky and smooth densities on up to 200 points; linear and logarithmic '
        'grids; scales from exp(-700) to exp(500); for each, the normalisation, the fraction above a lattice of levels, and the critical level and bounds for a lattice of probabilities, asked in '
        'sequence on one object, given as a grid and as a function, are compared with exact integrals of the piecewise linear density')
ASSUMPTIONS = ['levels within 1e-9 of a grid value are not compared (they may fall on either side)', 'next to zero density a bound may lie anywhere in its grid interval']

GRIDS = [('linear', -3., 5.), ('log', .5, 8.), ('lin', 0, 1), ('logarithmic', 1e-3, 1e3)]
PS = [.5, .05, .683, .3, .954, .9, .99]
OFFS = [0., -700., 500., -3.5]


def lattice(n, vals):
    for t in itertools.product(vals, repeat=n):
        if max(t) > 0:
            yield t


def families():
    from math import exp, cos, sin
    out = []
    for n in (6, 7, 11, 40, 101, 200):
        xs = [i/(n - 1.) for i in range(n)]
        out.append([exp(-.5*((x - .5)/.12)**2) for x in xs])
        out.append([exp(-.5*((x - .9)/.2)**2) for x in xs])          # truncated above
        out.append([exp(-3*x) for x in xs])                          # truncated below
        out.append([1. + .05*x for x in xs])                         # nearly flat
        out.append([1.]*n)                                           # flat
        out.append([1. if .3 < x < .7 else 0. for x in xs])          # box with zero tails
        out.append([1. if .3 < x < .7 else .25 for x in xs])         # box on a flat floor
        out.append([exp(-.5*((x - .25)/.05)**2) + .5*exp(-.5*((x - .75)/.1)**2) for x in xs])
        out.append([1. + .9*cos(25*x) for x in xs])                  # 4 peaks
        out.append([1e-30 + exp(-.5*((x - .5)/.02)**2) for x in xs])
        out.append([2. if i % 2 else 1. for i in range(n)])          # as many bounds as possible
        out.append([1. + .3*sin(9*x)*x for x in xs])
        out.append([1. if i in (1, n - 2) else 0. for i in range(n)])
        out.append([0. if i == n//2 else 1. for i in range(n)])
        out.append([exp(-.5*(40*x)**2) if x < .95 else 0. for x in xs])
    for k in range(1, 8):                                            # k spikes
        out.append([1. + .01*i if i % 4 == 2 and i < 4*k else .01 for i in range(4*k + 1)])
    # bounds exactly on grid values are reached when values repeat
    out += [[1., 2., 2., 1.], [1., 1., 2., 3., 3., 1.], [3., 2., 1., 2., 3.], [5., 1., 1., 1., 5., 1., 1.]]
    return out


def units(tier):
    u = []
    for g in range(len(GRIDS)):
        for i in range(len(families())):
            u.append({'g': g, 'family': i})
        for n in (2, 3, 4):
            u.append({'g': g, 'n': n, 'vals': [0., 1., 2., 5.], 'head': None})
        for h in ([0., 1., 2., 5.] if tier != 'thorough' else [0., 1., 2., 3., 5., 5.5]):
            u.append({'g': g, 'n': 5, 'vals': [0., 1., 2., 5.] if tier != 'thorough' else [0., 1., 2., 3., 5., 5.5], 'head': h})
    return u + [{'g': 0, 'refuse': True}]


def refuse(ctx, np):
    """Unknown kinds of steps, grids of another dimension and contradictory requests are refused, and leave no trace."""
    from inference.grid.hpd import HPD1D
    from inference.grid.hpdgrid import HPDGrid1D
    lp = np.array([0., 1., 2., 1.5, 0.])
    for bad in ('cubic', '', 'linlog', 'li', None, 2):
        for name, make in (('HPD1D', lambda: HPD1D(lp, 1., 2., bad)), ('HPDGrid1D', lambda: HPDGrid1D(lambda x: -x, 1., 2., 5, bad))):
            ctx.at({'class': name, 'step': bad})
            ctx.step()
            ctx.state((name, bad))
            try:
                make()
            except ValueError:
                continue
            ctx.fail('steps %r are accepted' % (bad,), {'class': name, 'step': bad})
    for shape in ((2, 3), (1, 5), ()):
        ctx.at({'shape': shape})
        try:
            HPD1D(np.zeros(shape), 0., 1.)
        except ValueError:
            continue
        ctx.fail('a grid of shape %r is accepted' % (shape,), {'shape': shape})
    for h in (HPD1D(lp, 1., 2.), HPDGrid1D(lambda x: -x*x, 1., 2., 5), HPD1D(lp, 1., 2., 'log')):
        a = h.critlevel(p=.5)
        n = len(h.probs)
        ctx.step()
        try:
            h.critlevel(p=.5, snsig=1.)
        except ValueError:
            pass
        else:
            ctx.fail('a probability and a number of sigmas are accepted together', {'class': type(h).__name__})
        b = h.critlevel(p=.5)
        if len(h.probs) != n + 1 or not abs(a[0] - b[0]) <= 1e-9:
            ctx.fail('the refused request changed the results', {'class': type(h).__name__})
        ctx.trace()
    ctx.sample({'refused': 'steps, shapes, requests'})


def xlog(w):
    from math import log
    return log(w) if w > 0 else float('-inf')


def run_unit(unit, ctx):
    import numpy as np
    if 'refuse' in unit:
        return refuse(ctx, np)
    from math import log, exp
    from scipy import stats
    from inference.grid.hpd import HPD1D
    from inference.grid.hpdgrid import HPDGrid1D
    step, xlo, xhi = GRIDS[unit['g']]
    lin = step.startswith('lin')

    def frac(q, ratio):
        """Exact integral of the piecewise linear density above ratio, in units of the step."""
        s = 0.
        for a, b in zip(q[:-1], q[1:]):
            lo, hi = min(a, b), max(a, b)
            if lo > ratio:
                s += .5*(lo + hi)
            elif hi > ratio:
                s += .5*(hi + ratio)*(hi - ratio)/(hi - lo)
        return s

    def one(w, off, ps, deep):
        n = len(w)
        case = {'weights': w if n < 30 else 'family', 'offset': off, 'grid': GRIDS[unit['g']], 'n': n}
        ctx.at(case)
        m = max(w)
        if lin:
            xs = [xlo + (xhi - xlo)*i/(n - 1.) for i in range(n)]
            dx = (xhi - xlo)/(n - 1.)
        else:
            xs = [xlo*(xhi/xlo)**(i/(n - 1.)) for i in range(n)]
            dx = log(xhi/xlo)/(n - 1.)
        q = [v/m*(1. if lin else x) for v, x in zip(w, xs)]
        lg = [xlog(v) for v in q]
        tot = frac(q, -1.)
        given = np.array([xlog(v) + off for v in w])
        keep = given.copy()
        objs = [HPD1D(given, xlo, xhi, step)]
        if deep:
            table = iter(given.tolist())
            objs.append(HPDGrid1D(lambda x: next(table), xlo, xhi, n, step))
        lnorm = log(tot*dx) + off + log(m)
        ctx.state((tuple(w), off, unit['g']))
        for k, h in enumerate(objs):
            tag = ('grid', 'function')[k]
            for name, got in (('norm()', h.norm()), ('lml', h.lml)):
                if not abs(got - lnorm) <= 1e-9*max(1., abs(lnorm)):
                    ctx.fail('%s is %r, the log integral is %r (%s)' % (name, got, lnorm, tag), case)
            if not np.allclose(np.asarray(h.xvals, float), xs, rtol=1e-12, atol=1e-12*abs(xhi)):
                ctx.fail('grid points %r' % (h.xvals,), case)
            fin = sorted({v for v in lg if v > -1e9})
            levels = [fin[0] - 2., fin[-1] + 1e-3, fin[-1] + 3.] + [a + f*(b - a) for a, b in zip(fin[:-1], fin[1:]) if b - a > 1e-6 for f in (.25, .9)][:12]
            for l in levels:
                want = frac(q, exp(l))/tot
                got = float(h.fracgt(l))
                if not abs(got - want) <= 1e-10:
                    ctx.fail('fraction above log ratio %r is %r, expected %r (%s)' % (l, got, want, tag), case)
                ctx.step()
            asked = []
            ans = {}
            for p in ps:
                for kw in ({'p': p},) + (({'snsig': 1.5}, {'p': p, 'tol': 1e-9}) if p == ps[0] and deep else ()):
                    tol = kw.get('tol', 3e-4)
                    target = kw['p'] if 'p' in kw else float(stats.norm.cdf(1.5) - stats.norm.cdf(-1.5))
                    many = False
                    try:
                        l, b = h.critlevel(**kw)
                    except RuntimeError as e:
                        many = str(e)
                    ctx.step()
                    if many:
                        # only more than ten bounds may be refused
                        nb = max(sum((x > c) != (y > c) for x, y in zip(lg[:-1], lg[1:])) for c in [v + d for v in fin for d in (-1e-7, 1e-7)] + [.5*(x + y) for x, y in zip(fin[:-1], fin[1:])])
                        if nb <= 10:
                            ctx.fail('critical level for %r refused: %s (%s)' % (kw, many, tag), case)
                        if not len(h.probs) == len(h.levels) == len(h.bounds) == len(h.deltas) == len(asked):
                            ctx.fail('the lists of results are out of step after a refusal', case)
                        continue
                    l, b = float(l), [float(v) for v in b]
                    asked.append((target, l))
                    up, dn = frac(q, exp(l - 2*tol - 1e-9))/tot, frac(q, exp(l + 2*tol + 1e-9))/tot
                    if not (up >= target - 1e-9 and dn <= target + 1e-9):
                        ctx.fail('log ratio %r for %r encloses between %r and %r (%s)' % (l, kw, up, dn, tag), case)
                    if not len(h.probs) == len(h.levels) == len(h.bounds) == len(h.deltas) == len(asked):
                        ctx.fail('the lists of results are out of step', case)
                    if not abs(h.probs[-1] - target) <= 1e-12 or h.deltas[-1] != l or not abs(h.levels[-1] - (l + off + log(m))) <= 1e-9*max(1., abs(off)) or list(h.bounds[-1]) != b:
                        ctx.fail('the recorded result %r %r %r does not match %r' % (h.probs[-1], h.deltas[-1], h.levels[-1], (kw, l)), case)
                    # bounds
                    if min(abs(v - l) for v in lg if v > -1e9) > 1e-9:
                        want = []
                        for i in range(n - 1):
                            y0, y1 = lg[i], lg[i + 1]
                            if (y0 > l) != (y1 > l):
                                if y0 < -1e9 or y1 < -1e9:
                                    want.append((xs[i], xs[i + 1]))
                                else:
                                    x = xs[i] + (xs[i + 1] - xs[i])*(l - y0)/(y1 - y0)
                                    want.append((x, x))
                        eps = 1e-7*max(abs(xlo), abs(xhi), xhi - xlo)
                        if not lin:
                            eps = 1e-7*max(v[1] for v in want) if want else 0.
                        if len(want) != len(b) or any(not (w0 - eps <= v <= w1 + eps) for v, (w0, w1) in zip(b, want)):
                            ctx.fail('bounds at log ratio %r are %r, the crossings are %r (%s)' % (l, b, want, tag), case)
                        ctx.outcome((len(b), round(l, 3)))
                    key = repr(sorted(kw.items()))
                    ans[key] = (l, b)
            if deep:
                for p in (ps[0], ps[-1]):
                    key = repr(sorted({'p': p}.items()))
                    if key in ans:
                        l, b = h.critlevel(p=p)
                        if not abs(float(l) - ans[key][0]) <= 1e-9 or len(b) != len(ans[key][1]):
                            ctx.fail('asking again for %r gives %r, before it was %r' % (p, l, ans[key]), case)
                        ctx.step()
        if not (given == keep).all():
            ctx.fail('the array of log densities was changed', case)
        ctx.trace()
        ctx.sample(case)

    if 'family' in unit:
        w = families()[unit['family']]
        for off in OFFS:
            one(list(w), off, PS, True)
    else:
        k = 0
        for t in lattice(unit['n'], unit['vals']):
            if unit['head'] is not None and t[0] != unit['head']:
                continue
            k += 1
            one(list(t), OFFS[k % 4], PS[:4] if unit['n'] == 5 and k % 5 else PS, k % 5 == 0 or unit['n'] < 4)
