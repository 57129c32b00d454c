"""C07: grid fits: every cell, the axes and the reported optimum, from every starting position."""
import itertools

PROP = 'C07'
LEVEL = 'model_checking'
RULE = ('every choice and order of stepping parameters, grid shape, lin/log stepping, status of the others (fixed/varying), kind of '
        'inference and style of model; for each, every number of grid moves made before the fit (a whole walk included), '
        'and every pair of actions (moves, redeclarations, other data, options, failed fits) before and between two fits; '
        'each cell is compared with the score (or the closed-form optimum of the quadratic score) at the values of that cell')
ASSUMPTIONS = ['profiles are compared to 1e-3 relative, direct scores to 1e-9', 'models are linear in their parameters, so the optimum over varying parameters is known in closed form']

GRID = {'p': ('lin', -1., 2.), 'q': ('lin', 2., -1.), 'r': ('log', .125, 2.)}
GRID2 = {'p': ('log', .5, 4.), 'q': ('lin', -3., 3.), 'r': ('lin', -1., 1.)}
VARY = {'p': (2., .5, (-60., 60.)), 'q': (1., .25, (-80., 90.)), 'r': (.25, .1, (-30., 30.))}
FIX = {'p': 1.25, 'q': -.5, 'r': .25}
CONFIGS = [('chi2', 'Lin3', 'Data2'), ('like', 'LinV', 'Data1'), ('bayes', 'Lin3', 'Data2'), ('chi2', 'Plane', 'Flat2b'), ('bayes', 'PlaneV', 'Flat2')]


def shapes(nd, tier):
    if nd == 1:
        return [(2,), (3,), (5,), (12,), (40,)] + ([(101,)] if tier == 'thorough' else [])
    if nd == 2:
        return [s for s in itertools.product((2, 3), repeat=2)] + [(4, 2), (2, 5), (4, 3)] + ([(7, 6)] if tier == 'thorough' else [])
    return [(2, 2, 2), (2, 3, 2), (3, 2, 2)] + ([(3, 3, 3), (2, 4, 3)] if tier == 'thorough' else [])


def units(tier):
    u = []
    for c in range(len(CONFIGS)):
        for nd in (1, 2, 3):
            for order in itertools.permutations('pqr', nd):
                u.append({'c': c, 'order': list(order), 'shapes': [list(s) for s in shapes(nd, tier)]})
    for kind in ('chi2', 'like', 'bayes'):
        u += [{'hist': kind, 'order': o} for o in ('pq', 'qp', 'p', 'rp', 'pr')]
        u += [{'exact': kind, 'n': n} for n in range(2, 9 if tier == 'thorough' else 6)]
    return u


def run_exact(unit, ctx):
    """Grids whose scores are small exact numbers, with exact zeros and ties: the score of cell k of the stepping parameter p is
    the square of (p - t), and the varying parameter does not matter or has its optimum at each cell."""
    import numpy as np
    from vmc import piemodels
    kind = unit['exact']
    for n in (unit['n'],):
        for lo in range(-n, 2):
            for step in (1, -1):
                vals = [float(lo + step*k) for k in range(n)]
                for flat in (0., 1.):
                    for target, offset in ((0., 0.), (.5, 0.), (0., -4.), (.5, -2.), (0., 4.)):
                        for order in ('pq', 'qp'):
                            if offset and order == 'qp' and n > 4:
                                continue
                            case = {'values': vals, 'flat': flat, 'target': target, 'kind': kind, 'order': order, 'offset': offset}
                            ctx.at(case)
                            inf = piemodels.mapinf(kind, [[1., 0.], [0., flat], [0., 0.]], [target, 0., 0.], offset=offset)
                            for name in order:
                                if name == 'p':
                                    inf.p.linstep(vals[0], vals[-1], n)
                                else:
                                    inf.q.vary(0. if flat == 0. else .25, .5, range=(-1e6, 1e6) if flat == 0. else (-50., 50.))
                            g = inf.fit()
                            want = [(v - target)**2*(1. if kind == 'chi2' else -.5) + offset for v in vals]
                            ctx.state(case)
                            ctx.step(n)
                            ctx.trace()
                            for k in range(n):
                                if not abs(float(g.values[k]) - want[k]) <= 1e-4:
                                    ctx.fail('cell %d holds %r, expected %r' % (k, float(g.values[k]), want[k]), case)
                            best = min(want) if kind == 'chi2' else max(want)
                            k = tuple(g.opt_ind)[0]
                            if not abs(want[k] - best) <= 1e-9 or not abs(float(g.opt_val) - best) <= 1e-4 or float(g.opt_val) != float(g.values[k]):
                                ctx.fail('optimum reported %r at %r, the scores are %r' % (float(g.opt_val), g.opt_ind, want), case)
                            ctx.outcome((k, best))


def run_hist(unit, ctx):
    """Every pair of things done before a first and a second grid fit; the first result must stay what it was."""
    import numpy as np
    from vmc import piemodels
    kind, order = unit['hist'], unit['order']
    A = np.array([[1., .5, .25], [.5, -1., .5], [0., .25, 1.]])
    sign = 1. if kind == 'chi2' else -.5
    DECL = {'p': (-1., 2., 4), 'q': (2., -1., 3), 'r': (0., 3., 3)}
    LATER = {'p': (0., 1., 2), 'q': (-2., 2., 5), 'r': (-1., 1., 2)}
    EDGE = {'p': (-30., 40.), 'q': (-50., 25.), 'r': (-35., 30.)}

    def score(x, target):
        r = A @ np.array(x) - target
        return sign*float(r @ r)

    def profile(x, var, target):
        x = np.array(x)
        idx = ['pqr'.index(n) for n in var]
        if idx:
            x[idx] = 0.
            x[idx] = np.linalg.lstsq(A[:, idx], target - A @ x, rcond=None)[0]
        return score(x, target), x

    ACTS = [(), ('next',), ('next',)*5, ('first.last',), ('last.last',), ('first.next', 'next'), ('last.next', 'next', 'next'), ('fix',), ('vary',), ('redeclare',), ('log',), ('data',), ('map',),
            ('nlog',), ('opts',), ('vargrid',), ('reset', 'next'), ('swap',), ('score', 'get'), ('failed',)]
    for acts in itertools.product(ACTS, ACTS):
        case = {'kind': kind, 'stepping': order, 'before': acts[0], 'between': acts[1]}
        ctx.at(case)
        ctx.state(case)
        target = np.array([1., -.5, 2.])
        inf = piemodels.mapinf(kind, A.tolist(), target)
        now = {'p': .5, 'q': -.25, 'r': 1.}
        for n, v in now.items():
            setattr(inf, n, v)
        step, var, decl = [], [], {}
        for n in order:
            getattr(inf, n).linstep(*DECL[n])
            step.append(n)
            decl[n] = DECL[n] + ('lin',)
        kept = []
        for what in acts:
            kw = {}
            for w in what:
                if w == 'next':
                    try:
                        inf.next_step()
                    except Exception:
                        pass
                elif '.' in w:
                    n = step[0 if w.startswith('first') else -1]
                    try:
                        getattr(getattr(inf, n), w.split('.')[1] + '_step')()
                    except Exception:
                        pass
                elif w == 'fix':
                    for n in 'rqp':
                        if n not in step:
                            now[n] = 1.75
                            setattr(inf, n, now[n])
                            if n in var:
                                var.remove(n)
                            break
                elif w == 'vary':
                    for n in 'rqp':
                        if n not in step and n not in var:
                            getattr(inf, n).vary(.75, .5, EDGE[n])
                            var.append(n)
                            break
                elif w in ('redeclare', 'log'):
                    n = step[0]
                    decl[n] = LATER[n] + ('lin',) if w == 'redeclare' else (.5, 2., 3, 'log')
                    getattr(getattr(inf, n), decl[n][3] + 'step')(*decl[n][:3])
                elif w == 'swap':
                    # the first stepping parameter becomes the last
                    n = step.pop(0)
                    getattr(inf, n).fix()
                    getattr(inf, n).linstep(*decl[n][:3])
                    decl[n] = decl[n][:3] + ('lin',)
                    step.append(n)
                elif w == 'data':
                    target = np.array([0., 2., -1.])
                    inf.d1.vals[:] = target
                elif w == 'map':
                    inf.map_bounds()
                elif w == 'nlog':
                    kw['nlog'] = 2
                elif w == 'opts':
                    kw.update(method='Powell', tol=1e-7)
                elif w == 'vargrid':
                    kw['vargrid'] = True
                elif w == 'reset':
                    inf.reset_steps()
                elif w == 'score':
                    inf.score()
                elif w == 'get':
                    inf.get_params()
                elif w == 'failed':
                    # a fit that dies part-way through the grid
                    m, inf.matrix, left = inf.matrix, Dies(inf.matrix), None
                    try:
                        inf.fit()
                    except ZeroDivisionError:
                        pass
                    inf.matrix = m
            g = inf.fit(**kw)
            vg = None
            if kw.get('vargrid') and var:
                g, vg = g
            ctx.step()
            ctx.trace()
            shape = tuple(decl[n][2] for n in step)
            if tuple(g.shape) != shape or np.shape(g.values) != shape:
                ctx.fail('grid shape %r, expected %r' % (g.shape, shape), case)
            for ax, n in zip(g.axes, step):
                if ax[0] != n or (float(ax[1]), float(ax[2]), int(ax[3])) != decl[n][:3]:
                    ctx.fail('axis %r describes %s wrongly' % (ax, n), case)
            best = None
            for idx in itertools.product(*[range(k) for k in shape]):
                x = dict(now)
                for n, i in zip(step, idx):
                    lo, hi, k, t = decl[n]
                    x[n] = lo + (hi - lo)*i/(k - 1.) if t == 'lin' else lo*(hi/lo)**(i/(k - 1.))
                want, at = profile([x[n] for n in 'pqr'], var, target)
                got = float(g.values[idx])
                if not abs(got - want) <= (1e-4 + 1e-3*abs(want) if var else 1e-9*max(1., abs(want))):
                    ctx.fail('cell %r holds %r, expected %r' % (idx, got, want), case)
                if vg is not None:
                    v = [float(t) for t in np.atleast_1d(vg.values[idx])]
                    x.update(zip(var, v))
                    back = score([x[n] for n in 'pqr'], target)
                    if not abs(back - got) <= 1e-9*max(1., abs(back)):
                        ctx.fail('optimal values %r of cell %r have score %r, the cell holds %r' % (v, idx, back, got), case)
                if best is None or (got - best)*sign < 0:
                    best = got
            if var and not (float(g.opt_val) == best == float(g.values[tuple(g.opt_ind)])):
                ctx.fail('optimum reported %r at %r, the best cell holds %r' % (g.opt_val, g.opt_ind, best), case)
            if tuple(inf.step_nums()) != (0,)*len(step):
                ctx.fail('stepping parameters left at %r' % (inf.step_nums(),), case)
            for n in 'pqr':
                if n not in step and n not in var and float(getattr(inf, n)) != now[n]:
                    ctx.fail('fixed parameter %s became %r' % (n, float(getattr(inf, n))), case)
            kept.append((g, repr((g.values.tolist(), g.axes, g.shape))))
            ctx.outcome((round(best, 5), shape))
        for g, was in kept:
            if repr((g.values.tolist(), g.axes, g.shape)) != was:
                ctx.fail('an earlier grid changed during a later fit', case)
    ctx.sample({'kind': kind, 'stepping': order})


class Dies(list):
    """A matrix whose 17th row look-up fails."""
    count = 0

    def __getitem__(self, i):
        self.count += 1
        if self.count > 16:
            raise ZeroDivisionError('the model fails here')
        return list.__getitem__(self, i)


def run_unit(unit, ctx):
    if 'exact' in unit:
        return run_exact(unit, ctx)
    if 'hist' in unit:
        return run_hist(unit, ctx)
    import numpy as np
    from vmc import piemodels
    kind, model, data = CONFIGS[unit['c']]
    cls = piemodels.inference(kind, model, data)
    order = unit['order']
    rest = [n for n in 'pqr' if n not in order]
    nd = len(order)
    base = cls()
    sets = [(getattr(base, d).locns, getattr(base, d).vals, getattr(base, d).sigmas) for d in base.predictors]

    def ref(pars):
        return piemodels.ref_score(kind, model, [pars[n] for n in 'pqr'], sets)

    def profile(pars, var):
        """Optimum of the (quadratic) score over var, from exact second differences."""
        n = len(var)

        def f(v):
            d = dict(pars)
            d.update(zip(var, v))
            return ref(d)
        z = [0.]*n
        f0 = f(z)
        e = np.eye(n)
        g, H = np.zeros(n), np.zeros((n, n))
        for i in range(n):
            a, b = f(list(e[i])), f(list(-e[i]))
            g[i], H[i, i] = .5*(a - b), a + b - 2*f0
        for i in range(n):
            for j in range(i):
                H[i, j] = H[j, i] = f(list(e[i] + e[j])) - f0 - g[i] - g[j] - .5*H[i, i] - .5*H[j, j]
        x = np.linalg.solve(H, -g)
        return f(list(x)), x

    def axis(g, n, k):
        t, lo, hi = g[n]
        w = [i/(k - 1.) for i in range(k)]
        return [lo + (hi - lo)*x for x in w] if t == 'lin' else [lo*(hi/lo)**x for x in w]

    for gi, grid in enumerate((GRID, GRID2)):
        for shape in unit['shapes']:
            size = int(np.prod(shape))
            axes = [axis(grid, n, k) for n, k in zip(order, shape)]
            for mode in itertools.product(('fix', 'vary'), repeat=len(rest)):
                if 'vary' in mode and (size > 12 or (gi and nd == 1)) and ctx.tier != 'thorough':
                    continue
                var = [n for n, m in zip(rest, mode) if m == 'vary']
                pre = range(0, size + 1)
                if var:
                    pre = sorted({0, 1, size//2, size - 1, size}) if ctx.tier != 'thorough' else pre
                elif size > 12:
                    pre = [0, 1, size//2, size - 1, size]
                cells = {}
                for idx in itertools.product(*[range(k) for k in shape]):
                    pars = dict(FIX)
                    pars.update({n: a[i] for n, a, i in zip(order, axes, idx)})
                    cells[idx] = profile(pars, var) if var else (ref(pars), None)
                alone = var
                for vargrid, mapped in ((False, False), (True, False), (True, True)) if alone or size < 5 else ((False, False),):
                    # with mapped bounds, declared varying the other way around
                    var = alone[::-1] if mapped else alone
                    for moves in [0] if mapped else pre:
                        case = {'grid': gi, 'order': order, 'shape': shape, 'varying': var, 'moves': moves, 'vargrid': vargrid, 'mapped': mapped, 'kind': kind}
                        ctx.at(case)
                        inf = cls()
                        if mapped:
                            inf.map_bounds()
                        for n in var:
                            getattr(inf, n).vary(*VARY[n])
                        for n in rest:
                            if n not in var:
                                setattr(inf, n, FIX[n])
                        for n, k in zip(order, shape):
                            t, lo, hi = grid[n]
                            (getattr(inf, n).linstep if t == 'lin' else getattr(inf, n).logstep)(lo, hi, k)
                        for _ in range(moves):
                            try:
                                inf.next_step()
                            except Exception:
                                pass
                        np.random.seed(1)
                        r = inf.fit(vargrid=vargrid)
                        ctx.state(case)
                        ctx.step(size)
                        ctx.trace()
                        vg = None
                        if vargrid and var:
                            r, vg = r
                        if tuple(r.shape) != tuple(shape) or r.ndim != nd or np.shape(r.values) != tuple(shape):
                            ctx.fail('grid shape %r, expected %r' % (r.shape, shape), case)
                        for ax, n, k in zip(r.axes, order, shape):
                            t, lo, hi = grid[n]
                            if ax[0] != n or (float(ax[1]), float(ax[2])) != (lo, hi) or ax[3] != k:
                                ctx.fail('axis %r describes %s wrongly' % (ax, n), case)
                        best = None
                        for idx, (want, at) in cells.items():
                            got = float(r.values[idx])
                            tol = (1e-3 if var else 1e-9)*max(1., abs(want))
                            if not abs(got - want) <= tol:
                                ctx.fail('cell %r holds %r, expected %r' % (idx, got, want), case)
                            if var and (got - want if kind == 'chi2' else want - got) < -1e-9*max(1., abs(want)):
                                ctx.fail('cell %r holds %r, beyond the optimum %r' % (idx, got, want), case)
                            if vg is not None:
                                v = np.atleast_1d(vg.values[idx])
                                pars = dict(FIX)
                                pars.update({n: a[i] for n, a, i in zip(order, axes, idx)})
                                pars.update(zip(var, [float(x) for x in v]))
                                back = ref(pars)
                                if not abs(back - got) <= 1e-7*max(1., abs(back)):
                                    ctx.fail('optimal values %r of cell %r have score %r, the cell holds %r' % (v.tolist(), idx, back, got), case)
                            if best is None or (got < best[0] if kind == 'chi2' else got > best[0]):
                                best = (got, idx)
                        if var:
                            if not abs(float(r.opt_val) - best[0]) <= 1e-12*max(1., abs(best[0])) or not abs(float(r.values[tuple(r.opt_ind)]) - best[0]) <= 1e-12*max(1., abs(best[0])):
                                ctx.fail('optimum reported %r at %r, the best cell is %r' % (r.opt_val, r.opt_ind, best), case)
                            if vg is not None and tuple(vg.opt_ind) != tuple(r.opt_ind):
                                ctx.fail('the value grid and the optimum grid disagree on the best cell', case)
                        if tuple(inf.step_nums()) != (0,)*nd:
                            ctx.fail('stepping parameters left at %r' % (inf.step_nums(),), case)
                        for n in rest:
                            if n not in var and float(getattr(inf, n)) != FIX[n]:
                                ctx.fail('fixed parameter %s became %r' % (n, float(getattr(inf, n))), case)
                        ctx.outcome((round(best[0], 6), best[1]))
                        ctx.sample(case)
