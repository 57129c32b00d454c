"""C37: plots, drawn by Matplotlib off screen, against the grids and levels they are made from."""
import itertools
from math import exp, log

PROP = 'C37'
LEVEL = 'exploration'
RULE = ('every combination of grid shape, axis order, levels (default, by probability, absolute, in any order), grey scale, crosshair and overlay options, for bivariate plots, stored grids and credible region objects, drawn off '
        'screen; the contour lines, images, lines, limits and labels in the figure are compared with the grid they come from: every contour vertex lies where the grid interpolates to its level, and every crossing is drawn')
ASSUMPTIONS = ['Matplotlib is present and draws off screen; without it the check says so', 'levels are never exactly equal to grid values']


def units(tier):
    u = [{'t': 'bivar', 'nx': nx, 'ny': ny, 'order': o} for nx, ny in ((5, 5), (7, 4), (4, 9), (12, 10), (2, 3)) + (((40, 30), (3, 20)) if tier == 'thorough' else ()) for o in ('xy', 'yx')]
    u += [{'t': 'bivar', 'nx': 7, 'ny': 4, 'order': o, 'rev': r} for r in (1, 2, 3) for o in ('xy', 'yx')]
    u += [{'t': 'grid1', 'n': n} for n in (2, 3, 7, 20)]
    u += [{'t': 'grid2', 'nx': nx, 'ny': ny} for nx, ny in ((5, 5), (6, 4), (4, 8))]
    u += [{'t': 'hpd1', 'step': s, 'n': n} for s in ('lin', 'log') for n in (40, 101)]
    u += [{'t': 'hpd2', 'xs': a, 'ys': b, 'nx': n} for a in ('lin', 'log') for b in ('lin', 'log') for n in (21, 30)]
    return u


PLT = None


def setup():
    global PLT
    try:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        PLT = plt
    except ImportError:
        PLT = None


def run_unit(unit, ctx):
    import numpy as np
    import contextlib
    import io
    if PLT is None:
        ctx.note('Matplotlib is missing: not decided')
        return
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[unit['t']](unit, ctx, np)
    PLT.close('all')


def contours(ax):
    """All contour sets of the axes."""
    from matplotlib.contour import ContourSet
    found = [c for c in ax.get_children() if isinstance(c, ContourSet)]
    return found


def lines_of(cs):
    """[(level, vertices)] of a contour set."""
    out = []
    for lev, path in zip(cs.levels, cs.get_paths()):
        out.append((float(lev), [(float(a), float(b)) for a, b in path.vertices]))
    return out


def check_contours(ctx, cs, x, y, f, levels, case, ftol=1e-7):
    if x[-1] < x[0]:
        x, f = x[::-1], f[::-1]
    if y[-1] < y[0]:
        y, f = y[::-1], [r[::-1] for r in f]
    """f[i][j] is the value at x[i], y[j]; levels are those that should be drawn."""
    got = sorted(float(l) for l in cs.levels)
    exp = sorted(float(l) for l in levels)
    if len(got) != len(exp) or any(not abs(a - b) <= 1e-7*(1 + abs(b)) for a, b in zip(got, exp)):
        ctx.fail('contour levels are %r, they should be %r' % (got, exp), case)
    nx, ny = len(x), len(y)

    def where(v, g):
        for i, q in enumerate(g):
            if abs(v - q) <= 1e-7*(abs(g[-1] - g[0])):
                return i
        return None

    def between(v, g):
        for i in range(len(g) - 1):
            if g[i] <= v <= g[i+1]:
                return i, (v - g[i])/(g[i+1] - g[i])
        return None, None
    for lev, verts in lines_of(cs):
        seen = set()
        for a, b in verts:
            i, j = where(a, x), where(b, y)
            if i is not None:
                k, t = between(b, y)
                if k is None:
                    ctx.fail('a contour point (%r, %r) lies off the grid' % (a, b), case)
                v = f[i][k] + t*(f[i][k+1] - f[i][k])
                seen.add(('x', i, k))
            elif j is not None:
                k, t = between(a, x)
                if k is None:
                    ctx.fail('a contour point (%r, %r) lies off the grid' % (a, b), case)
                v = f[k][j] + t*(f[k+1][j] - f[k][j])
                seen.add(('y', k, j))
            else:
                ctx.fail('a contour point (%r, %r) is on no grid line' % (a, b), case)
            if not abs(v - lev) <= ftol*(1 + max(abs(c) for r in f for c in r)):
                ctx.fail('the contour for level %r passes (%r, %r), where the grid has %r' % (lev, a, b, v), case)
        want = set()
        for i in range(nx):
            for k in range(ny - 1):
                if (f[i][k] - lev)*(f[i][k+1] - lev) < 0:
                    want.add(('x', i, k))
        for j in range(ny):
            for k in range(nx - 1):
                if (f[k][j] - lev)*(f[k+1][j] - lev) < 0:
                    want.add(('y', k, j))
        if want - seen:
            ctx.fail('the contour for level %r is missing where it crosses the grid at %r' % (lev, sorted(want - seen)[:2]), case)


def chi2_2(p):
    return -2.*log(1. - p)


def bivar(unit, ctx, np):
    from inference.utils.plot_bivar import plot_bivar
    from .c34 import inside
    nx, ny, order = unit['nx'], unit['ny'], unit['order']
    x = [-1. + 3.*i/(nx - 1) for i in range(nx)]
    y = [10. + 5.*j/(ny - 1) for j in range(ny)]
    rev = unit.get('rev', 0)
    if rev & 1:
        x = x[::-1]
    if rev & 2:
        y = y[::-1]
    for shape in (0, 1, 2):
        f = [[[-.5*((a - .3)**2 + .1*(b - 12.2)**2 + .2*a*(b - 12.2)) - 40., -3.*a + .7*b + 100., -20.*(a - .31)**2 - .01*b*b - .003*a][shape] for b in y] for a in x]
        top = max(max(r) for r in f)
        low = min(min(r) for r in f)
        rel = [[v - top for v in r] for r in f]
        arr = np.array(f) if order == 'xy' else np.array(f).T.copy()
        mid = [top - .137*(top - low), top - .5713*(top - low)]
        for lk, levels, plevels in ((0, None, None), (1, None, [.5]), (2, None, [.3, .9, .99]), (3, mid, None), (4, mid[::-1], None), (5, np.array(mid[:1]), None), (6, None, np.array([.95, .5]))):
            if levels is not None:
                exp_levels = [float(l) - top for l in levels]
            elif plevels is not None:
                exp_levels = [-.5*chi2_2(float(p)) for p in plevels]
            else:
                exp_levels = [-.5*chi2_2(inside(1, float(k))) for k in range(1, 7)]
            for gscale, cross, bar, lab in ((False, None, False, False), (True, None, False, False), (4., (.2, 11.), False, False), (False, (-.5, 14.), False, True), (True, None, True, True)):
                kw = {}
                if levels is not None:
                    kw['levels'] = levels
                if plevels is not None:
                    kw['plevels'] = plevels
                if gscale:
                    kw['gscale'] = gscale
                if cross:
                    kw['cross'] = cross
                if bar:
                    kw['gscale_bar'] = True
                if lab and ctx.tier == 'thorough':
                    kw['clabel'] = True
                if order != 'xy':
                    kw['iorder'] = order
                case = {'nx': nx, 'ny': ny, 'descending': rev, 'function': shape, 'options': {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in kw.items()}}
                ctx.at(case)
                ctx.case()
                fig = PLT.figure()
                before = arr.copy()
                plot_bivar(np.array(x), np.array(y), arr, xlabel='the x', ylabel='the y', **kw)
                if not np.array_equal(before, arr):
                    ctx.fail('the grid given was changed', case)
                ax = fig.axes[0]
                cs = contours(ax)
                if len(cs) != 1:
                    ctx.fail('%d contour sets were drawn' % len(cs), case)
                if 'clabel' not in kw:
                    check_contours(ctx, cs[0], x, y, rel, exp_levels, case)
                if ax.get_xlabel() != 'the x' or ax.get_ylabel() != 'the y':
                    ctx.fail('axis labels are %r and %r' % (ax.get_xlabel(), ax.get_ylabel()), case)
                if bool(ax.images) != bool(gscale):
                    ctx.fail('%d images were drawn' % len(ax.images), case)
                if gscale:
                    im = ax.images[0]
                    g = float(10. if gscale is True else gscale)
                    a = np.asarray(im.get_array())
                    if a.shape != (ny, nx) or not np.abs(a - np.array(rel).T).max() <= 1e-9*(1 + abs(low - top)):
                        ctx.fail('the image does not hold the grid', case)
                    if not np.abs(np.array(im.get_extent()) - np.array([x[0], x[-1], y[0], y[-1]])).max() <= 1e-9 or im.origin != 'lower':
                        ctx.fail('the image spans %r from %s' % (im.get_extent(), im.origin), case)
                    lo, hi = im.get_clim()
                    if not abs(lo - g*min(exp_levels)) <= 1e-7*(1 + abs(lo)) or not abs(hi) <= 1e-9:
                        ctx.fail('grey scale limits are %r' % ((lo, hi),), case)
                if cross:
                    segs = []
                    for c in ax.collections:
                        if c not in cs and hasattr(c, 'get_segments'):
                            segs += [np.asarray(s) for s in c.get_segments()]
                    for l in ax.lines:
                        segs.append(np.column_stack(l.get_data()))
                    h = [s for s in segs if len(s) and np.allclose(s[:, 1], cross[1])]
                    v = [s for s in segs if len(s) and np.allclose(s[:, 0], cross[0])]
                    if len(h) != 1 or len(v) != 1:
                        ctx.fail('the crosshair at %r is not drawn' % (cross,), case)
                fc = ax.format_coord
                for i in range(nx):
                    for j in range(ny):
                        for ox, oy in ((0, 0), (.3, -.3), (-.3, .3), (.4, .4), (-.4, -.4)):
                            s = fc(x[i] + ox*(x[1] - x[0]), y[j] + oy*(y[1] - y[0]))
                            if ('z=%1.4f' % rel[i][j]) not in s.replace('z=0.0000', 'z=%1.4f' % rel[i][j] if abs(rel[i][j]) < 5e-5 else 'z=0.0000'):
                                ctx.fail('the coordinate line nearest to grid point (%d, %d) says %r, the value is %r' % (i, j, s, rel[i][j]), case)
                if 'z=' in fc(x[-1] + (x[-1] - x[0]), y[0]) or 'z=' in fc(x[0], y[0] - (y[-1] - y[0])):
                    ctx.fail('the coordinate line shows a value off the grid', case)
                ctx.outcome((shape, lk, bool(gscale), bool(cross)))
                PLT.close('all')
    try:
        PLT.figure()
        plot_bivar(np.array(x), np.array(y), arr, iorder='zz')
    except Exception:
        pass
    else:
        ctx.fail('an invalid index order was accepted', {'iorder': 'zz'})
    ctx.sample({'nx': nx, 'ny': ny, 'order': order})


class P:
    def __init__(self, name, lo, hi, steps, stype):
        self.name, self.slo, self.shi, self.steps, self.stype = name, lo, hi, steps, stype


def grid1(unit, ctx, np):
    from inference.pie.containers import ScalarGrid
    from inference.pie.param import lin_steps, log_steps
    n = unit['n']
    for lo, hi in ((0., 1.), (-5., 20.)):
        for overlay in (False, True):
            for ylab in (None, 'score'):
                case = {'steps': n, 'range': (lo, hi), 'overlay': overlay, 'ylabel': ylab}
                ctx.at(case)
                ctx.case()
                PLT.close('all')
                g = ScalarGrid([P('par', lo, hi, n, lin_steps)])
                g.values[:] = [-.3*(i - 2.2)**2 - 7. for i in range(n)]
                if overlay:
                    PLT.figure()
                    PLT.plot([lo, hi], [0., 0.])
                kw = {}
                if overlay:
                    kw['overlay'] = True
                if ylab:
                    kw['ylabel'] = ylab
                figs = len(PLT.get_fignums())
                g.plot(**kw)
                if len(PLT.get_fignums()) != figs + (0 if overlay else 1):
                    ctx.fail('there are %d figures' % len(PLT.get_fignums()), case)
                ax = PLT.gcf().axes[0]
                if len(ax.lines) != (2 if overlay else 1):
                    ctx.fail('%d lines are drawn' % len(ax.lines), case)
                a, b = ax.lines[-1].get_data()
                want = np.array([lo + (hi - lo)*i/(n - 1.) for i in range(n)])
                if len(a) != n or not np.abs(np.asarray(a) - want).max() <= 1e-9 or not np.abs(np.asarray(b) - g.values).max() <= 1e-12:
                    ctx.fail('the line drawn does not show the grid', case)
                if ax.get_xlabel() != 'par' or ax.get_ylabel() != (ylab or 'Log Score'):
                    ctx.fail('axis labels are %r and %r' % (ax.get_xlabel(), ax.get_ylabel()), case)
                ctx.outcome((n, lo, overlay, ylab))


def grid2(unit, ctx, np):
    from inference.pie.containers import ScalarGrid
    from inference.pie.param import lin_steps
    nx, ny = unit['nx'], unit['ny']
    x = [0. + 2.*i/(nx - 1) for i in range(nx)]
    y = [-3. + 9.*i/(ny - 1) for i in range(ny)]
    f = [[-2.*(a - .7)**2 - .3*(b - .5)**2 + .3*a*b - 11. for b in y] for a in x]
    top, low = max(max(r) for r in f), min(min(r) for r in f)
    rel = [[v - top for v in r] for r in f]
    for overlay, gscale, levels in itertools.product((False, True), (False, True, 5.), (None, [.5, .9])):
        case = {'nx': nx, 'ny': ny, 'overlay': overlay, 'gscale': gscale, 'plevels': levels}
        ctx.at(case)
        ctx.case()
        PLT.close('all')
        g = ScalarGrid([P('u', x[0], x[-1], nx, lin_steps), P('v', y[0], y[-1], ny, lin_steps)])
        g.values[:] = np.array(f)
        kw = {}
        if overlay:
            PLT.figure()
            kw['overlay'] = True
        if levels:
            kw['plevels'] = levels
        if gscale:
            kw['gscale'] = gscale
        figs = len(PLT.get_fignums())
        g.plot(**kw)
        if len(PLT.get_fignums()) != figs + (0 if overlay else 1):
            ctx.fail('there are %d figures' % len(PLT.get_fignums()), case)
        ax = PLT.gcf().axes[0]
        cs = contours(ax)
        if len(cs) != 1:
            ctx.fail('%d contour sets were drawn' % len(cs), case)
        from .c34 import inside
        lev = [-.5*chi2_2(p) for p in (levels or [inside(1, float(k)) for k in range(1, 7)])]
        check_contours(ctx, cs[0], x, y, rel, lev, case)
        if bool(ax.images) != bool(gscale):
            ctx.fail('%d images were drawn, grey scale was %r' % (len(ax.images), gscale), case)
        if ax.get_xlabel() != 'u' or ax.get_ylabel() != 'v':
            ctx.fail('axis labels are %r and %r' % (ax.get_xlabel(), ax.get_ylabel()), case)
        ctx.outcome((nx, overlay, gscale, bool(levels)))


def crossings(a, b, level):
    out = []
    for i in range(len(a) - 1):
        if (b[i] - level)*(b[i+1] - level) < 0:
            out.append(a[i] + (a[i+1] - a[i])*(level - b[i])/(b[i+1] - b[i]))
    return out


def hpd1(unit, ctx, np):
    from inference.grid.hpdgrid import HPDGrid1D
    n = unit['n']
    for k, (lo, hi) in enumerate(((.2, 6.), (1., 50.))):
        for off in (0., -3., 5.):
            for ps in ((.6827,), (.5, .9), (.95, .3, .7)):
                def lp(t, k=k, off=off):
                    return off - .5*((log(t) - [.4, 2.][k])/.5)**2 if k else off - .5*((t - 2.5)/.8)**2
                case = {'step': unit['step'], 'points': n, 'range': (lo, hi), 'offset': off, 'probabilities': ps}
                ctx.at(case)
                ctx.case()
                PLT.close('all')
                PLT.figure()
                g = HPDGrid1D(lp, lo, hi, n, unit['step'])
                bounds = [g.critlevel(p)[1] for p in ps]
                g.plot()
                ax = PLT.gcf().axes[0]
                ls = [l.get_data() for l in ax.lines]
                curve = [(np.asarray(a), np.asarray(b)) for a, b in ls if len(a) == n]
                flat = [float(b[0]) for a, b in ls if len(a) == 2 and b[0] == b[1]]
                if len(curve) != 1 or len(flat) != len(ps):
                    ctx.fail('%d curves and %d level lines are drawn' % (len(curve), len(flat)), case)
                a, b = curve[0]
                if not np.abs(a - np.array(g.xvals)).max() <= 1e-9*hi:
                    ctx.fail('the curve is not drawn on the grid', case)
                for p, bd, lev in zip(ps, bounds, flat):
                    c = crossings(a, b, lev)
                    if len(c) != len(bd):
                        ctx.fail('the level line for p = %r crosses the curve at %r, the region is bounded by %r' % (p, c, list(bd)), case)
                    for u, v in zip(c, bd):
                        # both interpolate between the same two grid points, one of them in the logarithm
                        if not any(a[i] - 1e-9 <= v <= a[i+1] + 1e-9 and a[i] - 1e-9 <= u <= a[i+1] + 1e-9 for i in range(n - 1)):
                            ctx.fail('the level line for p = %r crosses the curve at %r, the region is bounded by %r' % (p, c, list(bd)), case)
                ctx.outcome((unit['step'], n, k, off, ps))


def hpd2(unit, ctx, np):
    from inference.grid.hpdgrid import HPDGrid2D
    nx, ny = unit['nx'], 25
    for off in (0., -4.):
        for ps in ((.6827,), (.5, .9), (.95, .3, .7)):
            def lp(a, b, off=off):
                return off - .5*(((a - 2.)/.5)**2 + ((b - 3.)/.7)**2 + .6*(a - 2.)*(b - 3.))
            case = {'steps': (unit['xs'], unit['ys']), 'points': (nx, ny), 'offset': off, 'probabilities': ps}
            ctx.at(case)
            ctx.case()
            PLT.close('all')
            g = HPDGrid2D(lp, .5, 4., nx, 1., 6., ny, unit['xs'], unit['ys'])
            lr = [g.critlevel(p) for p in ps]
            g.plot()
            ax = PLT.gcf().axes[0]
            cs = contours(ax)
            if len(cs) != 1:
                ctx.fail('%d contour sets were drawn' % len(cs), case)
            x, y = [float(v) for v in g.xvals], [float(v) for v in g.yvals]
            f = [[lp(a, b) + (log(a) if unit['xs'] == 'log' else 0.) + (log(b) if unit['ys'] == 'log' else 0.) for b in y] for a in x]
            # levels are relative to the highest density in x and y, also for logarithmic steps
            top = max(lp(a, b) for a in x for b in y)
            check_contours(ctx, cs[0], x, y, f, [top + r for r in lr], case)
            ctx.outcome((unit['xs'], unit['ys'], nx, off, ps))
