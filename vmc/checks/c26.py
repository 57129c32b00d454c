"""C26: self-refining one-dimensional grids."""
import itertools
from math import log, exp, sqrt, pi, floor, inf

PROP = 'C26'
LEVEL = 'model_checking'
RULE = ('every function given by values from a lattice (zero density included) on 3-5 base points, and families of smooth, narrow, multimodal, truncated, flat and zero densities on up to 200 points; linear and '
        'logarithmic grids; scalar and sequence valued; numbers of refinement points, sigmas, peaks kept, dynamic ranges and both rankings; for each, the whole history first pass - queries - refine - queries - refine '
        'again - first pass with another function, each time comparing points, values, peaks, integrals and moments with sums over the enumerated points')
ASSUMPTIONS = ['increasing grids', 'functions without NaN or +inf']

GRIDS = [(0., 4., 'linear'), (1., 100., 'log'), (-1, 1, 'lin'), (1e-4, 1e3, 'Log'), (0., .3, 'Linear')]
OPTS = [dict(), dict(sigpts=5, nsig=3), dict(nmax=1), dict(dynrange=2.), dict(rank='area'), dict(nmax=2, dynrange=None, sigpts=31, nsig=5), dict(nmax=1, rank='area', sigpts=4)]
LAT = [0., 1., -3., -900., -inf]


def fams(g):
    """name -> (n, f(u)), u from 0 to 1 along the grid (logarithmically for log grids)."""
    def ga(c, s, A=1.):
        return lambda u: log(A) - .5*((u - c)/s)**2

    def mix(*fs):
        def f(u):
            v = [h(u) for h in fs]
            m = max(v)
            return m + log(sum(exp(x - m) for x in v))
        return f
    out = []
    for n in (11, 40, 101, 200):
        out += [(n, ga(.5, .1)), (n, ga(.503, .01)), (n, ga(.5021, .002)), (n, ga(0., .05)), (n, ga(1., .3)), (n, ga(1.4, .2)), (n, ga(.98, .01)),
                (n, mix(ga(.2, .03), ga(.7, .06, .3))), (n, mix(ga(.2, .01), ga(.5, .01, 3.), ga(.53, .02, .1), ga(.9, .004, 10.))),
                (n, lambda u: 3.), (n, lambda u: 5.*u), (n, lambda u: -700.*u), (n, lambda u: 1e4 - 2e4*(u - .31)**2),
                (n, lambda u: -.5*((u - .5)/.01)**2 - 5000.), (n, lambda u: 0. if .3 < u < .62 else -inf), (n, lambda u: -inf),
                (n, lambda u: -50.*(u - .4)**2 if u > .4331 else -inf), (n, lambda u: -abs(u - .5)*30 if abs(u - .5) < .21 else -inf), (n, lambda u: -abs(u - .37)*200.),
                (n, ga(.5, 2e-4)), (n, lambda u: -3000. if u < .31 else -.5*((u - .6)/.05)**2), (n, lambda u: -.5*((u - .4)/.05)**2 if u < .61 else -3000.),
                (n, mix(ga(.3, 3e-4), lambda u: -2000. - .5*((u - .6)/.05)**2))]
    return out


def units(tier):
    u = []
    for g in range(len(GRIDS)):
        for o in range(len(OPTS)):
            if tier == 'thorough' or o in (0, 1, 5) or g < 2:
                for n in (3, 4):
                    u.append({'g': g, 'o': o, 'n': n, 'head': None})
            if tier == 'thorough' or (o in (0, 4) and g < 2) or (o in (1, 2, 3) and g == o):
                for h in range(len(LAT)):
                    u.append({'g': g, 'o': o, 'n': 5, 'head': h})
            u.append({'g': g, 'o': o, 'fam': 1})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from inference.grid.grid1d import Grid1D, BasicGrid1D, LabeledMaxList
    lo, hi, st = GRIDS[unit['g']]
    lin = st.lower().startswith('lin')
    opts = OPTS[unit['o']]

    def ucoord(x):
        return (x - lo)/float(hi - lo) if lin else log(x/lo)/log(hi/lo)

    def latf(t):
        n = len(t)

        def f(x):
            u = min(max(ucoord(x)*(n - 1), 0.), n - 1.)
            k = min(int(floor(u + 1e-9)), n - 2)
            d = u - k
            a, b = t[k], t[k + 1]
            if a == -inf or b == -inf:
                return a if d < .4142 else b
            return a + (b - a)*d
        return f

    def lse(v):
        m = max(v)
        return -inf if m == -inf else m + log(sum(exp(x - m) for x in v))

    def near(a, b, tol=1e-9):
        return a == b or abs(a - b) <= tol*max(1., min(abs(a), abs(b)))

    def integrals(P, V):
        """log integral and moments from the points and log values."""
        L, M1, M2 = [], [], []
        w = np.diff(P)
        m = V.max()
        if m == -inf:
            return -inf, 0., 0.
        F = np.exp(V - m)
        s = (.5*w*(F[1:] + F[:-1])).sum()
        g = P*F
        m1 = (.5*w*(g[1:] + g[:-1])).sum()/s
        g = P*g
        m2 = (.5*w*(g[1:] + g[:-1])).sum()/s
        return m + log(s), m1, m2

    def looks(g, f, sel, case, calls):
        n = len(g)
        pts = [g[i] for i in range(n)]
        X = np.array([float(p[0]) for p in pts])
        if X[0] != lo or X[-1] != hi or not (np.diff(X) > 0).all():
            ctx.fail('the %d points do not increase from %r to %r: %r' % (n, lo, hi, X.tolist()[:60]), case)
        it = list(g)
        if len(it) != n:
            ctx.fail('iteration gives %d points, the length is %d' % (len(it), n), case)
        vals = []
        for i, p in enumerate(pts):
            if not (np.array_equal(np.asarray(p[2]), np.asarray(it[i][2])) and p[0] == it[i][0] and p[0] == g.point(i)[0]):
                ctx.fail('indexing, point() and iteration disagree on point %d' % i, case)
            w = X[i + 1] - X[i] if i + 1 < n else 0.
            if not near(float(p[1]), w, 1e-9) and not abs(float(p[1]) - w) <= 1e-9*w:
                ctx.fail('point %d has width %r, the next point is %r away' % (i, p[1], w), case)
            fv = f(p[0])
            v = p[2]
            if sel is not None:
                if len(v) != 3 or not near(v[0], p[0]) or not near(v[2], -2.*p[0]):
                    ctx.fail('point %d at %r has values %r' % (i, p[0], v), case)
                v = v[sel]
            if not near(float(v), fv, 1e-8):
                ctx.fail('point %d at %r has value %r, the function is %r there' % (i, p[0], v, fv), case)
            vals.append(float(v))
        for i in (-1 - n, n, n + 3):
            try:
                r = g.point(i)
            except (ValueError, IndexError):
                pass
            else:
                ctx.fail('point %d of %d is %r' % (i, n, r), case)
        if calls is not None:
            C = np.unique(np.array(calls))
            j = np.searchsorted(C, X)
            d = np.minimum(abs(C[np.minimum(j, len(C) - 1)] - X), abs(C[np.maximum(j - 1, 0)] - X))
            if (d > 1e-9*(hi - lo)).any():
                ctx.fail('the function was not evaluated at %r' % X[d > 1e-9*(hi - lo)][:5].tolist(), case)
        V = np.array(vals)
        q, m1, m2 = integrals(X, V)
        kw = {} if sel is None else {'select': sel}
        if np.isfinite(V).all():
            t = (.5*np.diff(X)*(V[1:] + V[:-1])).sum()
            sc = (.5*np.diff(X)*(abs(V[1:]) + abs(V[:-1]))).sum()
            if not abs(g.trapzd(**kw) - t) <= 1e-9*sc + 1e-12:
                ctx.fail('the integral is %r, the points give %r' % (g.trapzd(**kw), t), case)
        for name, got in (('logtrapzd()', [g.logtrapzd(**kw)]), ('logtrapzd_mom()', [g.logtrapzd_mom(**kw)]), ('logtrapzd_mom(1)', g.logtrapzd_mom(1, **kw)), ('logtrapzd_mom(2)', g.logtrapzd_mom(nmom=2, **kw))):
            want = (q, m1, m2)[:int(name[-2]) + 1 if name[-2].isdigit() else 1]
            if len(got) != len(want):
                ctx.fail('%s gave %r' % (name, got), case)
            for a, b, s in zip(got, want, (1., max(abs(lo), abs(hi)), max(abs(lo), abs(hi))**2)):
                if not (near(float(a), b, 1e-8) or abs(a - b) < 1e-9*s):
                    ctx.fail('%s gave %r, the points give %r' % (name, [float(x) for x in got], want), case)
        if sel is not None:
            a, b = g.trapzd(select=0), .5*(X[-1]**2 - X[0]**2)
            if not abs(a - b) <= 1e-9*max(X[-1]**2, X[0]**2):
                ctx.fail('the integral of value 0 is %r, expected %r' % (a, b), case)
        try:
            g.logtrapzd(**({} if sel is not None else {'select': 0}))
        except ValueError:
            pass
        else:
            ctx.fail('a selection that does not fit the function was not refused', case)
        return X, V

    rt2pi = sqrt(2*pi)

    def peaks(lml, X, V, rank, case):
        n = len(X)
        out = []
        prev = inf
        for q, lab in lml:
            i, A, m, s = lab
            out.append(int(i))
            if not (s > 0 and s < inf and A > -inf and A < inf and q == q):
                ctx.fail('peak %r has no valid parameters' % ((q, lab),), case)
            if q > prev:
                ctx.fail('the list of peaks is not sorted', case)
            prev = q
            l, r = (V[i - 1] if i else -inf), (V[i + 1] if i + 1 < n else -inf)
            if V[i] < l or V[i] < r:
                ctx.fail('peak at point %d: values %r, %r, %r' % (i, l, V[i], r), case)
            half = i in (0, n - 1)
            if half:
                if not (near(A, V[i]) and near(m, X[i])):
                    ctx.fail('peak at the end %r with value %r is said to be %r' % (X[i], V[i], lab), case)
            else:
                if not X[i - 1] <= m <= X[i + 1]:
                    ctx.fail('peak at point %d (%r) has its mean at %r' % (i, X[i], m), case)
                if l > -inf and r > -inf and V[i] - min(l, r) > 1e-6:
                    for k in (i - 1, i, i + 1):
                        y = A - .5*((X[k] - m)/s)**2
                        if not abs(y - V[k]) <= 1e-6*max(1., abs(V[k]), abs(A)):
                            ctx.fail('the normal %r does not pass through (%r, %r)' % (lab, X[k], V[k]), case)
            want = A if rank == 'peak' else A + log((.5 if half else 1.)*s*rt2pi)
            if not near(q, want):
                ctx.fail('peak %r is ranked %r, expected %r' % (lab, q, want), case)
        return out

    def strict(V):
        n = len(V)
        return [i for i in range(n) if (i == 0 or V[i] > V[i - 1]) and (i == n - 1 or V[i] > V[i + 1])]

    def run(n, f0, seq, case, other):
        calls = []

        def f(x):
            calls.append(float(x))
            v = f0(x)
            return (v if seq == 0 else (x, v, -2.*x) if seq == 1 else [x, v, -2.*x])
        sel = 1 if seq else None
        rank = opts.get('rank', 'peak')

        def make(**kw):
            return Grid1D(lo, hi, n, st, **kw)
        g = make(**opts)
        try:
            g.refine()
        except RuntimeError:
            pass
        else:
            ctx.fail('refine before the first pass was not refused', case)
        for call in (g.trapzd, g.logtrapzd):
            try:
                r = call()
            except RuntimeError:
                pass
            else:
                ctx.fail('an integral before the first pass gave %r' % r, case)

        def pass1(g, n_, f0_, calls_, case):
            X, V = looks(g, f0_, sel, case, calls_)
            if len(X) != n_:
                ctx.fail('%d points after a first pass over %d' % (len(X), n_), case)
            e = [lo + i*(hi - lo)/(n_ - 1.) if lin else lo*exp(i*log(hi/lo)/(n_ - 1.)) for i in range(n_)]
            if not np.allclose(X, e, rtol=1e-9, atol=1e-9*(hi - lo) if lin else 0):
                ctx.fail('base points are %r, expected %r' % (X.tolist(), e), case)
            p = peaks(g.lml, X, V, rank, case)
            return X, V, p
        g.firstpass(f, sel)
        ctx.step()
        X0, V0, p0 = pass1(g, n, f0, calls, case)
        # against a list without limits
        ga = make(**dict(opts, nmax=None, dynrange=None))
        ga.firstpass(f, select=sel)
        pa = peaks(ga.lml, X0, V0, rank, case)
        if n > 2 and not set(strict(V0)) <= set(pa):
            ctx.fail('peaks %r found in values %r' % (pa, V0.tolist()), case)
        qa = [float(q) for q, _ in ga.lml]
        nm, dy = opts.get('nmax'), opts.get('dynrange', 1e5)
        exp_ = [i for i, q in zip(pa, qa) if dy is None or not qa[0] - q > log(dy)]
        exp_ = exp_[:nm]
        if p0 != exp_ and not any(abs(a - b) < 1e-9*max(1., abs(a)) for a, b in zip(qa[:-1], qa[1:])) and not (dy and any(abs(qa[0] - q - log(dy)) < 1e-9 for q in qa)):
            ctx.fail('peaks %r kept of %r, expected %r (limits %r, %r)' % (p0, list(zip(pa, qa)), exp_, nm, dy), case)
        # vectorised
        vl = LabeledMaxList(nm, dy)
        vg = BasicGrid1D(lo, hi, n, st, lml=vl, rank=rank)
        vg.vecfunc(lambda xs: np.array([(f0(x) if sel is None else (x, f0(x), -2.*x)) for x in xs], float), sel)
        if [int(l[0]) for _, l in vl] != p0 and p0 == exp_:
            ctx.fail('vectorised evaluation finds peaks %r, stepping finds %r' % ([int(l[0]) for _, l in vl], p0), case)
        a, b = vg.logtrapzd(sel), g.logtrapzd(sel)
        if not near(float(a), float(b)):
            ctx.fail('vectorised evaluation gives log integral %r, stepping %r' % (a, b), case)
        lab0 = repr(list(g.lml))
        nsig, rpts = opts.get('nsig', 4), opts.get('nsig', 4)*(opts.get('sigpts', 11) - 1) + 1
        dyn2 = 5. if n == 4 else None
        keep = [(q, l) for q, l in g.lml]
        if dyn2:
            keep = [(q, l) for q, l in keep if not keep[0][0] - q > log(dyn2)]
            if any(abs(keep[0][0] - q - log(dyn2)) < 1e-9 for q, l in keep):
                keep = keep[:1]
        for rep in (0, 1):
            if dyn2:
                g.refine(dynrange=dyn2)
            else:
                g.refine()
            ctx.step()
            c2 = dict(case, refined=rep + 1)
            X, V = looks(g, f0, sel, c2, calls)
            if not dyn2 and repr(list(g.lml)) != lab0:
                ctx.fail('refining changed the first pass peaks', c2)
            if len(X) < n:
                ctx.fail('%d points after refining a grid of %d' % (len(X), n), c2)
            for q, (i, A, m, s) in keep:
                a, b = max(lo, m - nsig*s), min(hi, m + nsig*s)
                e = X0[X0 <= a - 1e-9*(hi - lo)]
                A_ = e[-2] if len(e) > 1 else lo          # an earlier refinement may have replaced the base points
                e = X0[X0 >= b + 1e-9*(hi - lo)]
                B_ = e[1] if len(e) > 1 else hi
                k = ((X >= A_ - 1e-9*abs(A_)) & (X <= B_ + 1e-9*abs(B_))).sum()
                if k < rpts:
                    ctx.fail('only %d points in [%r, %r] about the peak at %r, refining adds %d' % (k, A_, B_, m, rpts), c2)
            ctx.outcome((unit['g'], unit['o'], n, len(X), repr(float(g.logtrapzd(sel)))))
        # a new first pass forgets everything
        n2, f2 = n, other
        del calls[:]
        g.firstpass(lambda x: f2(x) if seq == 0 else (x, f2(x), -2.*x), sel)
        c2 = dict(case, again=True)
        X, V, p = pass1(g, n, f2, None, c2)
        gf = make(**opts)
        gf.firstpass(lambda x: f2(x) if seq == 0 else (x, f2(x), -2.*x), sel)
        if repr(list(gf.lml)) != repr(list(g.lml)):
            ctx.fail('the peaks of a second first pass are %r, those of a fresh grid %r' % (list(g.lml), list(gf.lml)), c2)
        gf.refine()
        g.refine()
        if len(g) != len(gf) or not near(float(g.logtrapzd(sel)), float(gf.logtrapzd(sel))):
            ctx.fail('a grid used twice has %d points, a fresh one %d' % (len(g), len(gf)), c2)
        # and one with a function of another kind
        g.firstpass((lambda x: (f2(x), x)) if seq == 0 else (lambda x: f2(x)), 0 if seq == 0 else None)
        if repr(list(gf.lml)) != repr(list(g.lml)):
            ctx.fail('the peaks of a first pass with a function of another kind are %r, those of a fresh grid %r' % (list(g.lml), list(gf.lml)), c2)
        g.refine()
        sel2 = {'select': 0} if seq == 0 else {}
        if len(g) != len(gf) or not near(float(g.logtrapzd(**sel2)), float(gf.logtrapzd(sel))):
            ctx.fail('a grid used with a function of another kind has %d points and log integral %r, a fresh one %d and %r' % (len(g), g.logtrapzd(**sel2), len(gf), gf.logtrapzd(sel)), c2)
        ctx.step(3)
        ctx.trace()
        ctx.case()
        ctx.state((unit['g'], unit['o'], n, seq, repr(case)))

    if 'fam' in unit:
        F = fams(unit['g'])
        for k, (n, fu) in enumerate(F):
            if n == 200 and unit['o'] not in (0, 5) and ctx.tier != 'thorough':
                continue
            case = {'grid': GRIDS[unit['g']], 'options': opts, 'family': k, 'n': n}
            ctx.at(case)
            run(n, lambda x, fu=fu: fu(ucoord(x)), k % 3, case, lambda x: -ucoord(x)**2)
        return
    n = unit['n']
    for idx, t in enumerate(itertools.product(range(len(LAT)), repeat=n)):
        if unit['head'] is not None and t[0] != unit['head']:
            continue
        t = [LAT[i] for i in t]
        case = {'grid': GRIDS[unit['g']], 'options': opts, 'values': t}
        ctx.at(case)
        run(n, latf(t), idx % 3, case, lambda x: -3*(ucoord(x) - .6)**2)
    ctx.sample(case)
