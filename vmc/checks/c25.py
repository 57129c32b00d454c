"""C25: refined interval lists, for all refinement histories over a lattice of ends and densities."""
from math import log, exp

PROP = 'C25'
LEVEL = 'model_checking'
RULE = ('every history up to the depth bound of refinements with ends from a lattice (on grid points, on points that are grid points up to roundoff, between them, out of range, empty) and numbers of points '
        'from 2 to 200, on linear, logarithmic, reversed and roundoff-prone bases; histories reaching the same list are merged; after each refinement contiguity, coverage, density, point '
        'counts and both ways to locate are checked against the list of sample points')
ASSUMPTIONS = ['positive bounds for logarithmic lists', 'a refinement more than five times finer than the samples it falls on need only get as many points as asked for, over the samples it touches (documented)']

BASES = [(0., 10., 11, 'linear'), (0., 1., 11, 'lin'), (5., 10., 6, 'linear'), (-3., 7.3, 8, 'Linear'), (1., 100., 5, 'log'), (1e-3, 10., 9, 'Log'),
         (1e6, 1e6 + 1., 11, 'linear'), (10., 0., 11, 'linear'), (100., 1., 7, 'logarithmic'), (0, 12, 5, 'linear'), (1e3, 1e6, 31, 'log'), (0., 1., 2, 'lin')]
ENDS = [-.1, 0., .07, .1*3, .35, .5, .62, .7, .9, 1., 1.2]
NS = [2, 3, 6, 21, 200]
ENDS3 = [0., .1*3, .44, .62, .7, 1.]
NS3 = [4, 13]


def ops_of(ends, ns):
    return [(a, b, n) for i, a in enumerate(ends) for b in ends[i + 1:] for n in ns] + [(-.3, -.1, 5), (1., 1.2, 5), (.5, .5, 5)]


def units(tier):
    u = []
    for b in range(len(BASES)):
        o = ops_of(ENDS, NS)
        for k in range(0, len(o), 24):
            u.append({'base': b, 'first': [k, min(k + 24, len(o))], 'big': 1, 'depth': 2})
        o = ops_of(ENDS3, NS3)
        for k in range(0, len(o), 11):
            u.append({'base': b, 'first': [k, min(k + 11, len(o))], 'big': 0, 'depth': 4 if tier == 'thorough' else 3})
    return u


def run_unit(unit, ctx):
    import copy
    import numpy as np
    from inference.grid.grid1d import RefinedIntervalList1D
    blo, bhi, bn, st = BASES[unit['base']]
    lin = st.lower().startswith('lin')
    lo0, hi0 = min(blo, bhi), max(blo, bhi)
    rev = blo > bhi

    def pos(f):
        if f == 0:
            return lo0
        if f == 1:
            return hi0
        return lo0 + f*(hi0 - lo0) if lin else lo0*exp(f*log(hi0/float(lo0)))

    def size(a, b):
        return b - a if lin else log(b/float(a))

    allops = ops_of(ENDS, NS) if unit['big'] else ops_of(ENDS3, NS3)

    def ints(l):
        n = l.nint if hasattr(l, 'nint') else None
        out = []
        i = 0
        while True:
            try:
                iv = l[i]
            except IndexError:
                break
            out.append((iv.lo, iv.hi, iv.n))
            i += 1
        if n is not None and n != len(out):
            ctx.fail('%d intervals, but nint is %r' % (len(out), n), None)
        return tuple(out)

    bstep = size(lo0, hi0)/(bn - 1.)
    eps = 1e-7 if lo0 != 1e6 else 1e-5

    def points(iv):
        a, b, n = iv
        p = np.linspace(a, b, n) if lin else a*np.exp(np.arange(n)*(log(b/float(a))/(n - 1.)))
        p[0], p[-1] = a, b
        return p

    def look(l, case):
        I = ints(l)
        if I[0][0] != lo0 or I[-1][1] != hi0:
            ctx.fail('the list covers [%r, %r], not the base' % (I[0][0], I[-1][1]), case)
        for a, b in zip(I[:-1], I[1:]):
            if a[1] != b[0]:
                ctx.fail('intervals %r and %r are not contiguous' % (a, b), case)
        tot = 0
        nb = {(v.lo, v.hi) for v in l.nonbase()}
        for k, (a, b, n) in enumerate(I):
            if not a < b or n < 2:
                ctx.fail('interval %r is empty' % ((a, b, n),), case)
            s = size(a, b)/(n - 1.)
            if not abs(l[k].step - s) <= 1e-6*s:
                ctx.fail('interval %r says its step is %r, it is %r' % ((a, b, n), l[k].step, s), case)
            if s > bstep*(1 + eps):
                ctx.fail('interval %r has step %r, larger than the base step %r' % ((a, b, n), s, bstep), case)
            if s < bstep*(1 - 1e-3) and (a, b) not in nb:
                ctx.fail('interval %r is refined but not listed so' % ((a, b, n),), case)
            tot += n - 1
        if l.npts != tot + 1:
            ctx.fail('the point count is %r for %r, there are %r points' % (l.npts, I, tot + 1), case)
        # positions
        xs = []
        for a, b, n in I:
            xs += [a, b, a + .37*(b - a), np.nextafter(a, np.inf), np.nextafter(b, -np.inf)]
        for x in xs:
            v = l.locate(x)
            if not (v.lo <= x < v.hi or x == hi0 == v.hi):
                ctx.fail('position %r was located in [%r, %r)' % (x, v.lo, v.hi), case)
            i, a, b = v.locate(x)
            p = points((v.lo, v.hi, v.n))
            tol = 1e-9*(p[-1] - p[0]) + 4e-16*max(abs(p[0]), abs(p[-1]))
            if not (0 <= i < v.n and abs(p[i] - a) <= tol and abs(p[min(i + 1, v.n - 1)] - b) <= tol and a - tol <= x <= b + tol):
                ctx.fail('position %r of interval %r was located at sample %r, [%r, %r]' % (x, (v.lo, v.hi, v.n), i, a, b), case)
        for x in (lo0 - 1e-3, hi0 + 1e-3):
            try:
                v = l.locate(x)
            except ValueError:
                pass
            else:
                ctx.fail('position %r, out of range, was located in [%r, %r]' % (x, v.lo, v.hi), case)
        # point numbers
        cum = 0
        ks = {}
        for k, (a, b, n) in enumerate(I):
            last = k == len(I) - 1
            for j in (range(n - 1) if n < 12 else (0, 1, n//2, n - 3, n - 2)):
                ks[cum + j] = (k, j)
            cum += n - 1
            if last:
                ks[cum] = (k, n - 1)
        for g, (k, j) in ks.items():
            r = l.nlocate(g)
            if (int(r[0]), int(r[1])) != (k, j) or (r[2].lo, r[2].hi, r[2].n) != I[k]:
                ctx.fail('point %d was located as sample %r of interval %r, it is sample %d of interval %d' % (g, r[1], r[0], j, k), case)
        for g in (-1, cum + 1):
            try:
                r = l.nlocate(g)
            except ValueError:
                pass
            else:
                ctx.fail('point number %d, out of range, was located as %r' % (g, r[:2]), case)
        return I

    def after(old, new, op, case):
        a, b, n = pos(op[0]), pos(op[1]), op[2]
        a, b = max(a, lo0), min(b, hi0)
        # never coarser than before
        ends = sorted({v for iv in old + new for v in iv[:2]})
        def at(I, x):
            for iv in I:
                if iv[0] <= x < iv[1]:
                    return size(iv[0], iv[1])/(iv[2] - 1.)
        for x, y in zip(ends[:-1], ends[1:]):
            m = .5*(x + y)
            if at(new, m) > at(old, m)*(1 + eps):
                ctx.fail('refining made the samples at %r coarser: %r before, %r after' % (m, at(old, m), at(new, m)), case)
        s = size(a, b)/(n - 1.)
        cell = at(old, a)
        if 5*s > cell*(1.001):
            for x, y in zip(ends[:-1], ends[1:]):
                m = .5*(x + y)
                if a < m < b and at(new, m) > s*(1 + eps):
                    ctx.fail('the samples at %r are %r apart, %r was asked for' % (m, at(new, m), s), case)
        P = np.unique(np.concatenate([points(iv) for iv in new]))
        O = np.unique(np.concatenate([points(iv) for iv in old]))
        w = 1e-9*(hi0 - lo0)
        A = O[O <= a - w][-1] if (O <= a - w).any() else lo0      # ends on samples up to roundoff may go either way
        B = O[O >= b + w][0] if (O >= b + w).any() else hi0
        if ((P >= A - w) & (P <= B + w)).sum() < n:
            ctx.fail('only %d samples in the refined [%r, %r], %d were asked for' % (((P >= A - w) & (P <= B + w)).sum(), A, B, n), case)

    def step(l, op, hist, full=True):
        a, b = pos(op[0]), pos(op[1])
        old = ints(l)
        void = min(b, hi0) <= max(a, lo0)
        if rev:
            a, b = b, a
        try:
            l.update(a, b, op[2])
        except ValueError:
            if not void:
                ctx.fail('refining [%r, %r] with %d points was refused' % (a, b, op[2]), hist)
            if ints(l) != old:
                ctx.fail('a refused refinement changed the list', hist)
            return
        if void:
            ctx.fail('refining [%r, %r], which does not overlap the base, was not refused' % (a, b), hist)
        if full:
            after(old, ints(l), op, hist)

    l = RefinedIntervalList1D(blo, bhi, bn, st)
    look(l, 'base')
    for bad in [(blo, blo, 5), (blo, bhi, 1)]:
        try:
            RefinedIntervalList1D(bad[0], bad[1], bad[2], st)
        except ValueError:
            pass
        else:
            ctx.fail('a list with base %r was not refused' % (bad,), bad)
    seen = set()
    frontier = []
    k0, k1 = unit['first']
    for op in allops[k0:k1]:
        frontier.append((l, op, ()))
    while frontier:
        nxt = []
        for l0, op, hist in frontier:
            h = hist + (op,)
            case = {'base': BASES[unit['base']], 'history': h}
            ctx.at(case)
            l1 = copy.deepcopy(l0)
            step(l1, op, case)
            ctx.step()
            ctx.trace()
            key = ints(l1)
            if (key) in seen:
                continue
            seen.add(key)
            look(l1, case)
            ctx.state((unit['base'], key))
            ctx.outcome((unit['base'], len(key)))
            if len(h) < unit['depth']:
                nxt += [(l1, o, h) for o in allops]
        frontier = nxt
    ctx.sample({'base': BASES[unit['base']], 'first operations': unit['first'], 'depth': unit['depth'], 'lists': len(seen)})
