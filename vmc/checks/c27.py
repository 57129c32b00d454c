"""C27: cubature rules on all monomials of their degree, and in all orders of use."""
import itertools
import re

PROP = 'C27'
LEVEL = 'model_checking'
RULE = ('every rule of every family (square, rectangle, plane, normal weight) on every monomial up to its degree, over lattices of rectangles (shifted, thin, reversed, integer), locations and scales, against '
        'exact moments; vector valued integrands; numbers and places of the evaluations; and every history up to the depth bound of making and using integrators with different rules, locations and scales')
ASSUMPTIONS = ['tolerance 1e-10 of the sum of the absolute contributions']

RECTS = [((-1., 1.), (-1., 1.)), ((0., 1.), (0., 2.)), ((3, 5), (-7, 1)), ((-1e3, 1e3), (2., 2.5)), ((1., 1e-3), (-4., -9.)), ((100., 101.), (-.01, .01)), ((2., 2.), (0., 1.))]
LOCN = [(0., 0.), (3.5, -1.), [-100., .25], (1, 2)]
SCALE = [(1., 1.), (.1, 20.), [3., .5], (2, 1)]


def units(tier):
    u = [{'t': 'square'}]
    u += [{'t': 'rect', 'r': i} for i in range(len(RECTS))]
    u += [{'t': 'plane', 'k': k} for k in range(4)]
    u += [{'t': 'norm', 'l': i, 's': j} for i in range(len(LOCN)) for j in range(len(SCALE))]
    u += [{'t': 'hist', 'first': i, 'depth': 5 if tier == 'thorough' else 4} for i in range(len(HOPS))]
    return u


HOPS = [('make', 0), ('make', 1), ('make', 2), ('make', 3), ('use', 0), ('use', 1), ('raw', 0), ('raw', 1), ('rect', 0), ('square', 0)]


def degree(name):
    m = re.search(r'_(\d+)_(\d+)[a-z]?$', name)
    return int(m.group(1)), int(m.group(2))


def run_unit(unit, ctx):
    import numpy as np
    from fractions import Fraction as F
    from math import gamma, pi, sqrt, comb
    from inference.integrate import cub2d as C
    rules = sorted(C.rule_dict)
    if len(rules) < 11:
        ctx.fail('only the rules %r are there' % rules, None)

    def mono(m, n, rec=None):
        def f(x, y):
            if rec is not None:
                rec.append((float(x), float(y), x**m*y**n))
            return x**m*y**n
        return f

    def m1(a, b, m):                       # integral of x^m over [a, b]
        a, b = F(a), F(b)
        return (b**(m + 1) - a**(m + 1))/(m + 1)

    def close(got, want, rec, area, case, what):
        sc = area*max([abs(r[2]) for r in rec] + [abs(want)/area if area else 0., 1e-300])
        if not abs(got - want) <= 1e-10*sc:
            ctx.fail('%s gives %r, the exact integral is %r' % (what, got, want), case)
        ctx.outcome((what, repr(case)))
        ctx.case()
        ctx.step()
        ctx.trace()

    def doit(call, deg, npts, exact, area, tag, inside=None):
        for m in range(deg + 1):
            for n in range(deg + 1 - m):
                rec = []
                case = {'rule': tag, 'monomial': (m, n)}
                ctx.at(case)
                got = call(mono(m, n, rec))
                close(float(got), float(exact(m, n)), rec, area, case, str(tag))
                if len(rec) > npts:
                    ctx.fail('%d evaluations, the rule has %d points' % (len(rec), npts), case)
                if inside is not None:
                    (xa, xb), (ya, yb), edge = inside
                    for x, y, _ in rec:
                        ok = (min(xa, xb) <= x <= max(xa, xb) and min(ya, yb) <= y <= max(ya, yb)) if edge or xa == xb else (min(xa, xb) < x < max(xa, xb) and min(ya, yb) < y < max(ya, yb))
                        if not ok:
                            ctx.fail('evaluation at %r, outside of the region' % ((x, y),), case)
                ctx.state((str(tag), m, n))
        # vector valued and linear
        v = np.asarray(call(lambda x, y: np.array([1., x, 3*x - 2*y, y])), float)
        w = [float(call(mono(0, 0))), float(call(mono(1, 0))), float(call(lambda x, y: 3*x - 2*y)), float(call(mono(0, 1)))]
        if v.shape != (4,) or not np.allclose(v, w, rtol=1e-9, atol=1e-9*max(map(abs, w + [area]))):
            ctx.fail('%s: vector valued integral %r, one by one %r' % (tag, v.tolist(), w), tag)
        if not abs(w[2] - (3*w[1] - 2*w[3])) <= 1e-9*(abs(w[2]) + 3*abs(w[1]) + 2*abs(w[3]) + area):
            ctx.fail('%s is not linear: %r' % (tag, w), tag)
        ctx.sample({'rule': str(tag), 'degree': deg, 'points': npts})

    def rect_exact(R):
        return lambda m, n: m1(R[0][0], R[0][1], m)*m1(R[1][0], R[1][1], n)

    def plane_exact(m, n):
        return 0. if m % 2 or n % 2 else gamma((m + 1)/2.)*gamma((n + 1)/2.)

    def nmom(mu, s, m):
        tot = F(0)
        for k in range(0, m + 1, 2):
            dd = 1
            for i in range(k - 1, 0, -2):
                dd *= i
            tot += comb(m, k)*F(mu)**(m - k)*F(s)**k*dd
        return tot

    t = unit['t']
    if t == 'square':
        R = ((-1, 1), (-1, 1))
        doit(C.square1d4pt, 1, 4, rect_exact(R), 4., 'square1d4pt', R + (True,))
        doit(C.square3d4pt, 3, 4, rect_exact(R), 4., 'square3d4pt', R + (False,))
        doit(C.square7d12pt, 7, 12, rect_exact(R), 4., 'square7d12pt', R + (False,))
    elif t == 'rect':
        R = RECTS[unit['r']]
        area = abs((R[0][1] - R[0][0])*(R[1][1] - R[1][0]))
        for k, (f, deg, npts) in enumerate(((C.rect3d4pt, 3, 4), (C.rect7d12pt, 7, 12))):
            for form in (tuple, list, np.array):
                doit(lambda g: f(g, form(R[0]), form(R[1])), deg, npts, rect_exact(R), area, (f.__name__, R, form.__name__), R + (False,))
    elif t == 'plane':
        for name in rules[unit['k']::4]:
            func, absc, wts = C.rule_dict[name]
            deg, npts = degree(name)
            doit(func, deg, npts, plane_exact, pi, name)
            if absc.shape != (npts, 2) or wts.shape != (npts,) or not (wts > 0).all():
                ctx.fail('rule %s has %r points' % (name, wts.shape), name)

            def byhand(g):
                return sum(w*g(*a) for a, w in zip(absc, wts))
            doit(byhand, deg, npts, plane_exact, pi, name + ' from its nodes')
    elif t == 'norm':
        L, S = LOCN[unit['l']], SCALE[unit['s']]
        before = {k: (v[1].copy(), v[2].copy()) for k, v in C.rule_dict.items()}
        for name in rules + [None]:
            deg, npts = degree(name or 'e2r2_7_12')
            q = C.NormWtCub2D(L, S, name) if name else C.NormWtCub2D(L, S)
            doit(q, deg, npts, lambda m, n: nmom(L[0], S[0], m)*nmom(L[1], S[1], n), 1., ('normal', name, L, S))
        for k, v in before.items():
            if not (np.array_equal(v[0], C.rule_dict[k][1]) and np.array_equal(v[1], C.rule_dict[k][2])):
                ctx.fail('making integrators changed rule %s' % k, k)
        for bad in (((1.,), S), (L, (1., 2., 3.))):
            try:
                C.NormWtCub2D(bad[0], bad[1])
            except ValueError:
                pass
            else:
                ctx.fail('location %r and scale %r were not refused' % bad, bad)
    else:
        MAKES = [(LOCN[0], SCALE[0], None), (LOCN[1], SCALE[1], 'e2r2_7_12'), (LOCN[2], SCALE[2], 'e2r2_13_36'), (LOCN[1], SCALE[2], 'e2r2_5_9a')]
        MONO = [(0, 0), (2, 0), (1, 3), (4, 1)]

        def use(call, deg, exact, area, case, what):
            for m, n in MONO:
                if m + n <= deg:
                    rec = []
                    close(float(call(mono(m, n, rec))), float(exact(m, n)), rec, area, case, what)

        def apply(objs, op, hist):
            if op[0] == 'make':
                L, S, r = MAKES[op[1]]
                objs = objs + [(C.NormWtCub2D(L, S) if r is None else C.NormWtCub2D(L, S, rule=r), op[1])]
            elif op[0] == 'use':
                if op[1] >= len(objs):
                    return None
            return objs

        def checkall(objs, hist):
            for o, k in objs:
                L, S, r = MAKES[k]
                use(o, degree(r or 'e2r2_7_12')[0], lambda m, n: nmom(L[0], S[0], m)*nmom(L[1], S[1], n), 1., hist, 'integrator %d' % k)

        def rec(objs, hist):
            op = hist[-1]
            ctx.at(hist)
            objs = apply(objs, op, hist)
            if objs is None:
                return
            if op[0] == 'use':
                checkall([objs[op[1]]], hist)
            elif op[0] == 'raw':
                name = ('e2r2_7_12', 'e2r2_5_9a')[op[1]]
                use(C.rule_dict[name][0], degree(name)[0], plane_exact, pi, hist, name)
            elif op[0] == 'rect':
                use(lambda f: C.rect7d12pt(f, RECTS[2][0], RECTS[2][1]), 7, rect_exact(RECTS[2]), 16., hist, 'rect')
            elif op[0] == 'square':
                use(C.square7d12pt, 7, rect_exact(RECTS[0]), 4., hist, 'square')
            ctx.state(hist)
            if len(hist) < unit['depth']:
                for o in HOPS:
                    rec(objs, hist + (o,))
            else:
                checkall(objs, hist)
        rec([], (HOPS[unit['first']],))
        ctx.sample({'first': HOPS[unit['first']], 'depth': unit['depth']})
