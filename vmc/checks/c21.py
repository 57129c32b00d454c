"""C21: the minimisers on every function of a lattice."""
import itertools

PROP = 'C21'
LEVEL = 'model_checking'
RULE = ('every function of a lattice (1-D quadratics, quartics, absolute values, exponential wells, double wells, flat and monotone ones; 1-4 dimensional quadratics and '
        'Rosenbrock-like functions), starting pair or point, direction set, tolerance; brackets, brent, linmin and powell results compared with the function '
        'and its known minimum; every evaluation and the caller\'s arrays are recorded')
ASSUMPTIONS = ['minima are required to the stated tolerance in x for line minimisation and to 1e-4 of the scale of f for powell']


def units(tier):
    u = [{'t': '1d', 'f': i} for i in range(10)]
    u += [{'t': 'lin', 'm': m} for m in range(8)]
    u += [{'t': 'pow', 'm': m} for m in range(8)]
    u += [{'t': 'limits'}]
    return u


MATS = [[[1.]], [[.01]], [[1., 0.], [0., 100.]], [[2., 1.9], [1.9, 2.]], [[1., -.5], [-.5, 3.]], [[1., 0., 0.], [0., 4., 1.], [0., 1., 9.]],
        [[3., 1., 1.], [1., 2., -1.], [1., -1., 4.]], [[4., 1., 0., .5], [1., 3., .5, 0.], [0., .5, 2., 1.], [.5, 0., 1., 5.]]]


def fams(np):
    """(name, f(x, c, s), unimodal)"""
    e = np.exp
    return [('quadratic', lambda x, c, s: (s*(x - c))**2, True), ('quadratic with floor', lambda x, c, s: 7. + (s*(x - c))**2, True),
            ('quartic', lambda x, c, s: (s*(x - c))**4 + .1*(s*(x - c))**2, True), ('absolute value', lambda x, c, s: abs(s*(x - c)), True),
            ('cosh', lambda x, c, s: float(np.cosh(min(abs(s*(x - c)), 700.))), True), ('well', lambda x, c, s: -float(e(-(s*(x - c))**2)), False),
            ('double well', lambda x, c, s: ((s*(x - c))**2 - 1.)**2 + .2*s*(x - c), False), ('log-like', lambda x, c, s: float(e(min(s*(x - c), 700.))) - s*(x - c), True),
            ('wavy', lambda x, c, s: (s*(x - c))**2 + float(np.sin(3*s*(x - c))), False), ('floor far below', lambda x, c, s: -1e6 + (s*(x - c))**2, True)]


def run_unit(unit, ctx):
    import numpy as np
    from inference.utils.nrmin import MinBracket, brent, linmin, powell, IterErr
    if unit['t'] == '1d':
        name, fam, uni = fams(np)[unit['f']]
        for c, s, x1, dx, tol in itertools.product((0., 2., -13.), (.1, 1., 20.), (-30., 0., 1., 7.5), (.1, 1., -1., 25.), (1e-6, 1e-3, 1e-8)):
            case = {'f': name, 'centre': c, 'scale': s, 'x1': x1, 'x2': x1 + dx, 'tol': tol}
            ctx.at(case)
            ctx.state(case)
            seen = {}

            def f(x):
                v = fam(x, c, s)
                seen[float(x)] = v
                return v
            b = MinBracket(f, x1, x1 + dx)
            ctx.step()
            start = min(fam(x1, c, s), fam(x1 + dx, c, s))
            for x, v in ((b.x1, b.f1), (b.xm, b.fm), (b.x2, b.f2)):
                if v != fam(x, c, s):
                    ctx.fail('bracket says f(%r) = %r, it is %r' % (x, v, fam(x, c, s)), case)
            if not (b.x1 < b.xm < b.x2):
                ctx.fail('bracket points %r, %r, %r are not in order' % (b.x1, b.xm, b.x2), case)
            if not (b.fm <= b.f1 and b.fm <= b.f2):
                ctx.fail('bracket values %r, %r, %r do not bracket a minimum' % (b.f1, b.fm, b.f2), case)
            if b.fm > start:
                ctx.fail('bracket middle %r is above the start %r' % (b.fm, start), case)
            if uni and not b.x1 <= c <= b.x2 and name != 'log-like' and not (b.f1 == b.fm == b.f2):
                ctx.fail('the minimum %r is not in the bracket %r, %r' % (c, b.x1, b.x2), case)
            lo, hi, fm = b.x1, b.x2, b.fm
            keep = (b.x1, b.xm, b.x2)
            seen.clear()
            x, v = brent(f, b, tol)
            ctx.step()
            ctx.trace()
            if v != fam(x, c, s):
                ctx.fail('brent returned (%r, %r) but f there is %r' % (x, v, fam(x, c, s)), case)
            if v > fm:
                ctx.fail('brent returned %r, the bracket had %r' % (v, fm), case)
            if not lo <= x <= hi:
                ctx.fail('brent returned %r outside its bracket %r, %r' % (x, lo, hi), case)
            if v > min(seen.values()):
                ctx.fail('brent returned %r but had seen %r' % (v, min(seen.values())), case)
            if len(seen) > 105:
                ctx.fail('brent used %d evaluations' % len(seen), case)
            if uni:
                d = max(3*tol*abs(c), 3e-10)
                sharp = {'quadratic': 0., 'quartic': 2e-8, 'absolute value': 0.}.get(name)
                f0 = fam(c, c, s)
                d = max(d, 4*(abs(f0)*2.3e-16 + 1e-300)**.5/s if name not in ('quartic',) else 1e-5/s)
                if not abs(x - c) <= d + 3*tol*abs(x):
                    ctx.fail('brent returned %r, the minimum is at %r' % (x, c), case)
            # an iteration limit: an error, or the answer as good as without
            for mi in (1, 2, 4, 7, 12):
                b.x1, b.xm, b.x2 = keep
                try:
                    x2, v2 = brent(f, b, tol, maxit=mi)
                except IterErr:
                    continue
                if v2 != fam(x2, c, s) or (uni and not abs(x2 - x) <= 2*d + 6*tol*abs(x)):
                    ctx.fail('brent limited to %d iterations returned (%r, %r), without a limit (%r, %r)' % (mi, x2, v2, x, v), case)
            ctx.outcome((name, c, round(float(x), 3)))
            ctx.sample(case)
        return
    if unit['t'] == 'limits':
        return limits(ctx, np, MinBracket, brent, linmin, powell, IterErr)
    H = np.array(MATS[unit['m']])
    nd = len(H)
    for cen, floor, amp in [(x, y, 1.) for x in (0., 3., -20.) for y in (0., 5., -100.)] + [(3., 0., 1e-7), (3., 5e-7, 1e-7), (-20., 5e6, 1e6)]:
        c = np.array([cen/(i + 1.) for i in range(nd)])

        def f0(x):
            y = np.array(x, float) - c
            return float(floor + amp*(y @ H @ y))
        ev = []

        def f(x):
            ev.append(np.array(x, float).copy())
            return f0(x)
        starts = [np.array(v) for v in itertools.product((-1., 2.), repeat=nd)][:4] + [np.full(nd, 50.), c.copy()]
        for st in starts:
            if unit['t'] == 'lin':
                drs = [np.eye(nd)[i]*k for i in range(nd) for k in (1., -1., .01, 30.)] + [np.ones(nd), np.arange(1., nd + 1.)*(-.3)]
                for d in drs:
                    case = {'H': H.tolist(), 'centre': c.tolist(), 'floor': floor, 'amplitude': amp, 'start': st.tolist(), 'direction': d.tolist()}
                    ctx.at(case)
                    ctx.state(case)
                    ctx.step()
                    s0, d0 = st.copy(), d.copy()
                    p, v, fv = linmin(f, st, d)
                    if (st != s0).any() or (d != d0).any():
                        ctx.fail('linmin changed its arguments', case)
                    if not abs(fv - f0(p)) <= 1e-12*max(1., abs(f0(p))):
                        ctx.fail('linmin returned %r with %r, f there is %r' % (p.tolist(), fv, f0(p)), case)
                    if fv > f0(st) + 1e-12*max(1., abs(f0(st))):
                        ctx.fail('linmin returned %r, the start had %r' % (fv, f0(st)), case)
                    if not np.allclose(p, st + v, rtol=1e-12, atol=1e-12):
                        ctx.fail('linmin moved by %r but reports %r' % ((p - st).tolist(), v.tolist()), case)
                    if np.linalg.norm(np.outer(v, d) - np.outer(d, v)) > 1e-9*np.linalg.norm(v)*np.linalg.norm(d):
                        ctx.fail('linmin left its line', case)
                    l = -(d @ H @ (st - c))/(d @ H @ d)
                    best = f0(st + l*d)
                    if fv - best > 1e-6*(f0(st) - best) + 1e-9*max(amp, abs(best)):
                        ctx.fail('linmin returned %r, the minimum along the line is %r' % (fv, best), case)
                    # a smaller tolerance
                    q, v2, fv2 = linmin(f, st, d, 1e-8)
                    if not np.linalg.norm(q - (st + l*d)) <= 1e-6*max(1., np.linalg.norm(st), np.linalg.norm(q))*max(1., np.linalg.cond(H))**.5*(1. + abs(best))**.5:
                        ctx.fail('linmin with tolerance 1e-8 ended at %r, the minimum along the line is at %r' % (q.tolist(), (st + l*d).tolist()), case)
                    ctx.trace()
                    ctx.outcome((round(fv, 5),))
                continue
            dsets = [None, np.eye(nd), .1*np.eye(nd), np.eye(nd)[::-1]*5. + .5, -np.eye(nd)]
            dsets.append([list(r) for r in np.eye(nd)])
            for d, ftol, shuffle, kind in itertools.product(dsets, (1e-6, 1e-10), (False, True), ('array', 'list')):
                case = {'H': H.tolist(), 'centre': c.tolist(), 'floor': floor, 'amplitude': amp, 'start': st.tolist(), 'directions': None if d is None else np.array(d).tolist(), 'ftol': ftol, 'shuffle': shuffle, 'as': kind}
                ctx.at(case)
                ctx.state(case)
                ctx.step()
                p0 = st.copy() if kind == 'array' else st.tolist()
                keep = np.array(d) if d is not None else None
                del ev[:]
                res = []
                for again in (0, 1):
                    try:
                        p, fv, it = powell(f, p0, drxns=d, ftol=ftol, shuffle=shuffle)
                    except IterErr:
                        ctx.fail('powell did not converge on a quadratic', case)
                    if (np.array(p0) != st).any():
                        ctx.fail('powell changed the starting point', case)
                    if d is not None and (np.array(d) != keep).any():
                        ctx.fail('powell changed the directions', case)
                    p = np.array(p, float)
                    if not abs(fv - f0(p)) <= 1e-12*max(1., abs(f0(p))):
                        ctx.fail('powell returned %r with %r, f there is %r' % (p.tolist(), fv, f0(p)), case)
                    if fv > f0(st) + 1e-12*max(1., abs(f0(st))):
                        ctx.fail('powell returned %r, the start had %r' % (fv, f0(st)), case)
                    if not fv - floor <= (1e-3 if ftol == 1e-6 else 1e-5)*max(amp, abs(floor)):
                        ctx.fail('powell returned %r, the minimum is %r' % (fv, floor), case)
                    res.append((p.tolist(), fv, it))
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    p, fv, it = powell(f, p0, drxns=d, ftol=ftol, shuffle=shuffle, nlog=1)
                if (np.array(p).tolist(), fv, it) != res[0]:
                    ctx.fail('with a log of the iterations powell returned %r, without %r' % ((p, fv, it), res[0]), case)
                if res[0] != res[1]:
                    ctx.fail('two equal calls gave %r and %r' % tuple(res), case)
                ctx.trace()
                ctx.outcome((round(fv, 6), it))
                ctx.sample(case)


def limits(ctx, np, MinBracket, brent, linmin, powell, IterErr):
    """Flat, monotone and hard functions end, with a consistent answer or an error; iteration limits are respected."""
    def rosen(a):
        return lambda x: (1 - x[0])**2 + a*(x[1] - x[0]**2)**2
    fs = [('flat', lambda x: 3., 3.), ('flat direction', lambda x: (x[0] - 1)**2, 0.), ('falling', lambda x: -x[0] + x[1]**2, None), ('decaying', lambda x: float(np.exp(-abs(x[0]))) + x[1]**2, None),
          ('rosenbrock 10', rosen(10.), 0.), ('rosenbrock 100', rosen(100.), 0.), ('plateau', lambda x: max(0., abs(x[0]) - 1) + max(0., abs(x[1]) - 2), 0.)]
    for (name, f, best), st, ftol, maxit in itertools.product(fs, ((0., 0.), (-1.2, 1.), (3., -2.), (10., 10.)), (1e-6, 1e-12, 0.), (1, 2, 200)):
        case = {'f': name, 'start': st, 'ftol': ftol, 'maxit': maxit}
        ctx.at(case)
        ctx.state(case)
        ctx.step()
        p0 = np.array(st)
        n = [0]

        def g(x):
            n[0] += 1
            return f(x)
        try:
            p, fv, it = powell(g, p0, ftol=ftol, maxit=maxit)
        except IterErr:
            ctx.note('iteration limit')
            p = None
        if (p0 != st).any():
            ctx.fail('powell changed the starting point', case)
        if n[0] > 3*700*maxit:
            ctx.fail('powell used %d evaluations' % n[0], case)
        if p is not None:
            if it > maxit:
                ctx.fail('%d iterations' % it, case)
            if not (fv == f(p) or abs(fv - f(p)) <= 1e-12*abs(fv)):
                ctx.fail('powell returned %r with %r, f there is %r' % (p, fv, f(p)), case)
            if fv > f(st):
                ctx.fail('powell returned %r, the start had %r' % (fv, f(st)), case)
            if best is not None and maxit == 200 and ftol <= 1e-6 and fv - best > 1e-3:
                ctx.fail('powell returned %r, the minimum is %r' % (fv, best), case)
        ctx.trace()
        ctx.outcome((name, p is None))
