"""C18: running log-sums against exact sums, for all sequences over a lattice of magnitudes."""

PROP = 'C18'
LEVEL = 'model_checking'
RULE = ('every sequence up to the length bound of additions of values from a lattice of logarithms (hundreds to tens of thousands of decades apart, and close together) and of zeros, '
        'from every starting sum, with and without the spread; after every addition the status is compared with 40-digit decimal sums; plus long ladders')
ASSUMPTIONS = ['a starting sum carries no sum of squares, so it is not combined with the spread', 'tolerance 1e-12 relative on logarithms, and what cancellation allows on the spread']

VALS = [-2000., -50., -41., -39.5, -1., 0., .5, 3., 40., 800., 1e5]
STARTS = [None, (3, 2.5), (1, -800.), (10, 1000.), (0, None), (2, None)]


def units(tier):
    L = 5 if tier == 'thorough' else 4
    u = []
    for dosig in (False, True):
        for s in range(len(STARTS)):
            if dosig and s:
                continue
            for i in range(len(VALS) + 1):
                u.append({'t': 'seq', 'sig': dosig, 'start': s, 'first': i, 'len': L if s == 0 else L - 1})
    u += [{'t': 'long', 'k': k} for k in range(8)]
    return u


def run_unit(unit, ctx):
    import copy
    import decimal
    from decimal import Decimal as D
    from inference.utils.numutils import LogSummer
    decimal.getcontext().prec = 45
    decimal.getcontext().Emax = 10**9
    decimal.getcontext().Emin = -10**9

    def make(sig, start):
        if start is None:
            return (LogSummer(dosig=True) if sig else LogSummer()), [0, D(0), D(0)]
        return LogSummer(start=start), [start[0], D(start[1]).exp() if start[1] is not None else D(0), D(0)]

    exps = {v: D(v).exp() for v in VALS}

    def add(s, ref, v):
        ref = list(ref)
        ref[0] += 1
        if v is None:
            s.add_zero()
        else:
            r = s + v if ref[0] % 2 else s.__add__(v)
            s = r
            e = exps.get(v)
            if e is None:
                e = exps[v] = D(v).exp()
            ref[1] += e
            ref[2] += e*e
        return s, ref

    def look(s, ref, sig, case):
        try:
            st = s.status()
        except Exception as e:
            if ref[1]:
                ctx.fail('status failed (%r) for a sum that is not zero' % e, case)
            if not isinstance(e, ValueError):
                ctx.fail('an empty sum gave %r' % e, case)
            return
        if not ref[1]:
            ctx.fail('an empty or zero sum gave %r' % (st,), case)
        n, S, S2 = ref
        if int(st[0]) != n:
            ctx.fail('count %r, expected %r' % (st[0], n), case)
        ls = float(S.ln())
        lm = float((S/n).ln())
        tol = 1e-12*max(1., abs(ls))

        def near(a, b):
            return abs(float(a) - b) <= tol
        if not near(st[1], ls):
            ctx.fail('log sum %r, expected %r' % (float(st[1]), ls), case)
        if not sig:
            if not near(st[2], lm):
                ctx.fail('log mean %r, expected %r' % (float(st[2]), lm), case)
            return
        l2 = float(S2.ln())
        if not abs(float(st[2]) - l2) <= 2*tol:
            ctx.fail('log sum of squares %r, expected %r' % (float(st[2]), l2), case)
        if not near(st[3], lm):
            ctx.fail('log mean %r, expected %r' % (float(st[3]), lm), case)
        var = S2/n - (S/n)**2
        frac = float(var/(S2/n))
        half = .5*float((S2/n).ln())
        got = float(st[4])
        if got != got:
            ctx.fail('the log spread is not a number', case)
        noise = 1e-13*max(1., abs(ls))*(n + 10)
        if frac > 100*noise:
            if not abs(got - .5*float(var.ln())) <= tol + 5*noise/frac:
                ctx.fail('log spread %r, expected %r' % (got, .5*float(var.ln())), case)
        elif got > half + .5*float(D(200*noise).ln()):
            ctx.fail('log spread %r for a relative variance of %r (log rms %r)' % (got, frac, half), case)

    if unit['t'] == 'long':
        k = unit['k']
        seqs = [[.5]*300, [i*1. for i in range(120)], [-i*1. for i in range(120)], [(-1)**i*30.*i for i in range(60)],
                [None, 2.]*60, [700. + .01*i for i in range(200)], [-745. - .5*i for i in range(200)], [float(i % 7) - 3. for i in range(1500)]]
        for sig in (False, True):
            s, ref = make(sig, None)
            for i, v in enumerate(seqs[k]):
                case = {'ladder': k, 'sig': sig, 'i': i}
                ctx.at(case)
                s, ref = add(s, ref, v)
                ctx.step()
                if i < 40 or i % 25 == 0 or i == len(seqs[k]) - 1:
                    look(s, ref, sig, case)
                    ctx.state((k, sig, i))
            ctx.trace()
            ctx.outcome((k, sig))
        return
    ops = VALS + [None]

    def rec(s, ref, hist, left):
        ctx.at(hist)
        look(s, ref, unit['sig'], hist)
        ctx.state((unit['sig'], unit['start'], tuple(hist)))
        ctx.trace()
        if left:
            for v in ops:
                s2, r2 = add(copy.copy(s), ref, v)
                ctx.step()
                rec(s2, r2, hist + [v], left - 1)

    s, ref = make(unit['sig'], STARTS[unit['start']])
    look(s, ref, unit['sig'], [])
    v = ops[unit['first']]
    s, ref = add(s, ref, v)
    rec(s, ref, [v], unit['len'] - 1)
    ctx.outcome((unit['sig'], unit['start'], v))
    ctx.sample({'first': v, 'start': STARTS[unit['start']], 'spread': unit['sig'], 'length': unit['len']})
