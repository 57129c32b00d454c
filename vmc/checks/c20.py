"""C20: zero bracketing against every possible sequence of answers of the function."""
import itertools

PROP = 'C20'
LEVEL = 'model_checking'
RULE = ('the function is an adversary: every sequence of answers from an alphabet of signs and magnitudes (tiny, equal and zero values included) to the evaluations made is explored, for several intervals, '
        'expansion factors and try limits, with and without given values and extra arguments; then monotone functions with zeros on a lattice')
ASSUMPTIONS = ['a zero exactly at an end is not required to be recognised as a bracket']

ANS = [-2., -1., -1e-200, 0., 1e-200, 1., 2.]
INT = [(0., 1.), (1., 0.), (-1., 2.), (5., 5.5), (-3, -2)]


def units(tier):
    u = []
    for i in range(len(INT)):
        for e in (1.6, 2., .1):
            u.append({'t': 'adv', 'i': i, 'e': e, 'tries': 4 if tier == 'thorough' else 3})
    u += [{'t': 'deep', 'i': i, 'tries': t} for i in range(len(INT)) for t in (5, 8)]
    u += [{'t': 'mono', 'i': i} for i in range(len(INT))]
    u += [{'t': 'null'}]
    return u


def sign(x):
    return (x > 0) - (x < 0)


def run_unit(unit, ctx):
    from inference.utils.numutils import zbracket
    if unit['t'] == 'null':
        for x in (0., 1., -3.5, 7):
            for kw in ({}, {'vals': (1., -1.)}, {'args': (2,)}):
                ctx.state((x, tuple(kw)))
                ctx.step()
                ctx.trace()
                try:
                    zbracket(lambda *a: a[0], x, x, **kw)
                except ValueError:
                    ctx.outcome('refused')
                else:
                    ctx.fail('a null interval at %r was accepted' % x, [x, list(kw)])
        return
    x1, x2 = INT[unit['i']]
    if unit['t'] == 'mono':
        return mono(ctx, zbracket, x1, x2)
    expand = unit.get('e', 1.6)
    if unit['t'] == 'deep':
        ans, tries = [-1., 1., 2.], [unit['tries']]
    else:
        ans, tries = ANS, list(range(0, unit['tries'] + 1))

    def run(mt, prefix, mode):
        """Execute with the answers of prefix; the default answer afterwards is ans[0].  Returns what happened."""
        seen, idx = [], []

        def f(x, *a):
            if 'args' in mode and a != (3, 'k'):
                ctx.fail('extra arguments %r' % (a,), prefix)
            k = len(seen)
            i = prefix[k] if k < len(prefix) else 0
            idx.append(i)
            seen.append((x, ans[i]))
            return ans[i]
        kw = {'maxtries': mt, 'expand': expand}
        ex = (3, 'k') if 'args' in mode else ()
        if 'vals' in mode:
            v1, v2 = f(x1, *ex), f(x2, *ex)
            kw['vals'] = (v1, v2)
        if 'args' in mode:
            kw['args'] = (3, 'k')
        try:
            out = zbracket(f, x1, x2, **kw)
        except RuntimeError:
            out = None
        return out, seen, idx

    for mt in tries:
        stack = [[]]
        while stack:
            prefix = stack.pop()
            case = {'interval': (x1, x2), 'expand': expand, 'maxtries': mt, 'answers': [ans[i] for i in prefix]}
            ctx.at(case)
            out, seen, idx = run(mt, prefix, 'plain')
            ctx.step()
            ctx.trace()
            ctx.state((unit['i'], expand, mt, tuple(idx)))
            # schedule the unexplored siblings
            for k in range(len(prefix), len(idx)):
                for alt in range(1, len(ans)):
                    stack.append(idx[:k] + [alt])
            val = dict(seen)
            case['evaluations'] = seen
            if len(seen) > mt + 2:
                ctx.fail('%d evaluations with at most %d expansions' % (len(seen), mt), case)
            if sorted(x for x, v in seen[:2]) != sorted((x1, x2)):
                ctx.fail('the search did not start from the given interval', case)
            for x, v in seen[2:]:
                if min(x1, x2) < x < max(x1, x2):
                    ctx.fail('evaluated inside the given interval', case)
            if out is not None:
                a, b = out
                if a not in val or b not in val:
                    ctx.fail('returned %r, which was not evaluated' % (out,), case)
                if sign(val[a])*sign(val[b]) >= 0:
                    ctx.fail('returned %r where the function is %r and %r' % (out, val[a], val[b]), case)
                if min(a, b) > min(x1, x2) or max(a, b) < max(x1, x2):
                    ctx.fail('returned %r which does not contain the given interval' % (out,), case)
                if sign(seen[0][1])*sign(seen[1][1]) < 0 and {a, b} != {x1, x2}:
                    ctx.fail('the given interval was a bracket, returned %r' % (out,), case)
            else:
                for k in range(2, len(seen) + 1):
                    part = seen[:k]
                    lo, hi = min(part), max(part)
                    if sign(lo[1])*sign(hi[1]) < 0:
                        ctx.fail('no bracket reported although the function is %r at %r and %r at %r' % (lo[1], lo[0], hi[1], hi[0]), case)
                if len(seen) < mt + 1:
                    ctx.fail('gave up after %d evaluations' % len(seen), case)
            for mode in ('vals', 'args', 'vals and args'):
                o2, s2, i2 = run(mt, idx, mode)
                if o2 != out or s2 != seen:
                    ctx.fail('with %s the result is %r, without %r' % (mode, o2, out), case)
            ctx.outcome((out is None, len(seen), tuple(sign(v) for x, v in seen)))
        ctx.sample(case)


def mono(ctx, zbracket, x1, x2):
    fs = [('linear', lambda x, r: x - r), ('falling', lambda x, r: r - x), ('tiny', lambda x, r: 1e-250*(x - r)), ('huge', lambda x, r: 1e250*(x - r)),
          ('cubic', lambda x, r: (x - r)**3), ('affine', lambda x, r: 3*(x - r)/(1 + abs(x - r)))]
    for name, f in fs:
        for r in [k*.37 + .0123 for k in range(-120, 120)] + [1e4, -1e6, 3.3e8]:
            case = {'f': name, 'zero': r, 'interval': (x1, x2)}
            ctx.at(case)
            ctx.state(case)
            ctx.step()
            n = [0]

            def g(x):
                n[0] += 1
                return f(x, r)
            try:
                a, b = zbracket(g, x1, x2)
            except RuntimeError:
                ctx.fail('no bracket found for a monotone function', case)
            if sign(f(a, r))*sign(f(b, r)) >= 0:
                ctx.fail('(%r, %r) is not a bracket' % (a, b), case)
            if n[0] > 52:
                ctx.fail('%d evaluations' % n[0], case)
            ctx.trace()
            ctx.outcome((name, n[0]))
