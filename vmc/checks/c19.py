"""C19: the steppers give n points, ends exact, evenly spaced; interleaved steppers are independent."""
import itertools

PROP = 'C19'
LEVEL = 'exploration'
RULE = ('every n up to the bound (and some large ones) for every pair of ends of a lattice and every stepper, all values compared with correctly rounded positions; '
        'every interleaving of the iterations of two or three live steppers')
ASSUMPTIONS = ['n is at least 2; log ends have equal signs and a ratio that is a finite double', 'inner points to 1e-12 of the range (linear), 1e-12*n relative (log)']

LIN = [(0., 1.), (1., 0.), (-3., 5.), (2.5, -7.25), (0, 7), (1e6, 1e6 + 1.), (-1e-8, 1e-8), (3., 1e9), (.1, .7), (-5., -4.), (1, 10)]
LOG = [(1., 10.), (10., 1.), (.001, 1000.), (2., 2.5), (1e-30, 1e30), (-1., -8.), (-9., -.5), (1, 8), (.1, .7), (1e-150, 1e150)]


def units(tier):
    N = 700 if tier == 'thorough' else 260
    u = [{'t': 'lin', 'e': i, 'n': N} for i in range(len(LIN))] + [{'t': 'log', 'e': i, 'n': N} for i in range(len(LOG))]
    u += [{'t': 'mix', 'a': a, 'b': b, 'n': 6 if tier == 'thorough' else 5} for a in range(4) for b in range(4)]
    u += [{'t': 'mix3', 'n': 4 if tier == 'thorough' else 3}]
    return u


def run_unit(unit, ctx):
    from inference.utils import numutils
    from inference.utils.numutils import lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper
    from math import log, exp
    if unit['t'] in ('lin', 'log'):
        lin = unit['t'] == 'lin'
        lo, hi = (LIN if lin else LOG)[unit['e']]
        plain, enum = (lin_stepper, lin_enum_stepper) if lin else (log_stepper, log_enum_stepper)
        for n in list(range(2, unit['n'] + 1)) + [1000, 1024, 4097, 20000]:
            case = {'stepper': unit['t'], 'lo': lo, 'hi': hi, 'n': n}
            ctx.at(case)
            v = list(plain(lo, hi, n))
            w = list(enum(lo, hi, n))
            ctx.case(2)
            if len(v) != n or len(w) != n:
                ctx.fail('%d and %d values for n = %d' % (len(v), len(w), n), case)
            if v[0] != lo or v[-1] != hi:
                ctx.fail('ends %r, %r' % (v[0], v[-1]), case)
            if [i for i, x in w] != list(range(n)):
                ctx.fail('enumeration %r' % [i for i, x in w][:5], case)
            if [x for i, x in w] != v and any(not abs(x - y) <= 1e-12*max(abs(x), abs(y)) for (i, x), y in zip(w, v)):
                ctx.fail('the enumerating form gives other values', case)
            up = hi > lo
            for i in range(1, n):
                if not (v[i] > v[i-1] if up else v[i] < v[i-1]):
                    ctx.fail('values %d and %d are %r, %r' % (i - 1, i, v[i-1], v[i]), case)
            for i in range(1, n - 1):
                if lin:
                    x = lo + (hi - lo)*(i/(n - 1.))
                    ok = abs(v[i] - x) <= 1e-12*abs(hi - lo) + 4e-16*max(abs(lo), abs(hi))
                else:
                    r = log(v[i]/float(lo))
                    x = log(hi/float(lo)) if 1e-200 < abs(lo) else log(abs(hi)) - log(abs(lo))
                    ok = abs(r - x*(i/(n - 1.))) <= 2e-15*n + 2e-14*abs(x)
                if not ok:
                    ctx.fail('value %d is %r' % (i, v[i]), case)
            if lin and hasattr(numutils, 'frange'):
                f = numutils.frange(lo, hi, n)
                ctx.case()
                if len(f) != n or any(not abs(x - y) <= 1e-12*abs(hi - lo) + 4e-16*max(abs(lo), abs(hi)) for x, y in zip(f, v)):
                    ctx.fail('frange gives %r...' % [float(x) for x in f[:4]], case)
            ctx.outcome((unit['t'], unit['e'], n))
        ctx.sample({'stepper': unit['t'], 'ends': (lo, hi), 'n': [2, unit['n']]})
        return
    kinds = [lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper]
    if unit['t'] == 'mix':
        combos = [(unit['a'], unit['b'], na, nb) for na in range(2, unit['n'] + 1) for nb in range(2, unit['n'] + 1)]
        for a, b, na, nb in combos:
            mk = [lambda: kinds[a](1., 9., na), lambda: kinds[b](5., 2., nb)]
            alone = [list(m()) for m in mk]
            for pos in itertools.combinations(range(na + nb), na):
                case = {'steppers': [kinds[a].__name__, kinds[b].__name__], 'n': [na, nb], 'first advances at': pos}
                ctx.at(case)
                its = [mk[0](), mk[1]()]
                out = [[], []]
                for t in range(na + nb):
                    k = 0 if t in pos else 1
                    out[k].append(next(its[k]))
                ctx.case()
                for k in (0, 1):
                    if out[k] != alone[k] or next(its[k], 'end') != 'end':
                        ctx.fail('interleaved stepper %d gave %r, alone %r' % (k, out[k], alone[k]), case)
                ctx.outcome((a, b, na, nb, pos))
        ctx.sample(case)
        return
    n = unit['n']
    mk = [lambda: lin_stepper(0., 1., n), lambda: lin_stepper(0., 3., n), lambda: log_stepper(1., 4., n)]
    alone = [list(m()) for m in mk]
    for order in gen3(n):
        its = [m() for m in mk]
        out = [[], [], []]
        for k in order:
            out[k].append(next(its[k]))
        ctx.case()
        ctx.outcome(order)
        if out != alone:
            ctx.fail('interleaving %r gave %r' % (order, out), {'order': order})


def gen3(n):
    def rec(left):
        if not any(left):
            yield ()
        for k in range(3):
            if left[k]:
                l2 = list(left)
                l2[k] -= 1
                for r in rec(l2):
                    yield (k,) + r
    return rec([n, n, n])
