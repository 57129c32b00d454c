"""C36: piecewise linear densities: pdf values and samples against the interpolated, cut and normalised table, for all small tables and all draws of a lattice."""
import itertools
from math import exp, log, sqrt

PROP = 'C36'
LEVEL = 'model_checking'
RULE = ('every table over a lattice of values (zeros, negligible and ordinary ones) up to the length bound, on equally spaced domains and on given abscissas, as values and as logarithms, with every cut: the pdf is compared at every '
        'grid point, between them and outside; and every outcome of the draws on a lattice of words choosing the interval and of uniform deviates placing the sample is replayed: each must be the quantile of its interval')
ASSUMPTIONS = ['the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so',
               'no value is exactly at the cut', 'at least two values, the largest positive']

VALS = [0., 1., 3., 1e-4]
DOMAINS = [(0., 1.), (-2., 5.), (1e3, 1e3 + 7.)]


def units(tier):
    u = []
    top = 6 if tier == 'thorough' else 5
    for n in range(2, top + 1):
        for first in (VALS if n > 3 else [None]):
            u.append({'t': 'pdf', 'n': n, 'first': first})
    for n in range(2, 5 if tier == 'thorough' else 4):
        for first in VALS:
            u.append({'t': 'draw', 'n': n, 'first': first})
    u += [{'t': 'draw', 'table': t} for t in ([1., 3., 0., 0., 2., 2., 1e-4, 5.], [0., 0., 1., 0., 0.], [1e-4, 1., 1e-4, 1e-4, 1e-4, 3.], [2., 2., 2.], [1., 1.015], [1., 1.0001, 1.], [3., 3. + 1e-6, 3. - 1e-6, 1.], [1., 1.001, 0., 1.], [1e-300, 1e-301], [float(1 + i % 5) for i in range(30)])]
    u += [{'t': 'forms'}]
    return u


def setup():
    from . import c32
    c32.setup()


def run_unit(unit, ctx):
    import numpy as np
    from . import c32
    if c32.KIT is None:
        ctx.note('the C sampler cannot be compiled here: not decided')
        return
    c32.use(c32.KIT)
    globals()[unit['t']](unit, ctx, np, c32)


# ---------------------------------------------------------------------- reference
class Ref:
    def __init__(self, x, v, cut):
        top = max(v)
        self.x = x
        self.v = [a if a/top > cut else 0. for a in v]
        self.area = [.5*(a + b)*(q - p) for a, b, p, q in zip(self.v, self.v[1:], x, x[1:])]
        self.norm = sum(self.area)

    def pdf(self, t):
        x, v = self.x, self.v
        if t < x[0] or t > x[-1]:
            return 0.
        for i in range(len(x) - 1):
            if t <= x[i+1]:
                f = (t - x[i])/(x[i+1] - x[i])
                return (v[i] + f*(v[i+1] - v[i]))/self.norm

    def within(self, i, t):
        """Cumulative probability of t in interval i, relative to the interval."""
        a, b, p, q = self.v[i], self.v[i+1], self.x[i], self.x[i+1]
        f = (t - p)/(q - p)
        return f*(a + .5*f*(b - a))/(.5*(a + b))


def absc(lo, hi, n):
    return [lo + (hi - lo)*i/(n - 1.) for i in range(n)]


def build(np, PW, how, lo, hi, x, v, cut):
    kw = {} if cut is None else {'cut': cut}
    if how == 'vals':
        return PW(lo, hi, np.array(v), **kw)
    if how == 'list':
        return PW(lo, hi, list(v), **kw)
    if how == 'log':
        return PW(lo, hi, np.array([log(a) if a > 0 else float('-inf') for a in v]), logvals=True, **kw)
    return PW(absc=np.array(x), vals=np.array(v), **kw)


def close(a, b, s):
    return abs(a - b) <= 1e-9*s


def pdf(unit, ctx, np, c32):
    from inference.mc.pwlinear import PWLinear
    n = unit['n']
    pre = () if unit['first'] is None else (unit['first'],)
    for rest in itertools.product(VALS, repeat=n - len(pre)):
        v = pre + rest
        if max(v) == 0.:
            continue
        for cut in (None, 1e-3, .5, 0.):
            ref_cut = 1e-9 if cut is None else cut
            for d, (lo, hi) in enumerate(DOMAINS):
                if n > 4 and d:
                    continue
                x = absc(lo, hi, n)
                ref = Ref(x, v, ref_cut)
                pts = [lo - 1., hi + 1., lo, hi]
                for i in range(n - 1):
                    pts += [x[i], .5*(x[i] + x[i+1]), .9*x[i] + .1*x[i+1], .01*x[i] + .99*x[i+1]]
                for how in ('vals', 'list', 'log'):
                    if how == 'log' and cut == 0.:
                        continue
                    case = {'vals': v, 'domain': (lo, hi), 'cut': cut, 'given': how}
                    ctx.at(case)
                    f = build(np, PWLinear, how, lo, hi, x, v, cut)
                    ctx.step()
                    ctx.state((v, lo, cut, how))
                    arr = f.pdf(np.array(pts))
                    for k, t in enumerate(pts):
                        if any(abs(t - q) < 1e-9*(hi - lo) for q in (lo, hi)) and t not in (lo, hi):
                            continue
                        e = ref.pdf(t)
                        one = f.pdf(t)
                        if not (close(float(one), e, 1./(hi - lo)*n) and close(float(arr[k]), e, 1./(hi - lo)*n)):
                            ctx.fail('the density at %r is %r (%r from an array), it should be %r' % (t, float(one), float(arr[k]), e), case)
                    ctx.trace()
                ctx.outcome((n, cut, tuple(round(ref.pdf(t), 9) for t in pts[:12])))
    ctx.sample({'n': n, 'first': unit['first']})


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    z = y
    for _ in range(7):
        z = y ^ ((z << 7) & 0x9d2c5680)
    y = z & 0xffffffff
    z = y
    for _ in range(3):
        z = y ^ (z >> 11)
    return z & 0xffffffff


def uniforms(np, us):
    """Put NumPy's generator where its next uniform deviates are those given."""
    words = []
    for u in us:
        k = int(u*2**53)
        words += [(k >> 26) << 5, (k & 0x3ffffff) << 6]
    key = np.zeros(624, dtype=np.uint32)
    key[:len(words)] = [untemper(w) for w in words]
    np.random.set_state(('MT19937', key, 0, 0, 0.))


def draw(unit, ctx, np, c32):
    from inference.mc.pwlinear import PWLinear
    from .c35 import script
    kit = c32.KIT
    if 'table' in unit:
        tables = [tuple(unit['table'])]
    else:
        tables = [(unit['first'],) + r for r in itertools.product(VALS, repeat=unit['n'] - 1)]
    U = 64
    us = [(k + .5)/U for k in range(U)]
    for v in tables:
        if max(v) <= 0.:
            continue
        n = len(v)
        for how, (lo, hi), cut in (('vals', DOMAINS[0], None), ('log', DOMAINS[1], None), ('absc', (0., 0.), None), ('vals', DOMAINS[1], 1e-3), ('list', DOMAINS[0], .5), ('absc', (0., 0.), .5), ('vals', DOMAINS[0], 0.)):
            x = [i*i*.5 - 3. for i in range(1, n + 1)] if how == 'absc' else absc(lo, hi, n)
            case = {'vals': v, 'abscissas': x, 'given': how, 'cut': cut}
            ctx.at(case)
            ref = Ref(x, v, 1e-9 if cut is None else cut)
            f = build(np, PWLinear, how, lo, hi, x, v, cut)
            K = 256
            hits = [0]*(n - 1)
            done = {}
            for a in range(K):
                word = (a << 24) + (1 << 23)
                keep = script(kit, [word]*U, [])
                uniforms(np, us)
                got = f.sample(U)
                ctx.step(U)
                got = [float(t) for t in got]
                if len(got) != U:
                    ctx.fail('%d samples were asked for, got %d' % (U, len(got)), case)
                i = place(ctx, ref, got, us, case)
                hits[i] += 1
                if kit._lib.script_over() == 0:
                    done.setdefault(i, word)
                ctx.state((v, how, cut, a))
            for i in range(n - 1):
                e = ref.area[i]/ref.norm
                if not abs(hits[i]/K - e) <= (n + 2.)/K:
                    ctx.fail('interval %d is chosen with probability %.4f, it holds %.4f' % (i, hits[i]/K, e), case)
            # single samples
            for i, word in done.items():
                for u in us[::4]:
                    keep = script(kit, [word], [])
                    uniforms(np, [u])
                    t = f.sample()
                    ctx.step()
                    if np.ndim(t) or not (close(ref.within(i, float(t)), u, 1.) or close(ref.within(i, float(t)), 1 - u, 1.)) or not ref.x[i] - 1e-12*abs(ref.x[i]) <= t <= ref.x[i+1] + 1e-12*abs(ref.x[i+1]):
                        ctx.fail('a single draw in interval %d with uniform deviate %r gave %r' % (i, u, t), case)
            # mixed intervals in one call
            ks = sorted(done)[:3]
            for seq in itertools.product(ks, repeat=3):
                keep = script(kit, [done[i] for i in seq], [])
                uu = [.1, .5, .85]
                uniforms(np, uu)
                got = f.sample(3)
                ctx.step()
                for i, t, u in zip(seq, got, uu):
                    if not ref.x[i] - 1e-9 <= t <= ref.x[i+1] + 1e-9 or not (close(ref.within(i, float(t)), u, 1.) or close(ref.within(i, float(t)), 1 - u, 1.)):
                        ctx.fail('draws in intervals %r with uniform deviates %r gave %r' % (seq, uu, [float(q) for q in got]), case)
            ctx.trace()
            ctx.outcome((v, how, tuple(hits)))
    ctx.sample({'tables': len(tables), 'lattice': [K, U]})


def place(ctx, ref, got, us, case):
    """All samples of one interval word lie in one interval and are its quantiles."""
    m = sum(got)/len(got)
    for i in range(len(ref.x) - 1):
        if ref.x[i] <= m <= ref.x[i+1]:
            break
    else:
        ctx.fail('samples %r... lie outside the domain' % got[:3], case)
    if ref.area[i] == 0.:
        ctx.fail('samples %r... lie where the density is zero' % got[:3], case)
    q = sorted(ref.within(i, t) for t in got)
    for a, b in zip(q, us):
        if not close(a, b, 1.):
            ctx.fail('uniform deviates %r... gave samples at the quantiles %r... of their interval' % (us[:3], q[:3]), case)
    return i


def forms(unit, ctx, np, c32):
    from inference.mc.pwlinear import PWLinear
    v = [1., 3., 2., 2.]
    ref = Ref(absc(0., 3., 4), v, 1e-9)
    ctx.state('forms')
    for name, make in (('ints', lambda: PWLinear(0, 3, [1, 3, 2, 2])), ('int array', lambda: PWLinear(0, 3, np.array([1, 3, 2, 2]))), ('tuple', lambda: PWLinear(0., 3., (1., 3., 2., 2.))),
                       ('float32', lambda: PWLinear(0., 3., np.array(v, np.float32))), ('slice', lambda: PWLinear(0., 3., np.array([1., 9., 3., 9., 2., 9., 2.])[::2])), ('keywords', lambda: PWLinear(vals=np.array(v), hi=3., lo=0.))):
        case = {'form': name}
        ctx.at(case)
        ctx.step()
        f = make()
        for t in [0., .25, 1., 1.5, 2.9, 3., -1, 4, 2]:
            if not close(float(f.pdf(t)), ref.pdf(t), 1.):
                ctx.fail('the density at %r is %r, it should be %r' % (t, f.pdf(t), ref.pdf(t)), case)
        ctx.trace()
    for name, arg in (('array', np.array(v)), ('list', list(v))):
        f, g = PWLinear(0., 3., arg), PWLinear(0., 3., arg)
        f.pdf(1.)
        ctx.step()
        if list(arg) != v:
            ctx.fail('the values given were changed', {'form': name})
        x = np.array([0., 1., 2., 3.])
        PWLinear(absc=x, vals=arg)
        if list(arg) != v or list(x) != [0., 1., 2., 3.]:
            ctx.fail('the values or abscissas given were changed', {'form': name})
    # long tables, with long stretches of zeros
    for n in (51, 128, 1000, 3001):
        for k in range(4):
            w = [0. if k and (i//(7*k)) % 3 == 0 else 1. + (i*7919 % 101) for i in range(n)]
            if k == 3:
                w[:n//2] = [0.]*(n//2)
            f = PWLinear(-1., 4., np.array(w))
            x = absc(-1., 4., n)
            r = Ref(x, w, 1e-9)
            ctx.step()
            ctx.state(('long', n, k))
            for i in range(0, n - 1, max(1, n//97)):
                for t in (x[i], .5*(x[i] + x[i+1]), .2*x[i] + .8*x[i+1]):
                    if abs(float(f.pdf(t)) - r.pdf(t)) > 1e-6*max(r.v)/r.norm:
                        ctx.fail('the density at %r is %r, it should be %r' % (t, f.pdf(t), r.pdf(t)), {'n': n, 'k': k})
    lv = [-1, 2, 1, 0]
    ref = Ref(absc(0., 3., 4), [exp(a) for a in lv], 1e-9)
    for name, arg in (('ints', list(lv)), ('int array', np.array(lv)), ('floats', np.array(lv, float)), ('list', [float(a) for a in lv])):
        case = {'form': 'logs as ' + name}
        ctx.at(case)
        ctx.step()
        before = list(arg)
        f = PWLinear(0., 3., arg, logvals=True)
        if list(arg) != before:
            ctx.fail('the values given were changed', case)
        for t in [0., .25, 1., 1.5, 2.9, 3.]:
            if not close(float(f.pdf(t)), ref.pdf(t), 1.):
                ctx.fail('the density at %r is %r, it should be %r' % (t, f.pdf(t), ref.pdf(t)), case)
    for big in (700., -700., 1e5):
        f = PWLinear(0., 3., np.array([big + a for a in lv], float), logvals=True)
        ctx.step()
        for t in [0., .25, 1., 1.5, 2.9, 3.]:
            if not abs(float(f.pdf(t)) - ref.pdf(t)) <= 1e-6:
                ctx.fail('with logs shifted by %r the density at %r is %r, it should be %r' % (big, t, f.pdf(t), ref.pdf(t)), {'shift': big})
    for name, bad in (('nothing', lambda: PWLinear(vals=np.array(v))), ('lengths', lambda: PWLinear(absc=[0., 1.], vals=np.array(v))), ('log step', lambda: PWLinear(1., 3., np.array(v), step='log'))):
        ctx.at(name)
        ctx.step()
        try:
            bad()
        except Exception:
            continue
        ctx.fail('invalid arguments were accepted', {'form': name})
