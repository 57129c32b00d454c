"""C40: piecewise-constant periodic point process model: binning, multiplicities, phase integrals, chi-squares and rate estimates against exact piecewise integration; all call histories."""
import importlib.util
import itertools
import os
import sys
from math import exp, floor, fsum, lgamma, log, pi, sqrt

PROP = 'C40'
LEVEL = 'model_checking'
RULE = ('every set of event times over a lattice (coinciding, negative, zero, one and many) with every number of bins, frequency, derivatives and phase of lattices: counts in bins, log inverse multiplicity, chi-square, exact and '
        'trapezoid phase integrals, phase averages, odds and rate estimates are compared with a piecewise integration that finds every shift at which an event changes its bin; and every sequence of calls up to the depth bound '
        '(changes of bins, quadrature, frequency parameters given or left out, queries of each kind, over two models of the same data) against models that are asked only once')
ASSUMPTIONS = ['at least one event; phases below 2**31 turns', 'no event closer than 1e-8 turns to a bin boundary at a phase that is asked for (there the bin is a matter of rounding); integrals over the phase need no such exception',
               'the Fortran and C parts are compiled for the Python here; when that is impossible the check says so']
TWOPI = 2*pi
TIMES = [0., .3, 1.1, 2.7, -0.8, 10.33]
WS = [(1., 0., 0.), (2.2, 0., 0.), (-1.3, 0., 0.), (1., .3, 0.), (2.2, -.05, .07), (.37, .011, -.4)]
PHI = [0., .4, 1.3, 3., 6.1]
P = G = None
WHY = None


def setup():
    global P, G, WHY
    import types
    from .. import cext
    d = os.path.join(cext.REPO, 'sandbox', 'point', 'periodic')
    try:
        G = cext.fext('_pcperiodic', os.path.join(d, '_pcperiodic.pyf'), [os.path.join(d, '_pcperiodic.f')])
        ray = cext.build('_rayleigh', 'init_rayleigh', os.path.join(d, '_rayleigh.c'))
    except cext.CannotBuild as x:
        WHY = str(x)
        return
    pkg = types.ModuleType('sandbox_periodic')
    pkg.__path__ = [d]
    pkg._pcperiodic, pkg._rayleigh = G, ray
    sys.modules['sandbox_periodic'] = pkg
    sys.modules['_pcperiodic'] = sys.modules['sandbox_periodic._pcperiodic'] = G
    sys.modules['_rayleigh'] = sys.modules['sandbox_periodic._rayleigh'] = ray
    spec = importlib.util.spec_from_file_location('sandbox_periodic.periodic', os.path.join(d, 'periodic.py'))
    P = importlib.util.module_from_spec(spec)
    sys.modules['sandbox_periodic.periodic'] = P
    spec.loader.exec_module(P)


BIG = [((i*i*37 + 11*i) % 997)/50. for i in range(130)]


def units(tier):
    n = 6 if tier == 'thorough' else 5
    u = [{'t': 'model', 'n': k, 'bins': b} for k in range(1, n + 1) for b in ((1, 2, 3, 4, 5, 8) if tier == 'thorough' or k < 5 else (2, 3, 5))]
    u += [{'t': 'many', 'bins': b} for b in (1, 2, 4, 7, 20)]
    u += [{'t': 'native', 'bins': b} for b in (1, 2, 3, 4, 6)]
    u += [{'t': 'forms'}]
    depth = 5 if tier == 'thorough' else 4
    u += [{'t': 'hist', 'first': k, 'depth': depth} for k in range(len(OPS))]
    return u


def run_unit(unit, ctx):
    import numpy as np
    if P is None:
        ctx.note('the native parts cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


# ---------------------------------------------------------------------- reference
class Ref:
    def __init__(self, ts, nbins, w):
        self.n, self.m = len(ts), nbins
        self.f = [((w[2]*t/6. + .5*w[1])*t + w[0])*t/TWOPI for t in ts]

    def counts(self, x):
        """Counts in bins for a shift of x turns; None when an event is too close to a boundary."""
        c = [0]*self.m
        for f in self.f:
            y = f + x
            y = (y - floor(y))*self.m
            if abs(y - round(y)) < 1e-8*self.m and y != 0.:
                return None
            c[int(y) % self.m] += 1
        return c

    def limult(self, c):
        return fsum(lgamma(k + 1) for k in c) - lgamma(self.n + 1)

    def chi(self, c):
        e = self.n/float(self.m)
        return fsum((k - e)**2 for k in c)/e

    def pieces(self, extra=()):
        """The shifts in [0, 1/m) cut where an event changes bins: (length, counts, middle)."""
        w = 1./self.m
        cut = [0., w]
        for f in list(self.f) + list(extra):
            y = f*self.m
            cut.append((1. - (y - floor(y)))*w)
        cut = sorted(x for x in cut if 0. <= x <= w)
        for a, b in zip(cut, cut[1:]):
            if b - a > 1e-11:
                mid = .5*(a + b)
                c = [0]*self.m
                for f in self.f:
                    y = f + mid
                    c[int((y - floor(y))*self.m) % self.m] += 1
                yield b - a, c, mid

    def integral(self):
        """Log of the integral over the phase in [0, 2 pi) of the inverse multiplicity, and the averaged chi-square."""
        p = list(self.pieces())
        top = max(self.limult(c) for _, c, _ in p)
        s = fsum(d*exp(self.limult(c) - top) for d, c, _ in p)*self.m*TWOPI
        return top + log(s), fsum(d*self.chi(c) for d, c, _ in p)*self.m

    def trap(self, q):
        """The same by the trapezoid rule with q points over one bin width; None when undecided."""
        v, x2 = [], []
        for i in range(q):
            c = self.counts(i/(q - 1.)/self.m)
            if c is None:
                return None
            k = .5 if i in (0, q - 1) else 1.
            v.append((k, self.limult(c)))
            x2.append(k*self.chi(c))
        top = max(l for _, l in v)
        return top + log(fsum(k*exp(l - top) for k, l in v)*TWOPI/(q - 1)), fsum(x2)/(q - 1)

    def rate(self, theta):
        """Mean and standard deviation of the rate, relative to the average, at a phase in radians."""
        y = theta/TWOPI
        p = list(self.pieces([y]))
        top = max(self.limult(c) for _, c, _ in p)
        s0 = s1 = s2 = 0.
        for d, c, mid in p:
            z = y + mid
            k = c[int((z - floor(z))*self.m) % self.m]
            a = d*exp(self.limult(c) - top)
            r = self.m*(k + 1.)/(self.n + self.m)
            s0 += a
            s1 += a*r
            s2 += a*r*self.m*(k + 2.)/(self.n + self.m + 1.)
        return s1/s0, sqrt(max(0., s2/s0 - (s1/s0)**2))

    def tol(self):
        """Each step over a change of bins is longer by 1e-10 bins, to be safe from rounding."""
        return 1e-6 + 5e-10*self.n*self.m**2

    def bfac(self):
        n, m = self.n, self.m
        return lgamma(m) + n*log(m) + lgamma(n + 1) - lgamma(n + m)


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol*(1. + abs(b))


def ask(ctx, np, case, m, ref, w, quad, give=True):
    """All queries of a model with the frequency parameters w, against the reference."""
    kw = dict(zip(('w', 'wdot', 'wddot'), w)) if give else {}
    for phi in PHI:
        c = ref.counts(phi/TWOPI)
        if c is None:
            continue
        l = m.lml_pw(phi, **kw)
        if not near(l, ref.limult(c)):
            ctx.fail('lml_pw at phase %r is %r, it should be %r' % (phi, float(l), ref.limult(c)), case)
        if not near(m.chi_pw(phi, **kw), ref.chi(c)):
            ctx.fail('chi_pw at phase %r is %r, it should be %r' % (phi, float(m.chi_pw(phi, **kw)), ref.chi(c)), case)
        ctx.step()
    for q in quad:
        m.set_qpts(q)
        want = ref.integral() if q == 0 else ref.trap(q)
        if want is None:
            continue
        s = m.sml_w(**kw)
        tol = ref.tol()
        if not (s > 0 and near(log(s) - m.offset, want[0], tol)):
            ctx.fail('the log marginal likelihood with %d points is %r, it should be %r' % (q, (log(s) - m.offset) if s > 0 else s, want[0]), case)
        a = m.avgchi_w(**kw)
        if not near(a, want[1], tol):
            ctx.fail('the averaged chi-square with %d points is %r, it should be %r' % (q, float(a), want[1]), case)
        ctx.step()
        ctx.outcome((q, round(want[0], 7), round(want[1], 7)))
    if not near(m.logbfac, ref.bfac()):
        ctx.fail('logbfac is %r, it should be %r' % (m.logbfac, ref.bfac()), case)


def rates(ctx, np, case, m, ref, w):
    th = [0., .2, 1., 2.5, 3.3, 5., 6.28]
    keep = np.array(th)
    r, u = m.rate_est(keep, *w)
    if not (keep == th).all():
        ctx.fail('the phases given were changed', case)
    if np.shape(r) != (len(th),) or np.shape(u) != (len(th),):
        ctx.fail('the rate estimate has shapes %r and %r for %d phases' % (np.shape(r), np.shape(u), len(th)), case)
    for i, t in enumerate(th):
        e = ref.rate(t)
        if not near(r[i], e[0], ref.tol()) or not near(u[i]**2, e[1]**2, ref.tol()):
            ctx.fail('the rate at phase %r is %r +- %r, it should be %r +- %r' % (t, float(r[i]), float(u[i]), e[0], e[1]), case)
    ctx.step()
    for n in (5, 2, 1):
      ph, r, u = m.rate_est(n)
      if len(ph) != n or len(r) != n or len(u) != n:
        ctx.fail('%d phases asked for, got %d, %d, %d' % (n, len(ph), len(r), len(u)), case)
      for i in range(n):
        t = TWOPI*i/(n - 1) if n > 1 else 0.
        e = ref.rate(t)
        if not near(ph[i], t, 1e-9) or not near(r[i], e[0], ref.tol()) or not near(u[i]**2, e[1]**2, ref.tol()):
            ctx.fail('point %d of the rate estimate is %r, it should be %r' % (i, (float(ph[i]), float(r[i]), float(u[i])), (t,) + e), case)


def model(unit, ctx, np):
    n, b = unit['n'], unit['bins']
    for ts in itertools.combinations_with_replacement(TIMES, n):
        for w in WS:
            case = {'times': ts, 'bins': b, 'w, wdot, wddot': w}
            ctx.at(case)
            ctx.state((ts, b, w))
            data = np.array(ts)
            m = P.PCModel(data, b, 0)
            data[:] = 99.
            ref = Ref(ts, b, w)
            ask(ctx, np, case, m, ref, w, (0, 2, 3, 7))
            rates(ctx, np, case, m, ref, w)
            ctx.trace()
    ctx.sample({'events': n, 'bins': b})


def many(unit, ctx, np):
    """More events than the table of factorials holds; nearly all in one bin, and spread out."""
    b = unit['bins']
    for name, ts in (('spread', BIG), ('spread, 40', BIG[:40]), ('together', [.3 + 1e-4*i for i in range(130)]), ('99', BIG[:99]), ('100', BIG[:100]), ('101', [.3]*101)):
        for w in WS[:5]:
            case = {'times': name, 'bins': b, 'w, wdot, wddot': w}
            ctx.at(case)
            ctx.state((name, b, w))
            m = P.PCModel(np.array(ts), b, 0)
            ref = Ref(ts, b, w)
            ask(ctx, np, case, m, ref, w, (0, 5))
            rates(ctx, np, case, m, ref, w)
            ctx.trace()
    # other bins than before, with so many events that the likelihoods are far apart
    ts = [((i*i*37 + 11*i) % 997)/50. for i in range(400)]
    for first in (1, 3, 30):
        w = WS[0]
        case = {'times': '400', 'bins before': first, 'bins': b, 'w, wdot, wddot': w}
        ctx.at(case)
        ctx.state((first, '400', b))
        m = P.PCModel(np.array(ts), first, 5)
        m.sml_w(*w)
        m.rate_est([.2])
        m.set_nbins(b)
        ask(ctx, np, case, m, Ref(ts, b, w), w, (5, 0))
        ctx.trace()
    ctx.sample({'bins': b})


def native(unit, ctx, np):
    """The parts below the model: boundaries, forward distance to the next change of bins, likelihoods and odds."""
    b = unit['bins']
    edges = np.zeros(b)
    G.binbounds(edges)
    if not all(abs(x - i/float(b)) <= 1e-12 for i, x in enumerate(edges)):
        ctx.fail('the bin boundaries are %r' % edges.tolist(), {'bins': b})
    for q in (2, 3, 9):
        x = G.trap_absc(q, b)
        if not all(abs(v - TWOPI*i/b/(q - 1)) <= 1e-12 for i, v in enumerate(x)):
            ctx.fail('the abscissas are %r' % x.tolist(), {'bins': b, 'points': q})
    for n in range(1, 5):
        for f in itertools.combinations_with_replacement([0., .12, .34, .77, .91, 1.6, 5.03, -.21, -3.4], n):
            ref = Ref([], b, (0., 0., 0.))
            ref.f, ref.n = list(f), n
            for phi in PHI:
                c = ref.counts(phi/TWOPI)
                if c is None:
                    continue
                case = {'phases': f, 'phi': phi, 'bins': b}
                ctx.at(case)
                bins = np.zeros(b, np.int32)
                d = G.fbindata(np.array(f), phi, edges, bins)
                ctx.step()
                ctx.state((f, phi, b))
                if bins.tolist() != c:
                    ctx.fail('the counts are %r, they should be %r' % (bins.tolist(), c), case)
                gap = []
                for v in f:
                    y = (v + phi/TWOPI)*b
                    gap.append((1. - (y - floor(y)))/b)
                if not abs(d - TWOPI*min(gap)) <= 1e-7:
                    ctx.fail('the next change of bins is said to be %r away, it is %r' % (d, TWOPI*min(gap)), case)
                for name, e in (('limult', ref.limult(c)), ('lql_wp', ref.limult(c)), ('plimult', ref.limult(c) + lgamma(n + 1)), ('ll_wpb', ref.limult(c) + ref.bfac()), ('chisqr', ref.chi(c))):
                    g = getattr(G, name)(n, bins)
                    if not near(g, e):
                        ctx.fail('%s is %r, it should be %r' % (name, float(g), e), case)
                ctx.outcome((tuple(c), round(min(gap), 9)))
            ctx.trace()
    # odds, in every order of sizes (the native part remembers the last one)
    sizes = [(b, 3), (b, 4), (b + 1, 3), (b + 1, 120)]
    for seq in itertools.product(sizes, repeat=3):
        for mb, n in seq:
            ref = Ref([0.]*n, mb, (0., 0., 0.))
            for val, lf in ((1., 0.), (.02, 5.), (300., -2.)):
                g = G.lodds(mb, n, val, lf)
                e = ref.bfac() + log(val/TWOPI) - lf
                ctx.step()
                if not near(g, e):
                    ctx.fail('lodds is %r, it should be %r' % (float(g), e), {'sequence': seq, 'at': (mb, n, val, lf)})
        ctx.trace()
    ctx.sample({'bins': b})


def forms(unit, ctx, np):
    """Ways to make a model, and calls that must be refused."""
    ts, w = (.3, 1.1, 2.7, -.8), WS[4]
    for b in (2, 5):
        ref = Ref(ts, b, w)
        for name, make in (('at once', lambda: P.PCModel(np.array(ts), b, 0)), ('trapezoid', lambda: P.PCModel(np.array(ts), b, 7)), ('bins later', lambda: late(P.PCModel(np.array(ts), None, 0), bins=b)), ('bins later, trapezoid', lambda: late(P.PCModel(np.array(ts), qpts=7), bins=b)),
                           ('quadrature later', lambda: late(P.PCModel(np.array(ts), b), qpts=0)), ('both later', lambda: late(P.PCModel(np.array(ts)), qpts=7, bins=b)), ('both later, bins first', lambda: late(P.PCModel(np.array(ts)), bins=b, qpts=7, rev=True))):
            case = {'made': name, 'bins': b}
            ctx.at(case)
            m = make()
            ctx.step()
            ctx.state((name, b))
            q = m.qpts
            want = ref.integral() if q == 0 else ref.trap(q)
            s, a = m.sml_w(*w), m.avgchi_w(*w)
            if not near(log(s) - m.offset, want[0], 1e-6) or not near(a, want[1], 1e-6):
                ctx.fail('log marginal likelihood and averaged chi-square are %r, they should be %r' % ((log(s) - m.offset, float(a)), want), case)
            ask(ctx, np, case, m, ref, w, (0, 7))
            ctx.trace()
            ctx.outcome((name, b, round(want[0], 9)))
    for name, call in (('2-d data', lambda: P.PCModel(np.zeros((2, 2)), 3, 0)), ('negative points', lambda: P.PCModel(np.array(ts), 3, -1)), ('negative points later', lambda: P.PCModel(np.array(ts), 3, 0).set_qpts(-2)),
                       ('no bins', lambda: P.PCModel(np.array(ts)).lml_pw(0., 1.)), ('no frequency', lambda: P.PCModel(np.array(ts), 3, 0).lml_pw(0.)), ('no frequency but a derivative', lambda: P.PCModel(np.array(ts), 3, 0).sml_w(wdot=.1))):
        ctx.at({'call': name})
        ctx.step()
        try:
            call()
        except ValueError:
            continue
        ctx.fail('accepted: %s' % name, {'call': name})
    ctx.sample({'forms': 7})


def late(m, bins=None, qpts=None, rev=False):
    if qpts is not None and not rev:
        m.set_qpts(qpts)
    if bins is not None:
        m.set_nbins(bins)
    if qpts is not None and rev:
        m.set_qpts(qpts)
    return m


# ---------------------------------------------------------------------- histories
HT = (.3, 1.1, 2.7, -.8, 2.71)
OPS = [('bins', 2), ('bins', 5), ('q', 0), ('q', 3), ('q', 6), ('lml', (2.2, None, None)), ('lml', (1., .3, None)), ('lml', (None, None, None)), ('chi', (None, -.2, None)), ('sml', (2.2, None, .07)), ('sml', (None, None, None)),
       ('avg', (None, 0., 0.)), ('avg', (None, None, .4)), ('rate', (None, None, None)), ('rate', (1., None, None)), ('other', 0)]


def hist(unit, ctx, np):
    def run(seq):
        ms = [P.PCModel(np.array(HT), 3, 0), P.PCModel(np.array(HT), 4, 5)]
        st = [{'b': 3, 'q': 0, 'w': [None, 0., 0.]}, {'b': 4, 'q': 5, 'w': [None, 0., 0.]}]
        cur = 0
        scaled = [{}, {}]
        for k, (op, arg) in enumerate(seq):
            case = {'history': [list(x) for x in seq[:k+1]]}
            ctx.at(case)
            m, s = ms[cur], st[cur]
            if op == 'other':
                cur = 1 - cur
            elif op == 'bins':
                m.set_nbins(arg)
                s['b'] = arg
                scaled[cur].clear()
            elif op == 'q':
                m.set_qpts(arg)
                s['q'] = arg
            else:
                if arg[0] is None and s['w'][0] is None:
                    return
                s['w'] = [a if a is not None else o for a, o in zip(arg, s['w'])]
                ref = Ref(HT, s['b'], s['w'])
                kw = dict((n, a) for n, a in zip(('w', 'wdot', 'wddot'), arg) if a is not None)
                if op in ('lml', 'chi'):
                    c = ref.counts(.4/TWOPI)
                    if c is None:
                        m.lml_pw(.4, **kw)
                    else:
                        g = m.lml_pw(.4, **kw) if op == 'lml' else m.chi_pw(.4, **kw)
                        e = ref.limult(c) if op == 'lml' else ref.chi(c)
                        if not near(g, e):
                            ctx.fail('%s gives %r, it should be %r' % (op, float(g), e), case)
                elif op in ('sml', 'avg'):
                    want = ref.integral() if s['q'] == 0 else ref.trap(s['q'])
                    g = m.sml_w(**kw) if op == 'sml' else m.avgchi_w(**kw)
                    if op == 'sml':
                        # sums over frequencies: the scale is that of the bins, not of the last call
                        off = scaled[cur].setdefault('off', m.offset)
                        if not near(off, m.offset, 1e-9):
                            ctx.fail('the scale of the marginal likelihood went from %r to %r with the same bins' % (off, m.offset), case)
                    if want is not None:
                        g = (log(g) - m.offset) if op == 'sml' else float(g)
                        e = want[0] if op == 'sml' else want[1]
                        if not near(g, e, 1e-6):
                            ctx.fail('%s gives %r, it should be %r' % (op, g, e), case)
                else:
                    r, u = m.rate_est([.2, 4.], **kw)
                    for i, t in enumerate((.2, 4.)):
                        e = ref.rate(t)
                        if not near(r[i], e[0], 1e-6) or not near(u[i]**2, e[1]**2, 1e-6):
                            ctx.fail('the rate at %r is %r +- %r, it should be %r +- %r' % (t, float(r[i]), float(u[i]), e[0], e[1]), case)
            ctx.step()
            ctx.state((cur, tuple((s['b'], s['q'], tuple(s['w'])) for s in st), op))
        ctx.trace()
        ctx.outcome((cur, tuple((s['b'], s['q'], tuple(s['w'])) for s in st)))

    def walk(seq):
        if len(seq) == unit['depth']:
            run(seq)
            return
        for op in OPS:
            walk(seq + [op])
    walk([OPS[unit['first']]])
    ctx.sample({'first': OPS[unit['first']], 'depth': unit['depth']})
