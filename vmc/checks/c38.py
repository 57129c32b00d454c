"""C38: Keplerian orbits: anomalies and radial velocities against an independent solution of Kepler's equation; all call histories over several orbits."""
import importlib.util
import os
import sys
from math import atan2, cos, pi, sin, sqrt

PROP = 'C38'
LEVEL = 'model_checking'
RULE = ('every eccentricity, period, periastron and phase of lattices that reach the bounds of the domain (circular, almost parabolic, both sides of periastron and apastron, many revolutions either way), every tolerance, '
        'and every way to ask (single times, arrays, stored arrays, both anomalies at once, the three ways to set the phase origin), against a bisected solution of Kepler\'s equation; and every sequence of calls up to the '
        'depth bound over three orbit objects, the plain function and the shared native state, against what each orbit has by itself')
ASSUMPTIONS = ['elliptic orbits with eccentricities up to 0.999999, positive periods', 'the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so',
               'arrays to store into are contiguous arrays of floats']

ECC = [0., 1e-3, .1, .3, .5, .6, .8, .9, .95, .99, .999, .9999, .999999]
PHASE = [0., 1e-12, 1e-6, 1e-3, .01, .02, .05, .1, .2, .25, .3, .4, .45, .49, .499, .499999, .5, .500001, .501, .51, .6, .75, .9, .97, .99, .999, 1. - 1e-6, 1., 1.3, 1.5, 1.9, 7.25, 1000.4]
ORB = [(1., 0.), (17.1, 37.5), (.25, -3.), (1e4, 123.)]
TOL = [1e-5, 1e-8, 1e-12]
F = None
WHY = None


def setup():
    global F, WHY
    from .. import cext
    try:
        F = cext.build('fkepler', 'initfkepler', os.path.join(cext.REPO, 'sandbox', 'signals', 'fkeplermodule.c'))
    except cext.CannotBuild as x:
        WHY = str(x)


def load():
    """The signals package's kepler module with the native part built here."""
    import types
    from .. import cext
    d = os.path.join(cext.REPO, 'sandbox', 'signals')
    pkg = types.ModuleType('sandbox_signals')
    pkg.__path__ = [d]
    sys.modules['sandbox_signals'] = pkg
    sys.modules['sandbox_signals.fkepler'] = sys.modules['fkepler'] = F
    pkg.fkepler = F
    spec = importlib.util.spec_from_file_location('sandbox_signals.kepler', os.path.join(d, 'kepler.py'))
    m = importlib.util.module_from_spec(spec)
    sys.modules['sandbox_signals.kepler'] = m
    spec.loader.exec_module(m)
    return m


def units(tier):
    ecc = ECC if tier == 'quick' else sorted(ECC + [i/40. for i in range(1, 40)] + [.992, .995, .998])
    u = [{'t': 'anom', 'e': e, 'fine': tier == 'thorough'} for e in ecc]
    u += [{'t': 'vrad', 'e': e} for e in ecc]
    u += [{'t': 'setups', 'first': k, 'depth': 4 if tier == 'thorough' else 3} for k in range(len(SET))]
    n = 4 if tier == 'thorough' else 3
    u += [{'t': 'hist', 'first': k, 'depth': n} for k in range(len(OPS))]
    return u


# ---------------------------------------------------------------------- reference
def solve(e, M):
    """The eccentric anomaly in [-pi, pi] for a mean anomaly there."""
    lo, hi = -pi, pi
    for _ in range(200):
        m = .5*(lo + hi)
        if m - e*sin(m) < M:
            lo = m
        else:
            hi = m
        if hi - lo < 1e-16*max(1e-300, abs(hi)):
            break
    return .5*(lo + hi)


class Ref:
    def __init__(self, tau, e, Tp, t):
        p = (t - Tp)/tau
        f = p - round(p)
        self.E = solve(e, 2*pi*f)
        self.slope = 1./(1. - e*cos(self.E))
        # roundoff of the phase, magnified by the slope of the solution
        self.slack = 1e-12 + 1e-15*(abs(p) + (abs(t) + abs(Tp))/tau + 1.)*2*pi*self.slope*4
        c, s = cos(self.E), sin(self.E)
        self.ea = (c, s)
        self.ta = ((c - e)/(1. - e*c), sqrt(1. - e*e)*s/(1. - e*c))
        # change of the true anomaly with the eccentric one
        self.tslope = sqrt(1. - e*e)/(1. - e*c)

    def within(self, tol, kind):
        return (1.01*tol + self.slack)*(1. if kind == 'ea' else max(1., 2*self.tslope)) + (0. if kind == 'ea' else 4e-8)  # the sine is a quotient of small differences near periastron


def angle(a, b):
    """Angle between two directions given by their cosine and sine."""
    return abs(atan2(a[1]*b[0] - a[0]*b[1], a[0]*b[0] + a[1]*b[1]))


def unitlen(a):
    return abs(a[0]*a[0] + a[1]*a[1] - 1.) <= 1e-9


def run_unit(unit, ctx):
    import numpy as np
    if F is None:
        ctx.note('the C part cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def judge(ctx, case, name, got, ref, want, tol, kind):
    got = (float(got[0]), float(got[1]))
    if not unitlen(got):
        ctx.fail('%s gives cosine and sine %r, which are of no angle' % (name, got), case)
    d = angle(got, want)
    if not d <= ref.within(tol, kind):
        ctx.fail('%s gives cosine and sine %r, they should be %r (off by %.3g rad)' % (name, got, want, d), case)


def anom(unit, ctx, np):
    e = unit['e']
    phases = list(PHASE) + [-p for p in PHASE if p]
    if unit['fine']:
        phases += [i/200. for i in range(-300, 301)]
    for tau, Tp in ORB:
        ts = np.array([Tp + tau*p for p in phases])
        for tol in TOL:
            F.settol(tol)
            for k, how in enumerate(('Tp', 'M0', 'Mp')):
                case = {'e': e, 'tau': tau, 'Tp': Tp, 'tolerance': tol, 'origin': how}
                ctx.at(case)
                if how == 'Tp':
                    F.setup_Tp(tau, e, Tp)
                elif how == 'M0':
                    F.setup_M0(tau, e, -2*pi*Tp/tau)
                else:
                    F.setup_Mp(tau, e, 2*pi*Tp/tau)
                ctx.step()
                keep = ts.copy()
                vE, vT = F.vt2EA(ts), F.vt2TA(ts)
                sE, sT, aE, aT = (np.full((len(ts), 2), 7.) for _ in range(4))
                F.t2EA_store(ts, sE)
                F.t2TA_store(ts, sT)
                F.t2anoms(ts, aE, aT)
                if not (ts == keep).all():
                    ctx.fail('the times given were changed', case)
                for i, t in enumerate(ts):
                    t = float(t)
                    r = Ref(tau, e, Tp, t)
                    c = dict(case, t=t, phase=phases[i])
                    ctx.state((e, tau, Tp, tol, how, i))
                    x = F.t2EA(t)
                    d = x - r.E
                    if not abs(d - 2*pi*round(d/(2*pi))) <= r.within(tol, 'ea'):
                        ctx.fail('t2EA gives %r, Kepler\'s equation has the solution %r' % (x, r.E), c)
                    judge(ctx, c, 't2TA', F.t2TA(t), r, r.ta, tol, 'ta')
                    for n, v, w, kind in (('vt2EA', vE, r.ea, 'ea'), ('vt2TA', vT, r.ta, 'ta'), ('t2EA_store', sE, r.ea, 'ea'), ('t2TA_store', sT, r.ta, 'ta'), ('t2anoms (eccentric)', aE, r.ea, 'ea'), ('t2anoms (true)', aT, r.ta, 'ta')):
                        judge(ctx, c, n, v[i], r, w, tol, kind)
                    ctx.outcome((e, tol, phases[i]))
                ctx.trace()
    # strided and integer times, and lists
    F.settol(1e-8)
    F.setup_Tp(3., e, .7)
    base = np.arange(-6., 12.)
    for name, arg, ref in (('every other', base[::2], base[::2]), ('backwards', base[::-1], base[::-1]), ('integers', np.arange(-3, 5), np.arange(-3., 5.)), ('a list', [0., 1.5, -2.], [0., 1.5, -2.]), ('none', np.zeros(0), [])):
        ctx.at({'e': e, 'times': name})
        ctx.step()
        for fn, kind in (('vt2EA', 'ea'), ('vt2TA', 'ta')):
            got = getattr(F, fn)(arg)
            if np.shape(got) != (len(ref), 2):
                ctx.fail('%s gives shape %r for %d times' % (fn, np.shape(got), len(ref)), {'e': e, 'times': name})
            for g, t in zip(got, ref):
                r = Ref(3., e, .7, float(t))
                judge(ctx, {'e': e, 'times': name, 't': float(t)}, fn, g, r, getattr(r, kind), 1e-8, kind)
    ctx.sample({'e': e, 'orbits': len(ORB), 'phases': len(phases)})


# ---------------------------------------------------------------------- histories of the native state
SET = [(how, o) for how in ('Tp', 'M0', 'Mp') for o in ((4., .2, 1.), (7., .3, -2.), (7., .85, 1.))] + [('tol', 1e-5), ('tol', 1e-11), ('refused', None)]


def setups(unit, ctx, np):
    """All sequences of set-ups (by each phase origin), tolerances and refused set-ups: every function answers for the last orbit that was accepted."""
    ts = np.array([0., 2., -5., 9.5])

    def walk(seq):
        if len(seq) < unit['depth']:
            for x in SET:
                walk(seq + [x])
            return
        F.settol(1e-8)
        F.setup_Tp(1., 0., 0.)
        cur, tol = (1., 0., 0.), 1e-8
        for how, o in seq:
            if how == 'tol':
                F.settol(o)
                tol = o
            elif how == 'refused':
                for bad in (('x', .1, 0.), (1.,), ()):
                    try:
                        F.setup_Tp(*bad)
                    except TypeError:
                        continue
                    ctx.fail('setup_Tp accepted %r' % (bad,), {'history': seq})
            else:
                tau, e, Tp = o
                if how == 'Tp':
                    F.setup_Tp(tau, e, Tp)
                elif how == 'M0':
                    F.setup_M0(tau, e, -2*pi*Tp/tau)
                else:
                    F.setup_Mp(tau, e, 2*pi*Tp/tau)
                cur = o
            ctx.step()
        case = {'history': [list(x) for x in seq]}
        ctx.at(case)
        aE, aT = np.zeros((4, 2)), np.zeros((4, 2))
        F.t2anoms(ts, aE, aT)
        vE, vT = F.vt2EA(ts), F.vt2TA(ts)
        for i, t in enumerate(ts):
            r = Ref(*cur, float(t))
            for n, v, w, kind in (('vt2EA', vE[i], r.ea, 'ea'), ('vt2TA', vT[i], r.ta, 'ta'), ('t2anoms (eccentric)', aE[i], r.ea, 'ea'), ('t2anoms (true)', aT[i], r.ta, 'ta'), ('t2TA', F.t2TA(float(t)), r.ta, 'ta')):
                judge(ctx, dict(case, t=float(t)), n, v, r, w, tol, kind)
            ctx.state((cur, tol, i))
        ctx.trace()
        ctx.outcome((cur, tol))
    walk([SET[unit['first']]])
    ctx.sample({'first': SET[unit['first']], 'depth': unit['depth']})


# ---------------------------------------------------------------------- velocities
def vel(K, tau, e, lon, T0, v0, t):
    r = Ref(tau, e, T0, t)
    return v0 + K*(cos(lon)*(e + r.ta[0]) - sin(lon)*r.ta[1]), abs(K)*2*r.within(1e-5, 'ta') + 1e-12*abs(v0)


def vrad(unit, ctx, np):
    kepler = load()
    e = unit['e']
    times = [0., .3, -4.2, 17., 37.5, 100.25, 8.55]
    for K in (10., .5, -2.):
        for lon in (0., .4*pi, -1., 2.5, 4., pi):
            for T0 in (0., 37.5, -2.2):
                for v0 in (0., 15., -300.):
                    case = {'K': K, 'e': e, 'long': lon, 'T0': T0, 'v0': v0, 'tau': 17.1}
                    ctx.at(case)
                    ctx.state((K, e, lon, T0, v0))
                    o = kepler.Orbit(K, 17.1, e, lon, T0, v0)
                    arr = np.array(times)
                    a = kepler.v_rad(K, 17.1, e, lon, T0, v0, arr)
                    b = o.v_rad(arr)
                    k1, k2 = o.K1(), o.K2()
                    ctx.step()
                    if np.shape(a) != (len(times),) or np.shape(b) != (len(times),) or np.shape(k1) != (len(times),):
                        ctx.fail('shapes %r, %r, %r for %d times' % (np.shape(a), np.shape(b), np.shape(k1), len(times)), case)
                    for i, t in enumerate(times):
                        w, tol = vel(K, 17.1, e, lon, T0, v0, t)
                        one = kepler.v_rad(K, 17.1, e, lon, T0, v0, t)
                        r = Ref(17.1, e, T0, t)
                        for n, g in (('v_rad of a single time', one), ('v_rad of an array', a[i]), ('Orbit.v_rad', b[i])):
                            if not abs(float(g) - w) <= tol:
                                ctx.fail('%s gives %r, the velocity is %r' % (n, float(g), w), dict(case, t=t))
                        if not abs(float(k1[i]) - e - r.ta[0]) <= tol/abs(K) + 1e-9 or not abs(float(k2[i]) - r.ta[1]) <= tol/abs(K) + 1e-9:
                            ctx.fail('K1, K2 are %r, they should be %r' % ((float(k1[i]), float(k2[i])), (e + r.ta[0], r.ta[1])), dict(case, t=t))
                    if not (arr == times).all():
                        ctx.fail('the times given were changed', case)
                    for n in (2, 5, 9):
                        ph, v = o.phase_vel(n)
                        text = o.writeVelCurve(n)
                        rows = [[float(q) for q in l.split()] for l in text.splitlines() if l.split()]
                        if len(ph) != n or len(v) != n or len(rows) != n:
                            ctx.fail('a velocity curve of %d phases has %d, %d and %d' % (n, len(ph), len(v), len(rows)), case)
                        for i in range(n):
                            p = -.5 + 2.*i/(n - 1)
                            w, tol = vel(K, 17.1, e, lon, T0, v0, 17.1*p)
                            if not abs(ph[i] - p) <= 1e-12 or not abs(v[i] - w) <= tol:
                                ctx.fail('the curve has (%r, %r) as its point %d of %d, it should be (%r, %r)' % (float(ph[i]), float(v[i]), i, n, p, w), case)
                            if not abs(rows[i][0] - p) <= 5.1e-5 or not abs(rows[i][1] - w) <= tol + 5.1e-5:
                                ctx.fail('the written curve has %r, it should be %r' % (rows[i], (p, w)), case)
                    ctx.trace()
                    ctx.outcome((e, K, lon, T0, v0))
    ctx.sample({'e': e, 'times': times})


# ---------------------------------------------------------------------- histories
SPEC = [(10., 17.1, .6, 1.2, 37.5, 15.), (3., 17.1, .1, -.5, 37.5, 0.), (1., 2.5, .9, 3., -1., -4.)]
TIMES = [[0., 5., 40.], [1., 2., 3., 11.], [3., 8., 43.], [-1., 0., 2.]]
OPS = ([('true', o, k) for o in range(3) for k in range(2)] + [('ecc', o, 0) for o in range(3)] + [(q, o, k) for q in ('v', 'K1', 'K2') for o in range(2) for k in (None, 1)]
       + [('fun', 2, 0), ('fun1', 1, 0), ('native', 0, 0), ('new', 2, 0)]
       + [('same', o, k) for o in (0, 1) for k in (2, 3)])


def hist(unit, ctx, np):
    kepler = load()

    def run(seq):
        obj = [kepler.Orbit(*s) for s in SPEC]
        last = [None]*3
        shared = np.zeros(3)
        kept = []
        for n, (op, o, k) in enumerate(seq):
            case = {'history': [list(x) for x in seq[:n+1]]}
            ctx.at(case)
            K, tau, e, lon, T0, v0 = SPEC[o]
            if op in ('v', 'K1', 'K2') and k is None and last[o] is None:
                return
            ts = TIMES[k] if k is not None else last[o]
            ref = [Ref(tau, e, T0, t) for t in ts]
            got = want = None
            tol = [2*r.within(1e-5, 'ta') for r in ref]
            if op == 'true':
                got, want, last[o] = obj[o].true_anom(np.array(ts)), [r.ta for r in ref], ts
            elif op == 'same':
                # the same array object each time, with other contents
                shared[:] = ts
                got, want, last[o] = obj[o].true_anom(shared), [r.ta for r in ref], ts
                if not (shared == ts).all():
                    ctx.fail('the times given were changed', case)
            elif op == 'ecc':
                got, want, tol = obj[o].ecc_anom(np.array(ts)), [r.ea for r in ref], [2*r.within(1e-5, 'ea') for r in ref]
            elif op in ('v', 'K1', 'K2'):
                m = getattr(obj[o], 'v_rad' if op == 'v' else op)
                got = m() if k is None else m(np.array(ts))
                if k is not None:
                    last[o] = ts
                if op == 'v':
                    want, tol = [vel(*SPEC[o], t)[0] for t in ts], [vel(*SPEC[o], t)[1] for t in ts]
                else:
                    want = [e + r.ta[0] if op == 'K1' else r.ta[1] for r in ref]
            elif op == 'fun':
                got = kepler.v_rad(*SPEC[o], np.array(ts))
                want, tol = [vel(*SPEC[o], t)[0] for t in ts], [vel(*SPEC[o], t)[1] for t in ts]
            elif op == 'fun1':
                got = [kepler.v_rad(*SPEC[o], ts[1])]
                want, tol = [vel(*SPEC[o], ts[1])[0]], [vel(*SPEC[o], ts[1])[1]]
            elif op == 'native':
                F.setup_M0(5., .3, 1.)
                F.vt2TA(np.array([1., 2.]))
            else:
                obj[o], last[o] = kepler.Orbit(*SPEC[o]), None
            ctx.step()
            if got is not None:
                g = np.array(got, float)
                w = np.array(want, float)
                t = np.array(tol).reshape((-1,) + (1,)*(w.ndim - 1))
                if g.shape != w.shape or not (abs(g - w) <= t).all():
                    ctx.fail('%s of orbit %d gives %r, it should be %r' % (op, o, g.tolist(), w.tolist()), case)
                kept.append((got, g))
            for a, b in kept:
                if not (np.array(a, float) == b).all():
                    ctx.fail('an earlier result was changed by %s of orbit %d' % (op, o), case)
            ctx.state((n, tuple(tuple(x) if x else None for x in last), op, o, k))
        ctx.trace()
        ctx.outcome(tuple(tuple(x) if x else None for x in last))

    def walk(seq):
        if len(seq) == unit['depth']:
            run(seq)
            return
        for op in OPS:
            walk(seq + [op])
    walk([OPS[unit['first']]])
    ctx.sample({'first': OPS[unit['first']], 'depth': unit['depth']})
