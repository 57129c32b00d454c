"""C29: on/off counting inferences against their definitions."""
import itertools
from math import exp, isfinite, log
from vmc import onoffref as R

PROP = 'C29'
LEVEL = 'exploration'
RULE = ('every pair of on and off counts of 0..12, values around 32 and large values, every pair of exposures of a lattice, every rate of a lattice that includes zero, tiny and huge ones and the rates around the peak, '
        'several cutoffs, scalars, lists, real and integer arrays, the object and the function interfaces; compared with sums in log space, themselves compared with exact rational arithmetic for the small counts')
ASSUMPTIONS = ['log likelihoods are compared to 1e-7 (the log gamma function used is good to about 1e-10)']

ON = list(range(13)) + [20, 31, 32, 33, 34, 50, 120, 700]
OFF = list(range(9)) + [12, 32, 33, 40, 150, 2000]
EXPO = [.1, 1., 3, 40.]


def units(tier):
    on = ON + ([15, 25, 64, 300, 2000, 5000] if tier == 'thorough' else [])
    return [{'on': n} for n in on]


def run_unit(unit, ctx):
    import numpy as np
    from inference.count import onoff as M
    n1 = unit['on']
    big = n1 > 100
    off = OFF + ([16, 31, 64, 500, 20000] if ctx.tier == 'thorough' else [])
    expo = EXPO + ([.01, 7.3, 1000.] if ctx.tier == 'thorough' else [])
    for n0 in off:
        co = R.lcoef(n1, n0)
        for t1 in expo:
            for t0 in expo:
                case = dict(on=n1, on_intvl=t1, off=n0, off_intvl=t0)
                ctx.at(case)
                obj = M.OnOff(n1, t1, n0, t0)
                ex = M.OnOff(n1, t1, n0, t0, cutoff=0.)
                co3 = M.OnOff(n1, t1, n0, t0, 1e-2)
                if (obj.on_cts, obj.on_intvl, obj.off_cts, obj.off_intvl, ex.cutoff, co3.cutoff) != (n1, t1, n0, t0, 0., 1e-2):
                    ctx.fail('the data are not those given', case)
                if not isfinite(obj.offset) or not abs(obj.offset - M.slml_offset(n1, t1, n0, t0)) <= 1e-9*(1 + abs(obj.offset)):
                    ctx.fail('offset %r' % obj.offset, case)
                # a vector of rates is refused exactly if one of them is, wherever it stands
                if t1 == t0 == 1. and n1 < 40:
                    lat = {}
                    for r in (.5, 2., 1e3, 1e5):
                        try:
                            lat[r] = float(obj.siglml(r))
                        except ValueError:
                            lat[r] = None
                    for vec in list(itertools.product(lat, repeat=2)) + list(itertools.product(lat, repeat=3)):
                        try:
                            got = obj.siglml(np.array(vec))
                        except ValueError:
                            got = None
                        want = [lat[r] for r in vec]
                        ctx.step()
                        if (got is None) != (None in want) or got is not None and not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                            ctx.fail('log likelihoods of the rates %r are %r together and %r one by one' % (vec, got, want), case)
                # probabilities of the signal counts
                p = np.asarray(obj.pnsig())
                ref = R.probs(n1, t1, n0, t0)
                if p.shape != (n1 + 1,) or not np.all(p >= 0) or not abs(p.sum() - 1) <= 1e-10 or not np.allclose(p, ref, rtol=1e-8, atol=1e-13):
                    ctx.fail('signal count probabilities %s, exactly %s' % (p[:6], ref[:6]), case)
                q = np.asarray(M.sigctp(n1, t1, n0, t0))
                if q.shape != p.shape or not np.allclose(p, q, rtol=1e-12, atol=1e-300):
                    ctx.fail('sigctp() %s, pnsig() %s' % (q[:6], p[:6]), case)
                if n1 + n0 <= 20:
                    e = R.exact_probs(n1, t1, n0, t0)
                    if not np.allclose([float(x) for x in e], ref, rtol=1e-11, atol=0):
                        raise AssertionError('the reference is wrong')
                    ctx.trace()
                for n in sorted(set((0, 1, n1//2, n1 - 1, n1))):
                    if 0 <= n <= n1 and not (np.ndim(obj.pnsig(n)) == 0 and abs(obj.pnsig(n) - ref[n]) <= 1e-8*ref[n] + 1e-13):
                        ctx.fail('pnsig(%d) is %r, exactly %r' % (n, obj.pnsig(n), ref[n]), case)
                for n in (-1, n1 + 1, -n1 - 1):
                    try:
                        r = obj.pnsig(n)
                    except ValueError:
                        pass
                    else:
                        ctx.fail('the probability of %d signal counts is %r' % (n, r), case)
                # likelihood, derivative and posterior
                lz = R.lnorm(n1, t1, n0, t0, co)
                mean, sd = max(n1/t1 - n0/t0, 0.), (n1/t1**2 + n0/t0**2)**.5
                rates = [0., 1e-9, .001, .2, 1., 4, mean, mean + .5*sd + .1, mean + 3*sd, max(mean - 2*sd, 0.), 20./t1 + mean]
                if not big or ctx.tier == 'thorough':
                    rates += [1e-4/t1, 30., mean + 10*sd + 5/t1, 1e5, 1e11]
                good, want = [], []
                for s in rates:
                    ctx.case()
                    lt = R.lterms(s, n1, t1, n0, t0, co)
                    l = R.lse(lt)
                    lead = max(lt) - obj.offset
                    mp = obj.sigmp(s)
                    pref = exp(l - lz) if l - lz > -700 else 0.
                    if not abs(mp - pref) <= 2e-6*pref + 1e-100*t1:
                        ctx.fail('the posterior density at %r is %r, exactly %r' % (s, mp, pref), case)
                    for o, c in ((obj, 1e-5), (ex, 0.), (co3, 1e-2)):
                        try:
                            v = o.siglml(s)
                        except ValueError:
                            if abs(lead) < 690:
                                ctx.fail('the log likelihood %r at %r was refused' % (l - o.offset, s), case)
                            continue
                        d = (l - o.offset) - v
                        tol = 1e-7 + 1e-10*(abs(l) + abs(o.offset))
                        if not -tol <= d <= tol + c*(n1 + 1):
                            ctx.fail('the log likelihood at %r is %r, exactly %r (cutoff %g)' % (s, v, l - o.offset, c), case)
                        w, nt, err = M.slmlike(s, n1, t1, n0, t0, o.offset, c)
                        if err or not abs(w - v) < tol or not 1 <= nt <= n1 + 1:
                            ctx.fail('slmlike() gave %r, siglml() %r' % ((w, nt, err), v), case)
                        w, dw, nt, err = M.slmliked(s, n1, t1, n0, t0, o.offset, c)
                        if s == 0:
                            dref = (exp(co[1] - co[0])*(t1 + t0) if n1 else 0.) - t1
                        else:
                            dref = sum(exp(x - l)*k for k, x in enumerate(lt))/s - t1
                        scale = max(t1, abs(dref), (n1/s if s else 0.))
                        if err or not abs(w - v) < tol or not abs(dw - dref) <= (1e-6 + c*(n1 + 1)**2)*scale:
                            ctx.fail('slmliked() at %r gave %r, exactly %r %r' % (s, (w, dw, nt, err), l - o.offset, dref), case)
                        if o is ex:
                            good.append(s)
                            want.append(v)
                    ctx.outcome((n1, n0, t1, t0, s, '%.9g' % mp))
                # arrays
                if not good:
                    ctx.fail('every log likelihood was refused', case)
                for mk in (list, np.array, lambda x: np.array(x)[::-1][::-1]):
                    v = ex.siglml(mk(good)) if len(good) > 1 else want
                    if np.shape(v) != (len(good),) or not np.allclose(v, want, rtol=1e-9, atol=1e-9):
                        ctx.fail('log likelihoods for several rates %r, singly %r' % (v, want), case)
                    v = ex.sigmp(mk(good)) if len(good) > 1 else [ex.sigmp(good[0])]
                    if np.shape(v) != (len(good),) or not np.allclose(v, [ex.sigmp(x) for x in good], rtol=1e-9, atol=0):
                        ctx.fail('posterior densities for several rates %r' % (v,), case)
                k = sum(1 for s in good if s == int(s))
                ints = [int(s) for s in good if s == int(s)]
                if k > 1:
                    arr = np.array(ints)
                    v = ex.siglml(arr)
                    if not np.allclose(v, [ex.siglml(float(x)) for x in ints], rtol=1e-9, atol=1e-9):
                        ctx.fail('log likelihoods for integer rates %r are %r' % (ints, v), case)
                    v = ex.sigmp(arr)
                    if not np.allclose(v, [ex.sigmp(float(x)) for x in ints], rtol=1e-9, atol=0):
                        ctx.fail('posterior densities for integer rates %r are %r' % (ints, v), case)
                one = ex.sigmp(np.array([good[-1]]))
                if not abs(float(np.ravel(one)[0]) - ex.sigmp(good[-1])) <= 1e-12*abs(ex.sigmp(good[-1])):
                    ctx.fail('the posterior density for an array of one rate is %r' % one, case)
                for f in (ex.siglml, ex.sigmp):
                    try:
                        r = f(np.ones((2, 2)))
                    except ValueError:
                        pass
                    else:
                        ctx.fail('a two-dimensional array of rates gave %r' % (r,), case)
                # several channels at once
                ons, offs = [n1, n1 + 1, n1//2, n1], [n0, n0, n0 + 2, n0]
                offset = M.vslml_offset(ons, t1, offs, t0)
                single = [M.slml_offset(a, t1, b, t0) for a, b in zip(ons, offs)]
                if not np.allclose(offset, single, rtol=1e-10, atol=1e-10):
                    ctx.fail('offsets of several channels %r, singly %r' % (offset, single), case)
                s4 = [good[0], good[1 % len(good)], mean + .1, 1e5]
                v = M.vslmlike(s4, ons, t1, offs, t0, offset, 1e-5)
                for a, b, s, o, w in zip(ons, offs, s4, offset, v):
                    lt = R.lterms(s, a, t1, b, t0)
                    l = R.lse(lt) - o
                    tol = 1e-7 + 1e-10*(abs(l) + abs(o)) + 1e-5*(a + 1)
                    if not (abs(w - l) <= tol or (l < -690 and w < -690) or max(lt) - o > 690):
                        ctx.fail('the log likelihood of a channel %r is %r, exactly %r' % ((a, b, s), w, l), case)
    # the reference in exact arithmetic
    if n1 <= 12:
        for n0 in OFF[:10]:
            for s in (0, .25, 1, 5, 20):
                for t1, t0 in ((1, 3), (.5, 40), (3, .25)):
                    v, d = R.exact_like(s, n1, t1, n0, t0)
                    l = R.lse(R.lterms(s, n1, t1, n0, t0)) + s*t1
                    if not abs(log(v) - l) <= 1e-10*(1 + abs(l)):
                        raise AssertionError('the reference is wrong')
                    w, dw, nt, err = M.slmliked(s, n1, t1, n0, t0, M.slml_offset(n1, t1, n0, t0), 0.)
                    if err == 0 and not abs(dw - float(d/v)) <= 1e-7*max(t1, abs(float(d/v)), n1/s if s else 0.):
                        ctx.fail('the derivative at %r is %r, exactly %r' % (s, dw, float(d/v)), [n1, t1, n0, t0])
                    ctx.trace()
    ctx.sample({'on': n1, 'exposures': expo})
