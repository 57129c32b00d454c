"""C12: simulated data are local, well shaped, and drawn from the current model."""
from vmc.explore import bfs

PROP = 'C12'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories of simulations (whole set, with new locations and/or sigmas, one datum, additional data; '
        'valid and invalid arguments; arrays and lists) and parameter changes; the random stream is owned by the harness, so every '
        'simulated value has an exact expected value; data of both predictors, counts, scores and the arrays passed in are compared after every operation')
ASSUMPTIONS = ['the model can be evaluated at the locations given (its callbacks do not raise)', 'deviates are taken from numpy\'s global stream in order of use']

CONFIGS = [('chi2', 'Lin3', 'Data2'), ('like', 'LinV', 'Data2'), ('bayes', 'Lin3', 'Ints'), ('chi2', 'LinV', 'Ints'),
           ('chi2', 'Plane', 'Flat2b'), ('like', 'PlaneV', 'Flat2b'), ('bayes', 'CubeV', 'Solid'), ('chi2', 'Cube', 'Solid')]


def np_empty(dim):
    import numpy as np
    return np.zeros((0, dim)) if dim else []


def ops(dim):
    L = (lambda *v: [[x, .5*x + 1., x - 2.][:dim] for x in v]) if dim else (lambda *v: list(v))
    one = L(2.5)[0]
    zero = [0.]*dim if dim else 0.
    o = []
    for d in ('d1', 'd2'):
        o += [(d, 'sim', None, None), (d, 'sim1', 0, None, None), (d, 'sim1', -1, one, None), (d, 'add', one, .5)]
    o += [('d1', 'sim', L(0., 1., 2.), [1., .5, .25]), ('d1', 'sim', L(3.), [2.]), ('d1', 'sim', L(0., 1.), [1.]),
          ('d1', 'simloc', 1.5), ('d1', 'simsig', .75), ('d1', 'sim', L(0., 1., 2., 3., 4., 5., 6.), None), ('d1', 'sim', None, [1.]*9),
          ('d1', 'sim1', 1, zero, None), ('d1', 'sim1', 0, None, .125), ('d1', 'sim1', 0, one, 3.),
          ('d1', 'add', zero, 2.), ('d1', 'addn', L(1., 2.), [.5, .25]), ('d1', 'addn', L(1., 2.), [.5]), ('d2', 'addn', L(0.), [1.]),
          ('d1', 'add', one, None), ('d2', 'add', None, .5), ('d1', 'addn', L(1., 2.), None), ('d1', 'addn', None, [.5]), ('d1', 'add', None, None), ('d2', 'sim1', 1, None, .25), ('d2', 'simsig', .75), ('d2', 'simloc', -1.),
          ('par', 'p', 2.), ('par', 'q', -1.), ('score',), ('d1', 'addn', np_empty(dim), []), ('d2', 'add', zero, 0.), ('d1', 'sim1', 1, one, 0.)]
    return o


def units(tier):
    u = []
    for c in range(len(CONFIGS)):
        for i in range(len(ops(0))):
            u.append({'c': c, 'first': i, 'depth': 2 if tier == 'thorough' else 1})
    for c in (0, 4):
        for i in range(8):
            u.append({'c': c, 'first': i, 'depth': 3 if tier == 'thorough' else 2, 'few': True})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from vmc import piemodels
    from vmc.canon import canon
    kind, model, data = CONFIGS[unit['c']]
    cls = piemodels.inference(kind, model, data)
    dim = 2 if model.startswith('Plane') else 3 if model.startswith('Cube') else 0
    alpha = ops(dim)
    if unit.get('few'):
        alpha = alpha[:8] + [('par', 'p', 2.), ('d1', 'addn', [[1., 2., 0.][:dim], [0., 1., 3.][:dim]] if dim else [1., 2.], [.5, .25])]

    class Data:
        pass

    def build():
        inf = cls()
        np.random.seed(99)
        ref = {'rng': np.random.RandomState(99), 'pars': [1., .5, 0.], 'd': {}}
        for d in ('d1', 'd2'):
            h = getattr(inf, d)
            ref['d'][d] = [np.array(h.locns, float), np.array(h.vals, float), np.array(h.sigmas, float)]
        return [inf, ref, []]

    def pred(ref, locns):
        return np.array(piemodels.predict(model, ref['pars'], locns))

    def apply(w, op, hist):
        inf, ref, passed = w
        st = np.random.get_state()
        refuse = False
        if op[0] == 'par':
            setattr(inf, op[1], op[2])
            ref['pars']['pqr'.index(op[1])] = op[2]
            return
        if op[0] == 'score':
            inf.score()
            return
        d, k = op[0], op[1]
        loc, val, sig = ref['d'][d]
        n = len(val)
        h = getattr(inf, d)

        def arr(x):
            if x is None:
                return None
            x = np.array(x, float)
            passed.append((x, x.copy()))
            return x

        try:
            if k in ('sim', 'simloc', 'simsig'):
                nl, ns = (op[2], op[3]) if k == 'sim' else (None, None)
                if k == 'simloc':
                    nl = (loc + op[2]).tolist()
                if k == 'simsig':
                    ns = [op[2]]*n
                refuse = ((nl is not None and ns is not None and len(nl) != len(ns)) or
                          (nl is not None and ns is None and len(nl) != n) or (ns is not None and nl is None and len(ns) != n))
                if not refuse:
                    loc = loc if nl is None else np.array(nl)
                    sig = sig if ns is None else np.array(ns)
                    val = pred(ref, loc) + sig*ref['rng'].standard_normal(len(sig))
                kw = {}
                if nl is not None:
                    kw['locns'] = arr(nl)
                if ns is not None:
                    kw['sigmas'] = arr(ns)
                h.sim(**kw)
            elif k == 'sim1':
                i = op[2]
                refuse = i >= n
                if not refuse:
                    loc, val, sig = loc.copy(), val.copy(), sig.copy()
                    if op[3] is not None:
                        loc[i] = op[3]
                    if op[4] is not None:
                        sig[i] = op[4]
                    val[i] = pred(ref, loc)[i] + sig[i]*ref['rng'].standard_normal()
                h.sim1(i, locn=op[3], sigma=op[4])
            elif k == 'add':
                refuse = op[2] is None or op[3] is None
                if not refuse:
                    loc = np.concatenate((loc, [op[2]]))
                    sig = np.concatenate((sig, [op[3]]))
                    val = np.concatenate((val, pred(ref, loc)[n:] + sig[n:]*ref['rng'].standard_normal(1)))
                h.add_sim(op[2], op[3])
            elif k == 'addn':
                refuse = op[2] is None or op[3] is None or len(op[2]) != len(op[3])
                if not refuse:
                    loc = np.concatenate((loc, op[2]))
                    sig = np.concatenate((sig, op[3]))
                    val = np.concatenate((val, pred(ref, loc)[n:] + sig[n:]*ref['rng'].standard_normal(len(op[3]))))
                h.add_sim(locns=arr(op[2]), sigmas=arr(op[3]))
        except Exception as e:
            if not refuse:
                ctx.fail('%r failed: %r' % (op, e), hist)
        else:
            if refuse:
                ctx.fail('%r should have been refused' % (op,), hist)
        ref['d'][d] = [loc, val, sig]

    def check(w, hist):
        inf, ref, passed = w
        sets = []
        for d in ('d1', 'd2'):
            h = getattr(inf, d)
            loc, val, sig = ref['d'][d]
            if int(h.ndata) != len(val):
                ctx.fail('%s: %r data counted, expected %d after %r' % (d, h.ndata, len(val), list(hist)), hist)
            for what, a, b in (('locations', loc, h.locns), ('values', val, h.vals), ('sigmas', sig, h.sigmas)):
                b = np.asarray(b, float)
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-11, atol=1e-11):
                    ctx.fail('%s %s are %r, expected %r after %r' % (d, what, b.tolist(), a.tolist(), list(hist)), hist)
            sets.append((loc, val, sig))
        if any((s[2] == 0.).any() for s in sets):
            return      # a datum without uncertainty has no score
        want = piemodels.ref_score(kind, model, ref['pars'], sets)
        got = float(inf.score())
        if not abs(got - want) <= 1e-9*max(1., abs(want)):
            ctx.fail('score %r after %r, expected %r' % (got, list(hist), want), hist)
        for a, b in passed:
            if a.tolist() != b.tolist():
                ctx.fail('an array passed in was modified: %r -> %r' % (b.tolist(), a.tolist()), hist)
        ctx.outcome(repr([[x.tolist() for x in s] for s in sets]))

    def key(w):
        return canon([w[0], w[1]['pars']]) + repr(w[1]['rng'].get_state()[2:]) + repr(len(w[2]))

    bfs(ctx, build, alpha, apply, check, key, unit['depth'], [alpha[unit['first']]])
