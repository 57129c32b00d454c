"""C06: the score equals its definition for the current parameters and data, after any history."""
from vmc.explore import bfs

PROP = 'C06'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories of parameter changes, steps, fits and data changes for every kind of inference, '
        'model style, data form and number of predictors; after every operation the score (asked twice), the per-data-set chi-squared and log likelihood and the log '
        'posterior are compared with sums recomputed in plain Python from the values and data then current')
ASSUMPTIONS = ['relative tolerance 1e-9 on scores']

OPS = [('assign', 'p', 3.), ('assign', 'q', -1.), ('vary', 'p', 2., .5, (-10., 10.)), ('set_value', 'p', -3.25), ('linstep', 'r', 0., 1., 3),
       ('next',), ('sim', 'd1'), ('sim1', 'd1', 0), ('poke', 'd1'), ('fit',), ('score',), ('addsim', 'd1'), ('vary', 'q', 1., .5, (-10., 10.)),
       ('reset',), ('simnew', 'd1')]
FEW = [0, 3, 4, 5, 6, 8, 10]


def configs():
    from_styles = {'Lin3': ['One', 'Triples', 'Rows', 'Data1', 'Data2', 'Ints', 'Three', 'Big'],
                   'LinV': ['One', 'Data1', 'Triples', 'Data2', 'Ints', 'Three', 'Big'],
                   'Plane': ['Flat2', 'Flat2b', 'Flat2Rows'], 'PlaneV': ['Flat2', 'Flat2b', 'Flat2Rows'],
                   'Cube': ['Solid'], 'CubeV': ['Solid'], 'Column': ['Columns']}
    return [(k, m, d) for k in ('chi2', 'like', 'bayes') for m in from_styles for d in from_styles[m]]


def units(tier):
    u = []
    for c in configs():
        u.append({'c': list(c), 'first': None, 'depth': 3 if tier == 'thorough' else 2, 'ops': 'all'})
    for c in (('chi2', 'Lin3', 'Huge'), ('like', 'LinV', 'Huge'), ('bayes', 'LinV', 'Huge')):
        u.append({'c': list(c), 'first': None, 'depth': 1, 'ops': 'all'})
    for c in (('chi2', 'Lin3', 'Data2'), ('like', 'LinV', 'Data2'), ('bayes', 'Plane', 'Flat2b')):
        for i in range(len(FEW)):
            u.append({'c': list(c), 'first': i, 'depth': 4 if tier == 'thorough' else 3, 'ops': 'few'})
    return u


def data_of(inf, preds):
    return [(getattr(inf, d).locns, getattr(inf, d).vals, getattr(inf, d).sigmas) for d in preds]


DIM = {'Plane': 2, 'PlaneV': 2, 'Cube': 3, 'CubeV': 3, 'Column': 1}


def do(inf, op, np, pieref, dim):
    def at(x, y):
        # a location with these (and further) coordinates
        return x if dim is None else [x, y, x - y][:dim]
    np.random.seed(5)
    k = op[0]
    if k == 'sim':
        getattr(inf, op[1]).sim()
    elif k == 'sim1':
        getattr(inf, op[1]).sim1(op[2])
    elif k == 'poke':
        h = getattr(inf, op[1])
        h.localize_data()
        h.vals[-1] += 1.5
        h.sigmas[0] *= 2.
    elif k == 'addsim':
        getattr(inf, op[1]).add_sim(at(.5, -1.), .5)
    elif k == 'simnew':
        n = 3
        loc = np.array([at(.5*i, .25) for i in range(n)])
        getattr(inf, op[1]).sim(loc, np.array([1., .5, 2.]))
    elif k == 'fit':
        from inference.pie.param import ParamRangeError
        try:
            inf.fit()
        except ParamRangeError:     # the search ran into an unmapped bound
            pass
    elif k == 'score':
        inf.score()
    else:
        try:
            pieref.apply_real(inf, op)
        except Exception:
            pass


def run_unit(unit, ctx):
    import numpy as np
    from vmc import piemodels, pieref
    from vmc.canon import canon
    kind, model, data = unit['c']
    cls = piemodels.inference(kind, model, data)
    ops = OPS if unit['ops'] == 'all' else [OPS[i] for i in FEW]
    preds = list(cls().predictors)

    def build():
        return cls()

    def apply(inf, op, hist):
        do(inf, op, np, pieref, DIM.get(model))

    def near(a, b):
        return abs(a - b) <= 1e-9*max(1., min(abs(a), abs(b)))

    def check(inf, hist):
        pars = [float(inf.p), float(inf.q), float(inf.r)]
        ds = data_of(inf, preds)
        want = piemodels.ref_score(kind, model, pars, ds)
        for again in (0, 1):
            got = float(inf.score())
            if not near(got, want):
                ctx.fail('%s score %r, expected %r for parameters %r after %r' % (kind, got, want, pars, list(hist)), hist)
        if kind == 'bayes' and not near(float(inf.logp()), want):
            ctx.fail('logp %r, expected %r' % (float(inf.logp()), want), hist)
        for d, s in zip(preds, ds):
            c = piemodels.ref_score('chi2', model, pars, [s])
            h = getattr(inf, d)
            if not near(float(h.chisqr()), c) or not near(float(h.log_like()), -.5*c):
                ctx.fail('data set %s: chi-squared %r, log likelihood %r, expected %r, %r after %r' % (
                    d, float(h.chisqr()), float(h.log_like()), c, -.5*c, list(hist)), hist)
        if [float(inf.p), float(inf.q), float(inf.r)] != pars:
            ctx.fail('scoring changed the parameters', hist)
        ctx.outcome((kind, want))

    prefix = [] if unit['first'] is None else [ops[unit['first']]]
    bfs(ctx, build, ops, apply, check, lambda w: canon(w), unit['depth'], prefix)
