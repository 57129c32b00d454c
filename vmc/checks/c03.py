"""C03: what is done to one inference object never shows in another one."""
from vmc.explore import bfs

PROP = 'C03'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories of operations applied to either of two live inferences (same class, or '
        'different classes sharing model and data classes); after each operation the complete observation of every object '
        'not operated on (parameters, listings, data arrays, scores) must equal the one before, a newly made object must '
        'equal a pristine one and refuse what it has not been given the range, scale or steps for, and the arrays given to the predictors must be unchanged')
ASSUMPTIONS = ['2 live objects plus a fresh one per state; random stream reseeded before every operation']

PAIRS = [['Chi3d2', 'Chi3d2'], ['Chi3d2', 'Like3'], ['Bayes3', 'Bayes3'], ['Like3', 'Bayes3']]


def ops_for(k):
    return [(k, 'assign', 'p', 3.), (k, 'vary', 'p', 2., .5, (-10., 10.)), (k, 'vary', 'q', 1., .5, (-5., 5.)), (k, 'linstep', 'r', 0., 1., 3),
            (k, 'logstep', 'p', 1., 4., 3), (k, 'set_value', 'p', 4.), (k, 'range', 'r', -3., 3.), (k, 'next'), (k, 'sim', 'd1'), (k, 'sim1', 'd2', 1), (k, 'sim1', 'd1', 2, .75, 3.),
            (k, 'sim1', 'd2', 0, 5., None), (k, 'sim1', 'd1', 0, None, .125), (k, 'simx', 'd2'), (k, 'add', 'd1'), (k, 'addx', 'd2'),
            (k, 'poke', 'd1'), (k, 'fit'), (k, 'get'), (k, 'map')]


SMALL = ('assign', 'set_value', 'vary', 'linstep', 'next', 'sim', 'sim1', 'poke', 'simx', 'addx')


def small(k):
    return [o for o in ops_for(k) if o[1] in SMALL]


def units(tier):
    u = []
    for pi in range(len(PAIRS)):
        n = 2*len(ops_for(0))
        for i in range(n):
            u.append({'pair': pi, 'first': i, 'small': False, 'depth': 2 if tier == 'thorough' else 1})
    for pi in range(len(PAIRS)):
        for i in range(2*len(small(0))):
            u.append({'pair': pi, 'first': i, 'small': True, 'depth': 3 if tier == 'thorough' else 2})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from vmc import piemodels, pieref
    from vmc.canon import canon
    names = ['p', 'q', 'r']
    clss = [getattr(piemodels, c) for c in PAIRS[unit['pair']]]
    ops = ops_for(0) + ops_for(1)
    if unit['small']:
        ops = small(0) + small(1)

    def obs(inf):
        s = pieref.real_show(inf, names)
        data = []
        for d in ('d1', 'd2'):
            h = getattr(inf, d)
            data.append((np.array(h.locns).tolist(), np.array(h.vals).tolist(), np.array(h.sigmas).tolist(), int(h.ndata)))
        return repr((s, data, float(inf.score()), inf.use_unbounded, list(inf.params), list(inf.predictors)))

    # what a new object allows: none of these has been given the scale, range or steps it needs
    NEEDS = [('vary', 'p', 1., None, (0., 9.)), ('vary', 'q', None, None, (-9., 9.)), ('vary', 'r', 0., None, (-9., 9.)), ('vary', 'p', 2., .5), ('linstep', 'r'), ('linstep', 'p', 1., None, 3),
             ('logstep', 'p', None, 2., 3), ('p', 'r', 'next'), ('p', 'p', 'first'), ('set_value', 'p', 1.), ('next',), ('vary', 'r')]

    def allows(c):
        inf = c()
        out = []
        for op in NEEDS:
            try:
                pieref.apply_real(inf, op)
                out.append(op)
            except Exception:
                pass
        return [obs(inf), out]

    def pristine():
        return [obs(c()) for c in clss] + [allows(c) for c in clss]

    MINE = [np.array([1.5, 2.5, -1.]), np.array([.5, 2., 1.])]
    base = pristine()

    def originals():
        return repr([a.tolist() for a in piemodels.GIVEN + MINE])

    orig = originals()

    def do(inf, op):
        np.random.seed(11)
        k = op[1]
        if k == 'sim':
            getattr(inf, op[2]).sim()
        elif k == 'sim1':
            getattr(inf, op[2]).sim1(*op[3:])
        elif k == 'simx':
            getattr(inf, op[2]).sim(locns=MINE[0], sigmas=MINE[1])
        elif k == 'add':
            getattr(inf, op[2]).add_sim(2.5, .5)
        elif k == 'addx':
            getattr(inf, op[2]).add_sim(locns=MINE[0], sigmas=MINE[1])
        elif k == 'poke':
            h = getattr(inf, op[2])
            h.localize_data()
            h.vals[0] += 1.
            h.sigmas[1] *= 2.
            h.locns[0] += .25
        elif k == 'fit':
            if not inf.stepping_params and inf.varying_params:
                inf.fit()
            else:
                inf.score()
        elif k == 'get':
            inf.get_params()
        elif k == 'map':
            inf.map_bounds()
        else:
            try:
                pieref.apply_real(inf, op[1:])
            except Exception:
                pass

    def build():
        return [c() for c in clss]

    def apply(w, op, hist):
        k = op[0]
        last = hist is not None
        before = obs(w[1 - k]) if last else None
        do(w[k], op)
        if last:
            after = obs(w[1 - k])
            if before != after:
                ctx.fail('operation %r on one inference changed the other: %s -> %s' % (op, before, after), hist)
            new = pristine()
            if new != base:
                ctx.fail('a new inference made after %r differs from a pristine one: %s vs %s' % (list(hist), new, base), hist)
            if originals() != orig:
                ctx.fail('the data given to the predictors were changed by %r' % (list(hist),), hist)

    def check(w, hist):
        ctx.outcome((obs(w[0]), obs(w[1])))

    bfs(ctx, build, ops, apply, check, lambda w: canon(w), unit['depth'], [ops[unit['first']]])
