"""C02: refused operations leave everything as it was; accepted values are in range."""
from vmc.explore import bfs
from vmc import pieref

PROP = 'C02'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories mixing accepted and refused operations with values on, just inside and '
        'just outside every limit; after each operation the complete observation (value, status, range, stepping '
        'definition and position of every parameter, listings) is compared with the reference, which a refused '
        'operation does not touch; every state is then probed by stepping the parameters that step to both ends')
ASSUMPTIONS = ['values from a lattice of limits +- one unit, NaN included; at most 2 parameters']

DEF = {'p': 1., 'q': .5}
NAN = float('nan')
# the neighbours of 2, 4 and 1
UP2, DN2, UP4, DN4, DN1 = 2. + 2.**-51, 2. - 2.**-52, 4. + 2.**-50, 4. - 2.**-51, 1. - 2.**-53


def bounds(p):
    """Operations around the range [0, 2]."""
    return [('range', p, 0., 2.), ('assign', p, 2.), ('assign', p, UP2), ('assign', p, -1e-300), ('fix', p, DN2), ('fix', p, -1e-12), ('fix', p, NAN),
            ('fix', p), ('fix', p, 0.), ('assign', p, 0.), ('vary', p, 0.), ('set_value', p, 0.), ('set_value', p, UP2), ('set_value', p, -1e-15), ('set_value', p, 1e-15), ('set_value', p, NAN),
            ('vary', p, 1.5, .1, (0., 2.)), ('vary', p, 5., .1, (0., 2.)), ('vary', p, None, .1, (1.25, 3.)),
            ('vary', p, -1., .1, (1., -2.)), ('vary', p, .5), ('vary', p, UP2), ('vary', p, -1e-13), ('vary', p)]


def steps(p):
    return [('range', p, 1., 4.), ('linstep', p, 1., 3., 3), ('linstep', p, 1., UP4, 3), ('linstep', p, DN1, 3., 3), ('linstep', p, 3., .5, 3), ('linstep', p, UP4, 2., 3), ('logstep', p, 3., .5, 3), ('logstep', p, UP4, 2., 3), ('set_value', p, 2.),
            ('linstep', p, 1., 3., 1), ('linstep', p, 1., 3., 0), ('linstep', p), ('step', p, None, 3., 4), ('step', p, 2., None, 3),
            ('logstep', p, 1., 4., 3), ('logstep', p, DN4, 4., 2), ('logstep', p, -1., 4., 3), ('logstep', p, 0., 4., 3), ('logstep', p, DN1, 4., 3), ('logstep', p, 1., UP4, 3),
            ('logstep', p, None, 4., 2), ('logstep', p, 2., None, 3), ('logstep', p, 1., 4., 1), ('logstep', p),
            ('p', p, 'next'), ('p', p, 'prev'), ('p', p, 'first'), ('p', p, 'last'), ('assign', p, 2.)]


def mixed(p):
    return [('range', p, 0., 4.), ('vary', p, 1., .1, (0., 4.)), ('vary', p, 9., .1, (0., 4.)), ('vary', p, 2.), ('vary', p, 4.5),
            ('linstep', p, 1., 3., 3), ('linstep', p, 1., 5., 2), ('linstep', p, 0., 2., 1), ('logstep', p, 0., 4., 3),
            ('assign', p, 4.), ('assign', p, 5.), ('set_value', p, 3.), ('fix', p, 0.), ('p', p, 'next')]


def two():
    return (mixed('p')[:] + [('vary', 'q', 1., .1, (0., 4.)), ('vary', 'q', -1., .1, (0., 4.)), ('linstep', 'q', 1., 3., 2),
                             ('linstep', 'q', 1., 3., 1), ('assign', 'q', 1.5), ('next',)])


ALPHA = {'bounds': lambda: bounds('p'), 'steps': lambda: steps('p'), 'mixed': lambda: mixed('p'), 'two': two}


def units(tier):
    deep = tier == 'thorough'
    u = []
    for a, d, dd in (('bounds', 4, 6), ('steps', 4, 6), ('mixed', 5, 7), ('two', 3, 5)):
        for i in range(len(ALPHA[a]())):
            u.append({'alpha': a, 'first': i, 'depth': dd if deep else d})
    return u


def run_unit(unit, ctx):
    from vmc import piemodels
    from vmc.canon import canon
    names = list(DEF)
    ops = ALPHA[unit['alpha']]()

    def build():
        return [pieref.Ref(DEF), piemodels.Chi2()]

    def apply(w, op, hist):
        return pieref.both(w[0], w[1], op, ctx, hist)

    def check(w, hist):
        ref, inf = w
        d = pieref.diff(ref.show(), pieref.real_show(inf, names))
        if d:
            ctx.fail('after %s: %s' % (list(hist), d), hist)
        s = ref.show()
        for n in names:
            p = ref.p[n]
            # the stepping definition must still work as declared
            if p.status == pieref.STEPPING:
                h = getattr(inf, n)
                i0 = p.idx
                h.first_step()
                vals = [float(getattr(inf, n))]
                for i in range(1, p.n):
                    h.next_step()
                    vals.append(float(getattr(inf, n)))
                if not all(pieref.close(v, p.stepval(i)) for i, v in enumerate(vals)):
                    ctx.fail('%s no longer steps through its declared values after %s: %r' % (n, list(hist), vals), hist)
        ctx.outcome(repr(s))

    bfs(ctx, build, ops, apply, check, lambda w: canon(w[1]) + repr(w[0].show()), unit['depth'], [ops[unit['first']]])
