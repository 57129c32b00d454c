"""C01: every parameter is in exactly one of fixed / stepping / varying, after any history of operations."""
from vmc.explore import bfs
from vmc import pieref

PROP = 'C01'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all operation histories on a fresh real inference (assign, fix, range, vary, '
        'lin/log step, single-parameter and grid stepping, reset) up to the depth of the unit, merging histories only '
        'when the complete reachable attribute graphs of the real objects are equal; every accepted/refused outcome '
        'and every listing is compared with a reference of plain lists and indices after every operation')
ASSUMPTIONS = ['parameter values from a small alphabet; at most 3 parameters in histories, 6 in every order of declaration',
               'order of the fixed listing is not part of the property']

DEF = {'Chi6': {'p': 1., 'q': .5, 'a10': 0., 'a9': 0., 'Z': 0., 'b': 0.}, 'Chi2': {'p': 1., 'q': .5}, 'Chi3': {'p': 1., 'q': .5, 'r': 0.}}


def full(p):
    return [('assign', p, 2.), ('fix', p), ('fix', p, 1.5), ('vary', p, 2., .1, (0., 4.)), ('vary', p, None, .2, (-1., 6.)),
            ('vary', p, 3.), ('linstep', p, 1., 3., 3), ('logstep', p, 1., 4., 2), ('range', p, 0., 5.),
            ('set_value', p, 2.5), ('p', p, 'next')]


def small(p):
    return [('assign', p, 2.), ('fix', p), ('vary', p, 2., .1, (0., 4.)), ('linstep', p, 1., 3., 3)]


def tiny(p):
    return [('fix', p), ('vary', p, 1., .1, (0., 4.)), ('linstep', p, 1., 3., 2)]


GRID = [('next',), ('reset',)]


def units(tier):
    deep = tier == 'thorough'
    u = []
    a = full('p') + full('q') + GRID
    for i in range(len(a)):
        u.append({'inf': 'Chi2', 'alpha': 'full', 'first': [i], 'depth': 4 if deep else 3})
    b = small('p') + small('q') + [('next',)]
    for i in range(len(b)):
        u.append({'inf': 'Chi2', 'alpha': 'small', 'first': [i], 'depth': 9 if deep else 6})
    c = tiny('p') + tiny('q') + tiny('r') + [('next',)]
    for i in range(len(c)):
        u.append({'inf': 'Chi3', 'alpha': 'tiny', 'first': [i], 'depth': 8 if deep else 5})
    for first in DEF['Chi6']:
        for kinds in KINDS:
            u.append({'inf': 'Chi6', 'many': kinds, 'first': first})
    return u


# what six parameters are declared in turn to be: v(arying), s(tepping), l(og stepping)
KINDS = ['vvvvvv', 'ssssss', 'vsvsvs', 'svlvsv', 'llvvss', 'vvvsss']


def run_many(unit, ctx):
    """Every order of declaring six parameters, then each one fixed, re-declared or changed over, after some grid steps."""
    import itertools
    from vmc import piemodels
    names = list(DEF['Chi6'])
    decl = {'v': lambda n: ('vary', n, 2., .1, (0., 4.)), 's': lambda n: ('linstep', n, 1., 3., 2), 'l': lambda n: ('logstep', n, 1., 4., 3)}
    rest = [n for n in names if n != unit['first']]
    for order in itertools.permutations(rest):
        order = (unit['first'],) + order
        base = [decl[k](n) for n, k in zip(order, unit['many'])] + [('next',)]*3
        tails = [[('fix', order[i])] for i in (0, 3, 5)] + [[decl['v'](order[i]), decl['s'](order[i])] for i in (1, 4)] + [[('fix', order[2]), decl['v'](order[2])]]
        for tail in tails:
            hist = base + tail
            ctx.at(hist)
            ref, inf = pieref.Ref(DEF['Chi6']), piemodels.Chi6()
            for op in hist:
                if op == ('next',) and not ref.show()['stepping']:
                    continue
                pieref.both(ref, inf, op, ctx, hist)
                ctx.step()
            d = pieref.diff(ref.show(), pieref.real_show(inf, names))
            if d:
                ctx.fail('after %s: %s' % (hist, d), hist)
            ctx.state(('many', tuple(hist)))
            ctx.trace()
    ctx.outcome((unit['many'], unit['first']))


def alphabet(unit):
    names = list(DEF[unit['inf']])
    f = {'full': full, 'small': small, 'tiny': tiny}[unit['alpha']]
    ops = []
    for n in names:
        ops += f(n)
    return ops + (GRID if unit['alpha'] == 'full' else [('next',)])


def run_unit(unit, ctx):
    if 'many' in unit:
        return run_many(unit, ctx)
    from vmc import piemodels
    from vmc.canon import canon
    cls = getattr(piemodels, unit['inf'])
    names = list(DEF[unit['inf']])
    ops = alphabet(unit)

    def build():
        return [pieref.Ref(DEF[unit['inf']]), cls()]

    def apply(w, op, hist):
        return pieref.both(w[0], w[1], op, ctx, hist)

    def check(w, hist):
        d = pieref.diff(w[0].show(), pieref.real_show(w[1], names))
        if d:
            ctx.fail('after %s: %s' % (list(hist), d), hist)
        s = w[0].show()
        ctx.outcome((s['varying'], s['stepping'], s['fixed'], s['nums']))

    bfs(ctx, build, ops, apply, check, lambda w: canon(w[1]) + repr(w[0].show()), unit['depth'],
        [ops[i] for i in unit['first']])
