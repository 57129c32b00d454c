"""C10: snapshots of parameter values."""
from vmc.explore import bfs
from vmc import pieref

PROP = 'C10'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories of snapshots (two slots), edits of snapshots, restores (into the same or another inference) and parameter operations on the '
        'real inference, against a reference that keeps plain copies; after every operation all snapshots, parameter values, statuses and ranges are compared')
ASSUMPTIONS = ['two snapshot slots, two inferences of the same class']
DEF = {'p': 1., 'q': .5, 'r': 0.}

OPS = [('snap', 0), ('snap', 1), ('restore', 0), ('restore', 1), ('restore2', 0), ('snap2', 0), ('edit', 0, 'p', 2.25), ('edit', 0, 'p', 3. + 2.**-51), ('assign', 'r', -2. - 2.**-51), ('assign', 'p', 3.), ('assign', 'r', -2.), ('vary', 'p', 2., .5, (0., 2.5)),
       ('set_value', 'p', 1.25), ('vary', 'q', .1, .2, (-8., 8.)), ('fix', 'p'), ('linstep', 'r', .5, 1., 3), ('next',), ('range', 'p', 0., 2.5)]


def units(tier):
    u = [{'first': [i, j], 'depth': 5 if tier == 'thorough' else 3} for i in range(len(OPS)) for j in range(len(OPS))]
    return u + [{'matrix': i} for i in range(len(SETUPS))]


# ways in which a parameter may stand, all of which have room for 1 but not for 50 when bounded
SETUPS = [[], [('fix', 1.)], [('range', 0., 2.5)], [('range', 0., 2.5), ('fix', 2.)], [('vary', 2., .5, (0., 2.5))], [('vary', 2., .5, (-9., 99.))], [('vary', 2., .5, (0., 2.5)), ('set_value', .25)], [('linstep', 0., 2., 3)]]


def matrix(unit, ctx):
    """Every combination of ways in which three parameters stand, with every combination of values that do and do not fit: all are restored or none is."""
    import itertools
    from vmc import piemodels
    for s in itertools.product([SETUPS[unit['matrix']]], SETUPS, SETUPS):
        for vals in itertools.product((1.25, 50.), repeat=3):
            hist = {'set up': s, 'values restored': vals}
            ctx.at(hist)
            ref, inf, src = pieref.Ref(DEF), piemodels.Chi3(), piemodels.Chi3()
            for n, v, ops in zip(DEF, vals, s):
                setattr(src, n, v)
                for op in ops:
                    pieref.both(ref, inf, (op[0], n) + op[1:], ctx, hist)
            refuse = any(p.status == pieref.STEPPING for p in ref.p.values()) or any(p.bounded and not p.lo <= v <= p.hi for p, v in zip(ref.p.values(), vals))
            err = None
            scales = [getattr(getattr(inf, n), 'delta', None) for n in DEF]
            try:
                inf.set_params(src.get_params())
            except Exception as e:
                err = e
            if scales != [getattr(getattr(inf, n), 'delta', None) for n in DEF]:
                ctx.fail('the scales of the parameters were %r before a restore, not after' % scales, hist)
            if refuse != (err is not None):
                ctx.fail('restore should be %s, got %r' % ('refused' if refuse else 'accepted', err), hist)
            if not refuse:
                for p, v in zip(ref.p.values(), vals):
                    p.value, p.given = v, True
            d = pieref.diff(ref.show(), pieref.real_show(inf, list(DEF)))
            if d:
                ctx.fail('after %s restore: %s' % ('a refused' if refuse else 'an accepted', d), hist)
            ctx.state(('matrix', repr(hist)))
            ctx.step()
            ctx.trace()
            ctx.outcome(('matrix', refuse, vals))


def run_unit(unit, ctx):
    if 'matrix' in unit:
        return matrix(unit, ctx)
    from vmc import piemodels
    from vmc.canon import canon
    names = list(DEF)

    def build():
        # reference, real; second pair; snapshots: reference values, real object
        return {'ref': [pieref.Ref(DEF), pieref.Ref(DEF)], 'inf': [piemodels.Chi3(), piemodels.Chi3()], 'snap': [None, None], 'want': [None, None]}

    def apply(w, op, hist):
        k = op[0]
        if k in ('snap', 'snap2'):
            j = k == 'snap2'
            w['snap'][op[1]] = w['inf'][j].get_params()
            w['want'][op[1]] = {n: w['ref'][j].p[n].value for n in names}
        elif k == 'edit':
            if w['snap'][op[1]] is None:
                return False
            try:
                setattr(w['snap'][op[1]], op[2], op[3])
            except (AttributeError, TypeError):
                return False        # snapshots that cannot be edited are fine
            w['want'][op[1]] = dict(w['want'][op[1]], **{op[2]: op[3]})
        elif k in ('restore', 'restore2'):
            j = k == 'restore2'
            s = w['snap'][op[1]]
            if s is None:
                return False
            ref = w['ref'][j]
            vals = w['want'][op[1]]
            refuse = any(ref.p[n].status == pieref.STEPPING for n in names) or any(
                ref.p[n].bounded and not ref.p[n].lo <= vals[n] <= ref.p[n].hi for n in names)
            err = None
            scales = [getattr(getattr(w['inf'][j], n), 'delta', None) for n in names]
            try:
                w['inf'][j].set_params(s)
            except Exception as e:
                err = e
            if scales != [getattr(getattr(w['inf'][j], n), 'delta', None) for n in names]:
                ctx.fail('the scales of the parameters were %r before a restore, not after' % scales, hist)
            if refuse != (err is not None):
                ctx.fail('restore should be %s, got %r' % ('refused' if refuse else 'accepted', err), hist)
            if not refuse:
                for n in names:
                    ref.p[n].value, ref.p[n].given = vals[n], True
        else:
            return pieref.both(w['ref'][0], w['inf'][0], op, ctx, hist)

    def check(w, hist):
        for j in (0, 1):
            d = pieref.diff(w['ref'][j].show(), pieref.real_show(w['inf'][j], names))
            if d:
                ctx.fail('inference %d after %r: %s' % (j, list(hist), d), hist)
        for s, want in zip(w['snap'], w['want']):
            if s is None:
                continue
            if list(s.names) != names:
                ctx.fail('snapshot names %r' % (s.names,), hist)
            for n in names:
                v = getattr(s, n)
                if float(v) != want[n]:
                    ctx.fail('snapshot value %s is %r, was taken at %r; after %r' % (n, float(v), want[n], list(hist)), hist)
            text = str(s)
            for n in names:
                if n + ' = ' not in text:
                    ctx.fail('snapshot text lacks %s: %r' % (n, text), hist)
        # a snapshot taken now holds the current values, whatever was done to earlier ones
        for j in (0, 1):
            s = w['inf'][j].get_params()
            for n in names:
                if float(getattr(s, n)) != w['ref'][j].p[n].value:
                    ctx.fail('a snapshot taken now has %s = %r instead of %r, after %r' % (n, float(getattr(s, n)), w['ref'][j].p[n].value, list(hist)), hist)
        ctx.outcome((repr(w['want']), repr(w['ref'][0].show())))

    def key(w):
        return canon([w['inf'], w['snap']]) + repr(w['want']) + repr(w['ref'][0].show())

    bfs(ctx, build, OPS, apply, check, key, unit['depth'], [OPS[i] for i in unit['first']])
