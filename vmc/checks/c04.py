"""C04: stepping one parameter visits exactly the declared values, in any order of moves."""
import itertools

PROP = 'C04'
LEVEL = 'model_checking'
RULE = ('for every step declaration of a lattice (linear/log, ascending/descending/negative/crossing zero, tiny to huge, default '
        'limits, integer limits): all sequences of next/previous/first/last moves up to a length bound from the first step, then '
        'full walks up and down for every n up to a bound; value, index and refusal compared with a closed formula after every move')
ASSUMPTIONS = ['inner values compared to 1e-9 of the span, end values exactly']

LIN = [(0., 1.), (1., 0.), (-3., 5.), (2., 2.5), (-1e-6, 1e-6), (1e8, 3e8), (0, 10), (-7., -7.5), (0.1, 0.7), (1, 2)]
LOG = [(1., 2.), (1., 1000.), (8., .5), (-1., -16.), (1e-30, 1e-20), (1e10, 1e25), (1, 8), (3., 3.3), (.1, .7), (2, 3)]
MOVES = ('next', 'prev', 'first', 'last')


def configs():
    out = []
    for a, b in LIN:
        out.append(('linstep', a, b))
    out.append(('step', -2., 2.))
    for a, b in LOG:
        out.append(('logstep', a, b))
    return out


def units(tier):
    u = []
    deep = tier == 'thorough'
    for c in configs():
        for n in (2, 3, 4, 5):
            u.append({'kind': 'moves', 'c': list(c), 'n': n, 'len': 7 if deep else 5})
    for c in configs():
        u.append({'kind': 'walk', 'c': list(c), 'ns': list(range(2, 130 if deep else 66)) + [100, 101, 128, 257, 1000] + ([5000] if deep else [])})
    for rng in ([1., 4.], [-4., -1.], [0., 2.], [5., 2.]):
        u.append({'kind': 'default', 'rng': rng})
    return u


def val(kind, lo, hi, n, i):
    if i == 0:
        return float(lo)
    if i == n - 1:
        return float(hi)
    f = i/(n - 1.)
    if kind == 'logstep':
        return lo*(hi/float(lo))**f
    return lo + (hi - lo)*f


def run_unit(unit, ctx):
    from vmc import piemodels

    def same(inf, kind, lo, hi, n, i, hist):
        v = float(inf.p)
        w = val(kind, lo, hi, n, i)
        if i in (0, n - 1):
            ok = v == w
        elif kind == 'logstep':
            ok = abs(v/w - 1.) <= 1e-9
        else:
            ok = abs(v - w) <= 1e-9*max(abs(hi - lo), 1e-5*max(abs(lo), abs(hi)))
        if not ok or inf.p.step_index() != i or float(inf.p.get_value()) != v or inf.step_nums() != (i,):
            ctx.fail('step %d of %s(%r, %r, %d): value %r (index %r), expected %r' % (
                i, kind, lo, hi, n, v, inf.p.step_index(), w), hist)
        ctx.outcome((kind, lo, hi, n, i))
        ctx.state((kind, lo, hi, n, i, v))

    def move(inf, m, i, n, hist):
        j = {'next': i + 1, 'prev': i - 1, 'first': 0, 'last': n - 1}[m]
        ctx.step()
        refused = False
        try:
            getattr(inf.p, m + '_step')()
        except Exception:
            refused = True
        if refused != (not 0 <= j < n):
            ctx.fail('%s from step %d of %d %s' % (m, i, n, 'refused' if refused else 'accepted'), hist)
        return j if not refused else i

    def declare(kind, lo, hi, n):
        inf = piemodels.Chi2()
        getattr(inf.p, kind)(lo, hi, n)
        return inf

    if unit['kind'] == 'moves':
        (kind, lo, hi), n = unit['c'], unit['n']
        for L in range(unit['len'] + 1):
            for seq in itertools.product(MOVES, repeat=L):
                hist = {'declare': [kind, lo, hi, n], 'moves': seq}
                ctx.at(hist)
                inf = declare(kind, lo, hi, n)
                i = 0
                for m in seq:
                    i = move(inf, m, i, n, hist)
                same(inf, kind, lo, hi, n, i, hist)
                ctx.trace()
        # changing the declaration half way restarts at the new first step
        for kind2, lo2, hi2 in configs():
            for i0 in range(n):
                inf = declare(kind, lo, hi, n)
                for _ in range(i0):
                    inf.p.next_step()
                getattr(inf.p, kind2)(lo2, hi2, 4)
                hist = {'declare': [kind, lo, hi, n], 'at': i0, 'redeclare': [kind2, lo2, hi2, 4]}
                for j in range(4):
                    same(inf, kind2, lo2, hi2, 4, j, hist)
                    move(inf, 'next', j, 4, hist)
                ctx.trace()
        ctx.sample(hist)
    elif unit['kind'] == 'walk':
        kind, lo, hi = unit['c']
        for n in unit['ns']:
            hist = {'declare': [kind, lo, hi, n], 'walk': 'up, down, up'}
            ctx.at(hist)
            inf = declare(kind, lo, hi, n)
            i = 0
            same(inf, kind, lo, hi, n, i, hist)
            for m in ('next', 'prev', 'next'):
                for _ in range(n):          # one more than there are moves: the last is refused
                    i = move(inf, m, i, n, hist)
                    same(inf, kind, lo, hi, n, i, hist)
            # zig-zag in the middle
            for m in ('prev', 'prev', 'next', 'prev', 'prev', 'next', 'next'):
                i = move(inf, m, i, n, hist)
                same(inf, kind, lo, hi, n, i, hist)
            ctx.trace()
    else:
        a, b = unit['rng']
        lo, hi = min(a, b), max(a, b)
        mid = .5*(lo + hi)
        for kind in ('linstep', 'step', 'logstep'):
            for kw in ({}, {'lo': mid}, {'hi': mid}, {'n': 4}, {'lo': mid, 'n': 3}, {'hi': mid, 'n': 2}, {'lo': mid, 'hi': hi}):
                ctx.at((unit, kind, kw))
                inf = piemodels.Chi2()
                inf.p.range(a, b)
                l, h, n = kw.get('lo', lo), kw.get('hi', hi), kw.get('n', 10)
                if kind == 'logstep' and l*h <= 0:
                    continue
                getattr(inf.p, kind)(**kw)
                i = 0
                for _ in range(n):
                    same(inf, kind, l, h, n, i, (kind, kw))
                    i = move(inf, 'next', i, n, (kind, kw))
                ctx.trace()
