"""C05: the zig-zag walk over the grid of stepping parameters."""
import itertools

PROP = 'C05'
LEVEL = 'model_checking'
RULE = ('for every grid shape and declaration order within the bound: the complete walk, a second complete walk, and walks '
        'interrupted at every grid point by a reset, by a change of one declaration or by fixing one parameter and restarted; every move is checked '
        '(exactly one parameter, exactly one step, no point twice), and coverage and the end signal are checked per walk')
ASSUMPTIONS = ['the order in which the points are visited is only constrained to neighbour moves']
NAMES = 'abcde'


def shapes(tier):
    s = []
    for d, top in ((1, 9), (2, 6), (3, 4), (4, 3), (5, 2)):
        if tier == 'thorough':
            top += 2
        s += list(itertools.product(range(2, top + 1), repeat=d))
    s += [(40,), (2, 33), (33, 2), (17, 19), (11, 2, 13), (7, 8, 9), (101, 3)]
    return s


def units(tier):
    ss = shapes(tier)
    u = []
    for i in range(0, len(ss), 6):
        u.append({'kind': 'walk', 'shapes': [list(x) for x in ss[i:i + 6]]})
    small = [s for s in ss if 1 < len(s) <= 4 and max(s) <= 3]
    for i in range(0, len(small), 2):
        u.append({'kind': 'restart', 'shapes': [list(x) for x in small[i:i + 2]]})
    for p in itertools.permutations(range(3)):
        u.append({'kind': 'order', 'perm': list(p)})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from vmc import piemodels
    from inference.pie.signalmodel import StopStepping

    def make(shape, order=None):
        inf = piemodels.Chi5()
        order = order or range(len(shape))
        for k in order:
            if k % 2:
                getattr(inf, NAMES[k]).logstep(1., 10.*(k + 1), shape[k])
            else:
                getattr(inf, NAMES[k]).linstep(-1., k + 1., shape[k])
        left = [n for n in NAMES if NAMES.index(n) not in order]
        if left:
            getattr(inf, left[0]).vary(1.5, .1, (0., 9.))
        return inf, left

    def table(shape, order):
        t = []
        for k in order:
            i = np.arange(shape[k])/(shape[k] - 1.)
            t.append((10.*(k + 1))**i if k % 2 else -1. + (k + 2.)*i)
        return t

    def walk(inf, left, shape, order, tab, what):
        full = tuple(shape[k] for k in order)
        if tuple(inf.step_shape()) != full:
            ctx.fail('grid shape %r, expected %r' % (inf.step_shape(), full), what)
        others = {n: float(getattr(inf, n)) for n in left}
        cur = tuple(inf.step_nums())
        if cur != (0,)*len(order):
            ctx.fail('walk does not start at the first point: %r' % (cur,), what)
        seen = set()
        path = []
        while True:
            if cur in seen:
                ctx.fail('grid point %r visited twice' % (cur,), what)
            seen.add(cur)
            path.append(cur)
            ctx.state((full, tuple(order), cur, tuple(path[-2:])))
            for j, k in enumerate(order):
                v, w = float(getattr(inf, NAMES[k])), tab[j][cur[j]]
                if not abs(v - w) <= 1e-9*max(1., abs(w)):
                    ctx.fail('at %r parameter %s is %r, expected %r' % (cur, NAMES[k], v, w), what)
            for n in left:
                if float(getattr(inf, n)) != others[n]:
                    ctx.fail('the walk changed parameter %s, which does not step' % n, what)
            try:
                inf.next_step()
            except StopStepping:
                ctx.step()
                break
            ctx.step()
            new = tuple(inf.step_nums())
            if sum(abs(a - b) for a, b in zip(new, cur)) != 1:
                ctx.fail('move from %r to %r is not one step of one parameter' % (cur, new), what)
            cur = new
            if len(path) > 5000000 or not all(0 <= a < b for a, b in zip(cur, full)):
                ctx.fail('walk left the grid: %r' % (cur,), what)
        total = 1
        for n in full:
            total *= n
        if len(seen) != total:
            ctx.fail('walk visited %d of %d points' % (len(seen), total), what)
        if tuple(inf.step_nums()) != (0,)*len(order):
            ctx.fail('after the walk the grid is at %r, not at its first point' % (inf.step_nums(),), what)
        for j, k in enumerate(order):
            if not abs(float(getattr(inf, NAMES[k])) - tab[j][0]) <= 1e-12:
                ctx.fail('after the walk parameter %s is not at its first value' % NAMES[k], what)
        ctx.trace()
        ctx.outcome((full, tuple(path)[:200]))
        return path

    if unit['kind'] == 'walk':
        for shape in unit['shapes']:
            order = list(range(len(shape)))
            what = {'shape': shape}
            ctx.at(what)
            inf, left = make(shape)
            tab = table(shape, order)
            p1 = walk(inf, left, shape, order, tab, what)
            p2 = walk(inf, left, shape, order, tab, dict(what, second=True))
            if p1 != p2:
                ctx.fail('second walk differs from the first', what)
        ctx.sample({'shape': shape, 'path': p1[:12]})
    elif unit['kind'] == 'restart':
        for shape in unit['shapes']:
            order = list(range(len(shape)))
            tab = table(shape, order)
            total = 1
            for n in shape:
                total *= n
            for k in range(total):
                for how in ('reset', 'redeclare', 'fix', 'wander'):
                    what = {'shape': shape, 'interrupted_after': k, 'by': how}
                    ctx.at(what)
                    inf, left = make(shape)
                    for _ in range(k):
                        inf.next_step()
                    if how == 'reset':
                        inf.reset_steps()
                        walk(inf, left, shape, order, tab, what)
                    elif how == 'wander':
                        # single-parameter moves are forgotten by a reset
                        inf.a.last_step()
                        getattr(inf, NAMES[order[-1]]).first_step()
                        inf.reset_steps()
                        walk(inf, left, shape, order, tab, what)
                    elif how == 'redeclare':
                        for q in order:
                            inf2, left2 = make(shape)
                            for _ in range(k):
                                inf2.next_step()
                            sh2 = list(shape)
                            sh2[q] = shape[q] % 3 + 2
                            h = getattr(inf2, NAMES[q])
                            if q % 2:
                                h.logstep(1., 10.*(q + 1), sh2[q])
                            else:
                                h.linstep(-1., q + 1., sh2[q])
                            walk(inf2, left2, sh2, order, table(sh2, order), dict(what, q=q))
                    else:
                        for q in order:
                            inf2, left2 = make(shape)
                            for _ in range(k):
                                inf2.next_step()
                            getattr(inf2, NAMES[q]).fix()
                            o2 = [x for x in order if x != q]
                            walk(inf2, left2 + [NAMES[q]], shape, o2, table(shape, o2), dict(what, q=q))
    else:
        order = unit['perm']
        for shape in itertools.product((2, 3, 4), repeat=3):
            what = {'shape': shape, 'order': order}
            ctx.at(what)
            inf, left = make(shape, order)
            tab = table(shape, order)
            walk(inf, left, shape, order, tab, what)
            walk(inf, left, shape, order, tab, what)
