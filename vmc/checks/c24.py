"""C24: lists of labelled maxima against a stably sorted reference, for all update histories over a lattice."""
from math import log

PROP = 'C24'
LEVEL = 'model_checking'
RULE = ('every history up to the length bound of updates with values from a lattice with ties, range limitations and deletions, for every size limit and dynamic range; after each step the list is '
        'compared, item by item, label by label, with a stably sorted and truncated reference; plus long ladders of rising, falling, repeating and zigzag values')
ASSUMPTIONS = ['size limits of at least one', 'no value is exactly at the edge of the dynamic range, except with range 1']

VALS = [3., 0., 7.5, -4., 3.]     # the tie is offered by two operations with different labels
OPS = [('up', v) for v in VALS[:4]] + [('limit', 30.), ('limit', 1.), ('del', 0), ('del', -1)]
NMAX = [None, 1, 2, 3, 5]
DYN = [None, 1., 30., 1e3, 1e12]


def units(tier):
    u = []
    for n in range(len(NMAX)):
        for d in range(len(DYN)):
            u.append({'t': 'seq', 'nmax': n, 'dyn': d, 'len': 6 if tier == 'thorough' else 5})
    u += [{'t': 'long', 'k': k} for k in range(6)]
    return u


def run_unit(unit, ctx):
    import copy
    from inference.grid.grid1d import LabeledMaxList

    def make(nmax, dyn, k=0):
        if nmax is None and dyn is None and k:
            return LabeledMaxList()
        return LabeledMaxList(nmax, dyn) if k else LabeledMaxList(nmax=nmax, dynrange=dyn)

    def ref_limit(r, lr):
        return [e for i, e in enumerate(r) if not r[0][0] - e[0] > lr]

    def apply(l, r, op, n, nmax, dyn, case):
        r = list(r)
        if op[0] == 'up':
            lab = (1000 - n, op[1], 'x')
            l.update(op[1], lab)
            i = len([e for e in r if e[0] >= op[1]])
            r.insert(i, (op[1], lab))
            if nmax is not None:
                r = r[:nmax]
            if dyn is not None:
                r = ref_limit(r, log(dyn))
        elif op[0] == 'limit':
            l.limitRange(op[1])
            if r:
                r = ref_limit(r, log(op[1]))
        else:
            if r:
                del l[op[1]]
                del r[op[1]]
        return r

    def look(l, r, case):
        got = [tuple(e) for e in l]
        if got != r or len(l) != len(r):
            ctx.fail('the list is %r, expected %r' % (got, r), case)
        if r and (l[0] != r[0] or l[-1] != r[-1]):
            ctx.fail('ends of the list are %r and %r, expected %r and %r' % (l[0], l[-1], r[0], r[-1]), case)

    if unit['t'] == 'long':
        k = unit['k']
        seq = [[float(i) for i in range(400)], [-float(i) for i in range(400)], [float(i % 7) for i in range(400)],
               [float((-1)**i*i) for i in range(300)], [float(i*37 % 101) for i in range(500)], [1.]*300][k]
        for nmax in (None, 1, 2, 7, 100):
            for dyn in (None, 1., 2.5, 1e20, 1e100):
                l, r = make(nmax, dyn), []
                for n, v in enumerate(seq):
                    case = {'ladder': k, 'nmax': nmax, 'dynrange': dyn, 'n': n}
                    ctx.at(case)
                    r = apply(l, r, ('up', v), n, nmax, dyn, case)
                    ctx.step()
                    if n < 20 or n % 10 == 0 or n == len(seq) - 1:
                        look(l, r, case)
                    ctx.state((k, nmax, dyn, n))
                ctx.trace()
                ctx.outcome((k, nmax, dyn, repr(r)))
        return
    nmax, dyn = NMAX[unit['nmax']], DYN[unit['dyn']]

    def rec(l, r, hist):
        case = {'nmax': nmax, 'dynrange': dyn, 'history': hist}
        look(l, r, case)
        ctx.state((nmax, dyn, hist))
        ctx.outcome((nmax, dyn, [e[0] for e in r]))
        ctx.trace()
        if len(hist) < unit['len']:
            for op in OPS:
                if op[0] == 'del' and not r:
                    continue
                h = hist + (op,)
                ctx.at((nmax, dyn, h))
                l2 = copy.deepcopy(l)
                r2 = apply(l2, r, op, len(hist), nmax, dyn, h)
                ctx.step()
                rec(l2, r2, h)
    rec(make(nmax, dyn), [], ())
    ctx.sample({'nmax': nmax, 'dynrange': dyn, 'length': unit['len']})
