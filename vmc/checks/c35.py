"""C35: sampling distinct members with probability proportional to size: every outcome of the random draws, and all call histories."""
import itertools
from fractions import Fraction as Fr
from math import factorial

PROP = 'C35'
LEVEL = 'model_checking'
RULE = ('for each population and subset size, every outcome of the draws is enumerated by a scripted generator on a lattice that resolves all probabilities exactly (plain scheme, equal weights) or to 1/1024 (table scheme), and the '
        'probability of every subset and the inclusion probability of every member are compared with the exact values; and every history up to the depth bound of subset calls of both kinds with all sizes, interleaved with '
        'NumPy draws, is run')
ASSUMPTIONS = ['the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so',
               'subset sizes at which some member would have to be in every subset are outside the exact comparison (see the known findings)']

POPS = [[4, 3, 2, 1], [1, 2, 3, 4], [2, 3, 2, 1, 2], [1, 1, 1, 1], [2, 2, 1, 2, 2], [1, 3, 2, 3, 1, 2],
        [2, 3, 2], [3, 1, 3], [2, 1], [1, 2, 2]]


def units(tier):
    u = []
    for k in range(len(POPS)):
        for n in (1, 2, 3):
            if n*max(POPS[k]) < sum(POPS[k]):
                u.append({'t': 'plain', 'w': POPS[k], 'n': n})
                if n < 3 or tier == 'thorough':
                    u.append({'t': 'table', 'w': POPS[k], 'n': n, 'k': 4096 if tier == 'thorough' and n == 2 else 1024})
    for n, m in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 2)) + (((5, 3), (6, 2)) if tier == 'thorough' else ()):
        u.append({'t': 'equal', 'pop': n, 'n': m})
    for f in range(len(HOPS)):
        u.append({'t': 'hist', 'first': f, 'depth': 4 if tier == 'thorough' else 3})
    u += [{'t': 'bad'}, {'t': 'limit'}]
    return u


HOPS = ['p1', 'p2', 'p3', 't1', 't2', 't3', 'sample', 'rand', 'normal', 'seed', 'toobig', 'all']


def setup():
    from . import c32
    c32.setup()


def run_unit(unit, ctx):
    import numpy as np
    from . import c32
    if c32.KIT is None:
        ctx.note('the C sampler cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np, c32)


def quiet(f, *a):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def script(kit, words, doubles):
    import ctypes
    a = (ctypes.c_uint32*max(1, len(words)))(*words)
    d = (ctypes.c_double*max(1, len(doubles)))(*doubles)
    kit._lib.script_set(a, ctypes.c_long(len(words)), d, ctypes.c_long(len(doubles)))
    kit._lib.script_over.restype = ctypes.c_long
    return a, d


def exact(w, n):
    """Probability of every subset of n members under Sampford's scheme."""
    tot = sum(w)
    p = [Fr(x, tot) for x in w]
    r = [x/(1 - n*x) for x in p]
    out = {}
    for S in itertools.combinations(range(len(w)), n):
        t = Fr(0)
        for i in S:
            q = p[i]
            for j in S:
                if j != i:
                    q *= r[j]
            t += q
        out[S] = t
    z = sum(out.values())
    return {S: v/z for S, v in out.items()}, p, r


def compare(ctx, np, count, w, n, tol, case):
    ref, p, r = exact(w, n)
    # members of equal weight are exchangeable but still distinct: all subsets are compared
    tot = sum(count.values())
    for S, v in ref.items():
        got = count.get(S, 0)/tot
        if not abs(got - float(v)) <= tol:
            ctx.fail('the subset %r has probability %.6f, it should be %.6f' % (S, got, float(v)), case)
        ctx.outcome((w, n, S, round(got, 6)))
    for i in range(len(w)):
        got = sum(c for S, c in count.items() if i in S)/tot
        if not abs(got - n*float(p[i])) <= tol*len(ref):
            ctx.fail('member %d is in a subset with probability %.6f, it should be %.6f' % (i, got, n*float(p[i])), case)


def plain(unit, ctx, np, c32):
    m = c32.use(c32.KIT)
    w, n = unit['w'], unit['n']
    tot = sum(w)
    _, p, r = exact(w, n)
    rs = sum(r)
    k2 = 1
    for x in r:
        d = (x/rs).denominator
        from math import gcd
        k2 = k2*d//gcd(k2, d)
    items = ['m%d' % i for i in range(len(w))]
    pop = m.Population(items, [float(x) for x in w])
    pos = {it: i for i, it in enumerate(items)}
    count = {}
    case = {'weights': w, 'size': n}
    for seq in itertools.product(range(tot), *[range(k2)]*(n - 1)):
        u = [(seq[0] + .5)/tot] + [(s + .5)/k2 for s in seq[1:]]
        keep = script(c32.KIT, [], u)
        ctx.at((w, n, u))
        got = quiet(pop.subset_pps, n)
        ctx.step()
        look(ctx, got, n, pos, (w, n, u))
        if c32.KIT._lib.script_over() == 0:
            S = tuple(sorted(pos[g] for g in got))
            count[S] = count.get(S, 0) + 1
            ctx.trace()
        ctx.state((w, n, seq))
    if not count:
        ctx.fail('no sequence of draws gives a subset', case)
    compare(ctx, np, count, w, n, 1e-9, case)
    ctx.sample({'weights': w, 'size': n, 'cells': [tot, k2]})


def look(ctx, got, n, pos, case):
    got = list(got)
    if len(got) != n or len(set(got)) != n or any(g not in pos for g in got):
        ctx.fail('the subset is %r: not %d distinct members' % (got, n), case)


def table(unit, ctx, np, c32):
    m = c32.use(c32.KIT)
    w, n, k = unit['w'], unit['n'], unit['k']
    items = [(i, 'm') for i in range(len(w))]
    pos = {it: i for i, it in enumerate(items)}
    pop = m.Population(items, [float(x) for x in w])
    case = {'weights': w, 'size': n, 'scheme': '5 tables'}
    # the member chosen by each word of the lattice, in the first and in the later draws
    K1, step1, step2 = 256, 1 << 24, (1 << 32)//k
    off1, off2 = step1//2, step2//2
    if n <= 2:
        count, cells = {}, 0
        for a in range(K1):
            for b in (range(k) if n == 2 else (0,)):
                words = [a*step1 + off1] + ([b*step2 + off2] if n == 2 else [])
                ctx.at((w, n, words))
                if n == 2 and b % 16 and a % 16:
                    continue      # every pair of coarse cells, and each fine cell with every sixteenth cell of the other draw
                keep = script(c32.KIT, words, [])
                got = quiet(pop.subset_pps5, n)
                ctx.step()
                look(ctx, got, n, pos, (w, n, words))
                if c32.KIT._lib.script_over() == 0:
                    S = tuple(sorted(pos[g] for g in got))
                    wt = 1. if n == 1 else (1. if a % 16 == 0 else 0.)
                    count[S] = count.get(S, 0) + wt
                    ctx.trace()
                ctx.state((w, n, a, b))
        # the exact comparison uses the rows a = 0, 16, 32, ... with all fine cells
        compare(ctx, np, count, w, n, .06 if n == 2 else .02, case)
        pairs(unit, ctx, np, c32, pop, pos, items)
    else:
        pairs(unit, ctx, np, c32, pop, pos, items)
    ctx.sample(case)


def pairs(unit, ctx, np, c32, pop, pos, items):
    """Cells of the later draws per member, through pairs of draws; then every sequence of representatives."""
    w, n = unit['w'], unit['n']
    if n == 1:
        return
    kit = c32.KIT
    # a word of the first draw for each member: the weight sampler alone, one draw
    first = {}
    one = c32.use(kit).Population(items, [float(x) for x in w])
    cells = 64
    for a in range(cells):
        word = (a << 26) + (1 << 25)
        keep = script(kit, [word], [])
        got = quiet(one.sample, 1)
        if kit._lib.script_over() == 0:
            first.setdefault(pos[got[0]], word)
    if set(first) != set(range(len(w))):
        ctx.fail('the members that can come first are %r' % sorted(first), {'weights': w})
    fine = c32.use(kit).Population(items, [float(x) for x in w])
    if n == 2:
        # which member each lattice word adds after each first member (None: rejected as a duplicate)
        K, later = 2048, {}
        for i, word in first.items():
            for b in range(K):
                wb = b*((1 << 32)//K) + (1 << 31)//K
                keep = script(kit, [word, wb], [])
                got = quiet(fine.subset_pps5, n)
                ctx.step()
                d = later.setdefault(wb, {})
                d[i] = None
                if kit._lib.script_over() == 0:
                    add = [pos[g] for g in got if pos[g] != i]
                    if len(add) != 1:
                        ctx.fail('the first draw chose member %d, the subset is %r' % (i, got), {'weights': w, 'words': [word, wb]})
                    d[i] = add[0]
        _, p, r = exact(w, n)
        rs = sum(r)
        tally = [0]*len(w)
        for wb, d in later.items():
            adds = set(v for v in d.values() if v is not None)
            if len(adds) > 1:
                ctx.fail('one word adds different members after different first ones: %r' % d, {'weights': w, 'word': wb})
            j = adds.pop()
            if d[j] is not None or any(d[i] is None for i in d if i != j):
                ctx.fail('duplicates are not rejected, or others are: %r' % d, {'weights': w, 'word': wb})
            tally[j] += 1
        for j in range(len(w)):
            if not abs(tally[j]/K - float(r[j]/rs)) <= (len(w) + 1.)/K:
                ctx.fail('later draws choose member %d with probability %.5f, it should be %.5f' % (j, tally[j]/K, float(r[j]/rs)), {'weights': w, 'size': n})
        ctx.state((w, n, tuple(tally)))
        return
    # n = 3: words of the later draws on a lattice, all pairs, with one first word per member
    K = 96
    count = {}
    lat = [b*((1 << 32)//K) + (1 << 31)//K for b in range(K)]
    _, p, r = exact(w, n)
    for i, word in first.items():
        for x in lat:
            for y in lat:
                keep = script(kit, [word, x, y], [])
                ctx.at((w, n, word, x, y))
                got = quiet(fine.subset_pps5, n)
                ctx.step()
                look(ctx, got, n, pos, (w, n, word, x, y))
                if kit._lib.script_over() == 0:
                    S = tuple(sorted(pos[g] for g in got))
                    if i not in S:
                        ctx.fail('the first draw chose member %d, the subset is %r' % (i, got), {'weights': w})
                    count[S] = count.get(S, 0) + float(p[i])
                    ctx.trace()
                ctx.state((w, n, i, x, y))
    compare(ctx, np, count, w, n, .08, {'weights': w, 'size': n, 'scheme': '5 tables'})


def equal(unit, ctx, np, c32):
    m = c32.use(c32.KIT)
    N, n = unit['pop'], unit['n']
    k = 1
    from math import gcd
    for i in range(n):
        k = k*(N - i)//gcd(k, N - i)
    for made in ('count', 'items'):
        items = list(range(N)) if made == 'count' else ['i%d' % i for i in range(N)]
        pos = {it: i for i, it in enumerate(items)}
        for how in ('subset_pps', 'subset_pps5'):
            count = {}
            pop = m.Population(N) if made == 'count' else m.Population(items)
            case = {'population': N, 'size': n, 'call': how}
            for seq in itertools.product(range(k), repeat=n):
                u = [(s + .5)/k for s in seq]
                ctx.at((N, n, u))
                keep = script(c32.KIT, [int(x*2**32) for x in u], u)
                got = quiet(getattr(pop, how), n)
                ctx.step()
                look(ctx, got, n, pos, case)
                S = tuple(sorted(pos[g] for g in got))
                count[S] = count.get(S, 0) + 1
                ctx.state((N, n, seq, how))
                ctx.trace()
            subs = list(itertools.combinations(range(N), n))
            for S in subs:
                if not abs(count.get(S, 0)*len(subs) - k**n) <= 1e-6*k**n:
                    ctx.fail('the subset %r comes up %d times in %d, there are %d subsets' % (S, count.get(S, 0), k**n, len(subs)), case)
                ctx.outcome((N, n, S))


def hist(unit, ctx, np, c32):
    """Histories on the real generator: sizes, distinctness, repeatability, the shared stream; then the exact scheme once more."""
    W = [3, 2, 2, 2, 1]
    ITEMS = list('abcde')
    pos = {it: i for i, it in enumerate(ITEMS)}

    def play(m, h):
        np.random.seed(777)
        pop = m.Population(ITEMS, [float(x) for x in W])
        out = []
        for op in h:
            ctx.step()
            if op[0] in 'pt' and op[1:].isdigit():
                f = pop.subset_pps if op[0] == 'p' else pop.subset_pps5
                got = quiet(f, int(op[1:]))
                look(ctx, got, int(op[1:]), pos, {'history': h})
                out.append(list(got))
            elif op == 'sample':
                out.append(list(pop.sample(2)))
            elif op == 'rand':
                out.append(float(np.random.rand()))
            elif op == 'normal':
                out.append(float(np.random.standard_normal()))
            elif op == 'seed':
                np.random.seed(5)
            elif op == 'toobig':
                for f in (pop.subset_pps, pop.subset_pps5):
                    try:
                        got = quiet(f, 4)
                    except ValueError:
                        continue
                    ctx.fail('a subset of 4 was made: %r, but member a would have to be in it more than once' % (got,), {'history': h})
            elif op == 'all':
                got = quiet(pop.subset_pps, 5)
                if list(got) != ITEMS:
                    ctx.fail('the whole population is %r' % (got,), {'history': h})
        return out, pop

    def later(h, how, n):
        """Members that the draws after the first choose, and how often, after the history: one draw runs over a lattice, the others stand still."""
        m = c32.use(c32.KIT)
        _, p, r = exact(W, n)
        rs = float(sum(r))
        for base in ((.04, .35, .62, .93) if ctx.tier == 'thorough' else (.04, .93)):
            script(c32.KIT, [], [])
            _, pop = play(m, h)
            case = {'history': h, 'then': [how, n], 'first': base}
            if how == 'subset_pps':
                K, tol = (65 if n == 3 else 45), 1e-9
            else:
                K = 512 if ctx.tier == 'thorough' else 128
                tol = 6./K
            got = {}
            for still in ((.12, .35, .7, .9) if n == 3 else (None,)):
                count = {}
                for b in range(K):
                    u = [base, (b + .5)/K] + ([still] if n == 3 else [])
                    ctx.at((case, u))
                    keep = script(c32.KIT, [int(x*2**32) for x in u] if how == 'subset_pps5' else [], u if how == 'subset_pps' else [])
                    x = quiet(getattr(pop, how), n)
                    ctx.step()
                    look(ctx, x, n, pos, case)
                    if c32.KIT._lib.script_over() == 0:
                        S = frozenset(pos[g] for g in x)
                        count[S] = count.get(S, 0) + 1
                if not count:
                    continue        # the two draws that stand still chose the same member
                fixed = frozenset.intersection(*count)
                if len(fixed) != n - 1:
                    ctx.fail('the draws that stand still gave the members %r' % sorted(fixed), case)
                for j in range(len(W)):
                    if j not in fixed:
                        c = count.get(fixed | {j}, 0)/K
                        if not abs(c - float(r[j])/rs) <= tol:
                            ctx.fail('a later draw chooses member %d with probability %.5f, it should be %.5f' % (j, c, float(r[j])/rs), case)
                        ctx.outcome((how, n, j))
                got[still] = 1
            if not got:
                ctx.fail('no subsets were made', case)

    def cells(h):
        for n in (2, 3):
            for how in ('subset_pps', 'subset_pps5'):
                later(h, how, n)

    def rec(h):
        case = {'history': h}
        ctx.at(case)
        m = c32.use(c32.REAL)
        x, _ = play(m, h)
        ctx.state(h)
        ctx.trace()
        y, _ = play(m, h)
        if x != y:
            ctx.fail('the same calls from the same seed gave %r and %r' % (x, y), case)
        ctx.outcome(x)
        if len(h) > 1 and h[-1] == 'normal' and h[0] == 'normal' and 'seed' not in h:
            # the second deviate of a pair NumPy made is not lost
            st = np.random.RandomState(777)
            st.standard_normal()
            if h.count('normal') == 2 and not abs(x[-1] - float(st.standard_normal())) <= 1e-12:
                ctx.fail('a normal deviate NumPy had in store was lost', case)
        if len(h) <= 2:
            cells(h)
        if len(h) < unit['depth']:
            for op in HOPS:
                rec(h + (op,))
    rec((HOPS[unit['first']],))


def bad(unit, ctx, np, c32):
    m = c32.use(c32.KIT)
    for made in ('weights', 'equal'):
        for before in ((), ('subset_pps', 2), ('subset_pps5', 2), ('sample', 3)):
            for n in (0, -1, 6, 100):
                for how in ('subset_pps', 'subset_pps5'):
                    pop = m.Population(list('abcde'), [1., 2., 2., 2., 1.]) if made == 'weights' else m.Population(5)
                    if before:
                        if before[0] == 'sample' and made == 'equal':
                            continue
                        script(c32.KIT, [], [])
                        quiet(getattr(pop, before[0]), before[1])
                    case = {'made': made, 'before': before, 'size': n, 'call': how}
                    ctx.at(case)
                    ctx.step()
                    ctx.state((made, before, n, how))
                    try:
                        got = quiet(getattr(pop, how), n)
                    except Exception:
                        ctx.trace()
                        continue
                    ctx.fail('a subset of size %d was accepted: %r' % (n, got), case)
    for w in ([1., 2., 3.], [3., 2., 3.], [1., .3, .3, .3], [5., 5.], [1., 1., 1., 1.], [.3, .2, .2, .2, .1]):
        pop = m.Population(weights=w)
        exp = [int(sum(w)/max(w) + d) for d in (1e-9, -1e-9)]
        ctx.step()
        if pop.max_subset() not in exp:
            ctx.fail('the largest subset is said to have %r members' % pop.max_subset(), {'weights': w})
        for n in range(1, len(w)):
            if n*max(w) < sum(w)*(1 - 1e-12):
                script(c32.KIT, [], [])
                quiet(pop.subset_pps, n)
                if pop.max_subset() not in exp:
                    ctx.fail('after a subset of %d the largest subset is said to have %r members' % (n, pop.max_subset()), {'weights': w})


def limit(unit, ctx, np, c32):
    """The largest size allowed, where a member must be in every subset: it is answered, and with that member in it."""
    import os
    import select
    import time
    m = c32.use(c32.REAL)
    for w, n in (([2., 1., 1., 1., 1.], 3), ([2., 1., 1.], 2), ([2., 2., 1., 1., 1., 1.], 4)):
        for how in ('subset_pps', 'subset_pps5'):
            case = {'weights': w, 'size': n, 'call': how}
            key = 'at-limit-%s-%d-%s' % ('-'.join('%g' % x for x in w), n, how)
            ctx.at(case)
            ctx.step()
            ctx.state((w, n, how))
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (2, 2))
                try:
                    np.random.seed(3)
                    pop = m.Population(weights=w)
                    got = [sorted(int(i) for i in quiet(getattr(pop, how), n)) for _ in range(50)]
                    os.write(wr, repr(got).encode())
                except ValueError:
                    os.write(wr, b'ValueError')
                finally:
                    os._exit(0)
            os.close(wr)
            out = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                out += b
            os.close(r)
            os.waitpid(pid, 0)
            must = [i for i, x in enumerate(w) if n*x == sum(w)]
            if out == b'ValueError':
                continue
            if not out:
                ctx.fail('no answer for the largest subset size allowed', case, key=key)
                continue
            got = eval(out.decode())
            for s in got:
                if len(set(s)) != n or any(i not in s for i in must):
                    ctx.fail('the subset %r lacks a member that must be in every subset of this size' % (s,), case, key=key)
                    break
