"""C32: sampling a weighted population with replacement: every 30-bit random word, and all histories of draws sharing NumPy's generator."""
import itertools

PROP = 'C32'
LEVEL = 'model_checking'
RULE = ('for each weight table, every one of the 2^30 random words the sampler can draw is fed to it by a scripted generator and the members chosen are counted; every short sequence of words chosen per member '
        'is replayed through the population object; and every history up to the depth bound of draws from one or two populations, of NumPy draws and of re-seeding is run on the real generator')
ASSUMPTIONS = ['the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; when that is impossible the check says so and decides only the Python part with a stand-in',
               'weights are non-negative', 'probabilities are held to 30 bits, as documented']

WTS = [[.1, .2, .3, .4], [1.], [3., 0., 1.], [1., 1e-6, 2.], [1./3, 1./3, 1./3], [5., 1., 0., 2.5, 1e-9], [1e-300, 2e-300], [7., 1.]]
MORE = [[0., 0., 2.], [1., 1e-20], [1e300, 1e299, 1e298], [float(i) for i in range(1, 9)], [2.**-i for i in range(12)], [1.]*64, [1.]*63 + [2.], [.999999999, 1e-9], [1e-9, .999999999],
        [1. + (i*7 % 13) for i in range(200)], [10.**-(i % 9) for i in range(50)], [64., 1., 1.], [4096., 64., 1.], [1., 0.], [0., 1.], [1e-12]*3 + [1.]]
FULL = 1 << 30


def units(tier):
    w = WTS + (MORE if tier == 'thorough' else [])
    u = [{'t': 'full', 'w': x} for x in w]
    u += [{'t': 'map', 'w': x} for x in WTS + MORE]
    u += [{'t': 'bad'}]
    for k in range(len(OPS)):
        u.append({'t': 'hist', 'first': k, 'depth': 6 if tier == 'thorough' else 5})
    return u


OPS = ['a1', 'a3', 'b2', 'rand', 'normal', 'seed1', 'seed2']


def setup():
    from vmc import cext
    global KIT, REAL
    KIT = REAL = None
    try:
        KIT = cext.sampler(True)
        REAL = cext.sampler(False)
    except cext.CannotBuild:
        KIT = REAL = None


def use(ext):
    """Make the population module use the given build of the extension."""
    import sys
    sys.modules['_ppssampler'] = ext
    import inference.mc.population as p
    for n in ('_ppssampler', 'equalprob', 'set_rng_state', 'get_rng_state'):
        setattr(p, n, getattr(ext, n))
    return p


def run_unit(unit, ctx):
    import numpy as np
    if KIT is None:
        ctx.note('the C sampler cannot be compiled here: not decided')
        return
    globals()[unit['t']](unit, ctx, np)


def script(words):
    import ctypes
    a = (ctypes.c_uint32*max(1, len(words)))(*words)
    KIT._lib.script_set(a, ctypes.c_long(len(words)), None, ctypes.c_long(0))
    return a


def full(unit, ctx, np):
    import ctypes
    w = unit['w']
    case = {'weights': w}
    ctx.at(case)
    s = KIT._ppssampler(np.array(w))
    lib = KIT._lib
    lib.script_counter.restype = ctypes.c_ulong
    lib.script_count(ctypes.c_ulong(0))
    n, chunk, done = np.zeros(len(w), int), 1 << 22, 0
    while done < FULL:
        k = s.sample(chunk)
        if k.min() < 0 or k.max() >= len(w):
            ctx.fail('a member that does not exist was chosen: %r' % (k[(k < 0) | (k >= len(w))][0],), case)
        n += np.bincount(k, minlength=len(w))
        done += chunk
        ctx.step(chunk)
    tot = sum(w)
    for i, x in enumerate(w):
        ctx.state((w, i))
        if x == 0. and n[i]:
            ctx.fail('member %d has no weight but was chosen for %d words' % (i, n[i]), case)
        exp = FULL*(x/tot)
        if not abs(n[i] - exp) <= len(w) + 2:
            ctx.fail('member %d was chosen for %d of the 2^30 words, its weight is worth %.1f' % (i, n[i], exp), case)
        ctx.outcome((w, i, int(n[i])))
    ctx.trace()
    ctx.sample({'weights': w, 'words_per_member': [int(v) for v in n[:8]]})


def map(unit, ctx, np):
    """Representative words of each member, replayed in every order through the population object."""
    p = use(KIT)
    w = unit['w']
    items = ['m%d' % i for i in range(len(w))]
    rep = {}
    grid = list(range(0, 1 << 30, (1 << 30)//4096)) + list(range((1 << 30) - 5000, 1 << 30, 7)) + list(range((1 << 30) - 400000, 1 << 30, 301))
    s = KIT._ppssampler(np.array(w))
    for j in grid:
        keep = script([j << 2])
        i = int(s.sample(1)[0])
        if KIT._lib.script_over() == 0:
            rep.setdefault(i, j)
        ctx.step()
    for i in rep:
        if not 0 <= i < len(w) or w[i] == 0.:
            ctx.fail('member %r was chosen' % i, {'weights': w})
    for i, x in enumerate(w):
        if x/sum(w) > 1e-3 and i not in rep:
            ctx.fail('no word of the lattice chooses member %d' % i, {'weights': w})
    ids = sorted(rep)[:5]
    for mk in ('items', 'index', 'array'):
        pop = p.Population(items, w) if mk == 'items' else p.Population(weights=list(w)) if mk == 'index' else p.Population(np.array([2.5*i for i in range(len(w))]), np.array(w))
        for n in (1, 2, 3, 4):
            for seq in itertools.product(ids, repeat=n):
                case = {'weights': w, 'made': mk, 'members': seq}
                ctx.at(case)
                keep = script([(rep[i] << 2) | (n & 3) for i in seq])
                got = list(pop.sample(n))
                exp = [items[i] if mk == 'items' else i if mk == 'index' else 2.5*i for i in seq]
                if len(got) != n or any(a != b for a, b in zip(got, exp)):
                    ctx.fail('got %r, the words drawn choose %r' % (got, exp), case)
                ctx.state((w, mk, seq))
                ctx.step()
                ctx.trace()
        ctx.outcome((w, mk))


def bad(unit, ctx, np):
    p = use(KIT)
    for n in (0, -1, -5):
        case = {'nsamp': n}
        ctx.at(case)
        ctx.step()
        pop = p.Population(list('abc'), [1., 2., 3.])
        try:
            got = pop.sample(n)
        except Exception:
            continue
        ctx.fail('a sample of size %d was accepted: %r' % (n, got), case)
    for w in ([0., 0.], [0.]):
        case = {'weights': w}
        ctx.at(case)
        for _ in range(20):
            ctx.step()
            try:
                got = p.Population(weights=w).sample(1)
            except SystemError as e:
                ctx.fail('the sampler failed without saying why: %s' % e, case)
            except Exception:
                continue
            ctx.fail('a population without weight was sampled: %r' % (got,), case)
    for items, w in ((['a'], [1., 2.]), (['a', 'b', 'c'], [1., 2.])):
        ctx.at((items, w))
        ctx.step()
        try:
            p.Population(items, w)
        except Exception:
            continue
        ctx.fail('%d items with %d weights were accepted' % (len(items), len(w)), {'items': items, 'weights': w})
    for w in ([1, 2, 3], (1, 2, 3), np.array([1, 2, 3]), np.array([1., 9., 2., 9., 3.])[::2]):
        ctx.at(repr(w))
        keep = script([0, 0xffffffff >> 1, 0xfffffff0])
        a = p.Population(list('abc'), w).sample(3)
        keep = script([0, 0xffffffff >> 1, 0xfffffff0])
        b = p.Population(list('abc'), [1., 2., 3.]).sample(3)
        ctx.step()
        if list(a) != list(b):
            ctx.fail('weights given as %s choose %r, as floats %r' % (type(w).__name__, a, b), {'weights': repr(w)})
    ctx.state('bad')


def hist(unit, ctx, np):
    p = use(REAL)
    ITEMS, WA, WB = list('uvwxyz'), [3., 1., 2., 5., 1., 4.], [1., 1., 6.]

    def play(h):
        """Run a history; return everything observed, as a flat list by kind."""
        np.random.seed(12345)
        a, b = p.Population(ITEMS, WA), p.Population(weights=WB)
        out = []
        for op in h:
            if op == 'a1':
                out.append(('a', a.sample(1)))
            elif op == 'a3':
                out.append(('a', a.sample(3)))
            elif op == 'b2':
                out.append(('b', b.sample(2)))
            elif op == 'rand':
                out.append(('r', [float(x) for x in np.random.rand(2)]))
            elif op == 'normal':
                out.append(('n', [float(np.random.standard_normal())]))
            else:
                np.random.seed(int(op[4:]))
            ctx.step()
        return out

    cache = {}

    def split(h):
        """The same history with every multiple draw made singly."""
        np.random.seed(12345)
        a, b = p.Population(ITEMS, WA), p.Population(weights=WB)
        out = []
        for op in h:
            if op[0] in 'ab':
                q, n = (a, int(op[1])) if op[0] == 'a' else (b, int(op[1]))
                out.append((op[0], [q.sample(1)[0] for _ in range(n)]))
            elif op == 'rand':
                out.append(('r', [float(np.random.rand()), float(np.random.rand())]))
            elif op == 'normal':
                out.append(('n', [float(np.random.standard_normal())]))
            else:
                np.random.seed(int(op[4:]))
            ctx.step()
        return out

    def words(h):
        """The same stream taken straight from NumPy: one 32-bit word per member drawn."""
        st = np.random.RandomState(12345)
        out = []
        for op in h:
            if op[0] in 'ab':
                for _ in range(int(op[1])):
                    st.bytes(4)
            elif op == 'rand':
                out.append([float(x) for x in st.rand(2)])
            elif op == 'normal':
                out.append([float(st.standard_normal())])
            else:
                st = np.random.RandomState(int(op[4:]))
        return out

    def rec(h):
        case = {'history': h}
        ctx.at(case)
        x = play(h)
        ctx.state(h)
        ctx.trace()
        if len(h) == unit['depth']:
            if play(h) != x:
                ctx.fail('the same draws from the same seed gave different results', case)
            y = split(h)
            if y != x:
                ctx.fail('drawing members one at a time gave %r, together %r' % (y, x), case)
            z = words(h)
            if z != [v for k, v in x if k in 'rn']:
                ctx.fail('NumPy draws between samples are not those of the shared generator: %r, expected %r' % ([v for k, v in x if k in 'rn'], z), case)
            ctx.outcome(x)
            return
        for op in OPS:
            rec(h + (op,))
    rec((OPS[unit['first']],))
    ctx.sample({'first': OPS[unit['first']], 'depth': unit['depth']})
