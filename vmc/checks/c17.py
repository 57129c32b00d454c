"""C17: saving and restoring the state of the random number generator."""
import itertools

PROP = 'C17'
LEVEL = 'model_checking'
RULE = ('all histories of draws (uniform, integer, normal one and two at a time, arrays), reseeding, saves and restores (two files, default name included) on real files in a scratch '
        'directory; the reference keeps copies of the complete generator state at each save; after every history the stream that follows is compared with the one the reference state gives, '
        'draw by draw, and the three versions of each file are restored and compared')
ASSUMPTIONS = ["NumPy's legacy generator, the one the package uses", 'histories are not merged']

DRAWS = {'u': lambda r: r.random_sample(), 'i': lambda r: r.randint(0, 1000), 'n': lambda r: r.normal(), 'n2': lambda r: r.standard_normal(2).tolist(),
         'n3': lambda r: r.normal(2., 3., 3).tolist(), 'e': lambda r: r.exponential(), 'big': lambda r: r.random_sample(700).tolist()}
OPS = [('u',), ('n',), ('n3',), ('i',), ('seed', 7), ('save', 'F'), ('restore', 'F'), ('save', None), ('restore', None), ('big',)]


def units(tier):
    return [{'first': [i, j], 'depth': 5 if tier == 'thorough' else 4} for i in range(len(OPS)) for j in range(len(OPS))]


def run_unit(unit, ctx):
    import os
    import shutil
    import tempfile
    import numpy as np
    from inference.utils import rng
    root = tempfile.mkdtemp(prefix='vmc17.')
    cwd = os.getcwd()
    PROBE = ['n', 'u', 'n2', 'i', 'n', 'e', 'n3']
    n = [0]

    def fname(f):
        return () if f is None else (('file.rng',) if f == 'F' else (f,))

    def run(hist):
        n[0] += 1
        d = os.path.join(root, 'w%d' % n[0])
        os.mkdir(d)
        os.chdir(d)
        np.random.seed(42)
        ref = np.random.RandomState(42)
        saved = {None: [], 'F': []}
        for j, op in enumerate(hist):
            k = op[0]
            if k in DRAWS:
                a, b = DRAWS[k](np.random), DRAWS[k](ref)
                if a != b:
                    ctx.fail('draw %r gives %r, the stream at this point gives %r, in %r' % (k, a, b, list(hist[:j + 1])), hist)
            elif k == 'seed':
                np.random.seed(op[1])
                ref.seed(op[1])
            elif k == 'save':
                rng.save_rng(*fname(op[1]))
                saved[op[1]].insert(0, ref.get_state())
            elif k == 'restore':
                rng.restore_rng(*fname(op[1]), notify=False)
                if saved[op[1]]:
                    ref.set_state(saved[op[1]][0])
                else:
                    saved[op[1]].insert(0, ref.get_state())
            ctx.step()
        # what each file restores to
        now = np.random.get_state()
        for f, st in saved.items():
            base = '.numpy-rng-state' if f is None else 'file.rng'
            for i, suffix in enumerate(('', '.1', '.2')):
                p = base + suffix
                if os.path.exists(p) != (i < len(st)):
                    ctx.fail('%s %s after %d saves, in %r' % (p, 'exists' if os.path.exists(p) else 'is missing', len(st), list(hist)), hist)
                if i < len(st):
                    np.random.seed(1000 + i)
                    np.random.normal()
                    rng.restore_rng(p, i != 1)
                    ref2 = np.random.RandomState()
                    ref2.set_state(st[i])
                    for k in PROBE:
                        a, b = DRAWS[k](np.random), DRAWS[k](ref2)
                        if a != b:
                            ctx.fail('restoring %s gives %r for a %r draw, after the save it was %r; history %r' % (p, a, k, b, list(hist)), hist)
        np.random.set_state(now)
        for k in PROBE:
            a, b = DRAWS[k](np.random), DRAWS[k](ref)
            if a != b:
                ctx.fail('the stream after %r gives %r for a %r draw, expected %r' % (list(hist), a, k, b), hist)
        ctx.trace()
        s = ref.get_state()
        ctx.state((s[2:], s[1].tobytes(), [len(v) for v in saved.values()]))
        ctx.outcome((s[2:], [len(v) for v in saved.values()]))
        os.chdir(root)
        shutil.rmtree(d)

    try:
        pre = tuple(OPS[i] for i in unit['first'])
        for depth in range(unit['depth'] - 1):
            for t in itertools.product(OPS, repeat=depth):
                h = pre + t
                ctx.at(h)
                run(h)
        # longer histories of saves
        if unit['first'] == [0, 0]:
            for m in range(1, 8):
                for k in ('u', 'n', 'n3', 'big'):
                    for f in ('F', None):
                        run((('save', f), (k,))*m)
                        run((('n',), ('save', f), (k,), ('restore', f))*m)
        ctx.sample([list(o) for o in h])
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
