"""C15: array and attribute stores are persistent dictionaries."""
import itertools

PROP = 'C15'
LEVEL = 'model_checking'
RULE = ('all histories of make/open/assign/read/list/refused assign/save/save-as over two live stores and two file names (given with and without suffix, '
        'relative and absolute), executed on real files in a scratch directory; after every operation all files and backups are read back independently of the '
        'code under test, and at the end of every history every store is listed and read completely and every archive is reopened; the reference keeps plain dictionaries')
ASSUMPTIONS = ['beyond the unmerged depth, histories are merged when the reference states, including which names each store has read or assigned, are equal',
               'names do not start with _ and are not methods of the store']

ABS = {'arr': '.npz', 'att': '.pkl'}


def values(kind):
    import numpy as np
    arrs = [np.array([1, 2, 3]), np.array([[1., np.nan], [3., -0.]]), np.zeros(0), np.array(5.), np.arange(24.).reshape(2, 3, 4)[:, ::2],
            np.array(['a', 'bcd']), np.array([True, False]), np.array([1 + 2j]), np.array([{'x': 1}, None, (1, 2)], dtype=object), np.asfortranarray(np.arange(6).reshape(2, 3)),
            np.array([(1, 2.5)], dtype=[('i', int), ('f', float)]), np.arange(5000, dtype=np.int16), np.array([0.])]
    if kind == 'arr':
        return arrs
    return [1, 0, '', None, False, [], {}, 2.5, 'text', [1, [2, (3,)]], {'k': {'n': 1}}, set([1, 2]), b'\x00\xff', float('inf')] + arrs[:4] + arrs[8:9]


NAMES = ['a', 'b', 'longer_name', 'files', 'f', 'new', 'fname', 'x1', 'archive', 'keys', 'arr_0', 'name', 'args']


def alphabet(kind):
    ops = []
    for s in (0, 1):
        ops += [('new', s), ('open', s, 'F'), ('open', s, 'Fx'), ('set', s, 'a', 0), ('set', s, 'a', 1), ('set', s, 'b', 2), ('read', s, 'a'), ('read', s, 'b'),
                ('save', s, None), ('save', s, 'F'), ('save', s, 'Gx'), ('bad', s)]
    ops += [('open', 0, 'G'), ('list', 0), ('read', 0, 'zz'), ('save', 1, 'Fx')]
    return ops


def units(tier):
    u = []
    for kind in ('arr', 'att'):
        u.append({'kind': kind, 'values': True})
        ops = alphabet(kind)
        starts = [[], [('new', 0), ('set', 0, 'a', 0), ('save', 0, 'F')], [('new', 0), ('set', 0, 'a', 0), ('set', 0, 'b', 2), ('save', 0, 'F'), ('open', 1, 'F')],
                  [('new', 0), ('set', 0, 'a', 1), ('save', 0, 'Fx'), ('save', 0, 'Gx'), ('set', 0, 'b', 2), ('save', 0, 'F'), ('open', 0, 'F'), ('open', 1, 'G')]]
        for si, st in enumerate(starts):
            for i in range(len(ops)):
                u.append({'kind': kind, 'start': [list(o) for o in st], 'first': [i], 'depth': (3 if tier == 'thorough' else 2) - (si % 2), 'merge': 2, 'path': si % 2})
        # longer histories on one store, merged
        for i in range(12):
            u.append({'kind': kind, 'start': [], 'first': [i], 'depth': 6 if tier == 'thorough' else 4, 'merge': 1, 'path': 0, 'one': True})
    return u


def run_unit(unit, ctx):
    import copy
    import os
    import pickle
    import shutil
    import tempfile
    import numpy as np
    from inference.utils.ioutils import ArrayStore, AttrStore
    kind = unit['kind']
    cls = ArrayStore if kind == 'arr' else AttrStore
    ext = ABS[kind]
    V = values(kind)
    root = tempfile.mkdtemp(prefix='vmc15.')
    cwd = os.getcwd()

    def same(x, y):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)) or x.dtype != y.dtype or x.shape != y.shape:
                return False
            if x.dtype == object:
                return x.tolist() == y.tolist()
            return x.tobytes() == y.tobytes() or bool((x == y).all())
        return type(x) is type(y) and x == y

    def samedict(x, y):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)

    def load(p):
        """Read an archive with numpy/pickle alone."""
        if kind == 'arr':
            with open(p, 'rb') as f:
                z = np.load(f, allow_pickle=True)
                return {k: z[k] for k in z.files}
        with open(p, 'rb') as f:
            return pickle.load(f)

    class World:
        pass

    n = [0]

    def build():
        w = World()
        n[0] += 1
        w.dir = os.path.join(root, 'w%d' % n[0])
        os.mkdir(w.dir)
        os.chdir(w.dir)
        w.files = {}               # base name -> list of versions, newest first (at most 3)
        w.st = [None, None]        # (real store, model)
        return w

    def done(w):
        os.chdir(root)
        w.st = None
        shutil.rmtree(w.dir)

    def fname(w, code):
        base = {'F': 'v1.2', 'G': 'other.npz.old.pkl.bak'}[code[0]]
        p = base + (ext if code.endswith('x') else '')
        return (os.path.join(w.dir, p) if unit.get('path') else p), base

    def vis(m):
        d = dict(m['arch'] or {})
        d.update(m['new'])
        return d

    def apply(w, op, hist):
        k, s = op[0], op[1]
        pair = w.st[s]
        if k == 'new':
            w.st[s] = (cls(), {'base': None, 'arch': None, 'new': {}, 'read': set(), 'savedas': False})
            return
        if k == 'kw':
            kw = {nm: V[i] for nm, i in op[2]}
            w.st[s] = (cls(**kw), {'base': None, 'arch': None, 'new': kw, 'read': set(), 'savedas': False})
            return
        if k == 'open':
            p, base = fname(w, op[2])
            err = st = None
            try:
                st = cls(p)
            except Exception as e:
                err = e
            if (base in w.files) == (err is not None):
                ctx.fail('opening %r: %r, the archive %s' % (p, err, 'exists' if base in w.files else 'does not exist'), hist)
            if err is None:
                w.st[s] = (st, {'base': base, 'arch': dict(w.files[base][0]), 'new': {}, 'read': set(), 'savedas': False})
            return
        if k == 'openkw':
            p, base = fname(w, op[2])
            kw = {nm: V[i] for nm, i in op[3]}
            w.st[s] = (cls(p, **kw), {'base': base, 'arch': dict(w.files[base][0]), 'new': dict(kw), 'read': set(), 'savedas': False})
            return
        if pair is None:
            return False
        st, m = pair
        if k == 'set':
            setattr(st, op[2], copy.deepcopy(V[op[3]]))
            m['new'][op[2]] = V[op[3]]
        elif k == 'mut':
            # change a value in place: the reference holds a changed copy
            v = copy.deepcopy(vis(m)[op[2]])
            for x in (getattr(st, op[2]), v):
                if isinstance(x, np.ndarray):
                    x[...] = x[::-1].copy()
                    x.flat[0] = 7
                elif isinstance(x, list):
                    x.append('more')
                elif isinstance(x, dict):
                    x['more'] = 1
                elif isinstance(x, set):
                    x.add('more')
                else:
                    return False
            m['new'][op[2]] = v
        elif k == 'read':
            want = vis(m)
            m['read'].add(op[2])
            try:
                got = getattr(st, op[2])
            except AttributeError:
                if op[2] in want:
                    ctx.fail('reading %r is refused, its value is %r' % (op[2], want[op[2]]), hist)
                return
            if op[2] not in want or not same(got, want[op[2]]):
                ctx.fail('reading %r gives %r, the store holds %r' % (op[2], got, want.get(op[2])), hist)
        elif k == 'list':
            if sorted(st.contents()) != sorted(vis(m)):
                ctx.fail('contents %r, the store holds %r' % (st.contents(), sorted(vis(m))), hist)
        elif k == 'bad':
            if kind != 'arr':
                return False
            for nm, v in (('a', [1, 2]), ('c', 3.), ('b', None)):
                try:
                    setattr(st, nm, v)
                except ValueError:
                    continue
                ctx.fail('assigning %r to an array store is accepted' % (v,), hist)
        elif k == 'save':
            if op[2] is None:
                if m['base'] is None and m['savedas']:
                    return False
                base, args = m['base'], ()
            else:
                p, base = fname(w, op[2])
                args = (p,)
            err = None
            try:
                st.save(*args)
            except Exception as e:
                err = e
            if (base is None) != (err is not None):
                ctx.fail('save %r: %r' % (args, err), hist)
            if err is None:
                old = w.files.get(base)
                if old is None:
                    w.files[base] = [vis(m)]
                else:
                    w.files[base] = [vis(m)] + old[:2]
                m['savedas'] = m['savedas'] or op[2] is not None

    def check_files(w, hist):
        want = {}
        for base, vers in w.files.items():
            for i, d in enumerate(vers):
                want[base + ext + '%'*i] = d
        have = sorted(os.listdir(w.dir))
        if have != sorted(want):
            ctx.fail('files %r, expected %r after %r' % (have, sorted(want), list(hist)), hist)
        for f, d in want.items():
            got = load(os.path.join(w.dir, f))
            if not samedict(got, d):
                ctx.fail('%s holds %r, expected %r after %r' % (f, got, d, list(hist)), hist)

    def check(w, hist):
        check_files(w, hist)
        for s in (0, 1):
            if w.st[s] is None:
                continue
            st, m = w.st[s]
            want = vis(m)
            c = list(st.contents())
            if sorted(c) != sorted(want):
                ctx.fail('contents %r, the store holds %r, after %r' % (c, sorted(want), list(hist)), hist)
            for nm in list(want) + ['zz']:
                try:
                    got = getattr(st, nm)
                except AttributeError:
                    got = AttributeError
                if (got is AttributeError) != (nm not in want) or (nm in want and not same(got, want[nm])):
                    ctx.fail('%s of store %d is %r, expected %r, after %r' % (nm, s, got, want.get(nm), list(hist)), hist)
            c = list(st.contents())
            if sorted(c) != sorted(want):
                ctx.fail('contents after reading %r, the store holds %r, after %r' % (c, sorted(want), list(hist)), hist)
        for base, vers in w.files.items():
            for suffix in ('', ext):
                st = cls(base + suffix)
                for nm, v in vers[0].items():
                    if not same(getattr(st, nm), v):
                        ctx.fail('reopened %s has %s = %r, saved %r, after %r' % (base + suffix, nm, getattr(st, nm), v, list(hist)), hist)
                if sorted(st.contents()) != sorted(vers[0]):
                    ctx.fail('reopened contents %r, saved %r' % (st.contents(), sorted(vers[0])), hist)
        check_files(w, hist)

    def key(w):
        def d(x):
            return None if x is None else sorted((k, repr(v)[:60]) for k, v in x.items())
        return repr([[(b, [d(v) for v in vs]) for b, vs in sorted(w.files.items())],
                     [None if p is None else (p[1]['base'], p[1]['savedas'], d(p[1]['arch']), d(p[1]['new']), sorted(p[1]['read'])) for p in w.st]])

    def explore(prefix, ops, depth, unmerged):
        seen = set()

        def replay(hist, npre):
            w = build()
            for i, op in enumerate(hist):
                if apply(w, op, hist[:i + 1]) is False:
                    return w, False
                if i >= npre - 1:
                    check_files(w, hist[:i + 1])
            return w, True

        frontier = [tuple(prefix)]
        for lvl in range(depth + 1):
            nxt = []
            for hist in frontier:
                ctx.at(hist)
                w, ok = replay(hist, len(hist))
                if ok:
                    k = key(w)
                    check(w, hist)
                    ctx.step()
                    ctx.trace()
                    ctx.state(k)
                    ctx.outcome(k)
                    if lvl < unmerged or k not in seen:
                        seen.add(k)
                        if lvl < depth:
                            nxt += [hist + (op,) for op in ops]
                done(w)
            frontier = nxt
        ctx.sample({'last': [list(o) for o in hist]})

    try:
        os.chdir(root)
        if unit.get('values'):
            # every value under every kind of name; pairs of values superseding each other
            for i in range(len(V)):
                for nm in NAMES:
                    for sfx in ('F', 'Gx'):
                        h = (('new', 0), ('set', 0, nm, i), ('save', 0, sfx), ('open', 1, 'F' if sfx == 'F' else 'G'), ('save', 1, None))
                        ctx.at(h)
                        w = build()
                        for j, op in enumerate(h):
                            apply(w, op, h[:j + 1])
                        check(w, h)
                        done(w)
                        ctx.step(5)
                        ctx.trace()
                        ctx.state((i, nm, sfx))
            # a name that an archive cannot hold is refused, or held like any other; it is never dropped silently
            for i in range(len(V)):
                for pre in ((), (('set', 0, 'a', 0),), (('set', 0, 'a', 0), ('save', 0, 'F'))):
                    h = (('new', 0),) + pre
                    w = build()
                    for j, op in enumerate(h):
                        apply(w, op, h[:j + 1])
                    ctx.step()
                    ctx.state(('file', i, pre))
                    try:
                        setattr(w.st[0][0], 'file', V[i])
                    except Exception:
                        check(w, h + (('file refused', i),))
                        w2 = h + (('set', 0, 'b', i), ('save', 0, 'G'), ('open', 1, 'G'))
                        for op in w2[len(h):]:
                            apply(w, op, w2)
                        check(w, w2)
                    else:
                        st = w.st[0][0]
                        st.save(os.path.join(os.getcwd(), 'keepfile'))
                        if 'file' not in type(st)(os.path.join(os.getcwd(), 'keepfile')).contents():
                            ctx.fail('the assignment of an attribute named "file" was accepted, and it is missing from the archive', h + (('set', 'file', i),))
                    done(w)
                    ctx.trace()
            for i, j in itertools.product(range(len(V)), repeat=2):
                for rd in (False, True):
                    h = (('new', 0), ('set', 0, 'a', i), ('set', 0, 'b', j), ('save', 0, 'F'), ('open', 1, 'F')) + ((('read', 1, 'a'),) if rd else ()) + (
                        ('set', 1, 'a', j), ('save', 1, None), ('open', 0, 'Fx'), ('set', 0, 'c', i), ('save', 0, 'G'))
                    ctx.at(h)
                    w = build()
                    for k, op in enumerate(h):
                        apply(w, op, h[:k + 1])
                    check(w, h)
                    done(w)
                    ctx.step(len(h))
                    ctx.trace()
                    ctx.state((i, j, rd))
            # values changed in place, after assignment or after reading: what is saved is what reads return
            for i in range(len(V)):
                if kind == 'arr' and (V[i].ndim == 0 or not V[i].size or V[i].dtype.kind not in 'ifcb') or kind == 'att' and not isinstance(V[i], (list, dict, set, np.ndarray)):
                    continue
                if isinstance(V[i], np.ndarray) and (V[i].ndim == 0 or not V[i].size or V[i].dtype == object):
                    continue
                pre = (('new', 0), ('set', 0, 'a', i), ('set', 0, 'b', 0))
                for h in (pre + (('mut', 0, 'a'), ('save', 0, 'F'), ('open', 1, 'F')),
                          pre + (('save', 0, 'F'), ('mut', 0, 'a'), ('save', 0, 'F'), ('open', 1, 'F')),
                          pre + (('save', 0, 'F'), ('open', 1, 'F'), ('mut', 1, 'a'), ('save', 1, None), ('open', 0, 'F')),
                          pre + (('save', 0, 'F'), ('open', 1, 'F'), ('mut', 1, 'a'), ('set', 1, 'b', i), ('save', 1, 'G'), ('mut', 1, 'a'), ('save', 1, None), ('open', 0, 'G'))):
                    ctx.at(h)
                    w = build()
                    for k, op in enumerate(h):
                        apply(w, op, h[:k + 1])
                        check_files(w, h[:k + 1])
                    check(w, h)
                    done(w)
                    ctx.step(len(h))
                    ctx.trace()
                    ctx.state(('mut', i, h))
            if kind == 'att':
                for i, j in itertools.product(range(len(V)), repeat=2):
                    h = (('new', 0), ('set', 0, 'a', i), ('set', 0, 'b', 0), ('save', 0, 'F'), ('openkw', 1, 'F', (('a', j), ('c', i))), ('save', 1, None), ('open', 0, 'F'))
                    ctx.at(h)
                    w = build()
                    for k, op in enumerate(h):
                        apply(w, op, h[:k + 1])
                    check(w, h)
                    done(w)
                    ctx.step(len(h))
                    ctx.trace()
                    ctx.state(('openkw', i, j))
            many = [(x, k % len(V)) for k, x in enumerate('n%d' % q for q in range(60))]
            h = tuple([('new', 0)] + [('set', 0, x, i) for x, i in many] + [('save', 0, 'F'), ('open', 1, 'F')] + [('read', 1, x) for x, i in many[::3]]
                      + [('set', 1, x, (i + 1) % len(V)) for x, i in many[::7]] + [('save', 1, None), ('open', 0, 'F')])
            w = build()
            for k, op in enumerate(h):
                apply(w, op, ('many', k))
            check(w, ('many names',))
            done(w)
            if kind == 'att':
                # attributes given at creation
                for i, j in itertools.product(range(0, len(V), 2), repeat=2):
                    h = (('kw', 0, (('a', i), ('b', j))), ('set', 0, 'b', i), ('save', 0, 'F'), ('open', 1, 'F'))
                    w = build()
                    for k, op in enumerate(h):
                        apply(w, op, h[:k + 1])
                    check(w, h)
                    done(w)
                    ctx.step(4)
                    ctx.state(('kw', i, j))
                # a value that cannot be saved: the save fails and no file changes
                for pre in range(4):
                    w = build()
                    h = [('new', 0), ('set', 0, 'a', 0)] + [('save', 0, 'F')]*pre
                    for op in h:
                        apply(w, op, h)
                    w.st[0][0].bad = lambda: 0
                    try:
                        w.st[0][0].save('v1.2')
                    except Exception:
                        check_files(w, h + ['unpicklable'])
                    else:
                        ctx.fail('an unpicklable value was saved', h)
                    done(w)
                    ctx.step(3)
            return
        ops = alphabet(kind)
        if unit.get('one'):
            ops = [o for o in ops if o[1] == 0]
        explore([tuple(o) for o in unit['start']] + [ops[i] for i in unit['first'] if i < len(ops)], ops, unit['depth'], unit['merge'])
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
