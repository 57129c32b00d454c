"""C31: the marginalised linear-amplitude analysis against exact rational least squares, for all small designs and all call histories."""
import itertools
from fractions import Fraction as Fr
from math import sqrt

PROP = 'C31'
LEVEL = 'model_checking'
RULE = ('every non-singular design matrix over a small integer lattice, samples and error lattice, through both front ends; and every history up to the depth bound of the calls that evaluate, look up and fail '
        '(a basis function, the set-up function or a degenerate basis failing at any point), with writes into returned arrays; every answer is compared with exact rational least squares at the parameters it is about')
ASSUMPTIONS = ['the C part is compiled unchanged for the Python here through a header that maps the Python 2 names; if that is impossible, a stand-in with the documented results takes its place',
               'queries without parameters follow a successful evaluation', 'nearly singular bases are outside the bound']


class StandIn:
    """The documented results of the C module, for trees whose C module cannot be compiled."""

    @staticmethod
    def metricAnalysis(g, d):
        import numpy as np
        g, d = np.array(g, float), np.array(d, float)
        m = g.dot(g.T)
        try:
            L = np.linalg.cholesky(m)
        except np.linalg.LinAlgError:
            raise ValueError('metric is not positive definite!')
        p = g.dot(d)
        a = np.linalg.solve(m, p)
        return m, L, float(np.prod(np.diag(L))), p, a, float(a.dot(p))

    @staticmethod
    def covar(L):
        import numpy as np
        return np.linalg.inv(np.array(L).dot(np.array(L).T))


NATIVE = True


def setup():
    global NATIVE
    import sys
    from vmc import cext
    import inference.gauss.vecba as v
    try:
        m = cext.vba()
    except cext.CannotBuild:
        m, NATIVE = StandIn, False
    sys.modules['vba'] = m
    v.vba = m


# ---------------------------------------------------------------------- exact reference
def solve(A, B):
    """Solve A X = B exactly; None when A is singular.  Also returns det A."""
    n = len(A)
    M = [list(map(Fr, A[i])) + list(map(Fr, B[i])) for i in range(n)]
    det = Fr(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None, Fr(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        M[c] = [x/M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f*y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M], det


def reference(design, samples, sigmas):
    """design: rows of basis values; all integers or fractions."""
    g = [[Fr(v)/s for v, s in zip(row, sigmas)] for row in design]
    d = [Fr(v)/s for v, s in zip(samples, sigmas)]
    m = [[sum(x*y for x, y in zip(a, b)) for b in g] for a in g]
    p = [[sum(x*y for x, y in zip(a, d))] for a in g]
    amp, det = solve(m, p)
    if amp is None:
        return None
    amp = [a[0] for a in amp]
    n = len(g)
    cov, _ = solve(m, [[1 if i == j else 0 for j in range(n)] for i in range(n)])
    suf = sum(a*q[0] for a, q in zip(amp, p))
    dd = sum(x*x for x in d)
    res = [x - sum(a*row[i] for a, row in zip(amp, g)) for i, x in enumerate(d)]
    return {'Q': float(dd - suf), 'suf': float(suf), 'jac': 1./sqrt(det), 'amp': [float(a) for a in amp], 'res': [float(r) for r in res],
            'cov': [[float(c) for c in r] for r in cov], 'scale': float(1 + dd), 'det': float(det),
            'metric': [[float(c) for c in r] for r in m], 'proj': [float(c[0]) for c in p], 'g': [[float(c) for c in r] for r in g], 'd': [float(c) for c in d]}


def pool(n):
    """Basis functions that designs of several amplitudes are chosen from, in every order."""
    return [tuple(1 for i in range(n)), tuple(range(n)), tuple(i*i for i in range(n)), tuple((-1)**i for i in range(n)), (3,) + (0,)*(n-1),
            tuple(range(n-1, 0, -1)) + (-2,)]


SAMPLES = {5: [(1, 3, 5, 8, 2), (-2, 0, 1, 0, 7)], 2: [(1, 3), (-2, 0)], 3: [(1, 3, -2), (0, 0, 1), (5, 5, 5)], 4: [(1, 3, 5, 8), (-2, 0, 1, 0)]}
SIGMAS = {5: [(Fr(1, 4),)*5, (Fr(1), Fr(2), Fr(1, 2), Fr(4), Fr(1, 3))], 2: [(Fr(1), Fr(1)), (Fr(3, 10), Fr(2))], 3: [(Fr(1),)*3, (Fr(1, 3), Fr(7, 5), Fr(1))], 4: [(Fr(1, 4),)*4, (Fr(1), Fr(2), Fr(1, 2), Fr(4))]}


def units(tier):
    u = []
    for kind in ('col', 'sig', 'setup', 'obj'):
        for m, n in ((1, 2), (1, 3), (2, 2), (2, 3)) + (((2, 4), (3, 3)) if tier == 'thorough' else ()):
            vals = (-1, 0, 1, 2) if m*n <= 6 else (-1, 0, 2)
            for first in (itertools.product(vals, repeat=2) if m*n > 4 else [None]):
                u.append({'t': 'lin', 'kind': kind, 'm': m, 'n': n, 'first': first})
    for kind in ('col', 'sig', 'setup', 'obj'):
        for n in (3, 4, 5):
            for m in range(2, min(n, 4) + 1):
                for first in range(len(pool(n))):
                    if tier == 'thorough' or m < 4 or first % 3 == n % 3:
                        u.append({'t': 'pool', 'kind': kind, 'm': m, 'n': n, 'first': first})
        u.append({'t': 'pars', 'kind': kind})
    depth = 5 if tier == 'thorough' else 4
    for kind in ('col', 'sig', 'setup', 'obj'):
        for k in range(nops(kind)):
            u.append({'t': 'hist', 'kind': kind, 'first': k, 'depth': depth})
    u.append({'t': 'refuse'})
    return u


# ---------------------------------------------------------------------- the models driven
class Boom(Exception):
    pass


class Design:
    """Tables of basis values by nonlinear parameter, with failures on demand."""

    def __init__(self, tables, absc):
        self.tables, self.absc = tables, absc
        self.armed = None          # fail when the countdown of evaluations reaches zero
        self.aux = 0

    def tick(self):
        if self.armed is not None:
            if self.armed == 0:
                self.armed = None
                raise Boom()
            self.armed -= 1

    def basis(self, a):
        import numpy as np

        def g(*args):
            self.tick()
            if len(args) == 3:
                p, x, aux = args
                assert aux == ('aux', p), (aux, p)
            else:
                p, x = args
            assert list(x) == list(self.absc), x
            return np.array(self.tables[p][a], float)
        return g

    def setup(self, p, x):
        self.tick()
        return ('aux', p)


class Obj:
    def __init__(self, des, samples, sigmas):
        import numpy as np
        self.des = des
        self.p = None
        self.sig = np.array([float(s) for s in sigmas])
        self.std_smpls = np.array([float(v) for v in samples])/self.sig
        self.std_basis = [self.one(a) for a in range(len(next(iter(des.tables.values()))))]

    def one(self, a):
        import numpy as np

        def g():
            self.des.tick()
            return np.array(self.des.tables[self.p][a], float)/self.sig
        return g

    def set_nonlin(self, p):
        self.des.tick()
        self.p = p


def make(kind, tables, samples, sigmas):
    import numpy as np
    from inference.gauss.vecba import BA, BAObj
    n = len(samples)
    absc = [2.*i - 1. for i in range(n)]
    des = Design(tables, absc)
    m = len(next(iter(tables.values())))
    if kind == 'obj':
        return BAObj(Obj(des, samples, sigmas)), des, None
    basis = [des.basis(a) for a in range(m)]
    if kind == 'sig':
        data = np.array([absc, samples], float).T.copy()
        return BA(basis, data, float(sigmas[0])), des, data
    data = np.array([absc, [float(s) for s in samples], [float(s) for s in sigmas]]).T.copy()
    if kind == 'setup':
        return BA(basis, data, setup=des.setup), des, data
    return BA(basis, data), des, data


def near(a, b, scale):
    return abs(float(a) - b) <= 1e-9*scale


def check_stats(ctx, got, r, case):
    Q, suf, jac = got
    if not (near(Q, r['Q'], r['scale']) and near(suf, r['suf'], r['scale']) and near(jac, r['jac'], r['jac'])):
        ctx.fail('(Q, sufficient statistic, Jacobian) are %r, exactly %r' % ((float(Q), float(suf), float(jac)), (r['Q'], r['suf'], r['jac'])), case)


def check_vec(ctx, what, got, ref, scale, case):
    if len(got) != len(ref) or any(not near(x, y, scale*(1 + abs(y))) for x, y in zip(got, ref)):
        ctx.fail('the %s are %r, exactly %r' % (what, [float(x) for x in got], ref), case)


def run_unit(unit, ctx):
    if unit['t'] == 'lin':
        lin(unit, ctx)
    elif unit['t'] == 'pool':
        pools(unit, ctx)
    elif unit['t'] == 'pars':
        pars(unit, ctx)
    elif unit['t'] == 'refuse':
        refuse(unit, ctx)
    else:
        hist(unit, ctx)


def refuse(unit, ctx):
    """Ambiguous or missing sigmas are refused, and so is a covariance before there is anything to be the covariance of."""
    import numpy as np
    from inference.gauss.vecba import BA
    basis = [lambda p, x: np.ones(len(x)), lambda p, x: x**p]
    two, three = np.array([[0., 1.], [1., 2.], [2., 5.]]), np.array([[0., 1., .5], [1., 2., .5], [2., 5., 1.]])
    for name, f in [('sigma column and sigma', lambda: BA(basis, three, 1.)), ('no sigmas', lambda: BA(basis, two)), ('covariance first', lambda: BA(basis, three).covar()),
                    ('four columns', lambda: BA(basis, np.ones((3, 4))))]:
        ctx.at(name)
        ctx.step()
        ctx.state(name)
        try:
            f()
        except ValueError:
            ctx.outcome(name)
            continue
        ctx.fail('accepted: ' + name, {'case': name})
    ctx.trace()
    ctx.sample(unit)


def everything(ctx, ba, args, r, case):
    check_stats(ctx, ba.marg_stats(*args), r, case)
    check_vec(ctx, 'amplitudes', ba.amplitudes(*args), r['amp'], 1., case)
    check_vec(ctx, 'residuals', ba.residuals(*args), r['res'], 1., case)
    cov = ba.covar()
    for i in range(len(r['amp'])):
        check_vec(ctx, 'covariances', cov[i], r['cov'][i], 1., case)
    native(ctx, r, case)


def native(ctx, r, case):
    """The routine underneath, on the standardised design and samples."""
    import numpy as np
    import inference.gauss.vecba as v
    g, d = np.array(r['g']), np.array(r['d'])
    m, L, rdet, proj, amp, suf = v.vba.metricAnalysis(g, d)
    k = len(r['amp'])
    for i in range(k):
        check_vec(ctx, 'elements of the metric', m[i], r['metric'][i], 1., case)
        check_vec(ctx, 'products of the factors of the metric', [sum(L[i][a]*L[j][a] for a in range(k)) for j in range(k)], r['metric'][i], 1., case)
        if any(L[i][j] != 0. for j in range(i + 1, k)):
            ctx.fail('the factor of the metric is not lower triangular', case)
    check_vec(ctx, 'projections', proj, r['proj'], 1., case)
    check_vec(ctx, 'amplitudes', amp, r['amp'], 1., case)
    if not near(rdet, 1./r['jac'], 1./r['jac']) or not near(suf, r['suf'], r['scale']):
        ctx.fail('root determinant and sufficient statistic are %r, exactly %r' % ((rdet, suf), (1./r['jac'], r['suf'])), case)
    for bad in (d[:-1], np.append(d, 0.)):
        try:
            v.vba.metricAnalysis(g, bad)
        except Exception:
            continue
        ctx.fail('%d samples were accepted for a design with %d' % (len(bad), len(d)), case)


def pools(unit, ctx):
    """Every ordered choice of m different functions of the pool."""
    kind, m, n = unit['kind'], unit['m'], unit['n']
    P = pool(n)
    for rest in itertools.permutations([i for i in range(len(P)) if i != unit['first']], m - 1):
        design = [P[i] for i in (unit['first'],) + rest]
        for smp in SAMPLES[n]:
            for sig in SIGMAS[n]:
                s = (sig[0],)*n if kind == 'sig' else sig
                r = reference(design, smp, s)
                if r is None:
                    continue
                case = {'kind': kind, 'design': design, 'samples': smp, 'sigmas': [str(x) for x in s]}
                ctx.at(case)
                ctx.state((kind, design, smp, s))
                ba, des, data = make(kind, {1.5: design}, smp, s)
                ctx.step()
                everything(ctx, ba, (1.5,), r, case)
                ctx.trace()
                ctx.outcome((r['Q'], r['jac']))
    ctx.sample(unit)


def pars(unit, ctx):
    """No, one, two and three nonlinear parameters: every pair of points asked for one after the other, and the first again."""
    import numpy as np
    from inference.gauss.vecba import BA, BAObj
    kind = unit['kind']
    n = 4
    P = pool(n)
    smp, sig = SAMPLES[4][0], SIGMAS[4][1]
    s = (sig[0],)*n if kind == 'sig' else sig
    absc = np.arange(4.)

    def rows(args):
        return [P[0], tuple(P[1][i] + sum((k + 1)*a for k, a in enumerate(args))*P[3][i] + (args[-1]*i*i if args else 0) for i in range(n)), P[4]]

    def build(np_):
        if kind == 'obj':
            class O:
                sg = np.array([float(x) for x in s])
                std_smpls = np.array(smp, float)/sg

                def __init__(self):
                    self.p = None
                    self.std_basis = [lambda a=a: np.array(rows(self.p)[a], float)/self.sg for a in range(3)]

                def set_nonlin(self, *p):
                    self.p = p
            return BAObj(O())

        def g(a):
            def f(*args):
                if kind == 'setup':
                    assert args[-1] == ('aux', args[:np_]), args
                    args = args[:-1]
                assert len(args) == np_ + 1 and list(args[-1]) == list(absc), args
                return np.array(rows(args[:-1])[a], float)
            return f
        basis = [g(a) for a in range(3)]
        if kind == 'sig':
            return BA(basis, np.array([absc, smp], float).T, float(s[0]))
        data = np.array([absc, smp, [float(x) for x in s]], float).T
        return BA(basis, data, setup=(lambda *a: ('aux', a[:-1])) if kind == 'setup' else None)

    for np_ in (0, 1, 2, 3):
        pts = list(itertools.product((0, 1, -2), repeat=np_))
        refs = {p: reference(rows(p), smp, s) for p in pts}
        for p, q in itertools.product(pts, pts):
            if refs[p] is None or refs[q] is None:
                continue
            case = {'kind': kind, 'nonlinear parameters': [p, q, p]}
            ctx.at(case)
            ctx.state((kind, p, q))
            ba = build(np_)
            for x in (p, q, p):
                ctx.step()
                everything(ctx, ba, x, refs[x], case)
            ctx.trace()
            ctx.outcome(refs[q]['Q'])
    ctx.sample(unit)


def lin(unit, ctx):
    kind, m, n = unit['kind'], unit['m'], unit['n']
    vals = (-1, 0, 1, 2) if m*n <= 6 else (-1, 0, 2)
    pre = tuple(unit['first']) if unit['first'] is not None else ()
    for rest in itertools.product(vals, repeat=m*n - len(pre)):
        flat = pre + rest
        design = [flat[a*n:(a+1)*n] for a in range(m)]
        ref0 = reference(design, SAMPLES[n][0], SIGMAS[n][0])
        zero = any(not any(row) for row in design)
        if ref0 is None and not zero:
            continue
        for smp in SAMPLES[n]:
            for sig in SIGMAS[n]:
                s = (sig[0],)*n if kind == 'sig' else sig
                case = {'kind': kind, 'design': design, 'samples': smp, 'sigmas': [str(x) for x in s]}
                ctx.at(case)
                ctx.state((kind, design, smp, s))
                ba, des, data = make(kind, {1.5: design}, smp, s)
                ctx.step()
                if zero:
                    try:
                        got = ba.marg_stats(1.5)
                    except ValueError:
                        continue
                    ctx.fail('a vanishing basis function is not reported; got %r' % (got,), case)
                r = reference(design, smp, s)
                check_stats(ctx, ba.marg_stats(1.5), r, case)
                check_vec(ctx, 'amplitudes', ba.amplitudes(1.5), r['amp'], 1., case)
                check_vec(ctx, 'residuals', ba.residuals(1.5), r['res'], 1., case)
                cov = ba.covar()
                for i in range(m):
                    check_vec(ctx, 'covariances', cov[i], r['cov'][i], 1., case)
                ctx.trace()
                ctx.outcome((r['Q'], r['jac']))
    ctx.sample({'kind': kind, 'm': m, 'n': n, 'first': unit['first']})


TAB = {0.: [(1, 1, 1, 1), (0, 1, 2, 3)], 2: [(1, 0, 1, 0), (0, 1, -1, 1)], -3.: [(2, 1, 0, 0), (4, 2, 0, 0)]}     # the last is degenerate
TAB = {k: [tuple(v) for v in t] for k, t in TAB.items()}
SMP, SIG = (1, 3, 5, 8), (Fr(1), Fr(2), Fr(1, 2), Fr(4))
OPS = [('stats', 0.), ('stats', 2), ('amp', 0.), ('amp', 2), ('amp', None), ('res', 0.), ('res', 2), ('res', None), ('cov', None), ('bad', -3.),
       ('boom0', 2), ('boom1', 2), ('boom1', 0.), ('boom2', 0.), ('calc', 2), ('scribble', 0.), ('data', None)]


def nops(kind):
    return len(OPS) - (1 if kind == 'obj' else 0)


def hist(unit, ctx):
    import numpy as np
    kind, depth = unit['kind'], unit['depth']
    sig = (SIG[0],)*4 if kind == 'sig' else SIG
    # the degenerate point of the histories has a vanishing function, so that it fails whatever the rounding
    tabs = dict(TAB)
    tabs[-3.] = [(2, 1, 0, 0), (0, 0, 0, 0)]
    refs = {p: reference(t, SMP, sig) for p, t in tabs.items() if p != -3.}
    ops = OPS[:nops(kind)]

    def play(h):
        ba, des, data = make(kind, tabs, SMP, sig)
        last = None
        for n, (op, p) in enumerate(h):
            case = {'kind': kind, 'history': h[:n+1]}
            ctx.step()
            fresh = n == len(h) - 1      # earlier steps were compared when their own prefix was played
            try:
                if op == 'stats':
                    got = ba.marg_stats(p)
                    last = p
                    if fresh:
                        check_stats(ctx, got, refs[p], case)
                elif op == 'calc':
                    ba.calc_marg_stats(p)
                    last = p
                elif op in ('amp', 'res'):
                    f = ba.amplitudes if op == 'amp' else ba.residuals
                    got = f() if p is None else f(p)
                    last = last if p is None else p
                    if fresh:
                        check_vec(ctx, 'amplitudes' if op == 'amp' else 'residuals', got, refs[last][op], 1., case)
                elif op == 'cov':
                    got = ba.covar()
                    if fresh:
                        for i in range(2):
                            check_vec(ctx, 'covariances', got[i], refs[last]['cov'][i], 1., case)
                elif op == 'bad':
                    try:
                        ba.marg_stats(p)
                    except ValueError:
                        continue
                    ctx.fail('a vanishing basis function is not reported', case)
                elif op.startswith('boom'):
                    des.armed = int(op[4:])
                    try:
                        got = ba.marg_stats(p)
                    except Boom:
                        continue
                    finally:
                        left, des.armed = des.armed, None
                    if left is None and fresh:
                        ctx.fail('the error of a basis function did not reach the caller', case)
                    last = p
                    if fresh:
                        check_stats(ctx, got, refs[p], case)
                elif op == 'scribble':
                    for a in (ba.amplitudes(p), ba.residuals(p), ba.covar()):
                        a[...] = 77.
                    last = p
                elif op == 'data':
                    data[:, 1:] = 55.
            except Boom:
                ctx.fail('a basis function failed although no evaluation was due', case)
        return last

    def state_checks(h):
        """After a history: everything, at the current parameters and then at each parameter."""
        ba_last = play(h)
        return ba_last

    def rec(h, last, dirty):
        ctx.at((kind, h))
        state_checks(h)
        ctx.state((kind, h))
        ctx.trace()
        ctx.outcome((kind, last, h[-1]))
        if len(h) == depth:
            return
        for op in ops:
            if op[0] in ('amp', 'res', 'cov') and op[1] is None and last is None:
                continue
            nl = op[1] if op[0] in ('stats', 'calc', 'amp', 'res', 'scribble') and op[1] is not None else last
            if op[0].startswith('boom') and op[1] == last:
                nl = last
            rec(h + (op,), nl, False)
    first = ops[unit['first']]
    if first[0] in ('amp', 'res', 'cov') and first[1] is None:
        return
    rec((first,), first[1] if first[0] in ('stats', 'calc', 'amp', 'res', 'scribble') else None, False)
    ctx.sample({'kind': kind, 'first': first, 'depth': depth})
