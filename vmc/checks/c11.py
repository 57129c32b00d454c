"""C11: an inference has exactly the parameters and predictors of its parts, in source order."""
import itertools

PROP = 'C11'
LEVEL = 'model_checking'
RULE = ('(programs) every class definition program of a grammar: parameter and predictor names (prefixes of each other included), spacing and layout styles, text that looks '
        'like definitions in doc strings and methods, parameters in predictor sets; (histories) every order, up to the depth bound, of defining subclasses of models, predictor sets and '
        'inferences and of instantiating them. After every step all live and freshly made inferences are asked for names, order, defaults, docs and score')
ASSUMPTIONS = ['classes are defined in source files, as users do']

NAMES = [['p'], ['p', 'q'], ['b', 'a'], ['z', 'a', 'm'], ['a', 'ab', 'abc'], ['abc', 'ab', 'a'], ['q1', 'q', 'q10'], ['e', 'd', 'c', 'b', 'a'], ['x_', 'x', '_x1'],
         ['signal_', 'sigma', 's'], ['t', 'T'], ['Ab', 'aB', 'AB', 'ab'], ['temperature_inner', 'temperature_outer', 'temperature'], ['k%d' % i for i in (3, 11, 2, 10, 1, 12, 0, 5)]]
PNAMES = [['d'], ['d2', 'd'], ['zz', 'aa', 'mm'], ['data', 'da', 'd'], ['b1', 'b', 'b10'], ['D', 'd', 'dD']]
STYLES = ['%s = %s', '%s=%s', '%s   = %s', '%s =%s', '%s \\\n        = %s', '%s = (\n        %s)', '%s = %s  # comment = %%', 'one line', 'tuple', 'def first']


def units(tier):
    u = [{'t': 'prog', 'style': i, 'names': j} for i in range(len(STYLES)) for j in range(len(NAMES))]
    u += [{'t': 'hist', 'first': i, 'depth': 4 if tier == 'thorough' else 3} for i in range(len(OPS))]
    return u


def body(names, style, make, ind='    '):
    """Lines defining names with make(name), in order."""
    if style == 'one line':
        return ind + '; '.join('%s = %s' % (n, make(n)) for n in names) + '\n'
    if style == 'tuple':
        return ind + ', '.join(names) + ', = ' + ', '.join(make(n) for n in names) + ',\n'
    if style == 'def first':
        # methods with local names and a doc string that look like definitions in another order
        s = ind + '"""Some text:\n'
        for n in reversed(names):
            s += ind + '%s = the parameter %s\n' % (n, n)
        s += ind + '"""\n' + ind + 'def helper(self):\n'
        for n in reversed(names):
            s += ind + '    %s = 1.\n' % n
        s += ind + '    return 0.\n'
        return s + ''.join(ind + '%s = %s\n' % (n, make(n)) for n in names)
    return ''.join(ind + style.replace('%%', '') % (n, make(n)) + '\n' for n in names)


HEAD = 'from numpy import array\nfrom inference.pie import *\nfrom inference.pie import ChisqrInference, MaxLikeInference, BayesianInference\n'


def load(text, tag):
    import importlib.util, os, sys, tempfile, shutil
    d = tempfile.mkdtemp(prefix='vmc11')
    path = os.path.join(d, tag + '.py')
    with open(path, 'w') as f:
        f.write(HEAD + text)
    spec = importlib.util.spec_from_file_location(tag, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[tag] = m
    spec.loader.exec_module(m)
    return m, d


def default(n):
    return round(.5 + (sum(map(ord, n)) % 37)/8. + len(n), 3)


def value(n):
    return sum(map(ord, n)) % 11 + .5


def verify(ctx, inf, params, preds, case):
    """params: list of (name, default, doc) expected in order; preds: list of (name, datum)."""
    names = [p[0] for p in params]
    if list(inf.params) != names:
        ctx.fail('the parameters are %r, expected %r' % (list(inf.params), names), case)
    if list(inf.predictors) != [p[0] for p in preds]:
        ctx.fail('the predictors are %r, expected %r' % (list(inf.predictors), [p[0] for p in preds]), case)
    total = 0.
    for n, dflt, doc in params:
        v = getattr(inf, n)
        if float(v) != dflt or v.name != n or v.doc != doc:
            ctx.fail('parameter %s is %r (%r, %r), expected %r (%r)' % (n, float(v), v.name, v.doc, dflt, doc), case)
    for n, d in preds:
        h = getattr(inf, n)
        if [float(x) for x in h.vals] != [d]:
            ctx.fail('predictor %s holds %r, expected %r' % (n, list(h.vals), d), case)
        total += (d - inf.model_value())**2
    got = float(inf.score())
    want = total if type(inf).extremize == 'min' else -.5*total
    if not abs(got - want) <= 1e-9*max(1., abs(want)):
        ctx.fail('score %r, expected %r from predictors %r' % (got, want, preds), case)
    pv = inf.get_params()
    if list(pv.names) != names:
        ctx.fail('a snapshot holds %r, expected %r' % (list(pv.names), names), case)
    ctx.outcome((tuple(names), tuple(p[0] for p in preds)))


def prog(ctx, unit, count=[0]):
    import shutil, sys
    style, names = STYLES[unit['style']], NAMES[unit['names']]
    for pn, kind, withp in itertools.product(PNAMES, ('ChisqrInference', 'MaxLikeInference'), (False, True)):
        if set(pn) & set(names) or (kind != 'ChisqrInference' and withp):
            continue
        count[0] += 1
        tag = 'vmc11_%d' % count[0]
        mkp = lambda n: 'RealParam(%r, "doc of %s")' % (default(n), n)
        mkd = lambda n: 'SampledGaussian(array([1.]), array([%r]), array([1.]))' % value(n)
        extra = ['w', 'w1'] if withp else []
        if set(extra) & (set(names) | set(pn)):
            continue
        t = 'class M(SignalModel):\n' + body(names, style, mkp)
        t += '    def signal(self, x):\n        return self.model_value()\n'
        t += '    def model_value(self):\n        return %s\n' % ' + '.join('%d*self.%s' % (i + 1, n) for i, n in enumerate(names))
        t += '    def log_prior(self):\n        return 0.\n'
        t += 'class D(PredictorSet):\n' + (body(extra, style if style != 'def first' else '%s = %s', mkp) if extra else '') + body(pn, style, mkd)
        t += 'class I(%s, M, D):\n    """An inference."""\n' % kind
        ctx.at(t)
        m, d = load(t, tag)
        try:
            params = [(n, default(n), 'doc of ' + n) for n in names + extra]
            preds = [(n, value(n)) for n in pn]
            ctx.state((unit['style'], tuple(names), tuple(pn), kind, withp))
            first = m.I()
            verify(ctx, first, params, preds, t)
            second = m.I()
            setattr(first, names[0], 99.)
            verify(ctx, second, params, preds, t)
            if type(second).extremize == 'min' and len(names) > 1:
                # touched in another order
                third = m.I()
                for n in reversed(names):
                    getattr(third, n)
                verify(ctx, third, params, preds, t)
            ctx.step(3)
            ctx.trace()
            ctx.sample({'program': t})
        finally:
            sys.modules.pop(tag, None)
            shutil.rmtree(d)


P = {n: '%s = RealParam(%r, "doc of %s")' % (n, default(n), n) for n in ('p', 'q', 'r', 's', 'q1')}
D = {n: '%s = SampledGaussian(array([1.]), array([%r]), array([1.]))' % (n, value(n)) for n in ('d1', 'd2', 'd3')}
HIST = '''
def M(ns):
    class M(SignalModel):
        {q}
        {p}
        def model_value(self):
            return sum((i + 1)*float(getattr(self, n)) for i, n in enumerate(sorted(self.params)))
        def signal(self, x):
            return self.model_value()
        def log_prior(self):
            return 0.
    return M

def M2(ns):
    class M2(ns['M']):
        {r}
    return M2

def M3(ns):
    class M3(ns['M']):
        {q1}
        {s}
    return M3

def M4(ns):
    class M4(ns['M2']):
        {s}
    return M4

def N(ns):
    class N(SignalModel):
        {r}
        {p}
        def model_value(self):
            return sum((i + 1)*float(getattr(self, n)) for i, n in enumerate(sorted(self.params)))
        def signal(self, x):
            return self.model_value()
        def log_prior(self):
            return 0.
    return N

def D(ns):
    class D(PredictorSet):
        {d2}
        {d1}
    return D

def D2(ns):
    class D2(ns['D']):
        {d3}
    return D2

def E(ns):
    class E(PredictorSet):
        {d3}
    return E

def I(ns):
    class I(ChisqrInference, ns['M'], ns['D']):
        pass
    return I

def J(ns):
    class J(MaxLikeInference, ns['M'], ns['E']):
        pass
    return J

def K(ns):
    class K(ChisqrInference, ns['N'], ns['D']):
        pass
    return K

def I2(ns):
    class I2(ChisqrInference, ns['M2'], ns['D']):
        pass
    return I2

def I3(ns):
    class I3(BayesianInference, ns['M3'], ns['D2']):
        pass
    return I3

def I4(ns):
    class I4(ChisqrInference, ns['M4'], ns['E']):
        pass
    return I4

def I5(ns):
    class I5(MaxLikeInference, ns['M'], ns['D2']):
        pass
    return I5

def S(ns):
    class S(ns['I']):
        """A subclass of an inference."""
    return S
'''.format(**dict(P, **D))
NEEDS = {'M': (), 'M2': ('M',), 'M3': ('M',), 'M4': ('M2',), 'N': (), 'D': (), 'D2': ('D',), 'E': (), 'I': ('M', 'D'), 'J': ('M', 'E'), 'K': ('N', 'D'), 'I2': ('M2', 'D'),
         'I3': ('M3', 'D2'), 'I4': ('M4', 'E'), 'I5': ('M', 'D2'), 'S': ('I',)}
WANT = {'I': ('qp', ('d2', 'd1')), 'J': ('qp', ('d3',)), 'K': ('rp', ('d2', 'd1')), 'I2': ('qpr', ('d2', 'd1')), 'I3': (('q', 'p', 'q1', 's'), ('d2', 'd1', 'd3')),
        'I4': ('qprs', ('d3',)), 'I5': ('qp', ('d2', 'd1', 'd3')), 'S': ('qp', ('d2', 'd1'))}
# one operation: define (with what it needs) or instantiate
OPS = [('def', n) for n in ('M2', 'M3', 'M4', 'N', 'D2', 'E', 'I', 'J', 'K', 'I2', 'I3', 'I4', 'I5', 'S')] + [('new', n) for n in ('I', 'J', 'K', 'I2', 'I3', 'I4', 'I5', 'S')]


def run_unit(unit, ctx):
    if unit['t'] == 'prog':
        return prog(ctx, unit)
    import shutil, sys
    from vmc import fastinspect  # noqa
    m, d = load(HIST, 'vmc11_hist')
    try:
        def define(ns, n):
            if n in ns:
                return
            for k in NEEDS[n]:
                define(ns, k)
            ns[n] = getattr(m, n)(ns)

        def run(hist, check):
            ns, live = {}, []
            for op, n in hist:
                define(ns, n)
                if op == 'new':
                    live.append((n, ns[n]()))
            if not check:
                return
            objs = live + [(n, ns[n]()) for n in sorted(ns) if n in WANT]
            for n, o in objs:
                ps, ds = WANT[n]
                verify(ctx, o, [(x, default(x), 'doc of ' + x) for x in ps], [(x, value(x)) for x in ds], {'history': hist, 'inference': n})
                ctx.trace()

        def rec(hist, depth):
            ctx.at(hist)
            ctx.state(tuple(hist))
            ctx.step()
            run(hist, True)
            if depth:
                for op in OPS:
                    if op not in hist:
                        rec(hist + [op], depth - 1)
        rec([OPS[unit['first']]], unit['depth'] - 1)
        ctx.sample({'histories starting with': OPS[unit['first']]})
    finally:
        sys.modules.pop('vmc11_hist', None)
        shutil.rmtree(d)
