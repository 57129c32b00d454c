"""Models, predictors and inferences used by the PIE checks (the classes a user would write)."""
from vmc import fastinspect  # noqa
from numpy import array, asarray
from inference.pie import (SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference,
                           MaxLikeInference, BayesianInference)

X1 = array([0.5, 1., 2., 4.])
Y1 = array([1., 2.5, 2., 5.])
S1 = array([.5, 1., 2., .25])
X2 = array([1., 3.])
Y2 = array([-1., 2.])
S2 = array([1., .5])

# The arrays actually handed to the predictors.
GIVEN = [X1, Y1, S1] + [a.copy() for a in (X1, Y1, S1)] + [X2, Y2, S2]


class Lin2(SignalModel):
    p = RealParam(1., 'slope')
    q = RealParam(.5, 'offset')

    def signal(self, x):
        return self.p*x + self.q


class Lin3(SignalModel):
    p = RealParam(1., 'slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'curvature')

    def signal(self, x):
        return self.p*x + self.q + self.r*x*x

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class Lin6(SignalModel):
    """Six parameters, whose names are not in alphabetical order."""
    p = RealParam(1., 'slope')
    q = RealParam(.5, 'offset')
    a10 = RealParam(0., 'curvature')
    a9 = RealParam(0., 'cubic')
    Z = RealParam(0., 'fourth')
    b = RealParam(0., 'fifth')

    def signal(self, x):
        return self.p*x + self.q + self.a10*x**2 + self.a9*x**3 + self.Z*x**4 + self.b*x**5


class Data1(PredictorSet):
    d1 = SampledGaussian(GIVEN[0], GIVEN[1], GIVEN[2])


class Data2(PredictorSet):
    d1 = SampledGaussian(GIVEN[3], GIVEN[4], GIVEN[5])
    d2 = SampledGaussian(GIVEN[6], GIVEN[7], GIVEN[8])


class Chi2(ChisqrInference, Lin2, Data1):
    pass


class Chi3(ChisqrInference, Lin3, Data1):
    pass


class Chi6(ChisqrInference, Lin6, Data1):
    pass


class Chi3d2(ChisqrInference, Lin3, Data2):
    pass


class Like3(MaxLikeInference, Lin3, Data2):
    pass


class Bayes3(BayesianInference, Lin3, Data2):
    pass


class Poly5(SignalModel):
    a = RealParam(1., 'c0')
    b = RealParam(2., 'c1')
    c = RealParam(3., 'c2')
    d = RealParam(4., 'c3')
    e = RealParam(5., 'c4')

    def signal(self, x):
        return self.a + self.b*x + self.c*x**2 + self.d*x**3 + self.e*x**4

    def log_prior(self):
        return -.1*self.a**2


class Chi5(ChisqrInference, Poly5, Data1):
    pass


class Bayes5(BayesianInference, Poly5, Data1):
    pass


# --- model styles -------------------------------------------------------------------------------------------
class LinV(SignalModel):
    p = RealParam(1., 'slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'curvature')

    def signals(self, xs):
        return self.p*xs + self.q + self.r*xs*xs

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class Plane(SignalModel):
    p = RealParam(1., 'x slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'y slope')

    def signal(self, x, y):
        return self.p*x + self.q + self.r*y

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class PlaneV(SignalModel):
    p = RealParam(1., 'x slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'y slope')

    def signals(self, locns):
        return self.p*locns[:, 0] + self.q + self.r*locns[:, 1]

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class Cube(SignalModel):
    p = RealParam(1., 'x slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'y slope and z curvature')

    def signal(self, x, y, z):
        return self.p*x + self.q + self.r*(y + z*z)

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class CubeV(SignalModel):
    p = RealParam(1., 'x slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'y slope and z curvature')

    def signals(self, locns):
        return self.p*locns[:, 0] + self.q + self.r*(locns[:, 1] + locns[:, 2]**2)

    def log_prior(self):
        return -.5*(self.p**2 + self.q**2) - .25*self.r


class Column(Lin3):
    """One-dimensional locations given as a column."""

    def signal(self, x):
        return self.p*float_only(x) + self.q + self.r*float_only(x)**2


def float_only(x):
    if getattr(x, 'shape', ()) != ():
        raise TypeError('the coordinate of a location is an array')
    return float(x)


XY = array([[0., 1.], [1., 1.], [2., -1.], [.5, 0.], [3., 2.]])
XYV = array([1., 2., 1.5, 0., 4.])
XYS = array([1., .5, 2., .25, 1.])
X3 = array([1, 2, 3])
Y3 = array([2, 4, 5])
S3 = array([1, 2, 1])


class One(PredictorSet):
    d1 = SampledGaussian(array([2.]), array([3.]), array([.5]))


class Triples(PredictorSet):
    d1 = SampledGaussian(array([[.5, 1., .5], [1., 2.5, 1.], [2., 2., 2.], [4., 5., .25]]))


class Rows(PredictorSet):
    d1 = SampledGaussian([(.5, 1., .5), (1., 2.5, 1.), (2., 2., 2.), (4., 5., .25)])


class Ints(PredictorSet):
    d1 = SampledGaussian(X3.copy(), Y3.copy(), S3.copy())
    d2 = SampledGaussian(X2.copy(), Y2.copy(), S2.copy())


class Three(PredictorSet):
    d1 = SampledGaussian(X1.copy(), Y1.copy(), S1.copy())
    d2 = SampledGaussian(X2.copy(), Y2.copy(), S2.copy())
    d3 = SampledGaussian(array([0., -1.]), array([.25, -2.]), array([.1, 3.]))


class Big(PredictorSet):
    d1 = SampledGaussian(array([.1*i for i in range(120)]), array([(.3*i) % 2.7 for i in range(120)]),
                         array([.5 + (i % 7) for i in range(120)]))


class Flat2(PredictorSet):
    d1 = SampledGaussian(XY.copy(), XYV.copy(), XYS.copy())


class Flat2b(PredictorSet):
    d1 = SampledGaussian(XY.copy(), XYV.copy(), XYS.copy())
    d2 = SampledGaussian(XY[:2].copy(), array([-1., 1.]), array([.5, .25]))


class Flat2Rows(PredictorSet):
    d1 = SampledGaussian([((0., 1.), 1., 1.), ((1., 1.), 2., .5), ((2., -1.), 1.5, 2.)])


XYZ = array([[0., 1., 2.], [1., 1., -1.], [2., -1., .5], [.5, 0., 0.]])


class Solid(PredictorSet):
    d1 = SampledGaussian(XYZ.copy(), XYV[:4].copy(), XYS[:4].copy())
    d2 = SampledGaussian(XYZ[1:3].copy(), array([-1., 1.]), array([.5, .25]))


class Columns(PredictorSet):
    d1 = SampledGaussian(X1.copy().reshape(-1, 1), Y1.copy(), S1.copy())
    d2 = SampledGaussian(X2.copy().reshape(-1, 1), Y2.copy(), S2.copy())


class Huge(PredictorSet):
    d1 = SampledGaussian(array([.01*i for i in range(2100)]), array([(.3*i) % 2.7 for i in range(2100)]), array([.5 + (i % 7) for i in range(2100)]))


KINDS = {'chi2': ChisqrInference, 'like': MaxLikeInference, 'bayes': BayesianInference}
STYLES = {'Lin3': ['One', 'Triples', 'Rows', 'Data1', 'Data2', 'Ints', 'Three', 'Big'],
          'LinV': ['One', 'Data1', 'Triples', 'Data2', 'Ints', 'Three', 'Big'],
          'Plane': ['Flat2', 'Flat2b', 'Flat2Rows'], 'PlaneV': ['Flat2', 'Flat2b', 'Flat2Rows']}
_made = {}


def inference(kind, model, data):
    k = (kind, model, data)
    if k not in _made:
        _made[k] = type('Inf_%s_%s_%s' % k, (KINDS[kind], globals()[model], globals()[data]), {})
    return _made[k]


def predict(model, pars, locns):
    p, q, r = pars
    if model.startswith('Plane'):
        return [p*float(x) + q + r*float(y) for x, y in locns]
    if model.startswith('Cube'):
        return [p*float(x) + q + r*(float(y) + float(z)**2) for x, y, z in locns]
    if model == 'Column':
        locns = [x for x, in locns]
    return [p*float(x) + q + r*float(x)*float(x) for x in locns]


def prior(pars):
    p, q, r = pars
    return -.5*(p*p + q*q) - .25*r


def ref_score(kind, model, pars, datasets):
    """The definition: sums over all data, in plain Python."""
    chi2 = 0.
    for locns, vals, sigmas in datasets:
        for f, v, s in zip(predict(model, pars, locns), vals, sigmas):
            chi2 += ((float(v) - f)/float(s))**2
    if kind == 'chi2':
        return chi2
    return -.5*chi2 + (prior(pars) if kind == 'bayes' else 0.)


# --- a model whose signals depend only on what its callbacks recorded ----------------------------------------
class Watch(SignalModel):
    p = RealParam(1., 'slope')
    q = RealParam(.5, 'offset')
    r = RealParam(0., 'curvature')

    def now(self):
        return (float(self.p), float(self.q), float(self.r))

    def on_param_change(self, param):
        log = self.__dict__.setdefault('w_log', {})
        log[param.name] = float(getattr(self, param.name))
        self.w_derived = self.now()

    def on_use(self):
        self.w_used = self.now()

    def signal(self, x):
        if getattr(self, 'w_used', None) != self.now():
            self.w_stale = (getattr(self, 'w_used', None), self.now())
        p, q, r = self.w_used
        return p*x + q + r*x*x

    def log_prior(self):
        return prior(self.w_used)




class Guard(Watch):
    """A model that rejects some values in its callbacks."""
    def on_param_change(self, param):
        Watch.on_param_change(self, param)
        if float(self.p) > 2.75:
            raise ValueError('p is too large')

    def on_use(self):
        if float(self.q) < -.5:
            raise ValueError('q is too small')
        Watch.on_use(self)


class GuardChi(ChisqrInference, Guard, Data2):
    pass


class WatchChi(ChisqrInference, Watch, Data2):
    pass


class WatchPlaneModel(Watch):
    def signal(self, x, y):
        return Watch.signal(self, x) - self.w_used[2]*(x*x - y)


class WatchVecModel(Watch):
    def signals(self, locns):
        return array([Watch.signal(self, x) for x in locns])


class WatchPlane(MaxLikeInference, WatchPlaneModel, Flat2b):
    pass


class WatchVec(MaxLikeInference, WatchVecModel, Data2):
    pass


class WatchBayes(BayesianInference, Watch, Data2):
    pass


# --- a model with any linear map from parameters to predictions; every value it was evaluated at is recorded ---
def _mapmodel(nd):
    if nd == 1:
        class Map1(SignalModel):
            p = RealParam(0., 'first')
            names = ('p',)
            signal = _mapsignal
            log_prior = _mapprior
        return Map1
    if nd == 2:
        class Map2(SignalModel):
            p = RealParam(0., 'first')
            q = RealParam(0., 'second')
            names = ('p', 'q')
            signal = _mapsignal
            log_prior = _mapprior
        return Map2

    class Map3(SignalModel):
        p = RealParam(0., 'first')
        q = RealParam(0., 'second')
        r = RealParam(0., 'third')
        names = ('p', 'q', 'r')
        signal = _mapsignal
        log_prior = _mapprior
    return Map3


def _mapsignal(self, i):
    v = [float(getattr(self, n)) for n in self.names]
    if self.tried is not None:
        self.tried.append(v)
    row = self.matrix[int(i)]
    return sum(a*b for a, b in zip(row, v))


def _mapprior(self):
    return self.__dict__.get('offset', 0.)


class MapData(PredictorSet):
    d1 = SampledGaussian(array([0., 1., 2.]), array([0., 0., 0.]), array([1., 1., 1.]))


_maps = {}


def _offscore(self):
    return super(type(self), self).score() + self.offset


def mapinf(kind, matrix, target, sigmas=(1., 1., 1.), offset=0.):
    """Inference with chi-squared |(matrix.params - target)/sigmas|**2 (3 rows); an offset is added to the score (by the prior, if there is one)."""
    nd = len(matrix[0])
    own = bool(offset) and kind != 'bayes'
    if (kind, nd, own) not in _maps:
        if nd not in _maps:
            _maps[nd] = _mapmodel(nd)
        _maps[kind, nd, own] = type('MapInf', (KINDS[kind], _maps[nd], MapData), {'score': _offscore} if own else {})
    inf = _maps[kind, nd, own]()
    inf.offset = offset
    inf.matrix = matrix
    inf.tried = None
    inf.d1.localize_data()
    inf.d1.vals[:] = target
    inf.d1.sigmas[:] = sigmas
    return inf
