"""C09: the model's callbacks see every change before the model is used."""
from vmc.explore import bfs

PROP = 'C09'
LEVEL = 'model_checking'
RULE = ('breadth-first search over all histories of parameter operations, grid steps, fits, restores and simulations on a model that computes its '
        'signals only from values its use callback recorded and a derived quantity only from its change callback; after every '
        'operation the recorded values must equal the current ones and scores must equal the definition; inside every signal evaluation the use record must be current')
ASSUMPTIONS = ['the same on a model whose callbacks raise for some values, the caller handling the error: evaluations made afterwards must still follow a use callback with the current values', 'number and order of callback invocations are not constrained, only what they saw']

OPS = [('assign', 'p', 3.), ('assign', 'q', -1.), ('fix', 'p'), ('fix', 'r', .25), ('vary', 'p', 2., .5, (-10., 10.)), ('vary', 'p', None, .5, (-20., 20.)), ('set_value', 'p', -3.),
       ('vary', 'q', .1, .2, (-8., 8.)), ('linstep', 'r', .5, 1., 3), ('logstep', 'q', 1., 4., 3), ('p', 'r', 'next'), ('p', 'r', 'prev'), ('p', 'r', 'last'), ('p', 'r', 'first'),
       ('next',), ('reset',), ('score',), ('fit',), ('mapfit',), ('sim',), ('restore',), ('one',), ('add',)]
FEW = [0, 4, 6, 8, 9, 10, 14, 15, 16]


def units(tier):
    u = []
    for inf in ('WatchChi', 'WatchBayes', 'GuardChi', 'WatchPlane', 'WatchVec'):
        for i in range(len(OPS)):
            u.append({'inf': inf, 'ops': 'all', 'first': i, 'depth': 3 if tier == 'thorough' else 2})
        for i in range(len(FEW)):
            u.append({'inf': inf, 'ops': 'few', 'first': i, 'depth': 5 if tier == 'thorough' else 3})
    return u


def run_unit(unit, ctx):
    import numpy as np
    from vmc import piemodels, pieref
    from vmc.canon import canon
    from inference.pie.param import ParamRangeError
    cls = getattr(piemodels, unit['inf'])
    guard = unit['inf'] == 'GuardChi'
    kind = {'WatchBayes': 'bayes', 'WatchPlane': 'like', 'WatchVec': 'like'}.get(unit['inf'], 'chi2')
    model = 'Plane' if unit['inf'] == 'WatchPlane' else 'Lin3'
    ops = OPS if unit['ops'] == 'all' else [OPS[i] for i in FEW]
    snap = {}

    def build():
        inf = cls()
        if 's' not in snap:
            other = cls()
            other.p, other.q, other.r = 2.5, .75, .5
            other.score()
            snap['s'] = other.get_params()
        return inf

    def apply(inf, op, hist):
        if not guard:
            return perform(inf, op)
        try:
            return perform(inf, op)
        except ValueError:
            pass        # the model's callback objected; the caller goes on

    def perform(inf, op):
        np.random.seed(3)
        k = op[0]
        if k == 'score':
            inf.score()
        elif k in ('fit', 'mapfit'):
            if len(inf.stepping_params) > 1:
                return False
            if k == 'mapfit':
                inf.map_bounds()
            try:
                inf.fit()
            except ParamRangeError:
                pass
            inf.unmap_bounds()
        elif k == 'sim':
            inf.d1.sim()
            inf.d2.sim1(0)
            # the simulated values come from the current model: checked through w_stale
        elif k == 'one':
            # only the second data set is used
            if not abs(float(inf.d2.chisqr()) + 2*float(inf.d2.log_like())) <= 1e-9*abs(float(inf.d2.chisqr())):
                ctx.fail('chi-squared is not minus twice the log likelihood of a data set', [op])
        elif k == 'add':
            if guard and inf.now()[1] < -.5:
                return False    # the model cannot be evaluated, so nothing can be simulated
            inf.d2.add_sim([.5, -1.] if model == 'Plane' else .5, .25)
        elif k == 'restore':
            try:
                inf.set_params(snap['s'])
            except Exception:
                pass
        else:
            try:
                pieref.apply_real(inf, op)
            except Exception:
                pass

    def check(inf, hist):
        now = inf.now()
        if getattr(inf, 'w_stale', None):
            ctx.fail('a signal was evaluated with values %r recorded at use while the parameters were %r, after %r' % (inf.w_stale + (list(hist),)), hist)
        if not guard and inf.w_derived != now:
            ctx.fail('the change callback last saw %r but the parameters are %r after %r' % (inf.w_derived, now, list(hist)), hist)
        for n, v in zip('pqr', now):
            if not guard and inf.w_log.get(n) != v:
                ctx.fail('the change callback saw %s = %r but it is %r after %r' % (n, inf.w_log.get(n), v, list(hist)), hist)
        sets = [(getattr(inf, d).locns, getattr(inf, d).vals, getattr(inf, d).sigmas) for d in ('d1', 'd2')]
        want = piemodels.ref_score(kind, model, now, sets)
        try:
            got = float(inf.score())
        except ValueError:
            if guard and now[1] < -.5:
                ctx.outcome((now, 'rejected on use'))
                return
            raise
        if guard and now[1] < -.5:
            ctx.fail('a score was computed although the use callback rejects the parameters %r, after %r' % (now, list(hist)), hist)
        if not abs(got - want) <= 1e-9*max(1., abs(want)) or getattr(inf, 'w_stale', None):
            ctx.fail('score %r computed from callbacks, expected %r for parameters %r after %r' % (got, want, now, list(hist)), hist)
        ctx.outcome((now, want))

    bfs(ctx, build, ops, apply, check, lambda w: canon(w), unit['depth'], [ops[unit['first']]])
