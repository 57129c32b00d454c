"""Reference model of a set of parameters: plain numbers, lists and indices."""

UNDEF, FIXED, STEPPING, VARYING = 'undef', 'fixed', 'stepping', 'varying'


class Refused(Exception):
    pass


class DontCare(Exception):
    """The reference does not define what happens here."""


class P:
    def __init__(self, default):
        self.status, self.value = FIXED, default
        self.lo = self.hi = None
        self.bounded = False
        self.delta = None            # given by vary
        self.stepdelta = False       # a step definition may have left a scale behind
        self.slo = self.shi = self.n = self.idx = self.log = None
        self.dir = 1
        self.given = True            # the value is one that was given, not one that was stepped to

    def stepval(self, i):
        if i == 0:
            return float(self.slo)
        if i == self.n - 1:
            return float(self.shi)
        if self.log:
            return self.slo*(self.shi/float(self.slo))**(i/(self.n - 1.))
        return self.slo + (self.shi - self.slo)*(i/(self.n - 1.))


class Ref:
    """What an inference with the given parameters must show after a history of operations."""

    def __init__(self, defaults):
        self.p = {k: P(v) for k, v in defaults.items()}
        self.varying, self.stepping = [], []

    def _status(self, name, new):
        p = self.p[name]
        old = p.status
        p.status = new
        if old == STEPPING and new != STEPPING:
            self.stepping.remove(name)
            self._reset()
        if old == VARYING and new != VARYING:
            self.varying.remove(name)
        if new == VARYING and old != VARYING:
            self.varying.append(name)
        if new == STEPPING:
            if old != STEPPING:
                self.stepping.append(name)
            self._reset()

    def _reset(self):
        for n in self.stepping:
            p = self.p[n]
            p.idx, p.dir = 0, 1
            p.value, p.given = p.stepval(0), False

    def _inrange(self, p, v):
        if p.bounded and not (v >= p.lo and v <= p.hi):
            raise Refused

    # operations
    def assign(self, name, v):
        p = self.p[name]
        self._inrange(p, v)
        p.value, p.given = v, True
        self._status(name, FIXED)

    def fix(self, name, v=None):
        if v is not None:
            return self.assign(name, v)
        self._status(name, FIXED)

    def range(self, name, lo, hi):
        p = self.p[name]
        p.lo, p.hi, p.bounded = min(lo, hi), max(lo, hi), True

    def set_value(self, name, v):
        p = self.p[name]
        if p.status != VARYING:
            raise Refused
        self._inrange(p, v)
        p.value, p.given = v, True

    def vary(self, name, start=None, delta=None, rng=None):
        p = self.p[name]
        lo, hi, b = p.lo, p.hi, p.bounded
        if rng is not None:
            lo, hi, b = min(rng), max(rng), True
        if not b:
            raise Refused
        v = p.value if start is None else start
        if not (v >= lo and v <= hi):
            raise Refused
        if delta is None and p.delta is None:
            if p.stepdelta:
                raise DontCare
            raise Refused
        p.lo, p.hi, p.bounded = lo, hi, True
        if delta is not None:
            p.delta = delta
        p.value = v
        if start is not None:
            p.given = True
        self._status(name, VARYING)

    def steps(self, name, lo, hi, n, log):
        p = self.p[name]
        if lo is None or hi is None:
            if not p.bounded:
                raise Refused
            lo = p.lo if lo is None else lo
            hi = p.hi if hi is None else hi
        if p.bounded and not (p.lo <= lo <= p.hi and p.lo <= hi <= p.hi):
            raise Refused
        if log and lo*hi <= 0:
            raise Refused
        if n < 2:
            raise Refused
        p.slo, p.shi, p.n, p.log, p.idx, p.dir = lo, hi, n, log, 0, 1
        p.stepdelta = True
        p.value, p.given = float(lo), False
        self._status(name, STEPPING)

    def linstep(self, name, lo=None, hi=None, n=10):
        self.steps(name, lo, hi, n, False)

    step = linstep

    def logstep(self, name, lo=None, hi=None, n=10):
        self.steps(name, lo, hi, n, True)

    def pstep(self, name, which):
        p = self.p[name]
        if p.status != STEPPING:
            raise Refused
        i = {'next': p.idx + 1, 'prev': p.idx - 1, 'first': 0, 'last': p.n - 1}[which]
        if not 0 <= i < p.n:
            raise Refused
        p.idx = i
        p.value, p.given = p.stepval(i), False

    def grid_next(self):
        """Zig-zag step; returns False when the walk is over (and the grid has been reset)."""
        if not self.stepping:
            raise Refused
        for n in self.stepping:
            p = self.p[n]
            if 0 <= p.idx + p.dir < p.n:
                p.idx += p.dir
                p.value, p.given = p.stepval(p.idx), False
                return True
            if n == self.stepping[-1]:
                self._reset()
                return False
            p.dir = -p.dir

    def grid_reset(self):
        self._reset()

    def show(self):
        out = {}
        for n, p in self.p.items():
            d = [p.status, p.value]
            d.append((p.lo, p.hi) if p.bounded else None)
            d.append((float(p.slo), float(p.shi), p.n, p.log, p.idx) if p.status == STEPPING else None)
            d.append(p.given)
            out[n] = d
        return {'params': out, 'varying': list(self.varying), 'stepping': list(self.stepping),
                'fixed': sorted(n for n in self.p if self.p[n].status == FIXED),
                'nums': tuple(self.p[n].idx for n in self.stepping),
                'shape': tuple(self.p[n].n for n in self.stepping)}


def real_show(inf, names):
    """The same observation of a real inference, through its public surface."""
    from inference.pie.param import Status, StepType
    st = {Status.undef: UNDEF, Status.fixed: FIXED, Status.stepping: STEPPING, Status.varying: VARYING}
    out = {}
    for n in names:
        x = getattr(inf, n)
        s = st.get(x.status, 'bad status %r' % (x.status,))
        d = [s, float(x)]
        if float(x.get_value()) != float(x) and not (float(x) != float(x)):
            d[1] = 'value mismatch %r %r' % (float(x.get_value()), float(x))
        d.append((x.lo, x.hi) if x.bounded else None)
        if s == STEPPING:
            d.append((float(x.slo), float(x.shi), int(x.steps), x.stype == StepType.log_steps, x.step_index()))
        else:
            d.append(None)
        out[n] = d
    return {'params': out, 'varying': [h.name for h in inf.varying_params],
            'stepping': [h.name for h in inf.stepping_params],
            'fixed': sorted(h.name for h in inf.fixed_params),
            'nums': tuple(int(i) for i in inf.step_nums()), 'shape': tuple(int(i) for i in inf.step_shape())}


def close(a, b, tol=1e-9):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or abs(a - b) <= tol*max(1., min(abs(a), abs(b))) or (a != a and b != b)


def diff(ref, real):
    """First difference between two observations, or None; values that were given are kept to the last digit."""
    for k in ('varying', 'stepping', 'fixed', 'nums', 'shape'):
        if ref[k] != real[k]:
            return '%s: expected %r, got %r' % (k, ref[k], real[k])
    for n in ref['params']:
        a, b = ref['params'][n], real['params'][n]
        if a[0] != b[0]:
            return '%s status: expected %s, got %s' % (n, a[0], b[0])
        if not close(a[1], b[1], 0. if a[4] else 1e-9):
            return '%s value: expected %r, got %r' % (n, a[1], b[1])
        for what, i in (('range', 2), ('steps', 3)):
            if (a[i] is None) != (b[i] is None) or (a[i] is not None and not all(
                    close(u, v, 1e-9 if i == 3 else 0.) for u, v in zip(a[i], b[i]))):
                return '%s %s: expected %r, got %r' % (n, what, a[i], b[i])
    return None


def apply_ref(ref, op):
    kind, args = op[0], op[1:]
    if kind == 'next':
        return ref.grid_next()
    if kind == 'reset':
        return ref.grid_reset()
    if kind == 'p':
        return ref.pstep(args[0], args[1])
    return getattr(ref, kind)(*args)


def apply_real(inf, op):
    kind, args = op[0], op[1:]
    if kind == 'assign':
        setattr(inf, args[0], args[1])
        return
    if kind == 'next':
        from inference.pie.signalmodel import StopStepping
        try:
            inf.next_step()
            return True
        except StopStepping:
            return False
    if kind == 'reset':
        inf.reset_steps()
        return
    if kind == 'p':
        x = getattr(inf, args[0])
        return getattr(x, args[1] + '_step')()
    x = getattr(inf, args[0])
    if kind == 'vary':
        kw = {}
        for k, v in zip(('start', 'delta', 'range'), args[1:]):
            if v is not None:
                kw[k] = v
        return x.vary(**kw)
    if kind in ('linstep', 'logstep', 'step'):
        kw = {}
        for k, v in zip(('lo', 'hi', 'n'), args[1:]):
            if v is not None:
                kw[k] = v
        return getattr(x, kind)(**kw)
    return getattr(x, kind)(*args[1:])


def both(ref, inf, op, ctx, hist):
    """Apply one operation on both sides; returns False when the reference does not define the outcome."""
    try:
        a = apply_ref(ref, op)
        refused = False
    except Refused:
        refused = True
    except DontCare:
        return False
    err = None
    try:
        b = apply_real(inf, op)
    except Exception as e:
        err = e
    if refused != (err is not None):
        ctx.fail('%r should be %s but was %s' % (op, 'refused' if refused else 'accepted',
                                                 'accepted' if refused else 'refused with %r' % err), hist)
    if not refused and op[0] == 'next' and a != b:
        ctx.fail('grid step: expected %s' % ('to move' if a else 'the end of the walk'), hist)
    return True
