"""Common machinery of the checks: units of exploration run in worker processes against the real code.

A check module defines
    PROP   the property id
    LEVEL  evidence level
    RULE   what a case is and what makes it non-trivial
    units(tier)          -> list of JSON-able units, simplest first
    run_unit(unit, ctx)  -> explores every execution of the unit, calling ctx.* to count, ctx.fail() to report
Every exploration is exhaustive inside a unit; nothing is sampled.  Unexpected exceptions raised out of
run_unit, death of a worker (segmentation fault, exit) and a unit that never ends are violations as well: in
each case the code under test did something no execution of it may do.
"""
import hashlib
import importlib
import json
import mmap
import os
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
UNIT_TIMEOUT = 150.
WORKER_AS = 6 << 30


class Violation(Exception):
    def __init__(self, msg, case=None, key=None):
        Exception.__init__(self, msg)
        self.msg, self.case, self.key = msg, case, key


def h64(x):
    if not isinstance(x, bytes):
        x = repr(x).encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Ctx:
    """Counters of one unit."""

    def __init__(self, crumb=None, tier='quick'):
        self.states, self.outcomes = set(), set()
        self.transitions = self.evaluations = self.traces = self.nontrivial = 0
        self.samples = []
        self.findings = []     # list of (key, msg, case)
        self.known = frozenset()
        self.crumb = crumb
        self.tier = tier
        self.notes = {}

    def at(self, case):
        """Leave a breadcrumb: what is about to be executed (used when the worker dies or hangs)."""
        if self.crumb is not None:
            b = repr(case).encode()[:4000]
            self.crumb[0:4] = struct.pack('i', len(b))
            self.crumb[4:4 + len(b)] = b

    def state(self, key):
        k = h64(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.transitions += n

    def case(self, n=1):
        self.evaluations += n

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, msg, case=None, key=None):
        if key is not None and key in self.known:
            self.note('known:' + key)
            return
        raise Violation(msg, case, key)


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in d.get('findings', []) if e.get('property') == prop and e.get('status') == 'open']


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        x = float(x)
        return x if x == x and x not in (float('inf'), float('-inf')) else repr(x)
    try:
        return jsonable(x.tolist())
    except AttributeError:
        return repr(x)


def rebuild():
    """Rebuild the extension modules from /repo's working tree (no-op when they are up to date)."""
    env = dict(os.environ)
    p = subprocess.run([sys.executable, '/opt/vp/buildext.py'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=env, timeout=600)
    if p.returncode:
        sys.stdout.write(p.stdout.decode(errors='replace')[-3000:])
        raise SystemExit('check error: the extension modules of /repo do not build')


def run_one(mod, unit, crumb, tier, known):
    ctx = Ctx(crumb, tier)
    ctx.known = known
    viol = None
    try:
        mod.run_unit(unit, ctx)
    except Violation as v:
        viol = {'msg': v.msg, 'case': jsonable(v.case)}
    except BaseException:
        viol = {'msg': 'unexpected exception while exploring this unit', 'case': None,
                'trace': traceback.format_exc()[-3000:]}
        if crumb is not None:
            n = struct.unpack('i', crumb[0:4])[0]
            viol['case'] = crumb[4:4 + n].decode(errors='replace')
    return {'violation': viol, 'states': list(ctx.states), 'outcomes': list(ctx.outcomes),
            'transitions': ctx.transitions, 'evaluations': ctx.evaluations, 'traces': ctx.traces,
            'nontrivial': ctx.nontrivial, 'samples': jsonable(ctx.samples), 'notes': ctx.notes}


def worker(modname, units, rfd, wfd, crumb, tier, known):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    nul = os.open('/dev/null', os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(nul, fd)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_AS, WORKER_AS))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import warnings
    warnings.simplefilter('ignore')
    mod, imperr = None, None
    while True:
        b = os.read(rfd, 4)
        if len(b) < 4:
            os._exit(0)
        i = struct.unpack('i', b)[0]
        if i < 0:
            os._exit(0)
        crumb[0:4] = struct.pack('i', 0)
        if mod is None and imperr is None:
            try:
                mod = importlib.import_module(modname)
                if hasattr(mod, 'setup'):
                    mod.setup()
            except BaseException:
                imperr = traceback.format_exc()[-3000:]
        if imperr is not None:
            res = {'violation': {'msg': 'the code under test could not be imported or set up', 'case': None,
                                 'trace': imperr}, 'states': [], 'outcomes': [], 'transitions': 0,
                   'evaluations': 0, 'traces': 0, 'nontrivial': 0, 'samples': [], 'notes': {}}
        else:
            import numpy
            numpy.seterr(all='ignore')
            res = run_one(mod, units[i], crumb, tier, known)
        out = json.dumps(res).encode()
        out = struct.pack('q', len(out)) + out
        while out:
            n = os.write(wfd, out)
            out = out[n:]


class Proc:
    def __init__(self, modname, units, tier, known):
        self.crumb = mmap.mmap(-1, 4096)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(w1)
                os.close(r2)
                worker(modname, units, r1, w2, self.crumb, tier, known)
            finally:
                os._exit(70)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.unit, self.t0, self.c0, self.buf = None, 0., 0., b''

    def cpu(self):
        """Processor time of the worker and the children it has waited for."""
        try:
            with open('/proc/%d/stat' % self.pid) as f:
                v = f.read().rsplit(')', 1)[1].split()
            return sum(int(t) for t in v[11:15]) / os.sysconf('SC_CLK_TCK')
        except (OSError, ValueError, IndexError):
            return 1e9

    def give(self, i):
        self.unit, self.t0, self.c0, self.buf = i, time.time(), self.cpu(), b''
        try:
            os.write(self.w, struct.pack('i', i))
        except BrokenPipeError:
            pass

    def where(self):
        n = struct.unpack('i', self.crumb[0:4])[0]
        return self.crumb[4:4 + n].decode(errors='replace')

    def close(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        st = 0
        try:
            st = os.waitpid(self.pid, 0)[1]
        except OSError:
            pass
        os.close(self.w)
        os.close(self.r)
        return st


def run_check(modname, prop, tier, seed, only=None):
    t0 = time.time()
    mod0 = importlib.import_module(modname)     # must not import the code under test at module level
    units = mod0.units(tier)
    if only is not None:
        units = [only]
    known = known_findings(prop)
    kkeys = frozenset(e['key'] for e in known)
    timeout = getattr(mod0, 'UNIT_TIMEOUT', UNIT_TIMEOUT)
    if tier == 'thorough':
        timeout *= 6
    nproc = min(int(os.environ.get('VP_JOBS', '8')), len(units), getattr(mod0, 'MAXPROC', 8))
    procs = [Proc(modname, units, tier, kkeys) for _ in range(nproc)]
    pending = list(range(len(units)))
    results, viols = {}, []
    idle = list(procs)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    try:
        while True:
            while idle and pending and not viols:
                idle.pop().give(pending.pop(0))
            busy = [p for p in procs if p.unit is not None]
            if not busy:
                break
            rl, _, _ = select.select([p.r for p in busy], [], [], 1.0)
            now = time.time()
            for p in busy:
                if p.r in rl:
                    b = os.read(p.r, 1 << 20)
                    if b:
                        p.buf += b
                        if len(p.buf) >= 8:
                            n = struct.unpack('q', p.buf[:8])[0]
                            if len(p.buf) >= 8 + n:
                                res = json.loads(p.buf[8:8 + n])
                                results[p.unit] = res
                                if res['violation']:
                                    viols.append((p.unit, res['violation']))
                                p.unit = None
                                idle.append(p)
                        continue
                    # the worker died
                    u, wh = p.unit, p.where()
                    st = p.close()
                    procs.remove(p)
                    how = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
                    viols.append((u, {'msg': 'the process died (%s) while running the code under test' % how,
                                      'case': wh}))
                elif now - p.t0 > timeout and (p.cpu() - p.c0 > .75 * timeout or now - p.t0 > 4. * timeout):
                    # judged by processor time, so that a machine busy with something else raises no alarm
                    u, wh = p.unit, p.where()
                    p.close()
                    procs.remove(p)
                    viols.append((u, {'msg': 'no answer after %.0f s: the code under test does not terminate here'
                                      % timeout, 'case': wh}))
                elif viols and now - p.t0 > 20. and any(v[0] < p.unit for v in viols):
                    p.close()
                    procs.remove(p)
    finally:
        for p in list(procs):
            p.close()
    states, outcomes, notes, samples = set(), set(), {}, []
    tot = dict(transitions=0, evaluations=0, traces=0, nontrivial=0)
    for i in sorted(results):
        r = results[i]
        states.update(r['states'])
        outcomes.update(r['outcomes'])
        for k in tot:
            tot[k] += r[k]
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        if r['samples']:
            samples.append({'unit': units[i], 'samples': r['samples']})
    if len(samples) > 5:
        samples = [samples[(len(samples) - 1) * j // 4] for j in range(5)]
    level = getattr(mod0, 'LEVEL', 'model_checking')
    cov = {'units': len(units), 'units_completed': len(results), 'exhaustive': not viols,
           'distinct_observations': len(outcomes), 'rule': mod0.RULE, 'samples': samples}
    if level == 'model_checking':
        cov.update(states=len(states), transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['evaluations'] or tot['transitions'], distinct_nontrivial=len(outcomes))
        if states:
            cov.update(states=len(states), transitions=tot['transitions'])
    if notes:
        cov['notes'] = notes
    viols.sort(key=lambda v: v[0])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod0, 'ASSUMPTIONS', []), 'violations': len(viols),
          'wall_s': round(time.time() - t0, 3)}
    return ev, viols, units, [e for e in known if ('known:' + e['key']) in notes]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    modname = 'vmc.checks.' + prop.lower()
    rebuild()
    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)['unit']
    ev, viols, units, kf = run_check(modname, prop, tier, seed, only)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not a.replay:
        tmp = os.path.join(evdir, prop + '.json.tmp%d' % os.getpid())
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(evdir, prop + '.json'))
    c = ev['coverage']
    print('%s %s: %d units, %s, %.1f s' % (prop, tier, c['units'], ', '.join(
        '%s=%s' % (k, c[k]) for k in ('states', 'transitions', 'traces_validated_against_impl', 'evaluations',
                                      'distinct_nontrivial', 'distinct_observations') if k in c), ev['wall_s']))
    for e in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if viols:
        i, v = viols[0]
        rep = os.path.join(evdir, 'replays')
        os.makedirs(rep, exist_ok=True)
        path = a.replay or os.path.join(rep, '%s-%s.json' % (prop, tier))
        if not a.replay:
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'unit': units[i], 'violation': v,
                           'replay_cmd': './check %s --tier %s --replay %s' % (prop, tier, path)}, f, indent=1)
                f.write('\n')
        print('  ' + v['msg'])
        if v.get('case') is not None:
            print('  case: ' + str(v['case'])[:1500])
        if v.get('trace'):
            print(v['trace'][-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


