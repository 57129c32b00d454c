"""Run in a process with the crash shim preloaded: explores every crash point of the save histories of one unit.

Each execution is a forked child that is killed (or given an error) at one file-changing libc call; this process looks at what is left."""
import ctypes
import errno
import json
import os
import shutil
import sys
import tempfile


def main():
    unit = json.loads(sys.argv[1])
    out = sys.argv[2]
    tier = sys.argv[3]
    import warnings
    warnings.simplefilter('ignore')
    lib = ctypes.CDLL(os.environ['VMC_SHIM'])
    lib.vmc_size.restype = ctypes.c_long
    lib.vmc_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    import numpy as np
    from inference.utils import ioutils, rng
    kind = unit['kind']
    root = os.path.realpath(tempfile.mkdtemp(prefix='vmc16.'))
    d = os.path.join(root, 'd')
    os.mkdir(d)
    os.chdir(d)
    ext = {'arr': '.npz', 'att': '.pkl'}.get(kind.split('-')[0], '.dat')
    name = 'state' + ext
    slots = [name, name + '.1', name + '.2'] if kind.startswith('rng') else [name, name + '%', name + '%%']
    res = {'cases': 0, 'states': [], 'violation': None, 'events': {}, 'samples': []}
    states = set()
    big = unit.get('big', 0)

    class Bad(Exception):
        pass

    def perform(i):
        """Save version i under the name, as a user would."""
        import gzip
        where = os.path.join(d, name) if unit.get('abs') else name
        if kind.startswith('arr'):
            try:
                s = ioutils.ArrayStore(where) if kind == 'arr-reopen' else ioutils.ArrayStore()
                reopened = kind == 'arr-reopen'
            except Exception:
                s, reopened = ioutils.ArrayStore(), False
            s.a = np.arange(i + 3)
            s.b = np.full(4 + big, float(i))
            s.save() if reopened else s.save(where if not unit.get('nosuffix') else where[:-4])
        elif kind.startswith('att'):
            try:
                s = ioutils.AttrStore(where) if kind == 'att-reopen' else ioutils.AttrStore()
                reopened = kind == 'att-reopen'
            except Exception:
                s, reopened = ioutils.AttrStore(), False
            s.a = 'version %d' % i
            s.b = list(range(i, i + 5 + big))
            s.save() if reopened else s.save(where if not unit.get('nosuffix') else where[:-4])
        elif kind == 'open-text':
            f = ioutils.safe_open(where)
            f.write('version %d\n' % i)
            f.flush()
            f.write('end of version %d\n' % i + 'x'*big)
            f.close()
        elif kind == 'open-bin':
            f = ioutils.safe_open(where, 'b')
            f.write(b'version %d' % i + b'y'*big)
            f.close()
        elif kind == 'open-bin2':
            f = ioutils.safe_open(where, binary=True)
            f.write(b'version %d' % i + b'y'*big)
            f.close()
        elif kind == 'open-opener':
            f = ioutils.safe_open(where, False, gzip.open, 'wb', 1)
            f.write(b'version %d' % i + b'z'*big)
            f.close()
        elif kind == 'backup':
            ioutils.backup(where)
            with open(where, 'w') as f:
                f.write('version %d' % i)
        elif kind == 'rng':
            np.random.seed(i)
            np.random.normal()
            rng.save_rng(where)
        elif kind == 'rng-restore':
            # restoring without a saved state saves one
            np.random.seed(i)
            if i == 1:
                rng.restore_rng(where)
            else:
                rng.save_rng(where)

    def snap():
        r = {}
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, 'rb') as h:
                    r[f] = h.read()
        return r

    def put(s):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for f, b in s.items():
            with open(os.path.join(d, f), 'wb') as h:
                h.write(b)

    def run(start, i, k=-1, mode=0, torn=0, err=0):
        """Fork, save version i from the files `start`, with the given fault.  Returns (how it ended, files left, events)."""
        put(start)
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(rfd)
                nul = os.open('/dev/null', os.O_RDWR)
                os.dup2(nul, 1)
                os.dup2(nul, 2)
                lib.vmc_arm(d.encode(), k, mode, torn, err)
                try:
                    perform(i)
                    code = 0
                except BaseException:
                    code = 3
                import gc
                gc.collect()
                lib.vmc_disarm()
                n = lib.vmc_count()
                os.write(wfd, json.dumps([lib.vmc_size(j) for j in range(min(n, 4000))]).encode())
            finally:
                os._exit(code)
        os.close(wfd)
        data = b''
        while True:
            b = os.read(rfd, 65536)
            if not b:
                break
            data += b
        os.close(rfd)
        st = os.waitpid(pid, 0)[1]
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        res['cases'] += 1
        return code, snap(), (json.loads(data) if data else None)

    def points(events):
        """Every fault of a run with these events: (k, mode, torn, errno)."""
        for k, n in enumerate(events):
            yield k, 0, 0, 0
            if n > 0:
                if n <= (400 if tier == 'thorough' else 24):
                    cut = range(1, n + 1)
                else:
                    cut = sorted({1, n//2, n - 1, n})
                for t in cut:
                    yield k, 1, t, 0
            for e in (errno.ENOSPC, errno.EACCES):
                yield k, 2, 0, e

    def holds(s, b):
        return any(s.get(x) == b for x in slots)

    def bad(msg, **case):
        res['violation'] = {'msg': msg, 'case': dict(case, kind=kind, files=None)}
        raise Bad()

    def brief(s):
        return {f: len(b) for f, b in sorted(s.items())}

    try:
        # completed saves
        vers = []
        s = {}
        prior = unit['prior']
        for i in range(1, prior + 1):
            code, s, ev = run(s, i)
            if code:
                bad('save %d failed without any fault' % i, save=i)
            vers.insert(0, s.get(name))
            if vers[0] is None:
                bad('save %d left no file %s' % (i, name), save=i)
            if len(vers) > 1 and vers[0] == vers[1] and kind != 'rng-restore':
                bad('save %d left the old content under the name' % i, save=i)
            for j, b in enumerate(vers[:3]):
                if s.get(slots[j]) != b:
                    bad('after %d saves, %s does not hold the version saved %d saves before' % (i, slots[j], j), save=i)
            for x in slots[len(vers):]:
                if x in s:
                    bad('after %d saves there is a backup %s' % (i, x), save=i)
        last = vers[0] if vers else None
        s0 = dict(s)
        code, s1, events = run(s0, prior + 1)
        if code or not events:
            bad('save %d failed without any fault or changes no file' % (prior + 1), events=events)
        res['events'][str(prior)] = events
        left = {}
        for pt in points(events):
            code, s1, _ = run(s0, prior + 1, *pt)
            case = {'prior': prior, 'fault': pt, 'ended': code, 'left': brief(s1)}
            if code not in (0, 3, 77):
                bad('the save ended with code %r' % code, **case)
            states.add(json.dumps(brief(s1)) + str(code))
            if last is not None and not holds(s1, last):
                bad('the last completely saved version is gone', **case)
            if code == 0:
                # the fault was survived: the save must be complete
                if pt[1] != 2:
                    bad('the process went on after its death', **case)
            # the quick tier continues from one partly written file of each kind, the thorough tier from every one
            key = tuple(sorted(s1.items()) if tier == 'thorough' else sorted((f, b if b in vers or not b else len(s1) if f == name else b) for f, b in s1.items()))
            left.setdefault(key, (s1, code, pt))
            if len(res['samples']) < 2:
                res['samples'].append(case)
        for s1, code1, pt1 in left.values():
            code, s2, ev2 = run(s1, prior + 2)
            case = {'prior': prior, 'first_fault': pt1, 'second_attempt': 'no fault', 'left': brief(s2)}
            if code or not ev2:
                bad('after a crash the next save fails', **case)
            if s2.get(name) is None or s2.get(name) == s1.get(name):
                bad('after a crash the next save leaves no new version', **case)
            keep = [last] if code1 != 0 else [s1.get(name)]
            for b in keep:
                if b is not None and not holds(s2, b):
                    bad('the save after a crash loses the last completely saved version', **case)
            for pt in points(ev2):
                if tier != 'thorough' and (pt[1] == 1 and pt[2] not in (1, ev2[pt[0]]) or pt[3] == errno.EACCES):
                    continue
                code, s3, _ = run(s1, prior + 2, *pt)
                case = {'prior': prior, 'first_fault': pt1, 'second_fault': pt, 'ended': code, 'left': brief(s3)}
                if code not in (0, 3, 77):
                    bad('the save ended with code %r' % code, **case)
                states.add(json.dumps(brief(s3)) + str(code))
                for b in keep:
                    if b is not None and not holds(s3, b):
                        bad('a crash of the save after a crash loses the last completely saved version', **case)
    except Bad:
        pass
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)
    res['states'] = sorted(states)
    with open(out, 'w') as f:
        json.dump(res, f)


main()
