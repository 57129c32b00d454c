"""C16: backups and crash safety of every save path."""
PROP = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('for every save path (array and attribute stores, new and reopened, safe_open in each mode, backup, random state) and every number of earlier saves: the process is '
        'killed before each file-changing libc call, after every prefix of each write, or the call fails with ENOSPC/EACCES; then a second save is run from every distinct state '
        'left behind, again with every fault; after each execution the last completely saved version must be intact under the name or one of its two backups. '
        'A distinct outcome is a distinct set of files (name, size) with the way the process ended')
ASSUMPTIONS = ['process death, not power loss: data handed to the kernel survive', 'writes longer than 24 bytes are torn at 1, n/2, n-1 and n bytes in the quick tier, at every byte up to 400 bytes in the thorough tier; the recovery save starts from one state per kind of partly written file in the quick tier, from every state in the thorough tier',
               'one crash followed by one (possibly crashing) recovery save; the two-backup scheme does not cover a third']

KINDS = ['arr', 'arr-reopen', 'att', 'att-reopen', 'open-text', 'open-bin', 'open-bin2', 'open-opener', 'backup', 'rng', 'rng-restore']


def units(tier):
    u = []
    for k in KINDS:
        for prior in range(5):
            u.append({'kind': k, 'prior': prior, 'abs': prior % 2})
    for k in ('arr', 'att'):
        u.append({'kind': k, 'prior': 3, 'nosuffix': 1})
        u.append({'kind': k, 'prior': 2, 'big': 6000})
    u.append({'kind': 'open-text', 'prior': 2, 'big': 30000})
    for k in ('open-text', 'open-bin', 'open-bin2', 'open-opener', 'backup'):
        u.append({'kind': k, 'contents': 6 if tier == 'thorough' else 5})
    return u


def contents(unit, ctx):
    """Without faults: every sequence of contents, empty ones and repetitions included."""
    import itertools
    import os
    import shutil
    import tempfile
    from inference.utils import ioutils
    kind = unit['kind']
    root = os.path.realpath(tempfile.mkdtemp(prefix='vmc16.'))
    cwd = os.getcwd()
    C = ['', 'a', 'longer content\nof two lines\n']
    try:
        for n in range(1, unit['contents'] + 1):
            for seq in itertools.product(range(3), repeat=n):
                ctx.at((kind, seq))
                d = tempfile.mkdtemp(dir=root)
                os.chdir(d)
                for i, c in enumerate(seq):
                    t = C[c]
                    if kind == 'backup':
                        ioutils.backup('f.dat')
                        f = open('f.dat', 'w')
                    elif kind == 'open-text':
                        f = ioutils.safe_open('f.dat')
                    elif kind == 'open-opener':
                        f = ioutils.safe_open('f.dat', False, open, 'w')
                    else:
                        f = ioutils.safe_open('f.dat', **({'binary': True} if kind == 'open-bin2' else {'binary': 'b'}))
                        t = t.encode()
                    f.write(t)
                    f.close()
                    have = {}
                    for x in os.listdir(d):
                        with open(os.path.join(d, x)) as g:
                            have[x] = g.read()
                    want = {'f.dat' + '%'*j: C[seq[i - j]] for j in range(min(i + 1, 3))}
                    ctx.step()
                    if have != want:
                        ctx.fail('%s: after saving %r the files are %r, expected %r' % (kind, [C[k] for k in seq[:i + 1]], have, want), {'kind': kind, 'contents': list(seq[:i + 1])})
                ctx.case()
                ctx.trace()
                ctx.outcome((kind, seq[-3:]))
                os.chdir(root)
                shutil.rmtree(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def shim():
    import os
    import subprocess
    import tempfile
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native', 'crashshim.c')
    d = tempfile.mkdtemp(prefix='vmcshim.')
    so = os.path.join(d, 'crashshim.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-w', '-o', so, src, '-ldl'], check=True)
    return d, so


def run_unit(unit, ctx):
    import json
    import os
    import shutil
    import subprocess
    import sys
    import tempfile
    if unit.get('contents'):
        return contents(unit, ctx)
    d, so = shim()
    try:
        out = os.path.join(d, 'out.json')
        env = dict(os.environ, LD_PRELOAD=so, VMC_SHIM=so)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, '-B', os.path.join(here, 'crashrun.py'), json.dumps(unit), out, ctx.tier], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if p.returncode or not os.path.exists(out):
            raise RuntimeError('crash run ended with %r: %s' % (p.returncode, p.stdout.decode(errors='replace')[-1500:]))
        with open(out) as f:
            r = json.load(f)
        ctx.case(r['cases'])
        for s in r['states']:
            ctx.outcome((unit['kind'], s))
        for s in r['samples']:
            ctx.sample(s)
        if r['violation']:
            ctx.fail(r['violation']['msg'], r['violation']['case'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
