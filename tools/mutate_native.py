#!/usr/bin/env python3
"""Line mutations of the Fortran and C sources; otherwise like mutate.py.  tools/mutate_native.py run OUTDIR [-j N] [--every K] FILE..."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, argv = ['x', 'gen', 'utils/rng.py'], sys.argv
_so = sys.stdout
sys.stdout = open(os.devnull, 'w')
spec = importlib.util.spec_from_file_location('mutate', VERIF + '/tools/mutate.py')
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
sys.stdout, sys.argv = _so, argv
CHECKS = {'count/_cbmlike.f': 'C29 C30', 'grid/_gridquad.f': 'C22 C23', 'deriv/_obsinfo.f': 'C14 C13', 'integrate/adapt_py.f': 'C28', 'integrate/': 'C28',
          'gauss/vbamodule.c': 'C31', 'mc/sampford.c': 'C35', 'mc/compact5table.c': 'C32 C36 C35', 'mc/_ppssampler.c': 'C35 C36 C32', 'mc/randomkit.c': 'C32 C35'}
BASE = M.BASE
SUB = [(r'\.lt\.', '.le.'), (r'\.le\.', '.lt.'), (r'\.gt\.', '.ge.'), (r'\.ge\.', '.gt.'), (r'\.eq\.', '.ne.'), (r'\.ne\.', '.eq.'), (r'\.and\.', '.or.'), (r'\.or\.', '.and.')]
CSUB = [(r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'(?<![<\-=])<(?![<=])', '<='), (r'(?<![>\-])>(?![>=])', '>='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+\+', '--'), (r'\+=', '-='), (r'\-=', '+='),
        (r'(?<![>*])\*(?![*=])', '/')]
BOTH = [(r'(?<![+eEdD(=,])\s\+\s', ' - '), (r'(?<![eEdD(=,])\s-\s', ' + '), (r'(?<=[\w)])\*(?=[\w(])(?!\*)', '/'), (r'(?<=[\w)])/(?=[\w(])', '*'), (r'(?<=[\w)])\+(?=[\w(])', '-'), (r'(?<=[\w)])-(?=[\w(])', '+')]


def mutants(f):
    src = open(BASE + f, errors='surrogateescape').read()
    ls = src.split('\n')
    out = []
    fort = f.endswith('.f')
    inc = False
    for i, l in enumerate(ls):
        if fort:
            if not l.strip() or l[0] in 'cC*!' or l.strip().startswith('!') or re.match(r'(?i)\s*(integer|real|double|subroutine|function|common|external|implicit|parameter|logical|save|character|data|return|end\b|format|dimension|print|write)', l):
                continue
            body, off = l[6:], 6
        else:
            if '/*' in l:
                inc = True
            was = inc
            if '*/' in l:
                inc = False
            if was or not l.strip() or l.lstrip().startswith(('#', '//', 'static', '"', 'int ', 'double ', 'PyArg', 'extern')):
                continue
            body, off = l, 0
            if '"' in l:
                continue
        cands = []
        for pat, new in (SUB if fort else CSUB) + BOTH:
            for mo in re.finditer(pat, body):
                cands.append((body[:mo.start()] + new + body[mo.end():], 'op'))
        for mo in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', body):
            cands.append((body[:mo.start()] + str(int(mo.group()) + 1) + body[mo.end():], 'const'))
            if int(mo.group()) > 0:
                cands.append((body[:mo.start()] + str(int(mo.group()) - 1) + body[mo.end():], 'const'))
        for mo in re.finditer(r'(?<![\w.])(\d+\.\d*|\.\d+)', body):
            v = float(mo.group())
            cands.append((body[:mo.start()] + repr(v*1.5 if v else 1.) + body[mo.end():], 'const'))
        if fort and re.match(r'\s*[\w(),+\- ]+=', body) and not re.match(r'\s*(do|if)\b', body, re.I) and (i + 1 >= len(ls) or not re.match(r'     \S', ls[i + 1])) and l[5:6] == ' ':
            cands.append((' continue', 'del'))
        if not fort and re.match(r'\s*[\w\[\]>.\-+*() ]+\s*[-+*/]?=[^=].*;\s*$', body):
            cands.append((';', 'del'))
        if not fort and re.match(r'\s*Py_(INC|DEC)REF', body):
            continue
        for b, op in cands:
            t = ls[:i] + [l[:off] + b] + ls[i + 1:]
            out.append((i + 1, op, l.strip()[:90], b.strip()[:90], '\n'.join(t)))
    return out


def checks(f):
    return (CHECKS.get(f) or CHECKS[f.split('/')[0] + '/']).split()


def run_one(args):
    k, f, m = args
    slot = '/tmp/mut/w%d' % os.getpid()
    if not os.path.isdir(slot):
        shutil.copytree(M.SRC + '/package', slot + '/package', ignore=shutil.ignore_patterns('*.dSYM', '.git'))
        os.makedirs(slot + '/tmp', exist_ok=True)
        if os.path.isdir(M.SRC + '/build/vp'):
            shutil.copytree('/repo/build/vp', slot + '/build/vp')
        s = open('/opt/vp/buildext.py').read().replace('/repo/', slot + '/')
        open(slot + '/buildext.py', 'w').write(s)
    dst = slot + '/package/inference/' + f
    orig = open(BASE + f, errors='surrogateescape').read()
    open(dst, 'w', errors='surrogateescape').write(m[4])
    env = dict(os.environ, VP_REPO=slot, PYTHONPATH=slot + '/package:' + VERIF, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', HOME='/root',
               PATH='/opt/venv/bin:' + os.environ['PATH'], MPLCONFIGDIR=M.SRC + '/build/vp/mpl', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=slot + '/tmp', VERIF_SEED='1')
    t = time.time()
    try:
        b = None
        if not f.startswith(('mc/', 'gauss/')):
            b = subprocess.run(['/opt/venv/bin/python', slot + '/buildext.py'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if b is not None and b.returncode:
            v = ['build', b.stdout.decode(errors='replace')[-100:]]
        else:
            p = subprocess.run(['/opt/venv/bin/python', '-B', '-c', M.RUN] + checks(f), env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500)
            o = p.stdout.decode().strip().splitlines()
            v = json.loads(o[-1]) if o else ['?', p.stderr.decode()[-300:]]
    except subprocess.TimeoutExpired:
        v = ['?', 'timeout']
    open(dst, 'w', errors='surrogateescape').write(orig)
    shutil.rmtree(slot + '/tmp', ignore_errors=True)
    os.makedirs(slot + '/tmp', exist_ok=True)
    return f, {'k': k, 'line': m[0], 'op': m[1], 'old': m[2], 'new': m[3], 'verdict': v, 's': round(time.time() - t, 1)}


M.mutants, M.run_one, M.checks = (lambda p: mutants(p[len(BASE):])), run_one, checks
if __name__ == '__main__':
    M.main()
