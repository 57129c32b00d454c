#!/usr/bin/env python3
"""Systematic mutation of the Python sources, to find what the checks do not see.

tools/mutate.py gen FILE            list the mutants of a source file of /repo
tools/mutate.py run OUTDIR [-j N] [--every K] FILE...   run the checks that look at each file against every (K-th) mutant, on scratch copies
Results: OUTDIR/<file>.jsonl, one line per mutant: line, operator, text, verdict (check that caught it, or null).
"""
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a frozen copy of /repo (cp -a /repo /tmp/mut/base), so that /repo can be worked on meanwhile
SRC = os.environ.get('MUT_SRC', '/tmp/mut/base')
BASE = SRC + '/package/inference/'
CHECKS = {
    'pie/': 'C02 C01 C04 C05 C10 C11 C06 C09 C12 C03 C13 C07 C08',
    'pie/containers.py': 'C10 C07 C37 C01 C11',
    'pie/autoname.py': 'C11 C01 C06',
    'pie/bayes.py': 'C06 C13 C08 C07',
    'pie/gaussian.py': 'C06 C12 C03 C09 C13 C07',
    'count/onoff.py': 'C29 C30',
    'gauss/vecba.py': 'C31',
    'grid/grid1d.py': 'C24 C25 C26',
    'grid/hpd.py': 'C34 C22 C23',
    'grid/hpdgrid.py': 'C34 C22 C23 C37',
    'integrate/cub2d.py': 'C27', 'integrate/_cub2d_auto.py': 'C27',
    'integrate/adapt.py': 'C28', 'integrate/adapt_vec.py': 'C28',
    'mc/population.py': 'C35 C32', 'mc/pwlinear.py': 'C36',
    'utils/ioutils.py': 'C15 C33 C17 C16', 'utils/nrmin.py': 'C21 C08', 'utils/numutils.py': 'C18 C19 C20',
    'utils/plot_bivar.py': 'C34 C37', 'utils/rng.py': 'C17', 'utils/pl.py': 'C37',
    'deriv/obsinfo.py': 'C14 C13',
}


def checks(f):
    if f in CHECKS:
        return CHECKS[f].split()
    return CHECKS[f.split('/')[0] + '/'].split()


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}
DROP = {'list', 'copy', 'array', 'tuple', 'sorted', 'abs', 'fabs', 'float', 'asarray', 'int', 'exp', 'log', 'sqrt', 'zeros', 'reversed', 'dict', 'max', 'min', 'deepcopy', 'ravel'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    bsrc = src.encode()
    tree = ast.parse(src)
    out = []

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, op):
        a, b = seg(n)
        t = bsrc[:a] + new.encode() + bsrc[b:]
        if t != bsrc:
            try:
                if ast.dump(ast.parse(t.decode())) == ast.dump(tree):
                    return
            except SyntaxError:
                return
            out.append((n.lineno, op, bsrc[a:b].decode()[:80], new[:80], t.decode()))

    def rep(n, m, op):
        add(n, '(%s)' % ast.unparse(m) if isinstance(m, ast.expr) and not isinstance(m, (ast.Constant, ast.Name)) else ast.unparse(m), op)

    def walk(n, infn):
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    visit(c, infn)

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name.startswith('test'):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.deepcopy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            rep(n, m, 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            rep(n, m, 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, n.left, 'left')
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            rep(n, m, 'aug')
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, m, 'bool')
            for k in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[k]
                rep(n, m if len(m.values) > 1 else m.values[0], 'dropcond')
        if isinstance(n, ast.UnaryOp):
            rep(n, n.operand, 'unary')
        if isinstance(n, ast.Constant) and infn:
            if isinstance(n.value, bool):
                rep(n, ast.Constant(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, ast.Constant(n.value + 1), 'const')
                if n.value > 0:
                    rep(n, ast.Constant(n.value - 1), 'const')
            elif isinstance(n.value, float):
                rep(n, ast.Constant(n.value*1.5 + (1. if n.value == 0 else 0)), 'const')
            elif n.value is None and False:
                pass
        if isinstance(n, (ast.If, ast.While)) and infn:
            add(n.test, 'False', 'iffalse')
            if isinstance(n, ast.If):
                add(n.test, 'True', 'iftrue')
        if isinstance(n, ast.IfExp):
            rep(n, n.body, 'ifexp')
            rep(n, n.orelse, 'ifexp')
        if infn and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise, ast.Break, ast.Continue)):
            add(n, 'pass', 'del')
        if infn and isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if name in DROP and len(n.args) == 1:
                rep(n, n.args[0], 'dropcall')
            elif name in ('copy', 'ravel') and not n.args and isinstance(n.func, ast.Attribute):
                rep(n, n.func.value, 'dropcall')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n)
                m.args = m.args[::-1]
                rep(n, m, 'swapargs')
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[k]
                rep(n, m, 'dropkw')
        if isinstance(n, ast.Try) and infn:
            pass
        walk(n, infn or isinstance(n, (ast.FunctionDef, ast.Lambda)))
    walk(tree, False)
    return out


RUN = r'''
import sys, os, json
os.environ['VP_JOBS'] = '1'
from vmc import core
core.UNIT_TIMEOUT = 40.
for c in sys.argv[1:]:
    try:
        ev, viols, units, kf = core.run_check('vmc.checks.' + c.lower(), c, 'quick', 1)
    except BaseException as e:
        print(json.dumps([c, 'ERROR %r' % e])); break
    if viols:
        print(json.dumps([c, viols[0][1]['msg'][:200]])); break
else:
    print(json.dumps(None))
'''


def run_one(args):
    k, f, m = args
    slot = '/tmp/mut/w%d' % os.getpid()
    if not os.path.isdir(slot):
        shutil.copytree(SRC + '/package', slot + '/package', ignore=shutil.ignore_patterns('*.dSYM', '.git'))
        os.makedirs(slot + '/tmp', exist_ok=True)
    dst = slot + '/package/inference/' + f
    orig = open(BASE + f).read()
    with open(dst, 'w') as g:
        g.write(m[4])
    env = dict(os.environ, VP_REPO=slot, PYTHONPATH=slot + '/package:' + VERIF, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               MPLCONFIGDIR=SRC + '/build/vp/mpl', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=slot + '/tmp', VERIF_SEED='1')
    t = time.time()
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-B', '-c', RUN] + checks(f), env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500)
        o = p.stdout.decode().strip().splitlines()
        v = json.loads(o[-1]) if o else ['?', p.stderr.decode()[-300:]]
    except subprocess.TimeoutExpired:
        v = ['?', 'timeout']
    with open(dst, 'w') as g:
        g.write(orig)
    shutil.rmtree(slot + '/tmp', ignore_errors=True)
    os.makedirs(slot + '/tmp', exist_ok=True)
    return f, {'k': k, 'line': m[0], 'op': m[1], 'old': m[2], 'new': m[3], 'verdict': v, 's': round(time.time() - t, 1)}


def main():
    a = sys.argv[1:]
    if a[0] == 'gen':
        ms = mutants(BASE + a[1])
        for m in ms:
            print(m[:4])
        print(len(ms))
        return
    out, j, every = a[1], 8, 1
    a = a[2:]
    while a and a[0].startswith('-'):
        if a[0] == '-j':
            j = int(a[1])
        else:
            every = int(a[1])
        a = a[2:]
    os.makedirs(out, exist_ok=True)
    jobs = []
    for f in a:
        done = set()
        p = os.path.join(out, f.replace('/', '_') + '.jsonl')
        if os.path.exists(p):
            done = {json.loads(l)['k'] for l in open(p)}
        jobs += [(k, f, m) for k, m in enumerate(mutants(BASE + f)) if k % every == 0 and k not in done]
    import multiprocessing
    with multiprocessing.Pool(j) as pool:
        for f, r in pool.imap_unordered(run_one, jobs):
            with open(os.path.join(out, f.replace('/', '_') + '.jsonl'), 'a') as g:
                g.write(json.dumps(r) + '\n')
    for d in glob.glob('/tmp/mut/w*'):
        shutil.rmtree(d, ignore_errors=True)


main()
