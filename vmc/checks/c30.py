"""C30: counting inference objects answer the same whatever was asked before."""
import itertools
import json
import os
import subprocess
import sys

from vmc import onoffref as R
from math import exp

PROP = 'C30'
RULE = ('every history of up to 3 (thorough 4) of the queries of four objects (signal count probabilities, all and single, likelihoods and posteriors, scalar and array, the functions underneath, refused queries, and writes '
        'into the arrays passed and returned), each followed by every query of both objects, compared with the answer of the definition; and, each in a new process, every order of up to 3 first posterior queries with small, 32, 33 and large counts, '
        'so that tables kept by the compiled code start empty')

A = (5, 1.5, 9, 4.)
B = (40, 2., 3, 3.)   # some of its probabilities are tiny
# objects that share part of their data with A: nothing kept for one may serve the other
C = (5, 3., 9, 1.)
D = (5, 1.5, 2, 4.)
RATES = [0., .4, 3., 25.]
SIZES = [0, 1, 2, 6, 31, 32, 33, 60]
# one datum at a time differs, from (n, 1.5, 4, 2.)
VARIANTS = [(6, 1.5, 4, 2.), (6, 3., 4, 2.), (6, 1.5, 0, 2.), (6, 1.5, 4, 9.), (7, 1.5, 4, 2.), (2, 3., 4, 9.)]


def units(tier):
    ops = len(OPS)
    u = [{'t': 'fresh', 'first': k} for k in range(len(SIZES) + len(VARIANTS))]
    if tier == 'thorough':
        u += [{'t': 'hist', 'first': [i, j]} for i in range(ops) for j in range(ops)]
    else:
        u += [{'t': 'hist', 'first': [i]} for i in range(ops)]
    return u


OPS = [('pn', 0), ('pn', 1), ('pn0', 0), ('pnk', 1), ('pnbad', 0), ('lml', 0), ('lmlv', 1), ('mp', 0), ('mp', 1), ('mpv', 0),
       ('badarr', 1), ('write', None), ('writein', None), ('fn', 0), ('fn', 1), ('new', 0), ('pn', 2), ('mp', 2), ('mp', 3), ('mpv', 1), ('lmlv', 0)]


def post(s, d):
    return exp(R.lse(R.lterms(s, *d)) - R.lnorm(*d))


CHILD = r'''
import sys, os, json
sys.path[:0] = json.loads(sys.argv[1])
from inference.count.onoff import OnOff
from inference.count.onoff import psigc, sigctp
out = []
for h in json.loads(sys.argv[2]):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res = []
            for d in h:
                o = OnOff(*d)
                res.append([float(o.sigmp(x)) for x in (0., .5, 6., 40.)] + [float(x) for x in o.pnsig()])
            os.write(w, json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    out.append(json.loads(b) if b else None)
print(json.dumps(out))
'''


def fresh(unit, ctx):
    hs = []
    k = unit['first']
    some = [(n, 1.5, 4, 2.) for n in SIZES] if k < len(SIZES) else VARIANTS
    f = some[k % len(SIZES)]
    for n in range(3 if ctx.tier != 'thorough' else 4):
        hs += [[f] + list(t) for t in itertools.product(some, repeat=n)]
    import inference
    path = [os.path.dirname(os.path.dirname(os.path.abspath(inference.__file__)))]
    p = subprocess.run([sys.executable, '-c', CHILD, json.dumps(path), json.dumps(hs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        ctx.fail('the process died: %s' % p.stderr.decode()[-500:], hs[0])
    out = json.loads(p.stdout.decode().strip().splitlines()[-1])
    ref = {}
    for d in some:
        ref[d] = [post(s, d) for s in (0., .5, 6., 40.)] + R.probs(*d)
    for h, res in zip(hs, out):
        if res is None:
            ctx.fail('the process died', h)
        ctx.case()
        ctx.trace()
        for i, n in enumerate(h):
            ctx.state(('fresh', tuple(h[:i + 1])))
            ctx.step()
            if len(res[i]) != len(ref[n]) or any(not abs(a - b) <= 1e-6*abs(b) + 1e-30 for a, b in zip(res[i], ref[n])):
                ctx.fail('after queries with data %r the answers with data %r are %r, exactly %r' % (h[:i], n, res[i][:6], ref[n][:6]), h)
        ctx.outcome(('fresh', h[-1]))


def run_unit(unit, ctx):
    if unit['t'] == 'fresh':
        return fresh(unit, ctx)
    import numpy as np
    from inference.count import onoff as M
    data = (A, B, C, D)
    probs = [R.probs(*d) for d in data]
    co = [R.lcoef(d[0], d[2]) for d in data]
    lml = [[R.lse(R.lterms(s, *d)) for s in RATES] for d in data]
    mp = [[post(s, d) for s in RATES] for d in data]
    offs = [M.slml_offset(*d) for d in data]

    def near(x, y):
        return np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-6, atol=1e-30)

    class St:
        pass

    def do(st, op, hist):
        k, i = op
        o = st.o[i] if i is not None else None
        if k == 'pn':
            r = o.pnsig()
            if not near(r, probs[i]):
                ctx.fail('signal count probabilities %r, exactly %r' % (r, probs[i]), hist)
            st.last = r
        elif k == 'pn0' or k == 'pnk':
            n = 0 if k == 'pn0' else 7
            r = o.pnsig(n)
            if not near(r, probs[i][n]):
                ctx.fail('pnsig(%d) is %r, exactly %r' % (n, r, probs[i][n]), hist)
        elif k == 'pnbad':
            try:
                r = o.pnsig(data[i][0] + 1)
            except ValueError:
                return
            ctx.fail('pnsig() of too many counts gave %r' % r, hist)
        elif k == 'lml':
            for s, l in zip(RATES, lml[i]):
                r = o.siglml(s)
                if not abs(r - (l - offs[i])) < 1e-4*(1 + data[i][0]):
                    ctx.fail('the log likelihood at %r is %r, exactly %r' % (s, r, l - offs[i]), hist)
        elif k == 'lmlv' or k == 'mpv':
            a = np.array(RATES)
            r = (o.siglml if k == 'lmlv' else o.sigmp)(a)
            if not np.array_equal(a, RATES):
                ctx.fail('the array passed was changed to %r' % a, hist)
            want = [l - offs[i] for l in lml[i]] if k == 'lmlv' else mp[i]
            if not (np.allclose(r, want, rtol=1e-6, atol=1e-4*(1 + data[i][0])) if k == 'lmlv' else near(r, want)):
                ctx.fail('%s %r, exactly %r' % (k, r, want), hist)
            st.last, st.inp = r, a
        elif k == 'mp':
            for s, p in zip(RATES, mp[i]):
                r = o.sigmp(s)
                if not near(r, p):
                    ctx.fail('the posterior density at %r is %r, exactly %r' % (s, r, p), hist)
        elif k == 'badarr':
            for f in (o.siglml, o.sigmp):
                try:
                    f(np.ones((2, 2)))
                except ValueError:
                    continue
                ctx.fail('a two-dimensional array was not refused', hist)
        elif k == 'write':
            if isinstance(st.last, np.ndarray) and st.last.flags.writeable:
                st.last[:] = -3.
        elif k == 'writein':
            if st.inp is not None:
                st.inp[:] = 99.
        elif k == 'fn':
            c = M.sigctp(*data[i])
            if not near(c, probs[i]) or not near(M.psigc(3., data[i][1], c), mp[i][2]):
                ctx.fail('sigctp() %r, exactly %r' % (c, probs[i]), hist)
            if not near(M.slml_offset(*data[i]), offs[i]):
                ctx.fail('the offset is %r, was %r' % (M.slml_offset(*data[i]), offs[i]), hist)
            st.last = c
        elif k == 'new':
            # a third object with the same counts but other exposures
            d = (data[i][0], 3., data[i][2], 1.)
            x = M.OnOff(*d)
            if not near(x.pnsig(), R.probs(*d)) or not near(x.sigmp(.4), post(.4, d)):
                ctx.fail('an object with data %r gave %r' % (d, x.pnsig()), hist)
            st.last = x.pnsig()

    depth = 4 if ctx.tier == 'thorough' else 3
    pre = [OPS[k] for k in unit['first']]
    for n in range(depth - len(pre) + 1):
        for t in itertools.product(OPS, repeat=n):
            h = pre + list(t)
            st = St()
            st.o, st.last, st.inp = [M.OnOff(*d) for d in data], None, None
            ctx.at(h)
            for op in h:
                do(st, op, h)
                ctx.step()
            # in the end every answer is that of the definition
            for op in OPS:
                if op[1] is not None:
                    do(st, op, h + ['then', op])
            for i in range(len(data)):
                if (st.o[i].on_cts, st.o[i].on_intvl, st.o[i].off_cts, st.o[i].off_intvl) != data[i]:
                    ctx.fail('the data of an object changed', h)
            ctx.case()
            ctx.trace()
            ctx.state(tuple(h))
            ctx.outcome(tuple(sorted(set(h))))
    ctx.sample({'history': [list(x) for x in h]})
