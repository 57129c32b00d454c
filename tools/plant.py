"""Make a seeded bug: plant(id, property, [(file, old, new[, count])...], needs, breaks, demo).

The change is made in a scratch worktree of /repo, never in /repo itself; the demo is a Python program run by demo.sh."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plant_wt'
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
exec python "$(dirname "$0")/demo.py"
'''


def git(*a):
    return subprocess.run(('git', '-C') + a, check=True, stdout=subprocess.PIPE).stdout


def plant(id, prop, edits, needs, breaks, demo, files=()):
    if os.path.exists(WT):
        shutil.rmtree(WT)
    git('/repo', 'worktree', 'prune')
    git('/repo', 'worktree', 'add', '--detach', WT, 'HEAD')
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(WT, '' if f.startswith('sandbox/') else 'package/inference', f)
            s = open(p).read()
            if s.count(old) != (e[3] if len(e) > 3 else 1):
                raise SystemExit('%s: %r occurs %d times in %s' % (id, old, s.count(old), f))
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(VERIF, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(git(WT, 'diff'))
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        for f in files:
            shutil.copy(f, d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        git('/repo', 'worktree', 'remove', '--force', WT)
        git('/repo', 'worktree', 'prune')
