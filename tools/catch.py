#!/usr/bin/env python3
"""catch.py [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it."""
import glob, json, os, re, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
res = {}
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    p = subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if p.returncode: print(i, 'does not apply'); continue
    t = time.time()
    try:
        q = subprocess.run(['python3', '/verif/check.py', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = [l for l in q.stdout.splitlines() if l.startswith('  ') or 'TOOL' in l][:1]
    print('%-24s %s %s %3ds %s' % (i, prop, {0: 'MISSED', 1: 'caught', 2: 'TOOLERR'}.get(q.returncode), time.time() - t, (v or [''])[0][:150]), flush=True)
