#!/usr/bin/env python3
"""trial.py FILE.py K: worker K tries hand-written changes, in its copy under /tmp/mut (see
mutate.py), against the stored traces of one property. FILE.py calls trial(id, prop, [(file, old, new)]).
Not used by any check."""
import json, os, subprocess, sys
BASE = '/tmp/mut'
sys.argv, A = [sys.argv[0], 'x'], sys.argv
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutate.py')).read().split("if sys.argv[1] ==")[0]
exec(src)
K = A[2]
ONLY = os.environ.get('ONLY', '').split(',') if os.environ.get('ONLY') else None
d = '%s/w%s' % (BASE, K)
repo = d + '/repo'
e = env(repo)
eh = dict(e, CARGO_TARGET_DIR=d + '/build', CARGO_INCREMENTAL='0')

def trial(id, prop, edits, tests=True):
    if ONLY and id not in ONLY: return
    t0 = time.time()
    keep = {}
    try:
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            keep.setdefault(p, s)
            if s.count(old) != 1: print(id, 'EDIT: %d matches in %s' % (s.count(old), f), flush=True); return
            open(p, 'w').write(s.replace(old, new))
        res, built = 'MISSED', set()
        for (feat, b, prof), trs, opts in json.load(open('%s/traces/%s.json' % (BASE, prop))):
            if b not in built:
                rc, out = sh(['cargo', 'build', '--profile', 'checked', '--offline', '--features', feat, '--bin', b], d + '/harness', eh, 900)
                if rc: print(id, 'NOBUILD', out[-1500:], flush=True); return
                built.add(b)
            rep = d + '/report.json'
            if os.path.exists(rep): os.remove(rep)
            rc, out = sh([d + '/build/checked/' + b, prop, rep] + trs + ['--' + o for o in opts], d, e, 900)
            if rc or not os.path.exists(rep): res = 'caught (crash %s)' % rc; break
            r = json.load(open(rep))
            if r['violations']: res = 'caught ' + json.dumps(r['violations'][0])[:160]; break
            if r['tool_errors']: res = 'TOOLERROR ' + r['tool_errors'][0][:300]; break
        if tests:
            rc, out = sh(['cargo', 'test', '--workspace', '--lib', '--bins', '--tests', '--no-fail-fast', '--offline', '--', '--test-threads', '4'], repo, e, 900)
            failed = re.findall(r'^test (\S+) .*FAILED', out, re.M)
            base = json.load(open('/opt/vp/BASELINE.json'))
            res += '  [tests: %s]' % ('pass' if rc == 0 else 'fail ' + ' '.join(failed[:3]))
        print('%-28s %s %3ds %s' % (id, prop, time.time() - t0, res), flush=True)
    finally:
        for p, s in keep.items(): open(p, 'w').write(s)

exec(open(A[1]).read())
