#!/usr/bin/env python3
"""Makes a planted bug: seed.py FILE.py  (FILE.py calls seed(...) one or more times)

Confirms in a scratch worktree (/tmp/seedwt) that the change applies to /repo's
HEAD, compiles, keeps the stable tests passing, and that the demonstration
passes without and fails with it; then stores it under /verif/seeded/<id>."""
import json, os, re, shutil, subprocess, sys, tempfile
WT, HERE = '/tmp/seedwt', '/verif/seeded'
CR = {'zkp-u256': 'algebra/u256', 'zkp-primefield': 'algebra/primefield', 'zkp-elliptic-curve': 'algebra/elliptic-curve',
      'zkp-elliptic-curve-crypto': 'crypto/elliptic-curve-crypto', 'zkp-hash': 'crypto/hash',
      'zkp-merkle-tree': 'crypto/merkle-tree', 'zkp-stark': 'crypto/stark', 'zkp-mmap-vec': 'utils/mmap-vec',
      'zkp-logging-allocator': 'utils/logging-allocator', 'zkp-macros-decl': 'utils/macros-decl'}
DEMO = r'''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken. Run in the repository.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cd "$d" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo run --release --offline 2>&1
exit $?
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def short(out):
    i = out.find('\nerror')
    return out[i:i+2500] if i >= 0 else out[-1500:]

def fresh():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.exists(WT):
        sh('git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD' % WT)
    sh('git checkout -q -f --detach %s; git clean -fdq; cp /opt/vp/Cargo.lock Cargo.lock' % head, cwd=WT)

def tests():
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', '/tmp/seedenv.sh').replace('/repo', WT)
    open('/tmp/seedtest.sh', 'w').write(t)
    open('/tmp/seedenv.sh', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', WT))
    sh('bash /tmp/seedtest.sh /tmp/seedt.json')
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seedt.json'))
    base = b.get('stable') or b.get('passed') or b.get('tests')
    return [x for x in base if x not in set(t['passed'])]

def demo(d):
    e = dict(os.environ, DEMO_TARGET='/tmp/seeddemo')
    p = subprocess.run(['bash', d + '/demo.sh'], cwd=WT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout

def seed(id, prop, edits, main, needs, breaks, deps=('zkp-u256',), extra_deps='', skip_tests=False):
    only = os.environ.get('ONLY')
    if only and id not in only.split(','): return
    if not only and os.path.exists(os.path.join(HERE, id)): return
    fresh()
    d = tempfile.mkdtemp(prefix='seed-')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(main.strip() + '\n')
    open(d + '/Cargo.toml.in', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\n' +
        ''.join('%s = { path = "@REPO@/%s" }\n' % (c, CR[c]) for c in deps) + extra_deps + '\n[profile.release]\nopt-level = 1\n')
    rc, out = demo(d)
    if rc != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE\n', short(out)); return
    for f, old, new in edits:
        p = os.path.join(WT, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, 'edit does not match once:', f, s.count(old), repr(old[:80])); return
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=WT).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = demo(d)
    if rc == 0:
        print(id, 'DEMO PASSES WITH BUG\n', short(out)[-600:]); fresh(); return
    if 'error[E' in out or 'could not compile' in out:
        print(id, 'DOES NOT COMPILE\n', short(out)); fresh(); return
    tail = ' | '.join(l for l in out.splitlines() if 'panicked' in l or 'assert' in l or 'left' in l or 'right' in l)[:200]
    miss = [] if skip_tests else tests()
    if miss:
        miss = [m for m in tests() if m in miss]
    fresh()
    if miss:
        print(id, 'BREAKS TESTS', miss[:5], '| demo:', tail); return
    dst = os.path.join(HERE, id)
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
    print(id, prop, 'OK | demo:', tail, flush=True)

if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read(), {'seed': seed})
