#!/usr/bin/env python3
"""Mutation testing of the machinery, entirely in copies under /tmp/mut.

  mutate.py prepare W            W workers: copies of /repo and harness, traces of every check
  mutate.py run W K SEED COUNT REGEX   worker K of W tries COUNT mutants in files matching REGEX

A mutant that the replay does not notice is then run through the repository's
stable tests; those that pass these too are written to /tmp/mut/survivors.jsonl
for inspection. Not used by any check."""
import json, os, random, re, resource, shutil, subprocess, sys, time
BASE = '/tmp/mut'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
 (r'algorithms/montgomery', ['C21', 'C22', 'C17']),
 (r'^algebra/u256/|^utils/macros', ['C17', 'C18', 'C19', 'C20']),
 (r'^algebra/primefield/', ['C21', 'C22', 'C23', 'C20']),
 (r'^algebra/elliptic-curve/|^crypto/elliptic', ['C24', 'C25', 'C21']),
 (r'^crypto/hash/|^crypto/merkle', ['C16', 'C14', 'C15']),
 (r'^utils/mmap', ['C26']), (r'^utils/logging', ['C27']),
 (r'^crypto/stark/src/component', ['C10']),
 (r'^crypto/stark/src/(polynomial|trace_table)', ['C11', 'C07']),
 (r'^crypto/stark/src/solidity', ['C12']),
 (r'^crypto/stark/src/constraint_check', ['C09']),
 (r'^crypto/stark/src/constraints', ['C13', 'C12', 'C07']),
 (r'^crypto/stark/src/proof_of_work', ['C06']),
 (r'^crypto/stark/src/rational|^crypto/stark/src/algebraic', ['C08', 'C07', 'C09', 'C01']),
 (r'^crypto/stark/', ['C07', 'C03', 'C02', 'C05', 'C08', 'C12', 'C04']),
]
SKIP = r'pedersen|group_sig|component/test|proptest|/rand\.rs|x86_64|benchmarks|criterion|error-utils|arch/generic/mod'

def env(repo):
    e = dict(os.environ)
    for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        k, _, v = l.partition('=')
        e[k] = v
    e.pop('CARGO_TARGET_DIR', None)
    return e

def prepare(w):
    os.makedirs(BASE, exist_ok=True)
    tr = BASE + '/traces'
    for k in range(w):
        d = '%s/w%d' % (BASE, k)
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(d + '/repo'):
            subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
            shutil.copy('/opt/vp/Cargo.lock', d + '/repo/Cargo.lock')
        shutil.rmtree(d + '/harness', ignore_errors=True)
        shutil.copytree(VERIF + '/harness', d + '/harness')
        t = open(d + '/harness/Cargo.toml').read().replace('/repo/', d + '/repo/')
        open(d + '/harness/Cargo.toml', 'w').write(t)
    if not os.path.exists(tr):
        os.makedirs(tr)
    sys.path.insert(0, VERIF)
    import check, props
    for c in sorted(props.CHECKS):
        if os.path.exists('%s/%s.json' % (tr, c)): continue
        run = check.Run(c, 'quick', 1)
        calls = []
        class B:
            def __init__(s, f): s.f = f
            def result(s): return s.f
        run.build = lambda feat, b, profile='release': B((feat, b, profile))
        run.tlc = lambda *a, **k: []
        def rep(b, files, opts=(), **k):
            out = []
            if b[2] != 'checked': return
            for f in files:
                g = '%s/%s/%d/%s' % (tr, c, len(calls), os.path.basename(f))
                os.makedirs(os.path.dirname(g), exist_ok=True)
                shutil.move(f, g); out.append(g)
            calls.append([b, out, list(opts)])
        run.replay = rep
        props.CHECKS[c](run)
        shutil.rmtree(run.work, ignore_errors=True)
        json.dump(calls, open('%s/%s.json' % (tr, c), 'w'))
        print(c, len(calls), flush=True)

OPS = [
 (r'(?<![=<>!+\-*/&|^])==(?!=)', ['!=']), (r'!=', ['==']),
 (r'(?<=\s)<(?=\s)', ['<=', '>=']), (r'(?<=\s)>(?=\s)', ['>=', '<=']), (r'<=', ['<']), (r'(?<!=)>=', ['>']),
 (r'(?<=\s)\+(?=\s)', ['-']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['+']), (r'(?<=\s)/(?=\s)', ['*']), (r'(?<=\s)%(?=\s)', ['/']),
 (r'\+=', ['-=']), (r'-=', ['+=']), (r'\*=', ['+=']),
 (r'&&', ['||']), (r'\|\|(?=\s)', ['&&']), (r'<<(?!=)', ['>>']), (r'(?<=\s)>>(?=\s)', ['<<']),
 (r'(?<=\s)&(?=\s)', ['|']), (r'(?<=\s)\|(?=\s)', ['&']), (r'(?<=\s)\^(?=\s)', ['&']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'(?<![\w.])(\d+)(?![\w.]*\w)', ['+1', '-1']),
 (r'\bif (?!let)([^{]+) \{', ['if true || (\\1) {', 'if false && (\\1) {']),
 (r'\.\.=', ['..']), (r'(?<=\w)\.\.(?=\w)', ['..=']),
 (r'\.rev\(\)', ['']), (r'\.skip\(1\)', ['']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
 (r'\.is_zero\(\)', ['.is_one()']), (r'\bSome\(([^()]*)\)', ['None']), (r'&mut ', []),
 (r'\bwrapping_add\b', ['wrapping_sub']), (r'\bwrapping_sub\b', ['wrapping_add']),
 (r'\bZERO\b|::zero\(\)', ['@one']), (r'\bONE\b|::one\(\)', ['@zero']),
 (r'\bc0\b', ['c1']), (r'\.square\(\)', ['.double()']), (r'\.double\(\)', ['.square()']),
 (r'^\s+[^/#\s].*;\s*$', ['@del']),
]

def code_lines(path):
    out, skip = [], False
    depth = None
    for i, l in enumerate(open(path).read().split('\n')):
        s = l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('mod tests') or s.startswith('mod test'):
            break
        if s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('debug_assert') or 'trace!' in s or 'info!' in s or 'debug!' in s or not s:
            continue
        out.append(i)
    return out

def mutants(path):
    lines = open(path).read().split('\n')
    res = []
    for i in code_lines(path):
        l = lines[i]
        code = l.split(' // ')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == '@del':
                        if re.match(r'\s*(let|return|pub|const|static|type|break|continue|fn|use)\b', code): continue
                        if code.count('(') != code.count(')') or code.count('{') != code.count('}'): continue
                        n = '/* deleted */'
                    elif r in ('+1', '-1') and pat.startswith(r'(?<![\w.])(\d'):
                        v = int(m.group(1)) + (1 if r == '+1' else -1)
                        if v < 0: continue
                        n = code[:m.start()] + str(v) + code[m.end():]
                    elif r == '@one':
                        n = code[:m.start()] + m.group(0).replace('ZERO', 'ONE').replace('zero', 'one') + code[m.end():]
                    elif r == '@zero':
                        n = code[:m.start()] + m.group(0).replace('ONE', 'ZERO').replace('one', 'zero') + code[m.end():]
                    else:
                        n = code[:m.start()] + m.expand(r) + code[m.end():]
                    res.append((i, l, n))
    return res

def sh(cmd, cwd, e, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace',
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 999, 'timeout'

def run(w, k, seed, count, rx):
    d = '%s/w%d' % (BASE, k)
    repo = d + '/repo'
    e = env(repo)
    eh = dict(e, CARGO_TARGET_DIR=d + '/build', CARGO_INCREMENTAL='0')
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
    files = subprocess.run(['git', 'ls-files', '*.rs'], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if '/src/' in f and not re.search(SKIP, f) and re.search(rx, f)]
    allm = [(f,) + m for f in files for m in mutants(os.path.join(repo, f))]
    random.Random(seed).shuffle(allm)
    allm = allm[k::w][:count]
    stats = {}
    for f, i, old, new in allm:
        t0 = time.time()
        p = os.path.join(repo, f)
        src = open(p).read()
        ls = src.split('\n')
        assert ls[i] == old
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        res, by = 'survived', None
        try:
            built = set()
            for c in next(cs for r, cs in CHECKS if re.search(r, f)):
                for (feat, b, prof), trs, opts in json.load(open('%s/traces/%s.json' % (BASE, c))):
                    prof = 'checked'
                    if (b, prof) not in built:
                        rc, out = sh(['cargo', 'build', '--profile', prof, '--offline', '--features', feat, '--bin', b], d + '/harness', eh, 900)
                        if rc: res = 'nobuild'; break
                        built.add((b, prof))
                    rep = d + '/report.json'
                    if os.path.exists(rep): os.remove(rep)
                    rc, out = sh([d + '/build/%s/%s' % (prof, b), c, rep] + trs + ['--' + o for o in opts], d, e, 900)
                    if rc or not os.path.exists(rep): res, by = ('crash' if rc != 999 else 'timeout'), c; break
                    r = json.load(open(rep))
                    if r['violations']: res, by = 'killed', c; break
                    if r['tool_errors']: res, by = 'toolerror', c + ' ' + r['tool_errors'][0][:300]; break
                if res != 'survived': break
            if res in ('survived', 'toolerror', 'timeout'):
                rc, out = sh(['cargo', 'test', '--workspace', '--lib', '--bins', '--tests', '--no-fail-fast', '--offline', '--', '--test-threads', '4'], repo, e, 900)
                passed = set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
                failed = re.findall(r'^test (\S+) .*\.\.\. FAILED', out, re.M)
                res += ' tests-fail' if rc else ' TESTS-PASS'
        finally:
            open(p, 'w').write(src)
        stats[res] = stats.get(res, 0) + 1
        rec = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'res': res, 'by': by, 's': round(time.time() - t0)}
        open(BASE + '/all.jsonl', 'a').write(json.dumps(rec) + '\n')
        if 'PASS' in res:
            open(BASE + '/survivors.jsonl', 'a').write(json.dumps(rec) + '\n')
        print(json.dumps(rec), flush=True)
    print(stats)

if sys.argv[1] == 'prepare': prepare(int(sys.argv[2]))
else: run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6])
