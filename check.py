#!/usr/bin/env python3
"""Decides one property: generates behaviours from the Quint specification,
replays them into the code built from /repo's working tree, and reports.

  check.py ID [--tier quick|thorough]     run the check of property ID
  check.py --replay FILE                  re-run the case of a replay file
  check.py --setup                        type-check every specification

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the machinery itself failed (never a statement about the code)."""
import json, os, re, resource, shutil, subprocess, sys, time, hashlib, threading, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SPEC = os.path.join(HERE, 'spec')
NCPU = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(HERE, '.work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.labels, self.notes = {}, {}
        self.samples, self.violations, self.assumptions = [], [], []
        self.models = []          # what each model exploration covered
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(max_workers=NCPU)
        self.builds = {}
        self.thorough = tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def seed_for(self, *what):
        h = hashlib.sha256(('%d|%s|%s' % (self.seed, self.prop, '|'.join(map(str, what)))).encode()).digest()
        return int.from_bytes(h[:6], 'big')

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    # ---- building the code under test ---------------------------------------
    def build(self, features, binary, profile='release'):
        def go():
            p = subprocess.run([os.path.join(HERE, 'harness', 'build.sh'), features, binary, profile],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if p.returncode != 0:
                raise ToolError('build of %s failed:\n%s' % (binary, '\n'.join(
                    l for l in p.stdout.splitlines() if 'warning' not in l)[-4000:]))
            self.log('built', binary)
            tgt = os.environ.get('VERIF_TARGET', os.path.join(HERE, '.build'))
            return os.path.join(tgt, profile, binary)
        key = (features, binary, profile)
        if key not in self.builds:
            self.builds[key] = self.pool_build().submit(go)
        return self.builds[key]

    def pool_build(self):
        if not hasattr(self, '_bp'):
            self._bp = ThreadPoolExecutor(max_workers=1)
        return self._bp

    # ---- behaviours of the specification ------------------------------------
    def quint(self, module, steps, procs=NCPU, inv=None, init=None, step=None, main=None,
              samples=1, ntraces=None, tag='', timeout=600, extra=(), specdir=SPEC):
        """Starts `procs` simulations; returns futures of lists of ITF files."""
        futs = []
        for k in range(procs):
            seed = self.seed_for(module, main, init, step, tag, k)
            out = os.path.join(self.work, '%s%s-%d_{seq}.itf.json' % (main or module, tag, k))
            cmd = ['quint', 'run', os.path.join(specdir, module + '.qnt'), '--max-samples=%d' % samples,
                   '--n-traces=%d' % (ntraces or samples), '--max-steps=%d' % steps, '--seed=%d' % seed,
                   '--out-itf=' + out]
            if main: cmd.append('--main=' + main)
            if inv: cmd.append('--invariant=' + inv)
            if init: cmd.append('--init=' + init)
            if step: cmd.append('--step=' + step)
            cmd += list(extra)
            futs.append(self.pool.submit(self._quint1, cmd, out, module, timeout))
        return futs

    def _quint1(self, cmd, out, module, timeout):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=self.work)
        if p.returncode != 0:
            raise ToolError('%s: specification run failed\n%s\n%s' % (module, ' '.join(cmd), p.stdout[-3000:]))
        files = sorted(glob.glob(out.replace('{seq}', '*')))
        if not files:
            raise ToolError('%s: no trace written\n%s' % (module, p.stdout[-3000:]))
        return files

    def gather(self, futs):
        files = []
        for f in futs:
            files += f.result()
        return files

    def tlc(self, module, cfg, timeout=600):
        """Exhaustive exploration of a design model; a violated invariant is a
        fault of the model, not of the code."""
        def go():
            d = os.path.join(self.work, 'tlc-' + cfg)
            os.makedirs(d, exist_ok=True)
            p = subprocess.run(['tlc', '-workers', '4', '-metadir', d, '-config', os.path.join(SPEC, 'tla', cfg + '.cfg'),
                                os.path.join(SPEC, 'tla', module + '.tla')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d)
            m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', p.stdout)
            if p.returncode != 0 or not m:
                raise ToolError('%s: model checking failed\n%s' % (module, p.stdout[-3000:]))
            with self.lock:
                self.models.append({'module': module, 'config': cfg, 'checker': 'TLC', 'exhaustive': True,
                                    'states_generated': int(m.group(1)), 'distinct_states': int(m.group(2))})
                self.states += int(m.group(2))
                self.transitions += int(m.group(1))
            return []
        return [self.pool.submit(go)]

    # ---- replay into the code -----------------------------------------------
    def replay(self, binary, files, opts=(), prop=None, timeout=1200):
        out = os.path.join(self.work, 'report-%d.json' % len(os.listdir(self.work)))

        def bounded():              # memory that runs away is a crash, not a frozen sandbox
            if os.path.basename(binary) != 'vutil':
                resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        try:
            p = subprocess.run([binary, prop or self.prop, out] + files + ['--' + o for o in opts],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, cwd=self.work, errors='replace', preexec_fn=bounded)
        except subprocess.TimeoutExpired:
            raise ToolError('driver did not finish within %d s' % timeout)
        if p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11) or p.returncode in (132, 134, 135, 136, 139):
            self.violations.append({'label': 'crash', 'expected': 'the calls return',
                                    'got': 'process died with signal %s: %s' % (-p.returncode, p.stdout[-500:]),
                                    'at': '', 'state': None, 'files': files[:3]})
            return None
        if p.returncode != 0 or not os.path.exists(out):
            raise ToolError('driver failed (%s): %s' % (p.returncode, p.stdout[-3000:]))
        r = json.load(open(out))
        if r['tool_errors']:
            raise ToolError('driver: ' + '\n'.join(r['tool_errors'][:3]))
        self.evals += r['evaluations']
        self.states += r['states']
        self.transitions += max(0, r['states'] - r['traces'])
        self.traces += r['traces']
        for k, v in r['labels'].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in r['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.samples += r['samples']
        for v in r['violations']:
            v['files'] = [f for f in files if v.get('at', '').split('#')[0] == os.path.basename(f)]
            v['bin'] = os.path.basename(binary)
            v['profile'] = os.path.basename(os.path.dirname(binary))
            v['opts'] = list(opts)
            self.violations.append(v)
        self.log('replayed %d traces, %d states, %d comparisons' % (r['traces'], r['states'], r['evaluations']))
        return r

    # ---- the end ------------------------------------------------------------
    def finish(self, level):
        known = known_findings(self.prop)
        new, seen = [], []
        for v in self.violations:
            k = next((k for k in known if k['label'] == v['label'] and
                      (not k.get('got') or k['got'] in str(v['got']))), None)
            if k:
                if k not in seen: seen.append(k)
            else:
                new.append(v)
        for k in known:
            if k in seen or k.get('always'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'comparisons': self.evals, 'comparisons_by_operation': self.labels,
               'situations': self.notes, 'models': self.models,
               'samples': self.samples[:5] or [{'note': 'none recorded'}], 'exhaustive': False}
        if not self.samples: cov['samples'] = [m for m in self.models][:3]
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
                   'coverage': cov, 'assumptions': self.assumptions,
                   'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)},
                  open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if new:
            os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
            path = os.path.join(HERE, 'replay', '%s-%d.json' % (self.prop, os.getpid()))
            traces = {}
            for v in new[:3]:
                for f in v.get('files', [])[:1]:
                    if os.path.exists(f) and f not in traces and os.path.getsize(f) < 40e6:
                        d = json.load(open(f))
                        at = v.get('at', '')
                        if '#' in at and 'states' in d:
                            d['states'] = d['states'][:int(at.split('#')[1].split('.')[0]) + 1]
                        traces[os.path.basename(f)] = d
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                       'violations': new[:20], 'traces': traces}, open(path, 'w'), indent=1)
            for v in new[:5]:
                print('  %s at %s: expected %s, got %s' % (v['label'], v.get('at'), str(v['expected'])[:300], str(v['got'])[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if new else 0


def known_findings(prop):
    path = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == prop]


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        bad = 0
        for f in sorted(glob.glob(os.path.join(SPEC, '*.qnt'))):
            p = subprocess.run(['quint', 'typecheck', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(os.path.basename(f), 'ok' if p.returncode == 0 else p.stdout)
            bad |= p.returncode
        for f in sorted(glob.glob(os.path.join(SPEC, 'tla', '*.tla'))):
            p = subprocess.run(['tla-sany', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(os.path.basename(f), 'ok' if p.returncode == 0 else p.stdout)
            bad |= p.returncode
        return 1 if bad else 0
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        run = Run(d['property'], d['tier'], d['seed'])
        import props
        v = d['violations'][0]
        feats = props.FEATURES[v['bin']]
        b = run.build(feats, v['bin'], v.get('profile', 'release')).result()
        files = []
        for n, t in d['traces'].items():
            p = os.path.join(run.work, n)
            json.dump(t, open(p, 'w'))
            files.append(p)
        run.replay(b, files, v['opts'])
        for v in run.violations[:10]:
            print(v['label'], v['at'], 'expected', v['expected'], 'got', v['got'])
        shutil.rmtree(run.work, ignore_errors=True)
        return 1 if run.violations else 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    run = Run(prop, tier, seed)
    try:
        level = props.CHECKS[prop](run) or 'model_checking'
        rc = run.finish(level)
    except ToolError as e:
        print('TOOL ERROR:', e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('TOOL ERROR: timeout', e)
        rc = 2
    finally:
        run.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(run.work, ignore_errors=True)
    run.log('done', prop, 'exit', rc)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.exit(main())
