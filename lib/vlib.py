"""Shared machinery of the checks: build, model runs, replay, evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('EVID_DIR') or os.path.join(VERIF, 'evidence')
NCPU = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def run(cmd, timeout=600, cwd=None, env=None, ok=(0,), inp=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('timed out: ' + ' '.join(map(str, cmd))[:300])
    if ok is not None and p.returncode not in ok:
        raise ToolError('failed (%d): %s\n%s\n%s' % (p.returncode, ' '.join(map(str, cmd))[:400],
                        p.stdout.decode(errors='replace')[-3000:], p.stderr.decode(errors='replace')[-3000:]))
    return p


def watched(cmd, progress, timeout, stall=60):
    """Run cmd; if its progress line stops changing for `stall` seconds return that line."""
    with tempfile.TemporaryFile() as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
        last, since, t0 = None, time.time(), time.time()
        while True:
            try:
                rc = p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(progress).read().strip()
            except OSError:
                cur = ''
            now = time.time()
            if cur != last:
                last, since = cur, now
            if (cur and now - since > stall) or now - t0 > timeout:
                p.kill()
                p.wait()
                if cur and now - since > stall:
                    return cur
                raise ToolError('timed out: ' + ' '.join(cmd)[:300])
        if rc != 0:
            log.seek(0)
            raise ToolError('failed (%d): %s\n%s' % (rc, ' '.join(cmd)[:300], log.read().decode(errors='replace')[-3000:]))
    return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []     # dicts with 'error', ...
        self.known = []
        self.cov = {'samples': []}
        self.assumptions = []
        self.notes = []
        self.rep_dir = os.path.join(EVID, 'replays')
        os.makedirs(self.rep_dir, exist_ok=True)
        for f in glob.glob(os.path.join(self.rep_dir, prop + '-*')):
            os.unlink(f)
        self.rng = random.Random('%s/%s' % (seed, prop))

    thorough = property(lambda self: self.tier == 'thorough')

    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def subseed(self, k):
        return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (self.seed, self.prop, k)).encode()).digest()[:6], 'big')

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, error, detail):
        self.violations.append({'error': error, 'detail': detail})

    # ------------------------------------------------------------ finishing
    def finish(self, level):
        for i, v in enumerate(self.violations[:10]):
            p = os.path.join(self.rep_dir, '%s-%d.json' % (self.prop, i))
            d = v['detail']
            if isinstance(d, dict) and d.get('trace') and os.path.exists(d['trace']):
                t = os.path.join(self.rep_dir, '%s-%d.itf.json' % (self.prop, i))
                if os.path.getsize(d['trace']) < 50_000_000:
                    shutil.copy(d['trace'], t)
                    d = dict(d, trace=t)
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'error': v['error'], 'detail': d}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('  ' + v['error'][:600])
        if len(self.violations) > 10:
            print('  ... and %d more' % (len(self.violations) - 10))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if self.notes:
            ev['coverage']['notes'] = self.notes
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print('%s %s: %s in %.1fs' % (self.prop, self.tier, 'VIOLATED' if self.violations else 'held', time.time() - self.t0))
        return 1 if self.violations else 0


# ------------------------------------------------------------------ runtime
def build_runtime(ck):
    """Compile /repo/stdlib as its Makefile does and link it five ways."""
    d = ck.path('stdlib')
    shutil.copytree(os.path.join(REPO, 'stdlib'), d, ignore=shutil.ignore_patterns('wasm', '*.bc'))
    run(['make', '-B', '-s', '-j2', 'debug', 'CC=clang-16'], cwd=d, timeout=300)
    run(['make', '-B', '-s', '-j2', 'release', 'CC=clang-16'], cwd=d, timeout=300)
    bi = ck.path('builtins.o')
    run(['clang-16', '--target=wasm32', '-O2', '-ffreestanding', '-fno-builtin', '-Xclang', '-fexperimental-max-bitint-width=256',
         '-c', os.path.join(VERIF, 'harness/rt/builtins.c'), '-o', bi])
    out = []
    for v in ('release', 'debug'):
        bcs = sorted(glob.glob(os.path.join(d, 'wasm', v, '*.bc')))
        if not bcs:
            raise ToolError('the stdlib build made no bitcode')
        for stack in ('65536', '32768'):
            w = ck.path('%s-%s.wasm' % (v, stack))
            run(['wasm-ld-18', '--no-entry', '--export-all', '--allow-undefined', '--stack-first', '--global-base=0',
                 '-z', 'stack-size=' + stack] + bcs + [bi, '-o', w])
    out.append({'name': 'release-page', 'wasm': ck.path('release-65536.wasm'), 'init': 0, 'mode': 'page'})
    out.append({'name': 'debug-page', 'wasm': ck.path('debug-65536.wasm'), 'init': 0, 'mode': 'page'})
    out.append({'name': 'release-newpage', 'wasm': ck.path('release-32768.wasm'), 'init': 1, 'mode': 'page'})
    out.append({'name': 'release-small', 'wasm': ck.path('release-32768.wasm'), 'init': 0, 'mode': 'small'})
    out.append({'name': 'debug-small', 'wasm': ck.path('debug-32768.wasm'), 'init': 0, 'mode': 'small'})
    return out


# -------------------------------------------------------------------- quint
def quint_run(ck, spec, main, step, steps, traces, invs, tag, seed, init='init'):
    """Simulate, check the invariants on every state, keep every trace."""
    outp = ck.path('tr_%s_{seq}.itf.json' % tag)
    cmd = ['quint', 'run', '--seed=%d' % seed, '--main', main, '--init', init, '--step', step, '--max-steps=%d' % steps,
           '--n-traces=%d' % traces, '--max-samples=%d' % traces, '--verbosity=1']
    if invs:
        cmd += ['--invariants'] + list(invs)
    cmd += ['--out-itf=' + outp, os.path.join(VERIF, 'spec', spec + '.qnt')]
    # into a file: quint exits without draining a pipe
    log = ck.path('log_%s.txt' % tag)
    with open(log, 'wb') as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=800)
        except subprocess.TimeoutExpired:
            raise ToolError('timed out: ' + ' '.join(cmd)[:300])
    txt = open(log, errors='replace').read()
    if p.returncode != 0 or re.search(r'\[violation\]|error:', txt):
        # the specification contradicts its own properties: our mistake, never the code's
        raise ToolError('quint %s/%s: %s' % (spec, step, '\n'.join(l for l in txt.splitlines() if not l.startswith(' '))[-1500:] + txt[:300] + ' ... ' + txt[-500:]))
    files = sorted(glob.glob(ck.path('tr_%s_*.itf.json' % tag)))
    if not files:
        raise ToolError('quint wrote no traces: ' + txt[-500:])
    return files, steps


def simulate(ck, jobs):
    """jobs: dicts(spec, main, step, steps, traces, invs).  Split over the cores."""
    units = []
    for n, j in enumerate(jobs):
        left, part = j['traces'], 0
        # traces of one job are split into units of similar length
        per = max(1, min(j.get('per', 10**9), -(-left // j.get('split', 4))))
        while left > 0:
            k = min(per, left)
            units.append((j, k, '%d_%d' % (n, part), ck.subseed('%s/%s/%d' % (j['main'], j['step'], part))))
            left -= k
            part += 1
    files = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(quint_run, ck, u[0]['spec'], u[0]['main'], u[0]['step'], u[0]['steps'], u[1], u[0].get('invs'), u[2], u[3], u[0].get('init', 'init')): u for u in units}
        for f in cf.as_completed(futs):
            u = futs[f]
            fs, st = f.result()
            ck.add('states', len(fs) * (st + 1))
            ck.add('transitions', len(fs) * st)
            files.setdefault(u[0].get('handler'), []).extend(fs)
    return {k: sorted(v) for k, v in files.items()}


# ------------------------------------------------------------------- replay
def replay_rt(ck, handler, variants, files, timeout=800):
    vf = ck.path('variants.json')
    with open(vf, 'w') as f:
        json.dump(variants, f)
    chunks = [files[i::NCPU] for i in range(NCPU)]
    chunks = [c for c in chunks if c]

    def one(i):
        o = ck.path('out_%s_%d.json' % (handler, i))
        hung = watched(['node', os.path.join(VERIF, 'harness/rt/replay.js'), handler, vf, o] + chunks[i], o + '.progress', timeout)
        if hung:
            f, v, k = (hung.split('\t') + ['', '', ''])[:3]
            return {'runs': 0, 'execs': 0, 'distinct': 0, 'ops': {}, 'violations': [
                {'variant': v, 'trace': f, 'index': int(k or 0), 'error': 'the runtime does not return from step %s' % k.strip()}]}
        return json.load(open(o))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, range(len(chunks))))
    ops = ck.cov.setdefault('operations', {})
    for r in res:
        ck.add('traces_validated_against_impl', r['runs'])
        ck.add('evaluations', r['execs'])
        ck.add('distinct_nontrivial', r['distinct'])
        for k, n in r['ops'].items():
            ops[k] = ops.get(k, 0) + n
        if r.get('sample') and len(ck.cov['samples']) < 3:
            ck.cov['samples'].append(r['sample'])
        for v in r['violations']:
            ck.violation('[%s] %s' % (v['variant'], v['error']), dict(v, handler=handler))
    return res


# ----------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: id=(\S+) property=(\S+) probe=(\S+) (.*)$', line.strip())
            if m and m.group(2) == prop:
                out.append({'id': m.group(1), 'probe': m.group(3), 'what': m.group(4)})
    return out


def main(run_check):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(a.property, tier, seed)
    try:
        level = run_check(ck)
    except ToolError as e:
        print('ERROR %s: %s' % (a.property, e))
        shutil.rmtree(ck.tmp, ignore_errors=True)
        return 2
    except BaseException:
        shutil.rmtree(ck.tmp, ignore_errors=True)
        raise
    return ck.finish(level)
