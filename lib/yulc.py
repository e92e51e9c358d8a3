"""The compiler side: programs grown by the Quint specification, compiled by /repo's compiler and run."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess
import vlib
from vlib import NCPU, REPO, VERIF, ToolError, run

LLVM = '/usr/lib/llvm-18'


# ------------------------------------------------------------------- build
def build_yulc(ck):
    """/repo's whole compiler over the stand-in crates of harness/yulc, with the standard library it embeds."""
    d = ck.path('yulc')
    shutil.copytree(os.path.join(VERIF, 'harness/yulc'), d)
    os.makedirs(os.path.join(d, 'repo'))
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'repo/src'))
    std = os.path.join(d, 'repo/stdlib')
    shutil.copytree(os.path.join(REPO, 'stdlib'), std, ignore=shutil.ignore_patterns('wasm', '*.bc'))
    with cf.ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(run, ['make', '-B', '-s', '-j4', v, 'CC=clang-16'], cwd=std, timeout=300) for v in ('debug', 'release')]
        rt = ck.path('rt')
        os.makedirs(rt)
        run(['clang-16', '--target=wasm32', '-O2', '-ffreestanding', '-fno-builtin', '-Xclang', '-fexperimental-max-bitint-width=256',
             '-c', os.path.join(VERIF, 'harness/rt/builtins.c'), '-o', os.path.join(rt, 'b.o')])
        run([LLVM + '/bin/llvm-ar', 'rcs', os.path.join(rt, 'libclang_rt.builtins-wasm32.a'), os.path.join(rt, 'b.o')])
        for j in jobs:
            j.result()
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=ck.path('yulc-target'),
               CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
    run(['cargo', 'build', '--offline'], cwd=d, env=env, timeout=800)
    b = ck.path('yul2wasm')
    shutil.copy(ck.path('yulc-target/debug/yul2wasm'), b)
    shutil.rmtree(ck.path('yulc-target'), ignore_errors=True)
    return b


def compile_env(ck):
    return dict(os.environ, CHAIN_IR_CLANG_RT_LIB_DIR=ck.path('rt'), PATH=LLVM + '/bin:' + os.environ.get('PATH', ''))


def compile_one(ck, binary, src, out, opts, env, timeout=120):
    """-> (exit code, text)"""
    try:
        p = subprocess.run([binary, '--input', src, '--output', out] + opts, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace')


# ------------------------------------------------------------------ values
def conv(v):
    if isinstance(v, list):
        return [conv(x) for x in v]
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#map' in v:
            return {conv(k): conv(x) for k, x in v['#map']}
        if '#set' in v:
            return set(map(conv, v['#set']))
        if '#tup' in v:
            return [conv(x) for x in v['#tup']]
        return {k: conv(x) for k, x in v.items() if k != '#meta'}
    return v


SIGS = [(1, 1), (2, 1), (2, 2), (0, 1), (1, 0), (3, 3), (0, 2), (3, 1), (3, 0)]
NORES = set('stop invalid pop sstore tstore mstore mstore8 log0 log1 log2 log3 log4 return revert mcopy calldatacopy codecopy extcodecopy '
            'returndatacopy selfdestruct'.split())
ARITY = {o: n for n, l in enumerate((
    'stop invalid',
    'iszero not sload tload mload calldataload pop balance extcodesize extcodehash blockhash selfdestruct',
    'add sub mul div sdiv mod smod exp lt gt slt sgt eq and or xor byte shl shr sar signextend sstore tstore mstore mstore8 log0 return revert keccak256',
    'addmod mulmod log1 mcopy calldatacopy codecopy returndatacopy create',
    'log2 extcodecopy create2', 'log3', 'log4 delegatecall staticcall', 'call')) for o in l.split()}


def lit(n, s, m=0):
    if s == 's':
        return '"%s"' % n.to_bytes(32, 'big')[:m].decode().replace('\\', '\\\\').replace('"', '\\"')
    if s == 't':
        return 'true' if n == 1 else 'false' if n == 0 else str(n)
    if s == 'h':
        return hex(n)
    if s == 'H':
        return '0x%064x' % n
    return str(n)


def symbols(p):
    """Options that give the libraries of the program their addresses; one of them stays unknown."""
    libs = {t['s']: t['n'] for t in p['code'] if t['k'] == 'lib'}
    out = ['--ignore-unknown-linker-library'] if 'src/none.sol:U' in libs else []
    for k in sorted(libs):
        if k != 'src/none.sol:U':
            out += ['--symbol', '%s=0x%040x' % (k, libs[k])]
    return out


def can_deploy(p):
    """Code that means the same as a constructor: nothing that reads the code, or immutables."""
    return not p['imms'] and not any(t['k'] == 'op' and t['s'] in ('codesize', 'codecopy') for t in p['code'])


def text(p, name, entry='call', decoy=False):
    """The program as Yul source: the inverse of the reverse Polish layout.

    The other object of the pair may define functions with the same names.
    """
    out, funs, depth, st = [], [], 1, []
    cur = out
    code, swseen = p['code'], set()

    def line(s):
        cur.append('    ' * (depth + 2) + s)
    # one text in three spells out the only type there is
    typed = len(code) % 3 == 0
    ty = lambda x: x + ':u256' if typed and (len(x) + len(cur)) % 3 else x
    fname = lambda i: p['fnames'][i] if p['fnames'] else 'f%d' % i
    for i, t in enumerate(code):
        k = t['k']
        if k == 'lit':
            st.append(ty(lit(t['n'], t['s'])) if t['s'] not in ('s', 't') else lit(t['n'], t['s'], len(t['v'])))
        elif k == 'var':
            st.append(t['s'])
        elif k == 'op':
            o = t['s']
            n = ARITY.get(o, 0)
            args = [st.pop() for _ in range(n)]
            e = '%s(%s)' % (o, ', '.join(args))
            if o in NORES:
                line(e)
            else:
                st.append(e)
        elif k == 'imm':
            st.append('loadimmutable("%s")' % t['s'])
        elif k == 'lib':
            st.append('linkersymbol("%s")' % t['s'])
        elif k == 'call':
            n, r = SIGS[p['sigs'][t['m']]]
            args = [st.pop() for _ in range(n)]
            e = '%s(%s)' % (fname(t['m']), ', '.join(args))
            if r == 0:
                line(e)
            else:
                st.append(e)
        elif k == 'let':
            line('let %s := %s' % (', '.join(map(ty, t['v'])), st.pop()))
        elif k == 'letz':
            line('let ' + ', '.join(map(ty, t['v'])))
        elif k == 'set':
            line('%s := %s' % (', '.join(t['v']), st.pop()))
        elif k == 'fun':
            n, r = SIGS[p['sigs'][t['m']]]
            depth = 1
            cur = []
            funs.append(cur)
            line('function %s(%s)%s {' % (fname(t['m']), ', '.join(map(ty, ['p0', 'p1', 'p2'][:n])), ' -> ' + ', '.join(map(ty, ['r0', 'r1', 'r2'][:r])) if r else ''))
            depth += 1
        elif k == 'endfun':
            depth -= 1
            line('}')
            cur = out
        elif k == 'leave':
            line('leave')
        elif k == 'block':
            line('{')
            depth += 1
        elif k == 'if':
            line('if %s {' % st.pop())
            depth += 1
        elif k == 'end':
            depth -= 1
            line('}')
        elif k == 'for':
            line('for {')
            depth += 1
        elif k == 'cond':
            pass
        elif k == 'test':
            depth -= 1
            line('} %s {' % st.pop())
            depth += 1
        elif k == 'post':
            pass
        elif k == 'body':
            depth -= 1
            line('} {')
            depth += 1
        elif k == 'endfor':
            depth -= 1
            line('}')
        elif k in ('break', 'continue'):
            line(k)
        elif k == 'switch':
            line('switch %s' % st.pop())
        elif k in ('case', 'default'):
            if t['m'] in swseen:
                depth -= 1
                line('}')
            swseen.add(t['m'])
            line('case %s {' % lit(t['n'], t['s'], len(t['v'])) if k == 'case' else 'default {')
            depth += 1
        elif k == 'endsw':
            depth -= 1
            line('}')
        else:
            raise ToolError('unknown node ' + k)
    if st:
        raise ToolError('unfinished expression %r' % st)
    # definitions may come after their uses
    body = []
    for i, f in enumerate(funs):
        if (len(code) + i) % 2 == 0:
            body += f
    body += out
    for i, f in enumerate(funs):
        if (len(code) + i) % 2:
            body += f
    other = ''.join('        setimmutable(0, "%s", %d)\n' % (b['x'], b['v']) for b in p['imms'])
    if decoy:
        for i, g in enumerate(p['sigs']):
            other += ['        function %s() { revert(0, 0) }\n', '        function %s(q0) -> q1, q2 { q2 := q0 }\n'][(i + len(code)) % 2] % fname(i)
    body = '\n'.join(body) + '\n'
    first, second = (other, body) if entry == 'call' else (body, other)
    return ('object "%s" {\n    code {\n%s    }\n    object "%s_deployed" {\n        code {\n%s        }\n    }\n}\n'
            % (name, first, name, second))


def title(p, n):
    return 'TokenP%d' % n if 'fun_transfer' in p['fnames'] else 'P%d' % n


MASKED = re.compile(r'and\([\w$.]+, sub\(shl\(160(:u256)?, 1(:u256)?\), 1(:u256)?\)\)')


def allowed(p, cfg):
    """What is listed as a finding under this option set, or refused with a message, is not judged."""
    if '--enable-all-optimizers' not in OPTIONS[cfg]:
        return True
    t = text(p, 'P')
    if MASKED.search(t):  # K07
        return False
    if re.search(r'\b(mstore8?|mload)\(64[,:)]', t) and not re.search(r'mstore\(64(:u256)?, 128(:u256)?\)', t):  # K08
        return False
    # a function named like the ERC-20 one must have its shape
    return title(p, 0)[0] == 'T' or not any(re.search('fun__?transfer', x) and SIGS[p['sigs'][i]][0] == 3 for i, x in enumerate(p['fnames']))


def load(f):
    """A trace -> (program, calls) or None if the program was not finished."""
    states = conv(json.load(open(f))['states'])
    last = states[-1]
    if not last['g']['done']:
        return None
    calls = []
    for s in states:
        if s['res']['st'] != 'none':
            calls.append({'env': s['env'], 'res': s['res']})
    return {'file': f, 'prog': last['g']['p'], 'calls': calls, 'sto': sorted(states[0]['sto'].items()), 'deploy': bool(last['g']['p']['imms'])}


# ------------------------------------------------------------------- running
def run_jobs(ck, jobs, tag, timeout=600, driver='run.js'):
    """jobs: [{id, wasm, calls}] -> [{id, calls, errors}]"""
    def enc(o):
        if isinstance(o, bool):
            return o
        if isinstance(o, int):
            return o if abs(o) < 2**31 else str(o)
        if isinstance(o, (list, tuple)):
            return [enc(x) for x in o]
        if isinstance(o, dict):
            return {k: enc(x) for k, x in o.items()}
        return o
    chunks = [c for c in (jobs[i::NCPU] for i in range(NCPU)) if c]

    def one(i):
        f, o = ck.path('jobs_%s_%d.json' % (tag, i)), ck.path('res_%s_%d.json' % (tag, i))
        with open(f, 'w') as h:
            json.dump(enc(chunks[i]), h)
        hung = vlib.watched(['node', '--stack-size=4000', os.path.join(VERIF, 'harness/yulc', driver), f, o], o + '.progress', timeout)
        if hung:
            a, b = (hung.split('\t') + ['0'])[:2]
            return [{'id': a, 'calls': 1, 'errors': [{'call': int(b), 'what': 'does not return'}]}]
        return json.load(open(o))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [r for l in ex.map(one, range(len(chunks))) for r in l]


# -------------------------------------------------------------------- checks
INVS = ['wellFormed', 'wordsOk']
# (step, init, steps, traces quick, traces thorough)
RUNS = {
    'C16': [('stepOps', 'initOps', 45, 32, 800), ('stepExpr', 'init', 24, 16, 400), ('stepSys', 'initSys', 40, 32, 800), ('stepSol', 'initSol', 36, 32, 800)],
    'C17': [('step', 'init', 40, 48, 1200), ('stepMixed', 'initMixed', 40, 32, 800), ('stepSol', 'initSol', 36, 24, 400)],
    'C18': [('step', 'init', 32, 14, 240), ('stepOps', 'initOps', 36, 6, 80), ('stepMixed', 'initMixed', 36, 6, 120), ('stepSol', 'initSol', 36, 14, 200), ('stepToken', 'initToken', 60, 4, 40)],
}
OPTIONS = {
    'default': [],
    'opt-none': ['--opt-level', 'none'],
    'opt-less': ['--opt-level', 'less'],
    'opt-default': ['--opt-level', 'default'],
    'opt-aggressive': ['--opt-level', 'aggressive'],
    'all-optimizers': ['--enable-all-optimizers'],
    'no-optimizers': ['--disable-all-optimizers'],
    'bytes32': ['--default_ret_type', 'bytes32'],
    'little-endian': ['--enable-little-endian-storage-load-store'],
    'minify': ['--minify-wasm-size'],
    'debug': ['--debug'],
    'no-binaryen': ['--no-binaryen-optimize'],
    'mixed-1': ['--enable-all-optimizers', '--enable-little-endian-storage-load-store'],
    'mixed-2': ['--default_ret_type', 'bytes32', '--opt-level', 'none', '--minify-wasm-size'],
    'mixed-3': ['--enable-little-endian-storage-load-store', '--opt-level', 'aggressive', '--default_ret_type', 'bytes32'],
}
RULE = ('one evaluation is one call of a compiled program compared with the outcome, output, storage writes and logs the '
        'specification machine prescribes; distinct_nontrivial counts distinct (program text, option set) pairs that were run')


def compile_jobs(ck, binary, jobs):
    """jobs: dicts id, name, text, opts -> adds wasm, rc, log"""
    env = compile_env(ck)

    def one(j):
        d = ck.path('w', j['id'])
        os.makedirs(d)
        j['src'], j['wasm'] = os.path.join(d, 'p.yul'), os.path.join(d, 'p.wasm')
        with open(j['src'], 'w') as f:
            f.write(j['text'])
        j['rc'], j['log'] = compile_one(ck, binary, j['src'], j['wasm'], j['opts'], env)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))


def judge(ck, jobs, tag):
    """Compile failures and wrong calls of jobs (calls and sto given) become violations."""
    bad = [j for j in jobs if j['rc'] != 0]
    for j in bad:
        what = 'does not finish' if j['rc'] is None else 'fails (exit %s)' % j['rc']
        ck.violation('compiling a well-formed program %s under %s: %s' % (what, j['cfg'], tail(j['log'])), detail(j, None))
    good = [j for j in jobs if j['rc'] == 0]
    by = {j['id']: j for j in good}
    res = run_jobs(ck, [{'id': j['id'], 'wasm': j['wasm'], 'calls': j['calls'], 'sto': j['sto'], 'entry': j.get('entry', 'call'), 'deploy': j.get('deploy', False)} for j in good], tag)
    for r in res:
        ck.add('evaluations', r['calls'])
        j = by[r['id']]
        for e in r['errors'][:1]:
            ck.violation('[%s] call %s: %s%s' % (j['cfg'], e['call'], e['what'],
                         ' is %s, the specification says %s' % (str(e['got'])[:160], str(e['expected'])[:160]) if 'expected' in e else ''), detail(j, e))
    ck.add('distinct_nontrivial', len({(j['text'], j['cfg']) for j in good}))
    return res


def tail(log):
    ls = [l for l in log.splitlines() if l.strip() and not l.startswith('note:')]
    hit = [l for l in ls if 'panicked' in l or 'error' in l.lower()]
    return ' / '.join((hit or ls)[-2:])[-300:]


def detail(j, e):
    return {'kind': 'program', 'cfg': j['cfg'], 'opts': j['opts'], 'text': j['text'], 'calls': j['calls'], 'sto': j['sto'], 'entry': j.get('entry', 'call'), 'deploy': j.get('deploy', False), 'what': e}


def run_compiler(ck):
    jobs = [dict(spec='yul', main='yul', step=s, steps=n, traces=t if ck.thorough else q, invs=INVS, handler='%d' % k, split=NCPU, init=i)
            for k, (s, i, n, q, t) in enumerate(RUNS[ck.prop])]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_yulc, ck)
        fs = ex.submit(vlib.simulate, ck, jobs)
        files, binary = fs.result(), fb.result()
    progs = [p for k in sorted(files) for p in map(load, files[k]) if p]
    if len(progs) < sum(j['traces'] for j in jobs) // 2:
        raise ToolError('too few programs were finished')
    # every program in the default configuration; C18 in all, the others in one more in turn
    names, js = list(OPTIONS), []
    for n, p in enumerate(progs):
        cfgs = names if ck.prop == 'C18' else ['default'] + ([names[1 + (n // 2) % (len(names) - 1)]] if n % 2 else [])
        for cfg in cfgs:
            if not allowed(p['prog'], cfg):
                continue
            entry = 'deploy' if n % 4 == 3 and can_deploy(p['prog']) else 'call'
            js.append({'id': '%d-%s' % (n, cfg), 'cfg': cfg, 'opts': OPTIONS[cfg] + symbols(p['prog']), 'text': text(p['prog'], title(p['prog'], n), entry, n % 3 == 1),
                       'calls': p['calls'], 'sto': p['sto'], 'deploy': p['deploy'], 'entry': entry})
    compile_jobs(ck, binary, js)
    judge(ck, js, 'q')
    ck.cov['programs'] = len(progs)
    ck.add('traces_validated_against_impl', len([j for j in js if j['rc'] == 0]))
    ops = ck.cov.setdefault('operations', {})
    for p in progs:
        for t in p['prog']['code']:
            k = t['s'] if t['k'] == 'op' else t['k']
            ops[k] = ops.get(k, 0) + 1
    ck.cov['configurations'] = sorted({j['cfg'] for j in js})
    ck.cov['rule'] = RULE
    for p in progs[:2]:
        ck.cov['samples'].append({'program': text(p['prog'], 'P')[:1500], 'calls': len(p['calls'])})
    ck.assumptions += ASSUME
    for k in vlib.known_findings(ck.prop):
        probe(ck, binary, k)
    return 'model_checking'


ASSUME = ['the stand-in inkwell crate of harness/yulc maps each call to the LLVM 16 C API as the published crate does',
          'the mock host implements the DTVM host interface as declared in the runtime headers',
          'wizer is absent, so _start runs at instantiation, as the tool chain does when wizer fails']


def probe(ck, binary, k):
    """A listed finding: a fixed program that the compiler is known to get wrong."""
    doc = json.load(open(os.path.join(VERIF, k['probe'])))
    sub = vlib.Check.__new__(vlib.Check)
    sub.tmp, sub.cov, sub.violations = ck.tmp, {'samples': []}, []
    js = [dict(id='known-%s-%d' % (k['id'], i), cfg='known', opts=d.get('opts', []), text=d['text'], calls=d['calls'], sto=d.get('sto', []), entry=d.get('entry', 'call'))
          for i, d in enumerate(doc['programs'])]
    compile_jobs(sub, binary, js)
    judge(sub, js, 'known' + k['id'])
    if any(doc['expect'] in v['error'] for v in sub.violations):
        ck.known.append('%s %s' % (k['id'], k['what']))
    for v in sub.violations:
        if doc['expect'] not in v['error']:
            ck.violations.append(v)


def replay(ck, d):
    b = build_yulc(ck)
    j = dict(d, id='r')
    compile_jobs(ck, b, [j])
    judge(ck, [j], 'r')


# ------------------------------------------------------------ object trees
def yulstr(name):
    return '"%s"' % name.replace('\\', '\\\\').replace('"', '\\"')


def tree_text(nodes):
    kids = lambda p: [i for i, n in enumerate(nodes) if n['parent'] == p]

    def name(i):
        n = nodes[i]
        return nodes[n['parent']]['name'] + '_deployed' if n['kind'] == 'dep' else n['name']

    def code(p):
        out, late = [], []
        for k, i in enumerate(kids(p)):
            q = yulstr(name(i))
            copy = 'datacopy' if i % 2 else 'codecopy'
            if i % 3 == 0:
                out.append('let o%d := dataoffset(%s) let s%d := datasize(%s)' % (i, q, i, q))
                late.append((i, '%s(2048, o%d, s%d) log2(2048, s%d, %d, s%d)' % (copy, i, i, i, i, i)))
            elif i % 3 == 1:
                late.append((i, '%s(96, dataoffset(%s), datasize(%s)) log2(96, datasize(%s), %d, datasize(%s))' % (copy, q, q, q, i, q)))
            else:
                late.append((i, 'show%d()' % k))   # the same names in an object and its run time object
                out.append('function show%d() { let s := datasize(%s) mstore(0, s) %s(add(s, 32), dataoffset(%s), s) log2(add(s, 32), s, %d, mload(0)) }' % (k, q, copy, q, i))
        if nodes[p]['kind'] == 'obj':
            q = yulstr(nodes[p]['name'])
            end = 'let n := sub(codesize(), datasize(%s)) codecopy(4096, datasize(%s), n) return(4096, n)' % (q, q)
        else:
            end = 'calldatacopy(4096, 0, calldatasize()) return(4096, calldatasize())'
        return ' '.join(out + [x for _, x in late] + [end])

    def obj(p, ind):
        t = '  ' * ind
        ls = [t + 'object %s {' % yulstr(name(p)), t + '  code { %s }' % code(p)]
        for i in kids(p):
            n = nodes[i]
            if n['kind'] == 'data':
                ls.append(t + '  data %s hex"%s"' % (yulstr(n['name']), bytes(n['bytes']).hex()))
            else:
                ls += obj(i, ind + 1)
        return ls + [t + '}']
    return '\n'.join(obj(0, 0)) + '\n'


def tree_jobs(ck, files, cfgs):
    js = []
    for k, f in enumerate(files):
        states = conv(json.load(open(f))['states'])
        nodes = states[-1]['nodes']
        steps = [s['ev'] for s in states if s['ev']['op'] != 'none']
        hasdep = [any(n['parent'] == i and n['kind'] == 'dep' for n in nodes) for i in range(len(nodes))]
        for cfg in cfgs:
            js.append({'id': 't%d-%s' % (k, cfg), 'cfg': cfg, 'opts': OPTIONS[cfg], 'text': tree_text(nodes), 'steps': steps, 'hasDep': hasdep, 'nodes': len(nodes)})
    return js


def judge_trees(ck, js, tag):
    for j in js:
        if j['rc'] != 0:
            ck.violation('compiling a well-formed object tree under %s fails (exit %s): %s' % (j['cfg'], j['rc'], tail(j['log'])), tree_detail(j))
    good = [j for j in js if j['rc'] == 0]
    by = {j['id']: j for j in good}
    res = run_jobs(ck, [{k: j[k] for k in ('id', 'wasm', 'steps', 'hasDep')} for j in good], tag, driver='objects.js')
    for r in res:
        ck.add('evaluations', r['calls'])
        ck.add('bytes_compared', r.get('bytes', 0))
        for e in r['errors'][:1]:
            j = by[r['id']]
            ck.violation('[%s] step %s: %s is %s, the specification says %s' % (j['cfg'], e['call'], e['what'], e.get('got'), e.get('expected')), tree_detail(j))
    ck.add('distinct_nontrivial', len({(j['text'], j['cfg']) for j in good if j['nodes'] > 2}))
    ck.add('traces_validated_against_impl', len(good))


def tree_detail(j):
    return {'kind': 'tree', 'cfg': j['cfg'], 'opts': j['opts'], 'text': j['text'], 'steps': j['steps'], 'hasDep': j['hasDep'], 'nodes': j['nodes']}


def run_trees(ck):
    jobs = [dict(spec='objects', main='objects', step='step', steps=40, traces=1000 if ck.thorough else 80,
                 invs=['isTree', 'namesUnique', 'curIsContract', 'sizesAgree'], handler='o', split=NCPU)]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_yulc, ck)
        fs = ex.submit(vlib.simulate, ck, jobs)
        files, binary = fs.result(), fb.result()
    js = tree_jobs(ck, files['o'], ['default'])
    js += tree_jobs(ck, files['o'][::4], ['all-optimizers', 'bytes32', 'debug'])
    compile_jobs(ck, binary, js)
    judge_trees(ck, js, 'o')
    ck.cov['rule'] = ('one evaluation is one run of an entry point of a compiled contract (possibly a contract found inside another) '
                      'whose parts are compared with the tree; distinct_nontrivial counts distinct trees with parts, per option set')
    ck.cov['samples'] = [{'tree': j['text'][:1200], 'steps': [[s['op'], s['node'], len(s['obs'])] for s in j['steps']]} for j in js[:2]]
    ck.assumptions += ASSUME
    return 'model_checking'


# ------------------------------------------------------- the rules of Yul
def rules_code(ts):
    """Tokens of spec/rules.qnt as Yul statements."""
    out, st, depth = [], [], 0

    def line(x):
        out.append('  ' * depth + x)
    for t in ts:
        k = t['k']
        if k == 'lit':
            n = t['n']
            st.append(str(n) if n % 3 else hex(n))
        elif k == 'str':
            st.append(yulstr(t['x'] * t['n'] if t['n'] > 32 else t['x']))
        elif k == 'var':
            st.append(t['x'])
        elif k == 'call':
            args = [st.pop() for _ in range(t['n'])]
            st.append('%s(%s)' % (t['x'], ', '.join(args)))
        elif k == 'expr':
            line(st.pop())
        elif k == 'let':
            line('let %s := %s' % (', '.join(t['v']), st.pop()))
        elif k == 'letz':
            line('let ' + ', '.join(t['v']))
        elif k == 'set':
            line('%s := %s' % (', '.join(t['v']), st.pop()))
        elif k == 'fun':
            line('function %s(%s)%s {' % (t['x'], ', '.join(t['v']), ' -> ' + ', '.join(t['w']) if t['w'] else ''))
            depth += 1
        elif k in ('block', 'for'):
            line('{' if k == 'block' else 'for {')
            depth += 1
        elif k == 'if':
            line('if %s {' % st.pop())
            depth += 1
        elif k == 'switch':
            line('switch ' + st.pop())
        elif k in ('case', 'default'):
            line('default {' if k == 'default' else 'case %s {' % (hex(t['n']) if len(out) % 2 else t['n']))
            depth += 1
        elif k in ('post', 'body'):
            depth -= 1
            line('} %s {' % st.pop() if k == 'post' else '} {')
            depth += 1
        elif k in ('end', 'endfun', 'endfor', 'endcase'):
            depth -= 1
            line('}')
        elif k in ('break', 'continue', 'leave'):
            line(k)
        elif k != 'endswitch':
            raise ToolError('unknown token ' + k)
    if st or depth:
        raise ToolError('unfinished program')
    return out


def rules_text(ts, name, place):
    """The code stands in one object of a tree, the other objects hold a correct program."""
    fine = 'function fother(a) -> b { b := add(a, 1) } let vother := fother(3) sstore(vother, 2)'
    # what is defined in one object is not known in another
    where = ['run', 'run', 'run', 'run', 'deploy', 'sub', 'subrun', 'only'][place]
    code = lambda w, pre: '\n'.join(pre + x for x in (rules_code(ts) if w == where else [fine]))
    parts = lambda own: 'data "d_one" hex"0102030405"'

    def obj(n, main, run, ind, inner=''):
        return ('%sobject "%s" {\n%s  code {\n%s\n%s  }\n%s  data "d_one" hex"010203"\n%s%s  object "%s_deployed" {\n%s    code {\n%s\n%s    }\n%s    data "d_one" hex"0102"\n%s%s  }\n%s}'
                % (ind, n, ind, code(main, ind + '    '), ind, ind, inner, ind, n, ind, code(run, ind + '      '), ind, ind, inner, ind, ind))
    # the names MAIN, d_one and sub.obj mean something in every object
    leaf = lambda n, ind: '%sobject "%s" { code { sstore(1, 2) } }\n' % (ind, n)
    if where == 'only':
        return 'object "MAIN" {\n  code {\n%s\n  }\n  data "d_one" hex"00"\n%s}\n' % (code('only', '    '), leaf('sub.obj', '  '))
    if where in ('sub', 'subrun'):
        return ('object "Top" {\n  code {\n    %s\n  }\n%s\n  object "Top_deployed" { code { %s } }\n}\n'
                % (fine, obj('MAIN', 'sub', 'subrun', '  ', leaf('sub.obj', '      ') + (leaf('MAIN', '      ') if where == 'subrun' else '')), fine))
    return obj('MAIN', 'deploy', 'run', '', leaf('sub.obj', '    ') + (leaf('MAIN', '    ') if where == 'run' else '')) + '\n'


def rules_jobs(files):
    js, kinds = [], {}
    for k, f in enumerate(files):
        s = conv(json.load(open(f))['states'])[-1]
        if not s['res']['done']:
            continue
        place = s['place']
        errs = [sorted(e) for e in s['res']['errs']]
        opts = list(OPTIONS)[k % len(OPTIONS)] if k % 2 else 'default'
        kind = s['g']['kind'] if errs else 'none'
        js.append({'id': 'r%d' % k, 'cfg': opts, 'opts': OPTIONS[opts], 'text': rules_text(s['g']['ts'], 'MAIN', place), 'errs': errs, 'kind': kind, 'place': place})
    return js


def judge_rules(ck, js):
    for j in js:
        ck.add('evaluations', 1)
        log, rc = j['log'], j['rc']
        left = [x for x in ('wasm', 'cbin', 'cbin.hex') if os.path.exists(j['wasm'].replace('.wasm', '.' + x))]
        bad = None
        if not j['errs']:
            if rc != 0:
                bad = 'a program that keeps the rules is not compiled (exit %s): %s' % (rc, tail(log))
        elif rc == 0:
            bad = 'is compiled'
        elif rc is None:
            bad = 'is not answered in time'
        elif rc < 0 or rc > 128 or rc == 101 or 'panicked at' in log:
            bad = 'brings the compiler down (exit %s): %s' % (rc, tail(log))
        elif left:
            bad = 'is rejected, but %s is written' % ', '.join(left)
        elif not re.search('error', log, re.I):
            bad = 'is rejected without a message'
        elif [] not in j['errs'] and not any(x in log for e in j['errs'] for x in e):
            bad = 'is rejected without naming %s: %s' % (' or '.join(sorted({x for e in j['errs'] for x in e})), tail(log))
        if bad:
            ck.violation('[%s] %s%s' % (j['cfg'], 'a program that breaks the rules (%s) ' % j['kind'] if j['errs'] else '', bad),
                         {k: j[k] for k in ('cfg', 'opts', 'text', 'errs', 'place')} | {'kind': 'rules', 'rule': j['kind']})


def run_rules(ck):
    n = 2400 if ck.thorough else 240
    jobs = [dict(spec='rules', main='rules', step='step', steps=40, traces=n, invs=['verdict', 'nested'], handler='o', split=NCPU)]
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_yulc, ck)
        fs = ex.submit(vlib.simulate, ck, jobs)
        files, binary = fs.result(), fb.result()
    js = rules_jobs(files['o'])
    if len(js) < n // 2:
        raise ToolError('too few programs were finished')
    compile_jobs(ck, binary, js)
    judge_rules(ck, js)
    kinds = {}
    for j in js:
        kinds[j['kind']] = kinds.get(j['kind'], 0) + 1
    ck.cov['violations_planted'] = kinds
    ck.cov['places'] = {p: sum(1 for j in js if j['place'] == p) for p in sorted({j['place'] for j in js})}
    ck.add('distinct_nontrivial', len({(j['text'], j['cfg']) for j in js}))
    ck.add('traces_validated_against_impl', len(js))
    ck.cov['rule'] = ('one evaluation is one program given to the compiler: it must be rejected with a message naming an offender and leave no contract '
                      'if the specification finds a violation, and be compiled if it finds none; distinct_nontrivial counts distinct (program, option set) pairs')
    ck.cov['samples'] = [{'program': j['text'][:1200], 'violation': j['kind'], 'offenders': j['errs'], 'exit': j['rc'], 'message': tail(j['log'])[:200]} for j in js[:3]]
    ck.assumptions += ASSUME[:1]
    return 'model_checking'


def replay_tree(ck, d):
    js = [dict(d, id='r')]
    b = build_yulc(ck)
    compile_jobs(ck, b, js)
    if d['kind'] == 'tree':
        judge_trees(ck, js, 'r')
    else:
        judge_rules(ck, [dict(js[0], kind=d['rule'])])
