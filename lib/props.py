"""What each check explores."""
import json, os
import vlib, front, yulc

# C04 .. C15: the runtime library.  (spec, main module, step, steps, traces quick, traces thorough, invariants)
def BULK(step, n, quick, thorough):
    return ('bulk', 'bulk', step, n, quick, thorough, ['wordsOk', 'sourcesOk'])


RT = {
    'C04': ('words', [
        ('words', 'words', 'step', 400, 60, 1200, ['inRange', 'cmpLaws', 'ringLaws']),
        ('words', 'words', 'sweepStep', 7632, 2, 16, ['inRange'])]),
    'C05': ('memory', [
        ('memory', 'memory_page', 'step', 150, 32, 600, ['wordsOk', 'readYourWrite']),
        ('memory', 'memory_small', 'step', 150, 32, 600, ['wordsOk', 'readYourWrite']),
        BULK('memStep', 8, 16, 300)]),
    'C06': ('calldata', [('calldata', 'calldata', 'step', 150, 80, 1600, ['selectorAgrees', 'zeroPast']),
        BULK('cdStep', 8, 24, 400)]),
    'C07': ('storage', [('storage', 'storage', 'step', 200, 60, 1600, ['separate'])]),
    'C08': ('storage', [('storage', 'storage', 'stepImm', 120, 60, 1600, ['setOnce'])]),
    'C09': ('calls', [
        ('calls', 'calls', 'productStep', 1215, 1, 1, ['callSafe'], ['init%d' % k for k in range(8)]),
        ('calls', 'calls', 'step', 100, 48, 1200, ['callSafe', 'wholeOutput']),
        BULK('callStep', 8, 24, 400)]),
    'C10': ('calls', [('calls', 'calls', 'createStep', 80, 48, 1200, ['argsFollowCode']),
        BULK('createStep', 4, 24, 300)]),
    'C11': ('env', [('env', 'env', 'step', 200, 60, 1600, ['addressesShort', 'answersAreWords'])]),
    'C12': ('outputs', [('outputs', 'outputs', 'step', 120, 60, 1600, ['haltClears', 'sizesAgree', 'bytesAreBytes']),
        BULK('outStep', 8, 24, 400)]),
    'C13': ('code', [('code', 'code', 'step', 120, 60, 1600, ['sizesAgree', 'wordsOk']),
        BULK('codeStep', 8, 24, 400)]),
    'C14': ('alloc', [('alloc', 'alloc', 'step', 100, 48, 800, ['pointerInRange', 'allocRounds', 'cellsKnown'])]),
    'C15': ('erc20', [('erc20', 'erc20', 'step', 150, 48, 1200, ['conserved', 'bounded', 'zeroStaysEmpty'])]),
}
RULE = ('one evaluation is one operation of a specification behaviour executed on one build of the runtime and compared with '
        'the result the specification prescribes; distinct_nontrivial counts distinct (operation, operands) pairs')
ASSUME = ['the mock host implements the DTVM host interface as declared in the runtime headers',
          'clang-16 and wasm-ld-18 stand in for the production tool chain; 128-bit compiler builtins come from the harness']


def run_runtime(ck):
    handler, jobs = RT[ck.prop]
    variants = vlib.build_runtime(ck)
    js = [dict(spec=j[0], main=j[1], step=j[2], steps=j[3], traces=(j[5] if ck.thorough else j[4]), invs=j[6], handler=handler,
               split=8 if j[4] > 8 else j[4], init=i)
          for j in jobs for i in (j[7] if len(j) > 7 else ['init'])]
    files = vlib.simulate(ck, js)
    vlib.replay_rt(ck, handler, variants, files[handler])
    ck.cov['rule'] = RULE
    ck.cov['builds'] = [v['name'] for v in variants]
    ck.assumptions += ASSUME
    for k in vlib.known_findings(ck.prop):
        probe_rt(ck, handler, variants, k)
    return 'model_checking'


def probe_rt(ck, handler, variants, k):
    """A listed finding: a fixed history that the code is known to get wrong."""
    f = os.path.join(vlib.VERIF, k['probe'])
    doc = json.load(open(f))
    vs = [v for v in variants if v['name'] in doc.get('variants', [v['name'] for v in variants])]
    sub = vlib.Check.__new__(vlib.Check)
    sub.tmp, sub.cov, sub.violations = ck.tmp, {'samples': []}, []
    vlib.replay_rt(sub, handler, vs, [f])
    if any(doc['expect'] in v['error'] for v in sub.violations):
        ck.known.append('%s %s' % (k['id'], k['what']))
    for v in sub.violations:
        if doc['expect'] not in v['error']:
            ck.violations.append(v)


def replay(doc):
    """bin/replay: the behaviour of one violation, again."""
    ck = vlib.Check.__new__(vlib.Check)
    import tempfile, shutil
    ck.tmp, ck.cov, ck.violations, ck.prop = tempfile.mkdtemp(prefix='verif-replay-'), {'samples': []}, [], doc['property']
    try:
        d = doc['detail']
        if doc['property'] in RT:
            vs = vlib.build_runtime(ck)
            vlib.replay_rt(ck, d['handler'], [v for v in vs if v['name'] == d['variant']] or vs, [d['trace']])
        if doc['property'] in front.CHECKS:
            a = front.ask(ck, front.build_front(ck), [(d['mode'], d['source'])])[0]
            print('the code answers %r, recorded was %r' % (a, d['answer']))
            if a == d['answer']:
                ck.violations.append({'error': doc['error']})
        if doc['property'] in yulc.RUNS:
            yulc.replay(ck, d)
        if doc['property'] in ('C19', 'C20'):
            yulc.replay_tree(ck, d)
        for v in ck.violations:
            print(v['error'])
        print('violated' if ck.violations else 'held')
        return 1 if ck.violations else 0
    finally:
        shutil.rmtree(ck.tmp, ignore_errors=True)


def run_check(ck):
    if ck.prop in RT:
        return run_runtime(ck)
    if ck.prop in front.CHECKS:
        return front.run_front(ck)
    if ck.prop in yulc.RUNS:
        return yulc.run_compiler(ck)
    if ck.prop == 'C19':
        return yulc.run_trees(ck)
    if ck.prop == 'C20':
        return yulc.run_rules(ck)
    raise vlib.ToolError('no check for ' + ck.prop)
