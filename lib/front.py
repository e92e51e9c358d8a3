"""The parser side: behaviours of the TLA+ modules run through /repo's comment stripper and parser."""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, time
import vlib
from vlib import NCPU, REPO, VERIF, ToolError, run

TLA = os.path.join(VERIF, 'spec', 'tla')


# ------------------------------------------------------------------- build
def build_front(ck):
    d = ck.path('front')
    shutil.copytree(os.path.join(VERIF, 'harness/front'), d)
    os.symlink(os.path.realpath(REPO), os.path.join(d, 'repo'))
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=ck.path('front-target'),
               CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
    run(['cargo', 'build', '--offline'], cwd=d, env=env, timeout=800)
    b = ck.path('front-bin')
    shutil.copy(ck.path('front-target/debug/front'), b)
    shutil.rmtree(ck.path('front-target'), ignore_errors=True)
    return b


def ask(ck, binary, reqs):
    """reqs: list of (mode, text). Answers in order; None where the code neither answers nor ends."""
    n = max(1, min(NCPU, len(reqs) // 200 + 1))
    size = -(-len(reqs) // n)

    def one(part):
        inp = ''.join('%s %s\n' % (m, t.encode().hex()) for m, t in part).encode()
        ans = []
        while len(ans) < len(part):
            lines = inp.split(b'\n')[len(ans):]
            try:
                p = subprocess.run([binary], input=b'\n'.join(lines), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
                got = p.stdout.decode().splitlines()
            except subprocess.TimeoutExpired as e:
                got = (e.stdout or b'').decode().split('\n')[:-1]
            ans += got
            if len(ans) < len(part):
                ans.append(None)        # the process ended or hung on this one
        return ans
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, [reqs[i:i + size] for i in range(0, len(reqs), size)]))
    return [a for r in res for a in r]


# --------------------------------------------------------------------- TLC
def cfg(ck, tag, consts, invs):
    p = ck.path(tag + '.cfg')
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n' + ''.join('  %s %s\n' % (k, v) for k, v in consts.items())
                + 'INVARIANTS ' + ' '.join(invs) + '\nCHECK_DEADLOCK FALSE\n')
    return p


def setof(names):
    return '= {' + ', '.join('"%s"' % n for n in names) + '}'


def states(path, keep):
    """The states of a dump or of a simulated behaviour, as dicts of the variables in keep."""
    cur, name, buf = {}, None, []

    def flush():
        if name in keep:
            v = ' '.join(buf).replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
            cur[name] = json.loads(v)
    for line in open(path):
        line = line.rstrip('\n')
        if line.startswith('/\\ '):
            flush()
            name, rest = line[3:].split(' = ', 1) if ' = ' in line else (line[3:].split(' =')[0], '')
            buf = [rest]
        elif not line.strip() or line.startswith(('State ', 'STATE_', '----', '====')):
            flush()
            name, buf = None, []
            if cur:
                yield cur
            cur = {}
        elif name:
            buf.append(line)
    flush()
    if cur:
        yield cur


def tlc(ck, module, tag, consts, invs, keep, sim=None, workers=4, last=None):
    """Exhaustive (all reachable states) or sim=(behaviours per worker, depth)."""
    c = cfg(ck, tag, consts, invs)
    d = ck.path('tlc_' + tag)
    os.makedirs(d)
    for f in glob.glob(os.path.join(TLA, '*.tla')):
        shutil.copy(f, d)
    cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', c]
    if sim:
        cmd += ['-simulate', 'file=%s/sim,num=%d' % (d, sim[0]), '-depth', str(sim[1]), '-seed', str(ck.subseed(tag) % (1 << 31))]
    else:
        cmd += ['-dump', os.path.join(d, 'all.dump')]
    p = run(cmd + [module + '.tla'], cwd=d, timeout=800, ok=None)
    txt = p.stdout.decode(errors='replace')
    if p.returncode != 0 or 'Error:' in txt:
        raise ToolError('tlc %s/%s: %s' % (module, tag, txt[-1500:]))
    out = []
    if sim:
        for f in sorted(glob.glob(d + '/sim_*')):
            s = list(states(f, keep))
            ck.add('states', len(s))
            ck.add('transitions', len(s) - 1)
            out += s[-last:] if last else s
    else:
        out = list(states(os.path.join(d, 'all.dump'), keep))
        ck.add('states', len(out))
        ck.add('transitions', len(out) - 1)
    shutil.rmtree(d, ignore_errors=True)
    return out


def parallel(ck, jobs):
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda j: tlc(ck, **j), jobs))


# --------------------------------------------------------------------- C01
CH = {'SL': '/', 'ST': '*', 'DQ': '"', 'SQ': "'", 'BS': '\\', 'NL': '\n', 'SP': ' ', 'TAB': '\t', 'CR': '\r', 'FF': '\f', 'LB': '{', 'RB': '}',
      'eacute': '\u00e9', 'han': '\u6c49', 'face': '\U0001f600', 'END': ' ', **{'d%d' % i: str(i) for i in range(10)}}


def text(names):
    return ''.join(CH.get(n, n) for n in names)


WORD = re.compile(r'[A-Za-z0-9_.$\u0080-\U0010ffff]')


def stripped(names):
    """The regular expression of everything that may be left."""
    out, i = [], 0
    while i < len(names):
        if names[i] != 'GAP':
            out.append(re.escape(CH.get(names[i], names[i])))
            i += 1
            continue
        j = i
        while j < len(names) and names[j] == 'GAP':
            j += 1
        sep = i > 0 and j < len(names) and WORD.match(CH.get(names[i - 1], names[i - 1])) and WORD.match(CH.get(names[j], names[j]))
        out.append(r'\s+' if sep else r'\s*')
        i = j
    return re.compile(''.join(out), re.S)


def check_comments(ck, binary):
    full = ['SL', 'ST', 'DQ', 'SQ', 'BS', 'NL', 'SP', 'a']
    wide = full + ['TAB', 'CR', 'b', 'eacute', 'han', 'face', '{', '0']
    invs = ['TypeOK', 'Kept', 'NoSlash', 'Idempotent']
    keep = {'src', 'mode', 'out'}
    t = ck.thorough
    jobs = [dict(module='Comments', tag='c8', consts={'Alphabet': setof(full), 'MaxLen': '= %d' % (6 if t else 5)}, invs=invs, keep=keep),
            dict(module='Comments', tag='c5', consts={'Alphabet': setof(['SL', 'ST', 'DQ', 'a', 'NL']), 'MaxLen': '= %d' % (8 if t else 7)}, invs=invs, keep=keep),
            dict(module='Comments', tag='c3', consts={'Alphabet': setof(['SL', 'ST', 'a']), 'MaxLen': '= %d' % (12 if t else 9)}, invs=invs, keep=keep),
            dict(module='Comments', tag='sim', consts={'Alphabet': setof(wide), 'MaxLen': '= 300'}, invs=['TypeOK'], keep=keep,
                 sim=(400 if t else 40, 300), last=40)]
    todo = [s for r in parallel(ck, jobs) for s in r]
    reqs = [('strip', text(s['src'])) for s in todo]
    ck.cov['model_s'] = round(time.time() - ck.t0, 1)
    ans = ask(ck, binary, reqs)
    for s, (_, src), a in zip(todo, reqs, ans):
        names = s['out'] + (['SL'] if s['mode'] == 'slash' else [])
        want = stripped(names)
        bad = None
        if a is None or not a.startswith('ok '):
            bad = 'the comment stripper does not survive the text'
        else:
            got = bytes.fromhex(a[3:]).decode()
            if not want.fullmatch(got):
                bad = 'stripping %r leaves %r, not %r' % (src[-200:], got[-200:], text(['<gap>' if n == 'GAP' else n for n in names])[-200:])
        if bad:
            ck.violation(bad, {'mode': 'strip', 'source': src, 'answer': a})
    count(ck, reqs, ans)
    ck.cov['rule'] = ('one evaluation is one text of the specification stripped by the code and compared; distinct_nontrivial counts '
                      'texts that contain a comment opener')
    ck.cov['distinct_nontrivial'] = len({r[1] for r in reqs if '//' in r[1] or '/*' in r[1]})


def count(ck, reqs, ans):
    ck.add('evaluations', len(reqs))
    ck.add('traces_validated_against_impl', len(reqs))
    ck.cov['samples'] += [{'source': r[1][:300], 'answer': (a or '')[:300]} for r, a in list(zip(reqs, ans))[-3:]]


# --------------------------------------------------------------------- C02
IDS = ['x', 'y', 'z', 'f', '_', '_1', 'a.b', 'usr$x', 'fun_$_t_uint256', 'objectx', 'codex', 'letter', 'lets', 'iff', 'fortune', 'switcher', 'casey',
       'defaults', 'leaves', 'breaker', 'continued', 'functions', 'truex', 'falsey', 'Object', 'LET', 'e', 'x0', 'hexx', 'add', 'mload', 'datasize', 'abi_decode_address',
       'a' * 70, 'zz.9$', 'o', 'i_f', 'c1_', '_$', '$', '$y', '$_1.a']
TYPES = ['u256', 'uint8', 'bool', 'bytes32', 't_1']
DECS = ['0', '1', '9', '10', '007', '255', '340282366920938463463374607431768211456',
        '115792089237316195423570985008687907853269984665640564039457584007913129639935']
HEXS = ['0x0', '0x1', '0xFF', '0xabCDef', '0x00ff', '0x' + 'f' * 64, '0xdeadbeef', '0xe1']
STRS = [('""', ''), ('"a"', 'a'), ('"a b"', 'a b'), ('"x // y"', 'x // y'), ('"/* z */"', '/* z */'), ('"it\'s"', "it's"), ('"q\\"q"', 'q"q'),
        ('"\\\\"', '\\'), ('"\\x41\\n"', 'A\n'), ('"{"', '{'), ('"}"', '}'), ('"let x := 1"', 'let x := 1'), ('"\u00e9\u6c49"', '\u00e9\u6c49'),
        ('"\\u{6C49}"', '\u6c49'), ('"hex"', 'hex'), ('"\\ \\t"', 't')]
DATAS = ['a', 'x_1', '.metadata', 'A.b.c', '0', 'data', 'hex']
HEXDATA = ['00', 'ff', 'aBcD', 'deadbeef', '0123456789abcdefABCDEF00' * 4]
COMMENTS = ['/* c */', '// c\n', '/**/', '/***/', '/* " */', "/* ' */", "// it's\n", '/** @src 0:1:2  "x" */', '/*/ */', '// /*\n', '/* // */', '//\n', '/* \n\n */',
            '/// @use-src 0:"a.sol"\n', '/* **/', '/* } { */', '// "\n', '/*\u6c49*/']
SPACES = [' ', '  ', '\n', '\t', '\r\n', '\n\n  ']


def spell(rng, toks):
    """One spelling per token: (text, leaf)."""
    out = []
    for t in toks:
        if t == 'id':
            i = rng.choice(IDS)
            out.append((i, i))
        elif t == 'dec':
            d = rng.choice(DECS)
            out.append((d, d))
        elif t == 'hexnum':
            d = rng.choice(HEXS)
            out.append((d, d))
        elif t == 'str':
            out.append(rng.choice(STRS))
        elif t == 'dataname':
            d = rng.choice(DATAS)
            out.append(('data%s"%s"' % (rng.choice([' ', ' ', '  ', '\n', '\t ', ' /* c */ ', '/*c*/']), d), d))
        elif t == 'oddhex':
            out.append(('hex"%s"' % rng.choice(['0', 'abc', 'fFf01']), ''))
        elif t == 'hexdata':
            d = rng.choice(HEXDATA)
            out.append(('hex"%s"' % d, d))
        else:
            out.append((t, t))
    return out


def lay(rng, spelled):
    """Put the tokens on paper."""
    style = rng.choice(['tight', 'space', 'lines', 'wild', 'wild', 'comments'])
    out = [rng.choice(['', '', '\n', ' ', '/* head */\n', '// head\n'])]
    prev = ''
    for t, _ in spelled:
        if prev:
            need = bool(WORD.match(prev[-1]) and WORD.match(t[0]))
            # a string touching a name reads as another token (hex"..", data "..")
            need = need or (t[0] == '"' and bool(WORD.match(prev[-1])))
            if style == 'tight':
                s = ' ' if need else ''
            elif style == 'space':
                s = ' '
            elif style == 'lines':
                s = rng.choice(['\n', '\r\n', '\n    '])
            else:
                s = ''
                for _ in range(rng.choice([0, 1, 1, 2])):
                    s += rng.choice(COMMENTS if rng.random() < (0.8 if style == 'comments' else 0.3) else SPACES)
                if need and not s:
                    s = ' '
        else:
            s = ''
        out.append(s + t)
        prev = t
    out.append(rng.choice(['', '\n', ' ', '\n// tail\n', '// tail', '/* tail */']))
    return ''.join(out)


def sexp(ev, spelled):
    out = []
    for e in ev:
        if e[0] == 'o':
            out.append('(' + {'hexnum': 'hex'}.get(e[1], e[1]))
        elif e[0] == 'a':
            out.append(" '" + spelled[e[1] - 1][1].encode().hex())
        else:
            out.append(')')
    return ''.join(out)


NUM = re.compile(r"\((dec|hex|hexdata) '([0-9a-f]*)")


def norm(tree):
    """Numbers by value, hex data by content."""
    def f(m):
        s = bytes.fromhex(m.group(2)).decode()
        try:
            v = s.lower() if m.group(1) == 'hexdata' else str(int(s, 10 if m.group(1) == 'dec' else 16))
        except ValueError:
            v = '?' + s
        return '(%s %s' % (m.group(1), v)
    return NUM.sub(f, tree)


def show(tree):
    return re.sub(r"'([0-9a-f]*)", lambda m: repr(bytes.fromhex(m.group(1)).decode(errors='replace')), tree or '')[:700]


ALLTOK = ['{', '}', '(', ')', ',', ':', ':=', '->', 'object', 'code', 'dataname', 'hexdata', 'id', 'function', 'let', 'if', 'for', 'switch', 'case', 'default', 'leave',
          'break', 'continue', 'dec', 'hexnum', 'str', 'true', 'false']
FEWLIT = [t for t in ALLTOK if t not in ('hexnum', 'false')]


def syntax_jobs(ck):
    invs = ['Nested', 'Ordered', 'NothingLost', 'Same']
    keep = {'toks', 'status', 'full'}
    t = ck.thorough

    def job(start, n, toks=FEWLIT):
        return dict(module='MCSyntax', tag=start, consts={'Tokens': setof(toks), 'MaxLen': '= %d' % n, 'MaxDepth': '= 60', 'RejectFrom': '= 0', 'Start': '<- ' + start},
                    invs=invs, keep=keep)

    def sim(start, num, depth, rej):
        return dict(module='MCSyntax', tag='sim' + start, consts={'Tokens': setof(ALLTOK), 'MaxLen': '= %d' % depth, 'MaxDepth': '= 70', 'RejectFrom': '= %d' % rej,
                    'Start': '<- ' + start}, invs=['Nested', 'Ordered', 'NothingLost'], keep=keep, sim=(num, depth + 1), workers=2)
    x = 1 if t else 0
    odd = job('StartSegments', 5 + x, FEWLIT + ['oddhex'])
    odd['tag'] = 'odd'
    return [odd, job('StartBlock', 4 + x), job('StartFor', 4 + x), job('StartExpr', 4 + x), job('StartCases', 5 + x), job('StartFunction', 7 + x),
            job('StartSegments', 7 + x), job('StartTop', 7 + x), job('StartTyped', 4 + x), job('StartAssign', 5 + x),
            sim('StartBlock', 400 if t else 20, 50, 30), sim('StartSegments', 200 if t else 20, 60, 20), sim('StartFunction', 200 if t else 15, 70, 40)]


def check_syntax(ck, binary):
    todo = [s for r in parallel(ck, syntax_jobs(ck)) for s in r if s['full'][0] == 'tree' or s['status'] == 'dead']
    reqs, want = [], []
    for s in todo:
        sp = spell(ck.rng, s['full'][1])
        reqs.append(('parse', lay(ck.rng, sp)))
        want.append('ok ' + sexp(s['full'][2], sp) if s['full'][0] == 'tree' else 'err')
    ck.cov['model_s'] = round(time.time() - ck.t0, 1)
    ans = ask(ck, binary, reqs)
    for (_, src), w, a in zip(reqs, want, ans):
        if a == w or (a and w != 'err' and norm(a) == norm(w)):
            continue
        if w == 'err' and a and a.startswith('ok'):
            e = 'a text outside the grammar is accepted: %r is read as %s' % (src[:400], show(a))
        elif a == 'err':
            e = 'a text of the grammar is rejected: %r' % src[:600]
        elif a is None or a == 'panic':
            e = 'the parser does not survive %r' % src[:600]
        else:
            e = 'the tree of %r is %s, not %s' % (src[:400], show(a), show(w))
        ck.violation(e, {'mode': 'parse', 'source': src, 'answer': a, 'want': w})
    count(ck, reqs, ans)
    ck.cov['accepted_texts'] = sum(1 for w in want if w != 'err')
    ck.cov['rejected_texts'] = sum(1 for w in want if w == 'err')
    ck.cov['rule'] = 'one evaluation is one text laid out from a specification state, parsed and compared with its tree or verdict; distinct_nontrivial counts distinct token sequences'
    ck.cov['distinct_nontrivial'] = len({json.dumps(s['full'][:2]) for s in todo})


# --------------------------------------------------------------------- C03
DIGITS = ['d%d' % i for i in range(10)] + list('ABCDEF')


def check_literals(ck, binary):
    t = ck.thorough
    esc = ['DQ', 'BS', 'NL', 'CR', 'SP', 'TAB', 'SQ', 'SL', 'ST', 'n', 't', 'r', 'x', 'u', 'LB', 'RB', 'd0', 'd4', 'd8', 'A', 'D', 'F', 'z', 'eacute']
    invs = ['Closable', 'Scalar', 'NotLonger', 'Plain']
    keep = {'src', 'mode', 'rest', 'full'}

    def job(tag, chars, n, start='StartEmpty', **kw):
        return dict(dict(module='MCStrings', tag=tag, consts={'Chars': setof(chars), 'Start': '<- ' + start, 'MaxLen': '= %d' % n}, invs=invs, keep=keep), **kw)
    x = 1 if t else 0
    jobs = [job('all', esc, 3 + x), job('esc', esc, 2 + x, 'StartEscape'), job('mix', ['BS', 'DQ', 'n', 'SP', 'x', 'd4', 'F'], 4 + x),
            job('hex', DIGITS + ['z'], 2, 'StartHex'), job('low', DIGITS + ['z'], 2 + x, 'StartLow'), job('high', DIGITS, 3 + x, 'StartUnicode'),
            job('uni', ['d0', 'd8', 'D', 'F', 'RB', 'z'], 5 + x, 'StartUnicode'), job('sur', ['d0', 'd4', 'd7', 'd8', 'A', 'F', 'RB'], 4 + x, 'StartSurrogate'),
            job('ws', ['BS', 'SP', 'NL', 't', 'DQ'], 5 + x, 'StartBlank'),
            job('sim', esc + ['han', 'face', 'd7', 'C', 'FF'], 120, sim=(2000 if t else 200, 120), last=6),
            job('long', ['BS', 'n', 't', 'x', 'd4', 'd7', 'A', 'SP', 'SL', 'ST', 'eacute', 'face'], 120, sim=(600 if t else 60, 120), last=6)]
    numch = ['0', '1', '9', 'a', 'F', 'x', 'X', 'g', '_', '.', '$', 'END']
    ninv = ['NoLeadingZero', 'InBase', 'NotLonger', 'CaseBlind']
    nkeep = {'src', 'mode', 'digits', 'base'}
    njobs = [dict(module='Numbers', tag='num', consts={'Chars': setof(numch), 'MaxLen': '= %d' % (5 if t else 4)}, invs=ninv, keep=nkeep),
             dict(module='Numbers', tag='numsim', consts={'Chars': setof(list('0125789abcdefABCDEFx') + ['END']), 'MaxLen': '= 70'}, invs=ninv, keep=nkeep,
                  sim=(2000 if t else 300, 70), last=3),
             dict(module='Numbers', tag='decsim', consts={'Chars': setof(list('0125789')), 'MaxLen': '= 80'}, invs=ninv, keep=nkeep, sim=(200 if t else 10, 80), last=50)]
    res = parallel(ck, jobs + njobs)
    strs = [s for r in res[:len(jobs)] for s in r]
    nums = [s for r in res[len(jobs):] for s in r]
    reqs, want = [], []
    places = ['object "o" { code { let x := %s } }', 'object "o" { code { f(%s) } }', 'object "o" { code { switch x case %s { } } }', 'object %s { code { } }',
              'object "o" { code { x := %s:u256 } }']
    for s in strs:
        lit = '"' + text(s['src']) + ('' if s['mode'] == 'done' else text(s['rest']))
        k = ck.rng.randrange(len(places))
        reqs.append(('parse', places[k] % lit))
        if s['mode'] == 'dead':
            want.append('err')
        else:
            want.append(place(k, "(str '%s" % ''.join(chr(p) for p in s['full'][1]).encode().hex(), "'" + ''.join(chr(p) for p in s['full'][1]).encode().hex()))
    for s in nums:
        src = text(s['src'])
        if s['mode'] == 'start':
            continue
        if s['mode'] == 'x':
            v = 'err'
        elif s['mode'] == 'dead':
            v = 'err'
        else:
            n = 0
            for d in s['digits']:
                n = n * s['base'] + d
            v = "(%s %d" % ('dec' if s['base'] == 10 else 'hex', n)
        if s['mode'] == 'dead' and not re.match(r'[0-9]', src):
            continue        # not a number at all: a name, or nothing
        k = ck.rng.choice([0, 1, 2, 4])
        reqs.append(('parse', places[k] % src))
        want.append('err' if v == 'err' else place(k, v, None))
    for b in ('true', 'false'):
        for k in (0, 1, 2, 4):
            reqs.append(('parse', places[k] % b))
            want.append(place(k, '(' + b, None))
    ck.cov['model_s'] = round(time.time() - ck.t0, 1)
    ans = ask(ck, binary, reqs)
    for (_, src), w, a in zip(reqs, want, ans):
        if a == w or (a and w != 'err' and norm(a) == norm(w)):
            continue
        if w == 'err' and a and a.startswith('ok'):
            e = 'an impossible literal is accepted: %r is read as %s' % (src[:300], show(a))
        elif a == 'err':
            e = 'a literal is rejected: %r' % src[:300]
        elif a is None or a == 'panic':
            e = 'the parser does not survive %r' % src[:300]
        else:
            e = 'the literal of %r is read as %s, not %s' % (src[:300], show(a), show(w))
        ck.violation(e, {'mode': 'parse', 'source': src, 'answer': a, 'want': w})
    count(ck, reqs, ans)
    ck.cov['rule'] = 'one evaluation is one literal text in one place of a program, parsed and compared with the value the specification reads; distinct_nontrivial counts distinct programs'
    ck.cov['distinct_nontrivial'] = len({r[1] for r in reqs})


def place(k, lit, name):
    o = "ok (object '6f(block"
    return [o + "(let(ids(id '78))" + lit + "))))", o + "(exec(call '66" + lit + ")))))", o + "(switch(var '78)(case" + lit + ")(block)))))",
            "ok (object %s(block))" % name, o + "(assign(ids '78)" + lit + " '75323536))))"][k]


CHECKS = {'C01': check_comments, 'C02': check_syntax, 'C03': check_literals}


def run_front(ck):
    with cf.ThreadPoolExecutor(1) as ex:
        b = ex.submit(build_front, ck)
        CHECKS[ck.prop](ck, Later(b))
    ck.assumptions += ['the harness builds the grammar, the tree and the text utilities of /repo with lalrpop 0.22 and drives them as main.rs does']
    return 'model_checking'


class Later:
    """The path of the binary, once it is built."""
    def __init__(self, fut):
        self.fut = fut

    def __fspath__(self):
        return self.fut.result()
