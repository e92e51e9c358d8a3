#!/usr/bin/env python3
"""Write MANIFEST.json from the tables here (run by hand when they change)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RTT = 'model-based conformance: Quint specification %s simulated with invariants, ITF behaviours replayed step by step into the real runtime (five builds)'
RTN = ('Every operation of every generated specification behaviour is executed on the real wasm build of the runtime and its result and effects '
       'compared with the specification state. %s Trusts: the mock host, node, clang-16/wasm-ld-18; bounded by the number and length of behaviours.')
RT = {
 'C04': ('words', 'Operands are drawn from boundary shapes and uniformly, plus a systematic sweep of instruction x boundary pair.'),
 'C05': ('memory', 'Histories of 150 operations over overlapping and page-crossing ranges.'),
 'C06': ('calldata', 'All offsets classes inside, straddling and far beyond the input.'),
 'C07': ('storage', 'Keys collide in chosen bytes so that truncation aliases.'),
 'C08': ('storage', 'Names drawn from a small set, values over the full width.'),
 'C09': ('calls', 'The product kind x status x address class x output size x output range is enumerated completely (9720 combinations), then random sequences.'),
 'C10': ('calls', 'Code, argument and salt shapes random; failing statuses included.'),
 'C11': ('env', 'Host values over the full width of each type.'),
 'C12': ('outputs', 'Ranges empty, unwritten, overlapping and long; every ending.'),
 'C13': ('code', 'Source spans inside, straddling and past the end.'),
 'C14': ('alloc', 'Thousands of cells per behaviour, interleaved with memory growth.'),
 'C15': ('erc20', 'Conservation is an invariant of the specification; every storage slot is compared after each transfer.'),
}
FRT = 'model-based conformance: TLA+ specification spec/tla/%s.tla explored with TLC (exhaustively for short texts, by simulation for long ones), every reached state replayed into the real front end'
FRN = '%s Trusts: lalrpop 0.22 as the parser generator, the harness driving stripper and parser as main.rs does; bounded by text length.'
FR = {
 'C01': ('Comments', 'Every text up to a length over the characters that matter, plus long random texts; the result must equal the transducer output up to whitespace in place of comments.'),
 'C02': ('Syntax', 'Every viable token sequence from nine places of the grammar up to a length, completed to a program whose tree must match, and every one-token violation, which must be rejected; random spelling and layout; long random programs.'),
 'C03': ('Strings and Numbers', 'Every literal text up to a length over the characters that matter, all two-digit and three-digit escapes, long random literals; value or rejection must match in five syntactic places.'),
}
YT = 'model-based conformance: Quint specification spec/yul.qnt (a Yul machine and a program generator) simulated with invariants; every generated program compiled by the real compiler and run, every call compared'
YN = '%s Trusts: the stand-in inkwell crate over LLVM 16, the mock host, node; bounded by the number and size of programs.'
Y = {
 'C16': 'Every operator over every kind of operand (literals of each style, variables, call data, storage, memory, environment, nested results) at boundary values.',
 'C17': 'Random nestings of blocks, if, switch, for, break, continue, leave, functions with up to three results, recursion; storage writes compared in order.',
 'C18': 'The same programs under fifteen option sets.',
}
NA = {}
checks = []
for p in sorted(FR):
    s, n = FR[p]
    checks.append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': FRT % s, 'level': 'model_checking', 'level_note': FRN % n})
for p in sorted(RT):
    s, n = RT[p]
    checks.append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': RTT % ('spec/%s.qnt' % s), 'level': 'model_checking', 'level_note': RTN % n})
for p in sorted(Y):
    checks.append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': YT, 'level': 'model_checking', 'level_note': YN % Y[p]})
for p, t, n in [
  ('C19', 'model-based conformance: Quint specification spec/objects.qnt (object trees and their exploration at run time) simulated with invariants; every tree compiled by the real compiler, its entry points run, contracts found inside explored in turn',
   'Trees to depth 4 with data of 1 to 300 bytes; every part a contract can name is compared byte by byte, constructor arguments too.'),
  ('C20', 'model-based conformance: Quint specification spec/rules.qnt (the static rules of Yul as a scope machine, and a generator planting one violation) simulated with the invariant that machine and generator agree; every program given to the real compiler and its verdict compared',
   'Thirty-seven kinds of violation in six places of an object tree, and programs without one, which must be accepted.')]:
    checks.append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'bin/check %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': YN % n})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'No hooks: the runtime is driven through its exported functions and the host interface. Known findings: KNOWN_FINDINGS.txt. Replay a violation: bin/replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
