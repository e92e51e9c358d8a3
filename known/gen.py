#!/usr/bin/env python3
"""Writes the probe histories of the known findings (run by hand, output committed)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
B = lambda v: {'#bigint': str(v)}
def C(op, args=(), exp=(), data=(), out=()):
    return {'op': op, 'args': [B(x) for x in args], 'exp': [B(x) for x in exp], 'data': [B(x) for x in data],
            'data2': [], 'out': [B(x) for x in out], 'out2': []}
M = lambda d: {'#map': [[B(k), B(v)] for k, v in d.items()]}
def write(name, expect, states, variants=None):
    doc = {'expect': expect, 'states': states}
    if variants: doc['variants'] = variants
    json.dump(doc, open(os.path.join(D, name + '.json'), 'w'), indent=1)
    open(os.path.join(D, name + '.json'), 'a').write('\n')

PAGE = ['release-page']
# a 32-byte prevrandao from the host
env = [0x11, 0x22, 0x33, 0x44, 2**255 + 5, 0, 1, 2, 3, 4, 5, 6, 7, 8]
write('prevrandao', 'prevrandao', [
    {'wide': True, 'c': C('newtx', env)},
    {'wide': True, 'c': C('prevrandao', [], [2**255 + 5])}], PAGE)
# memoryguard(0x80)
write('memoryguard', 'below the reserved size', [{'i': B(0), 'over': {'#map': []}, 'batches': [], 'many': False, 'mem': M({}), 'c': C('guard', [0x80])}], PAGE)
# EVM memory grows past the page of scratch cells taken after the 300th
cells = {'n': B(301), 'seed': B(12345)}
st = lambda i, c, mem, b: {'i': B(i), 'any': True, 'over': {'#map': []}, 'batches': b, 'many': False, 'mem': M(mem), 'c': c}
write('growth', 'holds 0x7', [
    st(0, C('alloca', [0, 301, 12345]), {}, [cells]),
    st(1, C('mstore', [65536, 7]), {2048: 7}, [cells]),
    st(2, C('check', [0, 300], [(12345 * 601 + 300)]), {2048: 7}, [cells])], PAGE)
# msize
write('msize', 'msize', [
    {'mem': M({}), 'any': True, 'c': C('mstore_u32', [0, 1])  , 'nocompare': True},
    {'mem': M({}), 'any': True, 'nocompare': True, 'c': C('msize', [], [32])}], PAGE)
# an offset that does not fit: must not wrap around to low memory
write('wrap', 'wrapped around', [
    {'mem': M({}), 'any': True, 'nocompare': True, 'c': C('mstore_wrap', [2**32 - 32, 5])}], PAGE)
