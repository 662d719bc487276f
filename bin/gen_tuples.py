#!/usr/bin/env python3
"""Writes harness/src/tuples_gen.rs: one tuple expression per ordered-tree shape.

Every case is (constructor call, depth of each node in preorder).  `t()` makes
the next datum; Rust evaluates tuple fields left to right, so data are numbered
in preorder.
"""
import sys
out = []


def shapes(n):
    """all ordered trees with n nodes, as nested lists"""
    if n == 1:
        return [[]]
    return forests(n - 1)


def forests(n):
    """all ordered forests with n nodes in total"""
    if n == 0:
        return [[]]
    r = []
    for k in range(1, n + 1):
        for first in shapes(k):
            for rest in forests(n - k):
                r.append([first] + rest)
    return r


def depths(t, d=0):
    r = [d]
    for c in t:
        r += depths(c, d + 1)
    return r


class Enc:
    """leaf encoding: 0 bare, 1 as one-element tuple, else alternate by bits"""

    def __init__(self, mode):
        self.mode, self.i = mode, 0

    def leaf(self):
        self.i += 1
        if self.mode == 0:
            return False
        if self.mode == 1:
            return True
        return (self.mode >> (self.i % 8)) & 1 == 1


def tree(t, e):
    if not t:
        return '(t(),)' if e.leaf() else 't()'
    return '(t(),' + ','.join(tree(c, e) for c in t) + ')'


def nleaves(t):
    return 1 if not t else sum(map(nleaves, t))


def enc_modes(t, full):
    n = nleaves(t)
    if full and n <= 3:
        # every combination of the leaves' encodings: bits 1..n of an even/odd safe mode
        ms = []
        for b in range(2 ** n):
            ms.append(0 if b == 0 else 1 if b == 2 ** n - 1 else 0x200 | (b << 1))
        return ms
    return [0, 1, 0x2aa]


trees, fors = [], []
for n in range(1, 8):
    for s in shapes(n):
        for m in (enc_modes(s, n <= 5) if n <= 6 else [0]):
            trees.append((tree(s, Enc(m)), depths(s)))
for n in range(0, 7):
    for s in forests(n):
        ms = [0] if n == 6 else sorted({x for c in s for x in enc_modes(c, n <= 4)} or {0})
        for m in ms:
            e = Enc(m)
            fors.append(('(' + ''.join(tree(c, e) + ',' for c in s) + ')', [d - 1 for d in depths(s)[1:]]))
# chains
for d in (10, 18):
    s = []
    for _ in range(d - 1):
        s = [s]
    trees.append((tree(s, Enc(0)), depths(s)))
    fors.append(('(' + tree(s, Enc(1)) + ',)', depths(s)))
# nested on the left and on the right, ending several levels at once
s = []
for k in range(7):
    s = [[], s]
trees.append((tree(s, Enc(0)), depths(s)))
fors.append(('(t(),' + tree(s, Enc(0)) + ',t())', [0] + depths(s) + [0]))
s = []
for k in range(7):
    s = [s, []]
trees.append((tree(s, Enc(0)), depths(s)))
fors.append(('(t(),' + tree(s, Enc(0)) + ',t())', [0] + depths(s) + [0]))
# every arity
ar_t, ar_f = [], []
for n in range(0, 33):
    s = [[] for _ in range(n)]
    ar_t.append((tree(s, Enc(1)) if n else '(t(),)', depths(s)))
    ar_f.append(('(' + ''.join('t(),' for _ in range(n)) + ')', [0] * n))
    if n:
        # a branch at the first, the middle and the last place
        for p in sorted({0, n // 2, n - 1}):
            s = [[] for _ in range(n)]
            s[p] = [[], []]
            ar_t.append((tree(s, Enc(0)), depths(s)))
            ar_f.append(('(' + ''.join(tree(c, Enc(0)) + ',' for c in s) + ')', [d - 1 for d in depths(s)[1:]]))

# large ones: many branches, a large branch between leaves, deep and wide at once
L = []


def br(n, *more):
    return [[] for _ in range(n)] + list(more)


b_t, b_f = [], []
for s in ([br(9) for _ in range(29)],
          [L, [br(9) for _ in range(27)], L],
          [br(9), [br(15), [br(20), [br(30), br(31), L], L], br(31)], br(31)] + [br(1) for _ in range(20)],
          [br(31) for _ in range(4)] + [[br(31) for _ in range(4)] + [L]]):
    b_t.append((tree(s, Enc(0)), depths(s)))
    b_f.append(('(' + ''.join(tree(c, Enc(0)) + ',' for c in s) + ')', [d - 1 for d in depths(s)[1:]]))

seen = set()


def uniq(l):
    r = []
    for e in l:
        if e[0] not in seen:
            seen.add(e[0])
            r.append(e)
    return r


def emit(name, kind, l):
    out.append(f'pub const {name.upper()}: usize = {len(l)};')
    out.append(f'pub fn {name}<V: Kind>(k: usize, v: &V) {{')
    out.append('    match k {')
    for i, (e, d) in enumerate(l):
        pat = '_' if i == len(l) - 1 else str(i)
        out.append(f'        {pat} => v.{kind}(|| {e}, &{d}),')
    out.append('    }')
    out.append('}')


out.append('// written by bin/gen_tuples.py')
out.append('use super::tuples::{t, Kind};')
trees = uniq(trees)
ar_t = uniq(ar_t)
seen = set()
fors = uniq(fors)
ar_f = uniq(ar_f)
emit('tree_cases', 'tree', trees)
emit('tree_arity', 'tree', ar_t)
emit('forest_cases', 'forest', fors)
emit('forest_arity', 'forest', ar_f)
emit('tree_big', 'tree', b_t)
emit('forest_big', 'forest', b_f)
open(sys.argv[1], 'w').write('\n'.join(out) + '\n')
print(len(trees), len(ar_t), len(fors), len(ar_f))
