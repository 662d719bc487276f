"""What each check runs: harness entry points, their bounds, and what they must reach.

H(name, params.., cfg)   cfg: dev    debug assertions and overflow checks on (cargo's dev profile)
                              rel    both off (as in cargo's release profile)
                              nostd  dev with the crate's feature `no_std`
"""
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The LLVM IR that rustc (stable, opt-level 0, one codegen unit after fat LTO with std) emits for the crate and the harness means what the engine takes it to mean; '
    'sampled paths of every run are replayed on a natively compiled build and must observe the same values.',
    'Inputs outside the stated bounds (larger trees, longer histories, other element types) are not covered.',
    'The heap never runs out of memory; allocations have distinct, non-overlapping addresses; a path that needs more stack than 12000 frames is reported as no answer.',
    'One thread, except in C21: other interleavings are not modelled.',
    'Pointer provenance and reference aliasing rules (Stacked/Tree Borrows) are not checked: memory errors are out-of-bounds, use after free, double free, invalid free, '
    'reads of uninitialised memory that reach a branch, and leaks where the harness says so.',
]
BOUNDS = {}
PLAN = {}


def H(h, *p, cfg='dev', covers=()):
    return {'h': h, 'p': list(p), 'cfg': cfg, 'covers': list(covers)}


def prop(pid, bounds, quick, thorough=None):
    BOUNDS[pid] = bounds
    PLAN[pid] = {'quick': quick, 'thorough': thorough or quick}


# larger trees: 18 children with 17 each; 8 levels around 20 leaves; a chain with leaves; 280 levels; 300 children
SHAPES = [(0, 18, 17), (1, 20, 8), (3, 9, 2), (3, 280, 0), (0, 300, 0)]
OPERANDS = {(2, 3, 5): (3, 10, 2), (0, 18, 17): (1, 5, 3), (1, 20, 8): (0, 6, 5), (3, 9, 2): (0, 20, 15), (3, 280, 0): (3, 5, 0), (0, 300, 0): (0, 0, 0)}
BIG = ('big(shape): larger trees, the operation at one of ten nodes (all of them in the thorough tier, beyond 100 nodes again ten): shape 0 is c children with g each, 1 is d levels of (leaf, next, leaf) around c leaves, '
       '2 is c-ary of height h, 3 is a chain of c with g leaves at each; a second shape is the operand. ')


def big(p, cover, operand=False, shapes=SHAPES, cfgs=('dev', 'rel'), thorough=False):
    l = []
    for i, s in enumerate(shapes):
        for cfg in cfgs if thorough or i == 1 else ('dev',):
            o = OPERANDS[s] if operand else (0, 0, 0)
            n = {0: s[1] * (s[2] + 1), 1: s[1] + 3 * s[2], 2: 400, 3: s[1] * (s[2] + 1)}[s[0]] + 1
            l.append(H(p + '_big', *s, *o, 0, int(thorough and n <= 100), cfg=cfg, covers=[cover]))
    return l


HC = ['history complete']
WC = ['wide checked']
DC = ['deep checked']
HIST = (BIG + 'history(n,f,k): every tree shape of up to n nodes, every forest of up to f nodes, stored scattered, piled or mixed, every sequence of k public operations '
        '(on the tree, the forest, or any node of either; operands: new nodes (four-node trees if a fourth parameter is 1), what was removed before, the whole forest). '
        'probe(n,f,k): after k operations the tree, the removed piece or a tree of the forest is made a child of a new tree in four ways and gets siblings or is detached there. '
        'wide(c,kind,s): c children, one operation at every position (beyond 64 children: ends, middle, edges of u8), splicing s trees. '
        'deep(d): a chain of d nodes, one operation at every level. huge(c): c children, one operation at the ends and the edges of 16-bit integers. ')


def mutation(p, extra_q=(), extra_t=(), q=((3, 2, 2), (2, 0, 3), (6, 2, 1)), rel=((3, 1, 1), (2, 1, 2)), t=((4, 2, 2), (3, 0, 3), (2, 1, 3), (7, 2, 1)), trel=((3, 2, 2), (2, 0, 3))):
    h, w, d = p + '_history', p + '_wide', p + '_deep'
    pr, PC = p + '_probe', ['put into another tree']
    quick = [H(h, *a, covers=HC) for a in q] + [H(h, *a, cfg='rel', covers=HC) for a in rel]
    thor = [H(h, *a, covers=HC) for a in t] + [H(h, *a, cfg='rel', covers=HC) for a in trel]
    quick += [H(h, 3, 2, 1, 1, covers=HC), H(h, 2, 1, 2, 1, covers=HC), H(pr, 3, 2, 1, covers=PC), H(pr, 2, 0, 1, 1, covers=PC), H(pr, 3, 0, 1, cfg='rel', covers=PC)]
    thor += [H(h, 3, 2, 2, 1, covers=HC), H(pr, 4, 2, 1, covers=PC), H(pr, 3, 1, 2, covers=PC), H(pr, 3, 1, 1, 1, covers=PC), H(h, 2, 1, 2, 1, cfg='rel', covers=HC), H(pr, 3, 1, 1, cfg='rel', covers=PC)]
    if p in ('c01', 'c02', 'c03'):
        quick += [H(p + '_huge', 66000, covers=['huge checked'])]
        thor += [H(p + '_huge', 66000, covers=['huge checked']), H(p + '_huge', 66000, 1, covers=['huge checked']), H(p + '_huge', 66000, cfg='rel', covers=['huge checked'])]
    wides = [H(w, 40, 0, 3, covers=WC), H(w, 40, 1, 3, covers=WC), H(w, 300, 0, 270, covers=WC), H(w, 300, 1, 270, covers=WC), H(d, 40, covers=DC), H(d, 300, covers=DC)]
    rwides = [H(w, 300, 0, 3, cfg='rel', covers=WC), H(w, 300, 1, 3, cfg='rel', covers=WC), H(d, 300, cfg='rel', covers=DC)]
    full = [H(w, 300, 0, 3, 0, 0, 0, 0, 1, covers=WC), H(w, 300, 1, 3, 0, 0, 0, 0, 1, covers=WC), H(d, 300, 0, 0, 0, 0, 0, 0, 1, covers=DC)]
    bigger = big(p, 'big checked', True, [(0, 18, 17), (1, 20, 8), (3, 9, 2)])
    biggest = big(p, 'big checked', True, SHAPES + [(2, 3, 5)], thorough=True)
    return quick + wides + rwides + bigger + list(extra_q), thor + wides + rwides + full + biggest + list(extra_t)


q, t = mutation('c01')
prop('C01', HIST + 'Afterwards everything is taken apart from either end.', q, t)
q, t = mutation('c02', extra_q=[H('c02_arith', covers=['sizes added']), H('c02_arith', cfg='rel', covers=['sizes added'])],
                extra_t=[H('c02_arith', covers=['sizes added']), H('c02_arith', cfg='rel', covers=['sizes added'])])
prop('C02', HIST + 'Size arithmetic: all 64-bit components.', q, t)
q, t = mutation('c03')
prop('C03', HIST, q, t)
C4 = ['into_iter abandoned', 'into_bfs abandoned', 'forest into_bfs abandoned']
q, t = mutation('c04', q=((5, 2, 1), (2, 1, 2), (1, 0, 3)), rel=((3, 1, 1),), t=((3, 1, 2), (2, 0, 3), (6, 2, 1)), trel=((2, 1, 2),),
                extra_q=[H('c04_consume', 6, covers=C4), H('c04_types', covers=['types done']), H('c04_consume', 4, cfg='rel', covers=C4), H('c04_types', cfg='rel', covers=['types done'])],
                extra_t=[H('c04_consume', 7, covers=C4), H('c04_types', covers=['types done']), H('c04_consume', 5, cfg='rel', covers=C4), H('c04_types', cfg='rel', covers=['types done'])])
prop('C04', HIST + 'consume(n): owning iterators over trees and forests of up to n nodes, abandoned after any number of items. '
     'types: zero-sized, over-aligned, boxed, large and byte-sized data.', q, t)
TC = ['tree checked', 'forest checked']
prop('C05', 'Every shape of up to 7 nodes in trees and 6 in forests, spelled as tuples (single leaves both bare and in a tuple of their own for small ones); every arity up to 32: leaves only, and a nested triple at the front, in the middle, at the end; four large trees and forests of about 300 nodes, branches of up to 32 in branches; all data symbolic.',
     [H('c05_build', 0, covers=['tree checked']), H('c05_build', 1, covers=['tree checked']), H('c05_build', 2, covers=['forest checked']), H('c05_build', 3, covers=['forest checked']),
      H('c05_build', 4, covers=['tree checked']), H('c05_build', 5, covers=['forest checked']), H('c05_build', 1, cfg='rel', covers=['tree checked']), H('c05_build', 5, cfg='rel', covers=['forest checked'])])
prop('C06', 'The same tuples as C05.',
     [H('c06_visits', 0, covers=['visits checked', 'sizes checked']), H('c06_visits', 1, covers=['visits checked', 'sizes checked']),
      H('c06_visits', 2, covers=['forest visits checked']), H('c06_visits', 3, covers=['forest visits checked']),
      H('c06_visits', 4, covers=['visits checked', 'sizes checked']), H('c06_visits', 5, covers=['forest visits checked']), H('c06_visits', 1, cfg='rel', covers=['visits checked', 'sizes checked']), H('c06_visits', 5, cfg='rel', covers=['forest visits checked'])])
B7 = ['bfs complete']
prop('C07', BIG + 'tree(n)/forest(n): every shape of up to n nodes, all storages, every breadth-first iterator; history(n,f,k): the same after k operations; wide(c,g): c children, one of which has g children; huge(c): c children. A fourth parameter of 1: consumed by nth, count, last or for_each too.',
     [H('c07_tree', 7, covers=B7), H('c07_forest', 7), H('c07_history', 4, 2, 1), H('c07_history', 3, 2, 2), H('c07_wide', 40, 10, covers=['wide complete']), H('c07_wide', 300, 280, covers=['wide complete']), H('c07_huge', 66000, covers=['huge checked']),
      H('c07_tree', 5, 0, 0, 1, covers=['visits folded', 'some visits skipped']), H('c07_forest', 5, 0, 0, 1, covers=['visits folded', 'some visits skipped']),
      H('c07_tree', 5, cfg='rel', covers=B7), H('c07_forest', 5, cfg='rel')] + big('c07', 'big iteration complete'),
     [H('c07_tree', 8, covers=B7), H('c07_forest', 8), H('c07_history', 5, 2, 1), H('c07_history', 3, 2, 2), H('c07_wide', 40, 10, covers=['wide complete']), H('c07_wide', 300, 280, covers=['wide complete']), H('c07_huge', 66000, covers=['huge checked']),
      H('c07_tree', 6, 0, 0, 1, covers=['visits folded', 'some visits skipped']), H('c07_forest', 6, 0, 0, 1, covers=['visits folded', 'some visits skipped']),
      H('c07_tree', 7, cfg='rel', covers=B7), H('c07_forest', 7, cfg='rel')] + big('c07', 'big iteration complete', thorough=True))
C8 = ['moved through bfs', 'subtree cloned', 'children cloned']
C8F = ['forest cloned', 'forest moved through bfs']
prop('C08', BIG + 'tree(n)/forest(n): every shape of up to n nodes, all storages, every copy or conversion of the whole and of every subtree, then one mutation of the result; history(n,f,k): copies after k operations; huge(c): c children.',
     [H('c08_tree', 6, covers=C8), H('c08_forest', 6, covers=C8F), H('c08_history', 2, 1, 2), H('c08_history', 4, 2, 1, covers=['mutated after a round trip']), H('c08_tree', 4, cfg='rel', covers=C8), H('c08_forest', 4, cfg='rel', covers=C8F)] + big('c08', 'big copied'),
     [H('c08_tree', 7, covers=C8), H('c08_forest', 7, covers=C8F), H('c08_history', 5, 2, 1), H('c08_history', 2, 2, 2), H('c08_tree', 5, cfg='rel', covers=C8),
      H('c08_forest', 5, cfg='rel', covers=C8F)] + big('c08', 'big copied', thorough=True) + [H('c08_huge', 66000, covers=['huge checked'])])
prop('C09', BIG + 'tree(n)/forest(n): every shape of up to n nodes, all storages, the whole walk; history(n,f,k): after k operations; large(d,c): a chain of d nodes above a node with c children; huge(c): c children.',
     [H('c09_tree', 7, covers=['walk complete', 'tree taken back']), H('c09_forest', 7, covers=['forest taken back']), H('c09_history', 4, 2, 1), H('c09_history', 2, 1, 2), H('c09_large', 40, 40, covers=['large walk complete']),
      H('c09_large', 300, 300, covers=['large walk complete']), H('c09_tree', 5, cfg='rel'), H('c09_forest', 5, cfg='rel'), H('c09_huge', 66000, covers=['huge checked'])] + big('c09', 'big walked'),
     [H('c09_tree', 8, covers=['walk complete', 'tree taken back']), H('c09_forest', 8, covers=['forest taken back']), H('c09_history', 3, 2, 2), H('c09_history', 5, 2, 1), H('c09_large', 300, 300, covers=['large walk complete']),
      H('c09_tree', 6, cfg='rel'), H('c09_forest', 6, cfg='rel')] + big('c09', 'big walked', thorough=True) + [H('c09_huge', 66000, covers=['huge checked']), H('c09_huge', 66000, 1, covers=['huge checked'])])
CJ = ['jumped past the last sibling', 'walked to the end']
prop('C10', 'tree(n,k,r)/forest: every shape of up to n nodes, every sequence of k moves (forward, next, revisit, to_parent, to_child(0..r), to_sib(0..r)); wide(c): jumps among c children.',
     [H('c10_tree', 4, 3, 4, covers=CJ), H('c10_tree', 3, 4, 3), H('c10_forest', 4, 3, 4, covers=CJ), H('c10_tree', 5, 3, 3), H('c10_tree', 7, 2, 4), H('c10_forest', 6, 2, 4), H('c10_wide', 40, covers=['wide jumps done']), H('c10_wide', 300, covers=['wide jumps done']), H('c10_huge', 66000, covers=['huge checked']),
      H('c10_tree', 3, 3, 3, cfg='rel'), H('c10_forest', 3, 3, 3, cfg='rel')],
     [H('c10_tree', 4, 4, 4, covers=CJ), H('c10_tree', 3, 5, 3), H('c10_forest', 4, 4, 4, covers=CJ), H('c10_tree', 6, 3, 4), H('c10_tree', 8, 2, 4), H('c10_forest', 7, 2, 4), H('c10_wide', 60, covers=['wide jumps done']), H('c10_wide', 300, covers=['wide jumps done']), H('c10_huge', 66000, covers=['huge checked']),
      H('c10_tree', 4, 3, 4, cfg='rel'), H('c10_forest', 4, 3, 4, cfg='rel')])
prop('C11', BIG + 'tree(a,b)/forest(a,b): every pair of shapes of up to a and b nodes, all data symbolic, all storages; partial: data with incomparable values; wide(c): c children, one of which differs.',
     [H('c11_tree', 5, 4, covers=['trees compared', 'equal values hashed']), H('c11_forest', 5, 4, covers=['forests compared']), H('c11_partial', 4, 4, covers=['partial orders compared']),
      H('c11_reflexive', 6, covers=['equal values compared']), H('c11_wide', 40, covers=['wide nodes compared']), H('c11_wide', 300, covers=['wide nodes compared']), H('c11_tree', 3, 3, cfg='rel')] + big('c11', 'big compared'),
     [H('c11_tree', 6, 4, covers=['trees compared', 'equal values hashed']), H('c11_forest', 6, 4, covers=['forests compared']), H('c11_partial', 5, 4, covers=['partial orders compared']),
      H('c11_reflexive', 7, covers=['equal values compared']), H('c11_wide', 300, covers=['wide nodes compared']), H('c11_tree', 4, 3, cfg='rel')] + big('c11', 'big compared', thorough=True))
C12 = ['forest printed', 'to_string printed']
C12F = ['failed half way']
C12D = ['forest printed for debugging']
C12E = ['one write failed', 'a datum could not be formatted']
prop('C12', BIG + 'tree(n): every tree and forest of up to n nodes, data printed as symbolic bytes; failing(n): writers that fail after any number of bytes; debug(n): Debug, exactly, with the address of each node (handles: of each handle, not checked); error(n): Display and Debug when any one write or the formatting of any one datum fails.',
     [H('c12_tree', 6, covers=C12), H('c12_failing', 6, covers=C12F), H('c12_debug', 6, covers=C12D), H('c12_error', 5, covers=C12E), H('c12_error', 3, cfg='rel', covers=C12E), H('c12_tree', 4, cfg='rel', covers=C12), H('c12_failing', 4, cfg='rel', covers=C12F)] + big('c12', 'big printed'),
     [H('c12_tree', 7, covers=C12), H('c12_failing', 7, covers=C12F), H('c12_debug', 7, covers=C12D), H('c12_error', 7, covers=C12E), H('c12_error', 5, cfg='rel', covers=C12E), H('c12_tree', 5, cfg='rel', covers=C12), H('c12_failing', 5, cfg='rel', covers=C12F)] + big('c12', 'big printed', thorough=True))
C13 = ['tree - tree', 'tree / tree', 'tree / forest', 'forest - tree', 'forest - forest']
prop('C13', BIG + 'binary(n): every operator with operands of up to n nodes each, all storages; unary(n); nested notation of depth 3.',
     [H('c13_binary', 4, covers=C13), H('c13_unary', 6, covers=['- tree', 'tree / ()']), H('c13_nested', 2, covers=['nested notation']), H('c13_binary', 2, cfg='rel', covers=C13)] + big('c13', 'big operands', True),
     [H('c13_binary', 5, covers=C13), H('c13_unary', 7, covers=['- tree', 'tree / ()']), H('c13_nested', 2, covers=['nested notation']), H('c13_binary', 3, cfg='rel', covers=C13)] + big('c13', 'big operands', True, thorough=True))
RC = ('history(n,k): every tree of up to n nodes in every storage, a handle on the root and one on any node, then every sequence of k operations. ')
AH = ['all handles dropped']
MC = ['moved while held', 'moves complete']
prop('C14', BIG + RC + 'Operations: clone, drop, navigate, downgrade, drop of a weak handle, every structural operation. wide(c): handles on two of c children. handles(n): n strong, weak or both kinds of handles on one node, dropped in several orders. moves(n,k): a node taken out of a tree of up to n nodes through its handle and, with one more handle on any node, put anywhere into the rest; then k operations.',
     [H('c14_history', 5, 1, covers=HC + AH), H('c14_history', 3, 2, covers=HC + AH), H('c14_wide', 20, covers=['wide done']), H('c14_wide', 300, covers=['wide done']), H('c14_handles', 300, covers=['many handles dropped']), H('c14_handles', 66000, covers=['many handles dropped']), H('c14_moves', 3, 1, covers=MC), H('c14_moves', 4, 0, covers=MC), H('c14_history', 3, 1, cfg='rel', covers=HC + AH), H('c14_history', 1, 2, cfg='rel'), H('c14_moves', 3, 0, cfg='rel', covers=MC)] + big('c14', 'big handled', True),
     [H('c14_history', 6, 1, covers=HC + AH), H('c14_history', 4, 2, covers=HC + AH), H('c14_history', 2, 3, covers=HC + AH), H('c14_moves', 4, 1, covers=MC), H('c14_moves', 5, 0, covers=MC), H('c14_wide', 40, covers=['wide done']), H('c14_wide', 300, covers=['wide done']), H('c14_handles', 300, covers=['many handles dropped']), H('c14_handles', 66000, covers=['many handles dropped']), H('c14_history', 3, 2, cfg='rel', covers=HC + AH)] + big('c14', 'big handled', True, thorough=True))
PL = ['dropped under weak handles']
prop('C15', BIG + RC + 'Operations: downgrade, upgrade, drop of weak and strong handles, structural operations. handles(n): n strong, weak or both kinds of handles on one node. moves(n,k): a node taken out of a tree of up to n nodes through its handle and, with one more handle on any node, put anywhere into the rest; then k operations. plain(n): a node of every tree of up to n nodes, weakly held, while the tree becomes a plain Tree and that is changed, consumed or dropped. huge(c): handles below a node with c children.',
     [H('c15_history', 5, 1, covers=HC), H('c15_history', 3, 2, covers=HC + ['upgrade of a dead node']), H('c15_moves', 3, 1, covers=MC), H('c15_moves', 4, 0, covers=MC), H('c15_history', 2, 1, cfg='rel', covers=HC), H('c15_moves', 3, 0, cfg='rel', covers=MC), H('c15_handles', 300, covers=['many handles dropped']), H('c15_handles', 66000, covers=['many handles dropped']), H('c15_plain', 5, covers=PL), H('c15_plain', 3, cfg='rel', covers=PL)] + big('c15', 'big handled', True),
     [H('c15_history', 6, 1, covers=HC), H('c15_history', 4, 2, covers=HC + ['upgrade of a dead node']), H('c15_history', 1, 3, covers=HC), H('c15_moves', 4, 1, covers=MC), H('c15_moves', 5, 0, covers=MC), H('c15_handles', 300, covers=['many handles dropped']), H('c15_handles', 66000, covers=['many handles dropped']), H('c15_handles', 66000, cfg='rel', covers=['many handles dropped']), H('c15_plain', 6, covers=PL), H('c15_plain', 5, cfg='rel', covers=PL), H('c15_huge', 66000, 1, covers=['huge checked']), H('c15_history', 2, 2, cfg='rel', covers=HC)] + big('c15', 'big handled', True, thorough=True))
C16 = ['done after the borrow ended', 'read during a shared borrow', 'access during a mutable borrow', 'change during a shared borrow', 'access during a mutable borrow of the node', 'access during a shared borrow of the node']
C16W = ['a whole tree read during a mutable borrow', 'a whole tree read during a shared borrow']
prop('C16', 'conflict(n): every tree of up to n nodes in every storage, a guard on any node, every operation on that node through another handle; elsewhere(n): every operation on any other node; whole(n): a tree cloned as a whole while any node of it is borrowed.',
     [H('c16_conflict', 4, covers=C16), H('c16_elsewhere', 5, covers=['another node accessed during a borrow']), H('c16_whole', 5, covers=C16W), H('c16_conflict', 2, cfg='rel', covers=C16), H('c16_whole', 3, cfg='rel', covers=C16W)],
     [H('c16_conflict', 5, covers=C16), H('c16_elsewhere', 6, covers=['another node accessed during a borrow']), H('c16_whole', 6, covers=C16W), H('c16_conflict', 3, cfg='rel', covers=C16), H('c16_whole', 4, cfg='nostd', covers=C16W)])
prop('C17', BIG + RC + 'convert(n): Tree to RcNode, an operation, back to Tree, an operation, to RcNode again. wide(c): any operation at a child of c. inside(n): a handle on any node below the root, kept while the root becomes a tree and is changed or abandoned. moves(n,k): a node taken out of a tree of up to n nodes through its handle and, with one more handle on any node, put anywhere into the rest; then k operations.',
     [H('c17_history', 5, 1, covers=HC), H('c17_history', 2, 2, covers=HC), H('c17_moves', 4, 0, covers=MC), H('c17_moves', 2, 1, covers=MC), H('c17_moves', 3, 0, cfg='rel', covers=MC), H('c17_convert', 5, covers=['converted twice']), H('c17_inside', 5, covers=['held through conversions']), H('c17_wide', 40, covers=['wide done']), H('c17_wide', 300, covers=['wide done']),
      H('c17_history', 3, 1, cfg='rel', covers=HC), H('c17_huge', 66000, 1, covers=['huge checked'])] + big('c17', 'big handled', True),
     [H('c17_history', 6, 1, covers=HC), H('c17_history', 3, 2, covers=HC), H('c17_moves', 5, 0, covers=MC), H('c17_moves', 3, 1, covers=MC), H('c17_convert', 6, covers=['converted twice']), H('c17_inside', 6, covers=['held through conversions']), H('c17_inside', 5, cfg='rel', covers=['held through conversions']), H('c17_wide', 60, covers=['wide done']), H('c17_wide', 300, covers=['wide done']),
      H('c17_history', 2, 2, cfg='rel', covers=HC), H('c17_huge', 66000, covers=['huge checked']), H('c17_huge', 66000, 1, covers=['huge checked'])] + big('c17', 'big handled', True, thorough=True))
C18 = ['iter', 'iter_mut', 'iter_rc', 'iter_rc cloned', 'iter of a forest', 'into_iter of a forest', 'iter_mut of a forest', 'into_iter of a node', 'into_iter of a tree']
prop('C18', 'contract(n): every iterator over the children of any node of every tree of up to n nodes; change(n): every combination of insertions and detachments while iter_mut runs; wide(c): one change at a child of c.',
     [H('c18_contract', 6, covers=C18), H('c18_change', 6, covers=['changed while iterating']), H('c18_wide', 40, covers=['wide done']), H('c18_wide', 300, covers=['wide done']), H('c18_huge', 66000, covers=['huge checked']), H('c18_contract', 4, cfg='rel', covers=C18),
      H('c18_change', 4, cfg='rel')],
     [H('c18_contract', 7, covers=C18), H('c18_change', 7, covers=['changed while iterating']), H('c18_wide', 60, covers=['wide done']), H('c18_wide', 300, covers=['wide done']), H('c18_huge', 66000, covers=['huge checked']), H('c18_contract', 5, cfg='rel', covers=C18)])
N = 'nostd'
O, S1 = (1, 20, 8, 0, 6, 5, 0, 0), (1, 20, 8, 0, 0, 0, 0, 0)
N2 = [H(h, *a, cfg=N) for h, *a in [
    ('c01_wide', 40, 0, 3), ('c02_wide', 40, 0, 3), ('c03_wide', 40, 1, 3), ('c04_wide', 40, 1, 3), ('c23_wide', 40, 0, 3), ('c01_deep', 40), ('c03_deep', 40),
    ('c01_big', *O), ('c04_big', *O), ('c13_big', *O), ('c14_big', *O), ('c17_big', *O), 
    ('c07_big', *S1), ('c08_big', *S1), ('c09_big', *S1), ('c11_big', *S1), ('c12_big', *S1), ('c24_big', *S1), ('c25_big', *S1),
    ('c02_probe', 2, 0, 1), ('c03_probe', 2, 0, 1), ('c04_probe', 2, 0, 1), ('c23_probe', 2, 0, 1), ('c02_arith',), ('c04_types',), ('c05_build', 0), ('c05_build', 2),
    ('c06_visits', 0), ('c06_visits', 1), ('c06_visits', 2), ('c06_visits', 3), ('c07_history', 2, 1, 1), ('c07_wide', 40, 10), ('c09_history', 2, 1, 1), ('c09_large', 40, 40),
    ('c10_wide', 40), ('c11_partial', 2, 2), ('c11_reflexive', 4), ('c11_wide', 40), ('c12_failing', 4), ('c12_debug', 3), ('c12_error', 3), ('c13_nested', 2), ('c14_wide', 20), ('c14_moves', 3, 0), ('c15_moves', 3, 0), ('c17_moves', 3, 0), ('c15_handles', 300), ('c15_plain', 3),
    ('c16_elsewhere', 3), ('c16_whole', 3), ('c17_convert', 3), ('c17_wide', 40), ('c18_change', 4), ('c18_wide', 40), ('c20_misuse_rc', 3), ('c21_parts', 3, 0), ('c21_readers', 3), ('c22_wide', 20),
    ('c23_history', 2, 1, 1), ('c24_wide', 20, 0), ('c24_wide', 20, 1), ('c24_wide', 20, 2), ('c25_readers', 3), ('c25_readers_rc', 3), ('c25_consumers', 3), ('c25_extend', 3), ('c25_destructors', 3),
    ('c26_tree', 3, 2), ('c26_forest', 3, 2), ('c26_rest', 3), ('c26_inner', 3), ('c26_long', 20, 0), ('c26_long', 20, 1), ('c27_destructors', 2), ('c27_extend', 1),
    ('c28_tuples', 0), ('c28_tuples', 2), ('c28_tuples', 3), ('c28_built', 4), ('c28_stages', 4), ('c28_parts', 4), ('c28_many', 40, 0), ('c28_many', 40, 1)]]
prop('C19', 'The harnesses of the other properties, compiled with the crate feature no_std, at reduced bounds.',
     [H('c01_history', 3, 1, 1, cfg=N, covers=HC), H('c02_history', 3, 1, 1, cfg=N), H('c03_history', 3, 1, 1, cfg=N), H('c04_history', 2, 1, 1, cfg=N), H('c04_consume', 3, cfg=N), H('c05_build', 1, cfg=N), H('c05_build', 3, cfg=N),
      H('c07_tree', 4, cfg=N), H('c07_forest', 4, cfg=N), H('c08_tree', 3, cfg=N), H('c08_forest', 3, cfg=N), H('c09_tree', 4, cfg=N), H('c09_forest', 4, cfg=N), H('c10_tree', 3, 2, 3, cfg=N), H('c10_forest', 3, 2, 3, cfg=N),
      H('c11_tree', 3, 2, cfg=N), H('c11_forest', 3, 2, cfg=N), H('c12_tree', 3, cfg=N), H('c13_binary', 2, cfg=N), H('c13_unary', 3, cfg=N), H('c14_history', 2, 1, cfg=N), H('c15_history', 2, 1, cfg=N), H('c14_handles', 300, cfg=N), H('c14_handles', 66000, cfg=N), H('c17_inside', 3, cfg=N), H('c01_probe', 2, 0, 1, cfg=N),
      H('c16_conflict', 2, cfg=N), H('c17_history', 2, 1, cfg=N), H('c18_contract', 3, cfg=N), H('c20_misuse', 2, cfg=N), H('c20_nothing', 2, cfg=N), H('c22_history', 2, 1, cfg=N), H('c23_convert', 3, cfg=N),
      H('c24_tree', 3, cfg=N), H('c24_forest', 3, cfg=N)] + N2,
     [H('c01_history', 3, 2, 2, cfg=N, covers=HC), H('c02_history', 3, 2, 2, cfg=N), H('c03_history', 3, 2, 2, cfg=N), H('c04_history', 2, 1, 2, cfg=N), H('c04_consume', 5, cfg=N), H('c05_build', 0, cfg=N), H('c05_build', 1, cfg=N),
      H('c05_build', 2, cfg=N), H('c05_build', 3, cfg=N), H('c07_tree', 6, cfg=N), H('c07_forest', 6, cfg=N), H('c08_tree', 5, cfg=N), H('c08_forest', 5, cfg=N), H('c09_tree', 6, cfg=N), H('c09_forest', 6, cfg=N),
      H('c10_tree', 4, 3, 4, cfg=N), H('c10_forest', 4, 3, 4, cfg=N), H('c11_tree', 4, 3, cfg=N), H('c11_forest', 4, 3, cfg=N), H('c12_tree', 5, cfg=N), H('c13_binary', 3, cfg=N), H('c13_unary', 5, cfg=N),
      H('c14_history', 3, 2, cfg=N), H('c15_history', 2, 2, cfg=N), H('c14_handles', 300, cfg=N), H('c14_handles', 66000, cfg=N), H('c17_inside', 4, cfg=N), H('c01_probe', 2, 1, 1, cfg=N), H('c16_conflict', 3, cfg=N), H('c17_history', 2, 2, cfg=N), H('c18_contract', 5, cfg=N), H('c20_misuse', 4, cfg=N), H('c20_nothing', 4, cfg=N),
      H('c22_history', 2, 2, cfg=N), H('c23_convert', 5, cfg=N), H('c24_tree', 5, cfg=N), H('c24_forest', 5, cfg=N)] + N2)
C20 = ['misuse refused', 'root was popped', 'root was detached', 'root came from a forest', 'root was popped from a forest']
C20R = ['misuse through a handle refused', 'into_tree refused']
prop('C20', 'misuse(n): roots of every tree of up to n nodes, however they became roots, every operation that needs a parent; misuse_rc(n): the same through handles, and into_tree of any child; nothing(n): operations on leaves, with empty forests.',
     [H('c20_misuse', 5, covers=C20), H('c20_misuse_rc', 5, covers=C20R), H('c20_nothing', 5, covers=['nothing done', 'popped a leaf']), H('c20_misuse', 3, cfg='rel', covers=C20), H('c20_misuse_rc', 3, cfg='rel', covers=C20R),
      H('c20_nothing', 3, cfg='rel')],
     [H('c20_misuse', 6, covers=C20), H('c20_misuse_rc', 6, covers=C20R), H('c20_nothing', 6, covers=['nothing done', 'popped a leaf']), H('c20_misuse', 4, cfg='rel', covers=C20), H('c20_misuse_rc', 4, cfg='rel', covers=C20R)])
C21 = ['three parts', 'a forest in a thread', 'both threads done']
C21R = ['a tree read by two threads', 'a forest read by two threads']
prop('C21', 'parts(n,e): every tree of up to n nodes in every storage, cut in two or three parts in every way, two of them given to two threads as walks, each thread putting its part to one of nine uses (e = 1: every pair of uses; else: one of the threads drops its part); '
     'readers(n): one walk over a tree or a forest read by two threads. Two threads, every interleaving of their atomic operations; no two accesses to the same byte, one of them a write, unordered by happens-before '
     '(as then the order of other accesses makes no difference). Relaxed atomic loads see the newest value.',
     [H('c21_parts', 6, 0, covers=C21), H('c21_parts', 5, 1, covers=C21), H('c21_readers', 7, covers=C21R), H('c21_whose', covers=['walks in threads']), H('c21_parts', 4, 0, cfg='rel', covers=C21), H('c21_parts', 3, 1, cfg='nostd', covers=C21)],
     [H('c21_parts', 7, 0, covers=C21), H('c21_parts', 6, 1, covers=C21), H('c21_readers', 8, covers=C21R), H('c21_whose', covers=['walks in threads']), H('c21_parts', 5, 0, cfg='rel', covers=C21), H('c21_parts', 4, 1, cfg='nostd', covers=C21), H('c21_readers', 5, cfg='rel', covers=C21R)])
W22 = ['long iteration complete']
C22 = ['iteration complete', 'a cloned iterator outlives its original']
prop('C22', RC + 'One running iterator, which may be cloned; operations: next, clone and drop of iterators and handles, structural operations. wide(c): c children, one change after any number of steps; huge(c): c children.',
     [H('c22_wide', 20, covers=W22), H('c22_wide', 300, covers=W22), H('c22_history', 4, 1, covers=C22), H('c22_history', 3, 2, covers=C22), H('c22_history', 3, 1, cfg='rel', covers=C22), H('c22_huge', 66000, covers=['huge checked'])],
     [H('c22_wide', 64, covers=W22), H('c22_wide', 300, covers=W22), H('c22_wide', 300, cfg='rel', covers=W22), H('c22_history', 5, 1, covers=C22), H('c22_history', 3, 2, covers=C22), H('c22_history', 1, 3, covers=C22), H('c22_history', 2, 2, cfg='rel', covers=C22), H('c22_huge', 66000, covers=['huge checked']), H('c22_huge', 66000, 1, covers=['huge checked'])])
q, t = mutation('c23', extra_q=[H('c23_convert', 5, covers=['walked', 'shared', 'abandoned']), H('c23_convert', 4, cfg='rel', covers=['walked', 'shared', 'abandoned'])],
                extra_t=[H('c23_convert', 6, covers=['walked', 'shared', 'abandoned']), H('c23_convert', 5, cfg='rel', covers=['walked', 'shared', 'abandoned'])])
prop('C23', HIST + 'convert(n): walks, handles and owning iterators over trees of up to n nodes.', q, t)
def w24(n, cfg='dev'):
    return [H('c24_wide', n, k, cfg=cfg, covers=['one of many written']) for k in (0, 1, 2)]


C24 = ['written through bfs_mut', 'written through bfs_children_mut', 'written through a handle', 'written through an end of a tree']
prop('C24', BIG + 'tree(n)/forest(n): every shape of up to n nodes, all storages, a symbolic value written to any node by any public way. wide(c,kind): one of c children, or the child of one, written in a tree (0), forest (1), through handles (2); huge(c): c children.',
     [H('c24_tree', 6, covers=C24), H('c24_forest', 6, covers=['forest value written']), H('c24_tree', 4, cfg='rel', covers=C24), H('c24_forest', 4, cfg='rel')] + big('c24', 'big written') + w24(20) + w24(300) + [H('c24_huge', 66000, covers=['huge checked'])],
     [H('c24_tree', 7, covers=C24), H('c24_forest', 7, covers=['forest value written']), H('c24_tree', 5, cfg='rel', covers=C24), H('c24_forest', 5, cfg='rel')] + big('c24', 'big written', thorough=True) + w24(64) + w24(300) + w24(300, 'rel') + [H('c24_huge', 66000, covers=['huge checked']), H('c24_huge', 66000, 1, covers=['huge checked'])])


def c25(n, cfg):
    return [H('c25_readers', n, cfg=cfg, covers=['a reader panicked']), H('c25_readers_rc', n, cfg=cfg, covers=['a reader of a handle panicked']), H('c25_consumers', n, cfg=cfg, covers=['a consumer panicked']),
            H('c25_extend', n, cfg=cfg, covers=['extend panicked']), H('c25_destructors', n, cfg=cfg, covers=["a tree's destructor panicked", "a forest's destructor panicked", 'a handle survived a panicking destructor'])]


prop('C25', BIG + 'Every tree and forest of up to n nodes in every storage; user code (clone, comparison, closures, iterators, destructors) that panics at every possible call.', c25(5, 'dev') + c25(4, 'rel') + big('c25', 'big panicked'), c25(6, 'dev') + c25(5, 'rel') + big('c25', 'big panicked', thorough=True))

C26 = [['a tree from a stream', 'a stream of a tree refused'], ['a forest from a stream', 'a stream of a forest refused'],
       ['the rest of a stream is a tree', 'the rest of a stream is a forest', 'the rest of a stream refused'], ['a tree with wrong sizes inside', 'a forest with wrong sizes inside']]


def c26(n, d, cfg):
    return [H('c26_tree', n, d, cfg=cfg, covers=C26[0]), H('c26_forest', n - 1, d, cfg=cfg, covers=C26[1]), H('c26_rest', n, cfg=cfg, covers=C26[2]), H('c26_inner', n - 1, cfg=cfg, covers=C26[3])]


def l26(n, cfg='dev'):
    return [H('c26_long', n, k, cfg=cfg, covers=['a long stream accepted', 'a long stream refused']) for k in (0, 1)]


prop('C26', 'long(n,kind): a stream of n nodes below the root, wide (0) or deep (1), right or with one mistake. tree(n,d)/forest(n,d): every stream of up to n visits, of up to d announced children each, ended or endless, with every announced number of nodes up to n + 1 and two huge ones; rest(n): what is left of the iterator over any tree or forest of up to n nodes; '
     'inner(n): every inner visit of a tree of up to n nodes with a right or wrong number of descendants.', c26(6, 3, 'dev') + c26(5, 2, 'rel') + c26(4, 2, 'nostd') + l26(20) + l26(300), c26(7, 3, 'dev') + c26(6, 3, 'rel') + c26(5, 3, 'nostd') + l26(64) + l26(300) + l26(300, 'rel'))
C27R = ['refused meanwhile', 'changed meanwhile', 'cloned meanwhile', 'a reader went through']
C27D = ['refused meanwhile', 'changed meanwhile', 'a dying node was found', 'a dying node was kept', 'a destructor went through']
prop('C27', 'readers(n): two handles on every tree of up to n nodes in every storage, an operation that clones, compares, hashes or formats, during whose k-th call of user code (every k) any handle is put to any use; '
     'destructors(n): the same during the k-th destruction of a datum while handles, iterators or data are dropped; extend(n): the same during any step of the iterator given to extend.',
     [H('c27_readers', 3, covers=C27R), H('c27_destructors', 4, covers=C27D), H('c27_extend', 3, covers=['extended meanwhile', 'changed meanwhile', 'pushed in front of what is being added']), H('c27_destructors', 3, cfg='rel', covers=C27D), H('c27_readers', 2, cfg='nostd', covers=C27R)],
     [H('c27_readers', 4, covers=C27R), H('c27_destructors', 5, covers=C27D), H('c27_extend', 4, covers=['extended meanwhile', 'changed meanwhile', 'pushed in front of what is being added']), H('c27_destructors', 4, cfg='rel', covers=C27D), H('c27_destructors', 4, cfg='nostd', covers=C27D),
      H('c27_readers', 3, cfg='rel', covers=C27R)])
M28 = ['many nodes in one block']
CB = ['moved to one block', 'copied in one block']
prop('C28', 'tuples: the tuples of C05; built(n): every tree and forest of up to n nodes in every storage, copied or converted as a whole or in part; stages(n), parts(n): every tree of up to n nodes, any node taken out, either part dropped first. '
     'many(n,kind): n nodes below the root, wide (0) or deep (1); huge(c): c children. One block is: nodes at a constant distance without gaps, and at most four allocations.',
     [H('c28_tuples', 0, covers=['tree placed']), H('c28_tuples', 2, covers=['forest placed']), H('c28_tuples', 1, covers=['tree placed']), H('c28_tuples', 3, covers=['forest placed']), H('c28_tuples', 4, covers=['tree placed']), H('c28_tuples', 5, covers=['forest placed']),
      H('c28_built', 7, covers=CB), H('c28_stages', 7, covers=['memory given back']), H('c28_parts', 7, covers=['buffer given back']), H('c28_built', 4, cfg='rel', covers=CB), H('c28_built', 4, cfg='nostd', covers=CB), H('c28_many', 40, 0, cfg='dev', covers=M28), H('c28_many', 40, 1, cfg='dev', covers=M28), H('c28_many', 300, 0, cfg='dev', covers=M28), H('c28_many', 300, 1, cfg='dev', covers=M28), H('c28_huge', 66000, covers=['huge checked'])],
     [H('c28_tuples', 0, covers=['tree placed']), H('c28_tuples', 2, covers=['forest placed']), H('c28_tuples', 1, covers=['tree placed']), H('c28_tuples', 3, covers=['forest placed']), H('c28_tuples', 4, covers=['tree placed']), H('c28_tuples', 5, covers=['forest placed']),
      H('c28_built', 8, covers=CB), H('c28_stages', 8, covers=['memory given back']), H('c28_parts', 8, covers=['buffer given back']), H('c28_built', 6, cfg='rel', covers=CB), H('c28_built', 6, cfg='nostd', covers=CB), H('c28_many', 600, 0, cfg='dev', covers=M28), H('c28_many', 600, 1, cfg='dev', covers=M28), H('c28_many', 600, 0, cfg='rel', covers=M28), H('c28_many', 600, 1, cfg='rel', covers=M28), H('c28_huge', 66000, covers=['huge checked'])])
