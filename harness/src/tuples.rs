//! Nested tuples: building trees and forests from them, and visiting them.
//! `tuples_gen` lists one expression per shape.
use crate::model::{begin, end, Tok};
use crate::rt::*;
use crate::tuples_gen::*;
use trees::tuple::Visit;
use trees::{Forest, Node, Size, Tree, TupleForest, TupleTree};

static mut VAL: [u8; 1024] = [0; 1024];
/// the next datum
pub fn t() -> Tok {
    let v = any8();
    let k = Tok::new(v);
    unsafe { VAL[k.id as usize] = v }
    k
}
pub trait Kind {
    fn tree<Tp: TupleTree<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]);
    fn forest<Tp: TupleForest<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]);
}
/// number of nodes below position `i` (itself not counted)
fn below(d: &[u8], i: usize) -> usize {
    let mut j = i + 1;
    while j < d.len() && d[j] > d[i] {
        j += 1;
    }
    j - i - 1
}
fn degree(d: &[u8], i: usize) -> usize {
    let (n, mut c, mut j) = (below(d, i), 0, i + 1);
    while j <= i + n {
        if d[j] == d[i] + 1 {
            c += 1;
        }
        j += 1;
    }
    c
}
fn datum(x: &Tok, i: usize) {
    check_eq(x.id as u64, i as u64, "a datum is at the wrong place");
    check_eq(x.v as u64, unsafe { VAL[i] } as u64, "a datum changed its value");
    observe(x.v as u64);
}

// ------------------------------------------------------------ building
pub struct Build;
/// check the subtree whose root is position `i`; returns the position after it
fn node(n: &Node<Tok>, d: &[u8], i: usize) -> usize {
    datum(n.data(), i);
    let end = i + 1 + below(d, i);
    check_eq(n.degree() as u64, degree(d, i) as u64, "degree is wrong");
    check_eq(n.node_count() as u64, (end - i) as u64, "node count is wrong");
    let mut it = n.iter();
    let mut j = i + 1;
    let mut first = true;
    while j < end {
        match it.next() {
            Some(c) => {
                check(c.parent().map_or(false, |p| std::ptr::eq(p, n)), "parent() is wrong");
                if first {
                    check(n.front().map_or(false, |f| std::ptr::eq(f, c)), "front() is wrong");
                    first = false;
                }
                j = node(c, d, j);
                if j == end {
                    check(n.back().map_or(false, |f| std::ptr::eq(f, c)), "back() is wrong");
                }
            }
            None => {
                check(false, "a child is missing");
                return end;
            }
        }
    }
    check(it.next().is_none(), "an extra child is present");
    if first {
        check(n.front().is_none() && n.back().is_none() && n.has_no_child(), "a leaf has a child");
    }
    end
}
impl Kind for Build {
    fn tree<Tp: TupleTree<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let mut t = Tree::<Tok>::from_tuple(f());
        check(t.root().parent().is_none(), "parent() of a root is not None");
        check_eq(node(t.root(), d, 0) as u64, d.len() as u64, "nodes are missing");
        cover("tree checked");
        match pick(3) {
            0 => drop(t),
            1 => {
                // children can be taken out from the back
                let mut hi = d.len();
                while let Some(c) = t.pop_back() {
                    let mut i = hi - 1;
                    while d[i] != 1 {
                        i -= 1;
                    }
                    node(c.root(), d, i);
                    hi = i;
                }
                check_eq(hi as u64, 1, "children are missing");
            }
            _ => {
                t.push_front(Tree::new(t_()));
                t.push_back(Tree::new(t_()));
                check_eq(t.node_count() as u64, d.len() as u64 + 2, "node count is wrong after a push");
            }
        }
    }
    fn forest<Tp: TupleForest<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let mut f = Forest::<Tok>::from_tuple(f());
        check_eq(f.node_count() as u64, d.len() as u64, "forest node count is wrong");
        check(f.has_no_child() == (d.len() == 0), "has_no_child of a forest is wrong");
        let mut k = 0;
        let mut j = 0;
        {
            let mut it = f.iter();
            while j < d.len() {
                match it.next() {
                    Some(c) => {
                        check(c.parent().is_none(), "parent() of a forest's tree is not None");
                        if k == 0 {
                            check(f.front().map_or(false, |x| std::ptr::eq(x, c)), "front() is wrong");
                        }
                        j = node(c, d, j);
                        if j == d.len() {
                            check(f.back().map_or(false, |x| std::ptr::eq(x, c)), "back() is wrong");
                        }
                        k += 1;
                    }
                    None => {
                        check(false, "a tree of the forest is missing");
                        return;
                    }
                }
            }
            check(it.next().is_none(), "an extra tree is present");
        }
        check_eq(f.degree() as u64, k, "forest degree is wrong");
        cover("forest checked");
        match pick(3) {
            0 => drop(f),
            1 => {
                let mut hi = d.len();
                while let Some(c) = f.pop_back() {
                    let mut i = hi - 1;
                    while d[i] != 0 {
                        i -= 1;
                    }
                    node(c.root(), d, i);
                    hi = i;
                }
                check_eq(hi as u64, 0, "trees are missing");
            }
            _ => {
                f.push_front(Tree::new(t_()));
                f.push_back(Tree::new(t_()));
                check_eq(f.node_count() as u64, d.len() as u64 + 2, "forest node count is wrong after a push");
            }
        }
    }
}
fn t_() -> Tok {
    Tok::new(any8())
}

// ------------------------------------------------------------ visiting
pub struct Visits;
const BRANCH: u8 = 0;
const LEAF: u8 = 1;
const FRAME: u8 = 2;
struct Log {
    n: usize,
    kind: [u8; 800],
    id: [u16; 800],
    deg: [usize; 800],
    des: [usize; 800],
}
impl Log {
    fn new() -> Log {
        Log { n: 0, kind: [0; 800], id: [0; 800], deg: [0; 800], des: [0; 800] }
    }
    fn put(&mut self, v: Visit<Tok>, s: Option<Size>) {
        let k = self.n;
        check(k < 800, "too many visits");
        self.n += 1;
        match v {
            Visit::Branch(x) => {
                self.kind[k] = BRANCH;
                self.id[k] = x.id;
                datum(&x, x.id as usize);
            }
            Visit::Leaf(x) => {
                self.kind[k] = LEAF;
                self.id[k] = x.id;
                datum(&x, x.id as usize);
            }
            Visit::Frame => self.kind[k] = FRAME,
        }
        if let Some(s) = s {
            self.deg[k] = s.degree;
            self.des[k] = s.descendants;
        }
    }
    fn expect(&self, p: &mut usize, kind: u8, d: &[u8], i: usize, sizes: bool) {
        let k = *p;
        check(k < self.n, "a visit is missing");
        if k >= self.n {
            return;
        }
        check_eq(self.kind[k] as u64, kind as u64, "a visit of the wrong kind");
        if kind != FRAME {
            check_eq(self.id[k] as u64, i as u64, "a visit of the wrong node");
        }
        if sizes {
            check_eq(self.deg[k] as u64, degree(d, i) as u64, "the degree handed to a visitor is wrong");
            check_eq(self.des[k] as u64, below(d, i) as u64, "the number of descendants handed to a visitor is wrong");
        }
        *p = k + 1;
    }
}
fn pre(l: &Log, p: &mut usize, d: &[u8], i: usize, post: bool, sizes: bool) {
    let n = below(d, i);
    if n == 0 {
        l.expect(p, LEAF, d, i, sizes);
        return;
    }
    l.expect(p, if post { FRAME } else { BRANCH }, d, i, sizes);
    let mut j = i + 1;
    while j <= i + n {
        pre(l, p, d, j, post, sizes);
        j += 1 + below(d, j);
    }
    l.expect(p, if post { BRANCH } else { FRAME }, d, i, sizes);
}
/// nodes at depth k, and the height, below depth `base`
fn at_level(d: &[u8], k: usize) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < d.len() {
        if d[i] as usize == k {
            n += 1;
        }
        i += 1;
    }
    n
}
fn height(d: &[u8]) -> usize {
    let mut h = 0;
    let mut i = 0;
    while i < d.len() {
        if d[i] as usize + 1 > h {
            h = d[i] as usize + 1;
        }
        i += 1;
    }
    h
}
impl Kind for Visits {
    fn tree<Tp: TupleTree<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let mut l = Log::new();
        let mut p = 0;
        let mode = pick(5);
        match mode {
            0 => f().preorder(&mut |v| l.put(v, None)),
            1 => f().preorder_with_size_hint(&mut |v, s| l.put(v, Some(s))),
            2 => f().postorder(&mut |v| l.put(v, None)),
            3 => f().postorder_with_size_hint(&mut |v, s| l.put(v, Some(s))),
            _ => {
                check_eq(Tp::SIZE.degree as u64, degree(d, 0) as u64, "SIZE.degree of a tuple is wrong");
                check_eq(Tp::SIZE.descendants as u64, d.len() as u64 - 1, "SIZE.descendants of a tuple is wrong");
                check_eq(Tp::height() as u64, height(d) as u64, "height of a tuple is wrong");
                let h = height(d);
                let mut k = 0;
                while k < h + 2 {
                    check_eq(Tp::descendants(k) as u64, at_level(d, k + 1) as u64, "the number of a tuple's descendants at a level is wrong");
                    k += 1;
                }
                cover("sizes checked");
                return;
            }
        }
        pre(&l, &mut p, d, 0, mode >= 2, mode & 1 == 1);
        check_eq(l.n as u64, p as u64, "too many visits");
        cover("visits checked");
    }
    fn forest<Tp: TupleForest<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let mut l = Log::new();
        let mut p = 0;
        let mode = pick(5);
        match mode {
            0 => f().preorder(&mut |v| l.put(v, None)),
            1 => f().preorder_with_size_hint(&mut |v, s| l.put(v, Some(s))),
            2 => f().postorder(&mut |v| l.put(v, None)),
            3 => f().postorder_with_size_hint(&mut |v, s| l.put(v, Some(s))),
            _ => {
                check_eq(Tp::SIZE.degree as u64, at_level(d, 0) as u64, "SIZE.degree of a tuple is wrong");
                check_eq(Tp::SIZE.descendants as u64, d.len() as u64, "SIZE.descendants of a tuple is wrong");
                check_eq(Tp::height() as u64, height(d) as u64, "height of a tuple is wrong");
                let h = height(d);
                let mut k = 0;
                while k < h + 2 {
                    check_eq(Tp::descendants(k) as u64, at_level(d, k) as u64, "the number of a tuple's descendants at a level is wrong");
                    k += 1;
                }
                return;
            }
        }
        let mut i = 0;
        while i < d.len() {
            pre(&l, &mut p, d, i, mode >= 2, mode & 1 == 1);
            i += 1 + below(d, i);
        }
        check_eq(l.n as u64, p as u64, "too many visits");
        cover("forest visits checked");
    }
}

pub fn cases<K: Kind>(k: &K, which: usize) {
    begin();
    match which {
        0 => tree_cases(pick(TREE_CASES), k),
        1 => tree_arity(pick(TREE_ARITY), k),
        2 => forest_cases(pick(FOREST_CASES), k),
        3 => forest_arity(pick(FOREST_ARITY), k),
        4 => tree_big(pick(TREE_BIG), k),
        _ => forest_big(pick(FOREST_BIG), k),
    }
    end();
}
