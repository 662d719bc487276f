//! Where nodes are stored.
use crate::model::*;
use crate::rt::*;
use crate::tuples::{cases, Kind};
use trees::{Forest, Node, RcNode, Tree};

struct Addrs {
    a: Vec<usize>,
}
impl Addrs {
    fn add(&mut self, n: &Node<Tok>) {
        self.a.push(n as *const Node<Tok> as usize);
        for c in n.iter() {
            self.add(c);
        }
    }
    /// the nodes lie side by side
    fn contiguous(&self, n: usize) {
        let a = &self.a;
        check_eq(a.len() as u64, n as u64, "a node is missing");
        if n < 2 {
            return;
        }
        let (mut lo, mut hi) = (a[0], a[0]);
        let mut k = 1;
        while k < n {
            if a[k] < lo {
                lo = a[k];
            }
            if a[k] > hi {
                hi = a[k];
            }
            k += 1;
        }
        let s = (hi - lo) / (n - 1);
        check(s >= core::mem::size_of::<Node<Tok>>(), "nodes overlap");
        // with room for the counters of the node
        check(s <= core::mem::size_of::<Node<Tok>>() + 64, "nodes that were built in one go do not lie side by side");
        if s == 0 {
            return;
        }
        let mut seen = vec![false; n];
        k = 0;
        while k < n {
            let d = a[k] - lo;
            let ok = d % s == 0 && d / s < n && !seen[d / s];
            check(ok, "nodes that were built in one go do not lie side by side");
            if !ok {
                return;
            }
            seen[d / s] = true;
            k += 1;
        }
    }
}
/// blocks of memory that a tree built in one go may need, whatever its size
const BLOCKS: u64 = 4;
fn one_tree(t: &Tree<Tok>, n: usize) {
    let mut a = Addrs { a: vec![] };
    a.add(t.root());
    a.contiguous(n);
}
fn one_forest(t: &Forest<Tok>, n: usize) {
    let mut a = Addrs { a: vec![] };
    for c in t.iter() {
        a.add(c);
    }
    a.contiguous(n);
}
struct Place;
impl Kind for Place {
    fn tree<Tp: trees::TupleTree<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let before = live();
        let t = Tree::<Tok>::from_tuple(f());
        check(live() - before <= BLOCKS, "a tree built in one go is stored in many blocks");
        one_tree(&t, d.len());
        cover("tree placed");
    }
    fn forest<Tp: trees::TupleForest<Tok, S>, S>(&self, f: impl FnOnce() -> Tp, d: &[u8]) {
        let before = live();
        let t = Forest::<Tok>::from_tuple(f());
        check(live() - before <= BLOCKS, "a forest built in one go is stored in many blocks");
        one_forest(&t, d.len());
        cover("forest placed");
    }
}
/// params: as c05_build
fn tuples() {
    cases(&Place, param(0))
}
/// copies and conversions through breadth-first iteration. params: nodes (up to)
fn built() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let base = live();
        let mut tree = None;
        let mut forest = None;
        let n = m.count(r);
        match pick(5) {
            0 => {
                // a copy of a whole tree or of part of it
                let t = build(&mut m, r, s);
                let l = m.preorder(r);
                let x = l.k[pick(l.n)];
                let p = m.path(r, x);
                let k = m.count(x);
                let before = live();
                match pick(4) {
                    0 => tree = Some((at(t.root(), &p).deep_clone(), k)),
                    1 => forest = Some((at(t.root(), &p).deep_clone_forest(), k - 1)),
                    2 => tree = Some((Tree::from(at(t.root(), &p).bfs().map(|d: &Tok| d.clone())), k)),
                    _ => tree = Some((t.clone(), n)),
                }
                check(live() - before <= BLOCKS, "a copy is stored in many blocks");
                drop(t);
                cover("copied in one block");
            }
            1 => {
                let t = build(&mut m, r, s);
                tree = Some((Tree::from(t.into_bfs()), n));
                cover("moved to one block");
            }
            2 => {
                let t = build_forest(&mut m, r, s);
                forest = Some((Forest::from(t.into_bfs()), n - 1));
            }
            3 => {
                let t = build_forest(&mut m, r, s);
                forest = Some((if any_bool() { t.clone() } else { Forest::from(t.bfs().map(|d: &Tok| d.clone())) }, n - 1));
                drop(t);
            }
            _ => {
                let t = RcNode::from(build(&mut m, r, s));
                tree = Some((t.deep_clone(), n));
                drop(t);
            }
        }
        check(live() - base <= BLOCKS, "what was built in one go is stored in many blocks");
        if let Some((t, n)) = &tree {
            one_tree(t, *n);
        }
        if let Some((t, n)) = &forest {
            one_forest(t, *n);
        }
    }
    end();
}
/// nodes built one by one: each has memory of its own, given back at once.
/// params: nodes (up to)
fn stages() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let base = live();
        let mut t = build(&mut m, r, St::Scattered);
        let n = m.count(r) as u64;
        let all = live() - base;
        check(all >= n && all % n == 0, "nodes built one by one do not have memory of their own");
        let each = all / n;
        let l = m.preorder(r);
        if l.n > 1 {
            let x = l.k[1 + pick(l.n - 1)];
            let p = m.path(r, x);
            let u = at_mut(t.root_mut(), &p).detach();
            check_eq(live() - base, all, "taking a node out needs memory, or gives some back");
            let k = m.count(x) as u64;
            m.detach(x);
            if any_bool() {
                drop(u);
                check_eq(live() - base, all - k * each, "the memory of a dropped node is not given back");
                drop(t);
            } else {
                drop(t);
                check_eq(live() - base, k * each, "the memory of a dropped node is not given back");
                drop(u);
            }
            cover("memory given back");
        } else {
            drop(t);
        }
        check_eq(live(), base, "the memory of a dropped node is not given back");
    }
    end();
}
/// a tree built in one go is taken apart: its memory goes back with the last part.
/// params: nodes (up to)
fn parts() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let base = live();
        let mut t = build(&mut m, r, St::Piled);
        let l = m.preorder(r);
        if l.n > 1 {
            let x = l.k[1 + pick(l.n - 1)];
            let p = m.path(r, x);
            let u = at_mut(t.root_mut(), &p).detach();
            // a part goes into another tree that is built by stages
            let mut host = Tree::new(Tok::new(any8()));
            let first = any_bool();
            let (keep, gone) = if first { (u, t) } else { (t, u) };
            drop(gone);
            host.push_back(keep);
            let d = host.pop_front();
            let h = live() - base;
            drop(d);
            // the whole buffer goes back, and nothing is left but the host
            check(live() - base < h, "the memory of a tree is not given back with its last part");
            drop(host);
            cover("buffer given back");
        }
    }
    end();
}
/// many nodes. params: nodes below the root, kind (0 wide, 1 deep)
fn many() {
    begin();
    {
        let n = param(0);
        let mut t = Tree::new(Tok::new(0));
        let mut k = 0;
        while k < n {
            if param(1) == 1 {
                let mut u = Tree::new(Tok::new(k as u8));
                u.push_back(t);
                t = u;
            } else {
                t.push_back(Tree::new(Tok::new(k as u8)));
            }
            k += 1;
        }
        let before = live();
        let how = pick(6);
        let (mut u, mut f) = (None, None);
        match how {
            0 => u = Some(t.clone()),
            1 => u = Some(Tree::from(t.bfs().map(|d: &Tok| d.clone()))),
            2 => f = Some(t.root().deep_clone_forest()),
            3 => {
                let g = t.abandon();
                f = Some(g.clone());
                drop(g);
            }
            4 => {
                let h = RcNode::from(t);
                u = Some(h.deep_clone());
                t = unsafe { h.into_tree() };
            }
            _ => {
                let g = Forest::from(t.bfs_children().map(|d: &Tok| d.clone()));
                f = Some(g);
            }
        }
        check(live() <= before + BLOCKS, "many nodes built in one go are stored in many blocks");
        drop(t);
        if let Some(u) = &u {
            one_tree(u, n + 1);
        }
        if let Some(f) = &f {
            one_forest(f, n);
        }
        cover("many nodes in one block");
        drop(u);
        drop(f);
    }
    end();
}
fn huge() {
    crate::huge::huge(crate::huge::PLACE)
}
crate::harnesses! {
    c28_huge => huge,
    c28_many => many,
    c28_tuples => tuples,
    c28_built => built,
    c28_stages => stages,
    c28_parts => parts,
}
