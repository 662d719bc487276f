//! Breadth-first iteration.
use crate::model::*;
use crate::rt::*;
use std::borrow::Borrow;
use trees::bfs::{Bfs, Visit};
use trees::{Forest, Node, Size, Tree};

fn tok_eq(x: &Tok, m: &M, i: u8) {
    check_eq(x.id as u64, m.id[i as usize] as u64, "breadth-first iteration yields the wrong node");
    check_eq(x.v as u64, m.v[i as usize] as u64, "a datum changed its value");
    observe(x.v as u64);
}
fn visit<T: Borrow<Tok>>(v: Visit<T>, x: u8, m: &M) {
    tok_eq(v.data.borrow(), m, x);
    check_eq(v.size.degree as u64, m.deg(x) as u64, "a visit's degree is wrong");
    check_eq(v.size.descendants as u64, m.count(x) as u64 - 1, "a visit's number of descendants is wrong");
}
fn run<T: Borrow<Tok>, I: Iterator<Item = Visit<T>>>(mut it: I, l: &List, m: &M) {
    let mut k = 0;
    // the other ways to consume an iterator
    match if param(3) > 0 { pick(5) } else { 0 } {
        1 => {
            let j = pick(l.n + 2);
            match it.nth(j) {
                Some(v) => {
                    check(j < l.n, "nth() ends at the wrong place");
                    visit(v, l.k[j], m);
                    k = j + 1
                }
                None => {
                    check(j >= l.n, "nth() ends at the wrong place");
                    k = l.n
                }
            }
            cover("some visits skipped");
        }
        2 => {
            check_eq(it.count() as u64, l.n as u64, "count() is wrong");
            return;
        }
        3 => {
            match it.last() {
                Some(v) => {
                    check(l.n > 0, "last() of nothing is something");
                    visit(v, l.k[l.n - 1], m)
                }
                None => check(l.n == 0, "last() is missing"),
            }
            return;
        }
        4 => {
            if any_bool() && l.n > 0 {
                visit(it.next().unwrap(), l.k[0], m);
                k = 1;
            }
            it.for_each(|v| {
                check(k < l.n, "for_each() yields too much");
                if k < l.n {
                    visit(v, l.k[k], m);
                }
                k += 1;
            });
            check_eq(k as u64, l.n as u64, "for_each() ends early");
            cover("visits folded");
            return;
        }
        _ => (),
    }
    loop {
        let (lo, hi) = it.size_hint();
        check(lo <= l.n - k && hi.map_or(true, |h| h >= l.n - k), "breadth-first iteration announces a wrong length");
        if k >= l.n {
            break;
        }
        match it.next() {
            Some(v) => visit(v, l.k[k], m),
            None => {
                check(false, "breadth-first iteration ends early");
                return;
            }
        }
        k += 1;
    }
    check(it.next().is_none(), "breadth-first iteration yields too many nodes");
    check(it.next().is_none(), "breadth-first iteration resumes after its end");
    cover("bfs complete");
}
fn size(s: Size, degree: usize, descendants: usize) {
    check_eq(s.degree as u64, degree as u64, "the degree of a breadth-first iteration is wrong");
    check_eq(s.descendants as u64, descendants as u64, "the number of descendants of a breadth-first iteration is wrong");
}
/// through one of the accessors of the wrapped iterator
fn wrapped<T: Borrow<Tok>, I: Iterator<Item = Visit<T>>>(b: Bfs<I>, tree: bool, s: (usize, usize), l: &List, m: &M) {
    match pick(4) {
        0 => run(b.iter(), l, m),
        1 => {
            let (i, z) = b.iter_and_size();
            size(z, s.0, s.1);
            run(i, l, m)
        }
        2 => match b.tree_iter() {
            Some(i) => {
                check(tree, "tree_iter of a forest's iteration is not None");
                run(i, l, m)
            }
            None => check(!tree, "tree_iter of a tree's iteration is None"),
        },
        _ => match b.forest_iter() {
            Some(i) => {
                check(!tree, "forest_iter of a tree's iteration is not None");
                run(i, l, m)
            }
            None => check(tree, "forest_iter of a forest's iteration is None"),
        },
    }
}
struct Mut<'a>(&'a mut Tok);
impl<'a> Borrow<Tok> for Mut<'a> {
    fn borrow(&self) -> &Tok {
        self.0
    }
}

/// params: nodes (up to)
fn tree() {
    begin();
    {
        let s = st(pick(3));
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut t = build(&mut m, r, s);
        let x = {
            let l = m.preorder(r);
            l.k[pick(l.n)]
        };
        let p = m.path(r, x);
        let (deg, below) = (m.deg(x), m.count(x) - 1);
        match pick(6) {
            0 => {
                let b = at(t.root(), &p).bfs();
                size(b.size, 1, below);
                wrapped(b.wrap(), true, (1, below), &m.bfs(x, false), &m)
            }
            1 => {
                let b = at(t.root(), &p).bfs_children();
                size(b.size, deg, below);
                wrapped(b.wrap(), false, (deg, below), &m.bfs(x, true), &m)
            }
            2 => {
                let mut n = at_mut(t.root_mut(), &p);
                let b = n.bfs_mut().map(Mut);
                size(b.size, 1, below);
                wrapped(b.wrap(), true, (1, below), &m.bfs(x, false), &m)
            }
            3 => {
                let mut n = at_mut(t.root_mut(), &p);
                let b = n.bfs_children_mut().map(Mut);
                size(b.size, deg, below);
                wrapped(b.wrap(), false, (deg, below), &m.bfs(x, true), &m)
            }
            4 => {
                let (deg, below) = (m.deg(r), m.count(r) - 1);
                if any_bool() {
                    let b = t.bfs_mut().map(Mut);
                    size(b.size, 1, below);
                    wrapped(b.wrap(), true, (1, below), &m.bfs(r, false), &m)
                } else {
                    let b = t.bfs_children_mut().map(Mut);
                    size(b.size, deg, below);
                    wrapped(b.wrap(), false, (deg, below), &m.bfs(r, true), &m)
                }
            }
            _ => {
                let below = m.count(r) - 1;
                let b = t.into_bfs();
                size(b.size, 1, below);
                wrapped(b.wrap(), true, (1, below), &m.bfs(r, false), &m)
            }
        }
    }
    end();
}
/// params: nodes (up to)
fn forest() {
    begin();
    {
        let s = st(pick(3));
        let mut m = M::new();
        let r = any_forest_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut f = build_forest(&mut m, r, s);
        let l = m.bfs(r, true);
        let (deg, n) = (m.deg(r), m.count(r) - 1);
        match pick(3) {
            0 => {
                let b = f.bfs();
                size(b.size, deg, n);
                wrapped(b.wrap(), false, (deg, n), &l, &m)
            }
            1 => {
                let b = f.bfs_mut().map(Mut);
                size(b.size, deg, n);
                wrapped(b.wrap(), false, (deg, n), &l, &m)
            }
            _ => {
                let b = f.into_bfs();
                size(b.size, deg, n);
                wrapped(b.wrap(), false, (deg, n), &l, &m)
            }
        }
    }
    end();
}
/// after a mutation history. params: nodes, forest nodes, operations
fn history() {
    begin();
    {
        let mut w = crate::world::World::new(param(0), param(1), st(pick(3)), 0);
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        let (m, t, f) = (&w.m, w.t.take().unwrap(), w.f.take().unwrap());
        run(t.bfs().iter, &m.bfs(w.rt, false), m);
        run(f.bfs().iter, &m.bfs(w.rf, true), m);
        if any_bool() {
            run(t.into_bfs().iter, &m.bfs(w.rt, false), m);
            run(f.into_bfs().iter, &m.bfs(w.rf, true), m);
        }
    }
    end();
}
/// params: children, grandchildren of one child. A symbolic child gets children.
fn wide() {
    begin();
    {
        let (n, g) = (param(0), param(1));
        let p = pos(n);
        let mut t = Tree::new(Tok::new(any8()));
        let mut k = 0;
        while k < n {
            let mut c = Tree::new(Tok::new(any8()));
            if k == p {
                let mut j = 0;
                while j < g {
                    c.push_back(Tree::new(Tok::new(any8())));
                    j += 1;
                }
            }
            t.push_back(c);
            k += 1;
        }
        if any_bool() {
            t = pile(t);
        }
        // ids: root 0, children and grandchildren in creation order
        let mut it = t.into_bfs().wrap().iter();
        let mut k = 0;
        while k < 1 + n + g {
            let (id, deg, des) = if k == 0 {
                (0, n, n + g)
            } else if k <= n {
                let c = k - 1;
                (1 + c + if c > p { g } else { 0 }, if c == p { g } else { 0 }, if c == p { g } else { 0 })
            } else {
                (1 + p + (k - n), 0, 0)
            };
            match it.next() {
                Some(v) => {
                    check_eq(v.data.id as u64, id as u64, "breadth-first iteration yields the wrong node");
                    check_eq(v.size.degree as u64, deg as u64, "a visit's degree is wrong");
                    check_eq(v.size.descendants as u64, des as u64, "a visit's number of descendants is wrong");
                }
                None => check(false, "breadth-first iteration ends early"),
            }
            k += 1;
        }
        check(it.next().is_none(), "breadth-first iteration yields too many nodes");
        cover("wide complete");
    }
    end();
}
fn huge() {
    crate::huge::huge(crate::huge::BFS)
}
fn big() {
    crate::big::bfs()
}
crate::harnesses! {
    c07_big => big,
    c07_huge => huge,
    c07_tree => tree,
    c07_forest => forest,
    c07_history => history,
    c07_wide => wide,
}
