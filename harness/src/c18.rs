//! Iterators over children.
use crate::model::*;
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, Node, RcNode, Tree};

/// An iterator yields exactly the children in order, knows how many are left, and stays ended.
fn drive<I: Iterator>(mut it: I, want: &[u16], id: impl Fn(&I::Item) -> u16, how: usize, len: Option<&dyn Fn(&I) -> usize>) {
    let n = want.len();
    let mut k = 0;
    if how == 1 {
        // skip ahead
        let j = pick(n + 2);
        let x = it.nth(j);
        check(x.is_some() == (j < n), "nth() ends at the wrong place");
        if let Some(x) = &x {
            check_eq(id(x) as u64, want[j] as u64, "nth() yields the wrong node");
        }
        k = if j < n { j + 1 } else { n };
    } else if how == 2 {
        check_eq(it.count() as u64, n as u64, "count() is wrong");
        return;
    } else if how == 3 {
        match it.last() {
            Some(x) => {
                check(n > 0, "last() of nothing is something");
                check_eq(id(&x) as u64, want[n - 1] as u64, "last() yields the wrong node")
            }
            None => check(n == 0, "last() is missing"),
        }
        return;
    } else if how == 4 {
        let v: Vec<u16> = it.map(|x| id(&x)).collect();
        check_eq(v.len() as u64, n as u64, "collect() has the wrong length");
        let mut k = 0;
        while k < n {
            check_eq(v[k] as u64, want[k] as u64, "collect() has the wrong node at a position");
            k += 1;
        }
        return;
    } else if how == 5 {
        // some one by one, the rest at once
        let j = pick(n + 1);
        while k < j {
            match it.next() {
                Some(x) => check_eq(id(&x) as u64, want[k] as u64, "an iterator yields the wrong node"),
                None => check(false, "an iterator ends early"),
            }
            k += 1;
        }
        if any_bool() {
            it.for_each(|x| {
                check(k < n, "for_each() yields too much");
                if k < n {
                    check_eq(id(&x) as u64, want[k] as u64, "for_each() yields the wrong node");
                }
                k += 1;
            });
            check_eq(k as u64, n as u64, "for_each() ends early");
        } else {
            check_eq(it.count() as u64, (n - k) as u64, "count() is not what is left");
        }
        return;
    } else if how == 6 {
        // in steps
        let j = 1 + pick(3);
        let first = pick(2);
        let mut it = it.skip(first).step_by(j);
        let (lo, hi) = it.size_hint();
        check(hi == Some(lo), "the size hint of a stepped iterator is not exact");
        let mut c = 0;
        k = n;
        while let Some(x) = it.next() {
            if c == 0 {
                k = 0;
                while k < n && want[k] != id(&x) {
                    k += 1;
                }
                check(k == first && k < n, "skip() yields the wrong node");
            } else {
                k += j;
                check(k < n, "step_by() yields too much");
                if k < n {
                    check_eq(id(&x) as u64, want[k] as u64, "step_by() yields the wrong node");
                }
            }
            c += 1;
        }
        check_eq(c as u64, lo as u64, "the size hint of a stepped iterator is wrong");
        return;
    }
    loop {
        let (lo, hi) = it.size_hint();
        check_eq(lo as u64, (n - k) as u64, "the lower bound of size_hint() is not what is left");
        check(hi == Some(n - k), "the upper bound of size_hint() is not what is left");
        if let Some(len) = len {
            check_eq(len(&it) as u64, (n - k) as u64, "len() is not what is left");
        }
        match it.next() {
            Some(x) => {
                if k >= n {
                    check(false, "an iterator yields too much");
                    return;
                }
                check_eq(id(&x) as u64, want[k] as u64, "an iterator yields the wrong node");
                k += 1;
            }
            None => {
                check_eq(k as u64, n as u64, "an iterator ends early");
                break;
            }
        }
    }
    check(it.next().is_none(), "an iterator goes on after its end");
    check(it.next().is_none(), "an iterator goes on after its end");
    check(it.size_hint() == (0, Some(0)), "an ended iterator claims that something is left");
}
/// params: nodes (up to)
fn contract() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let kind = pick(8);
        let how = pick(7);
        let l = m.preorder(r);
        let x = l.k[pick(l.n)];
        let p = m.path(r, x);
        let mut want = [0u16; MAXC];
        let d = m.deg(x);
        let mut list = |m: &M, i: u8| {
            let n = m.deg(i);
            let mut k = 0;
            while k < n {
                want[k] = m.id[m.child(i, k) as usize];
                k += 1;
            }
        };
        match kind {
            0 => {
                let t = build(&mut m, r, s);
                list(&m, x);
                drive(at(t.root(), &p).iter(), &want[..d], |n| n.data().id, how, Some(&|i| i.len()));
                cover("iter");
            }
            1 => {
                let mut t = build(&mut m, r, s);
                list(&m, x);
                let mut node = at_mut(t.root_mut(), &p);
                drive(node.iter_mut(), &want[..d], |n| n.data().id, how, Some(&|i| i.len()));
                cover("iter_mut");
            }
            2 => {
                let t = build(&mut m, r, s);
                list(&m, x);
                let root = RcNode::from(t);
                let h = crate::rcworld::at_rc(&root, &p);
                let mut it = h.iter_rc();
                if any_bool() {
                    // a clone yields what is left, whatever happens to the other
                    let j = pick(d + 1);
                    let mut k = 0;
                    while k < j {
                        drop(it.next());
                        k += 1;
                    }
                    let other = it.clone();
                    if any_bool() {
                        drive(other, &want[j..d], |n| n.data().id, how, None);
                        drive(it, &want[j..d], |n| n.data().id, 0, None);
                    } else {
                        drive(it, &want[j..d], |n| n.data().id, how, None);
                        drive(other, &want[j..d], |n| n.data().id, 0, None);
                    }
                    cover("iter_rc cloned");
                } else {
                    drive(it, &want[..d], |n| n.data().id, how, None);
                }
                cover("iter_rc");
            }
            3 | 4 => {
                let f = build_forest(&mut m, r, s);
                let d = m.deg(r);
                list(&m, r);
                if kind == 3 {
                    drive(f.iter(), &want[..d], |n| n.data().id, how, Some(&|i| i.len()));
                    cover("iter of a forest");
                } else {
                    drive(f.into_iter(), &want[..d], |n| n.data().id, how, Some(&|i| i.len()));
                    cover("into_iter of a forest");
                }
            }
            5 => {
                let mut f = build_forest(&mut m, r, s);
                let d = m.deg(r);
                list(&m, r);
                drive(f.iter_mut(), &want[..d], |n| n.data().id, how, Some(&|i| i.len()));
                cover("iter_mut of a forest");
            }
            6 => {
                let mut t = build(&mut m, r, s);
                let w = [m.id[x as usize]];
                if any_bool() {
                    let n: &Node<Tok> = at(t.root(), &p);
                    drive(n.into_iter(), &w, |n| n.data().id, how, Some(&|i| i.len()));
                } else {
                    let n: Pin<&mut Node<Tok>> = at_mut(t.root_mut(), &p);
                    drive(n.into_iter(), &w, |n| n.data().id, how, Some(&|i| i.len()));
                }
                cover("into_iter of a node");
            }
            _ => {
                let t = build(&mut m, r, s);
                let w = [m.id[r as usize]];
                drive(t.into_iter(), &w, |n| n.data().id, how, Some(&|i| i.len()));
                cover("into_iter of a tree");
            }
        }
    }
    end();
}
/// Changing the children while iter_mut runs: it visits what was there at the start.
/// params: nodes (up to)
fn change() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let forest = any_bool();
        let mut t = None;
        let mut f = None;
        if forest {
            f = Some(build_forest(&mut m, r, st(pick(3))));
        } else {
            t = Some(build(&mut m, r, st(pick(3))));
        }
        let old = m;
        let n = m.deg(r);
        let mut out: Option<(Tree<Tok>, u8)> = None;
        {
            let mut it = match (&mut t, &mut f) {
                (Some(t), _) => t.iter_mut(),
                (_, Some(f)) => f.iter_mut(),
                _ => return,
            };
            let mut before: Option<Pin<&mut Node<Tok>>> = None;
            let mut bi = NONE;
            let mut k = 0;
            while k < n {
                let c = old.child(r, k);
                match it.next() {
                    Some(mut x) => {
                        check_eq(x.data().id as u64, m.id[c as usize] as u64, "iter_mut visits the wrong node");
                        let fresh = |m: &mut M| {
                            let v = any8();
                            let d = Tok::new(v);
                            let j = m.node(v);
                            m.id[j as usize] = d.id;
                            (Tree::new(d), j)
                        };
                        match pick(5) {
                            0 => {
                                let (u, j) = fresh(&mut m);
                                x.insert_prev_sib(u);
                                let i = m.index(c);
                                m.insert(r, i, j);
                            }
                            1 => {
                                let (u, j) = fresh(&mut m);
                                x.insert_next_sib(u);
                                let i = m.index(c);
                                m.insert(r, i + 1, j);
                            }
                            2 => {
                                let u = x.detach();
                                m.detach(c);
                                out = Some((u, c));
                            }
                            3 => {
                                // the node before this one, if it is still there
                                if let Some(y) = &mut before {
                                    if m.parent(bi) == r {
                                        let (u, j) = fresh(&mut m);
                                        y.insert_next_sib(u);
                                        let i = m.index(bi);
                                        m.insert(r, i + 1, j);
                                    }
                                }
                            }
                            _ => {}
                        }
                        if m.parent(c) == r {
                            before = Some(x);
                            bi = c;
                        } else {
                            before = None;
                            bi = NONE;
                        }
                    }
                    None => check(false, "iter_mut ends early"),
                }
                check_eq(it.len() as u64, (n - 1 - k) as u64, "len() is not what is left");
                k += 1;
            }
            check(it.next().is_none(), "iter_mut visits a node that was inserted while it ran");
        }
        if let Some((u, c)) = &out {
            same(u.root(), &m, *c);
        }
        drop(out);
        if let Some(t) = &t {
            same(t.root(), &m, r);
            sizes(t.root(), &m, r);
            links_tree(t, &m, r);
        }
        if let Some(f) = &f {
            same_forest(f, &m, r);
            sizes_forest(f, &m, r);
            links_forest(f, &m, r);
        }
        cover("changed while iterating");
    }
    end();
}
/// many children, one position. params: children
fn wide() {
    begin();
    {
        let n = param(0);
        let mut ids: Vec<u16> = Vec::with_capacity(n + 2);
        let mut f = Forest::new();
        let mut k = 0;
        while k < n {
            let x = Tok::new(any8());
            ids.push(x.id);
            f.push_back(Tree::new(x));
            k += 1;
        }
        if any_bool() {
            f = pile_forest(f);
        }
        let p = pos(n);
        let op = pick(4);
        {
            let mut it = f.iter_mut();
            let mut k = 0;
            while k < n {
                check_eq(it.len() as u64, (n - k) as u64, "len() is not what is left");
                match it.next() {
                    Some(mut x) => {
                        check_eq(x.data().id as u64, ids[k] as u64, "iter_mut visits the wrong node");
                        if k == p {
                            match op {
                                0 => drop(x.detach()),
                                1 => x.insert_prev_sib(Tree::new(Tok::new(any8()))),
                                2 => x.insert_next_sib(Tree::new(Tok::new(any8()))),
                                _ => x.push_back(Tree::new(Tok::new(any8()))),
                            }
                        }
                    }
                    None => check(false, "iter_mut ends early"),
                }
                k += 1;
            }
            check(it.next().is_none(), "iter_mut visits a node that was inserted while it ran");
        }
        match op {
            0 => {
                ids.remove(p);
            }
            1 => ids.insert(p, n as u16),
            2 => ids.insert(p + 1, n as u16),
            _ => {}
        }
        let mut it = f.into_iter();
        let mut k = 0;
        while k < ids.len() {
            check_eq(it.len() as u64, (ids.len() - k) as u64, "len() is not what is left");
            match it.next() {
                Some(t) => check_eq(t.data().id as u64, ids[k] as u64, "into_iter yields the wrong tree"),
                None => check(false, "into_iter ends early"),
            }
            k += 1;
        }
        check(it.next().is_none(), "into_iter yields too much");
        cover("wide done");
    }
    end();
}
fn huge() {
    crate::huge::huge(crate::huge::ITER)
}
crate::harnesses! {
    c18_huge => huge,
    c18_contract => contract,
    c18_change => change,
    c18_wide => wide,
}
