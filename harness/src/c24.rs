//! Writing one datum changes that datum and nothing else.
use crate::model::*;
use crate::rcworld::{at_rc, same_rc};
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, Node, RcNode, Tree, TreeWalk};

/// the node at the end of a path, by first/last steps where possible
fn ends<'a>(mut n: Pin<&'a mut Node<Tok>>, m: &M, mut i: u8, p: &Path) -> Pin<&'a mut Node<Tok>> {
    let mut j = 0;
    while j < p.n {
        let d = m.deg(i);
        let k = p.k[j] as usize;
        let x = unsafe { Pin::get_unchecked_mut(n) };
        n = match if k == 0 {
            x.front_mut()
        } else if k + 1 == d {
            x.back_mut()
        } else {
            x.iter_mut().nth(k)
        } {
            Some(c) => c,
            None => {
                check(false, "a node that should be there was not reachable");
                panic!()
            }
        };
        i = m.child(i, k);
        j += 1;
    }
    n
}
/// params: nodes (up to)
fn tree() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut t = build(&mut m, r, st(pick(3)));
        let before = m;
        let copy = t.clone();
        let l = m.preorder(r);
        let x = l.k[pick(l.n)];
        let p = m.path(r, x);
        let v = any8();
        match pick(7) {
            0 => {
                at_mut(t.root_mut(), &p).data_mut().v = v;
                m.v[x as usize] = v;
            }
            1 => {
                ends(t.root_mut(), &m, r, &p).data_mut().v = v;
                m.v[x as usize] = v;
            }
            2 => {
                // of any node that x is in
                m.v[x as usize] = v;
                let mut y = x;
                let mut up = pick(p.n + 1);
                while up > 0 {
                    y = m.parent(y);
                    up -= 1;
                }
                let b = m.bfs(y, false);
                let q = m.path(r, y);
                let mut k = 0;
                let mut n = at_mut(t.root_mut(), &q);
                for visit in n.bfs_mut().iter {
                    if k < b.n && b.k[k] == x {
                        visit.data.v = v;
                    } else {
                        visit.data.v ^= 0;
                    }
                    k += 1;
                }
                check_eq(k as u64, b.n as u64, "bfs_mut goes beyond its node");
                cover("written through bfs_mut");
            }
            3 => {
                // all below a node at once
                let b = m.bfs(x, true);
                let mut k = 0;
                let mut n = at_mut(t.root_mut(), &p);
                for visit in n.as_mut().bfs_children_mut().iter {
                    let w = v ^ k as u8;
                    visit.data.v = w;
                    check(k < b.n, "bfs_children_mut goes beyond its node");
                    if k < b.n {
                        m.v[b.k[k] as usize] = w;
                    }
                    k += 1;
                }
                check_eq(k as u64, b.n as u64, "bfs_children_mut misses a node");
                n.data_mut().v = v;
                m.v[x as usize] = v;
                cover("written through bfs_children_mut");
            }
            4 => {
                let mut n = at_mut(t.root_mut(), &p);
                for mut c in n.iter_mut() {
                    c.data_mut().v ^= 1;
                }
                let mut k = 0;
                while k < m.deg(x) {
                    m.v[m.child(x, k) as usize] ^= 1;
                    k += 1;
                }
                n.data_mut().v = v;
                m.v[x as usize] = v;
            }
            5 => {
                // through the first or last child of the tree itself
                if p.n > 0 {
                    let k = p.k[0] as usize;
                    let d = m.deg(r);
                    let c = m.child(r, k);
                    let q = m.path(c, x);
                    let n = if k == 0 {
                        t.front_mut()
                    } else if k + 1 == d {
                        t.back_mut()
                    } else {
                        t.iter_mut().nth(k)
                    };
                    match n {
                        Some(n) => ends(n, &m, c, &q).data_mut().v = v,
                        None => check(false, "a child that should be there was not reachable"),
                    }
                    cover("written through an end of a tree");
                } else {
                    t.root_mut().data_mut().v = v;
                    if m.deg(r) == 0 {
                        check(t.front_mut().is_none() && t.back_mut().is_none(), "a leaf has a first or last child");
                    }
                }
                m.v[x as usize] = v;
            }
            _ => {
                let h = RcNode::from(t);
                let g = at_rc(&h, &p);
                let other = g.clone();
                if any_bool() {
                    g.data_mut().v = v;
                } else {
                    let mut n = unsafe { g.node_mut() };
                    check_eq(n.degree() as u64, m.deg(x) as u64, "degree is wrong");
                    n.data_mut().v = v;
                }
                check_eq(unsafe { other.node() }.data().v as u64, v as u64, "two handles of a node see different data");
                check_eq(other.data().v as u64, v as u64, "two handles of a node see different data");
                m.v[x as usize] = v;
                same_rc(&h, &m, r);
                drop(g);
                drop(other);
                t = unsafe { h.into_tree() };
                cover("written through a handle");
            }
        }
        same(t.root(), &m, r);
        sizes(t.root(), &m, r);
        // read by the other ways
        let b = m.bfs(r, false);
        let mut k = 0;
        for visit in t.bfs().iter {
            check_eq(visit.data.v as u64, m.v[b.k[k] as usize] as u64, "bfs does not see a written value");
            k += 1;
        }
        // a copy made before does not see it, a copy made after does
        let mut l2 = before.preorder(r);
        values(copy.root(), &before, &mut l2, 0);
        let after = t.clone();
        values(after.root(), &m, &mut l2, 0);
        drop(copy);
        let w = TreeWalk::from(t);
        if let Some(y) = w.get() {
            check_eq(y.node().data().v as u64, m.v[r as usize] as u64, "a walk does not see a written value");
        }
        cover("value written");
    }
    end();
}
fn values(n: &Node<Tok>, m: &M, l: &mut List, k: usize) -> usize {
    check_eq(n.data().v as u64, m.v[l.k[k] as usize] as u64, "a copy shares a value with its original, or lost one");
    let mut j = k + 1;
    for c in n.iter() {
        j = values(c, m, l, j);
    }
    j
}
/// params: nodes (up to)
fn forest() {
    begin();
    {
        let mut m = M::new();
        let r = any_forest_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut f = build_forest(&mut m, r, st(pick(3)));
        let l = m.bfs(r, true);
        if l.n > 0 {
            let x = l.k[pick(l.n)];
            let p = m.path(r, x);
            let v = any8();
            match pick(4) {
                0 => at_forest_mut(&mut f, &p).data_mut().v = v,
                2 => {
                    // through the tree it is in
                    let top = m.child(r, p.k[0] as usize);
                    let b = m.bfs(top, false);
                    let mut k = 0;
                    let mut q = p;
                    q.n = 1;
                    for visit in at_forest_mut(&mut f, &q).bfs_mut().iter {
                        if k < b.n && b.k[k] == x {
                            visit.data.v = v;
                        }
                        k += 1;
                    }
                    check_eq(k as u64, b.n as u64, "bfs_mut goes beyond its node");
                }
                1 => {
                    let d = m.deg(r);
                    let k = p.k[0] as usize;
                    let top = m.child(r, k);
                    let q = m.path(top, x);
                    let n = if k == 0 {
                        f.front_mut()
                    } else if k + 1 == d {
                        f.back_mut()
                    } else {
                        f.iter_mut().nth(k)
                    };
                    match n {
                        Some(n) => ends(n, &m, top, &q).data_mut().v = v,
                        None => check(false, "a tree that should be in the forest was not reachable"),
                    }
                }
                _ => {
                    let mut k = 0;
                    for visit in f.bfs_mut().iter {
                        if l.k[k] == x {
                            visit.data.v = v;
                        }
                        k += 1;
                    }
                }
            }
            m.v[x as usize] = v;
            let g: Forest<Tok> = f.clone();
            same_forest(&f, &m, r);
            let mut k = 0;
            for visit in g.bfs().iter {
                check_eq(visit.data.v as u64, m.v[l.k[k] as usize] as u64, "a copy has the wrong value");
                k += 1;
            }
            let mut it = f.into_bfs().wrap().iter();
            k = 0;
            while let Some(visit) = it.next() {
                check_eq(visit.data.v as u64, m.v[l.k[k] as usize] as u64, "into_bfs does not see a written value");
                k += 1;
            }
            cover("forest value written");
        }
    }
    end();
}
/// a node or forest with many children, each with a child of its own, written to in one place.
/// params: children, kind (0 tree, 1 forest, 2 handle)
fn wide() {
    begin();
    {
        let n = param(0);
        let kind = param(1);
        let mut f = Forest::new();
        let mut k = 0;
        while k < n {
            let mut c = Tree::new(2 * k as u32);
            c.push_back(Tree::new(2 * k as u32 + 1));
            f.push_back(c);
            k += 1;
        }
        if any_bool() {
            f = Forest::from(f.into_bfs());
        }
        let p = pos(n);
        let below = any_bool();
        let v = any8() as u32 + 1_000_000;
        let expected = |k: usize, b: bool| if k == p && b == below { v } else { 2 * k as u32 + b as u32 };
        let wrong = "writing one datum among many went wrong";
        let set = |c: Option<Pin<&mut Node<u32>>>| match c {
            Some(c) => {
                let c = unsafe { Pin::get_unchecked_mut(c) };
                if !below {
                    *c.data_mut() = v
                } else if any_bool() {
                    *c.front_mut().unwrap().data_mut() = v
                } else {
                    *c.back_mut().unwrap().data_mut() = v
                }
            }
            None => check(false, "a child that should be there was not reachable"),
        };
        let nth = if below { n + p } else { p };
        let mut t = Tree::new(0);
        match kind {
            0 | 2 => t.append(f),
            _ => {
                match pick(3) {
                    0 => set(f.iter_mut().nth(p)),
                    1 => {
                        if p == 0 {
                            set(f.front_mut())
                        } else if p == n - 1 {
                            set(f.back_mut())
                        } else {
                            set(f.iter_mut().skip(p).next())
                        }
                    }
                    _ => match f.bfs_mut().iter.nth(nth) {
                        Some(visit) => *visit.data = v,
                        None => check(false, wrong),
                    },
                }
                let mut k = 0;
                let mut ok = true;
                for c in f.iter() {
                    ok = ok & (*c.data() == expected(k, false)) & (*c.front().unwrap().data() == expected(k, true));
                    k += 1;
                }
                check(ok && k == n, wrong);
                check(*f.front().unwrap().data() == expected(0, false) && *f.back().unwrap().data() == expected(n - 1, false), wrong);
                cover("one of many trees written");
                t.append(f);
            }
        }
        match kind {
            0 => match pick(5) {
                0 => set(t.iter_mut().nth(p)),
                1 => {
                    if p == 0 {
                        set(t.front_mut())
                    } else if p == n - 1 {
                        set(t.back_mut())
                    } else {
                        set(t.iter_mut().skip(p).next())
                    }
                }
                2 => {
                    let r = unsafe { Pin::get_unchecked_mut(t.root_mut()) };
                    if p == 0 {
                        set(r.front_mut())
                    } else if p == n - 1 {
                        set(r.back_mut())
                    } else {
                        set(r.iter_mut().nth(p))
                    }
                }
                3 => match t.bfs_mut().iter.nth(1 + nth) {
                    Some(visit) => *visit.data = v,
                    None => check(false, wrong),
                },
                _ => match t.bfs_children_mut().iter.nth(nth) {
                    Some(visit) => *visit.data = v,
                    None => check(false, wrong),
                },
            },
            2 => {
                let h = RcNode::from(t);
                let c = if p == 0 {
                    h.front()
                } else if p == n - 1 {
                    h.back()
                } else {
                    h.iter_rc().nth(p)
                };
                match c {
                    Some(c) => {
                        if below {
                            *c.front().unwrap().data_mut() = v
                        } else {
                            *c.data_mut() = v
                        }
                    }
                    None => check(false, "a child that should be there was not reachable"),
                }
                t = unsafe { h.into_tree() };
            }
            _ => (),
        }
        let mut k = 0;
        let mut ok = true;
        for c in t.iter() {
            ok = ok & (*c.data() == expected(k, false)) & (*c.front().unwrap().data() == expected(k, true));
            k += 1;
        }
        check(ok && k == n, wrong);
        let mut k = 0;
        for visit in t.bfs_children().iter {
            ok = ok & (*visit.data == expected(k % n, k >= n));
            k += 1;
        }
        check(ok && k == 2 * n, wrong);
        cover("one of many written");
    }
    end();
}
fn big() {
    crate::big::write()
}
fn huge() {
    crate::huge::huge(crate::huge::WRITE)
}
crate::harnesses! {
    c24_huge => huge,
    c24_big => big,
    c24_wide => wide,
    c24_tree => tree,
    c24_forest => forest,
}
