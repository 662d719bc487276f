//! Operations that have no meaning are refused and change nothing.
use crate::model::*;
use crate::rcworld::{at_rc, same_rc};
use crate::rt::*;
use crate::world::*;
use trees::{Forest, ForestWalk, RcNode, Tree, TreeWalk};

/// a root, however it came to be one; params: nodes (up to)
fn any_root(m: &mut M, n: usize) -> (Tree<Tok>, u8, Option<Tree<Tok>>) {
    let r = any_shape_upto(m, n);
    fill(m, r);
    let s = st(pick(3));
    let mut t = build(m, r, s);
    let d = m.deg(r);
    match pick(9) {
        0 => (t, r, None),
        k @ (1 | 2) if d > 0 => {
            let x = if k == 1 { t.pop_front() } else { t.pop_back() };
            let c = m.child(r, if k == 1 { 0 } else { d - 1 });
            m.detach(c);
            cover("root was popped");
            (x.unwrap(), c, Some(t))
        }
        3 if d > 0 => {
            let k = pick(d);
            let x = t.iter_mut().nth(k).unwrap().detach();
            let c = m.child(r, k);
            m.detach(c);
            cover("root was detached");
            (x, c, Some(t))
        }
        4 if d > 0 => {
            let f = t.abandon();
            let mut it = f.into_iter();
            let k = pick(d);
            let x = it.nth(k).unwrap();
            let c = m.child(r, k);
            cover("root came from a forest");
            (x, c, None)
        }
        5 => {
            let f = t.abandon();
            drop(f);
            while m.deg(r) > 0 {
                let c = m.child(r, 0);
                m.detach(c);
            }
            (t, r, None)
        }
        6 => {
            let w = TreeWalk::from(t);
            (Tree::from(w), r, None)
        }
        7 => {
            let h = RcNode::from(t);
            (unsafe { h.into_tree() }, r, None)
        }
        8 if d > 0 => {
            let mut f = t.abandon();
            if any_bool() {
                f = Forest::from(ForestWalk::from(f));
            }
            let x = f.pop_front().unwrap();
            let c = m.child(r, 0);
            cover("root was popped from a forest");
            (x, c, None)
        }
        _ => (t, r, None),
    }
}
fn misuse() {
    begin();
    {
        let mut m = M::new();
        let (mut t, r, rest) = any_root(&mut m, param(0));
        let mut given = u16::MAX;
        let refused = match pick(3) {
            0 => catch(|| {
                let x = t.root_mut().detach();
                std::mem::forget(x); // not reached
            }),
            k => {
                let x = Tok::new(any8());
                given = x.id;
                let mut x = Tree::new(x);
                if any_bool() {
                    x = pile(x);
                }
                catch(|| if k == 1 { t.root_mut().insert_prev_sib(x) } else { t.root_mut().insert_next_sib(x) })
            }
        };
        check(refused, "an operation on a root that needs a parent was not refused");
        if given != u16::MAX {
            check(!alive(given), "the operand of a refused operation survived");
        }
        // nothing changed and the tree still works
        let up = m.parent(r);
        let mut m2 = m;
        if up != NONE {
            m2.detach(r);
        }
        same(t.root(), &m2, r);
        sizes(t.root(), &m2, r);
        links_tree(&t, &m2, r);
        let x = Tok::new(any8());
        let c = m2.node(x.v);
        m2.id[c as usize] = x.id;
        t.push_back(Tree::new(x));
        m2.push_back(r, c);
        same(t.root(), &m2, r);
        if let Some(rest) = &rest {
            check(rest.root().parent().is_none(), "parent() of a root is not None");
        }
        cover("misuse refused");
        // nor is anything remembered that shows later
        let mut w = World::of(m2, t, r, ORDER | SIZE | LINKS);
        w.probe();
        w.finish();
    }
    end();
}
/// the same through handles; into_tree of a node that is no root. params: nodes (up to)
fn misuse_rc() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let root = RcNode::from(t);
        let l = m.preorder(r);
        let x = l.k[pick(l.n)];
        let p = m.path(r, x);
        let h = at_rc(&root, &p);
        let mut given = u16::MAX;
        let mut cut = false;
        if m.parent(x) != NONE && any_bool() {
            // a former child
            match pick(2) {
                0 => h.detach(),
                _ => {
                    let up = h.parent().unwrap();
                    loop {
                        let y = up.pop_front().unwrap();
                        let c = m.child(m.parent(x), 0);
                        if c == x {
                            break;
                        }
                        m.detach(c);
                        drop(y);
                    }
                }
            }
            m.detach(x);
            cut = true;
        }
        let is_root = m.parent(x) == NONE;
        if is_root {
            check(h.is_root(), "a root claims not to be one");
            let refused = match pick(3) {
                0 => catch(|| h.detach()),
                k => {
                    let d = Tok::new(any8());
                    given = d.id;
                    let y = Tree::new(d);
                    catch(|| if k == 1 { h.insert_prev_sib(y) } else { h.insert_next_sib(y) })
                }
            };
            check(refused, "an operation on a root that needs a parent was not refused");
            cover("misuse through a handle refused");
        } else {
            check(!h.is_root(), "a child claims to be a root");
            let g = h.clone();
            let refused = catch(|| {
                let t = unsafe { g.into_tree() };
                std::mem::forget(t); // not reached
            });
            check(refused, "into_tree of a child was not refused");
            cover("into_tree refused");
        }
        if given != u16::MAX {
            check(!alive(given), "the operand of a refused operation survived");
        }
        same_rc(&h, &m, x);
        same_rc(&root, &m, r);
        check_eq(h.is_root() as u64, is_root as u64, "is_root() is wrong after a refused operation");
        // the handles still own what they owned
        drop(root);
        check(alive(m.id[x as usize]), "a node with a handle died");
        if cut || is_root {
            if x != r && !cut {
                m.detach(x);
            }
            same_rc(&h, &m, x);
            let t = unsafe { h.into_tree() };
            let mut w = World::of(m, t, x, ORDER | SIZE | LINKS);
            w.probe();
            w.finish();
        }
    }
    end();
}
/// operations on and with nothing. params: nodes (up to)
fn nothing() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let mut t = build(&mut m, r, s);
        let l = m.preorder(r);
        let x = l.k[pick(l.n)];
        let p = m.path(r, x);
        let e = || {
            let mut f: Forest<Tok> = match pick(4) {
                0 => Forest::new(),
                1 => Forest::default(),
                2 => pile_forest(Forest::new()),
                _ => Tree::new(Tok::new(any8())).abandon(),
            };
            check(f.pop_front().is_none(), "pop_front of an empty forest is something");
            check(f.pop_back().is_none(), "pop_back of an empty forest is something");
            check(f.has_no_child(), "an empty forest has a tree");
            check_eq(f.degree() as u64 + f.node_count() as u64, 0, "an empty forest has a size");
            check(f.front().is_none() && f.back().is_none(), "an empty forest has a first or last tree");
            check(f.front_mut().is_none() && f.back_mut().is_none(), "an empty forest has a first or last tree");
            check(f.iter().next().is_none() && f.iter_mut().next().is_none(), "an empty forest has a tree");
            f
        };
        {
            let mut n = at_mut(t.root_mut(), &p);
            match pick(3) {
                0 => n.append(e()),
                1 => n.prepend(e()),
                _ => {
                    if m.deg(x) == 0 {
                        check(n.pop_front().is_none(), "pop_front of a leaf is something");
                        check(n.pop_back().is_none(), "pop_back of a leaf is something");
                        check(n.front_mut().is_none() && n.back_mut().is_none(), "a leaf has a first or last child");
                        check(n.iter_mut().next().is_none(), "a leaf has a child");
                        cover("popped a leaf");
                    }
                }
            }
        }
        same(t.root(), &m, r);
        sizes(t.root(), &m, r);
        links_tree(&t, &m, r);
        // a forest of the tree's children, with nothing added
        let mut f = t.abandon();
        check(t.has_no_child(), "an abandoned root has a child");
        check_eq(t.data().id as u64, m.id[r as usize] as u64, "an abandoned root has the wrong datum");
        match pick(3) {
            0 => f.append(e()),
            1 => f.prepend(e()),
            _ => {
                let mut g = e();
                if any_bool() {
                    g.append(f);
                } else {
                    g.prepend(f);
                }
                f = g;
            }
        }
        same_forest(&f, &m, r);
        sizes_forest(&f, &m, r);
        links_forest(&f, &m, r);
        let g = t.abandon();
        check(g.has_no_child(), "abandoning a leaf yields a tree");
        drop(g);
        t.append(f);
        same(t.root(), &m, r);
        sizes(t.root(), &m, r);
        links_tree(&t, &m, r);
        cover("nothing done");
    }
    end();
}
crate::harnesses! {
    c20_misuse => misuse,
    c20_misuse_rc => misuse_rc,
    c20_nothing => nothing,
}
