//! User code that panics.
use crate::model::*;
use crate::rcworld::{at_rc, same_rc};
use crate::rt::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use trees::{Forest, RcNode, Tree};

/// takes everything
struct Null;
impl Hasher for Null {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
/// every datum made so far and not listed as alive was dropped at most once (Tok
/// itself checks that); these must be alive
fn all_alive(m: &M, i: u8) {
    let l = m.preorder(i);
    let mut k = 0;
    while k < l.n {
        check(alive(m.id[l.k[k] as usize]), "a datum of an untouched tree died");
        k += 1;
    }
}
/// user code that only reads panics: the operands are untouched. params: nodes (up to)
fn readers() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let n = m.count(r);
        let fuse = pick(n + 1);
        let mut u = None;
        let kind = pick(10);
        if kind >= 3 && kind < 7 {
            u = Some(t.clone());
        }
        unsafe { FUSE = fuse }
        let out = match kind {
            0 => catch(|| drop(t.clone())),
            1 => catch(|| drop(t.deep_clone_forest())),
            2 => catch(|| {
                let x: Tree<Tok> = Tree::from(t.bfs().map(|d: &Tok| d.clone()));
                drop(x)
            }),
            3 => catch(|| check(t == *u.as_ref().unwrap(), "a tree is not equal to its copy")),
            4 => catch(|| check(t.cmp(u.as_ref().unwrap()) == std::cmp::Ordering::Equal, "a tree does not compare equal to its copy")),
            5 => catch(|| check(!(t != *u.as_ref().unwrap()), "a tree is unequal to its copy")),
            6 => catch(|| check(t.partial_cmp(u.as_ref().unwrap()) == Some(std::cmp::Ordering::Equal), "a tree does not compare equal to its copy")),
            7 => catch(|| t.hash(&mut Null)),
            8 => catch(|| check(write!(Null, "{}", t).is_ok(), "formatting failed")),
            _ => catch(|| check(write!(Null, "{:?}", t).is_ok(), "formatting failed")),
        };
        unsafe { FUSE = usize::MAX }
        if fuse == n {
            check(!out, "an operation panicked although no user code did");
        } else if kind != 1 {
            check(out, "harness: user code was not reached");
            cover("a reader panicked");
        }
        all_alive(&m, r);
        same(t.root(), &m, r);
        sizes(t.root(), &m, r);
        links_tree(&t, &m, r);
        drop(t);
        drop(u);
        let l = m.preorder(r);
        let mut k = 0;
        while k < l.n {
            check(!alive(m.id[l.k[k] as usize]), "a datum of an untouched tree was never dropped");
            k += 1;
        }
    }
}
/// the same through handles. params: nodes (up to)
fn readers_rc() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let u = RcNode::from(t.clone());
        let h = RcNode::from(t);
        let n = m.count(r);
        let fuse = pick(n + 1);
        unsafe { FUSE = fuse }
        let out = match pick(8) {
            0 => catch(|| drop(h.deep_clone())),
            1 => catch(|| check(h == u, "a tree is not equal to its copy")),
            2 => catch(|| check(h.cmp(&u) == std::cmp::Ordering::Equal, "a tree does not compare equal to its copy")),
            3 => catch(|| check(h.partial_cmp(&u) == Some(std::cmp::Ordering::Equal), "a tree does not compare equal to its copy")),
            4 => catch(|| check(!(h != u), "a tree is unequal to its copy")),
            5 => catch(|| h.hash(&mut Null)),
            6 => catch(|| check(write!(Null, "{}", h).is_ok(), "formatting failed")),
            _ => catch(|| check(write!(Null, "{:?}", h).is_ok(), "formatting failed")),
        };
        unsafe { FUSE = usize::MAX }
        check(out == (fuse < n), "a panic of user code was not passed on");
        // no borrow is left behind
        same_rc(&h, &m, r);
        let l = m.preorder(r);
        let x = l.k[pick(l.n)];
        let p = m.path(r, x);
        let v = any8();
        check(!catch(|| at_rc(&h, &p).data_mut().v = v), "a borrow is left behind by a panic");
        m.v[x as usize] = v;
        same_rc(&h, &m, r);
        drop(h);
        drop(u);
        let mut k = 0;
        while k < l.n {
            check(!alive(m.id[l.k[k] as usize]), "a datum of an untouched tree was never dropped");
            k += 1;
        }
        cover("a reader of a handle panicked");
    }
}
/// a closure that consumes data panics: nothing is dropped twice. params: nodes (up to)
fn consumers() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let n = m.count(r);
        let fuse = pick(n + 1);
        let mut k = 0;
        let f = move |d: Tok| {
            if k == fuse {
                panic!("user code");
            }
            k += 1;
            d
        };
        let forest = any_bool();
        let mut got = None;
        let mut gotf = None;
        let out;
        if forest {
            let t = build_forest(&mut m, r, s);
            out = catch(|| gotf = Some(Forest::from(t.into_bfs().map(f))));
            check(out == (fuse < n - 1), "a panic of user code was not passed on");
        } else {
            let t = build(&mut m, r, s);
            out = catch(|| got = Some(Tree::from(t.into_bfs().map(f))));
            check(out == (fuse < n), "a panic of user code was not passed on");
        }
        if let Some(t) = &got {
            same(t.root(), &m, r);
        }
        if let Some(t) = &gotf {
            same_forest(t, &m, r);
        }
        if out {
            cover("a consumer panicked");
        }
    }
}
/// the iterator given to extend() panics. params: nodes (up to)
fn extend() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let mut h = RcNode::from(t);
        let cut = pick(3);
        let mut new = [0u16; 3];
        let mut k = 0;
        let out = catch(|| {
            h.extend(std::iter::from_fn(|| {
                if k == cut {
                    panic!("user code");
                }
                let x = Tok::new(any8());
                new[k] = x.id;
                k += 1;
                Some(Tree::new(x))
            }))
        });
        check(out, "a panic of user code was not passed on");
        let mut j = 0;
        while j < cut {
            let c = m.node(0);
            m.id[c as usize] = new[j];
            j += 1;
            m.push_back(r, c);
        }
        check_eq(h.degree() as u64, m.deg(r) as u64, "degree is wrong");
        check_eq(h.node_count() as u64, m.count(r) as u64, "node count is wrong");
        let mut j = 0;
        for c in h.iter_rc() {
            check_eq(c.data().id as u64, m.id[m.child(r, j) as usize] as u64, "wrong datum at a position");
            j += 1;
        }
        check(!catch(|| h.data_mut().v ^= 1), "a borrow is left behind by a panic");
        cover("extend panicked");
    }
    end();
}
/// a destructor panics while a tree dies: nothing is dropped twice. params: nodes (up to)
fn destructors() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let s = st(pick(3));
        let fuse = pick(m.count(r));
        match pick(4) {
            0 => {
                let t = build(&mut m, r, s);
                unsafe { DROP_FUSE = fuse }
                check(catch(|| drop(t)), "a panic of a destructor was not passed on");
                cover("a tree's destructor panicked");
            }
            1 => {
                let t = build_forest(&mut m, r, s);
                if fuse < m.count(r) - 1 {
                    unsafe { DROP_FUSE = fuse }
                    check(catch(|| drop(t)), "a panic of a destructor was not passed on");
                    cover("a forest's destructor panicked");
                }
            }
            2 => {
                let t = build(&mut m, r, s);
                let it = t.into_bfs().wrap().iter();
                unsafe { DROP_FUSE = fuse }
                check(catch(|| drop(it)), "a panic of a destructor was not passed on");
            }
            _ => {
                // handles that outlive the dying root
                let t = build(&mut m, r, s);
                let root = RcNode::from(t);
                let l = m.preorder(r);
                let x = l.k[pick(l.n)];
                let p = m.path(r, x);
                let h = at_rc(&root, &p);
                let w = root.downgrade();
                unsafe { DROP_FUSE = fuse }
                let out = catch(|| drop(root));
                unsafe { DROP_FUSE = usize::MAX }
                if x != r {
                    check(w.upgrade().is_none(), "a dead node was upgraded");
                    check(alive(m.id[x as usize]), "a node with a handle died");
                    if m.parent(x) == r {
                        // its parent is gone for certain
                        check(h.is_root(), "the child of a dead node has a parent");
                        check(h.parent().is_none(), "the child of a dead node has a parent");
                    }
                    same_below(&h, &m, x);
                    if out {
                        cover("a handle survived a panicking destructor");
                    }
                } else {
                    check(!out, "a root with a handle died");
                }
                drop(w);
                let out = catch(|| drop(h));
                check(!out, "an operation panicked although no user code did");
            }
        }
        unsafe { DROP_FUSE = usize::MAX }
    }
}
fn same_below(h: &RcNode<Tok>, m: &M, x: u8) {
    check_eq(h.data().id as u64, m.id[x as usize] as u64, "wrong datum at a position");
    check_eq(h.degree() as u64, m.deg(x) as u64, "degree is wrong");
    let mut k = 0;
    for c in h.iter_rc() {
        same_below(&c, m, m.child(x, k));
        k += 1;
    }
}
fn big() {
    crate::big::panics()
}
crate::harnesses! {
    c25_big => big,
    c25_readers => readers,
    c25_readers_rc => readers_rc,
    c25_consumers => consumers,
    c25_extend => extend,
    c25_destructors => destructors,
}
