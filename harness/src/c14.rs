//! RcNode: how long nodes live.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
/// params: nodes (up to), operations
fn history() {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), LIFE, true);
        w.verify();
        let mut k = 0;
        while k < param(1) {
            match pick(6) {
                0 => w.op_clone(),
                1 => w.op_drop(),
                2 => w.op_nav(),
                3 => w.op_downgrade(),
                4 => w.op_drop_weak(),
                _ => w.op_struct(),
            }
            w.gc();
            w.verify();
            k += 1;
        }
        cover("history complete");
        w.finish();
    }
    end();
}
/// many handles on one wide node's children, dropped from either end; params: children
fn wide() {
    begin();
    {
        let n = param(0);
        let mut f = trees::Forest::new();
        let mut k = 0;
        while k < n {
            f.push_back(trees::Tree::new(Tok::new(any8())));
            k += 1;
        }
        let mut t = trees::Tree::new(Tok::new(any8())); // id n
        t.append(f);
        let t = if any_bool() { pile(t) } else { t };
        let root = trees::RcNode::from(t);
        let (a, b) = (pos(n), pos(n));
        let (mut x, mut y) = (None, None);
        let mut k = 0;
        for c in root.iter_rc() {
            if k == a {
                x = Some(c.clone());
            }
            if k == b {
                y = Some(c);
            }
            k += 1;
        }
        if any_bool() {
            x.as_ref().unwrap().detach();
            check(alive(a as u16), "a node with a handle died");
            check_eq(root.degree() as u64, n as u64 - 1, "degree is wrong");
            if a != b {
                drop(x.take());
                check(!alive(a as u16), "a node outlived its last handle");
            }
        }
        drop(root);
        k = 0;
        while k < n {
            let held = (k == a && x.is_some()) || (k == b && y.is_some());
            check(alive(k as u16) == held, "a node does not live exactly as long as a handle or a parent keeps it");
            k += 1;
        }
        check(!alive(n as u16), "a root outlived its last handle");
        if let Some(y) = &y {
            check(y.parent().is_none(), "the child of a dead node has a parent");
        }
        drop(x);
        drop(y);
        cover("wide done");
    }
    end();
}
fn handles() {
    crate::rcworld::handles()
}
fn big() {
    crate::big::handles(crate::big::LIVES)
}
fn moves() {
    crate::rcworld::moves(LIFE)
}
crate::harnesses! {
    c14_moves => moves,
    c14_big => big,
    c14_history => history,
    c14_wide => wide,
    c14_handles => handles,
}
