//! RcNode: the operations themselves, and conversions.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
use trees::{Forest, RcNode, Tree};
/// params: nodes (up to), operations
fn history() {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), STRUCT, true);
        w.verify();
        let mut k = 0;
        while k < param(1) {
            match pick(4) {
                0 => w.op_drop(),
                1 => w.op_nav(),
                2 => w.op_deep_clone(),
                _ => w.op_struct(),
            }
            w.gc();
            w.verify();
            k += 1;
        }
        cover("history complete");
        w.finish();
    }
    end();
}
/// Tree -> RcNode -> operations -> Tree -> operations. params: nodes (up to)
fn convert() {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), STRUCT, false);
        if any_bool() {
            w.op_struct();
            w.gc();
            w.verify();
        }
        let mut k = 1;
        while k < H {
            w.hn[k] = NONE;
            w.h[k] = None;
            k += 1;
        }
        w.gc();
        let r = w.hn[0];
        let h = w.h[0].take().unwrap();
        w.hn[0] = NONE;
        let mut t = unsafe { h.into_tree() };
        let m = &mut w.m;
        same(t.root(), m, r);
        sizes(t.root(), m, r);
        links_tree(&t, m, r);
        match pick(3) {
            0 => {
                let x = Tok::new(any8());
                let c = m.node(x.v);
                m.id[c as usize] = x.id;
                t.push_front(Tree::new(x));
                m.insert(r, 0, c);
            }
            1 => {
                let u = t.pop_back();
                check(u.is_some() == (m.deg(r) > 0), "pop_back is wrong");
                if m.deg(r) > 0 {
                    let c = m.child(r, m.deg(r) - 1);
                    m.detach(c);
                    if let Some(u) = u {
                        let u = RcNode::from(u);
                        same_rc(&u, m, c);
                    }
                }
            }
            _ => {}
        }
        same(t.root(), m, r);
        if any_bool() {
            let h = RcNode::from(t);
            same_rc(&h, m, r);
            check(h.is_root(), "a root claims not to be one");
            cover("converted twice");
        }
    }
    end();
}
/// wide node: any of many operations. params: children
fn wide() {
    begin();
    {
        let n = param(0);
        let mut ids: Vec<u16> = Vec::with_capacity(n + 4);
        let mut t = Tree::new(Tok::new(any8()));
        let mut k = 0;
        while k < n {
            let x = Tok::new(any8());
            ids.push(x.id);
            t.push_back(Tree::new(x));
            k += 1;
        }
        let root = RcNode::from(if any_bool() { pile(t) } else { t });
        let p = pos(n);
        let mut it = root.iter_rc();
        let c = it.nth(p);
        drop(it);
        let c = match c {
            Some(c) => c,
            None => {
                check(false, "a child is missing");
                return;
            }
        };
        let x = Tok::new(any8());
        let id = x.id;
        match pick(4) {
            0 => {
                c.detach();
                check_eq(ids.remove(p) as u64, c.data().id as u64, "the wrong child was reached");
            }
            1 => {
                c.insert_prev_sib(Tree::new(x));
                ids.insert(p, id);
            }
            2 => {
                c.insert_next_sib(Tree::new(x));
                ids.insert(p + 1, id);
            }
            _ => {
                c.push_back(Tree::new(x));
                check_eq(root.node_count() as u64, n as u64 + 2, "node count is wrong");
            }
        }
        let mut k = 0;
        for y in root.iter_rc() {
            check(k < ids.len(), "an extra child is present");
            if k < ids.len() {
                check_eq(y.data().id as u64, ids[k] as u64, "wrong datum at a position");
            }
            k += 1;
        }
        check_eq(k as u64, ids.len() as u64, "a child is missing");
        check_eq(root.degree() as u64, k as u64, "degree is wrong");
        cover("wide done");
    }
    end();
}
/// handles on nodes inside, kept while the whole goes through conversions and is
/// taken apart. params: nodes (up to)
fn inside() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let root = RcNode::from(build(&mut m, r, st(pick(3))));
        let l = m.preorder(r);
        if l.n < 2 {
            return;
        }
        let x = l.k[1 + pick(l.n - 1)];
        let h = at_rc(&root, &m.path(r, x));
        let mut t = unsafe { root.into_tree() };
        let mut keep = None;
        let mut kr = NONE;
        let mut f = None;
        let mut vr = NONE;
        match pick(6) {
            0 => {
                // all children
                f = Some(t.abandon());
                vr = m.node(0);
                while m.deg(r) > 0 {
                    let c = m.child(r, 0);
                    m.detach(c);
                    m.push_back(vr, c);
                }
            }
            k @ (1 | 2) => {
                let c = m.child(r, if k == 1 { 0 } else { m.deg(r) - 1 });
                keep = if k == 1 { t.pop_front() } else { t.pop_back() };
                m.detach(c);
                kr = c;
            }
            3 => {
                let k = pick(m.deg(r));
                keep = match t.iter_mut().nth(k) {
                    Some(mut c) => Some(c.detach()),
                    None => None,
                };
                let c = m.child(r, k);
                m.detach(c);
                kr = c;
            }
            4 => {
                // one level up
                let d = Tok::new(any8());
                let c = m.node(d.v);
                m.id[c as usize] = d.id;
                let mut u = Tree::new(d);
                u.push_back(t);
                m.push_back(c, r);
                t = u;
            }
            _ => {
                // the children go to another node
                let d = Tok::new(any8());
                let c = m.node(d.v);
                m.id[c as usize] = d.id;
                let mut u = Tree::new(d);
                u.append(t.abandon());
                while m.deg(r) > 0 {
                    let y = m.child(r, 0);
                    m.detach(y);
                    m.push_back(c, y);
                }
                keep = Some(u);
                kr = c;
            }
        }
        check(m.par[x as usize] == NONE || alive(m.id[x as usize]), "harness: dead");
        // a top-level tree of a forest has no parent
        let p = m.parent(x);
        let top = p == NONE || p == vr;
        check(h.is_root() == top, "is_root() is wrong");
        match h.parent() {
            Some(q) => {
                check(!top, "parent() of a root is not None");
                if !top {
                    check_eq(q.data().id as u64, m.id[p as usize] as u64, "parent() is wrong");
                }
            }
            None => check(top, "parent() of a child is None"),
        }
        same_rc(&h, &m, x);
        let mut top = if m.parent(r) == NONE { r } else { m.parent(r) };
        same(t.root(), &m, top);
        if let Some(k) = &keep {
            same(k.root(), &m, kr);
        }
        if let Some(f) = &f {
            same_forest(f, &m, vr);
        }
        check(keep.is_some() == (kr != NONE), "a tree is missing");
        // the handle goes first: a plain tree may not be dropped under it
        drop(h);
        top = 0;
        let _ = top;
        cover("held through conversions");
    }
    end();
}
fn big() {
    crate::big::handles(crate::big::SHAPE)
}
fn moves() {
    crate::rcworld::moves(STRUCT)
}
fn huge() {
    crate::huge::huge(crate::huge::HANDLES)
}
crate::harnesses! {
    c17_huge => huge,
    c17_moves => moves,
    c17_big => big,
    c17_inside => inside,
    c17_history => history,
    c17_convert => convert,
    c17_wide => wide,
}
