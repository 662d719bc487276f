//! A node stays where it is in memory.
use crate::model::*;
use crate::rcworld::at_rc;
use crate::rt::*;
use crate::world::*;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};
/// params: nodes in the tree (up to), nodes in the forest (up to), operations
fn history() {
    begin();
    let mut w = World::new(param(0), param(1), st(pick(3)), ADDR);
    w.verify();
    let mut k = 0;
    while k < param(2) {
        w.step();
        w.verify();
        k += 1;
    }
    cover("history complete");
}
fn note(n: &Node<Tok>, a: &mut [u64; MAXN], k: &mut usize) {
    a[*k] = n as *const Node<Tok> as u64;
    *k += 1;
    for c in n.iter() {
        note(c, a, k);
    }
}
fn note_rc(n: &RcNode<Tok>, a: &mut [u64; MAXN], k: &mut usize) {
    {
        let g = unsafe { n.node() };
        a[*k] = &*g as *const Node<Tok> as u64;
    }
    *k += 1;
    for c in n.iter_rc() {
        note_rc(&c, a, k);
    }
}
fn compare(a: &[u64; MAXN], b: &[u64; MAXN], n: usize) {
    let mut k = 0;
    while k < n {
        check_eq(b[k], a[k], "a node has moved in memory");
        k += 1;
    }
}
/// conversions that hand a tree over without touching it. params: nodes (up to)
fn convert() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut t = build(&mut m, r, st(pick(3)));
        let n = m.count(r);
        let (mut a, mut b) = ([0; MAXN], [0; MAXN]);
        note(t.root(), &mut a, &mut 0);
        match pick(4) {
            0 => {
                let mut w = TreeWalk::from(t);
                let mut k = pick(4);
                while k > 0 {
                    w.forward();
                    k -= 1;
                }
                if let Some(v) = w.get() {
                    let x = v.node() as *const Node<Tok> as u64;
                    let mut seen = false;
                    k = 0;
                    while k < n {
                        seen |= a[k] == x;
                        k += 1;
                    }
                    check(seen, "a walk visits a node that has moved");
                }
                t = Tree::from(w);
                note(t.root(), &mut b, &mut 0);
                compare(&a, &b, n);
                cover("walked");
            }
            1 => {
                let h = RcNode::from(t);
                note_rc(&h, &mut b, &mut 0);
                compare(&a, &b, n);
                // handles keep nodes in place too
                let l = m.preorder(r);
                let x = l.k[pick(l.n)];
                let p = m.path(r, x);
                let g = at_rc(&h, &p);
                h.push_front(Tree::new(Tok::new(any8())));
                if m.parent(x) != NONE {
                    g.insert_prev_sib(Tree::new(Tok::new(any8())));
                    g.detach();
                    let mut k = 0;
                    let mut i = 0;
                    while l.k[i] != x {
                        i += 1;
                    }
                    note_rc(&g, &mut b, &mut k);
                    let mut c = [0; MAXN];
                    let mut j = 0;
                    while j < k {
                        c[j] = a[i + j];
                        j += 1;
                    }
                    compare(&c, &b, k);
                    check(g.is_root(), "a detached node has a parent");
                }
                t = unsafe { h.into_tree() };
                check_eq(t.root() as *const Node<Tok> as u64, a[0], "a node has moved in memory");
                drop(g);
                cover("shared");
            }
            2 => {
                let mut it = t.into_iter();
                t = it.next().unwrap();
                note(t.root(), &mut b, &mut 0);
                compare(&a, &b, n);
            }
            _ => {
                // the children of an abandoned root, through a walk and an owning iterator
                let f = t.abandon();
                let f = Forest::from(ForestWalk::from(f));
                let mut k = 1;
                for c in f.into_iter() {
                    note(c.root(), &mut b, &mut k);
                    t.push_back(c);
                }
                b[0] = a[0];
                compare(&a, &b, n);
                k = 0;
                note(t.root(), &mut b, &mut k);
                b[0] = a[0];
                compare(&a, &b, n);
                cover("abandoned");
            }
        }
        drop(t);
    }
    end();
}
/// params: nodes in the tree (up to), nodes in the forest (up to), operations, size of operands
fn probe() {
    begin();
    {
        let mut w = World::new(param(0), param(1), st(pick(3)), ADDR);
        w.verify();
        let mut k = 0;
        while k < param(2) {
            w.step();
            k += 1;
        }
        w.probe();
        w.finish();
    }
    end();
}
fn big() {
    crate::big::ops(ADDR)
}
fn wide() {
    crate::wide::wide(ADDR)
}
fn deep() {
    crate::wide::deep(ADDR)
}
crate::harnesses! {
    c23_big => big,
    c23_history => history,
    c23_convert => convert,
    c23_wide => wide,
    c23_deep => deep,
    c23_probe => probe,
}
