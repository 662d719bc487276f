//! WeakNode.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
use trees::{RcNode, Tree, WeakNode};
/// params: nodes (up to), operations
fn history() {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), LIFE | WEAK, true);
        // a weak handle to start with
        w.op_downgrade();
        w.verify();
        let mut k = 0;
        while k < param(1) {
            match pick(5) {
                0 => w.op_drop(),
                1 => w.op_downgrade(),
                2 => w.op_upgrade(),
                3 => w.op_drop_weak(),
                _ => w.op_struct(),
            }
            w.gc();
            w.verify();
            k += 1;
        }
        cover("history complete");
        w.finish();
    }
    end();
}
fn handles() {
    crate::rcworld::handles()
}
fn big() {
    crate::big::handles(crate::big::WEAK)
}
fn moves() {
    crate::rcworld::moves(LIFE | WEAK)
}
/// a tree under weak handles that goes on as a plain one and is dropped.
/// params: nodes (up to)
fn plain() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let root = RcNode::from(build(&mut m, r, st(pick(3))));
        let l = m.preorder(r);
        let mut w = [(); 2].map(|_| {
            let x = l.k[pick(l.n)];
            (x, at_rc(&root, &m.path(r, x)).downgrade())
        });
        let id = |m: &M, x: u8| m.id[x as usize];
        // a weak handle finds its node as long as the node has its datum
        let mut moved = NONE;
        let look = |w: &mut [(u8, WeakNode<Tok>); 2], m: &M, moved: u8| {
            for (x, w) in w.iter() {
                match w.upgrade() {
                    Some(h) => {
                        check(*x != moved && alive(id(m, *x)), "a weak handle of a dead node was upgraded");
                        check_eq(h.data().id as u64, id(m, *x) as u64, "a weak handle was upgraded to the wrong node");
                    }
                    None => check(*x == moved || !alive(id(m, *x)), "a weak handle of a live node was not upgraded"),
                }
            }
        };
        look(&mut w, &m, moved);
        let mut t = unsafe { root.into_tree() };
        look(&mut w, &m, moved);
        match pick(5) {
            0 => drop(t),
            1 => {
                if l.n > 1 {
                    let y = l.k[1 + pick(l.n - 1)];
                    let p = at_mut(t.root_mut(), &m.path(r, y)).detach();
                    look(&mut w, &m, moved);
                    if any_bool() {
                        drop(p);
                        look(&mut w, &m, moved);
                        drop(t);
                    } else {
                        drop(t);
                        look(&mut w, &m, moved);
                        drop(p);
                    }
                } else {
                    drop(t);
                }
            }
            2 => {
                // the root's datum moves to another node
                let f = t.abandon();
                moved = r;
                look(&mut w, &m, moved);
                if any_bool() {
                    drop(t);
                    look(&mut w, &m, moved);
                    drop(f);
                } else {
                    for p in f {
                        drop(p);
                        look(&mut w, &m, moved);
                    }
                    drop(t);
                }
            }
            3 => {
                let mut u = Tree::new(Tok::new(any8()));
                u.push_front(t);
                look(&mut w, &m, moved);
                let h = RcNode::from(u);
                look(&mut w, &m, moved);
                drop(h);
            }
            _ => {
                // data leave their nodes one by one
                let mut it = t.into_bfs().iter;
                while let Some(v) = it.next() {
                    let here = v.data.id;
                    for (x, w) in w.iter() {
                        if id(&m, *x) == here {
                            check(w.upgrade().is_none(), "a weak handle of a dead node was upgraded");
                        }
                    }
                    drop(v);
                    look(&mut w, &m, moved);
                }
            }
        }
        look(&mut w, &m, moved);
        for (_, w) in w.iter() {
            check(w.upgrade().is_none(), "a weak handle of a dead node was upgraded");
        }
        if any_bool() {
            w.reverse();
        }
        for x in w {
            drop(x);
        }
        cover("dropped under weak handles");
    }
    end();
}
fn huge() {
    crate::huge::huge(crate::huge::HANDLES)
}
crate::harnesses! {
    c15_huge => huge,
    c15_plain => plain,
    c15_moves => moves,
    c15_big => big,
    c15_history => history,
    c15_handles => handles,
}
