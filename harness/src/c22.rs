//! iter_rc while the tree changes.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
use trees::{RcNode, Tree};
/// params: nodes (up to), operations
fn history() {
    begin();
    {
        let mut w = RcWorld::new(param(0), st(pick(3)), LIFE, true);
        w.op_iter();
        w.gc();
        w.verify();
        let mut k = 0;
        while k < param(1) {
            match pick(4) {
                3 => w.op_clone_iter(),
                0 => w.op_next(),
                1 => w.op_drop(),
                _ => w.op_struct(),
            }
            w.gc();
            w.verify();
            k += 1;
        }
        // finish the iteration, or that of the clone first
        if any_bool() {
            w.swap_iter();
        }
        let mut round = 0;
        while round < 2 {
            let mut left = MAXN;
            while w.itn != NONE {
                w.op_next();
                w.gc();
                w.verify();
                left -= 1;
                check(left > 0, "an iteration does not end");
            }
            w.op_next();
            w.swap_iter();
            round += 1;
        }
        cover("iteration complete");
        w.finish();
    }
    end();
}
/// many children, and one change while they are iterated over. params: children
fn wide() {
    begin();
    {
        let n = param(0);
        let mut t = Tree::new(u32::MAX);
        let mut k = 0;
        while k < n {
            t.push_back(Tree::new(2 * k as u32));
            k += 1;
        }
        if any_bool() {
            t = Tree::from(t.into_bfs());
        }
        let h = RcNode::from(t);
        let p = pos(n);
        let mut it = h.iter_rc();
        let mut k = 0;
        let mut last = None;
        while k < p {
            last = it.next();
            check(last.is_some() && *last.as_ref().unwrap().data() == 2 * k as u32, "iter_rc yields the wrong node");
            k += 1;
        }
        check(it.size_hint() == (n - p, Some(n - p)), "iter_rc announces a wrong number of nodes");
        let op = pick(8);
        let mut h = Some(h);
        match op {
            0 => (),
            1 => {
                // the node that is to come
                let c = it.clone().next().unwrap();
                c.detach();
            }
            2 => {
                if let Some(c) = &last {
                    c.detach()
                }
            }
            3 => drop(h.as_ref().unwrap().pop_front()),
            4 => drop(h.as_ref().unwrap().pop_back()),
            5 => h.as_ref().unwrap().push_back(Tree::new(2 * n as u32)),
            6 => h.as_ref().unwrap().back().unwrap().insert_prev_sib(Tree::new(2 * n as u32 - 3)),
            _ => h = None,
        }
        let mut yielded = 0;
        let mut low = 2 * p as u32;
        let mut right = true;
        while let Some(c) = it.next() {
            let v = *c.data();
            if op == 0 {
                right = right & (v == low);
            }
            right = right & (v >= low) & (v <= 2 * n as u32);
            low = v + if op == 0 { 2 } else { 1 };
            yielded += 1;
            check(yielded + p <= n + 1, "an iteration does not end");
            check(it.size_hint().0 + yielded + p <= n + 1, "iter_rc announces a wrong number of nodes");
        }
        check(right, "iter_rc yields the wrong node");
        if op == 0 {
            check_eq(yielded as u64, (n - p) as u64, "iter_rc misses a node");
        }
        check(it.next().is_none(), "an iterator that ended goes on");
        check(it.size_hint() == (0, Some(0)), "an ended iterator claims that something is left");
        check(op == 7 || h.is_some(), "");
        drop(h);
        cover("long iteration complete");
    }
    end();
}
fn huge() {
    crate::huge::huge(crate::huge::ITER_RC)
}
crate::harnesses! {
    c22_huge => huge,
    c22_history => history,
    c22_wide => wide,
}
