//! More children than a 16-bit integer can count.
use crate::rt::*;
use std::pin::Pin;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};
use trees::walk::Visit;

pub const ORDER: u16 = 1;
pub const SIZE: u16 = 2;
pub const LINKS: u16 = 4;
pub const BFS: u16 = 8;
pub const WALK: u16 = 16;
pub const ITER: u16 = 32;
pub const HANDLES: u16 = 64;
pub const COPY: u16 = 128;
pub const COMPARE: u16 = 256;
pub const WRITE: u16 = 512;
pub const PLACE: u16 = 1024;
pub const ITER_RC: u16 = 2048;
pub const ALL: u16 = 4096;

fn some_pos(n: usize) -> usize {
    let l = [0, 255, 32768, 65535, n - 1];
    let k = l[pick(5)];
    if k < n {
        k
    } else {
        n - 1
    }
}
fn end(n: usize, gone: usize, extra: usize, extra_v: u32, k: usize) -> u32 {
    // the datum at position k after `gone` was removed (n: none) and a node was
    // inserted at `extra` (usize::MAX: none)
    let mut k = k;
    if extra != usize::MAX {
        if k == extra {
            return extra_v;
        }
        if k > extra {
            k -= 1;
        }
    }
    if gone < n && k >= gone {
        k += 1;
    }
    k as u32
}
fn at<'a>(t: &'a mut Tree<u32>, p: usize) -> Pin<&'a mut Node<u32>> {
    match t.iter_mut().nth(p) {
        Some(c) => c,
        None => {
            check(false, "a child that should be there was not reachable");
            panic!()
        }
    }
}
/// params: children, storage (0 scattered, 1 piled)
pub fn huge(lens: u16) {
    let n = param(0);
    let live0 = live();
    {
        let mut t = Tree::new(u32::MAX);
        let mut k = 0;
        while k < n {
            t.push_back(Tree::new(k as u32));
            k += 1;
        }
        if param(1) == 1 {
            t = Tree::from(t.into_bfs());
        }
        if lens & (ORDER | SIZE | LINKS) != 0 {
            operate(t, n, lens);
        } else if lens & BFS != 0 {
            let b = t.bfs();
            check_eq(b.size.degree as u64, 1, "the announced degree is wrong");
            check_eq(b.size.descendants as u64, n as u64, "the announced number of descendants is wrong");
            let mut it = b.iter;
            k = 0;
            while k <= n {
                match it.next() {
                    Some(v) => {
                        let d = if k == 0 { n } else { 0 };
                        check_eq(*v.data as u64, if k == 0 { u32::MAX as u64 } else { k as u64 - 1 }, "breadth-first iteration yields the wrong node");
                        check(v.size.degree == d && v.size.descendants == d, "a visit's size is wrong");
                    }
                    None => check(false, "breadth-first iteration ends early"),
                }
                k += 1;
            }
            check(it.next().is_none(), "breadth-first iteration goes on too long");
            drop(it);
            let c = t.clone();
            check(c == t, "a clone differs");
            check_eq(c.node_count() as u64, n as u64 + 1, "a clone has the wrong size");
        } else if lens & WALK != 0 {
            let p = some_pos(n);
            let q = some_pos(n);
            let mut w = TreeWalk::from(t);
            match w.to_child(p) {
                Some(v) => check_eq(*v.node().data() as u64, p as u64, "a jump reached the wrong node"),
                None => check(false, "a jump to an existing node failed"),
            }
            match w.to_sib(q) {
                Some(v) => check_eq(*v.node().data() as u64, (p + q) as u64, "a jump reached the wrong node"),
                None => check(p + q >= n, "a jump to an existing node failed"),
            }
            if p + q < n {
                match w.to_parent() {
                    Some(v) => check_eq(*v.node().data() as u64, u32::MAX as u64, "a jump reached the wrong node"),
                    None => check(false, "to_parent of a child failed"),
                }
            }
            let mut w = ForestWalk::from(Tree::from(w).abandon());
            match w.to_sib(q) {
                Some(v) => check_eq(*v.node().data() as u64, q as u64, "a jump reached the wrong node"),
                None => check(false, "a jump to an existing node failed"),
            }
            // to the end
            k = q;
            while k < n {
                match w.next() {
                    Some(v) => check_eq(*v.node().data() as u64, k as u64 + 1, "a walk visits the wrong node"),
                    None => check_eq(k as u64, n as u64 - 1, "a walk ends early"),
                }
                k += 1;
            }
        } else if lens & ITER == 0 {
            more(t, n, lens);
        } else {
            let p = some_pos(n);
            {
                let mut it = t.iter();
                check(it.len() == n && it.size_hint() == (n, Some(n)), "len() is not what is left");
                match it.nth(p) {
                    Some(c) => check_eq(*c.data() as u64, p as u64, "nth() yields the wrong node"),
                    None => check(false, "a child is missing"),
                }
                check_eq(it.len() as u64, (n - p - 1) as u64, "len() is not what is left");
            }
            {
                let mut it = t.iter_mut();
                check_eq(it.len() as u64, n as u64, "len() is not what is left");
                match it.nth(p) {
                    Some(mut c) => *c.data_mut() ^= 0,
                    None => check(false, "a child is missing"),
                }
                check_eq(it.len() as u64, (n - p - 1) as u64, "len() is not what is left");
                check_eq(it.count() as u64, (n - p - 1) as u64, "an iterator has the wrong number of items");
            }
            let mut it = t.abandon().into_iter();
            check_eq(it.len() as u64, n as u64, "len() is not what is left");
            match it.nth(p) {
                Some(c) => check_eq(*c.data() as u64, p as u64, "nth() yields the wrong node"),
                None => check(false, "a tree is missing"),
            }
            check_eq(it.len() as u64, (n - p - 1) as u64, "len() is not what is left");
        }
        cover("huge checked");
    }
    check(live() == live0, "heap memory was leaked");
}
fn operate(mut t: Tree<u32>, n: usize, lens: u16) {
    let v = u32::MAX - 1;
    let mut gone = n;
    let mut extra = usize::MAX;
    let mut piece = None;
    match pick(8) {
        0 => {
            t.push_front(Tree::new(v));
            extra = 0;
        }
        1 => {
            t.push_back(Tree::new(v));
            extra = n;
        }
        2 => {
            piece = t.pop_front();
            gone = 0;
        }
        3 => {
            piece = t.pop_back();
            gone = n - 1;
        }
        4 => {
            let p = some_pos(n);
            piece = Some(at(&mut t, p).detach());
            gone = p;
        }
        5 => {
            let p = some_pos(n);
            at(&mut t, p).insert_prev_sib(Tree::new(v));
            extra = p;
        }
        6 => {
            let p = some_pos(n);
            at(&mut t, p).insert_next_sib(Tree::new(v));
            extra = p + 1;
        }
        _ => {
            // the children as a forest and back, behind another one
            let mut f = Forest::new();
            f.push_back(Tree::new(v));
            f.append(t.abandon());
            check_eq(f.degree() as u64, n as u64 + 1, "a forest's degree is wrong");
            check_eq(f.node_count() as u64, n as u64 + 1, "a forest's node count is wrong");
            t.prepend(f);
            extra = 0;
        }
    }
    let len = n - (gone < n) as usize + (extra != usize::MAX) as usize;
    if gone < n {
        match &piece {
            Some(p) => {
                check_eq(*p.data() as u64, gone as u64, "the wrong node was removed");
                check(p.root().parent().is_none(), "parent() of a root is not None");
                check(p.has_no_child() && p.node_count() == 1, "a removed leaf has a size");
            }
            None => check(false, "nothing was removed"),
        }
    }
    if lens & SIZE != 0 {
        check_eq(t.degree() as u64, len as u64, "degree is wrong");
        check_eq(t.node_count() as u64, len as u64 + 1, "node count is wrong");
        check(!t.has_no_child(), "has_no_child is wrong");
        let mut u = Tree::new(v);
        u.push_back(Tree::new(v));
        u.push_back(t);
        check_eq(u.degree() as u64, 2, "degree is wrong");
        check_eq(u.node_count() as u64, len as u64 + 3, "node count is wrong");
        let t = u.pop_back().unwrap();
        check_eq(u.node_count() as u64, 2, "node count is wrong");
        check_eq(t.node_count() as u64, len as u64 + 1, "node count is wrong");
        return;
    }
    if lens & LINKS != 0 {
        match (t.front(), t.back()) {
            (Some(a), Some(b)) => {
                check_eq(*a.data() as u64, end(n, gone, extra, v, 0) as u64, "front() is not the first child");
                check_eq(*b.data() as u64, end(n, gone, extra, v, len - 1) as u64, "back() is not the last child");
            }
            _ => check(false, "front() or back() of a branch is None"),
        }
    }
    let mut k = 0;
    for c in t.iter() {
        if lens & ORDER != 0 {
            check_eq(*c.data() as u64, end(n, gone, extra, v, k) as u64, "wrong datum at a position");
        } else {
            check(c.parent().map_or(false, |p| std::ptr::eq(p, t.root())), "parent() is not the node that lists this child");
        }
        k += 1;
    }
    check_eq(k as u64, len as u64, "the number of children is wrong");
}

/// the children are 0, 1, .. but one may have another value
fn children(t: &Tree<u32>, n: usize, p: usize, v: u32) {
    check_eq(t.degree() as u64, n as u64, "the degree of a copy is wrong");
    check_eq(t.node_count() as u64, n as u64 + 1, "the node count of a copy is wrong");
    let mut k = 0;
    for c in t.iter() {
        check_eq(*c.data() as u64, if k == p { v } else { k as u32 } as u64, "wrong datum at a position");
        k += 1;
    }
    check_eq(k as u64, n as u64, "the number of children is wrong");
}
fn child_rc(r: &RcNode<u32>, p: usize) -> RcNode<u32> {
    match r.iter_rc().nth(p) {
        Some(c) => c,
        None => {
            check(false, "a child that should be there was not reachable");
            panic!()
        }
    }
}
fn more(mut t: Tree<u32>, n: usize, lens: u16) {
    let new = u32::MAX - 1;
    if lens & HANDLES != 0 {
        let p = some_pos(n);
        let r = RcNode::from(t);
        let c = child_rc(&r, p);
        check_eq(*c.data() as u64, p as u64, "a handle leads to the wrong node");
        let w = c.downgrade();
        match w.upgrade() {
            Some(c) => check_eq(*c.data() as u64, p as u64, "a weak handle was upgraded to the wrong node"),
            None => check(false, "a weak handle of a live node was not upgraded"),
        }
        match c.parent() {
            Some(q) => check_eq(*q.data() as u64, u32::MAX as u64, "parent() is wrong"),
            None => check(false, "parent() of a child is None"),
        }
        *c.data_mut() = new;
        match pick(4) {
            0 => {
                c.detach();
                check(c.is_root(), "a detached node has a parent");
                check_eq(r.degree() as u64, n as u64 - 1, "degree is wrong");
                check_eq(r.node_count() as u64, n as u64, "node count is wrong");
                let t = unsafe { c.into_tree() };
                check_eq(*t.data() as u64, new as u64, "a handle leads to the wrong node");
                drop(t);
            }
            1 => {
                c.insert_next_sib(Tree::new(5));
                check_eq(*child_rc(&r, p + 1).data() as u64, 5, "wrong datum at a position");
                check_eq(r.degree() as u64, n as u64 + 1, "degree is wrong");
                drop(r);
                check(c.is_root(), "a node outlives its parent but is no root");
                drop(c);
            }
            2 => {
                drop(r);
                check(c.is_root(), "a node outlives its parent but is no root");
                check_eq(*c.data() as u64, new as u64, "a handle leads to the wrong node");
                check(w.upgrade().is_some(), "a weak handle of a live node was not upgraded");
                drop(c);
            }
            _ => {
                drop(c);
                check(w.upgrade().is_some(), "a weak handle of a live node was not upgraded");
                drop(r);
            }
        }
        check(w.upgrade().is_none(), "a weak handle of a dead node was upgraded");
    } else if lens & COPY != 0 {
        let mut c = match pick(4) {
            0 => t.clone(),
            1 => t.deep_clone(),
            2 => {
                let mut c = Tree::new(*t.data());
                let f = t.abandon();
                c.append(f.clone());
                t.append(f);
                c
            }
            _ => {
                let c = Tree::from(t.into_bfs());
                t = Tree::new(0);
                c
            }
        };
        children(&c, n, n, 0);
        let p = some_pos(n);
        *at(&mut c, p).data_mut() = new;
        children(&c, n, p, new);
        if !t.has_no_child() {
            children(&t, n, n, 0);
        }
    } else if lens & COMPARE != 0 {
        let mut u = t.clone();
        check(t == u && !(t != u) && t.cmp(&u) == std::cmp::Ordering::Equal, "equal trees differ");
        let p = some_pos(n);
        *at(&mut u, p).data_mut() = new;
        check(t != u && t < u && u > t, "different trees are equal, or in the wrong order");
        let f = u.pop_back();
        if p == n - 1 {
            check(t > u, "a tree is not more than one it begins with");
        } else {
            check(t < u, "trees are in the wrong order");
        }
        drop(f);
    } else if lens & WRITE != 0 {
        let p = some_pos(n);
        match pick(3) {
            0 => *at(&mut t, p).data_mut() = new,
            1 => match t.bfs_mut().iter.nth(p + 1) {
                Some(v) => *v.data = new,
                None => check(false, "breadth-first iteration ends early"),
            },
            _ => {
                let r = RcNode::from(t);
                *child_rc(&r, p).data_mut() = new;
                t = unsafe { r.into_tree() };
            }
        }
        children(&t, n, p, new);
    } else if lens & PLACE != 0 {
        let c = match pick(2) {
            0 => t.clone(),
            _ => Tree::from(t.into_bfs()),
        };
        let root = c.root() as *const _ as usize;
        let mut d = 0;
        let mut last = root;
        for x in c.iter() {
            let a = x as *const _ as usize;
            if d == 0 {
                d = a - root;
            }
            check_eq((a - last) as u64, d as u64, "nodes built in one go are not side by side");
            last = a;
        }
        check(d < 256, "nodes built in one go are far apart");
    } else if lens & ITER_RC != 0 {
        let p = some_pos(n);
        let r = RcNode::from(t);
        let mut it = r.iter_rc();
        check(it.size_hint() == (n, Some(n)), "iter_rc announces a wrong number of nodes");
        match it.nth(p) {
            Some(c) => check_eq(*c.data() as u64, p as u64, "iter_rc visits the wrong node"),
            None => check(false, "iter_rc ends early"),
        }
        let left = n - p - 1;
        check(it.size_hint() == (left, Some(left)), "iter_rc announces a wrong number of nodes");
        let mut k = p;
        for c in it {
            k += 1;
            check_eq(*c.data() as u64, k as u64, "iter_rc visits the wrong node");
        }
        check_eq(k as u64, n as u64 - 1, "iter_rc ends early");
    } else {
        let mut w = TreeWalk::from(t);
        let mut k = 0;
        while k < n + 2 {
            match w.get() {
                Some(Visit::Begin(x)) => check(k == 0 && *x.data() == u32::MAX, "a walk visits the wrong node"),
                Some(Visit::End(x)) => check(k == n + 1 && *x.data() == u32::MAX, "a walk visits the wrong node"),
                Some(Visit::Leaf(x)) => check(k > 0 && k <= n && *x.data() as usize + 1 == k, "a walk visits the wrong node"),
                None => check(false, "a walk ends early"),
            }
            w.forward();
            k += 1;
        }
        check(w.get().is_none(), "a walk goes on after its end");
        let t = Tree::from(w);
        check_eq(t.node_count() as u64, n as u64 + 1, "a tree taken back from a walk has the wrong size");
    }
}
