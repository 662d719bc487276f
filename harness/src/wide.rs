//! Large nodes and long chains: one operation at an arbitrary position.
use crate::model::*;
use crate::rt::*;
use crate::world::*;
use std::pin::Pin;
use trees::{Forest, Node, Tree};

fn tok() -> Tok {
    Tok::new(any8())
}
enum Top {
    T(Tree<Tok>),
    F(Forest<Tok>),
}
impl Top {
    fn child(&mut self, p: usize) -> Pin<&mut Node<Tok>> {
        let c = match self {
            Top::T(t) => t.iter_mut().nth(p),
            Top::F(f) => f.iter_mut().nth(p),
        };
        match c {
            Some(c) => c,
            None => {
                check(false, "a child that should be there was not reachable");
                panic!()
            }
        }
    }
    fn pop(&mut self, back: bool) -> Option<Tree<Tok>> {
        match (self, back) {
            (Top::T(t), true) => t.pop_back(),
            (Top::T(t), false) => t.pop_front(),
            (Top::F(f), true) => f.pop_back(),
            (Top::F(f), false) => f.pop_front(),
        }
    }
    fn push(&mut self, back: bool, x: Tree<Tok>) {
        match (self, back) {
            (Top::T(t), true) => t.push_back(x),
            (Top::T(t), false) => t.push_front(x),
            (Top::F(f), true) => f.push_back(x),
            (Top::F(f), false) => f.push_front(x),
        }
    }
    fn splice(&mut self, back: bool, x: Forest<Tok>) {
        match (self, back) {
            (Top::T(t), true) => t.append(x),
            (Top::T(t), false) => t.prepend(x),
            (Top::F(f), true) => f.append(x),
            (Top::F(f), false) => f.prepend(x),
        }
    }
}

/// params: children, kind (0 tree, 1 forest), trees in the spliced forest
pub fn wide(lens: u8) {
    begin();
    let n = param(0);
    let is_forest = param(1) == 1;
    let extra = param(2);
    let piled = any_bool();
    {
        let mut ids: Vec<u16> = Vec::with_capacity(n + extra + 2);
        let mut below = 0; // nodes below the children
        let mut f = Forest::new();
        let mut k = 0;
        while k < n {
            let t = tok();
            ids.push(t.id);
            f.push_back(Tree::new(t));
            k += 1;
        }
        let mut top = if is_forest {
            Top::F(if piled { pile_forest(f) } else { f })
        } else {
            let mut t = Tree::new(tok());
            t.append(f);
            Top::T(if piled { pile(t) } else { t })
        };
        // addresses of the children before the operation
        let mut addr: Vec<usize> = Vec::with_capacity(n + extra + 2);
        if lens & ADDR != 0 {
            let mut it = match &top {
                Top::T(t) => t.iter(),
                Top::F(f) => f.iter(),
            };
            while let Some(c) = it.next() {
                addr.push(c as *const Node<Tok> as usize);
            }
        }
        let op = pick(10);
        let mut gone: Option<Tree<Tok>> = None;
        match op {
            0 => {
                let p = pos(n);
                gone = Some(top.child(p).detach());
                let id = ids.remove(p);
                if lens & ADDR != 0 {
                    addr.remove(p);
                }
                if lens & ORDER != 0 {
                    check_eq(gone.as_ref().unwrap().data().id as u64, id as u64, "the wrong subtree was detached");
                }
            }
            1 | 2 => {
                let p = pos(n);
                let x = tok();
                let id = x.id;
                let x = Tree::new(x);
                let a = x.root() as *const Node<Tok> as usize;
                if op == 1 {
                    top.child(p).insert_prev_sib(x);
                } else {
                    top.child(p).insert_next_sib(x);
                }
                ids.insert(p + op - 1, id);
                if lens & ADDR != 0 {
                    addr.insert(p + op - 1, a);
                }
            }
            3 | 4 => {
                let x = tok();
                let id = x.id;
                let x = Tree::new(x);
                let a = x.root() as *const Node<Tok> as usize;
                top.push(op == 4, x);
                let p = if op == 4 { ids.len() } else { 0 };
                ids.insert(p, id);
                if lens & ADDR != 0 {
                    addr.insert(p, a);
                }
            }
            5 | 6 => {
                gone = top.pop(op == 6);
                let p = if op == 6 { ids.len() - 1 } else { 0 };
                let id = ids.remove(p);
                if lens & ADDR != 0 {
                    addr.remove(p);
                }
                if lens & ORDER != 0 {
                    match &gone {
                        Some(g) => check_eq(g.data().id as u64, id as u64, "the wrong child was popped"),
                        None => check(false, "pop returned None although there are children"),
                    }
                }
            }
            7 | 8 => {
                let mut g = Forest::new();
                let mut k = 0;
                while k < extra {
                    let x = tok();
                    let p = if op == 8 { ids.len() } else { k };
                    ids.insert(p, x.id);
                    let x = Tree::new(x);
                    if lens & ADDR != 0 {
                        addr.insert(p, x.root() as *const Node<Tok> as usize);
                    }
                    g.push_back(x);
                    k += 1;
                }
                top.splice(op == 8, g);
            }
            _ => {
                let p = pos(n);
                top.child(p).push_back(Tree::new(tok()));
                below = 1;
            }
        }
        // check
        let (len, cnt, front, back, root) = match &top {
            Top::T(t) => (t.degree(), t.node_count() - 1, t.front(), t.back(), t.root() as *const Node<Tok>),
            Top::F(f) => (f.degree(), f.node_count(), f.front(), f.back(), std::ptr::null()),
        };
        if lens & SIZE != 0 {
            check_eq(len as u64, ids.len() as u64, "degree is wrong");
            check_eq(cnt as u64, (ids.len() + below) as u64, "node count is wrong");
            if let Some(g) = &gone {
                check_eq(g.node_count() as u64, 1, "node count of a removed tree is wrong");
            }
        }
        let mut it = match &top {
            Top::T(t) => t.iter(),
            Top::F(f) => f.iter(),
        };
        let mut last = std::ptr::null();
        let mut k = 0;
        while k < ids.len() {
            match it.next() {
                Some(c) => {
                    if lens & ORDER != 0 {
                        check_eq(c.data().id as u64, ids[k] as u64, "wrong datum at a position");
                    }
                    if lens & ADDR != 0 {
                        check_eq(c as *const Node<Tok> as u64, addr[k] as u64, "a node has moved in memory");
                    }
                    if lens & LINKS != 0 {
                        match c.parent() {
                            Some(p) => check(std::ptr::eq(p, root), "parent() is not the node that lists this child"),
                            None => check(root.is_null(), "parent() of a child is None"),
                        }
                        if k == 0 {
                            check(front.map_or(false, |f| std::ptr::eq(f, c)), "front() is not the first child");
                        }
                    }
                    last = c as *const Node<Tok>;
                }
                None => check(false, "a child is missing"),
            }
            k += 1;
        }
        check(it.next().is_none(), "an extra child is present");
        if lens & LINKS != 0 {
            check(back.map_or(false, |b| std::ptr::eq(b, last)), "back() is not the last child");
            if let Some(g) = &gone {
                check(g.root().parent().is_none(), "a removed tree still has a parent");
            }
        }
        cover("wide checked");
        // take everything apart
        if lens & (ORDER | OWN) != 0 && any_bool() {
            let back = any_bool();
            while let Some(c) = top.pop(back) {
                if ids.len() == 0 {
                    check(false, "popped more children than there are");
                    break;
                }
                let id = if back { ids.pop().unwrap() } else { ids.remove(0) };
                check_eq(c.data().id as u64, id as u64, "wrong datum at a position");
            }
            check(ids.len() == 0, "pop returned None although children are left");
        } else if any_bool() {
            drop(gone.take());
        }
        drop(top);
    }
    end();
}

/// params: depth of the chain
pub fn deep(lens: u8) {
    begin();
    let d = param(0);
    let piled = any_bool();
    {
        // ids[k] is the datum at level k
        let mut ids: Vec<u16> = Vec::with_capacity(d + 1);
        let mut addr: Vec<usize> = Vec::with_capacity(d + 1);
        let x = tok();
        ids.push(x.id);
        let mut t = Tree::new(x);
        let mut k = 1;
        while k < d {
            let x = tok();
            ids.push(x.id);
            let mut p = Tree::new(x);
            p.push_back(t);
            t = p;
            k += 1;
        }
        ids.reverse();
        if piled {
            t = pile(t);
        }
        {
            let mut n = t.root();
            addr.push(n as *const Node<Tok> as usize);
            while let Some(c) = n.front() {
                n = c;
                addr.push(n as *const Node<Tok> as usize);
            }
        }
        let l = pos(d);
        let op = pick(if l == 0 { 5 } else { 8 });
        let mut gone = None;
        // (levels 0..=upto get `delta` more nodes; the chain goes on to level `len`)
        let (mut upto, mut delta, mut len) = (l, 0isize, d);
        let mut front_extra = false; // an extra child precedes the chain at level l+1 (or l)
        let mut at_sib = false;
        {
            let mut n: Pin<&mut Node<Tok>> = t.root_mut();
            let mut k = 0;
            while k < l {
                n = match unsafe { Pin::get_unchecked_mut(n) }.front_mut() {
                    Some(c) => c,
                    None => {
                        check(false, "a level of the chain is missing");
                        panic!()
                    }
                };
                k += 1;
            }
            match op {
                0 => {
                    n.push_front(Tree::new(tok()));
                    delta = 1;
                    front_extra = l + 1 < d;
                    if l + 1 == d {
                        len = d; // the new leaf is not part of the chain
                    }
                }
                1 => {
                    n.push_back(Tree::new(tok()));
                    delta = 1;
                }
                2 | 3 => {
                    gone = if op == 2 { n.pop_front() } else { n.pop_back() };
                    delta = -((d - 1 - l) as isize);
                    len = l + 1;
                    check(gone.is_some() == (l + 1 < d), "pop returned the wrong thing");
                }
                4 => {
                    let mut f = Forest::new();
                    f.push_back(Tree::new(tok()));
                    f.push_back(Tree::new(tok()));
                    n.append(f);
                    delta = 2;
                }
                5 => {
                    gone = Some(n.detach());
                    upto = l - 1;
                    delta = -((d - l) as isize);
                    len = l;
                }
                6 => {
                    n.insert_prev_sib(Tree::new(tok()));
                    upto = l - 1;
                    delta = 1;
                    front_extra = true;
                    at_sib = true;
                }
                _ => {
                    n.insert_next_sib(Tree::new(tok()));
                    upto = l - 1;
                    delta = 1;
                }
            }
        }
        // walk down the chain
        let mut n = t.root();
        let mut k = 0;
        loop {
            if lens & ORDER != 0 {
                check_eq(n.data().id as u64, ids[k] as u64, "wrong datum at a level");
            }
            if lens & ADDR != 0 {
                check_eq(n as *const Node<Tok> as u64, addr[k] as u64, "a node has moved in memory");
            }
            if lens & SIZE != 0 {
                let c = (d - k) as isize + if k <= upto { delta } else { 0 };
                check_eq(n.node_count() as u64, c as u64, "node count of an ancestor is wrong");
            }
            if k + 1 == len {
                break;
            }
            let step_over = front_extra && if at_sib { k + 1 == l } else { k == l };
            let mut it = n.iter();
            let mut c = it.next();
            if step_over {
                c = it.next();
            }
            match c {
                Some(c) => {
                    if lens & LINKS != 0 {
                        check(c.parent().map_or(false, |p| std::ptr::eq(p, n)), "parent() is not the node that lists this child");
                    }
                    n = c;
                }
                None => {
                    check(false, "a level of the chain is missing");
                    break;
                }
            }
            k += 1;
        }
        if let Some(g) = &gone {
            let first = if op == 5 { l } else { l + 1 };
            if lens & ORDER != 0 {
                check_eq(g.data().id as u64, ids[first] as u64, "the wrong subtree was removed");
            }
            if lens & SIZE != 0 {
                check_eq(g.node_count() as u64, (d - first) as u64, "node count of a removed subtree is wrong");
            }
            if lens & LINKS != 0 {
                check(g.root().parent().is_none(), "a removed tree still has a parent");
            }
        }
        cover("deep checked");
        if any_bool() {
            drop(gone.take());
        }
        drop(t);
    }
    end();
}
