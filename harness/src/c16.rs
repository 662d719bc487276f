//! RcNode: dynamic borrowing.
use crate::model::*;
use crate::rcworld::*;
use crate::rt::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use trees::{Forest, RcNode, Tree};

fn piece() -> (Tree<Tok>, u16) {
    let x = Tok::new(any8());
    let id = x.id;
    let t = Tree::new(x);
    (if any_bool() { pile(t) } else { t }, id)
}
/// the node of `x` again, on another way than through `h`
fn again(root: &RcNode<Tok>, h: &RcNode<Tok>, p: &Path) -> RcNode<Tok> {
    match pick(3) {
        0 => h.clone(),
        1 => at_rc(root, p),
        _ => match h.downgrade().upgrade() {
            Some(x) => x,
            None => {
                check(false, "a weak handle of a live node was not upgraded");
                panic!()
            }
        },
    }
}
fn start(n: usize) -> (M, u8, RcNode<Tok>, u8, RcNode<Tok>, Path) {
    let mut m = M::new();
    let r = any_shape_upto(&mut m, n);
    fill(&mut m, r);
    let t = build(&mut m, r, st(pick(3)));
    let root = RcNode::from(t);
    let l = m.preorder(r);
    let x = l.k[pick(l.n)];
    let p = m.path(r, x);
    let h = at_rc(&root, &p);
    (m, r, root, x, h, p)
}
/// everything that reads a node; false if it panicked
fn read(a: &RcNode<Tok>, m: &M, x: u8, op: usize) -> bool {
    !catch(|| match op {
        0 => check_eq(a.data().id as u64, m.id[x as usize] as u64, "data() is wrong while the node is being read"),
        1 => check_eq(a.degree() as u64, m.deg(x) as u64, "degree() is wrong while the node is being read"),
        2 => check_eq(a.node_count() as u64, m.count(x) as u64, "node_count() is wrong while the node is being read"),
        3 => check(a.has_no_child() == (m.deg(x) == 0), "has_no_child() is wrong while the node is being read"),
        4 => check(a.is_root() == (m.parent(x) == NONE), "is_root() is wrong while the node is being read"),
        5 => check(a.front().is_some() == (m.deg(x) > 0), "front() is wrong while the node is being read"),
        6 => check(a.back().is_some() == (m.deg(x) > 0), "back() is wrong while the node is being read"),
        7 => check(a.parent().is_some() == (m.parent(x) != NONE), "parent() is wrong while the node is being read"),
        8 => check_eq(a.iter_rc().count() as u64, m.deg(x) as u64, "iter_rc() is wrong while the node is being read"),
        9 => drop(a.deep_clone()),
        11 => {
            let n = unsafe { a.node() };
            check_eq(n.data().id as u64, m.id[x as usize] as u64, "node() is wrong while the node is being read");
            check_eq(n.degree() as u64, m.deg(x) as u64, "node() is wrong while the node is being read");
        }
        _ => check(*a == *a, "a node is not equal to itself while it is being read"),
    })
}
/// everything that changes a node; false if it panicked.  `skip`: not applicable
fn write(a: &RcNode<Tok>, m: &mut M, x: u8, op: usize, given: &mut [u16; 2], commit: bool) -> Option<bool> {
    let branch = m.deg(x) > 0;
    let child = m.parent(x) != NONE;
    let mut f = |t: (Tree<Tok>, u16), k: usize| {
        given[k] = t.1;
        t.0
    };
    let ok = match op {
        0 => !catch(|| a.data_mut().v ^= 0),
        1 => {
            let t = f(piece(), 0);
            !catch(|| a.push_front(t))
        }
        2 => {
            let t = f(piece(), 0);
            !catch(|| a.push_back(t))
        }
        3 | 4 if branch => {
            let mut got = None;
            let ok = !catch(|| got = if op == 3 { a.pop_front() } else { a.pop_back() });
            check(got.is_some() == ok, "pop is wrong");
            ok
        }
        5 | 6 => {
            let mut g = Forest::new();
            g.push_back(f(piece(), 0));
            g.push_back(f(piece(), 1));
            if op == 5 {
                !catch(|| a.append(g))
            } else {
                !catch(|| a.prepend(g))
            }
        }
        7 if child => {
            let t = f(piece(), 0);
            !catch(|| a.insert_prev_sib(t))
        }
        8 if child => {
            let t = f(piece(), 0);
            !catch(|| a.insert_next_sib(t))
        }
        9 if child => !catch(|| a.detach()),
        10 => {
            let (t, u) = (f(piece(), 0), f(piece(), 1));
            let mut b = a.clone();
            !catch(|| b.extend([t, u]))
        }
        11 => !catch(|| unsafe { a.node_mut() }.data_mut().v ^= 0),
        _ => return None,
    };
    if ok && commit {
        let mut put = |m: &mut M, p: u8, pos: usize, k: usize| {
            let c = m.node(0);
            m.id[c as usize] = given[k];
            m.insert(p, pos, c);
        };
        match op {
            1 => put(m, x, 0, 0),
            2 => {
                let n = m.deg(x);
                put(m, x, n, 0)
            }
            3 => {
                let c = m.child(x, 0);
                m.detach(c)
            }
            4 => {
                let c = m.child(x, m.deg(x) - 1);
                m.detach(c)
            }
            5 | 10 => {
                let n = m.deg(x);
                put(m, x, n, 0);
                put(m, x, n + 1, 1)
            }
            6 => {
                put(m, x, 0, 0);
                put(m, x, 1, 1)
            }
            7 => {
                let (p, i) = (m.parent(x), m.index(x));
                put(m, p, i, 0)
            }
            8 => {
                let (p, i) = (m.parent(x), m.index(x));
                put(m, p, i + 1, 0)
            }
            9 => m.detach(x),
            _ => {}
        }
    }
    Some(ok)
}
/// ids and order only (values of new nodes are not in the model)
fn ids(r: &RcNode<Tok>, m: &M, i: u8) {
    check_eq(r.data().id as u64, m.id[i as usize] as u64, "wrong datum at a position");
    check_eq(r.degree() as u64, m.deg(i) as u64, "degree is wrong");
    check_eq(r.node_count() as u64, m.count(i) as u64, "node count is wrong");
    let mut it = r.iter_rc();
    let mut k = 0;
    while k < m.deg(i) {
        match it.next() {
            Some(c) => ids(&c, m, m.child(i, k)),
            None => check(false, "a child is missing"),
        }
        k += 1;
    }
    check(it.next().is_none(), "an extra child is present");
}
/// conflicting access to the same node. params: nodes (up to)
fn conflict() {
    begin();
    {
        let (mut m, r, root, x, h, p) = start(param(0));
        let a = again(&root, &h, &p);
        let mut given = [u16::MAX; 2];
        let kind = pick(5);
        let writing = any_bool();
        let op = pick(12);
        let val = any8();
        let done;
        {
            if kind == 2 {
                let mut g = h.data_mut();
                let old = g.v;
                done = if writing { write(&a, &mut m, x, op, &mut given, false) } else { Some(read(&a, &m, x, op)) };
                check(done != Some(true), "a node was accessed while it was being changed");
                check_eq(g.v as u64, old as u64, "a datum changed under an exclusive borrow");
                g.v = val;
                m.v[x as usize] = val;
                cover("access during a mutable borrow");
            } else if kind == 3 {
                let mut g = unsafe { h.node_mut() };
                let old = g.data().v;
                let deg = g.degree();
                done = if writing { write(&a, &mut m, x, op, &mut given, false) } else { Some(read(&a, &m, x, op)) };
                check(done != Some(true), "a node was accessed while it was being changed");
                check_eq(g.data().v as u64, old as u64, "a datum changed under an exclusive borrow");
                check_eq(g.degree() as u64, deg as u64, "children changed under an exclusive borrow");
                g.data_mut().v = val;
                m.v[x as usize] = val;
                cover("access during a mutable borrow of the node");
            } else if kind == 4 {
                let g = unsafe { h.node() };
                let old = g.data().v;
                let deg = g.degree();
                done = if writing { write(&a, &mut m, x, op, &mut given, false) } else { Some(read(&a, &m, x, op)) };
                if writing {
                    check(done != Some(true), "a node was changed while it was being read");
                } else {
                    check(done == Some(true), "a node could not be read while it was being read");
                }
                check_eq(g.data().v as u64, old as u64, "a datum changed under a shared borrow");
                check_eq(g.degree() as u64, deg as u64, "children changed under a shared borrow");
                cover("access during a shared borrow of the node");
            } else {
                let g = h.data();
                let g2 = if kind == 1 { Some(a.data()) } else { None };
                let old = g.v;
                done = if writing { write(&a, &mut m, x, op, &mut given, false) } else { Some(read(&a, &m, x, op)) };
                if writing {
                    check(done != Some(true), "a node was changed while it was being read");
                    cover("change during a shared borrow");
                } else {
                    check(done == Some(true), "a node could not be read while it was being read");
                    cover("read during a shared borrow");
                }
                check_eq(g.v as u64, old as u64, "a datum changed under a shared borrow");
                if let Some(g2) = &g2 {
                    check_eq(g2.id as u64, g.id as u64, "two borrows of a node see different data");
                }
            }
        }
        // an operand that was not used is gone
        let mut k = 0;
        while k < 2 {
            if given[k] != u16::MAX {
                check(!alive(given[k]), "the operand of a refused operation survived");
            }
            k += 1;
        }
        // nothing else happened
        same_rc(&root, &m, r);
        // and the node works as before
        if writing {
            let again = write(&a, &mut m, x, op, &mut given, true);
            check(again != Some(false), "a node stays borrowed after its borrow ended");
            if done.is_some() {
                cover("done after the borrow ended");
            }
        } else {
            check(read(&a, &m, x, op), "a node stays borrowed after its borrow ended");
        }
        ids(&root, &m, r);
    }
    end();
}
/// access to other nodes is not refused. params: nodes (up to)
fn elsewhere() {
    begin();
    {
        let (mut m, r, root, x, h, _) = start(param(0));
        let l = m.preorder(r);
        let y = l.k[pick(l.n)];
        if y != x {
            let q = m.path(r, y);
            let b = at_rc(&root, &q);
            let kind = any_bool();
            let writing = any_bool();
            let op = pick(12);
            let mut given = [u16::MAX; 2];
            let ok = if kind {
                let g = h.data_mut();
                let old = g.v;
                // a deep operation would reach the node that is being changed
                let deep = !writing && (op == 9 || op == 10);
                let ok = if writing {
                    write(&b, &mut m, y, op, &mut given, true)
                } else if deep {
                    None
                } else {
                    Some(read(&b, &m, y, op))
                };
                check_eq(g.v as u64, old as u64, "a datum changed under an exclusive borrow");
                ok
            } else {
                let g = h.data();
                let old = g.v;
                let ok = if writing { write(&b, &mut m, y, op, &mut given, true) } else { Some(read(&b, &m, y, op)) };
                check_eq(g.v as u64, old as u64, "a datum changed under a shared borrow");
                ok
            };
            check(ok != Some(false), "a borrow of one node blocks another node");
            check_eq(h.data().id as u64, m.id[x as usize] as u64, "a handle leads to the wrong node");
            ids(&root, &m, r);
            cover("another node accessed during a borrow");
        }
    }
    end();
}
/// everything that reads a node and all below it; false if it panicked
fn read_all(a: &RcNode<Tok>, b: &RcNode<Tok>, op: usize) -> bool {
    !catch(|| match op {
        0 => drop(a.deep_clone()),
        1 => check(*a == *b, "a node is not equal to itself"),
        2 => check(!(*b != *a), "a node is unequal to itself"),
        3 => check(a.cmp(b) == std::cmp::Ordering::Equal, "a node does not compare equal to itself"),
        4 => check(a.partial_cmp(b) == Some(std::cmp::Ordering::Equal), "a node does not compare equal to itself"),
        5 => a.hash(&mut Null),
        6 => check(write!(Null, "{}", a).is_ok(), "formatting failed"),
        _ => check(write!(Null, "{:?}", a).is_ok(), "formatting failed"),
    })
}
/// takes everything
struct Null;
impl Hasher for Null {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
/// what reads a whole tree is refused exactly if one of its nodes is being changed.
/// params: nodes (up to)
fn whole() {
    begin();
    {
        let (mut m, r, root, x, h, _) = start(param(0));
        let l = m.preorder(r);
        let y = l.k[pick(l.n)];
        let q = m.path(r, y);
        let b = at_rc(&root, &q);
        let b2 = b.clone();
        let op = pick(8);
        let below = {
            let l = m.preorder(y);
            let mut k = 0;
            while k < l.n && l.k[k] != x {
                k += 1;
            }
            k < l.n
        };
        match pick(4) {
            0 => {
                let mut g = h.data_mut();
                let old = g.v;
                let ok = read_all(&b, &b2, op);
                check(ok != below, "a whole tree was read while one of its nodes was being changed, or refused although none was");
                check_eq(g.v as u64, old as u64, "a datum changed under an exclusive borrow");
                let v = any8();
                g.v = v;
                m.v[x as usize] = v;
                cover("a whole tree read during a mutable borrow");
            }
            1 => {
                let g = unsafe { h.node_mut() };
                let ok = read_all(&b, &b2, op);
                check(ok != below, "a whole tree was read while one of its nodes was being changed, or refused although none was");
                check_eq(g.degree() as u64, m.deg(x) as u64, "degree is wrong");
            }
            2 => {
                let g = h.data();
                check(read_all(&b, &b2, op), "a whole tree could not be read while one of its nodes was being read");
                check_eq(g.v as u64, m.v[x as usize] as u64, "a datum changed under a shared borrow");
                cover("a whole tree read during a shared borrow");
            }
            _ => {
                let g = unsafe { h.node() };
                check(read_all(&b, &b2, op), "a whole tree could not be read while one of its nodes was being read");
                check_eq(g.degree() as u64, m.deg(x) as u64, "degree is wrong");
            }
        }
        same_rc(&root, &m, r);
        check(read_all(&root, &root.clone(), op), "a node stays borrowed after its borrow ended");
        check(!catch(|| h.data_mut().v ^= 0), "a node stays borrowed after its borrow ended");
        check(!catch(|| b.data_mut().v ^= 0), "a node stays borrowed after its borrow ended");
    }
    end();
}
crate::harnesses! {
    c16_whole => whole,
    c16_conflict => conflict,
    c16_elsewhere => elsewhere,
}
