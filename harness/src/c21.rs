//! Walks in two threads.  Parts of what was once one tree are independent: what
//! two threads do with different parts has no data race and works as in one
//! thread; two threads may read the same walk at once.
use crate::model::*;
use crate::rt::*;
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

/// what a thread owns
enum Part {
    T(TreeWalk<Tok>),
    F(ForestWalk<Tok>),
    Nothing,
}
fn walked<'a>(get: impl Fn() -> Option<Visit<'a, Tok>>, m: &M, l: &List, k: usize) {
    match get() {
        Some(v) => check_eq(v.node().data().id as u64, m.id[l.k[k] as usize] as u64, "a walk visits the wrong node"),
        None => check(false, "a walk ends too early"),
    }
}
const HOWS: usize = 9;
/// what a thread does with its part; `extra` is put into it
fn act(x: Part, mut m: M, r: u8, how: usize, extra: Tree<Tok>, e: u8) {
    match x {
        Part::T(mut w) => {
            match how {
                0 => drop(w),
                1 => {
                    // from the first visit of every node to the end
                    let l = m.preorder(r);
                    let mut k = 0;
                    while let Some(v) = w.get() {
                        let new = !matches!(v, Visit::End(_));
                        if new {
                            check(k < l.n, "a walk visits too many nodes");
                            check_eq(v.node().data().id as u64, m.id[l.k[k] as usize] as u64, "a walk visits the wrong node");
                            k += 1;
                        }
                        w.forward();
                    }
                    check_eq(k as u64, l.n as u64, "a walk visits too few nodes");
                    drop(w);
                }
                _ => {
                    let mut t = Tree::from(w);
                    match how {
                        2 => {
                            t.push_back(extra);
                            m.push_back(r, e);
                            same(t.root(), &m, r);
                            sizes(t.root(), &m, r);
                            links_tree(&t, &m, r);
                            return drop(t);
                        }
                        3 => drain(t, &mut m, r, false),
                        4 => {
                            // handles on the children survive the root
                            let h = RcNode::from(t);
                            let (a, b) = (h.front(), h.back());
                            drop(h);
                            if let (Some(a), Some(b)) = (a, b) {
                                check_eq(a.data().id as u64, m.id[m.child(r, 0) as usize] as u64, "a handle shows the wrong node");
                                drop(a);
                                check_eq(b.data().id as u64, m.id[m.child(r, m.deg(r) - 1) as usize] as u64, "a handle shows the wrong node");
                            }
                        }
                        5 => {
                            // data leave one by one, the rest is dropped
                            let mut it = t.into_bfs().iter;
                            let v = it.next();
                            check_eq(v.unwrap().data.id as u64, m.id[r as usize] as u64, "a breadth-first iterator gives the wrong datum first");
                        }
                        6 => {
                            let t = pile(t);
                            same(t.root(), &m, r);
                            links_tree(&t, &m, r);
                        }
                        7 => {
                            let mut f = t.abandon();
                            drop(t);
                            drop(f.pop_front());
                            f.push_front(extra);
                            return drop(f);
                        }
                        _ => {
                            let mut w = TreeWalk::from(t);
                            w.forward();
                            let mut f = Forest::new();
                            f.push_back(Tree::from(w));
                            let mut w = ForestWalk::from(f);
                            w.next();
                            drop(w);
                        }
                    }
                }
            }
        }
        Part::F(mut w) => {
            match how {
                0 => drop(w),
                1 => {
                    let l = m.preorder(r);
                    let mut k = 1;
                    while let Some(v) = w.get() {
                        let new = !matches!(v, Visit::End(_));
                        if new {
                            check(k < l.n, "a walk visits too many nodes");
                            check_eq(v.node().data().id as u64, m.id[l.k[k] as usize] as u64, "a walk visits the wrong node");
                            k += 1;
                        }
                        w.forward();
                    }
                    check_eq(k as u64, l.n as u64, "a walk visits too few nodes");
                    drop(w);
                }
                _ => {
                    let mut f = Forest::from(w);
                    match how {
                        2 => {
                            f.push_back(extra);
                            m.push_back(r, e);
                            same_forest(&f, &m, r);
                            sizes_forest(&f, &m, r);
                            links_forest(&f, &m, r);
                            return drop(f);
                        }
                        3 => drain_forest(f, &mut m, r, true),
                        4 => {
                            let mut it = f.into_iter();
                            let a = it.next();
                            drop(it);
                            drop(a);
                        }
                        5 => {
                            let mut it = f.into_bfs().iter;
                            it.next();
                        }
                        6 => {
                            let f = pile_forest(f);
                            same_forest(&f, &m, r);
                            links_forest(&f, &m, r);
                        }
                        7 => {
                            let mut t = extra;
                            t.append(f);
                            return drop(t);
                        }
                        _ => {
                            drop(f.pop_back());
                            drop(ForestWalk::from(f));
                        }
                    }
                }
            }
        }
        Part::Nothing => {}
    }
    drop(extra)
}
fn leaf(m: &mut M) -> (Tree<Tok>, u8) {
    let d = Tok::new(any8());
    let e = m.node(d.v);
    m.id[e as usize] = d.id;
    (Tree::new(d), e)
}
/// Two parts of one former tree in two threads, a third one kept.
/// params: nodes (up to), 1: every pair of uses (else: one of them drops its part)
fn parts() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let mut t = build(&mut m, r, st(pick(3)));
        // a part below the root, then another one, then the rest
        let l = m.preorder(r);
        let mut third = Part::Nothing;
        let first;
        let mut x = r;
        if l.n == 1 {
            first = Part::Nothing;
        } else {
            x = l.k[1 + pick(l.n - 1)];
            let p = m.path(r, x);
            first = Part::T(TreeWalk::from(at_mut(t.root_mut(), &p).detach()));
            m.detach(x);
        }
        let l = m.preorder(r);
        let y = l.k[pick(l.n)];
        let mut z = r;
        let second = if y == r {
            if m.deg(r) > 0 && any_bool() {
                // the children of the root, without the root
                let f = t.abandon();
                z = m.node(0);
                while m.deg(r) > 0 {
                    let c = m.child(r, 0);
                    m.detach(c);
                    m.push_back(z, c);
                }
                third = Part::T(TreeWalk::from(t));
                cover("a forest in a thread");
                Part::F(ForestWalk::from(f))
            } else {
                Part::T(TreeWalk::from(t))
            }
        } else {
            let p = m.path(r, y);
            let c = at_mut(t.root_mut(), &p).detach();
            m.detach(y);
            third = Part::T(TreeWalk::from(t));
            z = y;
            cover("three parts");
            Part::T(TreeWalk::from(c))
        };
        let (ha, hb) = if param(1) == 1 {
            (pick(HOWS), pick(HOWS))
        } else {
            let k = pick(HOWS);
            if any_bool() {
                (k, 0)
            } else {
                (0, k)
            }
        };
        let (ea, na) = leaf(&mut m);
        let (eb, nb) = leaf(&mut m);
        let (ea, eb) = (TreeWalk::from(ea), TreeWalk::from(eb));
        let (ma, mb) = (m, m);
        par(move || act(first, ma, x, ha, Tree::from(ea), na), move || act(second, mb, z, hb, Tree::from(eb), nb));
        // the third part is still whole
        if let Part::T(w) = third {
            let t = Tree::from(w);
            same(t.root(), &m, r);
            links_tree(&t, &m, r);
        }
        cover("both threads done");
    }
    end();
}

fn read(n: &Node<Tok>, m: &M, r: u8) {
    same(n, m, r);
    sizes(n, m, r);
    let mut s = 0;
    for v in n.bfs_children().iter {
        s += v.data.v as u64;
    }
    observe(s);
    check(n.parent().is_none(), "a root has a parent");
    check(n.front().map(|c| c.data().id) == n.iter().next().map(|c| c.data().id), "the front child is not the first one");
}
fn look(x: &ForestWalk<Tok>, m: &M, r: u8) {
    match x.get() {
        Some(v) => {
            same(v.node(), m, m.child(r, 0));
            check(x.get_parent().is_none(), "a tree of a forest has a parent");
        }
        None => check(m.deg(r) == 0, "a forest has no first tree"),
    }
}
/// One walk read by two threads. params: nodes (up to)
fn readers() {
    begin();
    {
        let mut m = M::new();
        let r = any_shape_upto(&mut m, param(0));
        fill(&mut m, r);
        let t = build(&mut m, r, st(pick(3)));
        let w = Box::new(TreeWalk::from(t));
        let f = any_bool();
        let (ma, mb) = (m, m);
        if f {
            // through the forest of its children
            let mut t = Tree::from(*w);
            let fw = Box::new(ForestWalk::from(t.abandon()));
            let x = &*fw;
            par(move || look(x, &ma, r), move || look(x, &mb, r));
            let f = Forest::from(*fw);
            same_forest(&f, &m, r);
            cover("a forest read by two threads");
        } else {
            let x = &*w;
            par(
                move || {
                    read(x.get().unwrap().node(), &ma, r);
                    check(x.get_parent().is_none(), "a root has a parent");
                },
                move || read(x.get().unwrap().node(), &mb, r),
            );
            let t = Tree::from(*w);
            same(t.root(), &m, r);
            links_tree(&t, &m, r);
            cover("a tree read by two threads");
        }
    }
    end();
}
/// What the compiler lets a thread have: 1 if values of the type may be sent,
/// 1 if references to them may.
struct Has<T>(std::marker::PhantomData<T>);
trait HasNot {
    const SEND: bool = false;
}
trait HasNotSync {
    const SYNC: bool = false;
}
impl<T> HasNot for Has<T> {}
impl<T> HasNotSync for Has<T> {}
#[allow(dead_code)]
impl<T: Send> Has<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> Has<T> {
    const SYNC: bool = true;
}
/// a datum that must stay in its thread, together with the others that share its cell
#[derive(Clone)]
struct Own(std::rc::Rc<std::cell::Cell<u64>>);
impl Own {
    fn touch(&self) {
        self.0.set(self.0.get() + 1)
    }
}
type Cel = std::cell::Cell<u64>;
fn bump(c: &Cel) {
    c.set(c.get() + 1)
}
fn own_tree(o: &Own) -> Tree<Own> {
    let mut t = Tree::new(o.clone());
    t.push_back(Tree::new(o.clone()));
    t
}
fn cel_tree() -> Tree<Cel> {
    let mut t = Tree::new(Cel::new(1));
    t.push_back(Tree::new(Cel::new(2)));
    t
}
/// Whatever the compiler lets two threads have, they can use at once: a datum
/// that must not be sent or shared keeps what holds it from being sent or shared.
fn whose() {
    begin();
    {
        let o = Own(std::rc::Rc::new(Cel::new(0)));
        let (p, q) = (own_tree(&o), own_tree(&o));
        match pick(12) {
            0 if Has::<TreeWalk<Own>>::SEND => {
                let (p, q) = (TreeWalk::from(p), TreeWalk::from(q));
                par(move || p.get().unwrap().node().data().touch(), move || q.get().unwrap().node().data().touch());
            }
            1 if Has::<ForestWalk<Own>>::SEND => {
                let (mut f, mut g) = (Forest::new(), Forest::new());
                f.push_back(p);
                g.push_back(q);
                let (f, g) = (ForestWalk::from(f), ForestWalk::from(g));
                par(move || f.get().unwrap().node().data().touch(), move || g.get().unwrap().node().data().touch());
            }
            2 if Has::<Tree<Own>>::SEND => par(move || p.root().data().touch(), move || q.root().data().touch()),
            3 if Has::<Forest<Own>>::SEND => {
                let (mut p, mut q) = (p, q);
                let (f, g) = (p.abandon(), q.abandon());
                par(move || f.front().unwrap().data().touch(), move || g.front().unwrap().data().touch());
            }
            4 if Has::<trees::IntoIter<Own>>::SEND => {
                let (mut p, mut q) = (p, q);
                let (mut f, mut g) = (p.abandon().into_iter(), q.abandon().into_iter());
                par(move || f.next().unwrap().root().data().touch(), move || g.next().unwrap().root().data().touch());
            }
            5 if Has::<TreeWalk<Cel>>::SYNC => {
                let w = Box::new(TreeWalk::from(cel_tree()));
                let x = &*w;
                par(move || bump(x.get().unwrap().node().data()), move || bump(x.get().unwrap().node().data()));
            }
            6 if Has::<ForestWalk<Cel>>::SYNC => {
                let mut f = Forest::new();
                f.push_back(cel_tree());
                let w = Box::new(ForestWalk::from(f));
                let x = &*w;
                par(move || bump(x.get().unwrap().node().data()), move || bump(x.get().unwrap().node().data()));
            }
            7 if Has::<Tree<Cel>>::SYNC || Has::<Node<Cel>>::SYNC => {
                let t = Box::new(cel_tree());
                let x = &*t;
                par(move || bump(x.root().data()), move || bump(x.root().data()));
            }
            8 if Has::<Forest<Cel>>::SYNC => {
                let mut f = Forest::new();
                f.push_back(cel_tree());
                let f = Box::new(f);
                let x = &*f;
                par(move || bump(x.front().unwrap().data()), move || bump(x.front().unwrap().data()));
            }
            9 if Has::<RcNode<u8>>::SEND => {
                let mut t = Tree::new(1u8);
                t.push_back(Tree::new(2));
                let r = RcNode::from(t);
                let s = r.clone();
                par(move || *r.data_mut() = 3, move || *s.data_mut() = 4);
            }
            10 if Has::<trees::WeakNode<u8>>::SEND => {
                let r = RcNode::from(Tree::new(1u8));
                let (a, b) = (r.downgrade(), r.downgrade());
                par(move || *a.upgrade().unwrap().data_mut() = 3, move || *b.upgrade().unwrap().data_mut() = 4);
            }
            11 => {
                // the other way round: what a thread may have
                check(Has::<TreeWalk<u8>>::SEND && Has::<ForestWalk<u8>>::SEND, "a walk cannot be sent to a thread");
                check(Has::<TreeWalk<u8>>::SYNC && Has::<ForestWalk<u8>>::SYNC, "a walk cannot be shared between threads");
                // (a datum that may be sent but not shared, and one that may be shared but not sent)
                check(Has::<TreeWalk<Cel>>::SEND && Has::<ForestWalk<Cel>>::SEND, "a walk cannot be sent to a thread");
                type Guard = std::sync::MutexGuard<'static, u8>;
                check(Has::<TreeWalk<Guard>>::SYNC && Has::<ForestWalk<Guard>>::SYNC, "a walk cannot be shared between threads");
                cover("walks in threads");
            }
            _ => cover("kept from a thread"),
        }
    }
    end();
}
crate::harnesses! {
    c21_whose => whose,
    c21_parts => parts,
    c21_readers => readers,
}
